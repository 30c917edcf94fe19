"""Objects that are set up and used again give what new objects give."""
from fractions import Fraction
from symx.reg import add
from .p24 import V, W, Y

P = 'P31'
NS = 128
U = [(1, 6), (3, 5), (5, 11), (7, 12), (1, 3), (2, 17), (10, 13), (4, 7), (6, 19), (13, 16), (9, 10)]


def pi(h, a):
    return h.pi * h.q(a)


# ---- per class: set-up A, set-up B, use -------------------------------------

def grid_f(h, name, shape):
    return h.reals(name, shape, -10 ** 6, 10 ** 6)


def box(h, kind, log):
    g = h.mod('magpie.' + kind)
    x = h.real('x', h.q(1, 4), h.q(1, 2))
    def polar(B, n, m, center, rmin, rmax, **kw):
        c = list(center)
        if kind == 'densegrid':
            B.setup_polar(rmin, rmax, n, m, center=c, **kw)
        else:
            kw.pop('rebin_r', 0)
            kw.pop('rebin_p', 0)
            (B.setup_polar_log if log else B.setup_polar_lin)(rmin, rmax, n, m, center=c, **kw)
            B.get_weights(mc_size=2, verbose=False)
        h.eq(c, list(center), 'center kept')
    A1 = lambda B: B.setup_box(0, 4, 2, 0, 3, 3)
    A2 = lambda B: polar(B, 2, 1, (h.q(2), h.q('3/2')), h.q('1/4') + x, h.q(2), rebin_r=2, rebin_p=3, phi_shift=h.pi / 5)
    B1 = lambda B: B.setup_box(-1, 2, 3, -2, 2, 2)
    B2 = lambda B: polar(B, 1, 2, (h.q('1/8'), h.q('1/7')), h.q('1/9') + x / 2, h.q('6/5'), rebin_r=1, rebin_p=2, pmin=h.pi / 7, pmax=h.pi * 5 / 3)
    shapes = {1: ((3, 2), (1, 2)), 2: ((2, 3), (2, 1))}
    return g.Box2Ring, (A1, A2), (B1, B2), shapes, grid_f


def cube(h, kind, log):
    g = h.mod('magpie.' + kind)
    x = h.real('x', h.q(1, 4), h.q(1, 2)) if kind == 'densegrid' else None
    def polar(B, n, nside, center, rmin, rmax, **kw):
        c = list(center)
        if kind == 'densegrid':
            B.setup_polar(rmin, rmax, n, nside, center=c, **kw)
        else:
            (B.setup_polar_log if log else B.setup_polar_lin)(rmin, rmax, n, nside, center=c)
            B.get_weights(mc_size=1, verbose=False)
        h.eq(c, list(center), 'center kept')
    if kind == 'montecarlo':
        A1 = lambda B: B.setup_cube(-1, 2, 2, -2, 3, 3, -1, 2, 1)
        A2 = lambda B: polar(B, 1, 1, (h.q('1/7'), h.q(0), h.q('1/6')), h.q(0), h.q(2))
        B1 = lambda B: B.setup_cube(-2, 2, 3, -2, 1, 2, -1, 1, 2)
        B2 = lambda B: polar(B, 2, 1, (h.q('1/8'), h.q('1/7'), h.q(0)), h.q(0), h.q(1))
        return g.Cube2Shell, (A1, A2), (B1, B2), {1: ((3, 2, 1), None), 2: ((2, 3, 2), None)}, grid_f
    A1 = lambda B: B.setup_cube(0, 4, 2, 0, 3, 3, 0, 2, 1)
    A2 = lambda B: polar(B, 2, 1, (h.q('7/3'), h.q('16/9'), h.q('8/7')), x, h.q('5/4'), rebin_r=2, rebin_shell=2)
    B1 = lambda B: B.setup_cube(-1, 2, 3, -2, 2, 2, -1, 1, 2)
    B2 = lambda B: polar(B, 1, 1, (h.q('1/8'), h.q('1/7'), h.q('1/6')), x, h.q('7/6'))
    shapes = {1: ((3, 2, 1), None), 2: ((2, 3, 2), None)}
    return g.Cube2Shell, (A1, A2), (B1, B2), shapes, grid_f


def ring(h, kind, log):
    g = h.mod('magpie.' + kind)
    x = h.angle('x', '1/7', '1/6')
    def cap(H, lo, hi, na, nb, center, **kw):
        c = list(center)
        if kind != 'densegrid':
            kw.pop('rebin_alpha', 0)
            kw.pop('rebin_beta', 0)
        H.setup_polar_cap(lo, hi, na, nb, center=c, **kw)
        if kind != 'densegrid':
            H.get_weights(mc_size=2, verbose=False)
        h.eq(c, list(center), 'center kept')
    A1 = lambda H: H.setup_map(64)
    A2 = lambda H: cap(H, 0, h.pi / 2, 2, 1, (h.pi, h.pi / 3), rebin_alpha=2, rebin_beta=1, beta_shift=h.pi / 2)
    B1 = lambda H: H.setup_map(NS)
    B2 = lambda H: cap(H, h.pi / 6, h.pi / 2, 1, 2, (x, 0), beta_max=h.pi, rebin_alpha=1, rebin_beta=2)
    shapes = {1: (64, (1, 2)), 2: (NS, (2, 1))}
    return g.Heal2Ring, (A1, A2), (B1, B2), shapes, lambda h, n, s: h.hmap(n, s)


def lonlat(h, kind, log):
    g = h.mod('magpie.' + kind)
    x = h.angle('x', '1/7', '1/6')
    def setup(H, n, m, center, xl, yl, **kw):
        c = list(center)
        if kind != 'densegrid':
            kw.pop('rebin_x', 0)
            kw.pop('rebin_y', 0)
        H.setup_box(xl, n, center=c, y_length=yl, y_grid=m, **kw)
        if kind != 'densegrid':
            H.get_weights(mc_size=2, verbose=False)
        h.eq(c, list(center), 'center kept')
    A1 = lambda H: H.setup_map(64)
    A2 = lambda H: setup(H, 2, 1, (h.pi, h.pi / 2), h.pi / 2, h.pi / 3, alpha=h.pi / 2, rebin_x=1, rebin_y=2)
    B1 = lambda H: H.setup_map(NS)
    B2 = lambda H: setup(H, 1, 2, (x, h.pi / 2), h.pi / 3, h.pi / 2, rebin_x=2, rebin_y=1)
    shapes = {1: (64, None), 2: (NS, None)}
    return g.Heal2Polar, (A1, A2), (B1, B2), shapes, lambda h, n, s: h.hmap(n, s)


def ortho(h, kind, log):
    g = h.mod('magpie.densegrid')
    x = h.angle('x', '1/7', '1/6')
    def setup(H, n, m, center, xl, yl, **kw):
        c = list(center)
        H.setup_box(xl, n, center=c, y_length=yl, y_grid=m, **kw)
        h.eq(c, list(center), 'center kept')
    A1 = lambda H: H.setup_map(64)
    A2 = lambda H: setup(H, 2, 1, (h.pi, h.pi / 2), h.q(3), h.q(2), rebin_x=1, rebin_y=2, radius=h.q(2))
    B1 = lambda H: H.setup_map(NS)
    B2 = lambda H: setup(H, 1, 2, (x, h.q(0)), h.q(1), h.q(1), rebin_x=2, rebin_y=1)
    shapes = {1: (64, None), 2: (NS, None)}
    return g.Heal2Ortho, (A1, A2), (B1, B2), shapes, lambda h, n, s: h.hmap(n, s)


KINDS = {'box': box, 'cube': cube, 'ring': ring, 'lonlat': lonlat, 'ortho': ortho}


def use(h, H, which, shapes, data):
    """Everything an object gives: remaps (twice, with another in between), profile, mask."""
    f, f2, w, fp, sg = data[which]
    out = []
    keep = [h.snapshot(a) for a in (f, w)] if not isinstance(shapes[which][0], int) else None
    out.append(('remap', H.remap(f, verbose=False)))
    H.remap(f2, verbose=False)
    out.append(('remap again', H.remap(f, verbose=False)))
    if w is not None:
        out.append(('weighted remap', H.remap(f, w=w, verbose=False)))
    if shapes[which][1]:
        k2 = h.snapshot(fp)
        out.append(('profile', H.polar2radial(fp)))
        if sg is not None:
            for n, v in zip(('profile', 'error of the profile'), H.polar2radial(fp, sigma=sg)):
                out.append((n + ' with errors', v))
            out.append(('profile without errors', H.polar2radial(fp)))
        out.append(('rotated', H.rotate_polar(fp, h.pi * 2 / 3))) if which == 1 and shapes[1][1][0] > 1 else None
        h.eq(fp, k2, 'polar field kept')
    if keep:
        h.eq(f, keep[0], 'field kept')
        if w is not None:
            h.eq(w, keep[1], 'weights kept')
    return [o for o in out if o]


def reuse(h, what, kind, log=False, plan='AB', weights=True, draws=None):
    """plan: A, B = full set-ups; b = only the second half of set-up B again; c = clean."""
    if draws:
        h.fix_draws(lambda n: Fraction(*draws[n]))
    elif what == 'cube':
        h.fix_draws(lambda n: [V, Y, W][n % 3][(n // 3) % 7])
    else:
        h.fix_draws(lambda n: Fraction(*U[(n * 7 + n // 11) % len(U)]))
    if kind == 'montecarlo':
        h.distinct_pix()
    cls, A, B, shapes, make = KINDS[what](h, kind, log)
    data = {}
    for k in (1, 2):
        s, p = shapes[k]
        w = None
        if weights and not (what == 'cube' and kind == 'densegrid'):
            w = h.hmap('w%d' % k, s, h.q(1, 1000), 1000) if isinstance(s, int) else h.reals('w%d' % k, s, h.q(1, 8), 4)
        data[k] = (make(h, 'f%d' % k, s), make(h, 'g%d' % k, s), w, grid_f(h, 'p%d' % k, p) if p else None, h.reals('s%d' % k, p, h.q(1, 1000), 1000) if p else None)
    H = cls()
    out, l = None, []
    for c in plan:
        if c == 'c':
            H.clean()
            continue
        n0 = len(h.draws())
        if c == 'w':
            # new weights for the same set-up
            H.get_weights(mc_size=1 if what == 'cube' else 2, verbose=False)
            l = h.draws()[n0:]
            out = use(h, H, which, shapes, data)
            continue
        which, S = (1, A) if c in 'Aa' else (2, B)
        if c in 'AB':
            S[0](H)
        S[1](H)
        l = h.draws()[n0:]
        out = use(h, H, which, shapes, data)

    def fresh():
        H = cls()
        for s in S:
            s(H)
        return use(h, H, which, shapes, data)
    ref = h.replay(l, fresh) if l else fresh()
    for (n, a), (_, b) in zip(out, ref):
        h.check(tuple(h.np.shape(a)) == tuple(h.np.shape(b)), n + ' of a used object: shape')
        h.eq(a, b, n + ' of a used object')
    for n, a in out:
        if n == 'remap again':
            h.eq(a, out[0][1], 'remap repeated')


PLANS = {'again': 'AB', 'back': 'BA', 'there-and-back': 'ABA', 'clean': 'AcB', 'partly': 'BAB', 'twice': 'AA'}
for what in KINDS:
    for kind in ('densegrid', 'montecarlo'):
        if what == 'ortho' and kind == 'montecarlo':
            continue
        for k, p in PLANS.items():
            if k in ('there-and-back', 'twice') and kind == 'montecarlo':
                continue
            add(P, '%s-%s-%s' % (what, kind, k), reuse, dict(what=what, kind=kind, plan=p), bounds='set-ups %s' % p, budget=60, max_draws=400,
                tier='thorough' if (what, kind) == ('cube', 'densegrid') and k not in ('again', 'back') else 'quick')
    if what != 'ortho':
        for p in ('Aw', 'BwAw'):
            # the first and the second points of the box cells fall on different sides of the border
            d = [(15, 16) if k % 4 < 2 else (3, 20) if k < 8 else (2, 5) for k in range(16)] if what == 'box' and p == 'Aw' else None
            add(P, '%s-montecarlo-%s' % (what, p), reuse, dict(what=what, kind='montecarlo', plan=p, draws=d), bounds='set-ups and new weights, %s' % p, budget=60, max_draws=400)


def view(h):
    """PointOfView: a set-up replaces all of the earlier one."""
    g = h.mod('magpie.densegrid')
    x = h.real('x', 1, 4)
    V = g.PointOfView()
    cam, point = [h.q(1), h.q(2), h.q(3)], [h.q(4), h.q(6), h.q(3)]
    V.setup(cam, point, h.q(2), spin=h.pi / 2)
    V.transform(h.q(4), h.q(6), h.q(4))
    V.reverse(h.q(0), h.q(1), h.q(4))
    V.setup([h.q(0)] * 3, [h.q(0), h.q(3), h.q(4)], x)
    p1 = V.transform(h.q(1), h.q(5), h.q(2))
    q1 = V.reverse(h.q(1), h.q(2), h.q(3))
    F = g.PointOfView()
    F.setup([h.q(0)] * 3, [h.q(0), h.q(3), h.q(4)], x)
    h.eq(list(p1), list(F.transform(h.q(1), h.q(5), h.q(2))), 'transform of a used object')
    h.eq(list(q1), list(F.reverse(h.q(1), h.q(2), h.q(3))), 'reverse of a used object')
    V.clean()
    V.setup(cam, point, h.q(2), spin=h.pi / 2)
    F.setup(cam, point, h.q(2), spin=h.pi / 2)
    h.eq(list(V.transform(h.q(4), h.q(6), h.q(4))), list(F.transform(h.q(4), h.q(6), h.q(4))), 'transform of a cleaned object')
    h.eq(cam, [1, 2, 3], 'camera kept')
    h.eq(point, [4, 6, 3], 'point kept')


add(P, 'view', view, bounds='display distance in [1, 4]', budget=60)
add(P, 'box-montecarlo-log', reuse, dict(what='box', kind='montecarlo', log=True, plan='AB'), bounds='logarithmic edges', budget=60, max_draws=400)


# ---- one argument changed --------------------------------------------------

def args(what, kind, log):
    """Arguments of the two set-up calls and another value for each."""
    D = kind == 'densegrid'
    if what == 'box':
        a = dict(xmin=('q', 0), xmax=('q', 4), numx=3, ymin=('q', -1), ymax=('q', 3), numy=2)
        a2 = dict(xmin=('q', '-1/2'), xmax=('q', '9/2'), numx=2, ymin=('q', '-3/2'), ymax=('q', '7/2'), numy=3)
        b = dict(rmin=('q', '1/4'), rmax=('q', 2), numr=2, nump=2, pmin=('pi', '1/12'), pmax=('pi', '5/3'), center=(('q', '15/7'), ('q', '9/7')), phi_shift=('pi', '1/6'))
        b2 = dict(rmin=('q', '1/2'), rmax=('q', '9/4'), numr=1, nump=3, pmin=('pi', '1/4'), pmax=('pi', '7/4'), center=(('q', '15/7'), ('q', '8/7')), phi_shift=('pi', '1/3'))
        if D:
            b.update(rebin_r=2, rebin_p=2)
            b2.update(rebin_r=1, rebin_p=3)
        if log:
            b.update(addzero=True)
            b2.update(addzero=False)
        return 'setup_box', a, a2, 'setup_polar' if D else 'setup_polar_log' if log else 'setup_polar_lin', b, b2
    if what == 'cube':
        a, a2 = {}, {}
        for t, l, m, n in (('x', '-3/2', '3/2', 2), ('y', '-5/4', '7/4', 3), ('z', '-7/4', '5/4', 2)):
            a.update({t + 'min': ('q', l), t + 'max': ('q', m), 'num' + t: n})
            a2.update({t + 'min': ('q', '-2'), t + 'max': ('q', 2), 'num' + t: n - 1})
        b = dict(rmin=('q', '1/4'), rmax=('q', '9/4'), numr=1, nside=1, center=(('q', '1/20'), ('q', '1/30'), ('q', '1/40')))
        b2 = dict(rmin=('q', '1/2'), rmax=('q', '11/4'), numr=2, nside=2, center=(('q', '1/20'), ('q', '1/30'), ('q', '1/4')))
        if D:
            b.update(rebin_shell=1, rebin_r=1, periodicx=[0, 1], periodicy=[0, 1], periodicz=[0, 1])
            b2.update(rebin_shell=2, rebin_r=2, periodicx=[-1, 0], periodicy=[0, 2], periodicz=[-1, 1])
        if log:
            b.update(addzero=True)
            b2.update(addzero=False)
        return 'setup_cube', a, a2, 'setup_polar' if D else 'setup_polar_log' if log else 'setup_polar_lin', b, b2
    a, a2 = dict(nside=64), dict(nside=128)
    if what == 'ring':
        # midpoints of the fine cells at multiples of pi/12
        b = dict(alpha_min=('pi', '1/6'), alpha_max=('pi', '5/6'), num_alpha=2, num_beta=2, beta_min=('pi', '1/3'), beta_max=('pi', '5/3'), center=(('pi', '2/3'), ('pi', '1/3')), beta_shift=('pi', '1/2'))
        b2 = dict(alpha_min=('pi', '1/2'), alpha_max=('pi', '1/2'), num_alpha=1, num_beta=1, beta_min=('pi', '2/3'), beta_max=('pi', '2'), center=(('pi', '2/3'), ('pi', '1/2')), beta_shift=('pi', '1/6'))
        r = ('rebin_alpha', 'rebin_beta')
        name = 'setup_polar_cap'
    else:
        b = dict(x_length=('pi', '1/2'), x_grid=2, center=(('pi', '2/3'), ('pi', '1/3')), y_length=('pi', '1/3'), y_grid=2)
        b2 = dict(x_length=('pi', '2/3'), x_grid=1, center=(('pi', '2/3'), ('pi', '1/4')), y_length=('pi', '1/4'), y_grid=1)
        if what == 'ortho':
            b.update(x_length=('q', '5/4'), y_length=('q', '7/6'), radius=('q', 2))
            b2.update(x_length=('q', '4/3'), y_length=('q', 1), radius=('q', 3))
        else:
            b.update(alpha=('pi', '1/6') if D else ('pi', '1/2'))
            b2.update(alpha=('pi', '1/3') if D else ('pi', '1'))
            if not D:
                b['center'], b2['center'] = (('pi', '2/3'), ('pi', '1/2')), (('pi', '3/4'), ('pi', '1/2'))
        r = ('rebin_x', 'rebin_y')
        name = 'setup_box'
    if D:
        b.update({r[0]: 1 if what == 'ring' else 2, r[1]: 1})
        b2.update({r[0]: 2 if what == 'ring' else 1, r[1]: 2})
    return 'setup_map', a, a2, name, b, b2


def val(h, v):
    if isinstance(v, tuple) and v and v[0] == 'q':
        return h.q(v[1])
    if isinstance(v, tuple) and v and v[0] == 'pi':
        return h.pi * h.q(v[1])
    if isinstance(v, tuple):
        return [val(h, x) for x in v]
    return list(v) if isinstance(v, list) else v


def change(h, what, kind, arg, log=False):
    """Set up, used, set up again with one argument changed: what a new object gives."""
    h.fix_draws((lambda n: [V, Y, W][n % 3][(n // 3) % 7]) if what == 'cube' else (lambda n: Fraction(*U[(n * 7 + n // 11) % len(U)])))
    if kind == 'montecarlo':
        h.distinct_pix()
    n1, a, a2, n2, b, b2 = args(what, kind, log)
    cls = {'box': 'Box2Ring', 'cube': 'Cube2Shell', 'ring': 'Heal2Ring', 'lonlat': 'Heal2Polar', 'ortho': 'Heal2Ortho'}[what]
    C = getattr(h.mod('magpie.' + kind), cls)
    mc = 1 if what == 'cube' else 2

    def setup(H, a, b):
        getattr(H, n1)(**{k: val(h, v) for k, v in a.items()})
        getattr(H, n2)(**{k: val(h, v) for k, v in b.items()})
        if kind == 'montecarlo':
            H.get_weights(mc_size=mc, verbose=False)
    new = dict(a, **{arg: a2[arg]}) if arg in a else a, dict(b, **{arg: b2[arg]}) if arg in b else b
    data, shapes = {}, {}
    for k, (p, q) in ((1, (a, b)), (2, new)):
        if what == 'box':
            s, t = (p['numy'], p['numx']), (q['nump'], q['numr'])
        elif what == 'cube':
            s, t = (p['numy'], p['numx'], p['numz']), None
        else:
            s, t = p['nside'], (q['num_beta'], q['num_alpha']) if what == 'ring' else None
        m = (lambda n, **r: h.hmap(n, s, **r)) if isinstance(s, int) else (lambda n, **r: h.reals(n, s, -10 ** 6, 10 ** 6))
        w = None
        if not (what == 'cube' and kind == 'densegrid'):
            w = h.hmap('w%d' % k, s, h.q(1, 1000), 1000) if isinstance(s, int) else h.reals('w%d' % k, s, h.q(1, 8), 4)
        shapes[k] = s, t
        data[k] = m('f%d' % k), m('g%d' % k), w, grid_f(h, 'p%d' % k, t) if t else None, h.reals('s%d' % k, t, h.q(1, 1000), 1000) if t else None
    H = C()
    setup(H, a, b)
    use(h, H, 1, shapes, data)
    n0 = len(h.draws())
    setup(H, *new)
    l = h.draws()[n0:]
    out = use(h, H, 2, shapes, data)

    def fresh():
        H = C()
        setup(H, *new)
        return use(h, H, 2, shapes, data)
    ref = h.replay(l, fresh) if l else fresh()
    for (n, x), (_, y) in zip(out, ref):
        h.check(tuple(h.np.shape(x)) == tuple(h.np.shape(y)), n + ' after a change of one argument: shape')
        h.eq(x, y, n + ' after a change of one argument')


def changes(h, what, kind, l, log=False):
    for arg in l:
        change(h, what, kind, arg, log)


for what in KINDS:
    for kind in ('densegrid', 'montecarlo'):
        if what == 'ortho' and kind == 'montecarlo':
            continue
        for log in (False, True) if what in ('box', 'cube') and kind == 'montecarlo' else (False,):
            x = args(what, kind, log)
            l = sorted(x[1]) + sorted(x[4])
            if log:
                l = sorted(x[4])
            # the changes of one call share a configuration where they are cheap
            step = 4
            for i in range(0, len(l), step):
                add(P, 'change-%s-%s%s-%s' % (what, kind, '-log' if log else '', '-'.join(l[i:i + step])), changes, dict(what=what, kind=kind, l=l[i:i + step], log=log),
                    bounds='only one of %s changed' % ', '.join(l[i:i + step]), budget=90, max_draws=1200)
