"""Remap of a HEALPix map onto a polar-cap grid."""
from fractions import Fraction
from symx.reg import add
from .ring import mids, draw_orders, choose
from .p21 import num
from .p07 import vec, mer
from .p25 import compare

P = 'P27'
NS = 256


def direction(h, v, alpha, beta):
    """Unit vector of the cap point (alpha away from the centre, position angle beta)."""
    return mer(h, v['c0'], v['c1'], vec(h, beta + v['shift'] + v['c0'], alpha))


def setup(h, s, kind):
    g = h.mod('magpie.' + kind)
    v = {k: num(h, k, s[k]) for k in ('a0', 'da', 'b0', 'b1', 'c0', 'c1', 'shift')}
    na, nb = s['n'][:2]
    H = g.Heal2Ring()
    H.setup_map(NS)
    kw = dict(beta_min=v['b0'], beta_max=v['b1'], center=[v['c0'], v['c1']])
    if s['shift'] != 0:
        kw['beta_shift'] = v['shift']
    if kind == 'densegrid':
        kw.update(rebin_alpha=s['n'][2], rebin_beta=s['n'][3])
    for k in s.get('drop', ()):
        kw.pop(k, None)
    H.setup_polar_cap(v['a0'], v['a0'] + v['da'], na, nb, **kw)
    return H, v


def heal(h, s, weights=False):
    na, nb, ra, rb = s['n']
    H, v = setup(h, s, 'densegrid')
    f = h.hmap('f', NS)
    w = h.hmap('w', NS, h.q(1, 1000), 1000) if weights else None
    if weights:
        # the product map is a map of its own
        out = H.remap(f, w=w)
    else:
        out = H.remap(f)
    h.check(out.shape == (nb, na), 'shape')
    A, B = mids(v['a0'], v['a0'] + v['da'], na * ra, h), mids(v['b0'], v['b1'], nb * rb, h)
    E = [v['a0'] + v['da'] * h.q(k, na * ra) for k in range(na * ra + 1)]
    C = [h.np.cos(e) for e in E]
    for b in range(nb):
        for a in range(na):
            n, d = 0, 0
            for i in range(a * ra, (a + 1) * ra):
                q = C[i] - C[i + 1]
                for j in range(b * rb, (b + 1) * rb):
                    p = h.dirpix(NS, *direction(h, v, A[i], B[j]))
                    n, d = n + q * f[p] * (w[p] if weights else 1), d + q * (w[p] if weights else 1)
            h.eq(out[b, a] * d, n, 'area-weighted mean')


base = dict(a0=0, da=('pi', '1/2'), b0=0, b1=('pi', 2), c0=0, c1=0, shift=0)


def spec(n, **kw):
    d = dict(base, n=n)
    d.update(kw)
    return d


S = {
    # alpha cells, beta cells, rebin_alpha, rebin_beta
    'centre': spec((1, 1, 1, 1), da=('pi', '1/3'), b1=('pi', '2/3'), c0=('pi', 0, 2), c1=('pi', 0, '11/12')),
    'spin': spec((1, 1, 1, 1), da=('pi', '1/3'), b1=('pi', '2/3'), c0=('pi', '1/4'), c1=('pi', '1/3'), shift=('pi', 0, 2)),
    'alpha-min': spec((1, 1, 1, 1), a0=('pi', 0, '1/4'), da=('pi', '1/3'), b1=('pi', '1/3'), c0=('pi', '4/3'), c1=('pi', '1/3')),
    'alpha-max': spec((1, 1, 1, 1), da=('pi', '1/8', 1), b1=('pi', '1/3'), c0=('pi', '4/3'), c1=('pi', '1/3')),
    'beta-min': spec((1, 1, 1, 1), da=('pi', '1/2'), b0=('pi', 0, '1/2'), c0=('pi', '4/3'), c1=('pi', '2/3')),
    'beta-max': spec((1, 1, 1, 1), da=('pi', '1/2'), b1=('pi', '1/12', 2), c0=('pi', '1/3'), c1=('pi', '1/2')),
    'bins': spec((2, 3, 1, 1), a0=('pi', '1/6'), da=('pi', '2/3'), b1=('pi', 1), c0=('pi', 0, 2), c1=('pi', '1/3')),
    'bins-centre': spec((2, 2, 1, 1), da=('pi', '2/3'), b0=('pi', '1/6'), b1=('pi', '5/6'), c0=('pi', '5/3'), c1=('pi', 0, '11/12')),
    'rebin-alpha': spec((1, 2, 3, 1), da=('pi', 1), b1=('pi', 1), c0=('pi', 0, 2), c1=('pi', '2/3')),
    'rebin-beta': spec((2, 1, 1, 3), da=('pi', '2/3'), b1=('pi', 2), c0=('pi', '1/2'), c1=('pi', 0, '11/12')),
    'rebin-both': spec((2, 1, 2, 3), a0=('pi', '1/12'), da=('pi', '2/3'), b1=('pi', 2), c0=('pi', 0, 2), c1=('pi', '1/4'), shift=('pi', '1/3')),
    'rebin-2x3-3x2': spec((2, 3, 3, 2), da=('pi', 1), b1=('pi', 1), c0=('pi', 0, 2), c1=0, shift=('pi', '7/4')),
    'pole-spin': spec((2, 1, 2, 1), da=('pi', '1/2'), b1=('pi', '3/2'), c0=0, c1=0, shift=('pi', 0, 2)),
    'shift-lat': spec((2, 2, 1, 2), a0=('pi', '1/6'), da=('pi', '2/3'), c0=('pi', '7/4'), c1=('pi', 0, '11/12'), shift=('pi', '3/2')),
    'full': spec((6, 1, 1, 1), da=('pi', 1), b1=('pi', 2), c0=('pi', 0, 2), c1=('pi', '1/3')),
    'wheel': spec((1, 6, 1, 1), da=('pi', '1/2'), b1=('pi', 2), c0=('pi', '2/3'), c1=('pi', 0, '11/12')),
    'default': spec((2, 4, 2, 2), da=('pi', '1/12', 1), drop=('beta_min', 'beta_max', 'center', 'rebin_alpha', 'rebin_beta')),
}


def note(s):
    return '%s cells (alpha, beta, rebin); ranges %s' % (s['n'], {a: c for a, c in s.items() if isinstance(c, tuple) and a not in ('n', 'drop') and len(c) == 3})


for k, s in S.items():
    add(P, k, heal, dict(s=s), bounds='nside %d, any map; %s' % (NS, note(s)), max_paths=200, budget=150)
    if k in ('centre', 'rebin-alpha', 'rebin-beta', 'rebin-2x3-3x2', 'default'):
        add(P, 'w-' + k, heal, dict(s=s, weights=True), bounds='with weights, any maps; ' + note(s), max_paths=200, budget=150)


def mc(h, s, size, weights=False, start=0, distinct=False):
    if distinct:
        h.distinct_pix()
    h.fix_draws(lambda n: Fraction(*(PHI if n // size % 2 == 0 else Z)[(n // size + n % size * 3 + start) % 7]))
    na, nb = s['n'][:2]
    H, v = setup(h, s, 'montecarlo')
    n0 = len(h.draws())
    H.get_weights(mc_size=size, verbose=False)
    u = h.draws()[n0:]
    h.check(len(u) == 2 * size * na * nb, 'number of draws')
    f = h.hmap('f', NS)
    w = h.hmap('w', NS, h.q(1, 1000), 1000) if weights else None
    out = H.remap(f, w=w, verbose=False) if weights else H.remap(f, verbose=False)
    h.check(out.shape == (nb, na), 'shape')
    A = [v['a0'] + v['da'] * h.q(k, na) for k in range(na + 1)]
    B = [v['b0'] + (v['b1'] - v['b0']) * h.q(k, nb) for k in range(nb + 1)]
    C = [h.np.cos(a) for a in A]

    def expected(u):
        res = []
        for b in range(nb):
            for a in range(na):
                n, d = 0, 0
                for k in range(size):
                    ub, ua = u(b * na + a, b, a, k)
                    alpha = h.np.arccos(C[a] - (C[a] - C[a + 1]) * ua)
                    p = h.dirpix(NS, *direction(h, v, alpha, B[b] + (B[b + 1] - B[b]) * ub))
                    n, d = n + f[p] * (w[p] if weights else 1), d + (w[p] if weights else 1)
                res.append(((b, a), n, d))
        return res
    choose(h, [lambda o=o: expected(o) for o in draw_orders(u, nb, na, size)], out, None, 'mean over the points of the cell')


PHI = [(1, 6), (3, 4), (5, 12), (7, 12), (1, 3), (1, 12), (11, 12)]
Z = [(1, 4), (2, 5), (1, 2), (5, 8), (1, 5), (3, 4), (1, 8)]
M = {
    'centre': (spec((1, 1), da=('pi', '1/2'), b1=('pi', 1), c0=('pi', 0, 2), c1=('pi', '1/3')), 2),
    'centre-3': (spec((1, 1), da=('pi', '1/2'), b1=('pi', 1), c0=('pi', '4/3'), c1=('pi', 0, '11/12')), 3),
    'bins': (spec((2, 3), a0=0, da=('pi', '2/3'), b1=('pi', 1), c0=('pi', 0, 2), c1=0), 2),
    'bins-3x2': (spec((3, 2), a0=0, da=('pi', '1/2'), b0=('pi', '1/2'), b1=('pi', '3/2'), c0=('pi', '3/4'), c1=('pi', '1/3'), shift=('pi', '1/2')), 2),
    'spin': (spec((1, 1), da=('pi', '1/2'), b1=('pi', 1), c0=('pi', '4/3'), c1=('pi', '1/3'), shift=('pi', 0, 2)), 2),
    'alpha': (spec((1, 1), da=('pi', '1/6', '1/2'), b1=('pi', 1), c0=('pi', '4/3'), c1=0), 2),
    'beta': (spec((1, 1), da=('pi', '1/2'), b0=('pi', 0, '1/2'), c0=('pi', '1/2'), c1=0), 2),
    'pole-shift': (spec((1, 2), da=('pi', '1/2'), c0=('pi', 0, 2), c1=0, shift=('pi', '1/3')), 2),
    'pole-spin': (spec((1, 1), da=('pi', '1/2'), b1=('pi', '3/2'), c0=0, c1=0, shift=('pi', 0, 2)), 2),
    'shift-2': (spec((2, 2), da=('pi', '2/3'), c0=('pi', '3/2'), c1=('pi', 0, '11/12'), shift=('pi', '3/2')), 2),
    'default': (spec((1, 2), da=('pi', '1/6', 1), drop=('beta_min', 'beta_max', 'center')), 2),
}
for t, (k, (s, z)) in enumerate(M.items()):
    add(P, 'mc-' + k, mc, dict(s=s, size=z, start=t, distinct=s['n'][0] > 1), bounds='Monte Carlo, %d points per cell at fixed draws%s; ' % (z, ', in different pixels' * (s['n'][0] > 1)) + note(s), max_paths=200, budget=150, max_draws=80)
    if k in ('centre', 'bins'):
        add(P, 'mc-w-' + k, mc, dict(s=s, size=z, weights=True, start=t, distinct=s['n'][0] > 1), bounds='Monte Carlo with weights; ' + note(s), max_paths=200, budget=150, max_draws=80)


def profile(h, s, kind, sigma, weights):
    na, nb = s['n'][:2]
    H, v = setup(h, s, kind)
    f = h.reals('f', (nb, na), -10 ** 6, 10 ** 6)
    g = h.reals('s', (nb, na), 0, 1000) if sigma else None
    w = h.reals('w', (nb, na), h.q(1, 1000), 1000) if weights else None
    kw = {}
    if sigma:
        kw['sigma'] = g
    if weights:
        kw['w'] = w
    out = H.polar2radial(f, **kw)
    A = [h.np.cos(v['a0'] + v['da'] * h.q(k, na)) for k in range(na + 1)]
    db = (v['b1'] - v['b0']) / nb
    area = h.arr([[(A[a] - A[a + 1]) * db for a in range(na)] for b in range(nb)])
    compare(h, out, f, area, h.pi / (3 * NS * NS), g, w, (nb, na))


R = {
    'default': spec((2, 3, 2, 2), da=('pi', '1/12', 1), drop=('beta_min', 'beta_max', 'center')),
    'sector': spec((3, 2, 1, 1), a0=('pi', '1/12', '1/4'), da=('pi', '1/2'), b0=('pi', '1/3'), b1=('pi', '1/2', 2)),
}
for k, s in R.items():
    for kind in ('densegrid', 'montecarlo'):
        for sg, w in ((False, True), (True, False), (True, True)):
            add(P, 'profile-%s-%s%s%s' % (kind, k, '-s' * sg, '-w' * w), profile, dict(s=s, kind=kind, sigma=sg, weights=w), bounds='radial profile; ' + note(s), budget=100)
