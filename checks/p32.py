"""Rotation of polar angles and of polar grids."""
from symx.reg import add
from .p21 import setup as box_setup, spec as box_spec
from .p27 import setup as cap_setup, spec as cap_spec, NS

P = 'P32'


def angles(h, shape):
    c = h.mod('magpie.coords')
    a = h.angle('a', '1/1000', '1999/1000')
    n = shape[0] * (shape[1] if len(shape) > 1 else 1)
    ph = [h.angle('phi%d' % i, 0, 2) for i in range(n)]
    A = h.arr(ph).reshape(shape)
    s = h.snapshot(A)
    out = c.rotate_polar(A, a)
    h.eq(A, s, 'input kept')
    h.check(tuple(out.shape) == tuple(shape), 'shape')
    for p, o in zip(ph, list(out.flatten())):
        h.ge(o, 0, 'wrapped')
        h.le(o, 2 * h.pi, 'wrapped')
        k = p + a - o
        h.eq(k * (k - 2 * h.pi), 0, 'rotated by a whole turn or none')
        if p + a < 2 * h.pi:
            h.eq(o, p + a, 'no turn taken off below 2 pi')


for s in ((1,), (3,), (2, 2)):
    add(P, 'angles-' + 'x'.join(map(str, s)), angles, dict(shape=s), bounds='angles in [0, 2 pi], rotation in [0.001 pi, 1.999 pi]', budget=60)


def rows(h, f, out, n, m, s, span, full):
    """out follows f by linear interpolation between rows, for a rotation s over n rows covering span."""
    h.check(tuple(out.shape) == (n, m), 'shape')
    dp = span / n
    k = 0
    while k < 4 * n and not s < (k + 1) * dp:
        k += 1
    w = s / dp - k
    for i in range(n):
        if not full and i + k + 1 >= n:
            continue
        for j in range(m):
            h.eq(out[i, j], (1 - w) * f[(i + k) % n, j] + w * f[(i + k + 1) % n, j], 'interpolated row')
    if full:
        for j in range(m):
            h.eq(sum(out[i, j] for i in range(n)), sum(f[i, j] for i in range(n)), 'sum over the ring kept')


def grid(h, n, m, lo=0, hi=2):
    c = h.mod('magpie.coords')
    s = h.angle('s', '1/1000', '1999/1000')
    f = h.reals('f', (n, m), -10 ** 6, 10 ** 6)
    k = h.snapshot(f)
    e = h.np.linspace(h.pi * h.q(lo), h.pi * h.q(hi), n + 1)
    ke = h.snapshot(e)
    out = c.rotate_polar_grid(e, f, s)
    h.eq(f, k, 'input kept')
    h.eq(e, ke, 'edges kept')
    rows(h, f, out, n, m, s, h.pi * (h.q(hi) - h.q(lo)), h.q(hi) - h.q(lo) == 2)


for n, m in ((1, 1), (1, 2), (2, 1), (3, 2), (4, 1), (5, 3), (8, 1), (12, 1), (24, 1)):
    add(P, 'grid-%dx%d' % (n, m), grid, dict(n=n, m=m), bounds='%d rows around the circle, %d columns' % (n, m), budget=60)
for n, lo, hi in ((3, 0, 1), (4, '1/4', '3/4'), (5, '1/3', 2), (6, 0, '3/2')):
    add(P, 'part-%d' % n, grid, dict(n=n, m=1, lo=lo, hi=hi), bounds='%d rows from %s pi to %s pi' % (n, lo, hi), budget=60)


def by_class(h, what, kind, n, m):
    """rotate_polar of the ring classes."""
    g = h.mod('magpie.' + kind)
    s = h.angle('s', '1/1000', '1999/1000')
    f = h.reals('f', (n, m), -10 ** 6, 10 ** 6)
    if what == 'box':
        B = g.Box2Ring()
        B.setup_box(0, 4, 3, 0, 3, 2)
        if kind == 'densegrid':
            B.setup_polar(h.q(1, 2), 2, m, n, center=[2, 1])
        else:
            B.setup_polar_lin(h.q(1, 2), 2, m, n, center=[2, 1])
    else:
        B = g.Heal2Ring()
        B.setup_map(4)
        B.setup_polar_cap(0, h.pi / 3, m, n, center=[h.pi / 3, h.pi / 4])
    k = h.snapshot(f)
    out = B.rotate_polar(f, s)
    h.eq(f, k, 'input kept')
    rows(h, f, out, n, m, s, 2 * h.pi, True)
    bad = h.reals('g', (n + 1, m), -1, 1)
    h.raises(lambda: B.rotate_polar(bad, s), (AssertionError, ValueError), 'another shape is refused')


for what in ('box', 'cap'):
    for kind in ('densegrid', 'montecarlo'):
        for n, m in ((3, 2), (6, 1)):
            add(P, '%s-%s-%dx%d' % (what, kind, n, m), by_class, dict(what=what, kind=kind, n=n, m=m), bounds='%d rows, %d columns' % (n, m), budget=60)


def agree_box(h, s, k):
    """Shifting the set-up by whole rows is rotating the remapped grid."""
    npp = s['n'][3]
    B, v, _ = box_setup(h, s)
    f = h.reals('f', (s['n'][1], s['n'][0]), -10 ** 6, 10 ** 6)
    out = B.remap(f)
    C, w, _ = box_setup(h, dict(s, shift=('pi', '%d/%d' % (2 * k, npp)), **{a: s[a] for a in ('cx', 'cy')}))
    moved = C.remap(f)
    turn = B.rotate_polar(out, 2 * h.pi * k / npp)
    h.eq(moved, turn, 'shifted set-up and rotated grid')


def agree_cap(h, s, k):
    nb = s['n'][1]
    B, v = cap_setup(h, s, 'densegrid')
    f = h.hmap('f', NS)
    out = B.remap(f)
    C, w = cap_setup(h, dict(s, shift=('pi', '%d/%d' % (2 * k, nb))), 'densegrid')
    moved = C.remap(f)
    turn = B.rotate_polar(out, 2 * h.pi * k / nb)
    h.eq(moved, turn, 'shifted set-up and rotated grid')


def near(h, s, k):
    """Keep the sample points off the borders of the box cells."""
    from .p21 import samples, num
    v = {a: num(h, a, s[a]) for a in ('x0', 'y0', 'Lx', 'Ly', 'rmin', 'dr', 'pmin', 'pmax', 'cx', 'cy', 'shift')}
    samples(h, s, v, v['rmin'] + v['dr'])
    agree_box(h, s, k)


X = box_spec((4, 3, 2, 6, 1, 1), x0=-2, y0=-2, Lx=4, Ly='9/2', rmin='1/2', dr='3/2', pmin=0, pmax=('pi', 2), cx='1/7', cy='1/5')
for k in (1, 2, 5):
    add(P, 'agree-box-%d' % k, near, dict(s=X, k=k), bounds='6 rows, shift by %d rows, any field' % k, budget=60)
Y = cap_spec((2, 6, 1, 1), da=('pi', '2/3'), c0=('pi', '4/3'), c1=('pi', '1/3'))
for k in (1, 2, 5):
    add(P, 'agree-cap-%d' % k, agree_cap, dict(s=Y, k=k), bounds='6 rows, shift by %d rows, any map' % k, budget=100)
