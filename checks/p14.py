"""Uniform Cartesian and polar grids."""
from symx.reg import add

P = 'P14'


def edges_ok(h, e, x0, L, n, label):
    h.check(len(e) == n + 1, label + ': number of edges')
    for k in range(n + 1):
        h.eq(e[k], x0 + L * h.q(k, n), label + ': edge')


def mids_ok(h, m, x0, L, n, label):
    h.check(len(m) == n, label + ': number of cells')
    for k in range(n):
        h.eq(m[k], x0 + L * h.q(2 * k + 1, 2 * n), label + ': centre')


def one(h, n, given):
    g = h.mod('magpie.grids')
    L = h.real('L', h.q(1, 1000), 10000)
    x0 = h.real('x0', -10000, 10000) if given else 0
    kw = dict(xmin=x0) if given else {}
    e = g.get_xedges(L, n, **kw)
    edges_ok(h, e, x0, L, n, 'edges')
    s = h.snapshot(e)
    m = g.xedges2mid(e)
    h.eq(e, s, 'input kept')
    mids_ok(h, m, x0, L, n, 'mids')
    mids_ok(h, g.grid1d(L, n, **kw), x0, L, n, 'grid1d')
    mm, ee = g.grid1d(L, n, return_edges=True, **kw)
    mids_ok(h, mm, x0, L, n, 'grid1d')
    edges_ok(h, ee, x0, L, n, 'grid1d')


def mid2edges(h, n):
    g = h.mod('magpie.grids')
    x0, L = h.real('x0', -10000, 10000), h.real('L', h.q(1, 1000), 10000)
    m = h.arr([x0 + L * h.q(2 * k + 1, 2 * n) for k in range(n)])
    e = g.xmid2edges(m)
    h.check(len(e) == n + 1, 'number of edges')
    dx = L / n
    ok, wrong = True, True
    near = lambda a, b: (a - b < h.q(1, 10 ** 9)) & (a - b > h.q(-1, 10 ** 9))
    for k in range(n + 1):
        ok = ok & near(e[k], x0 + k * dx)
        wrong = wrong & near(e[k], m[k] - dx if k < n else m[n - 1] + dx)
    h.known('xmid2edges', ok, wrong, 'edges from centres')


def irregular(h, n):
    """xedges2mid of any edges."""
    g = h.mod('magpie.grids')
    e = h.reals('e', n + 1, -9, 9)
    m = g.xedges2mid(e)
    h.check(len(m) == n, 'number of cells')
    for k in range(n):
        h.eq(m[k] * 2, e[k] + e[k + 1], 'centre between its edges')


def cart(h, ns, scalar_n, scalar_L, mins, ret1d):
    g = h.mod('magpie.grids')
    d = len(ns)
    if scalar_L:
        L = h.real('L', h.q(1, 1000), 10000)
        Ls, La = [L] * d, L
    else:
        Ls = [h.real('L%d' % t, h.q(1, 1000), 10000) for t in range(d)]
        La = Ls
    na = ns[0] if scalar_n else list(ns)
    x0 = [0] * d
    kw = {}
    if mins == 'all':
        x0 = [h.real('x%d' % t, -10000, 10000) for t in range(d)]
        kw['mins'] = list(x0)
    elif mins == 'one':
        x0[d - 1] = h.real('x%d' % (d - 1), -10000, 10000)
        kw['mins'] = [None] * (d - 1) + [x0[d - 1]]
    f = g.grid2d if d == 2 else g.grid3d
    out = f(La, na, return1d=True, **kw) if ret1d else f(La, na, **kw)
    h.check(len(out) == (2 * d if ret1d else d), 'number of outputs')
    for t in range(d):
        h.check(out[t].shape == tuple(ns), 'shape')
    idx = [()]
    for n in ns:
        idx = [i + (k,) for i in idx for k in range(n)]
    for i in idx:
        for t in range(d):
            h.eq(out[t][i], x0[t] + Ls[t] * h.q(2 * i[t] + 1, 2 * ns[t]), 'coordinate along axis %d' % t)
    if ret1d:
        for t in range(d):
            mids_ok(h, out[d + t], x0[t], Ls[t], ns[t], 'axis %d' % t)


def polar(h, nr, nphi, default, ret1d):
    g = h.mod('magpie.grids')
    if default:
        r0, r1, p0, p1, kw = 0, 1, 0, 2 * h.pi, {}
    else:
        r0 = h.real('r0', 0, 1000)
        r1 = r0 + h.real('w', h.q(1, 1000), 1000)
        p0, p1 = h.angle('p0', -2, 2), h.angle('p1', -2, 4)
        h.assume(p0 < p1)
        kw = dict(rmin=r0, rmax=r1, phimin=p0, phimax=p1)
    out = g.polargrid(nr, nphi, return1d=True, **kw) if ret1d else g.polargrid(nr, nphi, **kw)
    h.check(len(out) == (4 if ret1d else 2), 'number of outputs')
    for a in range(nr):
        for b in range(nphi):
            h.eq(out[0][a, b], r0 + (r1 - r0) * h.q(2 * a + 1, 2 * nr), 'radius')
            h.eq(out[1][a, b], p0 + (p1 - p0) * h.q(2 * b + 1, 2 * nphi), 'angle')
    h.check(out[0].shape == (nr, nphi) and out[1].shape == (nr, nphi), 'shape')
    if ret1d:
        mids_ok(h, out[2], r0, r1 - r0, nr, 'radii')
        mids_ok(h, out[3], p0, p1 - p0, nphi, 'angles')


B = 'every length in [0.001,10000] and origin in [-10000,10000]'
for n in (1, 2, 3, 5, 8, 17):
    for gv in (False, True):
        add(P, 'one-%d-%s' % (n, 'min' if gv else 'zero'), one, dict(n=n, given=gv), bounds='%d cells; %s' % (n, B))
for n in (2, 3, 4):
    add(P, 'mid2edges-%d' % n, mid2edges, dict(n=n), bounds='%d cells; %s' % (n, B))
    add(P, 'irregular-%d' % n, irregular, dict(n=n), bounds='%d cells, any edges' % n)
for i, (ns, sn, sl, mn, r1) in enumerate([((2, 3), 0, 0, 'all', 1), ((3, 2), 0, 0, 'all', 0), ((2, 2), 1, 1, 'none', 1), ((3, 1), 0, 1, 'one', 1), ((2, 2), 1, 0, 'all', 0),
                                          ((2, 3, 1), 0, 0, 'all', 1), ((1, 2, 3), 0, 0, 'one', 0), ((2, 2, 2), 1, 1, 'none', 1), ((2, 1, 3), 0, 1, 'all', 1), ((2, 2, 2), 1, 0, 'all', 0)]):
    add(P, 'grid-%s-%d' % ('x'.join(map(str, ns)), i), cart, dict(ns=ns, scalar_n=sn, scalar_L=sl, mins=mn, ret1d=r1), bounds='cells %s; %s' % (ns, B))
for nr, npp, df, r1 in [(2, 3, False, True), (3, 2, False, False), (1, 1, False, True), (2, 3, True, True), (1, 4, True, False)]:
    add(P, 'polar-%dx%d-%d' % (nr, npp, df), polar, dict(nr=nr, nphi=npp, default=df, ret1d=r1), bounds='%d x %d cells, every range' % (nr, npp))
