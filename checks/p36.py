"""Edges, midpoints, widths and grids that the remap objects show."""
from symx.reg import add

P = 'P36'


def axis(h, name, edges, mid, width, lo, hi, n):
    E = [lo + (hi - lo) * h.q(k, n) for k in range(n + 1)]
    M = [lo + (hi - lo) * h.q(2 * k + 1, 2 * n) for k in range(n)]
    h.check(edges.shape == (n + 1,) and mid.shape == (n,), name + ': number of edges and midpoints')
    h.eq(edges, h.arr(E), name + ': edges')
    h.eq(mid, h.arr(M), name + ': midpoints')
    h.eq(width, (hi - lo) / n, name + ': width')
    return M


def grids(h, gs, mids, order):
    """gs: the grids of each axis; order: position of each axis in the index."""
    import itertools
    shape = [None] * len(mids)
    for m, o in zip(mids, order):
        shape[o] = len(m)
    for g, m, o in zip(gs, mids, order):
        h.check(g.shape == tuple(shape), 'shape of the grid')
        for i in itertools.product(*map(range, shape)):
            h.eq(g[i], m[i[o]], 'value of the grid')


def span(h, name, lo, hi, w):
    a = h.real(name + '0', lo, hi)
    return a, a + h.real(name + 'w', h.q(1, 1000), w)


def box(h, kind, nx, ny, nr, npp, mode):
    B = h.mod('magpie.' + kind).Box2Ring()
    x0, x1 = span(h, 'x', -10000, 10000, 10000)
    y0, y1 = span(h, 'y', -10000, 10000, 10000)
    B.setup_box(x0, x1, nx, y0, y1, ny)
    def cartesian():
        X, Y = axis(h, 'x', B.xedges, B.xmid, B.dx, x0, x1, nx), axis(h, 'y', B.yedges, B.ymid, B.dy, y0, y1, ny)
        grids(h, (B.x2d, B.y2d), (X, Y), (1, 0))
    cartesian()
    if mode in ('lin', 'full'):
        r0, r1 = span(h, 'r', 0, 1000, 1000)
        if mode == 'full':
            kw, p0, p1 = {}, 0 * h.pi, 2 * h.pi
        else:
            p0, p1 = h.angle('p0', 0, '7/8'), h.angle('p1', 1, 2)
            kw = dict(pmin=p0, pmax=p1, center=[h.q(1), h.q(2)], phi_shift=h.pi / 3)
        (B.setup_polar if kind == 'densegrid' else B.setup_polar_lin)(r0, r1, nr, npp, **kw)
        R = axis(h, 'r', B.redges, B.rmid, B.dr, r0, r1, nr)
    else:
        r0, p0, p1 = h.real('r0', h.q(1, 1000), 1000), 0 * h.pi, 2 * h.pi
        z = mode == 'zero'
        B.setup_polar_log(r0, r0 * 2 ** (nr - z), nr, npp, addzero=z)
        E = ([0] if z else []) + [r0 * 2 ** k for k in range(nr + (not z))]
        h.eq(B.redges, h.arr(E), 'r: edges')
        R = [(a + b) / 2 for a, b in zip(E, E[1:])]
        h.eq(B.rmid, h.arr(R), 'r: midpoints')
        h.eq(B.dr, h.arr([b - a for a, b in zip(E, E[1:])]), 'r: widths')
    F = axis(h, 'phi', B.pedges, B.pmid, B.dp, p0, p1, npp)
    grids(h, (B.r2d, B.p2d), (R, F), (1, 0))
    cartesian()


def cube(h, kind, n, nr, mode):
    B = h.mod('magpie.' + kind).Cube2Shell()
    L = [span(h, a, -10000, 10000, 10000) for a in 'xyz']
    B.setup_cube(*[v for (a, b), k in zip(L, n) for v in (a, b, k)])
    M = [axis(h, a, getattr(B, a + 'edges'), getattr(B, a + 'mid'), getattr(B, 'd' + a), lo, hi, k) for a, (lo, hi), k in zip('xyz', L, n)]
    grids(h, (B.x3d, B.y3d, B.z3d), M, (1, 0, 2))
    c = [h.real('c%d' % k, -1000, 1000) for k in range(3)]
    if mode == 'lin':
        r0, r1 = span(h, 'r', 0, 1000, 1000)
        if kind == 'densegrid':
            B.setup_polar(r0, r1, nr, 2, center=c, rebin_shell=1, rebin_r=2)
        else:
            B.setup_polar_lin(r0, r1, nr, 2, center=c)
        axis(h, 'r', B.redges, B.rmid, B.dr, r0, r1, nr)
    else:
        r0 = h.real('r0', h.q(1, 1000), 1000)
        z = mode == 'zero'
        B.setup_polar_log(r0, r0 * 2 ** (nr - z), nr, 2, center=c, addzero=z)
        E = ([0] if z else []) + [r0 * 2 ** k for k in range(nr + (not z))]
        h.eq(B.redges, h.arr(E), 'r: edges')
        h.eq(B.rmid, h.arr([(a + b) / 2 for a, b in zip(E, E[1:])]), 'r: midpoints')
        h.eq(B.dr, h.arr([b - a for a, b in zip(E, E[1:])]), 'r: widths')
    h.check(B.nside == 2, 'nside')
    h.eq(list(B.center), c, 'center')


def ring(h, kind, na, nb, mode):
    H = h.mod('magpie.' + kind).Heal2Ring()
    H.setup_map(64)
    a0, a1 = (h.angle('a0', 0, '3/8'), h.angle('a1', '1/2', 1)) if mode != 'beta' else (h.pi / 12, h.pi * 3 / 4)
    if mode in ('full', 'alpha'):
        kw, b0, b1 = {}, 0 * h.pi, 2 * h.pi
    else:
        b0, b1 = h.angle('b0', 0, '7/8'), h.angle('b1', 1, 2)
        kw = dict(beta_min=b0, beta_max=b1)
    if mode in ('part', 'alpha'):
        kw['center'] = [h.pi / 2, h.pi / 3]
    if kind == 'densegrid':
        kw.update(rebin_alpha=1, rebin_beta=1)
    H.setup_polar_cap(a0, a1, na, nb, **kw)
    A = axis(h, 'alpha', H.alpha_edges, H.alpha_mid, H.dalpha, a0, a1, na)
    F = axis(h, 'beta', H.beta_edges, H.beta_mid, H.dbeta, b0, b1, nb)
    grids(h, (H.alpha2d, H.beta2d), (A, F), (1, 0))
    h.check(H.nside == 64, 'nside')


def view(h, kind, what, nx, ny, mode):
    m = h.mod('magpie.' + kind)
    H = m.Heal2Polar() if what == 'lonlat' else m.Heal2Ortho()
    H.setup_map(64)
    if what == 'lonlat':
        xl, yl = (h.angle('xl', '1/100', 2), h.angle('yl', '1/100', 1)) if mode != 'short' else (h.angle('xs', '1/100', 1), None)
        if mode == 'short':
            yl = xl
        if mode == 'long':
            xl, yl = h.angle('xs', 1, 2), h.pi
            h.assume(xl > h.pi)
    else:
        xl, yl = h.real('xl', h.q(1, 1000), 1000), h.real('yl', h.q(1, 1000), 1000)
        if mode != 'both':
            yl = xl
    kw = dict(y_length=yl, y_grid=ny) if mode == 'both' else {}
    if kind == 'densegrid':
        kw.update(rebin_x=1, rebin_y=1)
    if mode != 'both':
        ny = nx
    H.setup_box(xl, nx, **kw)
    X = axis(h, 'x', H.xedges, H.xmid, H.dx, -xl / 2, xl / 2, nx)
    Y = axis(h, 'y', H.yedges, H.ymid, H.dy, -yl / 2, yl / 2, ny)
    grids(h, (H.x2d, H.y2d), (X, Y), (1, 0))
    h.check(H.nside == 64, 'nside')


def ortho(h, nx, ny):
    """Height over the image plane and the cells on the sphere."""
    H = h.mod('magpie.densegrid').Heal2Ortho()
    H.setup_map(64)
    r = h.real('r', h.q(1, 4), 4)
    xl = h.q(3)
    H.setup_box(xl, nx, y_length=h.q(2), y_grid=ny, radius=r, rebin_x=1, rebin_y=1)
    for a in range(ny):
        for b in range(nx):
            x, y = -xl / 2 + xl * h.q(2 * b + 1, 2 * nx), -1 + h.q(2 * a + 1, ny)
            d = x * x + y * y - r * r
            h.assume((d > h.q(1, 10 ** 6)) | (d < h.q(-1, 10 ** 6)))
            if d < 0:
                h.eq(H.onsphere[a, b], 1, 'cell on the sphere')
                h.ge(H.z2d[a, b], 0, 'height')
                h.eq(H.z2d[a, b] * H.z2d[a, b], -d, 'height')
            else:
                h.check(h.isnan(H.onsphere[a, b]), 'cell off the sphere')
    h.eq(H.radius, r, 'radius')


for kind in ('densegrid', 'montecarlo'):
    for k, n in enumerate(((1, 1, 1, 1), (3, 2, 4, 5), (2, 5, 3, 2), (12, 7, 9, 16))):
        for mode in ('lin', 'full') + (('log', 'zero') if kind == 'montecarlo' and k in (1, 2) else ()):
            add(P, 'box-%s-%s-%d' % (kind, mode, k), box, dict(kind=kind, nx=n[0], ny=n[1], nr=n[2], npp=n[3], mode=mode), bounds='box %dx%d, polar grid %dx%d (r x phi), every range' % n, budget=60)
    for k, n in enumerate(((1, 1, 1, 1), (3, 2, 4, 5), (2, 5, 3, 2), (6, 4, 5, 8))):
        for mode in ('lin',) + (('log', 'zero') if kind == 'montecarlo' and k in (1, 2) else ()):
            if (mode, k) != ('zero', 0):
                add(P, 'cube-%s-%s-%d' % (kind, mode, k), cube, dict(kind=kind, n=n[:3], nr=n[3], mode=mode), bounds='cube %dx%dx%d, %d shells, every range' % n, budget=60)
    for na, nb in ((1, 1), (3, 2), (2, 5), (9, 12)):
        for mode in ('full', 'beta') + (('part', 'alpha') if kind == 'montecarlo' or (na, nb) == (1, 1) else ()):
            add(P, 'ring-%s-%dx%d-%s' % (kind, na, nb, mode), ring, dict(kind=kind, na=na, nb=nb, mode=mode), bounds='%d x %d cells, every range' % (na, nb), budget=60)
    for nx, ny in ((1, 1), (3, 2), (2, 5)):
        for mode in ('both', 'short', 'long'):
            add(P, 'lonlat-%s-%dx%d-%s' % (kind, nx, ny, mode), view, dict(kind=kind, what='lonlat', nx=nx, ny=ny, mode=mode), bounds='%d x %d cells, every length' % (nx, ny), budget=60)
for nx, ny in ((1, 1), (3, 2), (2, 5), (9, 7)):
    for mode in ('both', 'short') if nx < 9 else ('short',):
        add(P, 'ortho-%dx%d-%s' % (nx, ny, mode), view, dict(kind='densegrid', what='ortho', nx=nx, ny=ny, mode=mode), bounds='%d x %d cells, every length' % (nx, ny), budget=60)
for nx, ny in ((3, 2), (2, 4)):
    add(P, 'sphere-%dx%d' % (nx, ny), ortho, dict(nx=nx, ny=ny), bounds='%d x %d cells, radius in [1/4, 4]' % (nx, ny), budget=60)
