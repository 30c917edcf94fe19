"""Remap of a HEALPix map onto a longitude-latitude box."""
from fractions import Fraction
from symx.reg import add
from .ring import mids, draw_orders, choose
from .p21 import num
from .p07 import vec, mer, about

P = 'P28'
NS = 256


def direction(h, v, x, y):
    """Unit vector of the box point (longitude x, latitude y)."""
    p = vec(h, x, h.pi / 2 - y)
    if not isinstance(v['alpha'], int):
        p = about([1, 0, 0], v['alpha'], p, h)
    c, s = h.np.cos(v['c0']), h.np.sin(v['c0'])
    p = [c * p[0] - s * p[1], s * p[0] + c * p[1], p[2]]
    return mer(h, v['c0'], v['c1'] - h.pi / 2, p)


def setup(h, s, kind):
    g = h.mod('magpie.' + kind)
    v = {k: num(h, k, s[k]) for k in ('xl', 'yl', 'c0', 'c1', 'alpha')}
    nx, ny = s['n'][:2]
    H = g.Heal2Polar()
    H.setup_map(NS)
    kw = dict(center=[v['c0'], v['c1']], y_length=v['yl'], y_grid=ny)
    if s['alpha'] != 0:
        kw['alpha'] = v['alpha']
    if kind == 'densegrid':
        kw.update(rebin_x=s['n'][2], rebin_y=s['n'][3])
    for k in s.get('drop', ()):
        kw.pop(k, None)
    if s.get('y') == 'x':
        v['yl'] = v['xl']
    H.setup_box(v['xl'], nx, **kw)
    return H, v


def heal(h, s, weights=False):
    nx, ny, rx, ry = s['n']
    H, v = setup(h, s, 'densegrid')
    f = h.hmap('f', NS)
    w = h.hmap('w', NS, h.q(1, 1000), 1000) if weights else None
    out = H.remap(f, w=w) if weights else H.remap(f)
    h.check(tuple(out.shape) == (ny, nx), 'shape')
    X, Y = mids(-v['xl'] / 2, v['xl'] / 2, nx * rx, h), mids(-v['yl'] / 2, v['yl'] / 2, ny * ry, h)
    S = [h.np.sin(v['yl'] * (h.q(k, ny * ry) - h.q(1, 2))) for k in range(ny * ry + 1)]
    for i in range(ny):
        for j in range(nx):
            n, d = 0, 0
            for a in range(i * ry, (i + 1) * ry):
                q = S[a + 1] - S[a]
                for b in range(j * rx, (j + 1) * rx):
                    p = h.dirpix(NS, *direction(h, v, X[b], Y[a]))
                    n, d = n + q * f[p] * (w[p] if weights else 1), d + q * (w[p] if weights else 1)
            h.eq(out[i, j] * d, n, 'area-weighted mean')


base = dict(xl=('pi', '1/2'), yl=('pi', '1/3'), c0=('pi', '1/3'), c1=('pi', '1/3'), alpha=0)


def spec(n, **kw):
    d = dict(base, n=n)
    d.update(kw)
    return d


S = {
    # x cells, y cells, rebin_x, rebin_y
    'lon': spec((1, 1, 1, 1), c0=('pi', 0, 2)),
    'lat': spec((2, 1, 1, 1), xl=('pi', '2/3'), yl=('pi', '1/2'), c1=('pi', '1/12', '11/12')),
    'spin': spec((2, 1, 1, 1), xl=('pi', '2/3'), c0=('pi', '3/4'), c1=('pi', '2/3'), alpha=('pi', 0, 2)),
    'x-length': spec((2, 1, 1, 1), xl=('pi', '1/12', 2), c0=('pi', '5/4'), c1=('pi', '1/4')),
    'y-length': spec((1, 2, 1, 1), yl=('pi', '1/12', 1), c0=('pi', '5/3'), c1=('pi', '2/3')),
    'rebin-x': spec((1, 2, 3, 1), xl=('pi', 1), yl=('pi', '2/3'), c0=('pi', 0, 2), c1=('pi', '1/2')),
    'rebin-y': spec((2, 1, 1, 3), xl=('pi', '4/3'), yl=('pi', 1), c0=('pi', 0, 2), c1=('pi', '1/2')),
    'rebin-lat': spec((1, 1, 2, 2), xl=('pi', 2), yl=('pi', '2/3'), c0=('pi', '4/3'), c1=('pi', '1/12', '11/12')),
    'rebin-2x3-3x2': spec((2, 3, 3, 2), xl=('pi', 2), yl=('pi', 1), c0=('pi', 0, 2), c1=('pi', '1/2')),
    'rebin-3x2-2x3': spec((3, 2, 2, 3), xl=('pi', 2), yl=('pi', 1), c0=('pi', 0, 2), c1=('pi', '1/2')),
    'tall': spec((1, 70, 1, 1), xl=('pi', '1/2'), yl=('pi', 1), c1=('pi', '1/2')),
    'tall-rebin': spec((1, 1, 1, 72), xl=('pi', '1/2'), yl=('pi', 1), c0=('pi', '2/3'), c1=('pi', '1/4')),
    'wide': spec((16, 1, 1, 1), xl=('pi', 2), yl=('pi', '1/2'), c0=('pi', 0, 2), c1=('pi', '1/2')),
    'tall-lon': spec((1, 12, 1, 1), xl=('pi', '1/2'), yl=('pi', 1), c0=('pi', 0, 2), c1=('pi', '1/2')),
    'spin-2x2': spec((2, 2, 1, 1), xl=('pi', 1), yl=('pi', '2/3'), c0=('pi', 0, 2), c1=('pi', '1/2'), alpha=('pi', '7/4')),
    'default': spec((2, 2, 2, 2), xl=('pi', '2/3'), c0=0, c1=0, drop=('center', 'rebin_x', 'rebin_y', 'y_length', 'y_grid'), y='x'),
    'default-long': spec((2, 2, 2, 2), xl=('pi', '3/2'), yl=('pi', 1), c0=0, c1=0, drop=('center', 'rebin_x', 'rebin_y', 'y_length', 'y_grid')),
}


def note(s):
    return '%s cells (x, y, rebin); ranges %s' % (s['n'], {a: c for a, c in s.items() if isinstance(c, tuple) and a not in ('n', 'drop') and len(c) == 3})


for k, s in S.items():
    add(P, k, heal, dict(s=s), bounds='nside %d, any map; %s' % (NS, note(s)), max_paths=200, budget=150)
    if k in ('lon', 'rebin-x', 'rebin-y', 'rebin-2x3-3x2', 'default'):
        add(P, 'w-' + k, heal, dict(s=s, weights=True), bounds='with weights, any maps; ' + note(s), max_paths=200, budget=150)


def mc(h, s, size, weights=False, start=0, distinct=False):
    if distinct:
        h.distinct_pix()
    h.fix_draws(lambda n: Fraction(*(PHI if n // size % 2 == 0 else Z)[(n // size + n % size * 3 + start) % 7]))
    nx, ny = s['n'][:2]
    H, v = setup(h, s, 'montecarlo')
    n0 = len(h.draws())
    H.get_weights(mc_size=size, verbose=False)
    u = h.draws()[n0:]
    h.check(len(u) == 2 * size * nx * ny, 'number of draws')
    f = h.hmap('f', NS)
    w = h.hmap('w', NS, h.q(1, 1000), 1000) if weights else None
    out = H.remap(f, w=w, verbose=False) if weights else H.remap(f, verbose=False)
    h.check(tuple(out.shape) == (ny, nx), 'shape')
    X = [v['xl'] * (h.q(k, nx) - h.q(1, 2)) for k in range(nx + 1)]
    Y = [h.np.sin(v['yl'] * (h.q(k, ny) - h.q(1, 2))) for k in range(ny + 1)]

    def expected(u, flip):
        res = []
        for i in range(ny):
            for j in range(nx):
                n, d = 0, 0
                for k in range(size):
                    ux, uy = u(i * nx + j, i, j, k)
                    if flip:
                        uy = 1 - uy
                    y = h.pi / 2 - h.np.arccos(Y[i] + (Y[i + 1] - Y[i]) * uy)
                    p = h.dirpix(NS, *direction(h, v, X[j] + (X[j + 1] - X[j]) * ux, y))
                    n, d = n + f[p] * (w[p] if weights else 1), d + (w[p] if weights else 1)
                res.append(((i, j), n, d))
        return res
    choose(h, [lambda o=o, fl=fl: expected(o, fl) for fl in (True, False) for o in draw_orders(u, ny, nx, size)], out, None, 'mean over the points of the cell')


PHI = [(1, 6), (3, 4), (5, 12), (7, 12), (1, 3), (1, 12), (11, 12)]
Z = [(1, 4), (2, 5), (1, 2), (5, 8), (1, 5), (3, 4), (1, 8)]
M = {
    'lon': (spec((1, 1), xl=('pi', 1), yl=('pi', '1/2'), c0=('pi', 0, 2), c1=('pi', '1/2')), 3),
    'lat': (spec((1, 1), xl=('pi', 1), yl=('pi', '1/2'), c0=('pi', '4/3'), c1=('pi', '1/12', '11/12')), 2),
    'bins': (spec((2, 3), xl=('pi', 1), yl=('pi', 1), c0=('pi', 0, 2), c1=('pi', '1/2')), 2),
    'bins-3x2': (spec((3, 2), xl=('pi', '3/2'), yl=('pi', '2/3'), c0=('pi', '3/4'), alpha=('pi', '1/2')), 2),
    'spin': (spec((1, 1), xl=('pi', 1), yl=('pi', '1/2'), c0=('pi', '4/3'), c1=('pi', '1/2'), alpha=('pi', 0, 2)), 2),
    'x-length': (spec((2, 1), xl=('pi', '1/12', 2), yl=('pi', '1/2'), c0=('pi', '2/3'), c1=('pi', '1/2')), 2),
    'y-length': (spec((1, 1), xl=('pi', 1), yl=('pi', '1/12', 1), c0=('pi', '1/3'), c1=('pi', '1/2')), 2),
    'default': (spec((2, 2), xl=('pi', '2/3'), c0=0, c1=0, drop=('center', 'y_length', 'y_grid'), y='x'), 2),
    'default-long': (spec((2, 2), xl=('pi', '3/2'), yl=('pi', 1), c0=0, c1=0, drop=('center', 'y_length', 'y_grid')), 2),
}
for t, (k, (s, z)) in enumerate(M.items()):
    d = s['n'][0] * s['n'][1] > 1
    add(P, 'mc-' + k, mc, dict(s=s, size=z, start=t, distinct=d), bounds='Monte Carlo, %d points per cell at fixed draws%s; ' % (z, ', in different pixels' * d) + note(s), max_paths=200, budget=150, max_draws=80)
    if k in ('lon', 'bins'):
        add(P, 'mc-w-' + k, mc, dict(s=s, size=z, weights=True, start=t, distinct=d), bounds='Monte Carlo with weights; ' + note(s), max_paths=200, budget=150, max_draws=80)
