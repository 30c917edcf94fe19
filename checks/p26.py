"""Radial profiles from the ring remaps of a box."""
from symx.reg import add
from .p21 import setup as dense_setup, spec
from .p22 import setup as mc_setup, fixed
from .p25 import compare

P = 'P26'


def profile(h, s, kind, sigma=False, weights=False, lazy=True, size=2, lo='1/8'):
    nr, npp = s['n'][2:4]
    nx, ny = s['n'][:2]
    if kind == 'dense':
        B, v, rmax = dense_setup(h, s)
        E = [v['rmin'] + v['dr'] * h.q(k, nr) for k in range(nr + 1)]
    else:
        h.fix_draws(fixed((), size))
        B, v, E, F = mc_setup(h, s)
        B.get_weights(mc_size=size, verbose=False)
    shape = (npp, nr)
    f = h.reals('f', shape, -10 ** 6, 10 ** 6)
    g = h.reals('s', shape, 0, 1000) if sigma else None
    w = h.reals('w', shape, h.q(lo), 4) if weights else None
    kept = [x for x in (f, g, w) if x is not None]
    snap = [h.snapshot(x) for x in kept]
    kw = {}
    if sigma:
        kw['sigma'] = g
    if weights:
        kw['w'] = w
    if not lazy:
        B.get_mask_in_bound(verbose=False)
    out = B.polar2radial(f, **kw)
    for x, y in zip(kept, snap):
        h.eq(x, y, 'input kept')
    M = B.mask_in_bound
    dp = (v['pmax'] - v['pmin']) / npp
    area = h.arr([[(E[b + 1] * E[b + 1] - E[b] * E[b]) * dp / 2 for b in range(nr)] for a in range(npp)])
    full = [[h.same(M[a, b], 1) for b in range(nr)] for a in range(npp)]
    if weights or not all(all(r) for r in full):
        w = h.arr([[(w[a, b] if weights else 1) if full[a][b] else 0 for b in range(nr)] for a in range(npp)])
    compare(h, out, f, area, v['Lx'] / nx * v['Ly'] / ny, g, w, shape)
    # a second call gives the same
    again = B.polar2radial(f, **kw)
    for x, y in zip(again if sigma else (again,), out if sigma else (out,)):
        for b in range(nr):
            h.check(h.isnan(x[b]) if h.isnan(y[b]) else h.same(x[b], y[b]), 'same profile when asked again')


D = {
    'inside': spec((2, 2, 2, 3, 1, 1), x0=-3, y0=-3, Lx=(6, 7), Ly=(6, 7), rmin=(0, '1/2'), dr=(1, 2), pmin=0, pmax=('pi', 2), cx=0, cy=0),
    'sector': spec((1, 1, 2, 2, 1, 1), x0=-3, y0=-3, Lx=7, Ly=(6, 7), rmin='1/4', dr='3/2', pmin=('pi', 0, '1/4'), pmax=('pi', 1), cx=0, cy=0),
    'partly': spec((2, 2, 2, 3, 1, 1), x0=-2, y0=-1, Lx=4, Ly=2, rmin=0, dr=(1, 3), pmin=0, pmax=('pi', 2), cx=(0, '1/8'), cy='1/20'),
    'partly-rebin': spec((2, 2, 2, 2, 2, 2), x0=-2, y0=-1, Lx=4, Ly=2, rmin=0, dr=(2, 3), pmin=0, pmax=('pi', 2), cx=(0, '1/8'), cy='1/20'),
    'mostly': spec((2, 2, 2, 2, 3, 3), x0='-19/10', y0='-17/10', Lx=4, Ly=4, rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx=(0, '1/8'), cy='1/20'),
    'shifted': spec((2, 2, 2, 2, 1, 1), x0=-2, y0=-1, Lx=4, Ly=2, rmin=0, dr=(1, 3), pmin=0, pmax=('pi', 1), cx=(0, '1/8'), cy='1/20', shift=('pi', '1/3')),
    'bin-outside': spec((1, 2, 3, 2, 1, 1), x0=-2, y0=-2, Lx=4, Ly=4, rmin=0, dr=(3, 9), pmin=0, pmax=('pi', 2), cx=0, cy='1/9'),
}
M = {
    'inside': spec((2, 2, 2, 3), x0=-3, y0=-3, Lx=(6, 7), Ly=(6, 7), rmin=0, dr=(1, 2), pmin=0, pmax=('pi', 2), cx=0, cy=0),
    'partly': spec((2, 2, 2, 3), x0=-2, y0=-1, Lx=4, Ly=2, rmin=0, dr=(1, 3), pmin=0, pmax=('pi', 2), cx=(0, '1/8'), cy='1/20'),
    'bin-outside': spec((1, 2, 3, 2), x0=-2, y0=-2, Lx=4, Ly=4, rmin=0, dr=(3, 9), pmin=0, pmax=('pi', 2), cx=0, cy='1/9'),
    'log': spec((2, 2, 3, 2), x0=-2, y0=-2, Lx=4, Ly=3, rmin=('1/2', 1), pmin=0, pmax=('pi', 2), cx=0, cy='1/9', log='zero', q=2),
}
for kind, S in (('dense', D), ('mc', M)):
    for k, s in S.items():
        for t, (sg, w) in enumerate(((False, False), (True, False), (False, True), (True, True))):
            if k in ('shifted', 'sector', 'partly-rebin', 'log') and t in (0, 2):
                continue
            b = '%s, %dx%d polar cells (r x phi)%s; ranges %s' % (kind, s['n'][2], s['n'][3], ', weights' * w, {a: c for a, c in s.items() if isinstance(c, tuple) and a not in ('n', 'drop')})
            add(P, '%s-%s%s%s' % (kind, k, '-s' * sg, '-w' * w), profile, dict(s=s, kind=kind, sigma=sg, weights=w, lazy=t != 1, lo=0 if k == 'partly' and t == 2 else '1/8'), bounds=b, max_paths=400, budget=120, max_draws=80)
