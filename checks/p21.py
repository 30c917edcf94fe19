"""Dense-grid remap of a box onto a polar grid."""
from symx.reg import add
from .ring import mids, cell, clear

P = 'P21'


def num(h, name, v):
    """A number, or a symbolic one in a range, or an angle in a range (in units of pi)."""
    if isinstance(v, tuple):
        if v[0] == 'pi':
            return h.pi * h.q(v[1]) if len(v) == 2 else h.angle(name, v[1], v[2])
        return h.real(name, h.q(v[0]), h.q(v[1]))
    return h.q(v)


def setup(h, spec):
    g = h.mod('magpie.densegrid')
    v = {k: num(h, k, spec[k]) for k in ('x0', 'y0', 'Lx', 'Ly', 'rmin', 'dr', 'pmin', 'pmax', 'cx', 'cy', 'shift')}
    nx, ny, nr, npp, br, bp = spec['n']
    B = g.Box2Ring()
    B.setup_box(v['x0'], v['x0'] + v['Lx'], nx, v['y0'], v['y0'] + v['Ly'], ny)
    rmax = v['rmin'] + v['dr']
    kw = dict(pmin=v['pmin'], pmax=v['pmax'], center=[v['cx'], v['cy']], rebin_r=br, rebin_p=bp)
    if spec['shift'] != 0:
        kw['phi_shift'] = v['shift']
    if 'drop' in spec:
        for k in spec['drop']:
            kw.pop(k)
    B.setup_polar(v['rmin'], rmax, nr, npp, **kw)
    return B, v, rmax


def samples(h, spec, v, rmax):
    """Per polar cell (phi, r): its fine cells as (weight, box cell or None)."""
    nx, ny, nr, npp, br, bp = spec['n']
    R, T = mids(v['rmin'], rmax, nr * br, h), mids(v['pmin'], v['pmax'], npp * bp, h)
    E = [v['rmin'] + (rmax - v['rmin']) * h.q(k, nr * br) for k in range(nr * br + 1)]
    out = {}
    dx, dy = v['Lx'] / nx, v['Ly'] / ny
    for a in range(npp * bp):
        t = T[a] + v['shift']
        for b in range(nr * br):
            x, y = v['cx'] + R[b] * h.np.cos(t), v['cy'] + R[b] * h.np.sin(t)
            clear(h, x, v['x0'], dx, nx)
            clear(h, y, v['y0'], dy, ny)
            i, j = cell(x, v['x0'], dx, nx), cell(y, v['y0'], dy, ny)
            out.setdefault((a // bp, b // br), []).append((E[b + 1] * E[b + 1] - E[b] * E[b], None if i is None or j is None else (j, i)))
    return out


def dense(h, spec, weights=False, mask=False):
    B, v, rmax = setup(h, spec)
    nx, ny, nr, npp, br, bp = spec['n']
    sm = samples(h, spec, v, rmax)
    f = h.reals('f', (ny, nx), -10 ** 6, 10 ** 6)
    w = h.reals('w', (ny, nx), h.q(1, 1000), 1000) if weights else None
    s = h.snapshot(f), (h.snapshot(w) if weights else None)
    if mask:
        B.get_mask_in_bound(verbose=False)
        out = B.mask_in_bound
    else:
        out = B.remap(f, w=w) if weights else B.remap(f)
    h.eq(f, s[0], 'input kept')
    if weights:
        h.eq(w, s[1], 'weights kept')
    h.check(out.shape == (npp, nr), 'shape')
    for (a, b), l in sm.items():
        n, d = 0, 0
        for q, c in l:
            if mask:
                n, d = n + (q if c is not None else 0), d + q
            elif weights:
                if c is not None:
                    n, d = n + q * w[c] * f[c], d + q * w[c]
            else:
                n, d = n + (q * f[c] if c is not None else 0), d + q
        if weights and all(c is None for q, c in l):
            h.check(h.isnan(out[a, b]), 'a cell without data is NaN')
        else:
            h.eq(out[a, b] * d, n, 'fraction inside' if mask else 'area-weighted mean')


base = dict(x0=0, y0=0, Lx=3, Ly=2, rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx=0, cy=0, shift=0)


def spec(n, **kw):
    d = dict(base, n=n)
    d.update(kw)
    return d


SPECS = {
    # nx, ny, nr, nphi, rebin_r, rebin_p
    'free-1x1': spec((3, 2, 1, 1, 1, 1), x0=(-5, 5), y0=(-5, 5), Lx=(1, 6), Ly=(1, 6), rmin=(0, 3), dr=(1, 4), pmin=('pi', 0, '1/2'), pmax=('pi', '3/4', 2), cx=(-5, 5), cy=(-5, 5)),
    'shift-1x1': spec((2, 3, 1, 1, 1, 1), x0=(-5, 5), Ly=(1, 6), dr=(1, 4), pmin=('pi', 0, '1/2'), pmax=('pi', '3/4', 2), cx=(-5, 5), cy=(-5, 5), shift=('pi', 0, 2)),
    'bins-r': spec((2, 2, 2, 1, 1, 1), x0=(-3, 0), Lx=(1, 6), Ly=(1, 4), rmin=(0, 1), dr=(1, 4), pmin=0, pmax=('pi', '1/2'), cx=(-1, 2), cy=(-1, 2)),
    'bins-p': spec((2, 2, 1, 2, 1, 1), x0=(-3, 0), Lx=(1, 6), Ly=(1, 4), dr=(1, 4), pmin=0, pmax=('pi', '4/3'), cx=(-1, 2), cy=(-1, 2)),
    'rebin-r': spec((3, 1, 1, 1, 3, 1), Lx=(1, 6), Ly=4, rmin=(0, 1), dr=(1, 4), pmin=0, pmax=('pi', '2/3'), cx=(-1, 2), cy=1),
    'rebin-p': spec((2, 2, 1, 1, 1, 3), Lx=(1, 6), Ly=(1, 4), rmin=(0, 1), dr=3, pmin=0, pmax=('pi', '3/2'), cx=(0, 2), cy=1),
    'mix-2x1-1x2': spec((2, 2, 2, 1, 1, 2), x0=-1, y0=-1, Lx=2, Ly=2, rmin=0, dr=2, pmin=0, pmax=('pi', 1), cx=(-1, 1), cy='1/4'),
    'mix-1x2-2x1': spec((2, 2, 1, 2, 2, 1), x0=-1, y0=-1, Lx=2, Ly=2, rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx='1/4', cy=(-1, 1)),
    'mix-2x2-1x2': spec((3, 2, 2, 2, 1, 2), x0=-2, y0=-1, Lx=4, Ly=3, rmin='1/2', dr=2, pmin=0, pmax=('pi', 2), cx=(-1, 1), cy='1/4'),
    'mix-2x3-2x1': spec((2, 3, 2, 3, 2, 1), x0=-2, y0=-1, Lx=4, Ly=3, rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx=(0, 1), cy='1/4'),
    'mix-1x1-2x3': spec((3, 3, 1, 1, 2, 3), x0=-2, y0=-2, Lx=4, Ly=4, rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx=(-1, 1), cy='1/5'),
    'big-2x3-3x2': spec((4, 3, 2, 3, 3, 2), x0=-2, y0='-3/2', Lx=4, Ly=3, rmin='1/4', dr='3/2', pmin=('pi', '1/4'), pmax=('pi', '7/4'), cx=('1/10', '2/5'), cy='1/7', shift=('pi', '1/3')),
    'big-3x2-2x2': spec((3, 4, 3, 2, 2, 2), x0=-2, y0=-2, Lx=4, Ly=(4, '9/2'), rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx='1/7', cy='1/5', shift=('pi', '1/12')),
    'shift-5pi3': spec((3, 2, 2, 2, 1, 3), x0='-21/10', y0='-21/10', Lx=4, Ly=4, rmin='1/2', dr='3/2', pmin=0, pmax=('pi', 2), cx=('-1/4', '1/4'), cy='1/7', shift=('pi', '5/3')),
    'shift-1': spec((4, 3, 1, 6, 2, 1), x0='-21/10', y0='-21/10', Lx=4, Ly=4, rmin='1/2', dr='3/2', pmin=0, pmax=('pi', 2), cx='1/9', cy=('-1/4', '1/4'), shift=('pi', 1)),
    'shift-11pi6': spec((2, 5, 3, 3, 1, 2), x0='-21/10', y0='-21/10', Lx=4, Ly=4, rmin='1/2', dr='3/2', pmin=('pi', '1/2'), pmax=('pi', 2), cx='1/9', cy=('0', '1/4'), shift=('pi', '11/6')),
    'shift-2': spec((3, 3, 2, 4, 1, 1), x0=-2, y0='-21/10', Lx=4, Ly=4, rmin='1/4', dr='3/2', pmin=0, pmax=('pi', 2), cx=('1/9', '1/4'), cy='1/5', shift=('pi', 2)),
    'shift-free': spec((2, 2, 1, 4, 1, 1), x0='-21/10', y0='-21/10', Lx=4, Ly=4, rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx='1/9', cy='1/7', shift=('pi', 0, 2)),
    'row': spec((6, 1, 2, 2, 2, 2), x0='-21/10', y0=-2, Lx=4, Ly=4, rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx=('-1/3', '1/3'), cy='1/7'),
    'column': spec((1, 6, 2, 3, 2, 2), x0=-2, y0='-21/10', Lx=4, Ly=4, rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx='1/7', cy=('-1/3', '1/3')),
    'off-center': spec((5, 4, 2, 2, 2, 2), x0=10, y0=-30, Lx=5, Ly=8, rmin=0, dr=4, pmin=0, pmax=('pi', 2), cx=('49/4', 13), cy='-131/5'),
    'outside': spec((2, 2, 2, 2, 1, 2), x0=-1, y0=-1, Lx=2, Ly=2, rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx=(-4, 4), cy='1/3'),
    'default': spec((2, 2, 1, 1, 2, 2), x0='-17/8', y0=(-3, -1), Lx=4, Ly=4, rmin=0, dr=(1, 2), drop=('center', 'rebin_r', 'rebin_p', 'pmin', 'pmax')),
}
for k, s in SPECS.items():
    b = '%dx%d box, %dx%d polar cells (r x phi), %dx%d fine cells each; ranges %s' % (s['n'] + ({a: c for a, c in s.items() if isinstance(c, tuple) and a != 'n' and a != 'drop'},))
    add(P, k, dense, dict(spec=s), bounds=b, max_paths=600, budget=120)
for k in ('bins-p', 'rebin-p', 'mix-2x1-1x2', 'mix-1x2-2x1'):
    add(P, 'w-' + k, dense, dict(spec=SPECS[k], weights=True), bounds='with weights, ' + k, max_paths=600, budget=120)
for k in ('bins-r', 'rebin-r', 'mix-2x1-1x2'):
    add(P, 'mask-' + k, dense, dict(spec=SPECS[k], mask=True), bounds='mask, ' + k, max_paths=600, budget=120)
