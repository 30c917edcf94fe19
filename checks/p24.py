"""Monte Carlo remap of a cube onto HEALPix shells."""
from fractions import Fraction
from symx.reg import add
from .ring import cell, clear, choose
from .p21 import num
from .p23 import spec

P = 'P24'


def points(h, pix, nside, r0, r1, ua, ur, cen):
    """Random points of one pixel of one shell (uniform there by P16 and P17) for the given draws."""
    m = h.mod('magpie.randoms')
    size = len(ur)
    ph, th = h.replay(ua, lambda: m.randoms_healpix_pixel(size, pix, nside))
    r = h.replay(ur, lambda: m.randoms_sphere_r(size, r_min=r0, r_max=r1))
    out = []
    for k in range(size):
        st = h.np.sin(th[k])
        out.append([cen[0] + r[k] * st * h.np.cos(ph[k]), cen[1] + r[k] * st * h.np.sin(ph[k]), cen[2] + r[k] * h.np.cos(th[k])])
    return out


V = [Fraction(*x) for x in [(1, 2), (1, 8), (9, 32), (7, 8), (23, 32), (1, 32), (31, 32)]]
W = [Fraction(*x) for x in [(1, 8), (27, 64), (1, 64), (8, 27), (1, 27), (64, 125), (27, 125)]]
Y = [Fraction(*x) for x in [(1, 4), (2, 3), (1, 2), (5, 6), (1, 3), (3, 4), (1, 6)]]


def mc(h, s, size, weights=False, start=0):
    h.fix_draws(lambda n: [V, Y, W][n // size % 3][(n // size + 3 * (n % size) + start) % 7])
    g = h.mod('magpie.montecarlo')
    v = {k: num(h, k, s[k]) for k in ('x0', 'y0', 'z0', 'Lx', 'Ly', 'Lz', 'rmin', 'dr', 'cx', 'cy', 'cz')}
    if s.get('ratio'):
        v['dr'] = v['rmin'] * h.q(s['ratio'])
    nx, ny, nz, nr, nside = s['n']
    C = g.Cube2Shell()
    lo, L, N = [v['x0'], v['y0'], v['z0']], [v['Lx'], v['Ly'], v['Lz']], [nx, ny, nz]
    C.setup_cube(lo[0], lo[0] + L[0], nx, lo[1], lo[1] + L[1], ny, lo[2], lo[2] + L[2], nz)
    cen = [v['cx'], v['cy'], v['cz']]
    kw = dict(center=cen)
    for k in s.get('drop', ()):
        kw.pop(k)
    if s.get('log'):
        z = s['log'] != 'plain'
        rmax = v['rmin'] * s['q'] ** (nr - z)
        if s['log'] != 'default':
            kw['addzero'] = z
        C.setup_polar_log(v['rmin'], rmax, nr, nside, **kw)
        E = ([0] if z else []) + [v['rmin'] * s['q'] ** k for k in range(nr + (not z))]
        h.eq(C.redges, E, 'radial edges')
    else:
        C.setup_polar_lin(v['rmin'], v['rmin'] + v['dr'], nr, nside, **kw)
        E = [v['rmin'] + v['dr'] * h.q(k, nr) for k in range(nr + 1)]
    n0 = len(h.draws())
    C.get_weights(mc_size=size, verbose=False)
    u = h.draws()[n0:]
    f = h.reals('f', (ny, nx, nz), -10 ** 6, 10 ** 6)
    w = h.reals('w', (ny, nx, nz), h.q(1, 1000), 1000) if weights else None
    c = h.snapshot(f), (h.snapshot(w) if weights else None)
    out = C.remap(f, w=w, verbose=False) if weights else C.remap(f, verbose=False)
    h.eq(f, c[0], 'input kept')
    if weights:
        h.eq(w, c[1], 'weights kept')
    npix = 12 * nside * nside
    h.check(out.shape == (nr, npix), 'shape')
    h.check(len(u) == 3 * size * nr * npix, 'number of draws')

    def expected(shell_first, radius_first):
        res = []
        for b in range(nr):
            for p in range(npix):
                o = 3 * size * (b * npix + p if shell_first else p * nr + b)
                ur, ua = (u[o:o + size], u[o + size:o + 3 * size]) if radius_first else (u[o + 2 * size:o + 3 * size], u[o:o + 2 * size])
                n, d, hit = 0, 0, False
                for x in points(h, p, nside, E[b], E[b + 1], ua, ur, cen):
                    idx = []
                    for t in range(3):
                        clear(h, x[t], lo[t], L[t] / N[t], N[t])
                        i = cell(x[t], lo[t], L[t] / N[t], N[t])
                        if i is None:
                            break
                        idx.append(i)
                    if len(idx) == 3:
                        i = idx[1], idx[0], idx[2]
                        q = w[i] if weights else 1
                        n, d, hit = n + q * f[i], d + q, True
                res.append(((b, p), n, d if hit else None))
        return res
    choose(h, [lambda a=a, b=b: expected(a, b) for a in (True, False) for b in (False, True)], out, h.hp.UNSEEN, 'mean over the points of the cell')


S = {
    'x': spec((2, 3, 2, 1, 1), cx=('-1/6', '1/6')),
    'y': spec((2, 3, 4, 1, 1), cy=('-1/6', '1/6')),
    'z': spec((3, 2, 2, 1, 1), cz=('-1/6', '1/6')),
    'sizes': spec((3, 2, 4, 1, 1), Lx=('5/2', 3), z0=(-2, '-7/4')),
    'radius': spec((2, 2, 2, 1, 1), rmin=('1/2', 1), ratio=1),
    'width': spec((2, 2, 2, 1, 1), rmin=0, dr=(1, 2)),
    'shells': spec((2, 3, 2, 2, 1), cy=('0', '1/8')),
    'outside': spec((2, 1, 2, 1, 1), Lx=(1, 2), x0='1/7'),
    'log': spec((2, 2, 2, 2, 1), cx=('0', '1/16'), rmin='1/2', log='plain', q=2),
    'log-zero': spec((2, 2, 3, 2, 1), cz=('0', '1/16'), rmin='2/3', log='zero', q=3),
    'cube-3': spec((3, 2, 3, 1, 1), x0='-9/4', z0='-9/4', Lx='9/2', Lz='9/2', rmin='1/2', dr='7/4', cy=(0, '1/6')),
    'cube-4': spec((4, 4, 4, 1, 1), x0='-9/4', y0='-9/4', z0='-9/4', Lx='9/2', Ly='9/2', Lz='9/2', rmin='1/2', dr='7/4'),
    'row-x': spec((5, 1, 1, 1, 1), x0='-9/4', y0=-3, z0=-3, Lx='9/2', Ly=6, Lz=6, cx=(0, '1/6')),
    'row-y': spec((1, 5, 1, 1, 1), x0=-3, y0='-9/4', z0=-3, Lx=6, Ly='9/2', Lz=6, cy=(0, '1/6')),
    'row-z': spec((1, 1, 5, 1, 1), x0=-3, y0=-3, z0='-9/4', Lx=6, Ly=6, Lz='9/2', cz=(0, '1/6')),
    'far': spec((4, 3, 5, 1, 1), x0=40, y0=-30, z0=100, Lx=4, Ly=6, Lz=5, rmin='1/2', dr='7/4', cx='841/20', cy='-403/15', cz=('205/2', '411/4')),
    'nside-2': spec((2, 3, 2, 1, 2), cx='1/9'),
    'default': spec((2, 1, 2, 1, 1), Lx=(3, '13/4'), cx=0, cy=0, cz=0, drop=('center',)),
}
for t, (k, s) in enumerate(S.items()):
    b = '%dx%dx%d cube, %d shells, nside %d; ranges %s' % (s['n'] + ({a: c for a, c in s.items() if isinstance(c, tuple) and a not in ('n', 'drop')},))
    add(P, k, mc, dict(s=s, size={'z': 3, 'cube-3': 3, 'nside-2': 1}.get(k, 2), start=t), bounds='fixed draws; ' + b, max_paths=400, budget=200, max_draws=200)
    if k in ('x', 'outside', 'shells'):
        add(P, 'w-' + k, mc, dict(s=s, size=2, start=t + 3, weights=True), bounds='weights, fixed draws; ' + b, max_paths=400, budget=200, max_draws=200)
