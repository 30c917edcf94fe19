"""Dense-grid remap of a cube onto HEALPix shells."""
from symx.reg import add
from symx.nest import children
from .ring import cell, clear
from .p21 import num

P = 'P23'


def spec(n, **kw):
    d = dict(n=n, x0='-3/2', y0='-5/4', z0='-7/4', Lx=3, Ly=3, Lz=4, rmin=0, dr=2, cx='1/20', cy='1/30', cz='1/40', per=None)
    d.update(kw)
    return d


def dense(h, s):
    g = h.mod('magpie.densegrid')
    v = {k: num(h, k, s[k]) for k in ('x0', 'y0', 'z0', 'Lx', 'Ly', 'Lz', 'rmin', 'dr', 'cx', 'cy', 'cz')}
    nx, ny, nz, nr, nside, bs, br = s['n']
    C = g.Cube2Shell()
    lo, L, N = [v['x0'], v['y0'], v['z0']], [v['Lx'], v['Ly'], v['Lz']], [nx, ny, nz]
    C.setup_cube(lo[0], lo[0] + L[0], nx, lo[1], lo[1] + L[1], ny, lo[2], lo[2] + L[2], nz)
    cen = [v['cx'], v['cy'], v['cz']]
    kw = dict(center=cen, rebin_shell=bs, rebin_r=br)
    per = s['per'] or {}
    for a in per:
        kw['periodic' + a] = list(per[a])
    for k in s.get('drop', ()):
        kw.pop(k)
    C.setup_polar(v['rmin'], v['rmin'] + v['dr'], nr, nside, **kw)
    f = h.reals('f', (ny, nx, nz), -10 ** 6, 10 ** 6)
    c = h.snapshot(f)
    out = C.remap(f, verbose=False)
    h.eq(f, c, 'input kept')
    npix = 12 * nside * nside
    h.check(out.shape == (nr, npix), 'shape')
    M = nside * bs
    th, ph = h.hp.pix2ang(M, h.np.arange(12 * M * M))
    E = [v['rmin'] + v['dr'] * h.q(k, nr * br) for k in range(nr * br + 1)]
    ch = children(nside, M) if bs > 1 else [[p] for p in range(npix)]
    rng = [range(per.get(a, (0, 0))[0], per.get(a, (0, 0))[1] + 1) for a in 'xyz']
    shifts = [(i, j, k) for i in rng[0] for j in rng[1] for k in rng[2]]
    for b in range(nr):
        for p in range(npix):
            tot, den = 0, 0
            for k in range(b * br, (b + 1) * br):
                r = (E[k] + E[k + 1]) / 2
                w = E[k + 1] * E[k + 1] * E[k + 1] - E[k] * E[k] * E[k]
                den = den + w
                m = 0
                for q in ch[p]:
                    st = h.np.sin(th[q])
                    d = [r * st * h.np.cos(ph[q]), r * st * h.np.sin(ph[q]), r * h.np.cos(th[q])]
                    val = 0
                    for sh in shifts:
                        idx = []
                        for t in range(3):
                            x = cen[t] + d[t] + sh[t] * L[t]
                            clear(h, x, lo[t], L[t] / N[t], N[t])
                            i = cell(x, lo[t], L[t] / N[t], N[t])
                            if i is None:
                                break
                            idx.append(i)
                        if len(idx) == 3:
                            val = f[idx[1], idx[0], idx[2]]
                    m = m + val
                tot = tot + w * m / len(ch[p])
            h.eq(out[b, p] * den, tot, 'volume-weighted mean')


SPECS = {
    # nx, ny, nz, shells, nside, rebin_shell, rebin_r
    'shell-1': spec((2, 3, 4, 1, 1, 1, 1), cx=('-1/2', '1/2')),
    'shell-1-y': spec((2, 3, 4, 1, 1, 1, 1), cy=('-1/2', '1/2'), Lz=('7/2', 4)),
    'shell-1-box': spec((3, 2, 1, 1, 1, 1, 1), x0=('-2', '-3/2'), Ly=(3, 4)),
    'shell-1-z': spec((1, 2, 3, 1, 1, 1, 1), cz=('-1/2', '1/2'), z0=('-2', '-3/2')),
    'radius': spec((2, 2, 2, 1, 1, 1, 1), rmin=(0, 1), dr=(1, 2)),
    'shells-2': spec((2, 3, 2, 2, 1, 1, 1), cx=('-1/4', '1/4')),
    'shells-3-2': spec((3, 2, 2, 3, 1, 1, 2), cz=('0', '1/5')),
    'rebin-r-3': spec((2, 1, 3, 1, 1, 1, 3), rmin=('1/4', '1/2')),
    'rebin-shell': spec((2, 3, 2, 1, 1, 2, 1), cy=('0', '1/4')),
    'rebin-both': spec((2, 2, 2, 2, 1, 2, 2), cx=('0', '1/12')),
    'nside-2': spec((2, 2, 3, 1, 2, 1, 1), cz=('0', '1/4')),
    'periodic-x': spec((2, 2, 2, 1, 1, 1, 1), cx=(0, '1/2'), dr=3, per=dict(x=(-1, 1))),
    'periodic-yz': spec((2, 3, 2, 1, 1, 1, 1), cy=(0, '1/2'), dr=4, per=dict(y=(-1, 0), z=(0, 1))),
    'periodic-xyz': spec((2, 1, 2, 1, 1, 1, 1), cz=(0, '1/4'), dr=4, per=dict(x=(-1, 1), y=(-1, 1), z=(-1, 1))),
    'wide-xy': spec((2, 3, 2, 1, 1, 1, 1), cx=('-1/2', 1), cy=('-1', '1/2')),
    'wide-xz': spec((3, 2, 4, 2, 1, 1, 1), cx=('-1/2', '1/2'), cz=('-1/2', '1/2')),
    'wide-sizes': spec((2, 3, 4, 1, 1, 1, 1), Lx=(2, 4), Ly=(2, 4), z0=(-3, -1)),
    'wide-rebin': spec((2, 3, 2, 2, 1, 2, 3), cx=('-1/4', '1/8')),
    'wide-nside-2': spec((3, 4, 2, 2, 2, 2, 2), cy=('1/30', '1/18')),
    'wide-periodic-x': spec((2, 3, 2, 1, 1, 1, 2), cx=(-2, 2), dr=3, per=dict(x=(-1, 1))),
    'wide-periodic-y': spec((3, 2, 2, 2, 1, 1, 1), cy=(-2, 2), dr=3, per=dict(y=(-1, 2))),
    'wide-periodic-z': spec((3, 1, 2, 1, 1, 1, 2), cz=(-2, 2), dr=3, per=dict(z=(-2, 1))),
    'wide-periodic-xyz': spec((2, 3, 4, 2, 1, 1, 1), cx=(0, 1), dr=(3, 4), per=dict(x=(-1, 1), y=(-1, 1), z=(-1, 1))),
    'cube-3': spec((3, 2, 3, 2, 1, 1, 1), x0='-9/4', z0='-9/4', Lx='9/2', Lz='9/2', rmin='1/2', dr='7/4', cy=(0, '1/6')),
    'row-x': spec((5, 1, 1, 1, 1, 1, 1), x0='-9/4', y0=-3, z0=-3, Lx='9/2', Ly=6, Lz=6, cx=('-1/4', '1/4')),
    'row-y': spec((1, 5, 1, 1, 1, 1, 1), x0=-3, y0='-9/4', z0=-3, Lx=6, Ly='9/2', Lz=6, cy=('-1/4', '1/4')),
    'row-z': spec((1, 1, 5, 1, 1, 1, 1), x0=-3, y0=-3, z0='-9/4', Lx=6, Ly=6, Lz='9/2', cz=('-1/4', '1/4')),
    'far': spec((4, 3, 5, 2, 1, 1, 2), x0=40, y0=-30, z0=100, Lx=4, Ly=6, Lz=5, rmin='1/2', dr='7/4', cx='841/20', cy='-403/15', cz=('205/2', '411/4')),
    'slab': spec((3, 5, 2, 1, 1, 1, 2), x0='-1', y0=-3, z0='-2', Lx=2, Ly=6, Lz=4, dr=('5/2', 3), per=dict(x=(-2, 2), y=(-1, 1), z=(-2, 2))),
    'tall-y': spec((3, 2, 2, 1, 1, 1, 2), x0=-3, y0='-1/2', z0=-3, Lx=6, Ly=1, Lz=6, dr=('5/2', 3), per=dict(y=(-3, 3))),
    'tall-z': spec((2, 3, 1, 1, 1, 1, 2), x0=-3, y0='-5/2', z0='-1/2', Lx=6, Ly=5, Lz=1, dr=('5/2', 3), per=dict(y=(-1, 0), z=(-3, 4))),
    'beside': spec((3, 2, 2, 1, 1, 2, 1), x0=2, y0=-5, z0=3, Lx=1, Ly=2, Lz=3, dr=('29/10', 3), per=dict(x=(0, 4), y=(-2, -1), z=(1, 2))),
    'nside-4': spec((5, 4, 6, 2, 4, 2, 2), cx='1/7', cy='-1/9', cz='2/11', dr=('2', '20001/10000')),
    'nside-8': spec((7, 6, 5, 1, 8, 1, 3), cx='1/7', cy='-1/9', cz='2/11', rmin='1', dr=2),
    'default': spec((2, 1, 2, 1, 1, 2, 2), Lx=(3, '13/4'), cx=0, cy=0, cz=0, drop=('center', 'rebin_shell', 'rebin_r')),
}
for k, s in SPECS.items():
    b = '%dx%dx%d cube, %d shells, nside %d, rebin_shell %d, rebin_r %d; ranges %s' % (s['n'] + ({a: c for a, c in s.items() if isinstance(c, tuple) and a not in ('n', 'drop')},))
    add(P, k, dense, dict(s=s), bounds=b, max_paths=400, budget=120, max_enum=400)
