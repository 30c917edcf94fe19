"""Monte Carlo remap of a box onto a polar grid."""
from fractions import Fraction
from symx.reg import add
from .ring import cell, clear, draw_orders, choose
from .p21 import num, spec

P = 'P22'


def setup(h, s):
    g = h.mod('magpie.montecarlo')
    v = {k: num(h, k, s[k]) for k in ('x0', 'y0', 'Lx', 'Ly', 'rmin', 'dr', 'pmin', 'pmax', 'cx', 'cy', 'shift')}
    nx, ny, nr, npp = s['n'][:4]
    B = g.Box2Ring()
    B.setup_box(v['x0'], v['x0'] + v['Lx'], nx, v['y0'], v['y0'] + v['Ly'], ny)
    rmax = v['rmin'] + v['dr']
    kw = dict(pmin=v['pmin'], pmax=v['pmax'], center=[v['cx'], v['cy']], phi_shift=v['shift'])
    for k in s.get('drop', ()):
        kw.pop(k)
    if s.get('log'):
        rmax = v['rmin'] * s['q'] ** (nr - (s['log'] in ('zero', 'default')))
        if s['log'] != 'default':
            kw['addzero'] = s['log'] == 'zero'
        B.setup_polar_log(v['rmin'], rmax, nr, npp, **kw)
        z = s['log'] in ('zero', 'default')
        E = ([0] if z else []) + [v['rmin'] * s['q'] ** k for k in range(nr + (not z))]
        h.check(B.redges.shape == (nr + 1,), 'number of radial edges')
        h.eq(B.redges, E, 'radial edges')
    else:
        B.setup_polar_lin(v['rmin'], rmax, nr, npp, **kw)
        E = [v['rmin'] + v['dr'] * h.q(k, nr) for k in range(nr + 1)]
    F = [v['pmin'] + (v['pmax'] - v['pmin']) * h.q(k, npp) for k in range(npp + 1)]
    return B, v, E, F


def expected(h, s, v, E, F, mc, u, f, w):
    """Mean over the points of each cell, for one assignment of the draws: list of (cell, numerator, denominator or None)."""
    nx, ny, nr, npp = s['n'][:4]
    dx, dy = v['Lx'] / nx, v['Ly'] / ny
    out = []
    for a in range(npp):
        for b in range(nr):
            n, d, hit = 0, 0, False
            for k in range(mc):
                ur, up = u(a * nr + b, a, b, k)
                r = h.np.sqrt(E[b] * E[b] + (E[b + 1] * E[b + 1] - E[b] * E[b]) * ur)
                t = F[a] + (F[a + 1] - F[a]) * up + v['shift']
                x, y = v['cx'] + r * h.np.cos(t), v['cy'] + r * h.np.sin(t)
                clear(h, x, v['x0'], dx, nx)
                clear(h, y, v['y0'], dy, ny)
                i, j = cell(x, v['x0'], dx, nx), cell(y, v['y0'], dy, ny)
                if i is not None and j is not None:
                    q = w[j, i] if w is not None else 1
                    n, d, hit = n + q * f[j, i], d + q, True
            out.append(((a, b), n, d if hit else None))
    return out


R = [(1, 4), (4, 9), (1, 9), (9, 16), (1, 16), (25, 36), (16, 25)]      # squares
A = [(1, 6), (3, 4), (5, 12), (7, 8), (1, 3), (5, 8), (1, 12)]


def fixed(free, size, start=0):
    """Every draw has a fixed value except those listed."""
    return lambda n: None if n in free else Fraction(*(R if n // size % 2 == 0 else A)[(n // size + n % size * 3 + start) % 7])


def mc(h, s, size, weights=False, mask=False, free=None, start=0):
    if free is not None:
        h.fix_draws(fixed(free, size, start))
    B, v, E, F = setup(h, s)
    nx, ny, nr, npp = s['n'][:4]
    n0 = len(h.draws())
    B.get_weights(mc_size=size, verbose=False)
    u = h.draws()[n0:]
    h.check(len(u) == 2 * size * nr * npp, 'number of draws')
    f = h.reals('f', (ny, nx), -10 ** 6, 10 ** 6)
    w = h.reals('w', (ny, nx), h.q(1, 1000), 1000) if weights else None
    c = h.snapshot(f), (h.snapshot(w) if weights else None)
    if mask:
        B.get_mask_in_bound(verbose=False)
        out = B.mask_in_bound
        f = h.arr([[1] * nx] * ny)
    else:
        out = B.remap(f, w=w, verbose=False) if weights else B.remap(f, verbose=False)
        h.eq(f, c[0], 'input kept')
        if weights:
            h.eq(w, c[1], 'weights kept')
    h.check(out.shape == (npp, nr), 'shape')
    choose(h, [lambda o=o: expected(h, s, v, E, F, size, o, f, w) for o in draw_orders(u, npp, nr, size)], out, 0 if mask else None, 'mean over the points of the cell')


SPECS = {
    'free-1x1': (spec((2, 3, 1, 1), x0=(-3, 0), y0=-2, Lx=(1, 6), Ly=5, rmin=0, dr=3, pmin=0, pmax=('pi', 2), cx=(-1, 1), cy=(-2, 2)), 3),
    'angles-1x1': (spec((2, 1, 1, 1), x0='-1/3', y0=-3, Lx=3, Ly=6, rmin=0, dr=2, pmin=('pi', '1/8', '3/8'), pmax=('pi', '3/2'), cx=0, cy=0), 2),
    'radii-1x1': (spec((3, 2, 1, 1), x0=-2, y0=-1, Lx=5, Ly=2, rmin=(0, 1), dr=(1, 2), pmin=0, pmax=('pi', 2), cx=0, cy='1/3'), 2),
    'shift-1x1': (spec((3, 2, 1, 1), x0=-2, y0=-1, Lx=4, Ly=2, rmin=0, dr=2, cx=0, cy=0, shift=('pi', 0, 2)), 2),
    'bins-r': (spec((2, 2, 3, 1), x0=-2, y0=-1, Lx=(3, 4), Ly=3, rmin=0, dr=2, pmin=0, pmax=('pi', 1), cx=(-1, 1), cy=0), 2),
    'bins-p': (spec((2, 2, 1, 3), x0=-1, y0=-1, Lx=2, Ly=(2, 3), rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx=0, cy=(-1, 1)), 2),
    'bins-2x3': (spec((2, 3, 2, 3), x0=-1, y0=-2, Lx=2, Ly=4, rmin=0, dr=2, pmin=0, pmax=('pi', '3/2'), cx='1/5', cy=(-1, 1), shift=('pi', '1/3')), 2),
    'bins-3x2': (spec((3, 2, 3, 2), x0=-1, y0=-2, Lx=3, Ly=3, rmin=0, dr=2, pmin=('pi', '1/6'), pmax=('pi', 2), cx=(0, '1/2'), cy=0), 3),
    'out': (spec((1, 2, 1, 2), x0=-1, y0=(0, 1), Lx=2, Ly=1, rmin=0, dr=1, pmin=0, pmax=('pi', 2), cx=0, cy=0), 2),
    'log': (spec((2, 2, 2, 1), x0=-2, y0='-1/3', Lx=4, Ly=2, rmin=('1/2', 1), pmin=0, pmax=('pi', 1), cx=0, cy=0, log='plain', q=2), 2),
    'log-zero': (spec((2, 2, 3, 1), x0='-5/3', y0=-1, Lx=4, Ly=2, rmin=('1/2', 1), pmin=0, pmax=('pi', 2), cx=0, cy=0, log='zero', q=2, shift=('pi', '1/12')), 2),
    'log-default': (spec((2, 1, 2, 2), x0=-2, y0=-2, Lx=4, Ly=4, rmin=('1/2', 1), log='default', q=3, drop=('center', 'pmin', 'pmax', 'phi_shift')), 2),
    'default': (spec((2, 1, 1, 1), x0=-1, y0=-1, Lx=2, Ly=2, rmin=0, dr=(1, 2), drop=('center', 'pmin', 'pmax', 'phi_shift')), 3),
    'log-3': (spec((2, 1, 3, 1), x0=-3, y0='-5/3', Lx=5, Ly=4, rmin=('1/4', '1/3'), pmin=0, pmax=('pi', 1), cx=0, cy=0, log='plain', q=2), 2),
    'log-4x2': (spec((2, 1, 4, 2), x0=-5, y0='-17/3', Lx=12, Ly=9, rmin=('1/4', '3/10'), pmin=0, pmax=('pi', 2), cx=0, cy='1/9', log='plain', q=2, shift=('pi', '4/3')), 2),
    'shift-5pi3': (spec((3, 2, 2, 4), x0=-2, y0='-5/3', Lx=4, Ly=4, rmin='1/2', dr='3/2', cx=('0', '1/4'), cy='1/9', pmin=0, pmax=('pi', 2), shift=('pi', '5/3')), 2),
    'shift-1': (spec((2, 3, 1, 6), x0=-2, y0='-5/3', Lx=4, Ly=4, rmin='1/2', dr='3/2', cx='1/9', cy=('0', '1/4'), pmin=0, pmax=('pi', 2), shift=('pi', 1)), 2),
    'shift-11pi6': (spec((4, 3, 2, 3), x0=-2, y0='-5/3', Lx=4, Ly=4, rmin='1/2', dr='3/2', cx=('1/9', '1/4'), cy=0, pmin=('pi', '1/2'), pmax=('pi', 2), shift=('pi', '11/6')), 2),
    'shift-2': (spec((3, 3, 2, 4), x0=-2, y0='-5/3', Lx=4, Ly=4, rmin='1/2', dr='3/2', cx='1/9', cy=('1/12', '1/4'), pmin=0, pmax=('pi', 2), shift=('pi', 2)), 2),
    'row': (spec((6, 1, 2, 2), x0='-21/10', y0=-2, Lx=4, Ly=4, rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx=('-1/3', '1/3'), cy='1/7'), 3),
    'column': (spec((1, 6, 2, 3), x0=-2, y0='-21/10', Lx=4, Ly=4, rmin=0, dr=2, pmin=0, pmax=('pi', 2), cx='1/7', cy=('-1/3', '1/3')), 3),
    'off-center': (spec((5, 4, 2, 2), x0=10, y0=-30, Lx=5, Ly=8, rmin=0, dr=4, pmin=0, pmax=('pi', 2), cx=('49/4', 13), cy='-131/5'), 3),
}


def note(s):
    return '%dx%d box, %dx%d polar cells (r x phi); ranges %s' % (s['n'] + ({a: c for a, c in s.items() if isinstance(c, tuple) and a != 'n' and a != 'drop'},))


for t, (k, (s, z)) in enumerate(SPECS.items()):
    add(P, k, mc, dict(s=s, size=z, free=(), start=t), bounds='%d points per cell at fixed draws; %s' % (z, note(s)), max_paths=600, budget=400 if k == 'angles-1x1' else 120, max_draws=80,
        tier='thorough' if k in ('angles-1x1', 'log-4x2') else 'quick')
    if k in ('default', 'out', 'bins-r', 'bins-p'):
        q = {a: (c if not (isinstance(c, tuple) and c[0] != 'pi') or a in ('n', 'drop') else str(Fraction(c[0]) + Fraction(1, 3) * (Fraction(c[1]) - Fraction(c[0])))) for a, c in s.items()}
        for u in range(2 * z):
            add(P, '%s-u%d' % (k, u), mc, dict(s=q, size=z, free=(u,), start=t), bounds='every value of draw %d; %s' % (u, note(q)), max_paths=600, budget=120, max_draws=80)
for k in ('bins-p', 'out', 'free-1x1'):
    add(P, 'w-' + k, mc, dict(s=SPECS[k][0], size=SPECS[k][1], weights=True, free=(), start=5), bounds='with weights, ' + k, max_paths=600, budget=120, max_draws=80)
for k in ('out', 'bins-r'):
    add(P, 'mask-' + k, mc, dict(s=SPECS[k][0], size=SPECS[k][1], mask=True, free=()), bounds='mask, ' + k, max_paths=600, budget=120, max_draws=80)
for k in ('free-1x1', 'out'):
    add(P, k + '-all', mc, dict(s=SPECS[k][0], size=2), bounds='every draw of two points per cell; ' + note(SPECS[k][0]), max_paths=600, budget=300, tier='thorough')
