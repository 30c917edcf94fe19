"""Exact remapping between 1D grids (Python front end + Fortran kernel)."""
from symx.reg import add
from .common import overlap

P = 'P01'


def remap1(h, g1, g2, default=False, scale=None):
    m = h.mod('magpie.remap')
    a = 0 if default == 'none' else h.real('origin', -1000, 1000)
    L1 = h.real('box', 1, 3)
    if scale is not None:
        L1 = L1 * h.q(scale)
    f = h.reals('f', g1, -10 ** 6, 10 ** 6)
    if default:
        b = 0 if default in ('none', 'origin') else a if default == 'both' else a + h.real('shift', -3, 3)
        L2 = L1
    else:
        b = a + h.real('shift', -3, 3) * h.q(scale or 1)
        L2 = h.real('boxout', 1, 3) * h.q(scale or 1)
    if default == 'origin':
        h.assume((a < 3) & (a > -3))
    kw = dict(origin=a, originout=b) if default not in ('none', 'origin') else dict(origin=a) if default == 'origin' else {}
    if not default:
        kw['boxsizeout'] = L2
    out = m.grid2grid1D(f, L1, g2, **kw)
    d1, d2 = L1 / g1, L2 / g2
    exp = []
    for j in range(g2):
        s = 0
        for i in range(g1):
            s = s + overlap(a + i * d1, a + (i + 1) * d1, b + j * d2, b + (j + 1) * d2) * f[i]
        exp.append(s / d2)
    h.eq(out, h.arr(exp), 'overlap-weighted mean')


B = 'grid sizes %d -> %d, origins in [-1000,1000], shift in [-3,3], box sizes in [1,3], values in [-1e6,1e6]'
for g1, g2 in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)]:
    add(P, 'remap-%d-%d' % (g1, g2), remap1, dict(g1=g1, g2=g2), bounds=B % (g1, g2), budget=200)
for g1, g2 in [(3, 3), (4, 2), (2, 4), (4, 3)]:
    add(P, 'remap-%d-%d' % (g1, g2), remap1, dict(g1=g1, g2=g2), bounds=B % (g1, g2), budget=200, tier='thorough')
add(P, 'remap-default-out', remap1, dict(g1=2, g2=2, default='out'), bounds='output box defaults to the input box', budget=60)
add(P, 'remap-default-both', remap1, dict(g1=3, g2=2, default='both'), bounds='same box, 3 -> 2 cells', budget=60)
add(P, 'remap-default-none', remap1, dict(g1=2, g2=3, default='none'), bounds='origins and output box omitted, 2 -> 3 cells', budget=60)
add(P, 'remap-default-origin', remap1, dict(g1=2, g2=2, default='origin'), bounds='output origin (0) and output box omitted, 2 -> 2 cells', budget=60)
add(P, 'remap-small', remap1, dict(g1=2, g2=2, scale='1/1000'), bounds='box sizes in [0.001,0.003], 2 -> 2 cells', budget=60)
add(P, 'remap-large', remap1, dict(g1=2, g2=2, scale='1000'), bounds='box sizes in [1000,3000], 2 -> 2 cells', budget=60)


def slide(h, g1, g2, L1, L2, lo, hi):
    """Fixed sizes, free shift: many cells."""
    m = h.mod('magpie.remap')
    L1, L2 = h.q(L1), h.q(L2)
    b = h.real('shift', h.q(lo), h.q(hi))
    a = h.q(3, 4)
    f = h.reals('f', g1, -10 ** 6, 10 ** 6)
    out = m.grid2grid1D(f, L1, g2, origin=a, originout=a + b, boxsizeout=L2)
    d1, d2 = L1 / g1, L2 / g2
    exp = []
    for j in range(g2):
        s = 0
        for i in range(g1):
            s = s + overlap(i * d1, (i + 1) * d1, b + j * d2, b + (j + 1) * d2) * f[i]
        exp.append(s / d2)
    h.eq(out, h.arr(exp), 'overlap-weighted mean')


for g1, g2, L1, L2, lo, hi in [(9, 1, '3', '2', -3, 4), (1, 8, '2', '3', -4, 3), (8, 5, '2', '2', '-1/2', '1/2'), (5, 8, '2', '5/2', '-1/3', '1/2'), (16, 2, '4', '7/2', '-1/4', '3/4'),
                               (3, 20, '3', '4', '-1/2', 0), (20, 3, '5', '4', 0, '5/8')]:
    add(P, 'slide-%d-%d' % (g1, g2), slide, dict(g1=g1, g2=g2, L1=L1, L2=L2, lo=lo, hi=hi), bounds='%d -> %d cells, boxes %s and %s, shift in [%s, %s]' % (g1, g2, L1, L2, lo, hi), budget=100)
