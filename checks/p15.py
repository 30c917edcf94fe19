"""Equal-area polar grid."""
from symx.reg import add

P = 'P15'


def ea(h, nr, base, default):
    g = h.mod('magpie.grids')
    R = h.real('R', h.q(1, 1000), 10000) if not default else 1
    kw = {} if default else dict(rmax=R, base_nphi=base)
    r, p = g.polarEA_grid(nr, **kw)
    npix = g.polarEA_npix(nr, **({} if default else dict(base_nphi=base)))
    area = g.polarEA_area(nr, **kw)
    h.eq(npix, base * nr * nr, 'number of pixels')
    h.check(len(r) == base * nr * nr and len(p) == base * nr * nr, 'number of points')
    h.eq(area * npix, h.pi * R * R, 'the pixels cover the disc')
    k = 0
    for i in range(nr):
        m = base * (2 * i + 1)
        # each pixel of ring i is an equal part of its annulus
        h.eq(area * m, h.pi * (h.q(i + 1, nr) * h.q(i + 1, nr) - h.q(i, nr) * h.q(i, nr)) * R * R, 'pixel area in ring %d' % i)
        for j in range(m):
            h.eq(r[k], R * h.q(2 * i + 1, 2 * nr), 'radius of the pixel centre')
            h.eq(p[k], 2 * h.pi * h.q(2 * j + 1, 2 * m), 'angle of the pixel centre')
            k += 1


def counts(h, base):
    """Number and area of the pixels for any number of rings."""
    g = h.mod('magpie.grids')
    nr = h.int('nr', 1, 10000)
    R = h.real('R', h.q(1, 1000), 10000)
    npix = g.polarEA_npix(nr, base_nphi=base)
    h.check(npix == base * nr * nr, 'number of pixels')
    h.eq(g.polarEA_area(nr, rmax=R, base_nphi=base) * base * nr * nr, h.pi * R * R, 'the pixels cover the disc')


for b in (1, 3, 4, 6, 12):
    add(P, 'counts-%d' % b, counts, dict(base=b), bounds='1 to 10000 rings, %d pixels in the first, every radius' % b)
for nr, b in [(7, 4), (1, 4), (1, 1), (2, 4), (3, 4), (2, 3), (3, 1), (4, 2), (5, 6)]:
    add(P, 'ea-%d-%d' % (nr, b), ea, dict(nr=nr, base=b, default=False), bounds='%d rings, %d pixels in the first, every radius' % (nr, b))
add(P, 'ea-default', ea, dict(nr=3, base=4, default=True), bounds='3 rings, defaults')
