"""HEALPix neighbours through the star index pairs."""
from symx.reg import add
from .p09 import pick

P = 'P11'


def corners(h, n, a, b):
    """Corners of pixel (istar, jstar) = (a, b) as integer points (in units of pi/(4 nside)), the same on both sides of a seam between polar facets."""
    u, v = a + b + 1 - n, b - a
    pts = [(u + 1, v), (u - 1, v), (u, v + 1), (u, v - 1)]
    if v < n and v > -n:
        return pts
    k = 0
    while k < 3 and not u < 2 * n * (k + 1):
        k += 1
    c = n * (2 * k + 1)
    out = []
    for x, y in pts:
        w = 2 * n - (y if v > 0 else -y)
        if w == 0:
            out.append((h.q(0), y))               # the pole
        elif w < n and x - c == w:
            out.append((c + 2 * n - w, y))        # right seam = left seam of the next facet
        else:
            out.append((x, y))
    return out


def valid(h, n, a, b):
    """Is (a, b) the index pair of a pixel?"""
    u, v = a + b + 1 - n, b - a
    h.check((v < 2 * n) & (v > -2 * n), 'ring of a neighbour')
    h.ge(u, 0, 'x of a neighbour')
    h.check(u < 8 * n, 'x of a neighbour')
    if v >= n or v <= -n:
        w = 2 * n - (v if v > 0 else -v)
        k = 0
        while k < 3 and not u < 2 * n * (k + 1):
            k += 1
        d = u - n * (2 * k + 1)
        h.check((d < w) & (d > -w), 'a neighbour lies inside a facet')


def share(n, p, q):
    out = None
    for (u1, v1) in p:
        for (u2, v2) in q:
            d = u1 - u2
            c = ((d == 0) | (d == 8 * n) | (d == -8 * n)) & (v1 == v2)
            out = c if out is None else out | c
    return out


def neighbours(h, n, region):
    m = h.mod('magpie.pixel')
    i, j = pick(h, n, True)
    h.assume({'north': i < n + 1, 'belt': (i > n) & (i < 3 * n), 'south': i >= 3 * n}[region])
    I, J = h.arr([i], dtype=int), h.arr([j], dtype=int)
    a, b = m.healpix_ijd2ijs(m.healpix_i2id(I, n), m.healpix_j2jd(I, J, n), n)
    a, b = a[0], b[0]
    A, B = m.healpix_ijs_neighbours(a, b, n)
    h.check(len(A) == len(B), 'pairs')
    cp = corners(h, n, a, b)
    count = 8
    for u, v in cp:
        for k in range(5):
            if (u == 2 * n * k) & ((v == n) | (v == -n)):     # a corner shared by three pixels
                count -= 1
    h.check(len(A) == count, 'number of neighbours')
    for k in range(len(A)):
        valid(h, n, A[k], B[k])
        h.check((A[k] != a) | (B[k] != b), 'not the pixel itself')
        h.check(share(n, cp, corners(h, n, A[k], B[k])), 'a neighbour touches the pixel')
        for l in range(k):
            h.check((A[k] != A[l]) | (B[k] != B[l]), 'neighbours are distinct')


for n in (1, 2, 3, 4, 8, 16):
    for r in ('north', 'belt', 'south'):
        add(P, '%s-%d' % (r, n), neighbours, dict(n=n, region=r), bounds='nside %d, every pixel of the region' % n, budget=150, tier='quick' if n < 5 else 'thorough')
