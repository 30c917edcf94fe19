"""HEALPix pixel centres: projected plane, sphere, and the integer index pairs used for neighbours."""
from symx.reg import add
from .p08 import ringlen

P = 'P09'


def centre(h, n, i, j):
    """z and phi of pixel j of ring i, from the HEALPix definition."""
    if i < n:
        return 1 - h.q(1, 3 * n * n) * i * i, (j - h.q(1, 2)) * h.pi / (2 * i)
    if i <= 3 * n:
        s = 1 - h.q(1, 2) * ((i + n + 1) % 2)
        return h.q(4, 3) - h.q(2, 3 * n) * i, (j - s) * h.pi / (2 * n)
    k = 4 * n - i
    return h.q(1, 3 * n * n) * k * k - 1, (j - h.q(1, 2)) * h.pi / (2 * k)


def plane(h, n, z, phi, i, j):
    """The HEALPix projection of pixel j of ring i."""
    y = h.pi * (2 * n - i) / (4 * n)
    if i < n or i > 3 * n:
        k = i if i < n else 4 * n - i
        m = (j - 1) // k
        # facet centre, then steps of one pixel width along the ring
        return h.pi / 4 + h.pi / 2 * m + (2 * (j - 1 - m * k) - (k - 1)) * h.pi / (4 * n), y
    return phi, y


def pick(h, n, array):
    i = h.int('i', 1, 4 * n - 1)
    j = h.int('j', 1, 4 * n)
    h.assume(j <= ringlen(n, i))
    return i, j


def pixel_plane(h, n, array=False):
    m = h.mod('magpie.pixel')
    i, j = pick(h, n, array)
    z, phi = centre(h, n, i, j)
    ex, ey = plane(h, n, z, phi, i, j)
    if array:
        X, Y = m.healpix_ij2xy(h.arr([i, 2 * n], dtype=int), h.arr([j, 1], dtype=int), n)
        h.eq(Y[1], 0, 'equator')
        h.eq(X[1], centre(h, n, 2 * n, 1)[1], 'equator, first pixel')
        x, y = X[0], Y[0]
    else:
        x, y = m.healpix_ij2xy(i, j, n)
    h.eq(x, ex, 'x of the centre')
    h.eq(y, ey, 'y of the centre')


def pixel_sphere(h, n, array=False):
    m, c = h.mod('magpie.pixel'), h.mod('magpie.coords')
    np = h.np
    i, j = pick(h, n, array)
    z, phi = centre(h, n, i, j)
    if array:
        X, Y = m.healpix_ij2xy(h.arr([i, 1], dtype=int), h.arr([j, 1], dtype=int), n)
        P1, T1 = c.healpix_xy2ang(X, Y)
        P1, T1 = P1[0], T1[0]
    else:
        x, y = m.healpix_ij2xy(i, j, n)
        P1, T1 = c.healpix_xy2ang(x, y)
    h.eq(np.cos(T1), z, 'z of the centre')
    h.ge(T1, 0, 'theta>=0')
    h.le(T1, h.pi, 'theta<=pi')
    h.eq(P1, phi, 'phi of the centre')


def index_pairs(h, n):
    """dash and star indices: back and forth, and the position they stand for."""
    m = h.mod('magpie.pixel')
    i, j = pick(h, n, True)
    I, J = h.arr([i, 2 * n], dtype=int), h.arr([j, 1], dtype=int)
    idash, jdash = m.healpix_i2id(I, n), m.healpix_j2jd(I, J, n)
    sid, sjd = h.snapshot(idash), h.snapshot(jdash)
    a, b = m.healpix_ijd2ijs(idash, jdash, n)
    h.eq(idash, sid, 'input kept')
    h.eq(jdash, sjd, 'input kept')
    i2, j2 = m.healpix_ijs2ijd(a, b, n)
    h.eq(i2, idash, 'i back')
    h.eq(j2, jdash, 'j back')
    z, phi = centre(h, n, i, j)
    x, y = plane(h, n, z, phi, i, j)
    # star indices count pixel rows along the two diagonals
    h.eq((a[0] + b[0] + 1 - n) * h.pi / (4 * n), x, 'x from the star indices')
    h.eq((b[0] - a[0]) * h.pi / (4 * n), y, 'y from the star indices')


def pix2xy(h, n, array=False):
    """pix2xy goes through the ring indices."""
    m = h.mod('magpie.pixel')
    if array:
        p = h.int('p', 0, 12 * n * n - 1)
        x, y = m.healpix_pix2xy(h.arr([p, 0], dtype=int), n)
        i, j = m.healpix_pix2ij(p, n)
        x, y = x[0], y[0]
    else:
        p = h.int('p', 0, 12 * n * n - 1)
        x, y = m.healpix_pix2xy(p, n)
        i, j = m.healpix_pix2ij(p, n)
    z, phi = centre(h, n, i, j)
    ex, ey = plane(h, n, z, phi, i, j)
    h.eq(x, ex, 'x of the centre')
    h.eq(y, ey, 'y of the centre')


for n in (1, 2, 3, 4, 5, 8):
    b = 'nside %d, every ring and position' % n
    t = 'quick' if n < 8 else 'thorough'
    add(P, 'plane-%d' % n, pixel_plane, dict(n=n), bounds=b, tier=t)
    add(P, 'sphere-%d' % n, pixel_sphere, dict(n=n), bounds=b, tier=t)
    add(P, 'pairs-%d' % n, index_pairs, dict(n=n), bounds=b, tier=t)
for n in (2, 3):
    b = 'nside %d, every ring and position' % n
    add(P, 'plane-array-%d' % n, pixel_plane, dict(n=n, array=True), bounds=b)
    add(P, 'sphere-array-%d' % n, pixel_sphere, dict(n=n, array=True), bounds=b)
    add(P, 'pix2xy-%d' % n, pix2xy, dict(n=n), bounds='nside %d, every pixel' % n)
    add(P, 'pix2xy-array-%d' % n, pix2xy, dict(n=n, array=True), bounds='nside %d, every pixel' % n)
