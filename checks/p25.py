"""Radial and cumulative profiles, areas of the cells."""
from symx.reg import add
from .ring import cell

P = 'P25'


def column(h, f, area, pix, s, w, b, n):
    """Mean and its squared error of radial bin b: (numerator, weight, variance times weight squared)."""
    num, den, var = 0, 0, 0
    for a in range(n):
        q = 1 if w is None else w[a, b]
        num, den = num + q * f[a, b], den + q
        if s is not None:
            var = var + q * q * s[a, b] * s[a, b] * pix / area[a, b]
    return num, den, var


def compare(h, out, f, area, pix, s, w, shape):
    npp, nr = shape
    fr, sr = out if s is not None else (out, None)
    h.check(fr.shape == (nr,), 'one mean per radial bin')
    for b in range(nr):
        num, den, var = column(h, f, area, pix, s, w, b, npp)
        if w is not None and den == 0:
            h.check(h.isnan(fr[b]), 'no weight gives NaN')
            continue
        h.eq(fr[b] * den, num, 'radial mean')
        if s is not None:
            h.ge(sr[b], 0, 'error is not negative')
            h.eq(sr[b] * sr[b] * den * den, var, 'variance of the radial mean')


def radial(h, shape, sigma, weights, lo='1/8'):
    m = h.mod('magpie.polar')
    f = h.reals('f', shape, -10 ** 6, 10 ** 6)
    area = h.reals('A', shape, h.q(1, 8), 9)
    pix = h.real('pix', h.q(1, 1000), 1000)
    s = h.reals('s', shape, 0, 1000) if sigma else None
    w = h.reals('w', shape, h.q(lo), 4) if weights else None
    kept = [x for x in (f, area, s, w) if x is not None]
    snap = [h.snapshot(x) for x in kept]
    kw = {}
    if sigma:
        kw['sigma'] = s
    if weights:
        kw['w'] = w
    out = m.polar2radial(f, area, pix, **kw)
    for x, y in zip(kept, snap):
        h.eq(x, y, 'input kept')
    compare(h, out, f, area, pix, s, w, shape)


for shape in ((1, 1), (2, 3), (3, 2), (4, 1), (1, 3), (5, 4)):
    for sg in (False, True):
        for w in (False, True):
            add(P, 'radial-%dx%d%s%s' % (shape + ('-s' * sg, '-w' * w)), radial, dict(shape=shape, sigma=sg, weights=w), bounds='%dx%d cells (phi x r)' % shape)
for shape in ((2, 1), (3, 2)):
    for sg in (False, True):
        add(P, 'mask-%dx%d%s' % (shape + ('-s' * sg,)), radial, dict(shape=shape, sigma=sg, weights=True, lo=0), bounds='%dx%d cells, weights from 0' % shape)


def binary(h, shape):
    """Every binary mask."""
    m = h.mod('magpie.polar')
    f = h.reals('f', shape, -10 ** 6, 10 ** 6)
    s = h.reals('s', shape, 0, 1000)
    w = h.arr([[int(h.int('w%d%d' % (a, b), 0, 1)) * 1.0 for b in range(shape[1])] for a in range(shape[0])])
    area = h.reals('A', shape, h.q(1, 8), 9)
    compare(h, m.polar2radial(f, area, 2, sigma=s, w=w), f, area, 2, s, w, shape)


add(P, 'binary-3x2', binary, dict(shape=(3, 2)), bounds='every binary mask of 3x2 cells')


def areas(h, nr, npp, full=False):
    m = h.mod('magpie.polar')
    np = h.np
    E = h.arr(h.increasing('r', nr + 1, 0, 9))
    p0 = 0 if full else h.angle('p0', 0, 1)
    dp = h.pi * 2 / npp if full else h.angle('dp', '1/24', '1/%d' % npp)
    pe = h.arr([p0 + dp * k for k in range(npp + 1)])
    c = h.snapshot(E), h.snapshot(pe)
    A = m.get_polar_area2d(E, pe)
    h.eq(E, c[0], 'edges kept')
    h.eq(pe, c[1], 'edges kept')
    h.check(A.shape == (npp, nr), 'shape (phi, r)')
    tot = 0
    for a in range(npp):
        for b in range(nr):
            h.eq(A[a, b] * 2, (E[b + 1] * E[b + 1] - E[b] * E[b]) * dp, 'area of the cell')
            tot = tot + A[a, b]
    if full:
        h.eq(tot, h.pi * (E[nr] * E[nr] - E[0] * E[0]), 'the cells fill the annulus')


for nr, npp in ((1, 1), (3, 2), (2, 5)):
    add(P, 'area-%dx%d' % (nr, npp), areas, dict(nr=nr, npp=npp), bounds='%dx%d cells (r x phi), any radial edges, equal angles' % (nr, npp))
    add(P, 'area-full-%dx%d' % (nr, npp), areas, dict(nr=nr, npp=npp, full=True), bounds='%dx%d cells, whole annulus' % (nr, npp))


def pixel(h, nx, ny):
    m = h.mod('magpie.polar')
    x0, y0 = h.real('x0', -1000, 1000), h.real('y0', -1000, 1000)
    dx, dy = h.real('dx', h.q(1, 16), 4), h.real('dy', h.q(1, 16), 4)
    xe, ye = h.arr([x0 + dx * k for k in range(nx + 1)]), h.arr([y0 + dy * k for k in range(ny + 1)])
    h.eq(m.get_pixarea(xe, ye), dx * dy, 'area of a pixel')


for nx, ny in ((1, 1), (2, 4), (3, 1)):
    add(P, 'pixel-%dx%d' % (nx, ny), pixel, dict(nx=nx, ny=ny), bounds='%dx%d pixels' % (nx, ny))


def cumulative(h, n, sigma):
    m = h.mod('magpie.polar')
    E = h.arr(h.increasing('r', n + 1, 0, 9))
    f = h.reals('f', (n,), -10 ** 6, 10 ** 6)
    s = h.reals('s', (n,), 0, 1000) if sigma else None
    kept = [x for x in (E, f, s) if x is not None]
    snap = [h.snapshot(x) for x in kept]
    out = m.cumulative_radial(E, f, sigma=s) if sigma else m.cumulative_radial(E, f)
    for x, y in zip(kept, snap):
        h.eq(x, y, 'input kept')
    F, S = out if sigma else (out, None)
    h.check(F.shape == (n + 1,), 'one value per edge')
    tot, var = 0, 0
    for k in range(n + 1):
        h.eq(F[k], h.pi * tot, 'integral inside the edge')
        if sigma:
            h.ge(S[k], 0, 'error is not negative')
            h.eq(S[k] * S[k], h.pi * h.pi * var, 'variance of the integral')
        if k < n:
            a = E[k + 1] * E[k + 1] - E[k] * E[k]
            tot = tot + a * f[k]
            if sigma:
                var = var + a * a * s[k] * s[k]


for n in (1, 2, 3, 5):
    for sg in (False, True):
        add(P, 'cumulative-%d%s' % (n, '-s' * sg), cumulative, dict(n=n, sigma=sg), bounds='%d radial bins, any edges' % n)
