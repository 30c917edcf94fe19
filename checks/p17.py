"""Random points in a HEALPix pixel."""
from symx.reg import add
from .common import uniform

P = 'P17'


def pix(h, n, size, sphere, lo, hi):
    """Uniform over the pixel's diamond in the plane (an equal-area projection)."""
    r, m, c = h.mod('magpie.randoms'), h.mod('magpie.pixel'), h.mod('magpie.coords')
    p = int(h.int('p', lo, hi))              # case split: one case per pixel
    xp, yp = m.healpix_pix2xy(p, n)          # right by P09
    h.assume(xp >= 0)
    h.assume(xp < 2 * h.pi)
    d = h.pi / (4 * n)
    if sphere:
        # the directions are those of points inside the diamond
        PH, TH = r.randoms_healpix_pixel(size, p, n)
        h.check(PH.shape == (size,) and TH.shape == (size,), 'number of points')
        x, y = c.healpix_ang2xy(PH, TH)
    else:
        x, y = r._randoms_healpix_xy(size, p, n)
        h.check(x.shape == (size,) and y.shape == (size,), 'number of points')
    vals = []
    for k in range(size):
        t = x[k] - xp
        if t > h.pi:
            t = t - 2 * h.pi
        elif t < -h.pi:
            t = t + 2 * h.pi
        a = t if t >= 0 else -t
        b = y[k] - yp
        b = b if b >= 0 else -b
        h.le(a + b, d, 'inside the pixel')
        h.ge(x[k], 0, 'x range')
        h.check(x[k] < 2 * h.pi, 'x range')
        w = d - a                       # half height of the diamond at x
        F = w * w / (2 * d * d)
        vals.append(F if t < 0 else 1 - F)
        if w > h.q(1, 10 ** 6):
            vals.append((y[k] - yp + w) / (2 * w))
    uniform(h, vals, 'uniform over the pixel')


def split(lo, hi, k):
    e = [lo + (hi - lo) * t // k for t in range(k + 1)]
    return [(e[t], e[t + 1] - 1) for t in range(k)]


for n, size, k, tier in [(1, 1, 1, 'quick'), (2, 1, 2, 'quick'), (1, 2, 1, 'quick'), (3, 1, 4, 'quick'), (2, 2, 4, 'thorough'), (4, 1, 6, 'thorough'), (5, 1, 6, 'thorough')]:
    for t, (a, b) in enumerate(split(0, 12 * n * n, k)):
        add(P, 'plane-%d-%d-%d' % (n, size, t), pix, dict(n=n, size=size, sphere=False, lo=a, hi=b), budget=120, tier=tier,
            bounds='nside %d, pixels %d to %d, %d points, every draw' % (n, a, b, size))
for n, size, k, tier in [(1, 1, 1, 'quick'), (2, 1, 2, 'quick'), (3, 1, 2, 'quick'), (1, 2, 1, 'quick'), (2, 2, 2, 'thorough')]:
    for t, (a, b) in enumerate(split(2 * n * (n + 1), 12 * n * n - 2 * n * (n + 1), k)):
        add(P, 'sphere-%d-%d-%d' % (n, size, t), pix, dict(n=n, size=size, sphere=True, lo=a, hi=b), budget=120, tier=tier,
            bounds='nside %d, pixels %d to %d (inside the equatorial belt), %d points, every draw' % (n, a, b, size))
