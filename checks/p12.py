"""Boundaries of HEALPix pixels in the projected plane."""
from symx.reg import add
from .p09 import centre, plane

P = 'P12'


def side(h, x, y, xp, yp, d, up, steps):
    """Points of one half of the boundary, in order of increasing x."""
    h.check(len(x) == steps and len(y) == steps, 'number of points')
    h.eq(x[0], xp - d, 'left corner')
    h.eq(y[0], yp, 'left corner')
    h.eq(x[steps - 1], xp + d, 'right corner')
    h.eq(y[steps - 1], yp, 'right corner')
    s = 1 if up else -1
    l = steps // 2
    for k in range(steps):
        if k < l:
            h.eq(s * (y[k] - yp), d - (xp - x[k]), 'on the left side')
            h.eq(x[k] - xp, -d + h.q(k, l - 1) * d, 'even steps')
        else:
            h.eq(s * (y[k] - yp), d - (x[k] - xp), 'on the right side')
            h.eq(x[k] - xp, h.q(k - l, steps - l - 1) * d, 'even steps')


def boundary(h, n, steps, which, default=False):
    m = h.mod('magpie.pixel')
    p = h.int('p', 0, 12 * n * n - 1)
    i, j = m.healpix_pix2ij(p, n)
    z, phi = centre(h, n, i, j)
    xp, yp = plane(h, n, z, phi, i, j)
    d = h.pi / (4 * n)
    f = {'top': m.healpix_boundary_top, 'bot': m.healpix_boundary_bot, 'all': m.healpix_boundary}[which]
    kw = {} if default else dict(steps=steps)
    if default:
        steps = dict(top=20, bot=20, all=40)[which]
    x, y = f(p, n, **kw)
    if which == 'all':
        t = steps // 2
        h.check(len(x) == steps and len(y) == steps, 'number of points')
        side(h, x[:t], y[:t], xp, yp, d, True, t)
        side(h, x[t:][::-1], y[t:][::-1], xp, yp, d, False, steps - t)
    else:
        side(h, x, y, xp, yp, d, which == 'top', steps)
    if not default:
        X, Y = f(p, n, steps=steps, reverse=True)
        h.eq(X, x[::-1], 'reversed')
        h.eq(Y, y[::-1], 'reversed')


for n in (1, 2, 3):
    for w, st in (('top', 4), ('top', 5), ('bot', 4), ('bot', 5), ('all', 8), ('all', 9), ('all', 10)):
        if n == 2 or st in (5, 9):
            add(P, '%s-%d-%d' % (w, n, st), boundary, dict(n=n, steps=st, which=w), bounds='nside %d, every pixel, %d points' % (n, st))
for w in ('top', 'bot', 'all'):
    add(P, '%s-default' % w, boundary, dict(n=2, steps=None, which=w, default=True), bounds='nside 2, every pixel, default number of points')
    add(P, '%s-8-6' % w, boundary, dict(n=8, steps=8, which=w), bounds='nside 8, every pixel, 8 points', tier='thorough')
