"""Areas of patches of the unit sphere, and latitudes."""
from symx.reg import add

P = 'P33'


def area(h, p, t):
    c = h.mod('magpie.coords')
    A = [h.angle(n, *v) if isinstance(v, tuple) else h.pi * h.q(v) for n, v in zip(('p0', 'p1', 't0', 't1'), p + t)]
    h.assume(A[0] < A[1])
    h.assume(A[2] < A[3])
    z = h.np.cos
    h.eq(c.usphere_area(*A), (A[1] - A[0]) * (z(A[2]) - z(A[3])), 'longitude range times difference of heights')


add(P, 'area-lon', area, dict(p=((0, '1999/1000'), ('1/1000', 2)), t=('1/3', '3/4')), bounds='all longitude ranges', budget=60)
add(P, 'area-lat', area, dict(p=('1/4', '3/2'), t=((0, '999/1000'), ('1/1000', 1))), bounds='all latitude ranges', budget=60)
add(P, 'area-all', area, dict(p=((0, '1999/1000'), ('1/1000', 2)), t=((0, '999/1000'), ('1/1000', 1))), bounds='all ranges', budget=60)


def parts(h, along):
    """The parts of a patch add up to the patch; the whole sphere is 4 pi."""
    c = h.mod('magpie.coords')
    p0, p1 = h.pi * h.q(1, 5), h.pi * h.q(9, 5)
    t0, t1 = h.pi * h.q(1, 7), h.pi * h.q(6, 7)
    if along == 'lon':
        m = h.angle('m', '1/5', '9/5')
        h.assume(m > p0)
        h.assume(m < p1)
        s = c.usphere_area(p0, m, t0, t1) + c.usphere_area(m, p1, t0, t1)
    else:
        m = h.angle('m', '1/7', '6/7')
        h.assume(m > t0)
        h.assume(m < t1)
        s = c.usphere_area(p0, p1, t0, m) + c.usphere_area(p0, p1, m, t1)
    h.eq(s, c.usphere_area(p0, p1, t0, t1), 'parts add up')
    h.eq(c.usphere_area(h.q(0), 2 * h.pi, h.q(0), h.pi), 4 * h.pi, 'whole sphere')


for a in ('lon', 'lat'):
    add(P, 'parts-' + a, parts, dict(along=a), bounds='every cut', budget=60)


def lat(h, shape):
    c = h.mod('magpie.coords')
    n = 1
    for s in shape or ():
        n *= s
    t = [h.angle('t%d' % i, -1, 1) for i in range(n)]
    x = h.arr(t).reshape(shape) if shape else t[0]
    k = h.snapshot(x) if shape else None
    for f, g in ((c.sphere2lonlat, c.lonlat2sphere), (c.lonlat2sphere, c.sphere2lonlat)):
        y = f(x)
        if shape:
            h.eq(x, k, 'input kept')
            h.check(tuple(y.shape) == tuple(shape), 'shape')
        for a, b, d in zip(t, list(y.flatten()) if shape else [y], list(g(y).flatten()) if shape else [g(y)]):
            h.eq(b, h.pi / 2 - a, 'quarter turn less the angle')
            h.eq(d, a, 'there and back')


for s in (None, (1,), (3,), (2, 2)):
    add(P, 'lat-' + ('x'.join(map(str, s)) if s else 'scalar'), lat, dict(shape=s), bounds='angles in [-pi, pi]', budget=30)
