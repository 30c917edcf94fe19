"""Cartesian <-> polar conversions."""
from symx.reg import add

P = 'P05'


def one(h, x, y, r, phi, cx, cy, polar_in=False):
    h.ge(r, 0, 'radius sign')
    h.eq(r * r, (x - cx) * (x - cx) + (y - cy) * (y - cy), 'radius')
    h.ge(phi, 0, 'phi>=0')
    h.le(phi, 2 * h.pi, 'phi<=2pi')
    h.eq(r * h.np.cos(phi), x - cx, 'x offset')
    h.eq(r * h.np.sin(phi), y - cy, 'y offset')


def roundtrip_scalar(h, center=True):
    c = h.mod('magpie.coords')
    x = h.real('x', -10000, 10000)
    y = h.real('y', -10000, 10000)
    cx = cy = 0
    if center:
        cx, cy = h.real('cx', -10000, 10000), h.real('cy', -10000, 10000)
        r, phi = c.cart2polar(x, y, center=[cx, cy])
        X, Y = c.polar2cart(r, phi, center=[cx, cy])
    else:
        r, phi = c.cart2polar(x, y)
        X, Y = c.polar2cart(r, phi)
    one(h, x, y, r, phi, cx, cy)
    h.eq(X, x, 'x')
    h.eq(Y, y, 'y')


def roundtrip_array(h, shape, kind='real'):
    c = h.mod('magpie.coords')
    cx, cy = h.real('cx', -10000, 10000), h.real('cy', -10000, 10000)
    if kind == 'int':
        x, y = [h.arr([h.int(n + str(k), -100, 100) for k in range(shape[0])], dtype=int) for n in 'xy']
    elif kind == 'many':
        # one free point among points at fixed offsets from the center
        x = h.arr([cx + h.q(u, 7) for u in (3, -4, -5, 2, 0, 0, -1)] + [h.real('x', -10000, 10000)])
        y = h.arr([cy + h.q(u, 7) for u in (4, 3, -2, -9, 1, 0, 0)] + [h.real('y', -10000, 10000)])
    else:
        x = h.reals('x', shape, -10000, 10000)
        y = h.reals('y', shape, -10000, 10000)
    x0, y0 = h.snapshot(x), h.snapshot(y)
    r, phi = c.cart2polar(x, y, center=[cx, cy])
    h.check(r.shape == tuple(shape) and phi.shape == tuple(shape), 'shape kept')
    r0, p0 = h.snapshot(r), h.snapshot(phi)
    X, Y = c.polar2cart(r, phi, center=[cx, cy])
    h.eq(x, x0, 'x input kept')
    h.eq(y, y0, 'y input kept')
    h.eq(r, r0, 'r input kept')
    h.eq(phi, p0, 'phi input kept')
    for a, b, u, v, X1, Y1 in zip(x.flatten(), y.flatten(), r.flatten(), phi.flatten(), X.flatten(), Y.flatten()):
        one(h, a, b, u, v, cx, cy)
        h.eq(X1, a, 'x')
        h.eq(Y1, b, 'y')


def polar_cart(h, array=False):
    c = h.mod('magpie.coords')
    r = h.real('r', 0, 10000)
    phi = h.angle('phi', 0, 2)
    h.assume(phi < 2 * h.pi)
    cx, cy = h.real('cx', -10000, 10000), h.real('cy', -10000, 10000)
    if array:
        X, Y = c.polar2cart(h.arr([r, r]), h.arr([phi, 0]), center=[cx, cy])
        h.eq(X[1], cx + r, 'x on the axis')
        h.eq(Y[1], cy, 'y on the axis')
        X, Y = X[0], Y[0]
    else:
        X, Y = c.polar2cart(r, phi, center=[cx, cy])
    h.eq(X, cx + r * h.np.cos(phi), 'x')
    h.eq(Y, cy + r * h.np.sin(phi), 'y')
    R, PH = c.cart2polar(X, Y, center=[cx, cy])
    h.eq(R, r, 'r')
    if r > 0:
        h.eq(h.np.cos(PH), h.np.cos(phi), 'cos phi')
        h.eq(h.np.sin(PH), h.np.sin(phi), 'sin phi')


B = 'x, y and center in [-10000,10000]'
add(P, 'cart-polar-cart-scalar', roundtrip_scalar, dict(center=False), bounds='all x, y in [-10000,10000]')
add(P, 'cart-polar-cart-center', roundtrip_scalar, bounds=B)
add(P, 'cart-polar-cart-array', roundtrip_array, dict(shape=(2,)), bounds='two points, ' + B)
add(P, 'cart-polar-cart-2d', roundtrip_array, dict(shape=(2, 1)), bounds='2x1 arrays, ' + B)
add(P, 'polar-cart-polar', polar_cart, bounds='r in [0,10000], any phi, center in [-10000,10000]')
add(P, 'polar-cart-polar-array', polar_cart, dict(array=True), bounds='r in [0,10000], any phi, center in [-10000,10000]')
add(P, 'cart-polar-cart-many', roundtrip_array, dict(shape=(8,), kind='many'), bounds='eight points, one of them free, ' + B)
add(P, 'cart-polar-cart-ints', roundtrip_array, dict(shape=(2,), kind='int'), bounds='two points with integer coordinates in [-100,100]')
