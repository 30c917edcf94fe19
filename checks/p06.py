"""Cartesian <-> spherical conversions and the orthographic projection."""
from symx.reg import add

P = 'P06'


def one(h, x, y, z, r, phi, theta, c):
    np = h.np
    dx, dy, dz = x - c[0], y - c[1], z - c[2]
    h.ge(r, 0, 'radius sign')
    h.eq(r * r, dx * dx + dy * dy + dz * dz, 'radius')
    h.ge(phi, 0, 'phi>=0')
    h.le(phi, 2 * h.pi, 'phi<=2pi')
    h.ge(theta, 0, 'theta>=0')
    h.le(theta, h.pi, 'theta<=pi')
    h.eq(r * np.cos(theta), dz, 'z offset')
    h.eq(r * np.sin(theta) * np.cos(phi), dx, 'x offset')
    h.eq(r * np.sin(theta) * np.sin(phi), dy, 'y offset')


def scalar(h, center):
    m = h.mod('magpie.coords')
    x, y, z = h.real('x', -10000, 10000), h.real('y', -10000, 10000), h.real('z', -10000, 10000)
    if center:
        c = [h.real('c%d' % i, -10000, 10000) for i in range(3)]
        r, phi, theta = m.cart2sphere(x, y, z, center=c)
        X, Y, Z = m.sphere2cart(r, phi, theta, center=c)
    else:
        c = [0, 0, 0]
        r, phi, theta = m.cart2sphere(x, y, z)
        X, Y, Z = m.sphere2cart(r, phi, theta)
    one(h, x, y, z, r, phi, theta, c)
    h.eq(X, x, 'x')
    h.eq(Y, y, 'y')
    h.eq(Z, z, 'z')


def array(h, shape, kind='real'):
    m = h.mod('magpie.coords')
    c = [h.real('c%d' % i, -10000, 10000) for i in range(3)]
    if kind == 'int':
        x, y, z = [h.arr(v, dtype=int) for v in ([3, -4, 0], [-5, 2, 1], [-1, 7, 0])]
    elif kind == 'many':
        # one free point among points at fixed offsets from the center
        fix = ((3, -4, -5, 2, 0, 0, 0, -1), (4, 3, -2, -9, 0, 0, 1, 0), (1, -1, 2, -3, 5, 0, 0, 0))
        x, y, z = [h.arr([c[t] + h.q(u, 7) for u in fix[t]] + [h.real('xyz'[t], -10000, 10000)]) for t in range(3)]
    else:
        x, y, z = [h.reals(n, shape, -10000, 10000) for n in 'xyz']
    s = [h.snapshot(v) for v in (x, y, z)]
    r, phi, theta = m.cart2sphere(x, y, z, center=c)
    for v in (r, phi, theta):
        h.check(v.shape == tuple(shape), 'shape kept')
    t = [h.snapshot(v) for v in (r, phi, theta)]
    X, Y, Z = m.sphere2cart(r, phi, theta, center=c)
    for a, b in zip((x, y, z, r, phi, theta), s + t):
        h.eq(a, b, 'input kept')
    h.eq(X, x, 'x')
    h.eq(Y, y, 'y')
    h.eq(Z, z, 'z')
    for k in range(len(x.flatten())):
        one(h, *[v.flatten()[k] for v in (x, y, z, r, phi, theta)], c)


def sphere_cart(h, array=False):
    m = h.mod('magpie.coords')
    np = h.np
    r = h.real('r', 0, 10000)
    phi, theta = h.angle('phi', 0, 2), h.angle('theta', 0, 1)
    h.assume(phi < 2 * h.pi)
    c = [h.real('c%d' % i, -10000, 10000) for i in range(3)]
    if array:
        X, Y, Z = m.sphere2cart(h.arr([r, 1]), h.arr([phi, 0]), h.arr([theta, 0]), center=c)
        h.eq(h.arr([X[1], Y[1], Z[1]]), h.arr([c[0], c[1], c[2] + 1]), 'pole')
        X, Y, Z = X[0], Y[0], Z[0]
    else:
        X, Y, Z = m.sphere2cart(r, phi, theta, center=c)
    h.eq(X, c[0] + r * np.sin(theta) * np.cos(phi), 'x')
    h.eq(Y, c[1] + r * np.sin(theta) * np.sin(phi), 'y')
    h.eq(Z, c[2] + r * np.cos(theta), 'z')
    R, PH, TH = m.cart2sphere(X, Y, Z, center=c)
    h.eq(R, r, 'r')
    if r > 0:
        h.eq(np.cos(TH), np.cos(theta), 'theta')
        h.eq(np.sin(TH) * np.cos(PH), np.sin(theta) * np.cos(phi), 'cos phi')
        h.eq(np.sin(TH) * np.sin(PH), np.sin(theta) * np.sin(phi), 'sin phi')


def ortho(h, shape=None, default=False):
    m = h.mod('magpie.coords')
    r = 1 if default else h.real('r', h.q(1, 4), 4)
    kw = {} if default else dict(r=r, fill_value=h.real('fill', -9, -5))
    if shape is None:
        x, y = h.real('x', -5, 5), h.real('y', -5, 5)
        z = m.ortho2cart(x, y, **kw)
        pts = [(x, y, z)]
    else:
        x, y = h.reals('x', shape, -5, 5), h.reals('y', shape, -5, 5)
        z = m.ortho2cart(x, y, **kw)
        h.check(z.shape == tuple(shape), 'shape kept')
        pts = list(zip(x.flatten(), y.flatten(), z.flatten()))
    for a, b, c in pts:
        if a * a + b * b < r * r:
            h.ge(c, 0, 'upper hemisphere')
            h.eq(a * a + b * b + c * c, r * r, 'on the sphere')
        elif default:
            if a * a + b * b > r * r:
                h.check(h.isnan(c), 'NaN off the sphere')
        else:
            if a * a + b * b > r * r:
                h.eq(c, kw['fill_value'], 'fill value off the sphere')


B = 'coordinates and center in [-10000,10000]'
add(P, 'cart-sphere-cart', scalar, dict(center=False), bounds=B)
add(P, 'cart-sphere-cart-center', scalar, dict(center=True), bounds=B, budget=90)
add(P, 'cart-sphere-array', array, dict(shape=(2,)), bounds='two points, ' + B, budget=90)
add(P, 'cart-sphere-2d', array, dict(shape=(1, 2)), bounds='1x2 arrays, ' + B, budget=90)
add(P, 'sphere-cart-sphere', sphere_cart, bounds='r in [0,10000], all angles', budget=90)
add(P, 'sphere-cart-sphere-array', sphere_cart, dict(array=True), bounds='r in [0,10000], all angles', budget=90)
add(P, 'ortho-scalar', ortho, bounds='x, y in [-5,5], r in [1/4,4]')
add(P, 'ortho-array', ortho, dict(shape=(2,)), bounds='x, y in [-5,5], r in [1/4,4]')
add(P, 'ortho-2d', ortho, dict(shape=(2, 1)), bounds='x, y in [-5,5], r in [1/4,4]')
add(P, 'ortho-default', ortho, dict(default=True), bounds='x, y in [-5,5], unit sphere')
add(P, 'ortho-default-array', ortho, dict(shape=(2,), default=True), bounds='x, y in [-5,5], unit sphere')
add(P, 'cart-sphere-many', array, dict(shape=(9,), kind='many'), bounds='nine points, one of them free, ' + B, budget=90)
add(P, 'cart-sphere-ints', array, dict(shape=(3,), kind='int'), bounds='three points with fixed integer coordinates, every center', budget=90)
