"""The HEALPix projection between the sphere and the plane."""
from symx.reg import add

P = 'P10'


def absz(h, z):
    return z if z >= 0 else -z


def forward(h, array=False, cap=None):
    """Sphere -> plane -> sphere."""
    c = h.mod('magpie.coords')
    np = h.np
    phi = h.angle('phi', 0, 2)
    theta = h.angle('theta', 0, 1)
    h.assume(phi < 2 * h.pi)
    z = np.cos(theta)
    if cap is True:
        h.assume((z > h.q(2, 3)) | (z < h.q(-2, 3)))
    elif cap is False:
        h.assume((z <= h.q(2, 3)) & (z >= h.q(-2, 3)))
    if array:
        PH, TH = h.arr([phi, 1, h.pi / 2]), h.arr([theta, h.pi / 2, 0])
        s = h.snapshot(PH), h.snapshot(TH)
        X, Y = c.healpix_ang2xy(PH, TH)
        h.eq(Y[1], 0, 'equator')
        h.eq(X[1], 1, 'equator')
        h.eq(Y[2], h.pi / 2, 'north pole')
        t = h.snapshot(X), h.snapshot(Y)
        P1, T1 = c.healpix_xy2ang(X, Y)
        for a, b in zip((PH, TH, X, Y), s + t):
            h.eq(a, b, 'input kept')
        h.eq(T1[2], 0, 'north pole')
        x, y, p1, t1 = X[0], Y[0], P1[0], T1[0]
    else:
        x, y = c.healpix_ang2xy(phi, theta)
        p1, t1 = c.healpix_xy2ang(x, y)
    h.le(y, h.pi / 2, 'y<=pi/2')
    h.ge(y, -h.pi / 2, 'y>=-pi/2')
    if z <= h.q(2, 3) and z >= h.q(-2, 3):
        h.eq(x, phi, 'x in the belt')
        h.eq(8 * y, 3 * h.pi * z, 'y in the belt')
    else:
        a = absz(h, z)
        s = absz(h, y) * 4 / h.pi          # 1..2
        h.eq(3 * (1 - a), (2 - s) * (2 - s), 'y in the caps')
        h.check((y > 0) if z > 0 else (y < 0), 'hemisphere')
        k = 0
        while k < 3 and not phi < h.pi / 2 * (k + 1):
            k += 1
        xc = h.pi / 4 * (2 * k + 1)
        h.eq(x - xc, (phi - xc) * (2 - s), 'x in the caps')
    h.eq(np.cos(t1), z, 'theta back')
    if theta > 0 and theta < h.pi:
        h.eq(p1, phi, 'phi back')


def backward(h, k, north, array=False):
    """Plane -> sphere -> plane inside one cap facet."""
    c = h.mod('magpie.coords')
    np = h.np
    y = h.angle('y', 0, 1)
    h.assume(y > h.pi / 4)
    h.assume(y < h.pi / 2)
    t = h.real('t', -1, 1)
    h.assume(t > -1)
    h.assume(t < 1)
    xc = h.pi / 4 * (2 * k + 1)
    x = xc + t * (h.pi / 2 - y)
    Y = y if north else -y
    if array:
        X0, Y0 = h.arr([x, 2]), h.arr([Y, 0])
        p1, t1 = c.healpix_xy2ang(X0, Y0)
        h.eq(p1[1], 2, 'equator')
        h.eq(t1[1], h.pi / 2, 'equator')
        X1, Y1 = c.healpix_ang2xy(p1, t1)
        p1, t1, X1, Y1 = p1[0], t1[0], X1[0], Y1[0]
    else:
        p1, t1 = c.healpix_xy2ang(x, Y)
        X1, Y1 = c.healpix_ang2xy(p1, t1)
    h.eq(p1, xc + t * h.pi / 4, 'phi in the caps')
    s = 2 - 4 * y / h.pi
    z = 1 - s * s / 3
    h.eq(np.cos(t1), z if north else -z, 'z in the caps')
    h.eq(X1, x, 'x back')
    h.eq(Y1, Y, 'y back')


def belt(h):
    c = h.mod('magpie.coords')
    x, y = h.angle('x', 0, 2), h.angle('y', -1, 1)
    h.assume(y <= h.pi / 4)
    h.assume(y >= -h.pi / 4)
    h.assume(x < 2 * h.pi)
    p, t = c.healpix_xy2ang(x, y)
    h.eq(p, x, 'phi in the belt')
    h.eq(3 * h.pi * h.np.cos(t), 8 * y, 'z in the belt')
    X, Y = c.healpix_ang2xy(p, t)
    h.eq(X, x, 'x back')
    h.eq(Y, y, 'y back')


def poles(h):
    c = h.mod('magpie.coords')
    phi = h.angle('phi', 0, 2)
    for s in (1, -1):
        th = 0 if s > 0 else h.pi
        x, y = c.healpix_ang2xy(phi, th * h.q(1))
        h.eq(y, s * h.pi / 2, 'y of the pole')
        p, t = c.healpix_xy2ang(x, y)
        h.eq(t, th, 'theta of the pole')
        X, Y = c.healpix_ang2xy(h.arr([phi, phi]), h.arr([th, h.pi / 2]))
        p, t = c.healpix_xy2ang(X, Y)
        h.eq(t, h.arr([th, h.pi / 2]), 'theta of the pole')
        h.eq(p[1], phi, 'phi beside a pole')


B = 'all phi in [0,2pi), all theta in [0,pi]'
add(P, 'sphere-belt', forward, dict(cap=False), bounds=B)
add(P, 'sphere-caps', forward, dict(cap=True), bounds=B)
add(P, 'sphere-belt-array', forward, dict(cap=False, array=True), bounds=B)
add(P, 'sphere-caps-array', forward, dict(cap=True, array=True), bounds=B)
for k in range(4):
    add(P, 'plane-cap-%d' % k, backward, dict(k=k, north=k % 2 == 0, array=k < 2), bounds='every point inside the facet')
    add(P, 'plane-cap-%d-b' % k, backward, dict(k=k, north=k % 2 == 1, array=k >= 2), bounds='every point inside the facet')
add(P, 'plane-belt', belt, bounds='every point of the belt')
add(P, 'poles', poles, bounds='every phi')
