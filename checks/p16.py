"""Random points follow the uniform measure of their region: the cumulative distribution values of the outputs are independent uniform draws."""
from symx.reg import add
from .common import uniform

P = 'P16'


def cart(h, d, size, default):
    r = h.mod('magpie.randoms')
    if default is True:
        lo, hi = [0] * d, [1] * d
        args = {}
    else:
        lo = [h.real('lo%d' % t, -10000, 10000) for t in range(d)]
        hi = [lo[t] + h.real('w%d' % t, h.q(1, 1000), 10000) for t in range(d)]
        if default == 'cube':
            lo, hi = lo[:1] * d, hi[:1] * d
        args = dict(mins=lo, maxs=hi) if d > 1 else dict(xmin=lo[0], xmax=hi[0])
    out = {1: r.randoms_1d, 2: r.randoms_2d, 3: r.randoms_3d}[d](size, **args)
    if d == 1:
        out = [out]
    h.check(len(out) == d, 'number of coordinates')
    vals = []
    for t in range(d):
        h.check(out[t].shape == (size,), 'number of points')
        h.ge(out[t], lo[t], 'lower limit')
        h.le(out[t], hi[t], 'upper limit')
        vals += [(out[t][k] - lo[t]) / (hi[t] - lo[t]) for k in range(size)]
    uniform(h, vals, 'uniform and independent')


def polar(h, size, default):
    r = h.mod('magpie.randoms')
    if default:
        r0, r1, p0, p1, kw = 0, 1, 0, 2 * h.pi, {}
    else:
        r0 = h.real('r0', 0, 1000)
        r1 = r0 + h.real('w', h.q(1, 1000), 1000)
        p0, p1 = h.angle('p0', -2, 2), h.angle('p1', -2, 4)
        h.assume(p1 - p0 > h.q(1, 8))
        kw = dict(r_min=r0, r_max=r1, phi_min=p0, phi_max=p1)
    R, PH = r.randoms_polar(size, **kw)
    h.check(R.shape == (size,) and PH.shape == (size,), 'number of points')
    h.ge(R, r0, 'inner radius')
    h.le(R, r1, 'outer radius')
    h.ge(PH, p0, 'lower angle')
    h.le(PH, p1, 'upper angle')
    vals = [(R[k] * R[k] - r0 * r0) / (r1 * r1 - r0 * r0) for k in range(size)] + [(PH[k] - p0) / (p1 - p0) for k in range(size)]
    uniform(h, vals, 'uniform in area')


def sphere(h, size, default, shell):
    r = h.mod('magpie.randoms')
    np = h.np
    kw = {}
    p0, p1, t0, t1, r0, r1 = 0, 2 * h.pi, 0 * h.pi, h.pi, 0, 1
    if not default:
        p0, p1 = h.angle('p0', 0, 2), h.angle('p1', 0, 2)
        t0, t1 = h.angle('t0', 0, 1), h.angle('t1', 0, 1)
        h.assume(p1 - p0 > h.q(1, 8))
        h.assume(t1 - t0 > h.q(1, 8))
        h.assume(np.cos(t0) - np.cos(t1) > h.q(1, 1000))     # follows from the line above
        kw = dict(phi_min=p0, phi_max=p1, theta_min=t0, theta_max=t1)
        if shell:
            r0 = h.real('r0', 0, 1000)
            r1 = r0 + h.real('w', h.q(1, 1000), 1000)
            kw.update(r_min=r0, r_max=r1)
    vals = []
    if shell:
        R, PH, TH = r.randoms_sphere(size, **kw)
        h.check(R.shape == (size,), 'number of points')
        vals += shell_cdf(h, R, r0, r1, size)
    else:
        PH, TH = r.randoms_usphere(size, **kw)
    h.check(PH.shape == (size,) and TH.shape == (size,), 'number of points')
    h.ge(PH, p0, 'lower phi')
    h.le(PH, p1, 'upper phi')
    c0, c1 = np.cos(t0), np.cos(t1)
    for k in range(size):
        h.le(np.cos(TH[k]), c0, 'lower theta')
        h.ge(np.cos(TH[k]), c1, 'upper theta')
        h.ge(TH[k], 0, 'theta range')
        h.le(TH[k], h.pi, 'theta range')
    vals += [(PH[k] - p0) / (p1 - p0) for k in range(size)] + [(c0 - np.cos(TH[k])) / (c0 - c1) for k in range(size)]
    uniform(h, vals, 'uniform on the sphere')


def shell_cdf(h, R, r0, r1, size):
    h.ge(R * R * R, r0 * r0 * r0, 'inner radius')
    h.le(R * R * R, r1 * r1 * r1, 'outer radius')
    h.ge(R, 0, 'radius sign')
    return [(R[k] * R[k] * R[k] - r0 * r0 * r0) / (r1 * r1 * r1 - r0 * r0 * r0) for k in range(size)]


def radius(h, size, default):
    r = h.mod('magpie.randoms')
    if default:
        r0, r1 = 0, 1
        R = r.randoms_sphere_r(size)
    else:
        r0 = h.real('r0', 0, 1000)
        r1 = r0 + h.real('w', h.q(1, 1000), 1000)
        R = r.randoms_sphere_r(size, r_min=r0, r_max=r1)
    h.check(R.shape == (size,), 'number of points')
    uniform(h, shell_cdf(h, R, r0, r1, size), 'uniform in volume')


for d in (1, 2, 3):
    for df in (False, True):
        add(P, 'cart-%d-%s' % (d, 'default' if df else 'box'), cart, dict(d=d, size=2, default=df), bounds='2 points, every box')
for df in (False, True):
    n = 'default' if df else 'range'
    add(P, 'polar-' + n, polar, dict(size=2, default=df), bounds='2 points, every ring segment')
    add(P, 'usphere-' + n, sphere, dict(size=2, default=df, shell=False), bounds='2 points, every segment of the sphere')
    add(P, 'sphere-' + n, sphere, dict(size=2, default=df, shell=True), bounds='2 points, every shell segment')
    add(P, 'radius-' + n, radius, dict(size=2, default=df), bounds='2 points, every shell')
for d in (1, 2, 3):
    add(P, 'cart-%d-single' % d, cart, dict(d=d, size=1, default=False), bounds='1 point, every box')
    add(P, 'cart-%d-cube' % d, cart, dict(d=d, size=1, default='cube'), bounds='1 point, the same range on every axis')
    add(P, 'cart-%d-none' % d, cart, dict(d=d, size=0, default=False), bounds='no points')
add(P, 'polar-single', polar, dict(size=1, default=False), bounds='1 point, every ring segment')
add(P, 'usphere-single', sphere, dict(size=1, default=False, shell=False), bounds='1 point, every segment of the sphere')
for d in (1, 2, 3):
    add(P, 'cart-%d-nine' % d, cart, dict(d=d, size=9, default=False), bounds='9 points, every box')
add(P, 'polar-nine', polar, dict(size=9, default=False), bounds='9 points, every ring segment')
add(P, 'usphere-nine', sphere, dict(size=9, default=False, shell=False), bounds='9 points, every segment of the sphere')
add(P, 'sphere-five', sphere, dict(size=5, default=False, shell=True), bounds='5 points, every shell segment')
add(P, 'radius-nine', radius, dict(size=9, default=False), bounds='9 points, every shell')
