"""Rotations of the unit sphere."""
from symx.reg import add

P = 'P07'


def vec(h, phi, theta):
    np = h.np
    return [np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def mer(h, pc, d, p):
    """Rotation by d along the meridian of longitude pc (towards larger theta)."""
    n = [-h.np.sin(pc), h.np.cos(pc), 0]
    return about(n, d, p, h)


def about(n, a, p, h):
    c, s = h.np.cos(a), h.np.sin(a)
    d = dot(n, p) * (1 - c)
    x = cross(n, p)
    return [c * p[i] + s * x[i] + n[i] * d for i in range(3)]


def rotate_meridian(h, start, end, kind='s'):
    """usphere_rotate along one meridian (the case every class uses)."""
    c = h.mod('magpie.coords')
    phi = h.angle('phi', 0, 2)
    theta = h.angle('theta', 0, 1)
    pc = h.angle('pc', 0, 2)
    t0 = h.pi * start if start is not None else h.angle('t0', 0, 1)
    t1 = h.pi * end if end is not None else h.angle('t1', 0, 1)
    h.assume(t0 != t1)
    if start is None or end is None:
        h.assume(h.np.sin(t1 - t0) != 0)
    P1, T1 = c.usphere_rotate(phi, theta, pc, t1, phi_start=pc, theta_start=t0)
    exp = mer(h, pc, t1 - t0, vec(h, phi, theta))
    h.eq(vec(h, P1, T1), exp, 'rotated direction')


add(P, 'rotate-from-pole', rotate_meridian, dict(start=0, end=None), bounds='all angles', budget=120)
add(P, 'rotate-to-pole', rotate_meridian, dict(start=None, end=0), bounds='all angles', budget=120)


def shortest(u, v, p):
    """The rotation taking u to v about u x v, applied to p."""
    w = cross(u, v)
    c = dot(u, v)
    k = dot(w, p) / (1 + c)
    wp = cross(w, p)
    return [c * p[i] + wp[i] + w[i] * k for i in range(3)]


def rotate_general(h, p0, t0, p1=None, t1=None):
    """Start at a fixed point, any end."""
    c = h.mod('magpie.coords')
    phi = h.angle('phi', 0, 2)
    theta = h.angle('theta', 0, 1)
    p0, t0 = h.pi * h.q(*p0), h.pi * h.q(*t0)
    p1 = h.angle('p1', 0, 2) if p1 is None else h.pi * h.q(*p1)
    t1 = h.angle('t1', 0, 1) if t1 is None else h.pi * h.q(*t1)
    u, v = vec(h, p0, t0), vec(h, p1, t1)
    d = dot(u, v)
    h.assume(d < 1)
    h.assume(d > -1)
    P1, T1 = c.usphere_rotate(phi, theta, p1, t1, phi_start=p0, theta_start=t0)
    w = cross(u, v)
    p = vec(h, phi, theta)
    k = dot(w, p)
    wp = cross(w, p)
    out = vec(h, P1, T1)
    h.eq([o * (1 + d) for o in out], [(d * p[i] + wp[i]) * (1 + d) + w[i] * k for i in range(3)], 'rotated direction')


for _i, (_a, _b, _c, _d) in enumerate([((0,), (1, 2), (1, 2), (1, 4)), ((1, 2), (1, 2), (4, 3), (2, 3)), ((1, 2), (1, 4), (0,), (1, 2))]):
    add(P, 'rotate-points-%d' % _i, rotate_general, dict(p0=_a, t0=_b, p1=_c, t1=_d), bounds='start pi*(%s, %s), end pi*(%s, %s), any point' % (_a, _b, _c, _d),
        budget=60, tmo=0.4, prove_tmo=5)


def spin(h, at_axis=False):
    c = h.mod('magpie.coords')
    pc = h.angle('pc', 0, 2)
    tc = h.angle('tc', 0, 1)
    a = h.angle('alpha', 0, 2)
    h.assume(a < 2 * h.pi)
    h.assume(h.np.sin(tc) != 0)
    if at_axis:
        phi, theta = pc, tc
        p = vec(h, phi, theta)
    else:
        phi = h.angle('phi', 0, 2)
        theta = h.angle('theta', 0, 1)
        p = vec(h, phi, theta)
        m = mer(h, pc, -tc, p)
        h.assume((m[0] != 0) | (m[1] != 0))     # not on the axis
    P1, T1 = c.usphere_spin(phi, theta, pc, tc, a)
    exp = about(vec(h, pc, tc), a, p, h)
    h.eq(vec(h, P1, T1), exp, 'spun direction')


add(P, 'spin', spin, bounds='all angles, point off the axis', budget=40, tmo=0.4, prove_tmo=5)
add(P, 'spin-axis', spin, dict(at_axis=True), bounds='point on the axis', budget=60, tmo=0.4, prove_tmo=5)


def phi_shift(h, shape=None):
    """Longitude plus shift, wrapped once; scalars and arrays."""
    c = h.mod('magpie.coords')
    d = h.angle('dphi', -2, 2)
    n = 1 if shape is None else shape[0] * (shape[1] if len(shape) > 1 else 1)
    ph = [h.angle('phi%d' % i, 0, 2) for i in range(n)]
    if shape is None:
        out = [c.usphere_phi_shift(ph[0], d)]
    else:
        A = h.arr(ph).reshape(shape)
        s = h.snapshot(A)
        out = c.usphere_phi_shift(A, d)
        h.eq(A, s, 'input kept')
        h.check(tuple(out.shape) == tuple(shape), 'shape')
        out = list(out.flatten())
    for p, o in zip(ph, out):
        h.ge(o, 0, 'wrapped')
        h.le(o, 2 * h.pi, 'wrapped')
        k = p + d - o
        h.eq(k * (k - 2 * h.pi) * (k + 2 * h.pi), 0, 'shifted by a whole turn or none')


def fixed_points(h, shape, which, ph, th):
    """Array of fixed directions with a symbolic one at one place."""
    n = shape[0] * (shape[1] if len(shape) > 1 else 1)
    F = [('1/3', '1/4'), ('7/6', '2/3'), ('3/2', '1/3'), ('5/6', '1/2'), ('1/4', '5/6'), ('11/6', '3/4')]
    P1 = [h.pi * h.q(a) for a, b in F[:n]]
    T1 = [h.pi * h.q(b) for a, b in F[:n]]
    P1[which], T1[which] = ph, th
    return h.arr(P1).reshape(shape), h.arr(T1).reshape(shape), list(zip(P1, T1))


def arrays(h, what, shape, which):
    """Rotation, shift and spin of coordinate arrays are those of their entries, which stay unchanged."""
    c = h.mod('magpie.coords')
    free = (h.angle('phi', 0, 2), h.angle('theta', 0, 1)) if what != 'spin' else (h.pi / 4, h.pi / 3)
    PH, TH, L = fixed_points(h, shape, which, *free)
    s = h.snapshot(PH), h.snapshot(TH)
    pc, t0, t1 = h.pi * h.q(1, 3), h.pi * h.q(1, 4), h.pi * h.q(2, 3)
    if what == 'rotate':
        A, B = c.usphere_rotate(PH, TH, pc, t1, phi_start=pc, theta_start=t0)
        def exp(p, t):
            return mer(h, pc, t1 - t0, vec(h, p, t))
    elif what == 'shift':
        p0 = h.pi * h.q(7, 4)
        A, B = c.usphere_shift(PH, TH, p0, t0, pc, t1)
        def exp(p, t):
            return mer(h, pc, t1 - t0, vec(h, p + pc - p0, t))
    elif what == 'shift-phi':
        p0 = h.pi * h.q(7, 4)
        A, B = c.usphere_shift(PH, TH, p0, t0, pc, t0)
        def exp(p, t):
            return vec(h, p + pc - p0, t)
    else:
        al = h.angle('alpha', 0, 2)
        A, B = c.usphere_spin(PH, TH, pc, h.pi / 2, al)
        def exp(p, t):
            return about(vec(h, pc, h.pi / 2), al, vec(h, p, t), h)
    h.eq(PH, s[0], 'input kept')
    h.eq(TH, s[1], 'input kept')
    h.check(tuple(A.shape) == tuple(shape) and tuple(B.shape) == tuple(shape), 'shape')
    for (p, t), a, b in zip(L, A.flatten(), B.flatten()):
        h.eq(vec(h, a, b), exp(p, t), 'rotated direction')


for _s in (None, (2,), (1, 2), (2, 1)):
    add(P, 'phi-shift-%s' % (_s if _s is None else 'x'.join(map(str, _s))), phi_shift, dict(shape=_s), bounds='shift in [-2 pi, 2 pi], %s' % (_s,), budget=60)
for _w in ('rotate', 'shift', 'shift-phi', 'spin'):
    for _s, _k in (((3,), 1), ((2, 3), 4), ((3, 2), 3)):
        add(P, '%s-array-%s' % (_w, 'x'.join(map(str, _s))), arrays, dict(what=_w, shape=_s, which=_k),
            bounds='array of shape %s with one arbitrary direction' % (_s,), budget=60, tmo=0.4, prove_tmo=5)


def shift(h, p0, t0, p1, t1):
    """usphere_shift: turn the longitude, then move along the meridian of the end point."""
    c = h.mod('magpie.coords')
    phi, theta = h.angle('phi', 0, 2), h.angle('theta', 0, 1)
    p0 = h.angle('p0', 0, 2) if p0 is None else h.pi * h.q(p0)
    p1 = h.angle('p1', 0, 2) if p1 is None else h.pi * h.q(p1)
    t0, t1 = h.pi * h.q(t0), h.pi * h.q(t1)
    A, B = c.usphere_shift(phi, theta, p0, t0, p1, t1)
    h.ge(A, 0, 'range of phi')
    h.le(A, 2 * h.pi, 'range of phi')
    h.eq(vec(h, A, B), mer(h, p1, t1 - t0, vec(h, phi + p1 - p0, theta)), 'shifted direction')


for _i, _a in enumerate([(None, '1/2', None, '1/2'), ('1/12', '1/3', '23/12', '1/3'), ('23/12', '1/3', '1/12', '1/2'), ('1/6', '1/2', '11/6', '1/3'),
                         ('0', '0', '2', '1/4'), ('2', '2/3', '0', '2/3'), ('1/3', '1/2', '4/3', '5/6'), ('5/3', '1/4', '1/4', '0')]):
    add(P, 'shift-%d' % _i, shift, dict(zip(('p0', 't0', 'p1', 't1'), _a)), bounds='longitude %s to %s, colatitude %s to %s (times pi), any point' % (_a[0], _a[2], _a[1], _a[3]),
        budget=60, tmo=0.4, prove_tmo=5)


def spin_about(h, pc, tc, pt=None):
    """Spin by any angle about a fixed axis."""
    c = h.mod('magpie.coords')
    a = h.angle('alpha', 0, 2)
    phi, theta = [h.pi * h.q(x) for x in pt] if pt else (h.angle('phi', 0, 2), h.pi / 4)
    pc = h.angle('pc', 0, 2) if pc is None else h.pi * h.q(pc)
    tc = h.pi * h.q(tc)
    A, B = c.usphere_spin(phi, theta, pc, tc, a)
    h.ge(A, 0, 'range of phi')
    h.le(A, 2 * h.pi, 'range of phi')
    h.eq(vec(h, A, B), about(vec(h, pc, tc), a, vec(h, phi, theta), h), 'spun direction')


for _i, (_pc, _tc, _pt) in enumerate([(None, '0', None), (None, '0', ('5/3', '5/6')), ('1/3', '1/2', ('1/4', '1/3')), ('7/4', '1/4', ('1/3', '3/4')), ('0', '2/3', ('5/3', '1/6')),
                                      ('3/2', '5/6', ('3/2', '1/3')), ('2', '1/3', ('1/2', '1/2'))]):
    add(P, 'spin-about-%d' % _i, spin_about, dict(pc=_pc, tc=_tc, pt=_pt), bounds='axis at (%s, %s) pi, any angle, point %s' % (_pc, _tc, _pt or '(any, pi/4)'), budget=60, tmo=0.4, prove_tmo=5)
