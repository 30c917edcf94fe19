"""Perspective view of points in space."""
from symx.reg import add
from .p21 import num

P = 'P30'


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def frame(h, v):
    """Camera axes: forward, right (increasing longitude), up (towards the north pole)."""
    np = h.np
    a, b, c = v['look']
    r = np.sqrt(a * a + b * b + c * c)
    if h.same(a, 0) and h.same(b, 0):
        ca, sa, rho = 1, 0, 0           # straight up or down: longitude 0
    else:
        rho = np.sqrt(a * a + b * b)
        ca, sa = a / rho, b / rho
    st, ct = rho / r, c / r
    f, e, u = [st * ca, st * sa, ct], [-sa, ca, 0], [-ct * ca, -ct * sa, st]
    if not isinstance(v['spin'], int):
        c, s = np.cos(v['spin']), np.sin(v['spin'])
        # turning the picture by the spin
        e, u = [c * p - s * q for p, q in zip(e, u)], [s * p + c * q for p, q in zip(e, u)]
    return f, e, u


def setup(h, s):
    g = h.mod('magpie.densegrid')
    v = {k: num(h, k, s[k]) for k in ('display', 'spin')}
    v['cam'] = [num(h, 'cam%d' % i, s['cam'][i]) for i in range(3)]
    v['look'] = [num(h, 'look%d' % i, s['look'][i]) for i in range(3)]
    V = g.PointOfView()
    kw = {} if s['spin'] == 0 else dict(spin=v['spin'])
    point = [a + b for a, b in zip(v['cam'], v['look'])]
    V.setup(list(v['cam']), point, v['display'], **kw)
    return V, v


def project(h, v, d):
    f, e, u = frame(h, v)
    z = dot(d, f)
    return z, v['display'] * dot(d, e), v['display'] * dot(d, u)


def transform(h, s, array=False):
    V, v = setup(h, s)
    d = [num(h, 'd%d' % i, s['d'][i]) for i in range(3)]
    D = [d]
    if array:
        D = [[h.q(1), h.q(2), h.q(2)], d, [h.q(3), h.q(-1), h.q('1/2')]]
        X = [h.arr([q[i] + v['cam'][i] for q in D]) for i in range(3)]
        k = [h.snapshot(a) for a in X]
        bx, by, dist = V.transform(*X)
        for a, b in zip(X, k):
            h.eq(a, b, 'input kept')
    else:
        bx, by, dist = V.transform(*[a + b for a, b in zip(d, v['cam'])])
        bx, by, dist = [bx], [by], [dist]
    for i, q in enumerate(D):
        z, x, y = project(h, v, q)
        if h.same(z, 0):
            continue
        h.eq(dist[i] * dist[i], dot(q, q), 'distance')
        h.ge(dist[i], 0, 'distance')
        h.eq(bx[i] * z, x, 'horizontal position')
        h.eq(by[i] * z, y, 'vertical position')


def back(h, s, array=False):
    """reverse takes image position and distance back to the point in front of the camera."""
    V, v = setup(h, s)
    np = h.np
    B = [num(h, k, s[k]) for k in ('bx', 'by', 'dist')]
    L = [B]
    if array:
        L = [[h.q(1), h.q(2), h.q(3)], B, [h.q(-1), h.q('1/2'), h.q(4)]]
        A = [h.arr([q[i] for q in L]) for i in range(3)]
        k = [h.snapshot(a) for a in A]
        X = V.reverse(*A)
        for a, b in zip(A, k):
            h.eq(a, b, 'input kept')
    else:
        X = [[a] for a in V.reverse(*B)]
    f, e, u = frame(h, v)
    for i, (bx, by, dist) in enumerate(L):
        d = [X[j][i] - v['cam'][j] for j in range(3)]
        D = v['display']
        r = np.sqrt(D * D + bx * bx + by * by)
        h.eq([dot(d, w) * r for w in (f, e, u)], [dist * c for c in (D, bx, by)], 'point in space')


def both(h, s):
    """A point in front of the camera survives transform and reverse."""
    V, v = setup(h, s)
    d = [num(h, 'd%d' % i, s['d'][i]) for i in range(3)]
    h.assume(project(h, v, d)[0] > h.q(1, 100))
    X = V.reverse(*V.transform(*[a + b for a, b in zip(d, v['cam'])]))
    h.eq(list(X), [a + b for a, b in zip(d, v['cam'])], 'round trip')


base = dict(cam=(0, 0, 0), look=(3, 4, 0), display=1, spin=0, d=(3, 1, 2), bx=1, by='1/2', dist=3)


def spec(**kw):
    d = dict(base)
    d.update(kw)
    return d


R = ('-9', 9)
S = {
    'camera': spec(cam=(R, R, R), look=(2, 1, 2)),
    'display': spec(display=('1/8', 9), look=(2, -1, -2)),
    'point-x': spec(d=(R, 1, 2), look=(3, 0, 4)),
    'point-z': spec(d=(3, 0, R), look=(-3, 0, 4)),
    'level': spec(d=(R, R, R), look=(3, 4, 0)),
    'level-x': spec(d=(R, R, R), look=(1, 0, 0)),
    'up': spec(d=(R, R, 1), look=(0, 0, 2)),
    'down': spec(d=(R, R, 1), look=(0, 0, -1)),
    'spin': spec(spin=('pi', 0, 2), look=(3, 4, 0), d=(5, 1, 2)),
    'spin-tilted': spec(spin=('pi', '1/3'), look=(2, 1, 2), d=(3, 1, 2)),
    'spin-half': spec(spin=('pi', 1), look=(1, 0, 0), d=(R, 1, 2)),
    'look-x': spec(look=(R, 4, 0)),
    'look-z': spec(look=(1, 0, ('-9', 9))),
}
for k, s in S.items():
    note = 'camera %s, direction %s, display %s, spin %s' % (s['cam'], s['look'], s['display'], s['spin'])
    add(P, 'transform-' + k, transform, dict(s=s), bounds=note + ', point %s' % (s['d'],), budget=60)
    if k in ('camera', 'point-x', 'level', 'display'):
        add(P, 'transform-array-' + k, transform, dict(s=s, array=True), bounds=note + ', arrays with the point %s' % (s['d'],), budget=60)
    if k in ('camera', 'display', 'level-x', 'spin-tilted', 'spin-half', 'look-x'):
        add(P, 'both-' + k, both, dict(s=s), bounds=note + ', point %s in front of the camera' % (s['d'],), budget=60)
Q = {
    'camera': spec(cam=(R, R, R), look=(2, 1, 2)),
    'image': spec(bx=R, by=R, dist=('1/8', 9), look=(3, 4, 0)),
    'image-x': spec(bx=R, look=(3, 0, 4)),
    'image-y': spec(bx=0, by=R, look=(3, 0, 4)),
    'dist': spec(dist=('1/8', 9), look=(0, -4, -3)),
    'display': spec(display=('1/8', 9), bx=0, look=(3, 0, 4)),
    'display-level': spec(display=('1/8', 9), look=(3, 4, 0)),
    'spin': spec(spin=('pi', 0, 2), look=(3, 4, 0)),
    'spin-tilted': spec(spin=('pi', '7/4'), look=(2, 1, 2)),
    'up': spec(look=(0, 0, 1), bx=R),
}
for k, s in Q.items():
    note = 'camera %s, direction %s, display %s, spin %s' % (s['cam'], s['look'], s['display'], s['spin'])
    add(P, 'reverse-' + k, back, dict(s=s), bounds=note + ', image position (%s, %s), distance %s' % (s['bx'], s['by'], s['dist']), budget=60)
    if k in ('camera', 'image', 'spin'):
        add(P, 'reverse-array-' + k, back, dict(s=s, array=True), bounds=note + ', arrays', budget=60)
