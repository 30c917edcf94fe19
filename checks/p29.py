"""Orthographic view of a HEALPix map."""
from symx.reg import add
from .ring import mids
from .p21 import num
from .p07 import mer

P = 'P29'
NS = 256


def view(h, v, p):
    """Direction seen at the unit vector p of the view (x, y in the image, z towards the viewer)."""
    a = v['c0'] - h.pi * 3 / 2
    c, s = h.np.cos(a), h.np.sin(a)
    return mer(h, v['c0'], v['c1'], [c * p[0] - s * p[1], s * p[0] + c * p[1], p[2]])


def setup(h, s):
    g = h.mod('magpie.densegrid')
    v = {k: num(h, k, s[k]) for k in ('xl', 'yl', 'c0', 'c1', 'r')}
    nx, ny, rx, ry = s['n']
    H = g.Heal2Ortho()
    H.setup_map(NS)
    kw = dict(center=[v['c0'], v['c1']], y_length=v['yl'], y_grid=ny, rebin_x=rx, rebin_y=ry, radius=v['r'])
    for k in s.get('drop', ()):
        kw.pop(k, None)
    if s.get('y') == 'x':
        v['yl'] = v['xl']
    H.setup_box(v['xl'], nx, **kw)
    return H, v


def heal(h, s, weights=False):
    nx, ny, rx, ry = s['n']
    H, v = setup(h, s)
    f = h.hmap('f', NS)
    w = h.hmap('w', NS, h.q(1, 8), 4) if weights else None
    out = H.remap(f, w=w) if weights else H.remap(f)
    h.check(tuple(out.shape) == (ny, nx), 'shape')
    r = v['r']
    X, Y = mids(-v['xl'] / 2, v['xl'] / 2, nx * rx, h), mids(-v['yl'] / 2, v['yl'] / 2, ny * ry, h)
    CX, CY = mids(-v['xl'] / 2, v['xl'] / 2, nx, h), mids(-v['yl'] / 2, v['yl'] / 2, ny, h)
    for i in range(ny):
        for j in range(nx):
            if not CX[j] * CX[j] + CY[i] * CY[i] < r * r:
                h.check(h.isnan(out[i, j]), 'off the sphere')
                continue
            n, d = 0, 0
            for a in range(i * ry, (i + 1) * ry):
                for b in range(j * rx, (j + 1) * rx):
                    q = r * r - X[b] * X[b] - Y[a] * Y[a]
                    if q > 0:
                        p = h.dirpix(NS, *view(h, v, [X[b] / r, Y[a] / r, h.np.sqrt(q) / r]))
                        n, d = n + f[p] * (w[p] if weights else 1), d + (w[p] if weights else 1)
            if h.same(d, 0):
                continue        # no sample on the sphere
            h.eq(out[i, j] * d, n, 'mean of the samples on the sphere')


base = dict(xl=2, yl=2, c0=('pi', '1/3'), c1=('pi', '1/3'), r=1)


def spec(n, **kw):
    d = dict(base, n=n)
    d.update(kw)
    return d


S = {
    # x cells, y cells, rebin_x, rebin_y
    'lon': spec((2, 2, 1, 1), c0=('pi', 0, 2)),
    'lat': spec((2, 2, 1, 1), c1=('pi', 0, '11/12')),
    'lon-3x2': spec((3, 2, 1, 1), c0=('pi', 0, 2), c1=('pi', '1/2')),
    'lat-2x3': spec((2, 3, 1, 1), yl='3/2', c0=('pi', '7/4'), c1=('pi', 0, '11/12')),
    'radius': spec((2, 2, 1, 1), xl=2, yl=1, r=('1/4', 3), c0=('pi', '4/3')),
    'length': spec((2, 1, 1, 1), xl=('1/4', 9), yl=1, r=2, c0=('pi', '4/3')),
    'height': spec((1, 2, 1, 1), xl=1, yl=('1/4', 9), r=2, c0=('pi', '1/4'), c1=('pi', '2/3')),
    'rebin-x': spec((1, 2, 3, 1), c0=('pi', 0, 2)),
    'rebin-y': spec((2, 1, 1, 3), c0=('pi', '2/3'), c1=('pi', '1/12', '2/3')),
    'rebin-2x3-3x2': spec((2, 3, 3, 2), r=('9/8', '5/4'), c0=('pi', '4/3'), c1=0),
    'rebin-3x2-2x3': spec((3, 2, 2, 3), c0=('pi', '7/4'), c1=('pi', '1/2'), r=2, xl=4, yl=3),
    'rebin-1x2-3x2': spec((1, 2, 3, 2), c0=('pi', 0, 2), c1=0, yl=1),
    'default': spec((2, 2, 2, 2), c0=0, c1=0, drop=('center', 'rebin_x', 'rebin_y', 'y_length', 'y_grid', 'radius'), y='x'),
}


def note(s):
    return '%s cells (x, y, rebin); ranges %s' % (s['n'], {a: c for a, c in s.items() if isinstance(c, tuple) and a not in ('n', 'drop') and (len(c) == 3 or c[0] != 'pi')})


for k, s in S.items():
    add(P, k, heal, dict(s=s), bounds='nside %d, any map; %s' % (NS, note(s)), max_paths=200, budget=150)
    if k in ('lon', 'radius', 'rebin-x', 'rebin-y', 'rebin-2x3-3x2', 'default'):
        add(P, 'w-' + k, heal, dict(s=s, weights=True), bounds='with weights, any maps; ' + note(s), max_paths=200, budget=150)


def transform(h, s, array=False):
    """transform takes the direction seen at an image point to that point, and hides the far side."""
    H, v = setup(h, s)
    np = h.np
    r = v['r']
    phi = num(h, 'phi', s['phi'])
    theta = num(h, 'theta', s['theta'])
    if array:
        PH, TH = h.arr([h.pi / 3, phi, h.pi]), h.arr([h.pi / 3, theta, h.pi / 4])
        k = h.snapshot(PH), h.snapshot(TH)
        x, y = H.transform(PH, TH)
        h.eq(PH, k[0], 'input kept')
        h.eq(TH, k[1], 'input kept')
        L = list(zip(PH, TH, x, y))
    else:
        x, y = H.transform(phi, theta)
        L = [(phi, theta, x, y)]
    for p, t, x, y in L:
        # the view is a rotation: its inverse takes the direction back
        d = [np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)]
        e = [view(h, v, u) for u in ([1, 0, 0], [0, 1, 0], [0, 0, 1])]
        q = [sum(a * b for a, b in zip(d, u)) for u in e]
        h.assume((q[2] > h.q(1, 10 ** 6)) | (q[2] < h.q(-1, 10 ** 6)))     # off the limb
        if q[2] >= 0:
            h.eq(x, q[0] * r, 'x')
            h.eq(y, q[1] * r, 'y')
        else:
            h.check(h.isnan(x) and h.isnan(y), 'far side hidden')


T = {
    'point': spec((1, 1, 1, 1), phi=('pi', 0, 2), theta=('pi', '1/3'), c0=('pi', '1/3'), c1=('pi', '1/3')),
    'point-lat': spec((1, 1, 1, 1), phi=('pi', '11/6'), theta=('pi', 0, 1), c0=('pi', '1/3'), c1=('pi', '1/3')),
    'point-pole': spec((1, 1, 1, 1), phi=('pi', 0, 2), theta=('pi', 0, 1), c0=0, c1=0),
    'lon': spec((1, 1, 1, 1), phi=('pi', '3/4'), theta=('pi', '1/3'), c0=('pi', 0, 2), c1=('pi', '2/3')),
    'lat': spec((1, 1, 1, 1), phi=('pi', '3/4'), theta=('pi', '1/3'), c0=('pi', '5/4'), c1=('pi', 0, '11/12')),
    'radius': spec((1, 1, 1, 1), phi=('pi', '3/4'), theta=('pi', 0, 1), r=('1/4', 9), c0=('pi', '4/3'), c1=('pi', '1/2')),
}
for k, s in T.items():
    add(P, 'transform-' + k, transform, dict(s=s), bounds='any direction; ' + note(s), max_paths=200, budget=100)
    add(P, 'transform-array-' + k, transform, dict(s=s, array=True), bounds='array of directions; ' + note(s), max_paths=200, budget=100)
