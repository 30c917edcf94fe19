"""Outlines of squares, arcs, disc segments and boxes."""
from symx.reg import add

P = 'P13'


def lin(h, a, b, k, n):
    return a + (b - a) * h.q(k, n - 1)


def perimeter(h, x, y, xmin, xmax, ymin, ymax, steps):
    n = steps // 4
    h.check(len(x) == steps and len(y) == steps, 'number of points')
    for k in range(n):
        for s, (ex, ey) in enumerate([(lin(h, xmin, xmax, k, n), ymin), (xmax, lin(h, ymin, ymax, k, n)),
                                      (lin(h, xmax, xmin, k, n), ymax), (xmin, lin(h, ymax, ymin, k, n))]):
            h.eq(x[s * n + k], ex, 'x on side %d' % s)
            h.eq(y[s * n + k], ey, 'y on side %d' % s)


def square(h, steps, default=False):
    m = h.mod('magpie.pixel')
    a, b, c, d = [h.real(v, -1000, 1000) for v in 'abcd']
    kw = {} if default else dict(steps=steps)
    x, y = m.get_square(a, b, c, d, **kw)
    perimeter(h, x, y, a, b, c, d, steps)


def square_bad(h, steps):
    m = h.mod('magpie.pixel')
    a = h.real('a', -1000, 1000)
    h.raises(lambda: m.get_square(a, a + 1, 0, 1, steps=steps), (AssertionError,), 'steps not a multiple of 4')


def arc(h, steps, mode):
    m = h.mod('magpie.pixel')
    np = h.np
    r = h.real('r', 0, 9)
    p0, p1 = h.angle('p0', -1, 2), h.angle('p1', -1, 2)
    c = [h.real('cx', -1000, 1000), h.real('cy', -1000, 1000)]
    if mode == 'full':
        x, y = m.get_arc(r, center=c, steps=steps)
        p0, p1 = 0, 2 * h.pi
    elif mode == 'default':
        x, y = m.get_arc(r)
        p0, p1, c, steps = 0, 2 * h.pi, [0, 0], 10
    else:
        x, y = m.get_arc(r, phimin=p0, phimax=p1, center=c, steps=steps)
    h.check(len(x) == steps and len(y) == steps, 'number of points')
    for k in range(steps):
        ph = lin(h, p0, p1, k, steps)
        h.eq(x[k], c[0] + r * np.cos(ph), 'x of the arc')
        h.eq(y[k], c[1] + r * np.sin(ph), 'y of the arc')


def disc(h, steps, mode):
    m = h.mod('magpie.pixel')
    np = h.np
    r0, r1 = h.real('r0', 0, 9), h.real('r1', 0, 9)
    p0, p1 = h.angle('p0', -1, 2), h.angle('p1', -1, 2)
    c = [h.real('cx', -1000, 1000), h.real('cy', -1000, 1000)]
    if mode == 'default':
        x, y = m.get_disc()
        r0, r1, p0, p1, c, steps = 0, 1, 0, 2 * h.pi, [0, 0], 40
    elif mode == 'sector':
        x, y = m.get_disc(rmax=r1, phimax=p1, steps=steps)
        r0, p0, c = 0, 0, [0, 0]
    else:
        x, y = m.get_disc(rmin=r0, rmax=r1, phimin=p0, phimax=p1, center=c, steps=steps)
    n = steps // 4
    h.check(len(x) == steps and len(y) == steps, 'number of points')
    for k in range(n):
        for s, (r, ph) in enumerate([(lin(h, r0, r1, k, n), p0), (r1, lin(h, p0, p1, k, n)), (lin(h, r1, r0, k, n), p1), (r0, lin(h, p1, p0, k, n))]):
            h.eq(x[s * n + k], c[0] + r * np.cos(ph), 'x on side %d' % s)
            h.eq(y[s * n + k], c[1] + r * np.sin(ph), 'y on side %d' % s)


CORNERS = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
EDGES = [(a, b, c) for a in (0, 1, None) for b in (0, 1, None) for c in (0, 1, None) if (a, b, c).count(None) == 1]


def edge_points(h, e, lo, hi, n):
    """The n points of one edge of the box, along the free axis."""
    return [[lin(h, lo[t], hi[t], k, n) if e[t] is None else (hi[t] if e[t] else lo[t]) for t in range(3)] for k in range(n)]


def box_setup(h):
    lo = [h.real('lo%d' % t, -1000, 1000) for t in range(3)]
    hi = [lo[t] + h.real('w%d' % t, h.q(1, 2), 9) for t in range(3)]
    return lo, hi


def match(h, x, y, z, exp, label):
    """The lines are the expected edges, each once, in any order: decided from the free axis and the two corners."""
    h.check(len(x) == len(exp), label + ': number of edges')
    left = list(exp)
    for k in range(len(x)):
        hit = None
        for t, pts in enumerate(left):
            ok = True
            for s, q in enumerate(pts):
                for v, w in zip((x, y, z), q):
                    d = v[k][s] - w
                    if ok and not (d < h.q(1, 10 ** 6) and d > h.q(-1, 10 ** 6)):
                        ok = False
            if ok:
                hit = t
                break
        h.check(hit is not None, label + ': a line is an edge of the box')
        if hit is not None:
            pts = left.pop(hit)
            for s, q in enumerate(pts):
                h.eq([x[k][s], y[k][s], z[k][s]], q, label + ': points of an edge')


def nearest(h, center, visible, lo=(0, 0, 0), hi=(1, 1, 1), steps=24):
    """Only the edges between corners that can be seen from the center are kept."""
    m = h.mod('magpie.pixel')
    c = []
    lo, hi = [h.q(v) for v in lo], [h.q(v) for v in hi]
    for t, (a, b) in enumerate(center):
        v = h.real('c%d' % t, h.q(*a), h.q(*b)) if a != b else h.q(*a)
        c.append(lo[t] + (hi[t] - lo[t]) * v)
    x, y, z = m.get_box(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], steps=steps, return_nearest=True, center=c)
    exp = [e for e in EDGES if all(tuple(w if v is None else v for v in e) in visible for w in (0, 1))]
    match(h, x, y, z, [edge_points(h, e, lo, hi, steps // 12) for e in exp], 'visible part')


def box(h, steps, default=False):
    m = h.mod('magpie.pixel')
    lo, hi = box_setup(h)
    kw = {} if default else dict(steps=steps)
    x, y, z = m.get_box(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], **kw)
    for v in (x, y, z):
        h.check(v.shape == (12, steps // 12), 'shape')
    match(h, x, y, z, [edge_points(h, e, lo, hi, steps // 12) for e in EDGES], 'box')


for s in (8, 12, 16):
    add(P, 'square-%d' % s, square, dict(steps=s), bounds='every rectangle, %d points' % s)
add(P, 'square-default', square, dict(steps=40, default=True), bounds='every rectangle, default number of points')
for s in (3, 6, 0, -4):
    add(P, 'square-bad%d' % s, square_bad, dict(steps=s), bounds='steps %d' % s)
for s in (2, 3, 5):
    for md in ('full', 'part'):
        add(P, 'arc-%s-%d' % (md, s), arc, dict(steps=s, mode=md), bounds='every radius, center and angle range, %d points' % s)
add(P, 'arc-default', arc, dict(steps=10, mode='default'), bounds='every radius')
for s in (8, 12):
    for md in ('sector', 'part'):
        add(P, 'disc-%s-%d' % (md, s), disc, dict(steps=s, mode=md), bounds='every radial and angular range and center, %d points' % s)
add(P, 'disc-default', disc, dict(steps=40, mode='default'), bounds='defaults')
for s in (24, 36):
    add(P, 'box-%d' % s, box, dict(steps=s), bounds='every box, %d points' % s)
add(P, 'box-default', box, dict(steps=120, default=True), bounds='every box, default number of points')

NEAR = {'face': ([((3, 10), (7, 10)), ((2, 10), (8, 10)), ((-3,), (-1,))], [c for c in CORNERS if c[2] == 0]),
        'top': ([((3, 10), (7, 10)), ((1, 5), (4, 5)), ((2,), (9, 2))], [c for c in CORNERS if c[2] == 1]),
        'corner': ([((-3,), (-2,)), ((-2,), (-1,)), ((-21, 10), (-2,))], [c for c in CORNERS if c != (1, 1, 1)]),
        'edge': ([((-3,), (-2,)), ((31, 10), (4,)), ((3, 10), (7, 10))], [c for c in CORNERS if c[:2] != (1, 0)]),
        'inside': ([((3, 10), (7, 10)), ((2, 10), (8, 10)), ((1, 5), (4, 5))], [])}
for k, (c, v) in NEAR.items():
    add(P, 'nearest-' + k, nearest, dict(center=c, visible=v), bounds='unit cube, center range %s' % (c,))
    if k != 'inside':
        add(P, 'nearest-long-' + k, nearest, dict(center=c, visible=v, lo=(-3, 2, -1), hi=(1, 4, 7), steps=36), bounds='box 4 x 2 x 8, center range %s of the sides' % (c,))
SIDE = {'left': ([((-3,), (-1,)), ((3, 10), (7, 10)), ((2, 10), (8, 10))], [c for c in CORNERS if c[0] == 0]),
        'back': ([((2, 10), (8, 10)), ((2,), (3,)), ((3, 10), (7, 10))], [c for c in CORNERS if c[1] == 1])}
for k, (c, v) in SIDE.items():
    add(P, 'nearest-wide-' + k, nearest, dict(center=c, visible=v, lo=(-5, -1, 3), hi=(4, 1, 4)), bounds='box 9 x 2 x 1, center range %s of the sides' % (c,))
