"""Random values drawn from a tabulated distribution."""
from symx.reg import add
from .common import uniform

P = 'P18'


def table(h, n, zero=None):
    x0, dx = h.real('x0', -10000, 10000), h.real('dx', h.q(1, 1000), 10000)
    pdf = [h.real('p%d' % k, h.q(1, 1000), 1000) if k != zero else h.q(0) for k in range(n)]
    return x0, dx, h.arr([x0 + dx * k for k in range(n)]), h.arr(pdf)


def cdf(h, n, mode, zero=None):
    r = h.mod('magpie.randoms')
    x0, dx, xm, pdf = table(h, n, zero)
    s = h.snapshot(xm), h.snapshot(pdf)
    out = r.pdf2cdf(xm, pdf) if mode == 'default' else r.pdf2cdf(xm, pdf, return_normpdf=mode == 'norm')
    h.check(len(out) == (2 if mode == 'plain' else 3), 'number of outputs')
    h.eq(xm, s[0], 'input kept')
    h.eq(pdf, s[1], 'input kept')
    x, c = out[0], out[1]
    h.check(len(x) == n + 1 and len(c) == n + 1, 'number of points')
    tot = sum(pdf[k] for k in range(n))
    run = 0
    for k in range(n + 1):
        h.eq(x[k], x0 + dx * (h.q(2 * k - 1, 2)), 'edges of the bins')
        h.eq(c[k] * tot, run, 'cdf')
        if k < n:
            run = run + pdf[k]
    if mode != 'plain':
        for k in range(n):
            h.eq(out[2][k] * tot * dx, pdf[k], 'normalised pdf')


def F_lin(h, x, c, v):
    """Piecewise linear CDF at v."""
    k, n = 0, len(x)
    while k < n - 2 and not v < x[k + 1]:
        k += 1
    return c[k] + (c[k + 1] - c[k]) * (v - x[k]) / (x[k + 1] - x[k])


def draw_cdf(h, n, size):
    r = h.mod('magpie.randoms')
    x = h.increasing('x', n, -1000, 1000, mingap=h.q(1, 8))
    c = [h.q(0)]
    for k in range(1, n - 1):
        g = h.real('c%d' % k, h.q(1, 16), 1)
        c.append(c[-1] + g)
    if n > 2:
        h.assume(c[-1] < h.q(15, 16))
    c.append(h.q(1))
    X, C = h.arr(x), h.arr(c)
    s = h.snapshot(X), h.snapshot(C)
    v = r.randoms_cdf(X, C, size, kind='linear')
    h.eq(X, s[0], 'input kept')
    h.eq(C, s[1], 'input kept')
    h.check(v.shape == (size,), 'number of values')
    h.ge(v, x[0], 'lower end')
    h.le(v, x[-1], 'upper end')
    uniform(h, [F_lin(h, x, c, v[k]) for k in range(size)], 'the cdf of the values is uniform')


def lagrange(x, y, t):
    r = 0
    for i in range(len(x)):
        w = y[i]
        for j in range(len(x)):
            if j != i:
                w = w * (t - x[j]) / (x[i] - x[j])
        r = r + w
    return r


def cubic(h, pdf):
    """Four points: the default cubic interpolation is the polynomial through them."""
    r = h.mod('magpie.randoms')
    if pdf:
        x0, dx, xm, p = table(h, 3)
        v = r.randoms_pdf(xm, p, 1)
        x = [x0 + dx * h.q(2 * k - 1, 2) for k in range(4)]
        t = p[0] + p[1] + p[2]
        c = [h.q(0), p[0] / t, (p[0] + p[1]) / t, h.q(1)]
    else:
        x = [h.real('x0', -50, 50)]
        for k in range(3):
            x.append(x[-1] + h.real('g%d' % k, h.q(1, 8), 8))
        a = h.real('c1', h.q(1, 16), h.q(7, 16))
        c = [h.q(0), a, a + h.real('c2', h.q(1, 16), h.q(7, 16)), h.q(1)]
        v = r.randoms_cdf(h.arr(x), h.arr(c), 1)
    h.check(v.shape == (1,), 'number of values')
    u = h.draws()[0]
    if h.same(v[0], lagrange(c, x, 1 - u)):
        u = 1 - u
    h.eq(v[0], lagrange(c, x, u), 'inverse cdf at a uniform draw')


def draw_pdf(h, n, size):
    r = h.mod('magpie.randoms')
    x0, dx, xm, p = table(h, n)
    s = h.snapshot(xm), h.snapshot(p)
    v = r.randoms_pdf(xm, p, size, kind='linear')
    h.eq(xm, s[0], 'input kept')
    h.eq(p, s[1], 'input kept')
    h.check(v.shape == (size,), 'number of values')
    t = sum(p[k] for k in range(n))
    x = [x0 + dx * h.q(2 * k - 1, 2) for k in range(n + 1)]
    c = [h.q(0)]
    for k in range(n):
        c.append(c[-1] + p[k] / t)
    h.ge(v, x[0], 'lower end')
    h.le(v, x[-1], 'upper end')
    uniform(h, [F_lin(h, x, c, v[k]) for k in range(size)], 'the cdf of the values is uniform')


def bad(h, end):
    r = h.mod('magpie.randoms')
    e = h.real('e', h.q(1, 100), h.q(99, 100))
    c = h.arr([e if end == 0 else 0, h.q(995, 1000), 1] if end == 0 else [0, h.q(1, 200), e])
    h.raises(lambda: r.randoms_cdf(h.arr([0, 1, 2]), c, 2, kind='linear'), (AssertionError,), 'the ends of the cdf are checked')


for n in (2, 3, 5):
    for md in ('default', 'norm', 'plain'):
        add(P, 'cdf-%d-%s' % (n, md), cdf, dict(n=n, mode=md), bounds='%d bins, every origin, width and positive pdf' % n)
add(P, 'cdf-zero-first', cdf, dict(n=4, mode='default', zero=0), bounds='4 bins, the first one empty')
add(P, 'cdf-zero-last', cdf, dict(n=4, mode='norm', zero=3), bounds='4 bins, the last one empty')
for n, size in [(2, 2), (3, 2), (4, 1), (5, 1)]:
    add(P, 'draw-cdf-%d-%d' % (n, size), draw_cdf, dict(n=n, size=size), bounds='%d points, %d values, every cdf and draw' % (n, size))
for n, size in [(2, 2), (3, 1), (4, 1)]:
    add(P, 'draw-pdf-%d-%d' % (n, size), draw_pdf, dict(n=n, size=size), bounds='%d bins, %d values, every pdf and draw' % (n, size))
add(P, 'cubic-cdf', cubic, dict(pdf=False), bounds='4 points, every cdf and draw')
add(P, 'cubic-pdf', cubic, dict(pdf=True), bounds='3 bins, every pdf and draw')
for e in (0, 1):
    add(P, 'bad-%d' % e, bad, dict(end=e), bounds='every wrong end value')
