"""rebin_1d: means (and errors) of a binned signal in new bins."""
from symx.reg import add
from .common import overlap

P = 'P03'


def setup(h, n, m, lo, hi):
    e = h.increasing('e', n + 1, -100, 100)
    b = h.increasing('b', m + 1, -120, 120)
    return e, b


def fractions(e, b, j):
    n = len(e) - 1
    return [overlap(e[i], e[i + 1], b[j], b[j + 1]) / (e[i + 1] - e[i]) for i in range(n)]


def mean(h, n, m, weighted=False):
    o = h.mod('magpie.one_d')
    e, b = setup(h, n, m, -2, 3)
    f = h.reals('f', n, -10 ** 6, 10 ** 6)
    E, B = h.arr(e), h.arr(b)
    if weighted:
        w = h.reals('w', n, h.q(1, 1000), 1000)
        out = o.rebin_1d(E, f, B, w=w)
    else:
        w = [1] * n
        out = o.rebin_1d(E, f, B)
    h.check(len(out) == m, 'one value per new bin')
    for j in range(m):
        g = fractions(e, b, j)
        s = sum(g[i] * w[i] for i in range(n))
        if s > 0:
            h.eq(out[j] * s, sum(g[i] * w[i] * f[i] for i in range(n)), 'mean of the covered bins')
        elif b[j + 1] < e[0] or b[j] > e[n]:
            h.check(h.isnan(out[j]), 'NaN outside the data')


def sigma(h, n, m):
    o = h.mod('magpie.one_d')
    e, b = setup(h, n, m, -2, 3)
    f = h.reals('f', n, -10 ** 6, 10 ** 6)
    sg = h.reals('s', n, h.q(1, 1000), 1000)
    out, err = o.rebin_1d(h.arr(e), f, h.arr(b), sigma=sg)
    h.check(len(err) == m, 'one error per new bin')
    for j in range(m):
        g = fractions(e, b, j)
        s = sum(g)
        if s > 0:
            h.eq(err[j] * err[j] * s * s, sum(g[i] * sg[i] * sg[i] for i in range(n)), 'propagated variance')
            h.ge(err[j], 0, 'error sign')


def weights(h, n):
    o = h.mod('magpie.one_d')
    e, b = setup(h, n, 1, -2, 3)
    out = o.rebin_1d_single_bin_weights(h.arr(e), b[0], b[1])
    g = fractions(e, b, 0)
    s = sum(g)
    if s > 0:
        t = sum(out[i] for i in range(n))
        for i in range(n):
            h.eq(out[i] * s, g[i] * t, 'relative weights')


B = '%d old bins of any widths (edges increasing, gaps < 8), %d new bins, values in [-1e6,1e6]'
for n, m in [(1, 1), (2, 1), (3, 1), (2, 2)]:
    add(P, 'mean-%d-%d' % (n, m), mean, dict(n=n, m=m), bounds=B % (n, m), budget=120)
add(P, 'mean-4-1', mean, dict(n=4, m=1), bounds=B % (4, 1), budget=120)
add(P, 'weighted-3-1', mean, dict(n=3, m=1, weighted=True), bounds=B % (3, 1), budget=120)
add(P, 'mean-3-2', mean, dict(n=3, m=2), bounds=B % (3, 2), budget=200, tier='thorough')
add(P, 'mean-6-1', mean, dict(n=6, m=1), bounds=B % (6, 1), budget=200, tier='thorough')
add(P, 'weighted-3-2', mean, dict(n=3, m=2, weighted=True), bounds=B % (3, 2), budget=200, tier='thorough')
