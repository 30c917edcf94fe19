"""Stochastic integer and binary weights."""
from symx.reg import add

P = 'P20'


def rule(h, w, u, out, label):
    """out is w rounded up with the probability of its fractional part, as decided by the uniform draw u, otherwise rounded down."""
    np = h.np
    f = np.floor(w)
    h.check((out == f) | (out == np.ceil(w)), label + ': one of the two integers')
    h.assume(w != f)
    h.assume(u != w - f)
    h.assume(u != f + 1 - w)
    up = (out == f + 1)
    down = (out == f)
    a = (up & (u > f + 1 - w)) | (down & (u < f + 1 - w))
    b = (up & (u < w - f)) | (down & (u > w - f))
    if not h.implied(b):
        h.check(a, label + ': rounded up with the probability of the fraction')


def integer(h, n, scalar, lo=-8, hi=8):
    r = h.mod('magpie.randoms')
    w = h.reals('w', n, lo, hi)
    if scalar:
        o = [r.stochastic_integer_weights(w[0])]
    else:
        c = h.snapshot(w)
        o = r.stochastic_integer_weights(w)
        h.eq(w, c, 'input kept')
        h.check(len(o) == n, 'number of weights')
    u = h.draws()
    for k in range(n):
        rule(h, w[k], u[k], o[k], 'integer weight')


def whole(h, n, scalar, binary):
    """Whole weights stay what they are."""
    r = h.mod('magpie.randoms')
    w = [h.int('k%d' % k, 0 if binary else -3, 4) for k in range(n)]
    f = r.stochastic_binary_weights if binary else r.stochastic_integer_weights
    W = h.arr([x * h.q(1) for x in w])
    o = [f(W[0])] if scalar else f(W)
    for k in range(n):
        t = w[k]
        if binary and t > 1:
            t = 1
        h.eq(o[k], t, 'whole weights are kept')


def binary(h, n, scalar):
    r = h.mod('magpie.randoms')
    w = h.reals('w', n, 0, 4)
    if scalar:
        o = [r.stochastic_binary_weights(w[0])]
    else:
        c = h.snapshot(w)
        o = r.stochastic_binary_weights(w)
        h.eq(w, c, 'input kept')
        h.check(len(o) == n, 'number of weights')
    u = h.draws()
    for k in range(n):
        if w[k] >= 1:
            h.eq(o[k], 1, 'a weight from one up is 1')
        else:
            rule(h, w[k], u[k], o[k], 'binary weight')


for f, nm in ((integer, 'integer'), (binary, 'binary')):
    add(P, nm + '-scalar', f, dict(n=1, scalar=True), bounds='one weight, every draw')
    for n in (1, 2):
        add(P, nm + '-%d' % n, f, dict(n=n, scalar=False), bounds='%d weights, every draw' % n)
for b in (False, True):
    add(P, 'whole-scalar-%d' % b, whole, dict(n=1, scalar=True, binary=b), bounds='one whole weight')
    add(P, 'whole-2-%d' % b, whole, dict(n=2, scalar=False, binary=b), bounds='two whole weights')
add(P, 'integer-4', integer, dict(n=4, scalar=False, lo=-1, hi=2), bounds='4 weights in [-1,2], every draw')
add(P, 'binary-4', binary, dict(n=4, scalar=False), bounds='4 weights, every draw')
for b in (False, True):
    add(P, 'whole-4-%d' % b, whole, dict(n=4, scalar=False, binary=b), bounds='four whole weights')
for t in (-1000, 999, 10 ** 6):
    add(P, 'integer-far%d' % t, integer, dict(n=1, scalar=False, lo=t, hi=t + 1), bounds='one weight in [%d,%d], every draw' % (t, t + 1))
