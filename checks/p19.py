"""Random subsamples and shuffles."""
from symx.reg import add

P = 'P19'


def sample(h, n):
    """Distinct values in no particular order."""
    return h.arr([h.q((7 * k + 3) % 11) for k in range(n)])


def distinct(h, u):
    for i in range(len(u)):
        for j in range(i):
            h.assume(u[i] != u[j])


def order(u):
    """Indices by increasing draw (the path fixes the order)."""
    o = []
    for i in range(len(u)):
        k = 0
        while k < len(o) and u[o[k]] < u[i]:
            k += 1
        o.insert(k, i)
    return o


def inverse(o):
    r = [0] * len(o)
    for k, i in enumerate(o):
        r[i] = k
    return r


def indices(h, out, s, label):
    """Which entries of s are the outputs?"""
    r = []
    for k in range(len(out)):
        hit = [i for i in range(len(s)) if h.same(out[k], s[i])]
        h.check(len(hit) == 1, label + ': an entry of the sample')
        r.append(hit[0] if hit else -1)
    h.check(len(set(r)) == len(r), label + ': no repeats')
    return r


def rules(u):
    """Ways to turn independent uniform draws into a uniformly random order."""
    o = order(u)
    return [o, o[::-1], inverse(o), inverse(o[::-1])]


def shuffle(h, n):
    r = h.mod('magpie.randoms')
    s = sample(h, n)
    c = h.snapshot(s)
    out = r.shuffle(s)
    h.eq(s, c, 'input kept')
    h.check(len(out) == n, 'number of entries')
    u = h.draws()[:n]
    distinct(h, u)
    h.check(indices(h, out, c, 'shuffle') in rules(u), 'every order is equally likely')


def draw(h, n, size):
    r = h.mod('magpie.randoms')
    s = sample(h, n)
    c = h.snapshot(s)
    out = r.random_draw(s, size)
    h.eq(s, c, 'input kept')
    h.check(len(out) == size, 'number of entries')
    u = h.draws()[:n]
    distinct(h, u)
    h.check(indices(h, out, c, 'draw') in [o[:size] for o in rules(u)] + [o[n - size:] for o in rules(u)], 'every selection is equally likely')


def bad(h, n, size, prob):
    r = h.mod('magpie.randoms')
    s = sample(h, n)
    if prob:
        h.raises(lambda: r.random_prob_draw(s, h.arr([h.q(1, 2)] * n), size=size), (AssertionError,), 'size is checked')
    else:
        h.raises(lambda: r.random_draw(s, size), (AssertionError,), 'size is checked')


def bad_prob(h, n, at, neg):
    r = h.mod('magpie.randoms')
    s = sample(h, n)
    p = h.reals('p', n, h.q(1, 8), 1)
    p[at] = h.real('z', -1000, 0) if neg else 0
    h.raises(lambda: r.random_prob_draw(s, p, size=1), (AssertionError,), 'probabilities are checked')


def prob(h, n, scalar):
    r = h.mod('magpie.randoms')
    s = sample(h, n)
    c = h.snapshot(s)
    if scalar:
        p = h.real('p', 0, 1)
        ps = [p] * n
    else:
        p = h.reals('p', n, 0, 1)
        ps = [p[k] for k in range(n)]
    out = r.random_prob_draw(s, p)
    h.eq(s, c, 'input kept')
    idx = indices(h, out, c, 'draw')
    u = h.draws()
    for k in range(n):
        h.assume(u[k] != ps[k])
    low = [(u[k] < ps[k]) == True for k in range(n)]
    keep = [k for k in range(n) if low[k]]
    h.check(sorted(idx) == keep, 'an entry is kept when its draw is below its probability')
    v = u[n:]
    if len(v) == len(keep) and sorted(idx) == keep:
        distinct(h, v)
        h.check(idx in [[keep[i] for i in o] for o in rules(v)], 'every order is equally likely')


def sized(h, n, size):
    r = h.mod('magpie.randoms')
    s = sample(h, n)
    c = h.snapshot(s)
    p = h.reals('p', n, h.q(1, 16), 1)
    out = r.random_prob_draw(s, p, size=size)
    h.eq(s, c, 'input kept')
    h.check(len(out) == size, 'number of entries')
    idx = indices(h, out, c, 'draw')
    u = h.draws()
    for k in idx:
        for l in range(n):
            if l not in idx:
                h.le(u[k] * p[l], u[l] * p[k], 'the entries with the smallest draw over probability are kept')
    v = u[n:]
    if len(v) == size:
        distinct(h, v)
        w = order([u[k] / p[k] for k in idx]) if size <= 2 else None
        if w is not None:
            kept = [idx[i] for i in w]      # by increasing draw over probability
            alt = sorted(idx)
            h.check(idx in [[b[i] for i in o] for o in rules(v) for b in (kept, kept[::-1], alt)], 'every order is equally likely')


for n in (1, 2, 3, 4):
    add(P, 'shuffle-%d' % n, shuffle, dict(n=n), bounds='%d entries, every draw' % n, max_paths=400)
for n, size in [(2, 1), (3, 1), (3, 2), (4, 2), (4, 3)]:
    add(P, 'draw-%d-%d' % (n, size), draw, dict(n=n, size=size), bounds='%d of %d entries, every draw' % (size, n), max_paths=400)
for n in (1, 2, 3):
    add(P, 'prob-%d' % n, prob, dict(n=n, scalar=False), bounds='%d entries, every probability and draw' % n, max_paths=600)
add(P, 'prob-scalar-3', prob, dict(n=3, scalar=True), bounds='3 entries, one probability, every draw', max_paths=600)
for n, size in [(2, 1), (3, 1), (3, 2), (4, 3)]:
    add(P, 'sized-%d-%d' % (n, size), sized, dict(n=n, size=size), bounds='%d of %d entries, every probability and draw' % (size, n), max_paths=600)
for n, size in [(2, 2), (2, 3), (3, 3)]:
    for pr in (False, True):
        add(P, 'bad-%d-%d-%d' % (n, size, pr), bad, dict(n=n, size=size, prob=pr), bounds='%d of %d entries' % (size, n))
for at in range(3):
    for neg in (False, True):
        add(P, 'badprob-%d-%d' % (at, neg), bad_prob, dict(n=3, at=at, neg=neg), bounds='3 entries')
