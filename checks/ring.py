"""Geometry oracles of the ring remaps (dual mode)."""


def mids(a, b, n, h):
    return [a + (b - a) * h.q(2 * k + 1, 2 * n) for k in range(n)]


def cell(v, lo, d, n):
    """Index of the cell of width d which holds v, or None."""
    if v < lo or v >= lo + n * d:
        return None
    k = 0
    while k < n - 1 and not v < lo + (k + 1) * d:
        k += 1
    return k


def clear(h, v, lo, d, n):
    """Stay off the cell borders (rounding decides there)."""
    for k in range(n + 1):
        h.assume((v - lo - k * d > h.q(1, 10 ** 7)) | (v - lo - k * d < h.q(-1, 10 ** 7)))


def draw_orders(u, na, nb, size):
    """Ways in which the two draws of each point of each cell (a, b) may follow each other in the sequence u."""
    def block(cell_of, point):
        return lambda _, a, b, k: point(u, 2 * size * cell_of(a, b), k)
    pts = [lambda u, o, k: (u[o + k], u[o + size + k]), lambda u, o, k: (u[o + size + k], u[o + k]),
           lambda u, o, k: (u[o + 2 * k], u[o + 2 * k + 1]), lambda u, o, k: (u[o + 2 * k + 1], u[o + 2 * k])]
    cells = [lambda a, b: a * nb + b] + ([lambda a, b: b * na + a] if na > 1 and nb > 1 else [])
    return [block(c, p) for c in cells for p in pts]


def choose(h, cands, out, empty, label):
    """Some assignment of the draws explains every cell.  cands: lazily built lists of (cell, numerator, denominator or None)."""
    def ok(c):
        for i, n, d in c:
            if d is None:
                if not (h.isnan(out[i]) if empty is None else h.same(out[i], empty)):
                    return False
            elif h.isnan(out[i]) or not h.same(out[i] * d, n):
                return False
        return True
    first = None
    for mk in cands:
        c = mk()
        if first is None:
            first = c
        if ok(c):
            break
    else:
        c = first
    for i, n, d in c:
        if d is None:
            if empty is None:
                h.check(h.isnan(out[i]), label + ': empty cell')
            else:
                h.eq(out[i], empty, label + ': empty cell')
        else:
            h.eq(out[i] * d, n, label)
