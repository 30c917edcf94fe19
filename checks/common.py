"""Small exact oracles shared by the harnesses (dual mode)."""


def overlap(a1, a2, b1, b2):
    """Length of [a1, a2] n [b1, b2]."""
    lo = a1 if a1 > b1 else b1
    hi = a2 if a2 < b2 else b2
    return hi - lo if hi > lo else 0


def uniform(h, vals, label):
    """Each value is one of the uniform draws u (or 1 - u), each of them a different one: the values are independent and uniform in [0, 1]."""
    u = list(h.draws())
    for v in vals:
        k = None
        for i, d in enumerate(u):
            if d is not None and (h.same(v, d) or h.same(v, 1 - d)):
                k = i
                break
        h.check(k is not None, label)
        if k is not None:
            u[k] = None
