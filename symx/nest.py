"""HEALPix ring/nest tables (no dependencies)."""
_JRLL = (2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4)
_JPLL = (1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7)


def nest2ring(nside, p):
    face, q = divmod(p, nside * nside)
    x = y = 0
    b = 0
    while (1 << b) < nside or b == 0:
        x |= ((q >> (2 * b)) & 1) << b
        y |= ((q >> (2 * b + 1)) & 1) << b
        b += 1
    jr = _JRLL[face] * nside - x - y - 1
    nl4 = 4 * nside
    if jr < nside:
        nr, n0, ks = jr, 2 * jr * (jr - 1), 0
    elif jr > 3 * nside:
        nr = nl4 - jr
        n0, ks = 12 * nside * nside - 2 * (nr + 1) * nr, 0
    else:
        nr, n0, ks = nside, 2 * nside * (nside - 1) + (jr - nside) * nl4, (jr - nside) & 1
    jp = (_JPLL[face] * nr + x - y + 1 + ks) // 2
    if jp > nl4:
        jp -= nl4
    if jp < 1:
        jp += nl4
    return n0 + jp - 1


_CH = {}


def children(n_out, n_in):
    k = (n_out, n_in)
    if k not in _CH:
        f = (n_in // n_out) ** 2
        t = [None] * (12 * n_out * n_out)
        for p in range(12 * n_out * n_out):
            t[nest2ring(n_out, p)] = [nest2ring(n_in, p * f + c) for c in range(f)]
        _CH[k] = t
    return _CH[k]


