"""Exact remapping between 2D and 3D grids: separable overlap weights."""
from symx.reg import add
from .common import overlap

P = 'P02'
# fixed axes: (origin, box, originout, boxout) as rationals
FIX = {'in': ((0, 1), (2, 1), (1, 3), (4, 3)), 'out': ((0, 1), (2, 1), (-1, 1), (3, 2)), 'over': ((-1, 2), (3, 2), (-1, 1), (5, 2))}


def remapn(h, n1, n2, axes, scalar=False):
    """axes: per axis 's' (symbolic) or a key of FIX."""
    m = h.mod('magpie.remap')
    dim = len(n1)
    A, L, B, M = [], [], [], []
    for k, ax in enumerate(axes):
        if ax == 's':
            a, l = h.real('origin%d' % k, -1000, 1000), h.real('box%d' % k, 1, 2)
            b, mm = a + h.real('shift%d' % k, -2, 2), h.real('boxout%d' % k, 1, 2)
        elif ax == 'n':
            a, l = h.q(0), h.q(2)
            b, mm = h.real('shift%d' % k, -1, 1), h.q(2)
        else:
            a, l, b, mm = [h.q(*v) for v in FIX[ax]]
        A.append(a), L.append(l), B.append(b), M.append(mm)
    f = h.reals('f', tuple(n1), -10 ** 6, 10 ** 6)
    fn = m.grid2grid2D if dim == 2 else m.grid2grid3D
    if scalar:
        out = fn(f, L[0], n2[0], origin=A[0], originout=B[0], boxsizeout=M[0])
        A, L, B, M = A[:1] * dim, L[:1] * dim, B[:1] * dim, M[:1] * dim
    else:
        out = fn(f, L, list(n2), origin=A, originout=B, boxsizeout=M)
    W = []
    for k in range(dim):
        d1, d2 = L[k] / n1[k], M[k] / n2[k]
        W.append([[overlap(A[k] + i * d1, A[k] + (i + 1) * d1, B[k] + j * d2, B[k] + (j + 1) * d2) / d2 for i in range(n1[k])] for j in range(n2[k])])

    def cell(j):
        s = 0
        for i in h_index(n1):
            w = W[0][j[0]][i[0]]
            for k in range(1, dim):
                w = w * W[k][j[k]][i[k]]
            s = s + w * f[i]
        return s
    for j in h_index(n2):
        h.eq(out[j], cell(j), 'separable overlap mean')
    h.check(out.shape == tuple(n2), 'shape')


def h_index(n):
    out = [()]
    for k in n:
        out = [t + (i,) for t in out for i in range(k)]
    return out


def cfg(name, n1, n2, axes, scalar=False, **kw):
    add(P, name, remapn, dict(n1=n1, n2=n2, axes=axes, scalar=scalar),
        bounds='%s -> %s cells; symbolic axes: origins in [-1000,1000], shifts in [-2,2], boxes in [1,2]; others fixed (%s)' % (n1, n2, ','.join(axes)), **kw)


cfg('2d-x', (2, 1), (1, 2), ('s', 'in'), budget=100)
cfg('2d-y', (1, 2), (2, 1), ('out', 's'), budget=100)
cfg('2d-x-over', (2, 3), (2, 2), ('n', 'over'), budget=100)
cfg('2d-both', (2, 2), (2, 3), ('n', 'n'), budget=100)
cfg('3d-x', (2, 1, 2), (1, 2, 2), ('n', 'in', 'out'), budget=100)
cfg('3d-y', (1, 2, 2), (2, 2, 1), ('in', 'n', 'over'), budget=100)
cfg('3d-z', (2, 2, 2), (1, 2, 2), ('out', 'over', 'n'), budget=100)
cfg('2d-sym-x', (2, 2), (2, 2), ('s', 'out'), budget=200)
cfg('2d-sym-y', (3, 2), (2, 2), ('over', 's'), budget=300, tier='thorough')
cfg('3d-sym-z', (2, 2, 2), (2, 1, 2), ('in', 'over', 's'), budget=200)
cfg('3d-sym-x', (2, 2, 1), (2, 2, 3), ('s', 'over', 'in'), budget=300, tier='thorough')


def scalars(h, dim):
    """Scalar arguments mean the same value on every axis."""
    m = h.mod('magpie.remap')
    a = h.real('origin', -1, 1)
    l = h.real('box', 1, 2)
    s = h.real('shift', -1, 1)
    n = (2,) * dim
    f = h.reals('f', n, -4, 4)
    fn = m.grid2grid2D if dim == 2 else m.grid2grid3D
    g = m.grid2grid1D
    b = a + s
    out = fn(f, l, 1, origin=a, originout=b, boxsizeout=l)
    w = [overlap(a + i * l / 2, a + (i + 1) * l / 2, b, b + l) / l for i in range(2)]
    e = 0
    for i in h_index(n):
        t = f[i]
        for k in i:
            t = t * w[k]
        e = e + t
    h.eq(out[(0,) * dim], e, 'scalar arguments')
    h.check(out.shape == (1,) * dim, 'shape')
    out = fn(f, l, 2, origin=a, originout=a)
    h.eq(out, f, 'same grid is the identity')


add(P, '2d-scalar', scalars, dict(dim=2), bounds='2x2 -> 1, scalar arguments', budget=100)
add(P, '3d-scalar', scalars, dict(dim=3), bounds='2x2x2 -> 1, scalar arguments', budget=100)


def slide(h, n1, n2, axis, box, boxout, org, lo, hi, kinds='llll'):
    """Fixed sizes, a free shift along one axis. kinds: box, cells, origin, output box as l(ist), s(calar) or n(one)."""
    m = h.mod('magpie.remap')
    dim = len(n1)
    L, M, A = [h.q(v) for v in box], [h.q(v) for v in boxout], [h.q(v) for v in org]
    s = h.real('shift', h.q(lo), h.q(hi))
    B = [A[k] + (s if k == axis else h.q(1, 4) * (k - 1)) for k in range(dim)]
    f = h.reals('f', tuple(n1), -10 ** 6, 10 ** 6)
    fn = m.grid2grid2D if dim == 2 else m.grid2grid3D

    def arg(v, c):
        return v[0] if c == 's' else list(v)
    kw = dict(originout=B)
    if kinds[2] != 'n':
        kw['origin'] = arg(A, kinds[2])
    if kinds[3] != 'n':
        kw['boxsizeout'] = arg(M, kinds[3])
    out = fn(f, arg(L, kinds[0]), arg(n2, kinds[1]), **kw)
    h.check(out.shape == tuple(n2), 'shape')
    W = []
    for k in range(dim):
        d1, d2 = L[k] / n1[k], M[k] / n2[k]
        W.append([[(i, overlap(A[k] + i * d1, A[k] + (i + 1) * d1, B[k] + j * d2, B[k] + (j + 1) * d2) / d2) for i in range(n1[k])] for j in range(n2[k])])
    for j in h_index(n2):
        e = 0
        for i in h_index(n1):
            w = 1
            for k in range(dim):
                w = w * W[k][j[k]][i[k]][1]
            e = e + w * f[i]
        h.eq(out[j], e, 'separable overlap mean')


SL = {'2d-a': dict(n1=(6, 4), n2=(4, 5), axis=0, box=(3, 2), boxout=('5/2', 3), org=('-1/3', 2), lo='-1', hi='1'),
      '2d-b': dict(n1=(3, 7), n2=(5, 3), axis=1, box=(3, 2), boxout=('5/2', 3), org=('-1/3', 2), lo='-5/4', hi='1/2'),
      '2d-box': dict(n1=(3, 4), n2=(2, 3), axis=0, box=(3, 3), boxout=('5/2', 2), org=(1, 1), lo='-1', hi='1', kinds='slsl'),
      '2d-cells': dict(n1=(2, 3), n2=(3, 3), axis=1, box=(3, 2), boxout=('5/2', '5/2'), org=(0, 0), lo='-1', hi='1', kinds='lsns'),
      '2d-noout': dict(n1=(2, 3), n2=(3, 2), axis=1, box=(3, 2), boxout=(3, 2), org=(0, 1), lo='-1', hi='1', kinds='llln'),
      '3d-a': dict(n1=(4, 3, 2), n2=(2, 3, 3), axis=0, box=(3, 2, 1), boxout=('5/2', 3, 2), org=('-1/3', 2, 1), lo='-1', hi='1'),
      '3d-b': dict(n1=(2, 4, 3), n2=(3, 2, 2), axis=1, box=(3, 2, 1), boxout=('5/2', 3, 2), org=('-1/3', 2, 1), lo='-1', hi='1/2'),
      '3d-c': dict(n1=(3, 2, 4), n2=(2, 2, 3), axis=2, box=(3, 2, 1), boxout=('5/2', 3, 2), org=('-1/3', 2, 1), lo='-1', hi='1/2'),
      '3d-box': dict(n1=(2, 3, 2), n2=(2, 1, 3), axis=2, box=(2, 2, 2), boxout=(3, 2, 1), org=(1, 1, 1), lo='-1/2', hi='1/2', kinds='slsl'),
      '3d-cells': dict(n1=(2, 1, 3), n2=(2, 2, 2), axis=1, box=(2, 3, 1), boxout=(2, 2, 2), org=(0, 0, 0), lo='-1/2', hi='1/2', kinds='lsns'),
      '3d-noout': dict(n1=(2, 2, 2), n2=(1, 2, 3), axis=0, box=(3, 2, 1), boxout=(3, 2, 1), org=(0, 1, 2), lo='-1/2', hi='1/2', kinds='llln')}
for k, c in SL.items():
    add(P, 'slide-' + k, slide, c, bounds='%(n1)s -> %(n2)s cells, boxes %(box)s and %(boxout)s, free shift in [%(lo)s, %(hi)s] along axis %(axis)d' % c, budget=100)
