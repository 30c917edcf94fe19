"""Stand-ins for the third-party modules magpie imports (besides numpy).

healpy: exact formulas of the HEALPix RING scheme for pixel centres, areas and
counts; the angle->pixel map is an uninterpreted function of the direction
(see HPix below); ud_grade is the exact child average.  matplotlib and scipy
are opaque: touching them ends the path as 'not encoded'."""
import math
import types
from fractions import Fraction

import numpy as np

from . import arr, core
from .core import EngineError, PI, S, Sym, SBool


class Opaque:
    """Any attribute exists; calling one ends the path."""

    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Opaque(self._n + '.' + n)

    def __call__(self, *a, **k):
        raise EngineError('no model of ' + self._n)


# ------------------------------------------------------------------ healpix

UNSEEN = S(Fraction('-1.6375e+30'))


def _nside(n):
    if isinstance(n, Sym):
        n = core.concretize(n)
    return int(n)


def nside2npix(n):
    if isinstance(n, Sym):
        return 12 * n * n
    return 12 * int(n) * int(n)


def npix2nside(n):
    k = math.isqrt(int(n) // 12)
    if 12 * k * k != n:
        raise ValueError('Wrong pixel number (it is not 12*nside**2)')
    return k


def isnsideok(nside, nest=False):
    if isinstance(nside, Sym):
        nside = core.concretize(nside)
    ok = nside == int(nside) and 0 < nside <= 2 ** 29
    if nest:
        ok = ok and (int(nside) & (int(nside) - 1)) == 0
    return bool(ok)


def isnpixok(npix):
    k = math.isqrt(int(npix) // 12)
    return 12 * k * k == npix


def nside2pixarea(nside, degrees=False):
    a = PI / (3 * S(_nside(nside)) ** 2)
    return a * (180 / PI) ** 2 if degrees else a


def nside2resol(nside, arcmin=False):
    r = core.sqrt_(nside2pixarea(nside))
    return r * (180 * 60 / PI) if arcmin else r


def pix_zphi(nside, p):
    """(z, phi) of the centre of RING pixel p (int)."""
    npix = 12 * nside * nside
    ncap = 2 * nside * (nside - 1)
    if p < ncap:
        i = (1 + math.isqrt(1 + 2 * p)) // 2
        j = p + 1 - 2 * i * (i - 1)
        return S(1 - Fraction(i * i, 3 * nside * nside)), PI * S(Fraction(2 * j - 1, 4 * i))
    if p < npix - ncap:
        ip = p - ncap
        i = ip // (4 * nside) + nside
        j = ip % (4 * nside) + 1
        s = Fraction(1) if (i + nside) & 1 else Fraction(1, 2)
        return S(Fraction(4, 3) - Fraction(2 * i, 3 * nside)), PI * S(Fraction(2 * j, 1) - 2 * s) / (4 * nside)
    ip = npix - p
    i = (1 + math.isqrt(2 * ip - 1)) // 2
    j = 4 * i + 1 - (ip - 2 * i * (i - 1))
    return S(-1 + Fraction(i * i, 3 * nside * nside)), PI * S(Fraction(2 * j - 1, 4 * i))


def _pixels(ipix):
    if isinstance(ipix, (list, tuple, range)):
        ipix = np.array([int(core.concretize(arr.num(p))) if isinstance(p, Sym) else int(p) for p in ipix])
    if isinstance(ipix, np.ndarray) and ipix.ndim:
        return [int(core.concretize(arr.num(p))) if isinstance(p, Sym) else int(p) for p in arr.elems(arr.toobj(ipix))], ipix.shape
    if isinstance(ipix, np.ndarray):
        ipix = arr.elems(arr.toobj(ipix))[0]
    if isinstance(ipix, Sym):
        ipix = core.concretize(ipix)
    return [int(ipix)], None


def pix2ang(nside, ipix, nest=False, lonlat=False):
    if nest:
        raise EngineError('healpy nest ordering')
    nside = _nside(nside)
    ps, sh = _pixels(ipix)
    th, ph = [], []
    for p in ps:
        if p < 0 or p >= 12 * nside * nside:
            raise ValueError('pixel number out of range')
        z, f = pix_zphi(nside, p)
        th.append(core.acos_(z))
        ph.append(f)
    if lonlat:
        th, ph = [f * 180 / PI for f in ph], [90 - t * 180 / PI for t in th]
    if sh is None:
        return th[0], ph[0]
    return arr.mk(th, sh), arr.mk(ph, sh)


def pix2vec(nside, ipix, nest=False):
    t, p = pix2ang(nside, ipix, nest)
    sh = arr.shim
    return sh.sin(t) * sh.cos(p), sh.sin(t) * sh.sin(p), sh.cos(t)


def ang2vec(theta, phi, lonlat=False):
    sh = arr.shim
    return arr.array([sh.sin(theta) * sh.cos(phi), sh.sin(theta) * sh.sin(phi), sh.cos(theta)])


# The pixel a direction falls in is an uninterpreted function pix(nside, dir):
# every distinct direction gets an integer variable 0 <= p < npix; directions
# proved equal share it.

class Dirs:
    def __init__(self, ctx):
        self.ctx = ctx
        self.l = []          # (nside, (x,y,z), var)
        self.vals = {}       # map name -> [(pix, val)]


def dir_pix(nside, vec):
    ctx = core.cur()
    D = ctx.dirs
    if D is None:
        D = ctx.dirs = Dirs(ctx)
    cands = [(v, p) for n, v, p in D.l if n == nside]
    for v, p in cands:
        if all((a - b).n == {} if isinstance(a - b, Sym) else False for a, b in zip(v, vec)):
            return p
    # equal at a model of the path, or in one component -> ask the solver
    if cands:
        env = ctx.path_env()
        sure = env is not None
        if not sure:
            env = ctx.some_env()
        try:
            t = [core.eval_sym(c, env) for c in vec]
            for v, p in cands:
                d = [core.lift(a - b) for a, b in zip(v, vec)]
                if not all(isinstance(x, Sym) for x in d):
                    continue
                if not all(abs(core.eval_sym(c, env) - x) < 1e-7 for c, x in zip(v, t)) and (sure or not any(x.n == {} for x in d)):
                    continue
                if all(x.n == {} or ctx.prove(core.rel('eq', x), 5.0) == 'unsat' for x in d):
                    return p
        except (KeyError, ValueError, ZeroDivisionError, OverflowError):
            pass
    k = len(D.l)
    if ctx.distinct_pix:
        p = S(12 * nside * nside - 1 - (k * 37) % (12 * nside * nside))
        D.l.append((nside, tuple(vec), p))
        return p
    a = core.new_atom('var', 'pix#%d_%d' % (nside, k), 'pix%d_%d' % (nside, k), isint=True, lo=0, hi=12 * nside * nside - 1)
    p = Sym({((a.id, 1),): 1})
    if a.id not in ctx.sh.varset:
        ctx.sh.varset.add(a.id)
    D.l.append((nside, tuple(vec), p))
    return p


def ang2pix(nside, theta, phi, nest=False, lonlat=False):
    if nest:
        raise EngineError('healpy nest ordering')
    nside = _nside(nside)
    if not isinstance(theta, np.ndarray) and not isinstance(phi, np.ndarray) and not isinstance(theta, (list, tuple)):
        return _ang2pix1(nside, arr.num(theta), arr.num(phi), lonlat)
    a, b = np.broadcast_arrays(arr.toobj(arr.asarr(theta)), arr.toobj(arr.asarr(phi)))
    out = [_ang2pix1(nside, arr.num(t), arr.num(p), lonlat) for t, p in zip(a.reshape(-1), b.reshape(-1))]
    return arr.mk(out, a.shape, 'i')


def _ang2pix1(nside, t, p, lonlat):
    if isinstance(t, float) or isinstance(p, float):
        raise ValueError('invalid value in ang2pix')
    if lonlat:
        t, p = PI / 2 - p * PI / 180, t * PI / 180
    # healpy raises outside [0, pi]
    if bool(t < 0) or bool(t > PI):
        raise ValueError('THETA is out of range [0,pi]')
    st, ct = core.sin_(t), core.cos_(t)
    sp, cp = core.sin_(p), core.cos_(p)
    return dir_pix(nside, (st * cp, st * sp, ct))


def vec2pix(nside, x, y, z, nest=False):
    if nest:
        raise EngineError('healpy nest ordering')
    nside = _nside(nside)
    if isinstance(x, np.ndarray):
        X, Y, Z = [arr.elems(arr.toobj(v)) for v in (x, y, z)]
        return arr.mk([_v2p(nside, a, b, c) for a, b, c in zip(X, Y, Z)], x.shape, 'i')
    return _v2p(nside, arr.num(x), arr.num(y), arr.num(z))


def _v2p(nside, x, y, z):
    r = core.sqrt_(x * x + y * y + z * z)
    return dir_pix(nside, (x / r, y / r, z / r))


class HMap:
    """A HEALPix map with an uninterpreted value in every pixel."""

    def __init__(self, name, nside, lo=-10000, hi=10000):
        self.name = name
        self.lo, self.hi = lo, hi
        self.nside = nside
        self.size = 12 * nside * nside
        self.shape = (self.size,)
        self.ndim = 1
        self.dtype = np.dtype(float)

    def __len__(self):
        return self.size

    def copy(self):
        return self

    def _val(self, p):
        ctx = core.cur()
        D = ctx.dirs
        if D is None:
            D = ctx.dirs = Dirs(ctx)
        l = D.vals.setdefault(self.name, [])
        p = arr.num(p)
        for q, v in l:
            d = p - q
            if isinstance(d, Sym) and d.n == {}:
                return v
        for q, v in l:
            if ctx.known(p == q) is True:
                return v
        k = len(l)
        a = core.new_atom('var', 'map_%s#%d' % (self.name, k), '%s[%d]' % (self.name, k), lo=Fraction(self.lo), hi=Fraction(self.hi))
        ctx.sh.varset.add(a.id)
        v = Sym({((a.id, 1),): 1})
        l.append((p, v))
        return v

    def __getitem__(self, i):
        if isinstance(i, (Sym, int, np.integer)):
            return self._val(i)
        if isinstance(i, (list, tuple)):
            i = arr.array(i)
        if isinstance(i, np.ndarray):
            if isinstance(i, arr.SArr) and i.kind not in 'io' or i.dtype.kind in 'fb':
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            return arr.mk([self._val(p) for p in arr.elems(arr.toobj(i))], i.shape, 'f')
        raise EngineError('slicing of an opaque healpix map')


class HExpr(HMap):
    """Pixel-wise arithmetic of opaque maps."""

    def __init__(self, fn, *maps):
        HMap.__init__(self, '?', [m for m in maps if isinstance(m, HMap)][0].nside)
        self.fn = fn
        self.maps = maps

    def _val(self, p):
        return self.fn(*[m._val(p) if isinstance(m, HMap) else m for m in self.maps])


def _pixelwise(name, fn):
    def op(self, o):
        if isinstance(o, HMap):
            if o.nside != self.nside:
                raise ValueError('operands could not be broadcast together with shapes (%d,) (%d,)' % (self.size, o.size))
        elif not isinstance(o, (Sym, int, float, Fraction)):
            return NotImplemented
        else:
            o = arr.num(o)
        return HExpr(fn, self, o)
    setattr(HMap, name, op)


for _n, _f in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b), ('truediv', lambda a, b: a / b)):
    _pixelwise('__%s__' % _n, _f)
    _pixelwise('__r%s__' % _n, lambda a, b, f=_f: f(b, a))
HMap.__neg__ = lambda self: HExpr(lambda a: -a, self)


# ---- ring/nest tables for ud_grade

from .nest import children as _children, nest2ring


def ud_grade(map_in, nside_out, pess=False, order_in='RING', order_out=None, power=None, dtype=None):
    if power is not None or order_in != 'RING' or order_out not in (None, 'RING'):
        raise EngineError('ud_grade options')
    v = arr.elems(arr.toobj(map_in))
    n_in = npix2nside(len(v))
    n_out = _nside(nside_out)
    for n in (n_in, n_out):
        if n & (n - 1):
            raise ValueError('nside must be a power of two')
    if n_out == n_in:
        return arr.mk(list(v), (len(v),))
    if n_out > n_in:
        ch = _children(n_in, n_out)
        out = [None] * (12 * n_out * n_out)
        for p, l in enumerate(ch):
            for c in l:
                out[c] = v[p]
        return arr.mk(out, (len(out),))
    ch = _children(n_out, n_in)
    out = []
    for l in ch:
        good = []
        bad = 0
        for c in l:
            x = v[c]
            if isinstance(x, float) or (x.is_const() and x.const() == UNSEEN.const()):
                bad += 1
            else:
                good.append(x)
        if not good or (pess and bad):
            out.append(UNSEEN)
        else:
            t = good[0]
            for g in good[1:]:
                t = t + g
            out.append(t / len(good))
    return arr.mk(out, (len(out),))


hp = types.ModuleType('healpy')
for _f in (nside2npix, npix2nside, isnsideok, isnpixok, nside2pixarea, nside2resol, pix2ang, pix2vec, ang2vec,
           ang2pix, vec2pix, ud_grade):
    setattr(hp, _f.__name__, _f)
hp.UNSEEN = UNSEEN
hp.pixelfunc = hp


def _hp_missing(n):
    if n.startswith('__'):
        raise AttributeError(n)
    return Opaque('healpy.' + n)


hp.__getattr__ = _hp_missing


# ------------------------------------------------------------------ others

def _interp1d_factory():
    class interp1d:
        """Linear kind: exact; other kinds: exact polynomial through <= 4 points, else opaque."""

        def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
            self.x, self.y = arr.array(x), arr.array(y)
            self.kind, self.be, self.fill = kind, bounds_error, fill_value
            self.n = self.x.size
            if kind == 'cubic' and self.n < 4:
                raise ValueError('The number of derivatives at boundaries does not match')
            if kind not in ('linear', 'cubic') or (kind == 'cubic' and self.n != 4):
                raise EngineError('interp1d kind=%s with %d points' % (kind, self.n))

        def _one(self, t):
            x, y, n = arr.elems(self.x), arr.elems(self.y), self.n
            t = arr.num(t)
            be = self.be if self.be is not None else self.fill is None
            if bool(t < x[0]) or bool(t > x[n - 1]):
                if be:
                    raise ValueError('A value in x_new is outside the interpolation range.')
                if self.fill == 'extrapolate':
                    raise EngineError('extrapolation')
                fv = self.fill
                if isinstance(fv, tuple):
                    return arr.num(fv[0] if bool(t < x[0]) else fv[1])
                return core.NAN if fv is None else arr.num(fv)
            if self.kind == 'linear':
                for i in range(n - 1):
                    if i == n - 2 or bool(t < x[i + 1]):
                        return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i])
            r = S(0)
            for i in range(n):
                w = y[i]
                for j in range(n):
                    if j != i:
                        w = w * (t - x[j]) / (x[i] - x[j])
                r = r + w
            return r

        def __call__(self, t):
            t = arr.asarr(t)
            return arr.mk([self._one(e) for e in arr.elems(arr.toobj(t))], t.shape)
    return interp1d


def make_stubs():
    sc = types.ModuleType('scipy')
    it = types.ModuleType('scipy.interpolate')
    it.interp1d = _interp1d_factory()
    it.__getattr__ = lambda n: Opaque('scipy.interpolate.' + n)
    sc.interpolate = it
    sc.__getattr__ = lambda n: Opaque('scipy.' + n)
    mpl = Opaque('matplotlib')
    return {'healpy': hp, 'scipy': sc, 'scipy.interpolate': it, 'matplotlib': mpl}
