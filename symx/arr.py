"""Symbolic arrays: an object-dtype ndarray subclass plus a numpy look-alike.

Array elements are Sym, SBool, or Python nan/inf.  Boolean masks, symbolic
indices, sorting and searching force decisions (the path forks)."""
import functools
import math
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import (Sym, SBool, S, PI, lift, to_bool, b_and, b_or, b_not, TRUE, FALSE, EngineError, dtype_kind,
                   concretize, trunc_)


def num(x):
    """Element -> Sym or nan/inf."""
    if type(x) is Sym:
        return x
    r = lift(x)
    if r is NotImplemented:
        if isinstance(x, str):
            try:
                return S(Fraction(x))
            except ValueError:
                return float(x)
        raise EngineError('not a number: %r' % (type(x),))
    return r


def kind_of(x):
    if isinstance(x, SArr):
        return x.kind
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        return {'i': 'i', 'u': 'i', 'f': 'f', 'b': 'b'}.get(x.dtype.kind, 'o')
    if isinstance(x, (bool, SBool)):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, float):
        return 'f'
    if isinstance(x, Sym):
        return 'i' if (x.isint and not x.is_const()) else 'f'
    if isinstance(x, (list, tuple)):
        ks = [kind_of(e) for e in x]
        return join_kinds(ks)
    return 'o'


def join_kinds(ks):
    r = 'b'
    order = 'bifo'
    for k in ks:
        if order.index(k) > order.index(r):
            r = k
    return r


def scalar_weak(x):
    return isinstance(x, (Sym, int, float, SBool)) and not isinstance(x, np.generic)


class SArr(np.ndarray):
    __array_priority__ = 2000
    kind = 'f'

    def __array_finalize__(self, obj):
        if obj is not None:
            self.kind = getattr(obj, 'kind', 'f')

    # ---- indexing
    def __getitem__(self, idx):
        idx = fixidx(idx)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def __setitem__(self, idx, val):
        idx = fixidx(idx)
        if self.kind == 'o':
            np.ndarray.__setitem__(self, idx, val)
            return
        if isinstance(val, np.ndarray) and val.ndim:
            v = np.asarray(val)
            if v.dtype != object:
                v = v.astype(object)
            v = conv_elems(v, self.kind, kind_of(val))
        elif isinstance(val, (list, tuple)):
            v = np.asarray(conv_elems(np.asarray(array(val)).astype(object), self.kind, 'f'))
        else:
            if isinstance(val, np.ndarray):
                val = val.item()
            v = conv1(val, self.kind)
        np.ndarray.__setitem__(self, idx, v)

    # ---- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        kw.pop('casting', None)
        dt = kw.pop('dtype', None)
        if where is not True:
            raise EngineError('ufunc where=')
        if method == 'reduce':
            f = {'add': asum, 'multiply': aprod, 'maximum': amax, 'minimum': amin, 'logical_and': aall,
                 'logical_or': aany}.get(name)
            if f is None:
                raise EngineError('ufunc reduce ' + name)
            axis = kw.pop('axis', 0)
            kd = kw.pop('keepdims', False)
            r = f(inputs[0], axis=axis, keepdims=kd) if kd else f(inputs[0], axis=axis)
        elif method == '__call__':
            r = apply_ufunc(name, inputs)
        elif method == 'accumulate' and name == 'add':
            r = cumsum(inputs[0], axis=kw.pop('axis', 0))
        elif method == 'outer':
            a, b = [np.asarray(x) for x in inputs]
            r = apply_ufunc(name, (wrap(a.reshape(a.shape + (1,) * b.ndim)), wrap(b)))
        elif method == 'at':
            a, ix = inputs[0], inputs[1]
            ix = fixidx(ix)
            ar = np.arange(a.size).reshape(a.shape)[ix].ravel()
            b = inputs[2] if len(inputs) > 2 else None
            bb = np.broadcast_to(np.asarray(b, dtype=object), np.shape(ar)) if b is not None else None
            flat = np.ndarray.reshape(np.asarray(a), -1)
            for t, p in enumerate(ar):
                v = BIN[name](flat[p], bb[t])
                a[np.unravel_index(p, a.shape)] = v
            return None
        else:
            raise EngineError('ufunc method ' + method)
        if out is not None:
            o = out[0]
            if isinstance(o, SArr):
                if o.kind == 'i' and kind_of(r) == 'f':
                    raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'" % name)
                o[...] = r
                return o
            raise TypeError("Cannot cast ufunc '%s' output to a non-object array" % name)
        return r

    def __array_function__(self, func, types_, args, kwargs):
        f = NP_BY_REAL.get(func)
        if f is None:
            f = getattr(shim, func.__name__, None)
        if f is not None and f is not func:
            return f(*args, **kwargs)
        return rewrap(np.ndarray.__array_function__(self, func, types_, args, kwargs))

    # ---- methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return asum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return aprod(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return amean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, ddof=0):
        return astd(self, axis=axis, ddof=ddof)

    def var(self, axis=None, ddof=0):
        return avar(self, axis=axis, ddof=ddof)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumsum(self, axis=axis)

    def min(self, axis=None, out=None, keepdims=False):
        return amin(self, axis=axis)

    def max(self, axis=None, out=None, keepdims=False):
        return amax(self, axis=axis)

    def argmin(self, axis=None, out=None):
        return argmin(self, axis=axis)

    def argmax(self, axis=None, out=None):
        return argmax(self, axis=axis)

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis=axis)

    def sort(self, axis=-1, kind=None, order=None):
        r = sort(self, axis=axis)
        self[...] = r

    def all(self, axis=None, out=None, keepdims=False):
        return aall(self, axis=axis)

    def any(self, axis=None, out=None, keepdims=False):
        return aany(self, axis=axis)

    def dot(self, b, out=None):
        return dot(self, b)

    def __matmul__(self, b):
        return dot(self, b)

    def __rmatmul__(self, b):
        return dot(b, self)

    def nonzero(self):
        return np.nonzero(force_mask(self))

    def astype(self, t, order='K', casting='unsafe', subok=True, copy=True):
        k = dtype_kind(t)
        a = np.array(np.asarray(self), dtype=object)
        return wrap(conv_elems(a, k, self.kind), k)

    def clip(self, min=None, max=None, out=None):
        return clip(self, min, max)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def item(self, *a):
        if a:
            return np.ndarray.item(self, *a)
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return np.asarray(self).reshape(-1)[0]

    def fill(self, v):
        self[...] = v

    @property
    def real(self):
        return self

    def conj(self):
        return self

    def __bool__(self):
        if self.size == 1:
            return bool(self.item() if self.kind == 'b' else self.item() != 0)
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __int__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def __index__(self):
        if self.ndim == 0 and self.kind == 'i':
            return concretize(self.item())
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return bool(aany(self == v))

    def __repr__(self):
        return 'SArr(%s)' % (np.asarray(self).tolist(),)
    __str__ = __repr__

    def tolist(self):
        return np.asarray(self).tolist()

    def __reduce__(self):
        raise EngineError('pickling symbolic arrays')


def conv1(v, kind):
    if kind == 'f':
        if isinstance(v, np.ndarray) and v.ndim:
            raise ValueError('setting an array element with a sequence.')
        return num(v)
    if kind == 'i':
        v = num(v)
        if isinstance(v, float):
            raise ValueError('cannot convert float NaN or infinity to integer')
        v = trunc_(v)
        return int(v.const()) if isinstance(v, Sym) and v.is_const() else v
    if kind == 'b':
        if isinstance(v, SBool):
            return v
        v = num(v) if not isinstance(v, (bool, np.bool_)) else v
        return to_bool(v)
    return v


def conv_elems(a, kind, src):
    if kind == 'o':
        return a
    if kind == src and kind != 'f':
        return a
    out = np.empty(a.shape, dtype=object)
    fo, fi = out.reshape(-1), a.reshape(-1)
    for t in range(fi.size):
        fo[t] = conv1(fi[t], kind)
    return out


def wrap(a, kind=None):
    if isinstance(a, SArr):
        if kind is not None and kind != a.kind:
            a = a.view()
            a.kind = kind
        return a
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype != object:
        k = kind_of(a)
        b = np.empty(a.shape, dtype=object)
        fb, fa = b.reshape(-1), a.reshape(-1)
        for t in range(fa.size):
            fb[t] = conv1(fa[t].item(), k)
        a = b
        kind = kind or k
    r = a.view(SArr)
    r.kind = kind or guess_kind(a)
    return r


def guess_kind(a):
    k = 'b'
    for e in a.reshape(-1):
        ke = 'b' if isinstance(e, (SBool, bool)) else 'i' if (isinstance(e, int) or (isinstance(e, Sym) and e.isint and not e.is_const())) else \
            'f' if isinstance(e, (Sym, float)) else 'o'
        k = join_kinds([k, ke])
        if k == 'o':
            break
    return k if a.size else 'f'


def rewrap(r):
    if isinstance(r, tuple):
        return tuple(rewrap(x) for x in r)
    if isinstance(r, list):
        return [rewrap(x) for x in r]
    return r


def mk(elems, shape, kind='f'):
    a = np.empty(len(elems), dtype=object)
    for i, e in enumerate(elems):
        a[i] = e
    r = a.reshape(shape).view(SArr)
    r.kind = kind
    return r


def elems(x):
    return list(np.asarray(x).reshape(-1))


# ---- masks and indices

def force_mask(a):
    """Array of SBool/numbers -> concrete bool ndarray (forks)."""
    a0 = np.asarray(a)
    if a0.dtype != object:
        return a0.astype(bool)
    out = np.empty(a0.shape, dtype=bool)
    fo, fi = out.reshape(-1), a0.reshape(-1)
    for i in range(fi.size):
        e = fi[i]
        if isinstance(e, (SBool, bool, np.bool_)):
            fo[i] = bool(e)
        elif isinstance(e, Sym):
            fo[i] = bool(e != 0)
        else:
            fo[i] = bool(e)
    return out


def force_index(a):
    a0 = np.asarray(a)
    if a0.dtype != object:
        return a0
    out = np.empty(a0.shape, dtype=np.int64)
    fo, fi = out.reshape(-1), a0.reshape(-1)
    for i in range(fi.size):
        fo[i] = concretize(num(fi[i]))
    return out


def fixidx(idx):
    if type(idx) in (int, slice) or idx is None or idx is Ellipsis:
        return idx
    if isinstance(idx, tuple):
        return tuple(fix1(i) for i in idx)
    return fix1(idx)


def fix1(i):
    if isinstance(i, SArr):
        if i.kind == 'b':
            return force_mask(i)
        if i.kind == 'i' or (i.kind == 'o' and i.size == 0):
            return force_index(i)
        if i.size == 0:
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(i, np.ndarray):
        if i.dtype == object:
            if i.size and isinstance(i.reshape(-1)[0], (SBool, bool)):
                return force_mask(i)
            return force_index(i)
        return i
    if isinstance(i, Sym):
        if i.is_const() and type(i.const()) is int:
            return i.const()
        if i.isint:
            return concretize(i)
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
    if isinstance(i, SBool):
        return bool(i)
    if isinstance(i, slice):
        f = lambda t: concretize(t) if isinstance(t, Sym) else t
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, list):
        if any(isinstance(t, (Sym, SBool)) for t in i):
            if isinstance(i[0], SBool):
                return np.array([bool(t) for t in i])
            return np.array([concretize(num(t)) for t in i], dtype=np.int64)
    return i


# ---- elementwise operations

def _n(f):
    def g(*a):
        return f(*[num(x) for x in a])
    return g


def _isn(x):
    return isinstance(x, float) and x != x


def fmod_(a, b):
    q = a / b
    if not isinstance(q, Sym):
        return q
    return a - b * trunc_(q)


def hypot_(a, b):
    return core.sqrt_(core._sos2(a, b))


def _and(a, b):
    if isinstance(a, (Sym, int)) and not isinstance(a, bool) or isinstance(b, (Sym, int)) and not isinstance(b, bool):
        ca, cb = lift(a), lift(b)
        if isinstance(ca, Sym) and isinstance(cb, Sym):
            return S(concretize(ca) & concretize(cb))
        raise TypeError("ufunc 'bitwise_and' not supported for the input types")
    return b_and(to_bool(a), to_bool(b))


def _or(a, b):
    if isinstance(a, (Sym, int)) and not isinstance(a, bool) or isinstance(b, (Sym, int)) and not isinstance(b, bool):
        return S(concretize(lift(a)) | concretize(lift(b)))
    return b_or(to_bool(a), to_bool(b))


def _xor(a, b):
    return to_bool(a) ^ to_bool(b)


def _boolish(x):
    if isinstance(x, (SBool, bool, np.bool_)):
        return to_bool(bool(x)) if isinstance(x, np.bool_) else to_bool(x)
    if isinstance(x, float) and x != x:
        return TRUE
    return to_bool(num(x))


def isfinite_(x):
    if isinstance(x, (SBool, bool)):
        return TRUE
    x = num(x)
    if isinstance(x, Sym):
        return TRUE
    return FALSE


def isnan_(x):
    x = num(x)
    return TRUE if (not isinstance(x, Sym) and x != x) else FALSE


def isinf_(x):
    x = num(x)
    return TRUE if (not isinstance(x, Sym) and x == x) else FALSE


def _cmp(op):
    def f(a, b):
        if isinstance(a, SBool) and isinstance(b, SBool) and op in ('eq', 'ne'):
            r = a == b
            return r if op == 'eq' else b_not(r)
        a, b = num(a), num(b)
        if not isinstance(a, Sym):
            if not isinstance(b, Sym):
                r = {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op]
                return TRUE if r else FALSE
            sw = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[op]
            return _cmp(sw)(b, a)
        if op == 'ne':
            return b_not(to_bool(core.cmp_('eq', a, b)))
        r = core.cmp_(op, a, b)
        return r
    return f


def rint_(x):
    return core.rint_(x)


def _deg2rad(x):
    return x * PI / 180


def _rad2deg(x):
    return x * 180 / PI


def _mod(a, b):
    if not isinstance(a, Sym):
        return a
    return a % b


def _max(a, b):
    return core.max_(a, b)


def _min(a, b):
    return core.min_(a, b)


def _fmax(a, b):
    if _isn(a):
        return b
    if _isn(b):
        return a
    return core.max_(a, b)


def _fmin(a, b):
    if _isn(a):
        return b
    if _isn(b):
        return a
    return core.min_(a, b)


def _sub(a, b):
    return a - b


def _div(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        try:
            return a / b
        except ZeroDivisionError:
            return core.NAN
    return a / b


def _floordiv(a, b):
    q = _div(a, b)
    return core.floor_(q)


def _pow(a, b):
    return core.pow_(a, b)


BIN = {
    'add': _n(lambda a, b: a + b), 'subtract': _n(_sub), 'multiply': _n(lambda a, b: a * b),
    'true_divide': _n(_div), 'divide': _n(_div), 'floor_divide': _n(_floordiv), 'remainder': _n(_mod), 'mod': _n(_mod),
    'fmod': _n(fmod_), 'power': _n(_pow), 'float_power': _n(_pow), 'arctan2': _n(core.atan2_), 'hypot': _n(hypot_),
    'maximum': _n(_max), 'minimum': _n(_min), 'fmax': _n(_fmax), 'fmin': _n(_fmin),
    'less': _cmp('lt'), 'less_equal': _cmp('le'), 'greater': _cmp('gt'), 'greater_equal': _cmp('ge'),
    'equal': _cmp('eq'), 'not_equal': _cmp('ne'),
    'bitwise_and': _and, 'bitwise_or': _or, 'bitwise_xor': _xor,
    'logical_and': lambda a, b: b_and(_boolish(a), _boolish(b)),
    'logical_or': lambda a, b: b_or(_boolish(a), _boolish(b)),
    'logical_xor': lambda a, b: _boolish(a) ^ _boolish(b),
    'copysign': _n(lambda a, b: core.abs_(a) if bool(b >= 0) else -core.abs_(a)),
    'heaviside': _n(lambda a, b: S(0) if bool(a < 0) else (S(1) if bool(a > 0) else b)),
}


def _nanpass(f):
    def g(x):
        x = num(x)
        if not isinstance(x, Sym):
            return f(x) if False else core.NAN if x != x else f(x)
        return f(x)
    return g


UN = {
    'negative': _n(lambda a: -a), 'positive': _n(lambda a: a), 'absolute': _n(core.abs_), 'abs': _n(core.abs_),
    'fabs': _n(core.abs_), 'sqrt': _nanpass(core.sqrt_), 'square': _n(lambda a: core.pow_(a, S(2))),
    'cbrt': _n(lambda a: core.root_(a, 3) if bool(a >= 0) else -core.root_(-a, 3)),
    'cos': _nanpass(core.cos_), 'sin': _nanpass(core.sin_), 'tan': _nanpass(core.tan_),
    'arccos': _nanpass(core.acos_), 'arcsin': _nanpass(core.asin_), 'arctan': _nanpass(core.atan_),
    'floor': _n(core.floor_), 'ceil': _n(core.ceil_), 'trunc': _n(lambda a: trunc_(a) if isinstance(a, Sym) else a),
    'rint': _n(rint_), 'sign': _n(core.sign_), 'exp': _n(core.exp_), 'log': _n(core.log_), 'log10': _n(core.log10_),
    'isfinite': isfinite_, 'isnan': isnan_, 'isinf': isinf_, 'deg2rad': _n(_deg2rad), 'radians': _n(_deg2rad),
    'rad2deg': _n(_rad2deg), 'degrees': _n(_rad2deg), 'reciprocal': _n(lambda a: S(1) / a),
    'logical_not': lambda a: b_not(_boolish(a)), 'invert': lambda a: b_not(_boolish(a)),
    'conjugate': _n(lambda a: a), 'bitwise_not': lambda a: b_not(_boolish(a)),
}
BOOLOUT = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or', 'logical_xor',
           'logical_not', 'isfinite', 'isnan', 'isinf'}
FLOATOUT = {'true_divide', 'divide', 'sqrt', 'cos', 'sin', 'tan', 'arccos', 'arcsin', 'arctan', 'arctan2', 'floor', 'ceil', 'trunc',
            'rint', 'exp', 'log', 'log10', 'hypot', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'fabs', 'cbrt', 'float_power'}


def result_kind(name, inputs):
    if name in BOOLOUT:
        return 'b'
    ks = [kind_of(x) for x in inputs]
    if name in FLOATOUT:
        if name in ('floor', 'ceil', 'trunc', 'rint') and ks[0] == 'i':
            return 'i' if name != 'rint' else 'f'
        return 'f'
    k = join_kinds(ks)
    if k == 'b' and name in ('add', 'multiply', 'subtract'):
        return 'i' if name == 'subtract' else 'b'
    if k == 'b' and name not in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert', 'bitwise_not'):
        return 'i'
    return k


def apply_ufunc(name, inputs):
    if len(inputs) == 1:
        f = UN.get(name)
        if f is None:
            raise EngineError('ufunc ' + name)
        x = inputs[0]
        if not isinstance(x, np.ndarray) and not isinstance(x, (list, tuple)):
            return f(x)
        a = np.asarray(x if isinstance(x, np.ndarray) else array(x))
        k = result_kind(name, [x])
        out = np.empty(a.shape, dtype=object)
        fo, fi = out.reshape(-1), a.reshape(-1)
        for i in range(fi.size):
            e = fi[i]
            fo[i] = f(e.item() if isinstance(e, np.generic) else e)
        if a.ndim == 0:
            return out.item()
        return wrap(out, k)
    f = BIN.get(name)
    if f is None:
        raise EngineError('ufunc ' + name)
    x, y = inputs[0], inputs[1]
    k = result_kind(name, [x, y])
    xa = toobj(x)
    ya = toobj(y)
    bc = np.broadcast(xa, ya)
    xb, yb = np.broadcast_to(xa, bc.shape), np.broadcast_to(ya, bc.shape)
    out = np.empty(bc.shape, dtype=object)
    fo = out.reshape(-1)
    for i, (u, v) in enumerate(zip(xb.flat, yb.flat)):
        fo[i] = f(u, v)
    if out.ndim == 0:
        return out.item()
    if name in ('add', 'multiply') and k == 'b':
        # boolean arithmetic
        for i in range(fo.size):
            fo[i] = to_bool(fo[i])
    return wrap(out, k)


def toobj(x):
    if isinstance(x, np.ndarray):
        a = np.asarray(x)
        if a.dtype != object:
            b = np.empty(a.shape, dtype=object)
            fb, fa = b.reshape(-1), a.reshape(-1)
            for i in range(fa.size):
                fb[i] = fa[i].item()
            return b
        return a
    if isinstance(x, (list, tuple)):
        return toobj(array(x))
    b = np.empty((), dtype=object)
    b[()] = x.item() if isinstance(x, np.generic) else x
    return b


OPNAMES = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'truediv': 'true_divide', 'mod': 'remainder',
           'floordiv': 'floor_divide', 'pow': 'power', 'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal',
           'eq': 'equal', 'ne': 'not_equal'}


def binop(op, a, b):
    return apply_ufunc(OPNAMES[op], (a, b))


def ew(name):
    def f(*a, out=None, where=True, dtype=None, casting=None):
        if not any(is_symbolic(x) for x in a):
            pass
        if len(a) > 2:
            out = a[2]
            a = a[:2]
        if where is not True:
            raise EngineError('ufunc where=')
        r = apply_ufunc(name, a)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            out[...] = r
            return out
        return r
    f.__name__ = name
    f.at = lambda arr_, ix, b=None: SArr.__array_ufunc__(arr_, types.SimpleNamespace(__name__=name), 'at', arr_, ix, b)
    f.reduce = lambda x, axis=0: SArr.__array_ufunc__(wrap(asarr(x)), types.SimpleNamespace(__name__=name), 'reduce', wrap(asarr(x)), axis=axis)
    f.outer = lambda x, y: SArr.__array_ufunc__(wrap(asarr(x)), types.SimpleNamespace(__name__=name), 'outer', wrap(asarr(x)), wrap(asarr(y)))
    return f


def is_symbolic(x):
    if isinstance(x, (Sym, SBool, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(e) for e in x)
    return False


# ---- construction

def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    if dtype is not None and dtype_kind(dtype) == 'o':
        return np.array(x, dtype=object)
    if isinstance(x, SArr):
        r = np.array(np.asarray(x), dtype=object).view(SArr)
        r.kind = x.kind
        if ndmin > r.ndim:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, np.ndarray) and x.dtype != object:
        if dtype is None:
            return np.array(x, ndmin=ndmin) if x.dtype.kind in 'iub' else wrap(np.array(x))
        return array_kind(wrap(x), dtype)
    if isinstance(x, (Sym, SBool, float)) or (isinstance(x, int) and dtype is not None):
        b = np.empty((), dtype=object)
        k = dtype_kind(dtype) if dtype is not None else kind_of(x)
        b[()] = conv1(x, k)
        r = b.view(SArr)
        r.kind = k
        if ndmin:
            r = r.reshape((1,) * ndmin)
        return r
    if isinstance(x, (types.GeneratorType, range, map, filter, zip)):
        x = list(x)
    k = dtype_kind(dtype) if dtype is not None else kind_of(x)
    a = np.array(x, dtype=object)
    if a.size == 0:
        return mk([], a.shape, 'f' if dtype is None else k)
    if k == 'i' and all(isinstance(e, (int, np.integer)) for e in a.reshape(-1)):
        return np.array(x, ndmin=ndmin) if dtype is None else np.array(x, dtype=dtype if not isinstance(dtype, DT) else dtype.real, ndmin=ndmin)
    if k == 'o' and dtype is None:
        e0 = a.reshape(-1)[0]
        if any(isinstance(e, (list, tuple, np.ndarray)) for e in a.reshape(-1)):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        if isinstance(e0, str):
            return np.array(x)
        return a
    out = np.empty(a.shape, dtype=object)
    fo, fi = out.reshape(-1), a.reshape(-1)
    for i in range(fi.size):
        e = fi[i]
        if isinstance(e, (list, tuple)) or (isinstance(e, np.ndarray) and e.ndim):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        fo[i] = conv1(e.item() if isinstance(e, np.ndarray) else e, k)
    r = wrap(out, k)
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def array_kind(a, dtype):
    return wrap(a).astype(dtype)


def asarr(x):
    if isinstance(x, np.ndarray):
        return x
    return array(x)


def asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray) and (dtype is None or dtype_kind(dtype) == kind_of(x)):
        return x
    return array(x, dtype=dtype)


def _shape(shape):
    if isinstance(shape, (list, tuple, np.ndarray)):
        return tuple(int(s) for s in shape)
    if isinstance(shape, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(shape, Sym):
        return (shape.__index__(),)
    return (int(shape),)


def full(shape, v, dtype=None, order='C', **kw):
    sh = _shape(shape)
    k = dtype_kind(dtype) if dtype is not None else kind_of(v)
    if k == 'o':
        r = np.empty(sh, dtype=object)
        r[...] = v
        return r
    a = np.empty(sh, dtype=object)
    if isinstance(v, np.ndarray) and v.ndim or isinstance(v, (list, tuple)):
        w = wrap(a, k)
        w[...] = asarr(v)
        return w
    a[...] = conv1(v, k)
    return wrap(a, k)


def zeros(shape, dtype=None, order='C', **kw):
    k = dtype_kind(dtype)
    if k == 'o':
        return np.zeros(_shape(shape), dtype=object)
    return full(shape, 0 if k != 'b' else False, dtype or float)


def ones(shape, dtype=None, order='C', **kw):
    k = dtype_kind(dtype)
    if k == 'o':
        return np.ones(_shape(shape), dtype=object)
    return full(shape, 1 if k != 'b' else True, dtype or float)


def empty(shape, dtype=None, order='C', **kw):
    if dtype_kind(dtype) == 'o' and dtype is not None:
        return np.empty(_shape(shape), dtype=object)
    sh = _shape(shape)
    a = np.empty(sh, dtype=object)
    k = dtype_kind(dtype)
    ctx = core.cur() if core._has_ctx() else None
    fa = a.reshape(-1)
    for i in range(fa.size):
        fa[i] = ctx.uninit(k) if ctx is not None and hasattr(ctx, 'uninit') else S(0)
    return wrap(a, k)


def _like(f):
    def g(x, dtype=None, **kw):
        x = asarr(x)
        k = kind_of(x)
        return f(x.shape, dtype=dtype if dtype is not None else {'f': float, 'i': int, 'b': bool, 'o': object}[k])
    return g


def full_like(x, v, dtype=None, **kw):
    x = asarr(x)
    return full(x.shape, v, dtype=dtype if dtype is not None else {'f': float, 'i': int, 'b': bool, 'o': object}[kind_of(x)])


def copy(x, order='K', subok=False):
    if isinstance(x, (Sym, float, int)):
        return array(x)
    if isinstance(x, SBool):
        return array(x)
    if isinstance(x, np.ndarray):
        return x.copy()
    return array(x)


def linspace(start, stop, num_=50, endpoint=True, retstep=False, dtype=None, axis=0, **kw):
    if 'num' in kw:
        num_ = kw['num']
    if isinstance(num_, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    n = num_.__index__()
    if n < 0:
        raise ValueError('Number of samples, %d, must be non-negative.' % n)
    if isinstance(start, np.ndarray) and start.ndim or isinstance(stop, np.ndarray) and stop.ndim:
        raise EngineError('linspace of arrays')
    a, b = num(start.item() if isinstance(start, np.ndarray) else start), num(stop.item() if isinstance(stop, np.ndarray) else stop)
    div = (n - 1) if endpoint else n
    step = (b - a) / div if div > 0 else core.NAN
    out = [a + step * i if i else a for i in range(n)]
    if endpoint and n > 1:
        out[-1] = b
    r = mk(out, (n,), 'f')
    if dtype is not None:
        r = r.astype(dtype)
    return (r, step) if retstep else r


def logspace(start, stop, num_=50, endpoint=True, base=10, **kw):
    if 'num' in kw:
        num_ = kw['num']
    l = linspace(start, stop, num_, endpoint=endpoint)
    if not (isinstance(base, (int, float)) and base == 10):
        raise EngineError('logspace base')
    return mk([core.exp10_(e) for e in elems(l)], l.shape)


def arange(*a, dtype=None, **kw):
    if all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in a) and dtype_kind(dtype) in ('i', 'f') and (dtype is None or dtype_kind(dtype) == 'i'):
        return np.arange(*[int(x) for x in a])
    a = [num(x) for x in a]
    if len(a) == 1:
        lo, hi, st = S(0), a[0], S(1)
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], S(1)
    else:
        lo, hi, st = a
    n = concretize(core.ceil_((hi - lo) / st))
    k = 'i' if all(x.isint for x in (lo, st)) and dtype is None else (dtype_kind(dtype) if dtype is not None else 'f')
    return mk([lo + st * i for i in range(max(n, 0))], (max(n, 0),), k)


def meshgrid(*xi, indexing='xy', sparse=False, copy=True):
    xs = [wrap(np.atleast_1d(asarr(x))) if not (isinstance(x, np.ndarray) and x.dtype != object) else x for x in xi]
    ks = [kind_of(x) for x in xs]
    r = np.meshgrid(*[np.asarray(x) for x in xs], indexing=indexing, sparse=sparse, copy=True)
    return tuple(wrap(a, k) if a.dtype == object else a for a, k in zip(r, ks))


def concatenate(xs, axis=0, **kw):
    xs = [asarr(x) for x in xs]
    if all(x.dtype != object for x in xs):
        return np.concatenate(xs, axis=axis)
    k = join_kinds([kind_of(x) for x in xs if x.size] or ['f'])
    for x in xs:
        if not x.size:
            k = join_kinds([k, kind_of(x)])
    if k == 'o':
        return np.concatenate([np.asarray(x) for x in xs], axis=axis)
    r = np.concatenate([toobj(x) for x in xs], axis=axis)
    return wrap(conv_elems(r, k, 'o'), k)


def stackf(f):
    def g(xs, *a, **kw):
        xs = [asarr(x) for x in xs]
        if all(x.dtype != object for x in xs):
            return f(xs, *a, **kw)
        k = join_kinds([kind_of(x) for x in xs])
        r = f([toobj(x) for x in xs], *a, **kw)
        return wrap(conv_elems(r, k, 'o'), k)
    return g


# ---- reductions

def _axis_apply(x, axis, f, kind, keepdims=False):
    x = asarr(x)
    a = toobj(x)
    if axis is None:
        r = f(list(a.reshape(-1)))
        if keepdims:
            return mk([r], (1,) * a.ndim, kind)
        return r
    if isinstance(axis, tuple):
        axes = sorted(ax % a.ndim for ax in axis)
        rest = [i for i in range(a.ndim) if i not in axes]
        b = a.transpose(rest + axes).reshape([a.shape[i] for i in rest] + [-1])
        r = _axis_apply(wrap(b, kind_of(x)), -1, f, kind)
        if keepdims:
            r = r.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
        return r
    ax = int(axis)
    if ax < -a.ndim or ax >= a.ndim:
        raise np.exceptions.AxisError(ax, a.ndim)
    b = np.moveaxis(a, ax, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        out[ix] = f(list(b[ix]))
    if out.ndim == 0:
        return out.item()
    r = wrap(out, kind)
    if keepdims:
        r = wrap(np.expand_dims(np.asarray(r), ax), kind)
    return r


def _sumlist(l):
    t = S(0)
    for e in l:
        t = t + num(e)
    return t


def _prodlist(l):
    t = S(1)
    for e in l:
        t = t * num(e)
    return t


def asum(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    x = asarr(x)
    k = kind_of(x)
    if x.dtype != object and k in 'ib':
        return x.sum(axis=axis)
    return _axis_apply(x, axis, _sumlist, 'i' if k in 'ib' else 'f', keepdims)


def nansum(x, axis=None, **kw):
    return _axis_apply(x, axis, lambda l: _sumlist([e for e in l if not _isn(e)]), 'f')


def nanmean(x, axis=None, **kw):
    def f(l):
        l = [e for e in l if not _isn(e)]
        return _sumlist(l) / len(l) if l else core.NAN
    return _axis_apply(x, axis, f, 'f')


def aprod(x, axis=None, keepdims=False, **kw):
    return _axis_apply(x, axis, _prodlist, 'i' if kind_of(asarr(x)) in 'ib' else 'f', keepdims)


def amean(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return _axis_apply(x, axis, lambda l: (_sumlist(l) / len(l) if l else core.NAN), 'f', keepdims)


def avar(x, axis=None, ddof=0, **kw):
    def f(l):
        m = _sumlist(l) / len(l)
        return _sumlist([core.pow_(num(e) - m, S(2)) for e in l]) / (len(l) - ddof)
    return _axis_apply(x, axis, f, 'f')


def astd(x, axis=None, ddof=0, **kw):
    r = avar(x, axis, ddof)
    if isinstance(r, np.ndarray):
        return apply_ufunc('sqrt', (r,))
    return core.sqrt_(r)


def average(x, axis=None, weights=None, returned=False, **kw):
    if weights is None:
        return amean(x, axis)
    w = asarr(weights)
    x = asarr(x)
    if w.shape != x.shape:
        sh = [1] * x.ndim
        sh[axis] = w.shape[0]
        w = wrap(np.broadcast_to(toobj(w).reshape(sh), x.shape).copy(), kind_of(w))
    den = asum(w, axis)
    r = asum(apply_ufunc('multiply', (x, w)), axis) / den
    return (r, den) if returned else r


def _extreme(better):
    def pick(l):
        if not l:
            raise ValueError('zero-size array to reduction operation which has no identity')
        best = num(l[0])
        if _isn(best):
            return best
        for e in l[1:]:
            e = num(e)
            if _isn(e):
                return e
            if bool(better(e, best)):
                best = e
        return best
    return pick


def amax(x, axis=None, out=None, keepdims=False, initial=None, **kw):
    x = asarr(x)
    if x.dtype != object:
        return x.max(axis=axis)
    return _axis_apply(x, axis, _extreme(_cmp('gt')), kind_of(x), keepdims)


def amin(x, axis=None, out=None, keepdims=False, initial=None, **kw):
    x = asarr(x)
    if x.dtype != object:
        return x.min(axis=axis)
    return _axis_apply(x, axis, _extreme(_cmp('lt')), kind_of(x), keepdims)


def _nanx(f):
    def g(x, axis=None, **kw):
        def h(l):
            l = [e for e in l if not _isn(e)]
            return _extreme(_cmp(f))(l) if l else core.NAN
        return _axis_apply(x, axis, h, 'f')
    return g


def _argx(op):
    def f(l):
        if not l:
            raise ValueError('attempt to get argmax of an empty sequence')
        bi, best = 0, num(l[0])
        if _isn(best):
            return 0
        for i, e in enumerate(l[1:], 1):
            e = num(e)
            if _isn(e):
                return i
            if bool(_cmp(op)(e, best)):
                bi, best = i, e
        return bi

    def g(x, axis=None, out=None, **kw):
        x = asarr(x)
        if x.dtype != object:
            return x.argmax(axis=axis) if op == 'gt' else x.argmin(axis=axis)
        r = _axis_apply(x, axis, f, 'i')
        if isinstance(r, np.ndarray):
            return np.asarray(r).astype(int)
        return r
    return g


argmax = _argx('gt')
argmin = _argx('lt')


def _lt(a, b):
    a, b = num(a), num(b)
    if _isn(a):
        return False
    if _isn(b):
        return True
    return bool(_cmp('lt')(a, b))


def _order(l):
    """stable argsort of a list by forking comparisons."""
    out = []
    for i, e in enumerate(l):
        lo, hi = 0, len(out)
        while lo < hi:
            mid = (lo + hi) // 2
            if _lt(e, l[out[mid]]):
                hi = mid
            else:
                lo = mid + 1
        out.insert(lo, i)
    return out


def argsort(x, axis=-1, kind=None, **kw):
    x = asarr(x)
    if x.dtype != object:
        return np.argsort(x, axis=axis, kind='stable')
    a = np.asarray(x)
    if axis is None:
        return np.array(_order(list(a.reshape(-1))), dtype=np.int64)
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=np.int64)
    for ix in np.ndindex(*b.shape[:-1]):
        out[ix] = _order(list(b[ix]))
    return np.moveaxis(out, -1, axis)


def sort(x, axis=-1, **kw):
    x = asarr(x)
    if x.dtype != object:
        return np.sort(x, axis=axis)
    a = np.asarray(x)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    o = argsort(wrap(a, kind_of(x)), axis)
    return wrap(np.take_along_axis(a, o, axis), kind_of(x))


def lexsort(keys, axis=-1):
    keys = [elems(asarr(k)) for k in keys]
    idx = list(range(len(keys[0])))
    for k in keys:
        o = _order([k[i] for i in idx])
        idx = [idx[t] for t in o]
    return np.array(idx, dtype=np.int64)


def _same(a, b):
    return all(bool(_cmp('eq')(x, y)) for x, y in zip(a, b))


def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    x = asarr(x)
    if x.dtype != object:
        return np.unique(x, return_index, return_inverse, return_counts, axis=axis)
    if axis is not None:
        a = np.asarray(x)
        axis = axis % a.ndim
        cols = np.moveaxis(a, axis, 0)
        flat = cols.reshape(cols.shape[0], -1)
        order = [int(i) for i in lexsort([list(flat[:, k]) for k in reversed(range(flat.shape[1]))])]
        keep, counts, inv, first = [], [], [0] * len(order), []
        for i in order:
            if keep and _same(flat[i], flat[keep[-1]]):
                counts[-1] += 1
                first[-1] = min(first[-1], i)
            else:
                keep.append(i)
                first.append(i)
                counts.append(1)
            inv[i] = len(keep) - 1
        res = [wrap(np.moveaxis(cols[keep], 0, axis), kind_of(x))]
        for on, v in ((return_index, first), (return_inverse, inv), (return_counts, counts)):
            if on:
                res.append(np.array(v, dtype=np.int64))
        return res[0] if len(res) == 1 else tuple(res)
    l = list(np.asarray(x).reshape(-1))
    o = _order(l)
    vals, first, counts = [], [], []
    inv = [0] * len(l)
    for i in o:
        if vals and bool(_cmp('eq')(l[i], vals[-1])):
            counts[-1] += 1
            first[-1] = min(first[-1], i)
        else:
            vals.append(l[i])
            first.append(i)
            counts.append(1)
        inv[i] = len(vals) - 1
    res = [mk(vals, (len(vals),), kind_of(x))]
    if return_index:
        res.append(np.array(first, dtype=np.int64))
    if return_inverse:
        res.append(np.array(inv, dtype=np.int64))
    if return_counts:
        res.append(np.array(counts, dtype=np.int64))
    return res[0] if len(res) == 1 else tuple(res)


def cumsum(x, axis=None, **kw):
    x = asarr(x)
    if x.dtype != object:
        return np.cumsum(x, axis=axis)
    a = np.asarray(x)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        t = S(0)
        for j, e in enumerate(b[ix]):
            t = t + num(e)
            out[ix + (j,)] = t
    return wrap(np.moveaxis(out, -1, axis), 'i' if kind_of(x) in 'ib' else 'f')


def cumprod(x, axis=None, **kw):
    t = S(1)
    out = []
    for e in elems(asarr(x)):
        t = t * num(e)
        out.append(t)
    return mk(out, (len(out),))


def diff(x, n=1, axis=-1, **kw):
    x = asarr(x)
    for _ in range(n):
        a = np.moveaxis(x, axis, -1)
        x = np.moveaxis(a[..., 1:] - a[..., :-1], -1, axis)
    return x


def aall(x, axis=None, **kw):
    x = asarr(x)
    if x.dtype != object:
        return x.all(axis=axis)
    return _axis_apply(x, axis, lambda l: b_and(*[_boolish(e) for e in l]) if l else TRUE, 'b')


def aany(x, axis=None, **kw):
    x = asarr(x)
    if x.dtype != object:
        return x.any(axis=axis)
    return _axis_apply(x, axis, lambda l: b_or(*[_boolish(e) for e in l]) if l else FALSE, 'b')


def count_nonzero(x, axis=None, **kw):
    return np.count_nonzero(force_mask(asarr(x)), axis=axis)


def dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    A, B = toobj(a), toobj(b)
    if A.ndim == 0 or B.ndim == 0:
        return apply_ufunc('multiply', (a, b))
    if A.shape[-1] != B.shape[0 if B.ndim == 1 else -2]:
        raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
    Bm = B if B.ndim == 1 else np.moveaxis(B, -2, -1)
    ash, bsh = A.shape[:-1], Bm.shape[:-1]
    out_ = np.empty(ash + bsh, dtype=object)
    for ia in np.ndindex(*ash):
        for ib in np.ndindex(*bsh):
            out_[ia + ib] = _sumlist([num(u) * num(v) for u, v in zip(A[ia], Bm[ib])])
    if out_.ndim == 0:
        return out_.item()
    return wrap(out_, join_kinds([kind_of(a), kind_of(b)]))


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(toobj(a), sh + a.shape[-2:])
    B = np.broadcast_to(toobj(b), sh + b.shape[-2:])
    out = np.empty(sh + (A.shape[-2], B.shape[-1]), dtype=object)
    for ix in np.ndindex(*sh):
        out[ix] = np.asarray(dot(wrap(A[ix]), wrap(B[ix])))
    return wrap(out, join_kinds([kind_of(a), kind_of(b)]))


def cross(a, b, **kw):
    a, b = asarr(a), asarr(b)
    A, B = np.broadcast_arrays(toobj(a), toobj(b))
    out = np.empty(A.shape, dtype=object)
    if A.shape[-1] != 3:
        raise EngineError('cross of non 3-vectors')
    for ix in np.ndindex(*A.shape[:-1]):
        u, v = [num(e) for e in A[ix]], [num(e) for e in B[ix]]
        out[ix] = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    return wrap(out, 'f')


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    t = S(0)
    for j in range(n):
        if isinstance(M[0][j], Sym) and not M[0][j].n:
            continue
        sub = [r[:j] + r[j + 1:] for r in M[1:]]
        t = t + (M[0][j] if j % 2 == 0 else -M[0][j]) * _det(sub)
    return t


def inv(a):
    a = asarr(a)
    n = a.shape[0]
    M = [[num(e) for e in r] for r in toobj(a)]
    for r in M:
        for e in r:
            if not isinstance(e, Sym):
                return mk([core.NAN] * (n * n), (n, n))
    d = _det(M)
    if bool(d == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            m = _det(sub) if n > 1 else S(1)
            out[i, j] = (m if (i + j) % 2 == 0 else -m) / d
    return wrap(out, 'f')


def solve(a, b):
    return dot(inv(a), b)


def det(a):
    return _det([[num(e) for e in r] for r in toobj(asarr(a))])


def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise EngineError('norm ord')
    x = asarr(x)

    def f(l):
        sq = [core.pow_(num(e), S(2)) for e in l]
        t = sq[0]
        for s in sq[1:]:
            t = t + s
        return core.sqrt_(t)
    return _axis_apply(x, axis, f, 'f', keepdims)


def outer(a, b, out=None):
    a, b = asarr(a), asarr(b)
    return apply_ufunc('multiply', (wrap(toobj(a).reshape(-1, 1), kind_of(a)), wrap(toobj(b).reshape(1, -1), kind_of(b))))


def where(c, *a):
    if not a:
        if isinstance(c, (SBool, bool)):
            c = array([c])
        m = force_mask(asarr(c))
        return np.nonzero(m)
    x, y = a
    m = force_mask(asarr(c)) if isinstance(c, (np.ndarray, list, tuple)) else np.asarray(bool(c))
    xa, ya = toobj(x), toobj(y)
    sh = np.broadcast_shapes(m.shape, xa.shape, ya.shape)
    m = np.broadcast_to(m, sh)
    xa, ya = np.broadcast_to(xa, sh), np.broadcast_to(ya, sh)
    out = np.empty(sh, dtype=object)
    for ix in np.ndindex(*sh):
        out[ix] = xa[ix] if m[ix] else ya[ix]
    k = join_kinds([kind_of(x), kind_of(y)])
    if k == 'o':
        return out
    if out.ndim == 0:
        r = out.view(SArr)
        r.kind = k
        r[()] = conv1(out.item(), k)
        return r
    return wrap(conv_elems(out, k, 'o'), k)


def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


def nonzero(x):
    return np.nonzero(force_mask(asarr(x)))


def flatnonzero(x):
    return np.flatnonzero(force_mask(asarr(x)))


def argwhere(x):
    return np.argwhere(force_mask(asarr(x)))


def clip(x, lo=None, hi=None, out=None, **kw):
    lo = kw.get('a_min', lo)
    hi = kw.get('a_max', hi)
    r = x
    if lo is not None:
        r = apply_ufunc('maximum', (r, lo))
    if hi is not None:
        r = apply_ufunc('minimum', (r, hi))
    if out is not None:
        out[...] = r
        return out
    return r


def around(x, decimals=0, out=None):
    if decimals == 0:
        return apply_ufunc('rint', (x,))
    s = S(Fraction(10) ** decimals)
    return apply_ufunc('rint', (x * s,)) / s


def isscalar(x):
    if isinstance(x, (Sym, SBool)):
        return True
    return np.isscalar(x)


def shape(x):
    if isinstance(x, (Sym, SBool)):
        return ()
    if isinstance(x, (list, tuple)):
        return asarr(x).shape
    if hasattr(x, 'shape'):
        return tuple(x.shape)
    return np.shape(x)


def ndim(x):
    return len(shape(x))


def size(x, axis=None):
    if isinstance(x, np.ndarray):
        return np.size(x, axis)
    s = shape(x)
    return int(np.prod(s)) if axis is None else s[axis]


def searchsorted(a, v, side='left', sorter=None):
    l = elems(asarr(a))

    def one(x):
        n = 0
        lo, hi = 0, len(l)
        while lo < hi:
            mid = (lo + hi) // 2
            e = num(l[mid])
            c = _cmp('lt')(e, x) if side == 'left' else _cmp('le')(e, x)
            if bool(c):
                lo = mid + 1
            else:
                hi = mid
        return lo
    if isinstance(v, (np.ndarray, list, tuple)) and ndim(v):
        v = asarr(v)
        return np.array([one(num(x)) for x in elems(toobj(v))], dtype=np.int64).reshape(v.shape)
    return one(num(v))


def digitize(x, bins, right=False):
    l = elems(asarr(bins))
    inc = len(l) < 2 or bool(_cmp('ge')(l[-1], l[0]))
    if not inc:
        raise EngineError('digitize with decreasing bins')
    return searchsorted(bins, x, side='left' if right else 'right')


def histogramdd(sample, bins=10, range=None, density=None, weights=None):
    if isinstance(sample, np.ndarray) and sample.ndim == 2:
        cols = [sample[:, i] for i in builtins_range(sample.shape[1])]
    else:
        cols = [asarr(c) for c in sample]
        if len(cols) and cols[0].ndim == 1 and isinstance(sample, (list,)) and False:
            pass
        # a list/tuple of D arrays is interpreted as an (N, D) transposed sample
    D = len(cols)
    N = len(cols[0])
    edges = []
    for d in builtins_range(D):
        b = bins[d] if isinstance(bins, (list, tuple)) or (isinstance(bins, np.ndarray) and bins.ndim) else bins
        if isinstance(b, (int, np.integer)):
            if range is None or range[d] is None:
                lo, hi = amin(cols[d]), amax(cols[d])
            else:
                lo, hi = range[d]
            e = linspace(lo, hi, int(b) + 1)
        elif isinstance(b, Sym):
            e = linspace(range[d][0], range[d][1], concretize(b) + 1)
        else:
            e = asarr(b)
        edges.append(wrap(e))
    sh = tuple(len(e) - 1 for e in edges)
    H = np.empty(sh, dtype=object)
    H[...] = S(0)
    w = None if weights is None else asarr(weights)
    for n in builtins_range(N):
        ix = []
        for d in builtins_range(D):
            el = elems(edges[d])
            x = num(cols[d][n])
            if _isn(x):
                ix = None
                break
            k = searchsorted(edges[d], x, side='right') - 1
            if k == len(el) - 1 and bool(x == el[-1]):
                k -= 1
            if k < 0 or k >= sh[d]:
                ix = None
                break
            ix.append(k)
        if ix is not None:
            H[tuple(ix)] = H[tuple(ix)] + (S(1) if w is None else num(w[n]))
    r = wrap(H, 'f')
    if density:
        tot = asum(r)
        vol = None
        for d in builtins_range(D):
            dx = diff(edges[d]).reshape([-1 if t == d else 1 for t in builtins_range(D)])
            vol = dx if vol is None else vol * dx
        r = r / tot / vol
    return r, edges


def histogram(x, bins=10, range=None, density=None, weights=None):
    r, e = histogramdd([asarr(x).reshape(-1)], [bins], None if range is None else [range], density, weights)
    return r, e[0]


def histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    if not isinstance(bins, (list, tuple)) or len(bins) != 2:
        bins = [bins, bins]
    r, e = histogramdd([x, y], bins, range, density, weights)
    return r, e[0], e[1]


builtins_range = range


def bincount(x, weights=None, minlength=0):
    ix = force_index(asarr(x))
    if len(ix) and ix.min() < 0:
        raise ValueError("'list' argument must have no negative elements")
    n = max(minlength, (int(ix.max()) + 1) if len(ix) else 0)
    if weights is None:
        return np.bincount(ix, minlength=minlength)
    out = [S(0)] * n
    for i, w in zip(ix, elems(asarr(weights))):
        out[i] = out[i] + num(w)
    return mk(out, (n,))


def interp(x, xp, fp, left=None, right=None, period=None):
    X, F = [num(e) for e in elems(asarr(xp))], [num(e) for e in elems(asarr(fp))]

    def one(t):
        if bool(t < X[0]):
            return F[0] if left is None else num(left)
        if bool(t > X[-1]):
            return F[-1] if right is None else num(right)
        k = searchsorted(mk(X, (len(X),)), t, side='right') - 1
        k = min(max(k, 0), len(X) - 2)
        return F[k] + (F[k + 1] - F[k]) * (t - X[k]) / (X[k + 1] - X[k])
    if isinstance(x, (np.ndarray, list, tuple)):
        a = asarr(x)
        return mk([one(num(e)) for e in elems(toobj(a))], a.shape)
    return one(num(x))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(u, v):
        u, v = num(u), num(v)
        if _isn(u) or _isn(v):
            return TRUE if (equal_nan and _isn(u) and _isn(v)) else FALSE
        if not isinstance(u, Sym) or not isinstance(v, Sym):
            return TRUE if u == v else FALSE
        return core.abs_(u - v) <= num(atol) + num(rtol) * core.abs_(v)
    xa, ya = np.broadcast_arrays(toobj(a), toobj(b))
    out = np.empty(xa.shape, dtype=object)
    for ix in np.ndindex(*xa.shape):
        out[ix] = f(xa[ix], ya[ix])
    return out.item() if out.ndim == 0 else wrap(out, 'b')


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return bool(r) if isinstance(r, SBool) else bool(aall(r))


def array_equal(a, b, **kw):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    r = apply_ufunc('equal', (a, b))
    return bool(r) if isinstance(r, SBool) else bool(aall(r))


def isin(x, test, **kw):
    t = elems(toobj(asarr(test)))
    a = toobj(asarr(x))
    out = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        out[ix] = b_or(*[_cmp('eq')(a[ix], e) for e in t]) if t else FALSE
    return wrap(out, 'b')


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = toobj(asarr(x))
    out = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        out[ix] = num(nan) if _isn(a[ix]) else a[ix]
    if out.ndim == 0:
        return out.item()
    r = wrap(out, kind_of(asarr(x)))
    if not copy and isinstance(x, SArr):
        x[...] = r
        return x
    return r


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    d = dx if x is None else diff(asarr(x))
    return asum(d * (y[1:] + y[:-1]) / 2)


def vectorize_stub(*a, **k):
    raise EngineError('np.vectorize')


def apply_generic(name):
    f = getattr(np, name)

    def g(*a, **kw):
        a2 = [(x if not isinstance(x, SArr) else x) for x in a]
        ks = [kind_of(x) for x in a if isinstance(x, (SArr, np.ndarray, list, tuple)) and np.ndim(toobj(x) if not isinstance(x, np.ndarray) else x)]
        a3 = [np.asarray(x) if isinstance(x, SArr) else (toobj(x) if isinstance(x, (list, tuple)) and is_symbolic(x) else x) for x in a2]
        a3 = [force_scalar(x) for x in a3]
        kw = {k: force_scalar(np.asarray(v) if isinstance(v, SArr) else v) for k, v in kw.items()}
        r = f(*a3, **kw)
        return _wrap_res(r, ks[0] if ks else None)
    g.__name__ = name
    return g


def force_scalar(x):
    if isinstance(x, Sym) and x.is_const() and type(x.const()) is int:
        return x.const()
    return x


def _wrap_res(r, k):
    if isinstance(r, tuple):
        return tuple(_wrap_res(x, k) for x in r)
    if isinstance(r, list):
        return [_wrap_res(x, k) for x in r]
    if isinstance(r, np.ndarray) and r.dtype == object and k in ('f', 'i', 'b'):
        return wrap(r, k)
    return r


def append(a, v, axis=None):
    a, v = asarr(a), asarr(v)
    if axis is None:
        a, v = a.reshape(-1), v.reshape(-1)
        axis = 0
    return concatenate([a, v], axis=axis)


def insert(a, ix, v, axis=None):
    l = elems(toobj(asarr(a)))
    l2 = list(l)
    ix = concretize(num(ix)) if not isinstance(ix, int) else ix
    if isinstance(v, (np.ndarray, list, tuple)):
        l2[ix:ix] = elems(toobj(asarr(v)))
    else:
        l2.insert(ix, v)
    return array(l2)


class DT:
    """numpy scalar type look-alike usable as dtype and as converter."""

    def __init__(self, real):
        self.real = real
        self.dtype = np.dtype(real)
        self.__name__ = real.__name__

    def __call__(self, x=0):
        k = dtype_kind(self.real)
        if isinstance(x, (list, tuple, np.ndarray)) and np.ndim(x if isinstance(x, np.ndarray) else toobj(x)):
            return array(x, dtype=self.real)
        if isinstance(x, np.ndarray):
            x = x.item()
        return conv1(x, k)

    def __instancecheck__(self, o):
        return isinstance(o, self.real)


# ---- random draws

class RandomStub:
    """Every uniform draw is a fresh variable u with 0 <= u < 1."""

    def _draw(self, size):
        ctx = core.cur()
        if size is None:
            return ctx.draw()
        sh = _shape(size)
        n = 1
        for s in sh:
            n *= s
        if n > ctx.sh.max_draws:
            raise EngineError('too many random draws (%d)' % n)
        return mk([ctx.draw() for _ in range(n)], sh)

    def random_sample(self, size=None):
        return self._draw(size)
    random = ranf = sample = random_sample

    def rand(self, *dims):
        return self._draw(dims if dims else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (isinstance(low, np.ndarray) or isinstance(high, np.ndarray)):
            size = np.broadcast_shapes(np.shape(low), np.shape(high))
        u = self._draw(size)
        return low + (high - low) * u

    def seed(self, *a):
        return None

    def default_rng(self, *a):
        return self

    def RandomState(self, *a):
        return self

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        u = self._draw(size)
        r = apply_ufunc('floor', (u * (high - low),)) if isinstance(u, np.ndarray) else core.floor_(u * (high - low))
        return (r.astype(int) if isinstance(r, np.ndarray) else r) + low
    integers = randint

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            return np.array(_order(elems(self._draw(int(x)))), dtype=np.int64)
        x = asarr(x)
        return x[np.array(_order(elems(self._draw(len(x)))), dtype=np.int64)]

    def shuffle(self, x):
        o = np.array(_order(elems(self._draw(len(x)))), dtype=np.int64)
        x[...] = x[o]

    def __getattr__(self, n):
        raise EngineError('np.random.' + n)


class LinalgStub:
    inv = staticmethod(inv)
    norm = staticmethod(norm)
    solve = staticmethod(solve)
    det = staticmethod(det)
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        raise EngineError('np.linalg.' + n)


class Shim(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        r = getattr(np, n)          # AttributeError as numpy would
        if isinstance(r, np.ufunc):
            raise EngineError('numpy ufunc np.%s is not modelled' % n)
        if callable(r) and not isinstance(r, type):
            return apply_generic(n)
        if isinstance(r, type) and issubclass(r, np.generic):
            return DT(r)
        return r


shim = Shim('numpy')
for _n_ in list(UN) + list(BIN):
    setattr(shim, _n_, ew(_n_))
shim.abs = ew('absolute')
shim.acos, shim.asin, shim.atan, shim.atan2 = ew('arccos'), ew('arcsin'), ew('arctan'), ew('arctan2')
shim.pow = ew('power')
shim.bitwise_not = ew('invert')
for _nm, _f in dict(array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, asfarray=lambda x: array(x, dtype=float),
                    zeros=zeros, ones=ones, empty=empty, full=full,
                    zeros_like=_like(zeros), ones_like=_like(ones), empty_like=_like(empty), full_like=full_like, copy=copy,
                    linspace=linspace, logspace=logspace, arange=arange, meshgrid=meshgrid, concatenate=concatenate,
                    hstack=stackf(np.hstack), vstack=stackf(np.vstack), stack=stackf(np.stack), dstack=stackf(np.dstack),
                    column_stack=stackf(np.column_stack),
                    sum=asum, nansum=nansum, nanmean=nanmean, prod=aprod, mean=amean, var=avar, std=astd, average=average,
                    max=amax, amax=amax, min=amin, amin=amin, nanmax=_nanx('gt'), nanmin=_nanx('lt'),
                    argmax=argmax, argmin=argmin, argsort=argsort, sort=sort, lexsort=lexsort, unique=unique,
                    cumsum=cumsum, cumprod=cumprod, diff=diff, ediff1d=diff, all=aall, any=aany, count_nonzero=count_nonzero,
                    dot=dot, matmul=matmul, cross=cross, outer=outer, inner=dot, vdot=dot, where=where, select=select,
                    nonzero=nonzero, flatnonzero=flatnonzero, argwhere=argwhere, clip=clip, round=around, around=around,
                    isscalar=isscalar, shape=shape, ndim=ndim, size=size, searchsorted=searchsorted, digitize=digitize,
                    histogramdd=histogramdd, histogram=histogram, histogram2d=histogram2d, bincount=bincount, interp=interp,
                    isclose=isclose, allclose=allclose, array_equal=array_equal, isin=isin, in1d=isin, nan_to_num=nan_to_num,
                    trapezoid=trapezoid, trapz=trapezoid, append=append, insert=insert).items():
    setattr(shim, _nm, _f)
shim.pi = PI
shim.nan = shim.NaN = core.NAN
shim.inf = math.inf
shim.newaxis = None
shim.ndarray = np.ndarray
shim.random = RandomStub()
shim.linalg = LinalgStub()
for _t in ('float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint32', 'uint64', 'bool_', 'intp', 'double', 'longdouble'):
    if hasattr(np, _t):
        setattr(shim, _t, DT(getattr(np, _t)))
shim.floating, shim.integer, shim.number, shim.generic = np.floating, np.integer, np.number, np.generic
shim.object_ = object
shim.errstate = np.errstate
shim.finfo = np.finfo
shim.iinfo = np.iinfo
shim.ndindex = np.ndindex
shim.vectorize = vectorize_stub
shim.float_, shim.int_ = DT(np.float64), DT(np.int64)

NP_BY_REAL = {}
for _nm in dir(shim):
    _r = getattr(np, _nm, None)
    _f = shim.__dict__.get(_nm)
    if callable(_r) and callable(_f) and not isinstance(_r, type):
        try:
            NP_BY_REAL[_r] = _f
        except TypeError:
            pass
