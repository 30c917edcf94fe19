"""Loads the current source of the magpie package for symbolic execution.

The source text is read from the tree under test on every run, parsed, and
re-executed with (a) float literals as exact decimals, (b) integer division as
exact rationals, (c) the converters int()/float() working on symbolic values
and (d) imports of numpy / healpy / scipy / matplotlib / math redirected to
the stand-ins of this package.  Nothing is cached between runs."""
import ast
import builtins
import math
import os
import types
from fractions import Fraction

import numpy as np

from . import arr, core
from .core import EngineError, S, SBool, Sym


def _is_int(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))


def _div(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return S(Fraction(int(a), int(b)))
    if isinstance(a, np.ndarray) and a.dtype != object:
        a = arr.wrap(a)
    if isinstance(b, np.ndarray) and b.dtype != object:
        b = arr.wrap(b)
    return a / b


def _idiv(a, b):
    if isinstance(a, np.ndarray):
        if a.dtype != object and a.dtype.kind in 'iub':
            raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        a /= b
        return a
    return _div(a, b)


def _pow(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        if b < 0:
            return S(Fraction(1, int(a) ** int(-b)))
        return a ** b
    return a ** b


def _flt(s):
    if s in ('inf',):
        return math.inf
    return S(Fraction(s))


class _T(ast.NodeTransformer):
    def __init__(self, src):
        self.src = src

    def visit_Constant(self, n):
        if isinstance(n.value, float) and math.isfinite(n.value):
            txt = ast.get_source_segment(self.src, n)
            try:
                Fraction(txt.replace('_', ''))
                txt = txt.replace('_', '')
            except (ValueError, AttributeError):
                txt = repr(n.value)
            return ast.copy_location(ast.Call(ast.Name('__sx_flt__', ast.Load()), [ast.Constant(txt)], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: '__sx_div__', ast.Pow: '__sx_pow__'}.get(type(n.op))
        if f:
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, (ast.Name, ast.Attribute)):
            import copy
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name('__sx_idiv__', ast.Load()), [load, n.value], [])), n)
        return n

    def visit_JoinedStr(self, n):
        return n


class _Conv:
    """int / float look-alikes: converters, isinstance targets and dtypes."""

    def __init__(self, real, kind):
        self.real = real
        self.kind = kind
        self.dtype = np.dtype(real)
        self.__name__ = real.__name__

    def __instancecheck__(self, o):
        if isinstance(o, self.real) and not (self.kind == 'f' and isinstance(o, Sym)):
            return True
        if isinstance(o, Sym):
            isint = core.sym_isint(o) if hasattr(core, 'sym_isint') else getattr(o, 'isint', False)
            return bool(isint) == (self.kind == 'i')
        return False

    def __call__(self, x=0, *a):
        if a:
            return self.real(x, *a)
        if isinstance(x, str):
            return S(Fraction(x)) if self.kind == 'f' else int(x)
        if isinstance(x, np.ndarray):
            x = x.item() if not isinstance(x, arr.SArr) else arr.elems(x)[0] if x.size == 1 else self.real(x)
        if isinstance(x, SBool):
            x = 1 if bool(x) else 0
        if isinstance(x, Sym) or self.kind == 'f':
            return arr.conv1(x, self.kind)
        return self.real(x)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)

    def __or__(self, o):
        return self


def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _round(x, nd=None):
    if isinstance(x, Sym):
        if nd:
            raise EngineError('round with digits')
        return arr.rint_(x)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


class MathShim(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('pi', 'inf', 'nan'):
            return getattr(arr.shim, n)
        if n in ('floor', 'ceil', 'trunc'):
            f = getattr(arr.shim, n)
            return lambda x: arr.conv1(f(x), 'i')
        m = {'fabs': 'absolute', 'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan', 'atan2': 'arctan2',
             'degrees': 'rad2deg', 'radians': 'deg2rad', 'fmod': 'fmod', 'pow': 'power'}.get(n, n)
        if m == 'tau':
            return 2 * arr.shim.pi
        if m in ('gcd', 'lcm', 'factorial', 'isqrt', 'comb'):
            return getattr(math, m)
        return getattr(arr.shim, m)


class Loader:
    def __init__(self, root='/repo', pkg='magpie', stubs=None, fortran=None, codes=None):
        self.root = root
        self.pkg = pkg
        self.mods = {}
        self.stubs = stubs or {}
        self.fortran = fortran
        self.files = {}
        self.codes = codes if codes is not None else {}
        self.builtins = dict(vars(builtins))
        INT, FLT = _Conv(int, 'i'), _Conv(float, 'f')
        self.builtins.update(__import__=self._import, int=INT, float=FLT, sum=_sum, round=_round,
                             __sx_flt__=_flt, __sx_div__=_div, __sx_pow__=_pow, __sx_idiv__=_idiv,
                             print=lambda *a, **k: None)
        self.ext = {'numpy': arr.shim, 'math': MathShim('math')}
        self.ext.update(self.stubs)

    # -- import machinery
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            base = pkg.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            full = '.'.join(base + ([name] if name else []))
        else:
            full = name
        top = full.split('.')[0]
        if top == self.pkg:
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and self._find(full + '.' + f):
                        setattr(m, f, self.load(full + '.' + f))
                return m
            return self.mods[top] if not level else m
        if full in self.ext:
            m = self.ext[full]
            if not fromlist and '.' in full:
                return self.ext[top]
            return m
        if top in self.ext:
            m = self.ext[top]
            for part in full.split('.')[1:]:
                m = getattr(m, part)
            return m if fromlist else self.ext[top]
        if top in ('scipy', 'healpy', 'matplotlib', 'astropy', 'numba'):
            raise EngineError('no model of module ' + full)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _find(self, full):
        p = os.path.join(self.root, *full.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        if os.path.exists(p + '.f90'):
            return p + '.f90'
        return None

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        if '.' in full:
            parent = self.load(full.rsplit('.', 1)[0])
            if full in self.mods:
                return self.mods[full]
        path = self._find(full)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % full)
        if path.endswith('.f90'):
            if self.fortran is None:
                raise EngineError('no fortran front end for ' + full)
            m = self.fortran(path, full)
            self.mods[full] = m
            setattr(parent, full.rsplit('.', 1)[1], m)
            self.files[path] = True
            return m
        m = types.ModuleType(full)
        m.__file__ = path
        ispkg = path.endswith('__init__.py')
        m.__package__ = full if ispkg else full.rsplit('.', 1)[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[full] = m
        self.files[path] = True
        code = self.codes.get(path)
        if code is None:
            src = open(path).read() if os.path.exists(path) else ''
            tree = ast.parse(src, path)
            tree = ast.fix_missing_locations(_T(src).visit(tree))
            code = self.codes[path] = compile(tree, path, 'exec')
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(full, None)
            raise
        if '.' in full:
            setattr(parent, full.rsplit('.', 1)[1], m)
        return m
