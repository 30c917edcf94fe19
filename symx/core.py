"""Symbolic scalars: rational functions over interned atoms, booleans, and the
path context that talks to the solver."""
import math
import numbers
from fractions import Fraction

import numpy as _np

# --------------------------------------------------------------------------
# errors / control flow


class EngineError(Exception):
    """Engine limitation: the run is inconclusive (never reported as success)."""


class PathAbort(BaseException):
    """The current path is infeasible / must be dropped."""


class GuardFalse(BaseException):
    """Raised while evaluating an element whose guard is false on this path."""


# --------------------------------------------------------------------------
# polynomials: dict {monomial: coef}; monomial = tuple((atom_id, exp), ...) sorted

def _q(x):
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


class Atom:
    __slots__ = ('id', 'kind', 'name', 'data', 'isint', 'lo', 'hi', 'lostrict',
                 'histrict', 'red', 'support', 'deps')

    def __repr__(self):
        return self.name


ATOMS = []
INTERN = {}
REDUCIBLE = {}       # atom id -> (n, poly)


def new_atom(kind, key, name, data=None, isint=False, lo=None, hi=None,
             lostrict=False, histrict=False, deps=()):
    k = (kind, key)
    a = INTERN.get(k)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind
    a.name = name
    a.data = data
    a.isint = isint
    a.lo, a.hi = lo, hi
    a.lostrict, a.histrict = lostrict, histrict
    a.red = None
    a.deps = tuple(deps)
    a.support = None
    ATOMS.append(a)
    INTERN[k] = a
    return a


ZERO = {}
ONE = {(): 1}


def p_const(c):
    c = _q(c)
    return {(): c} if c else {}


def p_add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = _q(v + c)
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(a, c):
    c = _q(c)
    if not c:
        return {}
    if c == 1:
        return a
    return {m: _q(v * c) for m, v in a.items()}


def p_neg(a):
    return {m: -v for m, v in a.items()}


def p_sub(a, b):
    return p_add(a, p_neg(b))


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    if i < la:
        r.extend(a[i:])
    if j < lb:
        r.extend(b[j:])
    return tuple(r)


_REDCACHE = {}


def m_reduce(m):
    """Return None when m is already reduced, else the reduced polynomial."""
    hit = None
    for i in range(len(m) - 1, -1, -1):
        rd = REDUCIBLE.get(m[i][0])
        if rd is not None and m[i][1] >= rd[0]:
            hit = i
            break
    if hit is None:
        return None
    r = _REDCACHE.get(m)
    if r is not None:
        return r
    aid, e = m[hit]
    n, rep = REDUCIBLE[aid]
    k, rest = divmod(e, n)
    base = m[:hit] + (((aid, rest),) if rest else ()) + m[hit + 1:]
    p = {base: 1}
    for _ in range(k):
        p = p_mul(p, rep)
    # p_mul reduces products; base itself may still be reducible
    out = {}
    for mm, c in p.items():
        rr = m_reduce(mm)
        if rr is None:
            out = p_add(out, {mm: c})
        else:
            out = p_add(out, p_scale(rr, c))
    _REDCACHE[m] = out
    return out


POLY_LIMIT = 200000


def p_mul(a, b):
    if not a or not b:
        return {}
    if a == ONE:
        return b
    if b == ONE:
        return a
    if len(a) * len(b) > POLY_LIMIT * 20:
        raise EngineError('polynomial too large')
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            c = c1 * c2
            rd = m_reduce(m) if m else None
            if rd is None:
                v = get(m)
                r[m] = c if v is None else v + c
            else:
                for mm, cc in rd.items():
                    v = get(mm)
                    r[mm] = c * cc if v is None else v + c * cc
    return {m: _q(c) for m, c in r.items() if c}


def p_pow(a, n):
    r = ONE
    b = a
    while n:
        if n & 1:
            r = p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def p_isconst(a):
    return not a or (len(a) == 1 and () in a)


def p_constval(a):
    return a.get((), 0) if a else 0


def p_key(a):
    return frozenset(a.items())


def p_atoms(a):
    s = set()
    for m in a:
        for x in m:
            s.add(x[0])
    return s


def p_content(a):
    """Positive rational content."""
    g = 0
    l = 1
    for c in a.values():
        if type(c) is int:
            n, d = c, 1
        else:
            n, d = c.numerator, c.denominator
        g = math.gcd(g, n)
        l = l * d // math.gcd(l, d)
    return Fraction(g, l) if g else Fraction(1)


def p_mgcd(a):
    """gcd monomial (dict atom->exp)."""
    it = iter(a)
    try:
        g = dict(next(it))
    except StopIteration:
        return {}
    for m in it:
        d = dict(m)
        for k in list(g):
            e = d.get(k, 0)
            if e < g[k]:
                if e:
                    g[k] = e
                else:
                    del g[k]
        if not g:
            break
    return g


def m_div(m, g):
    r = []
    for a, e in m:
        e -= g.get(a, 0)
        if e:
            r.append((a, e))
    return tuple(r)


def p_mdiv(a, g):
    return {m_div(m, g): c for m, c in a.items()}


def m_lex(m):
    # order: higher atom id first
    return tuple(sorted(((-a, e) for a, e in m)))


def _mkey(m):
    # monomial order: total degree then lex with larger atoms dominating
    return (sum(e for _, e in m), tuple(reversed(m)))


def p_exactdiv(a, b, limit=4000):
    """Exact division of plain polynomials, or None."""
    if not b:
        return None
    lb = max(b, key=_mkey)
    cb = b[lb]
    dlb = dict(lb)
    if len(a) * len(b) > limit * 10:
        return None
    r = dict(a)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 300:
            return None
        la = max(r, key=_mkey)
        dla = dict(la)
        for k, e in dlb.items():
            if dla.get(k, 0) < e:
                return None
        m = m_div(la, dlb)
        c = _q(Fraction(r[la]) / cb)
        q[m] = _q(q.get(m, 0) + c)
        for mb, cc in b.items():
            mm = m_mul(m, mb)
            v = _q(r.get(mm, 0) - c * cc)
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return {m: c for m, c in q.items() if c}


def p_str(a):
    if not a:
        return '0'
    out = []
    for m, c in a.items():
        t = '*'.join((ATOMS[i].name if e == 1 else '%s^%d' % (ATOMS[i].name, e)) for i, e in m)
        out.append(('%s*%s' % (c, t)) if t else str(c))
    return ' + '.join(out)


# --------------------------------------------------------------------------
# interval reasoning on atoms (static bounds)

def _imul(a, b):
    # intervals with None = infinity
    (al, ah), (bl, bh) = a, b
    if al is not None and ah is not None and bl is not None and bh is not None:
        v = (al * bl, al * bh, ah * bl, ah * bh)
        return min(v), max(v)
    # nonneg * nonneg
    if al is not None and al >= 0 and bl is not None and bl >= 0:
        hi = ah * bh if (ah is not None and bh is not None) else None
        return al * bl, hi
    if ah is not None and ah <= 0 and bh is not None and bh <= 0:
        return ah * bh, None
    if al is not None and al >= 0 and bh is not None and bh <= 0:
        return None, al * bh
    if ah is not None and ah <= 0 and bl is not None and bl >= 0:
        return None, ah * bl
    return None, None


def _ipow(a, e):
    l, h = a
    if e == 1:
        return a
    if e % 2 == 0:
        if l is not None and l >= 0:
            return l ** e, (h ** e if h is not None else None)
        if h is not None and h <= 0:
            return h ** e, (l ** e if l is not None else None)
        if l is None or h is None:
            return 0, None
        return 0, max(l ** e, h ** e)
    return (l ** e if l is not None else None), (h ** e if h is not None else None)


def p_bounds(p):
    lo, hi = 0, 0
    for m, c in p.items():
        iv = (1, 1)
        for a, e in m:
            at = ATOMS[a]
            iv = _imul(iv, _ipow((at.lo, at.hi), e))
            if iv == (None, None):
                return None, None
        l, h = iv
        if c > 0:
            l = None if l is None else l * c
            h = None if h is None else h * c
        else:
            l, h = (None if h is None else h * c), (None if l is None else l * c)
        lo = None if (lo is None or l is None) else lo + l
        hi = None if (hi is None or h is None) else hi + h
        if lo is None and hi is None:
            return None, None
    return lo, hi


def p_sign_quick(p):
    """Return '+', '-', '0', '>=', '<=' or None from static bounds only."""
    if not p:
        return '0'
    if p_isconst(p):
        return '+' if p[()] > 0 else '-'
    lo, hi = p_bounds(p)
    if lo is not None:
        if lo > 0:
            return '+'
        if lo == 0:
            # strict if a sum of nonneg monomials with a strictly positive one
            for m, c in p.items():
                if all(_atom_pos(a) for a, _ in m) and c > 0:
                    # all terms must be >=0 for this argument: lo==0 gives sum of mins = 0
                    if all(_term_nonneg(mm, cc) for mm, cc in p.items()):
                        return '+'
            return '>='
    if hi is not None:
        if hi < 0:
            return '-'
        if hi == 0:
            for m, c in p.items():
                if all(_atom_pos(a) for a, _ in m) and c < 0:
                    if all(_term_nonneg(mm, -cc) for mm, cc in p.items()):
                        return '-'
            return '<='
    return None


def _atom_pos(a):
    at = ATOMS[a]
    return at.lo is not None and (at.lo > 0 or (at.lo == 0 and at.lostrict))


def _term_nonneg(m, c):
    if c < 0:
        return False
    for a, e in m:
        if e % 2 == 0:
            continue
        at = ATOMS[a]
        if at.lo is None or at.lo < 0:
            return False
    return True


# --------------------------------------------------------------------------
# booleans

class SBool:
    """Canonical boolean: ('c',bool) | ('lt'|'le'|'eq'|'ne', polykey) | and/or/not."""
    __slots__ = ('op', 'args', '_key', '_at')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._key = None
        self._at = None

    def key(self):
        k = self._key
        if k is None:
            if self.op in ('lt', 'le', 'eq', 'ne'):
                k = (self.op, p_key(self.args))
            elif self.op == 'c':
                k = ('c', self.args)
            elif self.op == 'free':
                k = ('free', self.args)
            elif self.op == 'not':
                k = ('not', self.args.key())
            else:
                k = (self.op, frozenset(a.key() for a in self.args))
            self._key = k
        return k

    def atoms(self):
        s = self._at
        if s is None:
            if self.op in ('lt', 'le', 'eq', 'ne'):
                s = frozenset(p_atoms(self.args))
            elif self.op in ('c', 'free'):
                s = frozenset()
            elif self.op == 'not':
                s = self.args.atoms()
            else:
                s = frozenset().union(*[a.atoms() for a in self.args])
            self._at = s
        return s

    def __repr__(self):
        if self.op == 'c':
            return str(self.args)
        if self.op in ('lt', 'le', 'eq', 'ne'):
            return '(%s %s 0)' % (p_str(self.args), {'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!='}[self.op])
        if self.op == 'not':
            return 'not ' + repr(self.args)
        return '(' + (' %s ' % self.op).join(map(repr, self.args)) + ')'

    def __bool__(self):
        if self.op == 'c':
            return self.args
        return cur().decide(self)

    def __and__(self, o):
        return b_and(self, to_bool(o))
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, to_bool(o))
    __ror__ = __or__

    def __xor__(self, o):
        o = to_bool(o)
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))
    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)) or type(o).__name__ == 'bool_' or type(o).__name__ == 'bool':
            o = to_bool(o)
            return b_or(b_and(self, o), b_and(b_not(self), b_not(o)))
        if isinstance(o, (int, float, Sym)):
            return b_num(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return b_not(to_bool(r))
    __hash__ = object.__hash__

    # numeric use of booleans
    def __add__(self, o):
        return b_num(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return b_num(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return b_num(self) - o

    def __rsub__(self, o):
        return o - b_num(self)

    def __truediv__(self, o):
        return b_num(self) / o

    def __rtruediv__(self, o):
        return o / b_num(self)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __lt__(self, o):
        return b_num(self) < o

    def __le__(self, o):
        return b_num(self) <= o

    def __gt__(self, o):
        return b_num(self) > o

    def __ge__(self, o):
        return b_num(self) >= o


TRUE = SBool('c', True)
FALSE = SBool('c', False)


def b_num(b):
    return ite(b, S(1), S(0))


def to_bool(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return TRUE if x else FALSE


def b_not(b):
    if b.op == 'c':
        return FALSE if b.args else TRUE
    if b.op == 'lt':
        return SBool('le', p_neg(b.args))
    if b.op == 'le':
        return SBool('lt', p_neg(b.args))
    if b.op == 'eq':
        return SBool('ne', b.args)
    if b.op == 'ne':
        return SBool('eq', b.args)
    if b.op == 'not':
        return b.args
    if b.op == 'and':
        return b_or(*[b_not(a) for a in b.args])
    if b.op == 'or':
        return b_and(*[b_not(a) for a in b.args])
    return SBool('not', b)


def _flat(op, xs, unit, absorb):
    out = []
    seen = set()
    for x in xs:
        x = to_bool(x)
        if x.op == 'c':
            if x.args == absorb:
                return None
            continue
        for y in (x.args if x.op == op else (x,)):
            k = y.key()
            if k not in seen:
                seen.add(k)
                out.append(y)
    for y in out:
        if b_not(y).key() in seen:
            return None
    return out


def b_and(*xs):
    r = _flat('and', xs, True, False)
    if r is None:
        return FALSE
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    return SBool('and', tuple(r))


def b_or(*xs):
    r = _flat('or', xs, False, True)
    if r is None:
        return TRUE
    if not r:
        return FALSE
    if len(r) == 1:
        return r[0]
    return SBool('or', tuple(r))


def b_implies(a, b):
    return b_or(b_not(to_bool(a)), to_bool(b))


# --------------------------------------------------------------------------
# scalars

NAN = float('nan')


def isnan_(x):
    return isinstance(x, float) and x != x


class Sym:
    __slots__ = ('n', 'd', 'sos', '_k')
    __array_priority__ = 1000

    def __init__(self, n, d=ONE, sos=None):
        self.n = n
        self.d = d
        self.sos = sos
        self._k = None

    # -- basic
    def key(self):
        k = self._k
        if k is None:
            k = self._k = (p_key(self.n), p_key(self.d))
        return k

    def is_const(self):
        return self.d is ONE and p_isconst(self.n)

    def const(self):
        return p_constval(self.n)

    def atoms(self):
        return p_atoms(self.n) | p_atoms(self.d)

    @property
    def isint(self):
        if self.d is not ONE:
            return False
        for m, c in self.n.items():
            if type(c) is not int:
                return False
            for a, _ in m:
                if not ATOMS[a].isint:
                    return False
        return True

    def __repr__(self):
        if self.d is ONE:
            return 'S[%s]' % p_str(self.n)
        return 'S[(%s)/(%s)]' % (p_str(self.n), p_str(self.d))
    __hash__ = object.__hash__

    # numpy-ish attributes on scalars
    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(int) if self.isint and not self.is_const() else numpy.dtype(float)

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        k = dtype_kind(t)
        if k == 'i':
            return trunc_(self)
        return self

    def conjugate(self):
        return self

    def flatten(self):
        from . import arr
        return arr.mk([self], (1,))
    ravel = flatten

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- arithmetic
    def __add__(self, o):
        o0, o = o, lift(o)
        if o is NotImplemented:
            return _arr_fallback('add', self, o0)
        if not isinstance(o, Sym):
            return o                     # nan / inf absorbs
        if not self.n:
            return o
        if not o.n:
            return self
        r = self._add(o)
        if self.sos is not None and o.sos is not None:
            r.sos = self.sos + o.sos
        return r

    def _add(self, o):
        if self.d is o.d or self.d == o.d:
            n = p_add(self.n, o.n)
            if self.d is ONE:
                return Sym(n)
            return mk_rat(n, self.d, light=True)
        d1, d2 = self.d, o.d
        if d1 is not ONE and d2 is not ONE:
            g1 = p_mgcd(d1)
            if g1:
                g2 = p_mgcd(d2)
                g = {k: min(e, g2[k]) for k, e in g1.items() if k in g2}
                if g:
                    e1, e2 = p_mdiv(d1, g), p_mdiv(d2, g)
                    n = p_add(p_mul(self.n, e2), p_mul(o.n, e1))
                    return mk_rat(n, p_mul(d1, e2))
        n = p_add(p_mul(self.n, d2), p_mul(o.n, d1))
        return mk_rat(n, p_mul(d1, d2))

    __radd__ = __add__

    def __neg__(self):
        return Sym(p_neg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o0, o = o, lift(o)
        if o is NotImplemented:
            return _arr_fallback('sub', self, o0)
        if not isinstance(o, Sym):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o0, o = o, lift(o)
        if o is NotImplemented:
            return _arr_fallback('sub', o0, self)
        if not isinstance(o, Sym):
            return o
        return o + (-self)

    def __mul__(self, o):
        o0, o = o, lift(o)
        if o is NotImplemented:
            return _arr_fallback('mul', self, o0)
        if not isinstance(o, Sym):
            if o != o:
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return NAN
        if self.d is ONE and o.d is ONE:
            return Sym(p_mul(self.n, o.n))
        if not self.n or not o.n:
            return Sym(ZERO)
        # cross-cancel cheap cases
        n1, d1, n2, d2 = self.n, self.d, o.n, o.d
        if n1 == d2:
            n1, d2 = ONE, ONE
        if n2 == d1:
            n2, d1 = ONE, ONE
        n1, d2 = _mcancel(n1, d2)
        n2, d1 = _mcancel(n2, d1)
        return mk_rat(p_mul(n1, n2), p_mul(d1, d2))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o0, o = o, lift(o)
        if o is NotImplemented:
            return _arr_fallback('truediv', self, o0)
        if not isinstance(o, Sym):
            return o if o != o else S(0)
        return div(self, o)

    def __rtruediv__(self, o):
        o0, o = o, lift(o)
        if o is NotImplemented:
            return _arr_fallback('truediv', o0, self)
        if not isinstance(o, Sym):
            if o != o:
                return o
            return o if self > 0 else -o
        return div(o, self)

    def __floordiv__(self, o):
        o0, o = o, lift(o)
        if o is NotImplemented:
            return _arr_fallback('floordiv', self, o0)
        return floor_(self / o)

    def __rfloordiv__(self, o):
        o0, o = o, lift(o)
        if o is NotImplemented:
            return _arr_fallback('floordiv', o0, self)
        return floor_(o / self)

    def __mod__(self, o):
        o0, o = o, lift(o)
        if o is NotImplemented:
            return _arr_fallback('mod', self, o0)
        if not isinstance(o, Sym):
            return o
        q = self / o
        if isnan_(q):
            return q
        return self - o * floor_(q)

    def __rmod__(self, o):
        o0, o = o, lift(o)
        if o is NotImplemented:
            return _arr_fallback('mod', o0, self)
        return o % self

    def __divmod__(self, o):
        q = self // o
        return q, self - lift(o) * q

    def __rdivmod__(self, o):
        return divmod(lift(o), self)

    def __pow__(self, o):
        if lift(o) is NotImplemented:
            return _arr_fallback('pow', self, o)
        return pow_(self, o)

    def __rpow__(self, o):
        if lift(o) is NotImplemented:
            return _arr_fallback('pow', o, self)
        return pow_(lift(o), self)

    def __abs__(self):
        return abs_(self)

    # -- comparisons
    def __lt__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return _arr_fallback('lt', self, o)
        return cmp_('lt', self, o)

    def __le__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return _arr_fallback('le', self, o)
        return cmp_('le', self, o)

    def __gt__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return _arr_fallback('gt', self, o)
        return cmp_('gt', self, o)

    def __ge__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return _arr_fallback('ge', self, o)
        return cmp_('ge', self, o)

    def __eq__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return _arr_fallback('eq', self, o)
        return cmp_('eq', self, o)

    def __ne__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return _arr_fallback('ne', self, o)
        r = cmp_('eq', self, o)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        return b_not(r)

    # -- conversions (these concretise)
    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def __int__(self):
        t = trunc_(self)
        return concretize(t)

    def __index__(self):
        if self.is_const():
            c = self.const()
            if type(c) is int:
                return c
            raise TypeError("'float' object cannot be interpreted as an integer")
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize(self)

    def __float__(self):
        if self.is_const():
            return float(self.const())
        v = const_float(self)
        if v is not None:
            return v
        raise EngineError('float() of a symbolic value: %r' % (self,))

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return ceil_(self)

    def __trunc__(self):
        return trunc_(self)

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            return rint_(self)
        s = S(Fraction(10) ** nd)
        return rint_(self * s) / s

    def __format__(self, spec):
        return format(float(self), spec)

    def __str__(self):
        if self.is_const():
            c = self.const()
            return str(c) if type(c) is int else str(float(c))
        return repr(self)


numbers.Number.register(Sym)


def const_float(x):
    """Numeric value when x only involves constant atoms, else None."""
    for a in x.atoms():
        if not is_const_atom(ATOMS[a]):
            return None
    return eval_sym(x, {})


def _around(v):
    """Rational bounds of a constant evaluated in floating point (far wider than the error of a few operations)."""
    v, e = Fraction(v).limit_denominator(10 ** 12), Fraction(1, 10 ** 9)
    return v - e, v + e


def is_const_atom(a):
    if a.kind == 'pi':
        return True
    if a.kind in ('sqrt', 'root', 'csttrig', 'cexp', 'log10', 'log'):
        return all(is_const_atom(ATOMS[i]) for i in a.deps)
    return False


def _arr_fallback(op, a, b):
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        from . import arr
        return arr.binop(op, a, b)
    return NotImplemented


def S(x):
    """Constant or passthrough."""
    if isinstance(x, Sym):
        return x
    x = _q(x)
    return Sym({(): x} if x else ZERO)


def lift(o):
    """Lift to Sym; nan/inf floats are returned as floats."""
    t = type(o)
    if t is Sym:
        return o
    if t is int or t is Fraction:
        return S(o)
    if t is bool:
        return S(int(o))
    if t is SBool:
        return b_num(o)
    if t is float:
        if o != o or o in (math.inf, -math.inf):
            return o
        return S(Fraction(o))
    tn = t.__module__
    if tn == 'numpy':
        import numpy as np
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return lift(o.item())
            return NotImplemented
        if isinstance(o, np.generic):
            return lift(o.item())
    return NotImplemented


def _mcancel(n, d):
    if d is ONE or n is ONE:
        return n, d
    gn = p_mgcd(n)
    if gn:
        gd = p_mgcd(d)
        g = {k: min(e, gd[k]) for k, e in gn.items() if k in gd}
        if g:
            return p_mdiv(n, g), p_mdiv(d, g)
    return n, d


def mk_rat(n, d, light=False):
    """n/d with simplification (d known nonzero)."""
    if not n:
        return Sym(ZERO)
    if p_isconst(d):
        return Sym(p_scale(n, Fraction(1) / d[()]))
    if n == d:
        return Sym(ONE)
    # common monomial
    gn = p_mgcd(n)
    if gn:
        gd = p_mgcd(d)
        g = {k: min(e, gd[k]) for k, e in gn.items() if k in gd}
        if g:
            n = p_mdiv(n, g)
            d = p_mdiv(d, g)
            if p_isconst(d):
                return Sym(p_scale(n, Fraction(1) / d[()]))
    if not light or True:
        # rationalise square roots out of the denominator
        for a in sorted(p_atoms(d), reverse=True):
            if ATOMS[a].kind == 'sqrt' and a in REDUCIBLE:
                # d = d0 + d1*q
                d0, d1 = {}, {}
                for m, c in d.items():
                    dm = dict(m)
                    if a in dm:
                        del dm[a]
                        d1[tuple(sorted(dm.items()))] = c
                    else:
                        d0[m] = c
                if len(d0) + len(d1) > 60:
                    break
                q = {((a, 1),): 1}
                conj = p_sub(d0, p_mul(d1, q))
                if d0 and not conj:
                    break
                if not d0:
                    if p_isconst(REDUCIBLE[a][1]):
                        n = p_mul(n, q)
                        d = p_mul(d, q)
                        if p_isconst(d):
                            return Sym(p_scale(n, Fraction(1) / d[()]))
                    continue
                nd = p_mul(d, conj)
                if not nd:
                    break
                n = p_mul(n, conj)
                d = nd
                if p_isconst(d):
                    return Sym(p_scale(n, Fraction(1) / d[()]))
        # canonical scaling: monic leading coefficient
        lm = max(d, key=_mkey)
        c = d[lm]
        if c != 1:
            inv = Fraction(1) / c
            n = p_scale(n, inv)
            d = p_scale(d, inv)
        if n == d:
            return Sym(ONE)
        gn = p_mgcd(n)
        if gn:
            gd = p_mgcd(d)
            g = {k: min(e, gd[k]) for k, e in gn.items() if k in gd}
            if g:
                n = p_mdiv(n, g)
                d = p_mdiv(d, g)
                if p_isconst(d):
                    return Sym(p_scale(n, Fraction(1) / d[()]))
        if len(n) >= 1:
            qd = p_exactdiv(n, d)
            if qd is not None:
                return Sym(qd)
            if len(n) > 1 and len(d) > 1 and len(n) <= len(d):
                qd = p_exactdiv(d, n)
                if qd is not None:
                    return mk_rat(ONE, qd) if len(qd) < len(d) else Sym(ONE, qd)
    return Sym(n, d)


def div(a, b):
    if not b.n:
        # exact zero division
        return _divzero(a)
    if b.is_const():
        return Sym(p_scale(a.n, Fraction(1) / b.const()), a.d)
    sg = p_sign_quick(b.n)
    if sg not in ('+', '-'):
        if bool(SBool('eq', b.n) if not p_isconst(b.n) else FALSE) if _has_ctx() else False:
            return _divzero(a)
    if a.n == b.n:
        return mk_rat(b.d, a.d) if a.d is not b.d and a.d != b.d else Sym(ONE)
    if a.d is b.d or a.d == b.d:
        return mk_rat(a.n, b.n)
    return mk_rat(p_mul(a.n, b.d), p_mul(a.d, b.n))


def _divzero(a):
    if _has_ctx() and cur().zero_div_raises:
        raise ZeroDivisionError('division by zero')
    if a.is_const():
        c = a.const()
        return NAN if c == 0 else (math.inf if c > 0 else -math.inf)
    if bool(a > 0):
        return math.inf
    if bool(a < 0):
        return -math.inf
    return NAN


# --------------------------------------------------------------------------
# comparisons

def cmp_(op, a, b):
    b = lift(b)
    if b is NotImplemented:
        return b
    if not isinstance(b, Sym):
        if b != b:
            return FALSE
        if op == 'eq':
            return FALSE
        pos = b > 0
        return TRUE if (op in ('lt', 'le')) == pos else FALSE
    d = a - b
    if not isinstance(d, Sym):
        return FALSE
    if op == 'gt':
        d, op = -d, 'lt'
    elif op == 'ge':
        d, op = -d, 'le'
    return rel(op, d)


def rel(op, d):
    """d op 0 -> SBool"""
    n = d.n
    if d.d is not ONE and op != 'eq':
        sg = sign_of_poly(d.d)
        if sg < 0:
            n = p_neg(n)
    return lit(op, n)


def sign_of_poly(p):
    s = p_sign_quick(p)
    if s in ('+', '>='):
        return 1       # known nonzero by construction of the quotient
    if s in ('-', '<='):
        return -1
    b = lit('lt', p)
    return -1 if bool(b) else 1


_LIT = {}


def lit(op, p):
    if p_isconst(p):
        c = p_constval(p)
        r = (c < 0) if op == 'lt' else (c <= 0) if op == 'le' else (c == 0) if op == 'eq' else (c != 0)
        return TRUE if r else FALSE
    k = (op, p_key(p))
    r = _LIT.get(k)
    if r is None:
        n0 = cur().ndec if _has_ctx() else 0
        r = _lit(op, p)
        if not _has_ctx() or cur().ndec == n0:
            _LIT[k] = r
    return r


def _lit(op, p):
    # cancel monomial factors of known sign
    g = p_mgcd(p)
    if g:
        pos = {a: e for a, e in g.items() if _atom_pos(a)}
        if pos:
            p = p_mdiv(p, pos)
            if p_isconst(p):
                return lit(op, p)
        if op in ('eq', 'ne'):
            g = p_mgcd(p)
            if g:
                # product of atoms times cofactor
                q = p_mdiv(p, g)
                facs = [lit('eq', {((a, 1),): 1}) if len(q) or True else None for a in g] if not (len(p) == 1 and len(g) == 1) else None
                if facs is not None:
                    r = b_or(lit('eq', q) if not p_isconst(q) else FALSE, *facs)
                    return r if op == 'eq' else b_not(r)
    c = p_content(p)
    if op in ('eq', 'ne'):
        lm = max(p, key=_mkey)
        if p[lm] < 0:
            c = -c
    if c != 1:
        p = p_scale(p, Fraction(1) / c)
    r = _special(op, p)
    if r is not None:
        return r
    if op in ('lt', 'le'):
        s = p_sign_quick(p)
        if s == '+':
            return FALSE
        if s == '-':
            return TRUE
        if s == '>=' and op == 'lt':
            return FALSE
        if s == '<=' and op == 'le':
            return TRUE
    elif op in ('eq', 'ne'):
        s = p_sign_quick(p)
        if s in ('+', '-'):
            return FALSE if op == 'eq' else TRUE
        s = None
        # integrality: sum of int terms with int coefs + non-integer constant
        cc = p.get((), 0)
        if type(cc) is not int:
            pass
        if all(ATOMS[a].isint for m in p for a, _ in m):
            # p is scaled to integer coefficients
            gg = 0
            for m, v in p.items():
                if m:
                    gg = math.gcd(gg, v)
            if gg and p.get((), 0) % gg:
                return FALSE if op == 'eq' else TRUE
    if op in ('lt', 'le') and all(ATOMS[a].isint for m in p for a, _ in m):
        # integer-valued polynomial: normalise to 'le' with tightened constant
        gg = 0
        for m, v in p.items():
            if m:
                gg = math.gcd(gg, v)
        c0 = p.get((), 0)
        if op == 'lt':
            c0 = c0 + 1
        # gg*X + c0 <= 0  <=>  X <= floor(-c0/gg)
        b = (-c0) // gg
        np_ = {m: v // gg for m, v in p.items() if m}
        if b:
            np_[()] = -b
        p, op = np_, 'le'
    if op == 'ne':
        return SBool('ne', p)
    return SBool(op, p)


def _special_atan2(op, p):
    """c * atan2(y, x) + (rational angle + multiple of pi) op 0, rational angle not zero."""
    hit, pi = None, Fraction(0)
    for m, c in p.items():
        if not m:
            continue
        if m == ((_pi.id, 1),):
            pi = Fraction(c)
        elif hit is None and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'atan2':
            hit = ATOMS[m[0][0]], Fraction(c)
        else:
            return None
    if hit is None:
        return None
    a, c1 = hit
    f, k = -Fraction(p[()]) / c1, -pi / c1
    v = float(f) + float(k) * math.pi           # a is compared with v
    up = c1 > 0                                 # up: a op v, otherwise v op a
    if abs(v) > 3.14159:
        return None
    y, x = a.data
    cb, sb = cossin(S(f) + S(k) * PI)
    cross = x * sb - y * cb                     # |r| sin(v - a)
    if v > 0:
        r = b_or(y < 0, cross > 0, b_and(x == 0, y == 0))       # a < v
    else:
        r = b_and(y < 0, cross > 0)
    # a = v exactly is left to either side: v is no float, and only reals are lost
    return r if up else b_not(r)


def _special(op, p):
    """Rewrite comparisons of floor / atan2 / arccos atoms with constants."""
    if op in ('lt', 'le') and len(p) in (2, 3) and p.get((), 0) and len([m for m in p if m and any(ATOMS[i].kind == 'atan2' for i, _ in m)]) == 1:
        r = _special_atan2(op, p)
        if r is not None:
            return r
    if len(p) > 2:
        r = _special_acos(op, p)
        return r
    ms = [m for m in p if m]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
        a = ATOMS[ms[0][0][0]]
        c1 = p[ms[0]]
        c0 = p.get((), 0)
        if a.kind == 'floor':
            # c1*k + c0 op 0
            e = a.data
            t = Fraction(-c0) / c1          # k op t (sense by sign c1)
            if op in ('eq', 'ne'):
                if t.denominator != 1:
                    return FALSE if op == 'eq' else TRUE
                t = t.numerator
                r = b_and(e >= t, e < t + 1)
                return r if op == 'eq' else b_not(r)
            if c1 > 0:
                if op == 'lt':              # k < t <=> k <= ceil(t)-1 <=> e < ceil(t)
                    return e < S(math.ceil(t))
                return e < S(math.floor(t) + 1)
            else:
                if op == 'lt':              # k > t <=> k >= floor(t)+1
                    return e >= S(math.floor(t) + 1)
                return e >= S(math.ceil(t))
        if a.kind == 'atan2' and c0 == 0:
            y, x = a.data
            if op in ('eq', 'ne'):
                r = b_and(y == 0, x > 0)
                return r if op == 'eq' else b_not(r)
            if c1 > 0:
                return (y < 0) if op == 'lt' else b_or(y < 0, b_and(y == 0, x > 0))
            return b_or(y > 0, b_and(y == 0, x < 0)) if op == 'lt' else (y >= 0)
        if a.kind in ('sqrt', 'root') and c0 == 0:
            pass
        if a.kind == 'sqrt':
            # c1*q + c0 op 0
            R = a.data
            t = Fraction(-c0) / c1
            if op in ('eq', 'ne'):
                if t < 0:
                    return FALSE if op == 'eq' else TRUE
                return rel('eq', R - S(t * t)) if op == 'eq' else b_not(rel('eq', R - S(t * t)))
            if c1 > 0:    # q op t
                if t < 0 or (t == 0 and op == 'lt'):
                    return FALSE
                return rel(op, R - S(t * t))
            else:         # q (> / >=) t
                if t < 0:
                    return TRUE
                if t == 0:
                    return TRUE if op == 'le' else rel('lt', -R)
                return rel(op, S(t * t) - R)
    return _special_acos(op, p)


def _special_acos(op, p):
    """(+-) arccos(z) + B op 0 with B a linear angle expression in [0, pi]."""
    if op in ('eq', 'ne') or len(p) > 8:
        return None
    hit = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'acos':
                if hit is not None and ATOMS[hit[0][0][0]].id > a.id:
                    continue
                hit = (m, c)
    if hit is None:
        return None
    m, c = hit
    if len([1 for mm in p if any(ATOMS[a].kind == 'floor' for a, _ in mm)]):
        return None
    z = ATOMS[m[0][0]].data
    rest = {k: Fraction(-v) / c for k, v in p.items() if k != m}   # acos op' rest
    B = Sym({k: _q(v) for k, v in rest.items()})
    lo, hi = p_bounds(B.n)
    # B must lie in [0, pi] statically
    bl, bh = p_sign_quick(B.n), p_sign_quick(p_sub(PI.n, B.n))
    if not B.n:
        bl = '0'
    if bl == '-':       # acos > B always
        return (TRUE if c < 0 else FALSE)
    if bh == '-':
        return (FALSE if c < 0 else TRUE)
    if bl not in ('+', '0', '>=') or bh not in ('+', '0', '>='):
        return None
    if B.n == PI.n and op == ('lt' if c < 0 else 'le'):
        return TRUE if c > 0 else FALSE
    if not B.n and op == ('lt' if c > 0 else 'le'):
        return TRUE if c < 0 else FALSE
    try:
        cb = cos_(B)
    except EngineError:
        return None
    # acos(z) < B  <=>  z > cos B ;  c>0: acos op B ; c<0: acos (>,>=) B
    if c > 0:
        return rel(op, cb - z)
    return rel(op, z - cb)


# --------------------------------------------------------------------------
# ite

def ite(c, a, b):
    """Conditional value; forks the path (no ite terms are ever built)."""
    c = to_bool(c)
    return a if bool(c) else b


def subst_atom(x, aid, val):
    """Substitute atom by Sym value in x (top level polynomials only)."""
    def sub(p):
        r = S(0)
        for m, c in p.items():
            e = 0
            rest = []
            for a, k in m:
                if a == aid:
                    e = k
                else:
                    rest.append((a, k))
            t = Sym({tuple(rest): c})
            for _ in range(e):
                t = t * val
            r = r + t
        return r
    n = sub(x.n)
    if x.d is ONE:
        return n
    return n / sub(x.d)


def resolve_ites(x):
    """Replace ite atoms whose condition is known on the current path."""
    if not isinstance(x, Sym) or not _has_ctx():
        return x
    changed = True
    while changed:
        changed = False
        for aid in x.atoms():
            a = ATOMS[aid]
            if a.kind == 'ite':
                k = cur().known(a.data[0])
                if k is not None:
                    x = subst_atom(x, aid, a.data[1] if k else a.data[2])
                    changed = True
                    break
    return x


def through_ite(f, x):
    """Apply f to x pushing it through ite atoms; None when x has no ite."""
    x = resolve_ites(x)
    for aid in sorted(x.atoms(), reverse=True):
        a = ATOMS[aid]
        if a.kind == 'ite':
            c, u, v = a.data
            ctx = cur()
            with ctx.guarded(c) as g1:
                fu = None
                if g1.live:
                    fu = g1.run(lambda: f(subst_atom(x, aid, u)))
            with ctx.guarded(b_not(c)) as g2:
                fv = None
                if g2.live:
                    fv = g2.run(lambda: f(subst_atom(x, aid, v)))
            if fu is None:
                return fv
            if fv is None:
                return fu
            return ite(c, fu, fv)
    return None


def has_ite(x):
    return any(ATOMS[a].kind == 'ite' for a in x.atoms())


# --------------------------------------------------------------------------
# constants

_pi = new_atom('pi', 'pi', 'PI', lo=Fraction(31415926535897932, 10 ** 16),
               hi=Fraction(31415926535897933, 10 ** 16))
PI = Sym({((_pi.id, 1),): 1})


def floor_(x):
    if not isinstance(x, Sym):
        x = lift(x)
        if not isinstance(x, Sym):
            return x
    if x.is_const():
        return S(math.floor(x.const()))
    if x.isint:
        return x
    v = const_float(x)
    if v is not None:
        f = math.floor(v)
        if abs(v - round(v)) > 1e-9:
            return S(f)
    if has_ite(x):
        r = through_ite(floor_, x)
        if r is not None:
            return r
    if x.d is ONE:
        ip, fp = {}, {}
        for m, c in x.n.items():
            if all(ATOMS[a].isint for a, _ in m):
                ci = math.floor(c)
                if ci:
                    ip[m] = ci
                if c - ci:
                    fp[m] = _q(c - ci)
            else:
                fp[m] = c
        if not fp:
            return Sym(ip)
        e = Sym(fp)
        if ip:
            return Sym(ip) + floor_(e)
    else:
        # split off the integer part of the polynomial quotient when cheap
        e = x
    lo, hi = p_bounds(e.n) if e.d is ONE else (None, None)
    if lo is not None and hi is not None and math.floor(lo) == math.floor(hi):
        return S(math.floor(lo))
    at = new_atom('floor', e.key(), 'fl%d' % len(ATOMS), e, isint=True,
                  lo=None if lo is None else math.floor(lo),
                  hi=None if hi is None else math.floor(hi), deps=e.atoms())
    return Sym({((at.id, 1),): 1})


def ceil_(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return x
    return -floor_(-x)


def trunc_(x):
    x = lift(x)
    if not isinstance(x, Sym):
        raise ValueError('cannot convert float NaN to integer') if x != x else OverflowError('cannot convert float infinity to integer')
    if x.isint:
        return x
    if x.is_const():
        return S(math.trunc(x.const()))
    if has_ite(x):
        r = through_ite(trunc_, x)
        if r is not None:
            return r
    if bool(x >= 0):
        return floor_(x)
    return -floor_(-x)


def rint_(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return x
    if x.isint:
        return x
    if x.is_const():
        return S(round(x.const()))
    r = floor_(x + S(Fraction(1, 2)))
    if bool(x + S(Fraction(1, 2)) == r):
        # tie: half to even
        if bool(r - 2 * floor_(r / 2) == 1):
            r = r - 1
    return r


def abs_(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return abs(x)
    if x.is_const():
        return S(abs(x.const()))
    if has_ite(x):
        r = through_ite(abs_, x)
        if r is not None:
            return r
    if bool(x < 0):
        return -x
    return x


def sign_(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return x if x != x else S(1 if x > 0 else -1)
    if has_ite(x):
        r = through_ite(sign_, x)
        if r is not None:
            return r
    if bool(x < 0):
        return S(-1)
    if bool(x > 0):
        return S(1)
    return S(0)


def max_(a, b):
    a, b = lift(a), lift(b)
    if isnan_(a) or isnan_(b):
        return NAN
    return a if bool(a >= b) else b


def min_(a, b):
    a, b = lift(a), lift(b)
    if isnan_(a) or isnan_(b):
        return NAN
    return a if bool(a <= b) else b


def concretize(x):
    """Concretise an integer Sym on the current path by forking."""
    x = resolve_ites(lift(x))
    if x.is_const():
        return int(x.const())
    return cur().concretize(x)


# --------------------------------------------------------------------------
# square roots

def _isqrt_frac(c):
    """exact sqrt of nonneg rational or None"""
    c = Fraction(c)
    n, d = c.numerator, c.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def _sqfree(n):
    """n = s*s*r with r squarefree-ish (small primes)."""
    s = 1
    for p in (2, 3, 5, 7, 11, 13):
        while n % (p * p) == 0:
            n //= p * p
            s *= p
    k = math.isqrt(n)
    if k * k == n:
        return s * k, 1
    return s, n


TRIG_OF_COS = {}      # cos atom id -> sin atom id
TRIG_OF_SIN = {}


def sqrt_(x):
    x = lift(x)
    if not isinstance(x, Sym):
        if x != x or x < 0:
            return NAN
        return x
    if has_ite(x):
        r = through_ite(sqrt_, x)
        if r is not None:
            return r
    if x.sos is not None and _has_ctx():
        cur().note_sos(x)
    if x.is_const():
        c = Fraction(x.const())
        if c < 0:
            return NAN
        r = _isqrt_frac(c)
        if r is not None:
            return S(r)
        # sqrt(n/d) = sqrt(n*d)/d
        s, r = _sqfree(c.numerator * c.denominator)
        return S(Fraction(s, c.denominator)) * _sqrt_atom({(): r})
    if _has_ctx() and cur().known_zero(x.n):
        return S(0)
    if x.sos is None:
        if bool(x < 0) if not _nonneg_fact(x) else False:
            return NAN
    n, d = x.n, x.d
    if d is not ONE:
        sg = sign_of_poly(d)
        if sg < 0:
            n, d = p_neg(n), p_neg(d)
        den = Sym(d)
        return _sqrt_poly(p_mul(n, d)) / den
    return _sqrt_poly(n)


def _nonneg_fact(x):
    if not _has_ctx():
        return False
    return cur().nonneg_known(x)


def _sqrt_poly(n):
    """sqrt of polynomial assumed >= 0; pulls out squares."""
    out = S(1)
    if not n:
        return S(0)
    for _ in range(6):
        c = p_content(n)
        # rational content
        if c != 1:
            n = p_scale(n, Fraction(1) / c)
            s, r = _sqfree(c.numerator * c.denominator)
            out = out * S(Fraction(s, c.denominator))
            if r != 1:
                n = p_scale(n, r)
                # keep r inside (avoid endless loop)
                extra = r
            else:
                extra = 1
        else:
            extra = 1
        if p_isconst(n):
            break
        # monomial squares
        g = p_mgcd(n)
        sq = {a: (e // 2) * 2 for a, e in g.items() if e >= 2}
        if sq:
            n = p_mdiv(n, sq)
            f = S(1)
            for a, e in sq.items():
                f = f * Sym({((a, e // 2),): 1})
            out = out * abs_(f)
            continue
        # trig squares: rewrite cos^2 -> 1 - sin^2 and look for sin^2 factor
        done = False
        for a in sorted(p_atoms(n)):
            s = TRIG_OF_COS.get(a)
            if s is None:
                continue
            rw = _cos_to_sin(n, a, s)
            if rw is None:
                continue
            g = p_mgcd(rw)
            if g.get(s, 0) >= 2:
                e = (g[s] // 2) * 2
                rest = p_mdiv(rw, {s: e})
                # back to normal form (reduce s^2)
                n = p_mul(rest, ONE) if not any(x[0] == s and x[1] >= 2 for m in rest for x in m) else _renorm(rest)
                out = out * abs_(Sym({((s, e // 2),): 1}))
                done = True
                break
        if done:
            continue
        if extra == 1 or len(n) > 1:
            r = _poly_sqrt(n)
            if r is not None:
                return out * abs_(Sym(r))
        break
    if p_isconst(n):
        c = p_constval(n)
        r = _isqrt_frac(c)
        if r is not None:
            return out * S(r)
    return out * _sqrt_atom(n)


def _renorm(p):
    r = {}
    for m, c in p.items():
        rd = m_reduce(m)
        r = p_add(r, {m: c} if rd is None else p_scale(rd, c))
    return r


def _cos_to_sin(n, c, s):
    """Rewrite even powers of cos atom c via 1 - s^2 (unreduced in s)."""
    out = {}
    for m, cf in n.items():
        e = 0
        rest = []
        for a, k in m:
            if a == c:
                e = k
            else:
                rest.append((a, k))
        if e % 2:
            # allowed: keep a single power
            pass
        h = e // 2
        base = [x for x in rest]
        if e % 2:
            base.append((c, 1))
        base = tuple(sorted(base))
        # (1 - s^2)^h expanded without reduction
        for j in range(h + 1):
            coef = cf * math.comb(h, j) * (-1) ** j
            mm = m_mul(base, ((s, 2 * j),)) if j else base
            v = out.get(mm, 0) + coef
            if v:
                out[mm] = v
            else:
                out.pop(mm, None)
    return out


def _poly_sqrt(n):
    """Polynomial r with r*r == n (plain arithmetic), or None."""
    if len(n) > 200 or len(n) < 3:
        return None
    lm = max(n, key=_mkey)
    if any(e % 2 for _, e in lm):
        return None
    c = _isqrt_frac(n[lm]) if n[lm] > 0 else None
    if c is None:
        return None
    h = tuple((a, e // 2) for a, e in lm)
    r = {h: _q(c)}
    dh = dict(h)
    rem = p_sub(n, _plainmul(r, r))
    for _ in range(60):
        if not rem:
            return r
        la = max(rem, key=_mkey)
        dla = dict(la)
        for k, e in dh.items():
            if dla.get(k, 0) < e:
                return None
        t = {m_div(la, dh): _q(Fraction(rem[la]) / (2 * c))}
        # rem -= 2 r t + t^2
        rem = p_sub(rem, p_add(p_scale(_plainmul(r, t), 2), _plainmul(t, t)))
        r = p_add(r, t)
    return None


def _plainmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = _q(r.get(m, 0) + c1 * c2)
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _sqrt_atom(n):
    if p_isconst(n) and Fraction(n[()]).denominator == 1:
        # one atom per small prime: equal numbers get equal forms
        r, out = int(n[()]), None
        for q in (2, 3, 5, 7, 11, 13):
            if r % q == 0 and r != q:
                t = _sqrt_atom({(): q})
                out = t if out is None else out * t
                r //= q
        if out is not None:
            return out if r == 1 else out * _sqrt_atom({(): r})
    k = p_key(n)
    x = Sym(n)
    lo, hi = p_bounds(n)
    import math as _m

    def sq(v, up):
        if v is None:
            return None
        v = Fraction(v)
        if v <= 0:
            return Fraction(0)
        sc = 10 ** 12
        r = Fraction(_m.isqrt(int(v * sc * sc)), sc)
        return r + Fraction(1, sc) if up else r
    lo_ = sq(lo, False) if lo is not None else Fraction(0)
    hi_ = sq(hi, True) if hi is not None else None
    at = new_atom('sqrt', k, 'sq%d' % len(ATOMS), x, lo=_q(lo_), hi=hi_, deps=p_atoms(n))
    if p_isconst(n):
        at.name = 'sqrt(%s)' % n[()]
    if at.lo == 0 and lo is not None and lo > 0:
        at.lostrict = True
    if at.id not in REDUCIBLE:
        REDUCIBLE[at.id] = (2, n)
    return Sym({((at.id, 1),): 1})


def root_(x, k):
    """real k-th root (k odd or x >= 0)"""
    x = lift(x)
    if not isinstance(x, Sym):
        return x
    if k == 2:
        return sqrt_(x)
    if x.is_const():
        c = Fraction(x.const())
        if c == 0:
            return S(0)
        if c > 0:
            a = round(c.numerator ** (1.0 / k))
            b = round(c.denominator ** (1.0 / k))
            if a ** k == c.numerator and b ** k == c.denominator:
                return S(Fraction(a, b))
    if bool(x < 0):
        return NAN
    if x.d is not ONE:
        # canonical: root(n/d) as its own atom
        pass
    # pull out k-th powers of monomials with known-nonneg atoms
    n, d = x.n, x.d
    out = S(1)
    if d is ONE:
        g = p_mgcd(n)
        pw = {a: (e // k) * k for a, e in g.items() if e >= k and p_sign_quick({((a, 1),): 1}) in ('+', '>=')}
        if pw:
            n = p_mdiv(n, pw)
            for a, e in pw.items():
                out = out * Sym({((a, e // k),): 1})
            if n == ONE:
                return out
    e = Sym(n, d)
    lo, hi = p_bounds(n) if d is ONE else (None, None)
    at = new_atom('root', (k, e.key()), 'rt%d_%d' % (k, len(ATOMS)), (e, k), lo=0,
                  hi=None if hi is None else Fraction(int((float(max(hi, 0)) ** (1.0 / k)) * 10 ** 9) + 2, 10 ** 9),
                  deps=e.atoms())
    if d is ONE and at.id not in REDUCIBLE:
        REDUCIBLE[at.id] = (k, n)
    return out * Sym({((at.id, 1),): 1})


def pow_(a, b):
    a, b = lift(a), lift(b)
    if a is NotImplemented or b is NotImplemented:
        return NotImplemented
    if not isinstance(a, Sym):
        return a
    if not isinstance(b, Sym):
        return b
    if not b.is_const():
        b = resolve_ites(b)
    if not b.is_const():
        if b.isint:
            b = S(concretize(b))
        elif a.is_const() and a.const() == 10:
            return exp10_(b)
        else:
            raise EngineError('symbolic exponent')
    e = Fraction(b.const())
    if e.denominator == 1:
        k = e.numerator
        if k >= 0:
            r = S(1)
            if a.d is ONE:
                r = Sym(p_pow(a.n, k))
            else:
                for _ in range(k):
                    r = r * a
            if k == 2:
                r.sos = (a,)
            return r
        return S(1) / pow_(a, S(-k))
    r = root_(a, e.denominator)
    if isnan_(r):
        return r
    return pow_(r, S(e.numerator))


# --------------------------------------------------------------------------
# trigonometry

def angle_var(name, lo, hi, lostrict=False, histrict=False):
    """A symbolic angle variable with attached (cos, sin) atoms."""
    at = new_atom('var', name, name, {'angle': True}, lo=lo, hi=hi, lostrict=lostrict, histrict=histrict)
    _trig_atoms(at)
    return Sym({((at.id, 1),): 1})


def _trig_atoms(at):
    c = new_atom('cos', at.id, 'cos(%s)' % at.name, at.id, lo=-1, hi=1, deps=(at.id,))
    s = new_atom('sin', at.id, 'sin(%s)' % at.name, at.id, lo=-1, hi=1, deps=(at.id,))
    if s.id not in REDUCIBLE:
        REDUCIBLE[s.id] = (2, {(): 1, ((c.id, 2),): -1})
        TRIG_OF_COS[c.id] = s.id
        TRIG_OF_SIN[s.id] = c.id
    return (Sym({((c.id, 1),): 1}), Sym({((s.id, 1),): 1}))


def _cs_of_const_pi(f):
    """cos/sin of f*pi for rational f (exact where algebraic and simple)."""
    f = f % 2
    # reduce to [0, 1/2]
    sc = ss = 1
    if f > 1:
        f = 2 - f
        ss = -1
    if f > Fraction(1, 2):
        f = 1 - f
        sc = -1
    if f == 0:
        c, s = S(1), S(0)
    elif f == Fraction(1, 2):
        c, s = S(0), S(1)
    elif f == Fraction(1, 4):
        c = s = sqrt_(S(2)) / 2
    elif f == Fraction(1, 3):
        c, s = S(Fraction(1, 2)), sqrt_(S(3)) / 2
    elif f == Fraction(1, 6):
        c, s = sqrt_(S(3)) / 2, S(Fraction(1, 2))
    elif 120 % f.denominator == 0:
        c, s = _cs_120(int(f * 120))
    elif f > Fraction(1, 4):
        s, c = _cst_trig(Fraction(1, 2) - f)
    else:
        c, s = _cst_trig(f)
    return sc * c, ss * s


_C120 = {}


def _cs_120(k):
    """cos and sin of k pi/120, exact, from pi/8, pi/12 and pi/5."""
    r = _C120.get(k)
    if r is None:
        for _, a, b, c in sorted((abs(a) + abs(b) + abs(c), a, b, c) for a in range(-7, 8) for b in range(-11, 12) for c in range(-4, 5)):
            if 15 * a + 10 * b + 24 * c == k:
                break
        C, Sn = S(1), S(0)
        for n, g in ((a, _cs_8), (b, _cs_12), (c, _cs_5)):
            if n:
                cc, ss = g()
                if n < 0:
                    ss = -ss
                for _ in range(abs(n)):
                    C, Sn = C * cc - Sn * ss, Sn * cc + C * ss
        r = _C120[k] = (C, Sn)
    return r


def _cs_12():
    r2, r6 = sqrt_(S(2)), sqrt_(S(6))
    return (r6 + r2) / 4, (r6 - r2) / 4


def _cs_8():
    c, _ = _cst_trig(Fraction(1, 8), {(): 2, ((next(iter(sqrt_(S(2)).n))[0][0], 1),): 1}, 4)
    return c, c * (sqrt_(S(2)) - 1)


def _cs_5():
    c, s = (1 + sqrt_(S(5))) / 4, None
    a = new_atom('csttrig', ('s', Fraction(1, 5)), 'sin(1/5 pi)', ('s', Fraction(1, 5)), lo=_trig_bound('s', Fraction(1, 5), False), hi=_trig_bound('s', Fraction(1, 5), True))
    REDUCIBLE.setdefault(a.id, (2, {(): Fraction(5, 8), ((next(iter(sqrt_(S(5)).n))[0][0], 1),): Fraction(-1, 8)}))
    return c, Sym({((a.id, 1),): 1})


def _trig_bound(k, N, up):
    import mpmath
    mpmath.mp.dps = 40
    v = (mpmath.cos if k == 'c' else mpmath.sin)(mpmath.pi * N.numerator / N.denominator)
    return Fraction(int(mpmath.floor(v * 10 ** 25)) + (1 if up else 0), 10 ** 25)


def _cst_trig(N, sq=None, den=1):
    """cos and sin of N*pi as constants with tight bounds (and s^2 = 1 - c^2; c^2 = sq/den where given)."""
    import mpmath
    mpmath.mp.dps = 40
    vc = mpmath.cos(mpmath.pi * N.numerator / N.denominator)
    vs = mpmath.sin(mpmath.pi * N.numerator / N.denominator)
    sc = 10 ** 25

    def rat(v, up):
        k = int(mpmath.floor(v * sc))
        return Fraction(k + (1 if up else 0), sc)
    c = new_atom('csttrig', ('c', N), 'cos(%s pi)' % N, ('c', N), lo=rat(vc, False), hi=rat(vc, True))
    if sq is not None:
        REDUCIBLE.setdefault(c.id, (2, {m: Fraction(v) / den for m, v in sq.items()}))
        return Sym({((c.id, 1),): 1}), None
    s = new_atom('csttrig', ('s', N), 'sin(%s pi)' % N, ('s', N), lo=rat(vs, False), hi=rat(vs, True))
    REDUCIBLE.setdefault(s.id, (2, {(): 1, ((c.id, 2),): -1}))
    return Sym({((c.id, 1),): 1}), Sym({((s.id, 1),): 1})


def cs_of_rat(v):
    """cos/sin of a rational (radian) constant: opaque numeric atoms."""
    import mpmath
    mpmath.mp.dps = 40
    sc = 10 ** 25
    out = []
    for nm, fn in (('c', mpmath.cos), ('s', mpmath.sin)):
        val = fn(mpmath.mpf(v.numerator) / v.denominator)
        k = int(mpmath.floor(val * sc))
        out.append(new_atom('csttrig', (nm, 'rad', v), '%s(%s)' % (nm, v), (nm, 'rad', v),
                            lo=Fraction(k, sc), hi=Fraction(k + 1, sc)))
    c, s = out
    REDUCIBLE.setdefault(s.id, (2, {(): 1, ((c.id, 2),): -1}))
    return Sym({((c.id, 1),): 1}), Sym({((s.id, 1),): 1})


def cossin(x):
    """(cos x, sin x) for a linear combination of angle atoms, PI and constants."""
    x = lift(x)
    if not isinstance(x, Sym):
        return NAN, NAN
    if x.d is not ONE:
        raise EngineError('trigonometric function of a rational expression %r' % (x,))
    C, Sn = S(1), S(0)
    for m, c in sorted(x.n.items(), key=lambda t: t[0]):
        if m == ():
            cc, ss = cs_of_rat(Fraction(c))
        elif m == ((_pi.id, 1),):
            cc, ss = _cs_of_const_pi(Fraction(c))
        elif len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            k = Fraction(c)
            if k.denominator != 1:
                cb, sb = _cs_atom_frac(a, k.denominator)
            else:
                cb, sb = _cs_atom(a)
            if isnan_(cb):
                return NAN, NAN
            cc, ss = _multi(cb, sb, k.numerator)
        elif len(m) == 2 and any(a == _pi.id and e == 1 for a, e in m) and all(e == 1 for _, e in m):
            oth = [a for a, e in m if a != _pi.id][0]
            at = ATOMS[oth]
            if not at.isint:
                # PI * real variable: treat product as an angle atom
                cb, sb = _cs_generic(Sym({m: c}))
                cc, ss = cb, sb
            else:
                c = Fraction(c)
                if (c / 2).denominator == 1:
                    cc, ss = S(1), S(0)
                else:
                    # k*c*pi with integer k: only k mod 2/c matters; concretise
                    kv = concretize(Sym({((oth, 1),): 1}))
                    cc, ss = _cs_of_const_pi(c * kv)
        else:
            cc, ss = _cs_generic(Sym({m: c}))
        C, Sn = C * cc - Sn * ss, Sn * cc + C * ss
    return C, Sn


def _cs_generic(t):
    """opaque angle for a non-linear monomial term t (e.g. pi*u): angle atom := t."""
    n, c = list(t.n.items())[0]
    sgn = 1
    if c < 0:
        sgn = -1
        t = -t
    lo, hi = p_bounds(t.n)
    at = new_atom('aexpr', t.key(), 'ang%d' % len(ATOMS), t, lo=lo, hi=hi, deps=t.atoms())
    cb, sb = _trig_atoms(at)
    return cb, (sb if sgn > 0 else -sb)


def _multi(c, s, k):
    neg = k < 0
    k = abs(k)
    C, Sn = S(1), S(0)
    for _ in range(k):
        C, Sn = C * c - Sn * s, Sn * c + C * s
    return (C, -Sn) if neg else (C, Sn)


def _cs_atom(a):
    if a.kind in ('var', 'aexpr', 'opaque'):
        return _trig_atoms(a)
    if a.kind == 'atan2':
        y, x = a.data
        h = sqrt_(_sos2(x, y))
        if _has_ctx():
            cur().mark_positive(h)      # the atan2 atom exists only off the origin
        return x / h, y / h
    if a.kind == 'acos':
        z = a.data
        w = S(1) - z * z
        return z, sqrt_known(w)
    if a.kind == 'floor':
        kv = concretize(Sym({((a.id, 1),): 1}))
        return cs_of_rat(Fraction(kv))
    if a.kind in ('sqrt', 'root', 'csttrig', 'log10', 'log', 'exp', 'exp10'):
        return _trig_atoms(a)
    if a.kind == 'ite':
        raise EngineError('ite inside trig')
    raise EngineError('trig of atom kind ' + a.kind)


def _cs_atom_frac(a, den):
    """cos/sin of a/den: a new angle atom h with a = den*h."""
    t = Sym({((a.id, 1),): Fraction(1, den)})
    at = new_atom('aexpr', t.key(), '(%s/%d)' % (a.name, den), t, deps=(a.id,))
    at.lo = None if a.lo is None else Fraction(a.lo) / den
    at.hi = None if a.hi is None else Fraction(a.hi) / den
    return _trig_atoms(at)


def _sos2(x, y):
    r = x * x + y * y
    if isinstance(r, Sym):
        r.sos = (x, y)
    return r


def sqrt_known(w):
    """sqrt of a quantity known >= 0 by construction."""
    w = lift(w)
    w = Sym(w.n, w.d, sos=())
    return sqrt_(w)


def cos_(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return NAN
    if has_ite(x):
        r = through_ite(cos_, x)
        if r is not None:
            return r
    return cossin(x)[0]


def sin_(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return NAN
    if has_ite(x):
        r = through_ite(sin_, x)
        if r is not None:
            return r
    return cossin(x)[1]


def tan_(x):
    return sin_(x) / cos_(x)


def atan2_(y, x):
    y, x = lift(y), lift(x)
    if not isinstance(y, Sym) or not isinstance(x, Sym):
        return NAN
    if has_ite(y):
        r = through_ite(lambda t: atan2_(t, x), y)
        if r is not None:
            return r
    if has_ite(x):
        r = through_ite(lambda t: atan2_(y, t), x)
        if r is not None:
            return r
    if not y.n:
        # on the x axis
        if not x.n:
            return S(0)
        if bool(x >= 0):
            return S(0)
        return PI
    if not x.n:
        if bool(y == 0):
            return S(0)
        return PI / 2 if bool(y > 0) else -PI / 2
    if bool(b_and(x == 0, y == 0)):
        if _has_ctx():
            cur().mark_zero((x * x + y * y).n)
        return S(0)
    if _has_ctx():
        cur().mark_positive(Sym((x * x + y * y).n))
    # common positive scaling is removed where cheap: (k*y, k*x), k>0 monomial
    y, x = _canon_dir(y, x)
    if y.is_const() and x.is_const():
        if x.const() == y.const():
            return PI / 4 if x.const() > 0 else PI * Fraction(-3, 4)
        if x.const() == -y.const():
            return PI * Fraction(3, 4) if y.const() > 0 else -PI / 4
    # direct angle recovery: (sin A, cos A)
    if len(y.n) == 1 and len(x.n) == 1 and y.d is ONE and x.d is ONE:
        (ym, yc), = y.n.items()
        (xm, xc), = x.n.items()
        if len(ym) == 1 and len(xm) == 1 and ym[0][1] == 1 and xm[0][1] == 1 and abs(yc) == 1 and xc == 1 \
                and TRIG_OF_COS.get(xm[0][0]) == ym[0][0]:
            base = ATOMS[ATOMS[xm[0][0]].data]
            A = Sym({((base.id, 1),): 1})
            return _wrap_angle(A if yc == 1 else -A)
    lo, hi = -_pi.hi, _pi.hi
    cy, cx = const_float(y), const_float(x)
    if cy is not None and cx is not None and abs(cy) + abs(cx) > 1e-3:
        lo, hi = _around(math.atan2(cy, cx))
    at = new_atom('atan2', (y.key(), x.key()), 'at%d' % len(ATOMS), (y, x),
                  lo=lo, hi=hi, deps=y.atoms() | x.atoms())
    return Sym({((at.id, 1),): 1})


def _wrap_angle(A):
    """Angle A reduced to (-pi, pi] when its range is statically small."""
    lo, hi = p_bounds(A.n)
    if lo is None or hi is None or lo < -20 or hi > 20:
        k = floor_((A + PI) / (2 * PI))
        k = S(concretize(k))
        r = A - 2 * PI * k
        if bool(r == -PI):
            return PI
        return r
    for _ in range(4):
        if bool(A > PI):
            A = A - 2 * PI
        elif bool(A <= -PI):
            A = A + 2 * PI
        else:
            return A
    return A


def _canon_dir(y, x):
    if y.d is not ONE or x.d is not ONE:
        # multiply by positive common denominator
        if y.d == x.d:
            sg = sign_of_poly(y.d)
            y2, x2 = Sym(y.n), Sym(x.n)
            if sg < 0:
                y2, x2 = -y2, -x2
            y, x = y2, x2
        else:
            return y, x
    gy, gx = p_mgcd(y.n), p_mgcd(x.n)
    g = {a: min(e, gx[a]) for a, e in gy.items() if a in gx}
    pos = {}
    neg = False
    for a, e in g.items():
        s = p_sign_quick({((a, 1),): 1})
        if s in ('+', '>='):
            pos[a] = e
        elif e >= 2:
            pos[a] = (e // 2) * 2
        elif _has_ctx():
            k = cur().entails_sign({((a, 1),): 1})
            if k:
                pos[a] = e
                if k < 0 and e % 2:
                    neg = not neg
    if pos:
        y, x = Sym(p_mdiv(y.n, pos)), Sym(p_mdiv(x.n, pos))
    c = p_content(p_add(y.n, {}))
    if c != 1:
        y, x = y / S(c), x / S(c)
    if neg:
        y, x = -y, -x
    return y, x


def acos_(z):
    z = lift(z)
    if not isinstance(z, Sym):
        return NAN
    if has_ite(z):
        r = through_ite(acos_, z)
        if r is not None:
            return r
    if z.is_const():
        c = z.const()
        if abs(c) > 1:
            return NAN
        t = {1: S(0), -1: PI, 0: PI / 2, Fraction(1, 2): PI / 3, Fraction(-1, 2): PI * Fraction(2, 3)}.get(c)
        if t is not None:
            return t
    # domain
    w = S(1) - z * z
    if not _nonneg_fact(w):
        if bool(w < 0):
            return NAN
        if _has_ctx():
            cur().add_nonneg(w)
    # recovery: arccos(cos A), A in [0, pi]
    if z.d is ONE and len(z.n) == 1:
        (m, c), = z.n.items()
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and ATOMS[m[0][0]].kind == 'cos':
            base = ATOMS[ATOMS[m[0][0]].data]
            A = Sym({((base.id, 1),): 1})
            if _has_ctx() and cur().entailed(b_and(A >= 0, A <= PI)):
                return A if c == 1 else PI - A
    lo, hi = 0, _pi.hi
    cz = const_float(z)
    if cz is not None and abs(cz) < 1 - 1e-6:
        lo, hi = _around(math.acos(cz))
    at = new_atom('acos', z.key(), 'ac%d' % len(ATOMS), z, lo=lo, hi=hi, deps=z.atoms())
    return Sym({((at.id, 1),): 1})


def asin_(z):
    r = acos_(z)
    if not isinstance(r, Sym):
        return r
    return PI / 2 - r


def atan_(t):
    t = lift(t)
    if not isinstance(t, Sym):
        if t != t:
            return t
        return PI / 2 if t > 0 else -PI / 2
    if t.d is not ONE:
        sg = sign_of_poly(t.d)
        return atan2_(Sym(t.n) if sg > 0 else Sym(p_neg(t.n)), Sym(t.d) if sg > 0 else Sym(p_neg(t.d)))
    return atan2_(t, S(1))


# --------------------------------------------------------------------------
# logs / powers of ten

def log10_(x):
    return _log('log10', 10, x)


def log_(x):
    return _log('log', None, x)


def _log(kind, base, x):
    x = lift(x)
    if not isinstance(x, Sym):
        return x
    if x.is_const():
        c = Fraction(x.const())
        if c == 0:
            return -math.inf
        if c < 0:
            return NAN
        if c == 1:
            return S(0)
        if base:
            k = round(math.log10(c.numerator) - math.log10(c.denominator))
            if Fraction(10) ** k == c:
                return S(k)
    else:
        if bool(x <= 0):
            if bool(x == 0):
                return -math.inf
            return NAN
    at = new_atom(kind, x.key(), '%s%d' % (kind, len(ATOMS)), x, deps=x.atoms())
    return Sym({((at.id, 1),): 1})


def exp10_(x):
    return _expb('log10', 10, x)


def exp_(x):
    return _expb('log', None, x)


def _expb(kind, base, x):
    x = lift(x)
    if not isinstance(x, Sym):
        return x if x > 0 else S(0)
    if x.d is not ONE:
        raise EngineError('exp of rational function')
    r = S(1)
    rest = {}
    for m, c in x.n.items():
        if m == () and base and Fraction(c).denominator == 1:
            r = r * S(Fraction(base) ** int(c))
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == kind:
            r = r * pow_(ATOMS[m[0][0]].data, S(c))
        else:
            rest[m] = c
    if rest:
        e = Sym(rest)
        at = new_atom('exp' + ('10' if base else ''), e.key(), 'exp%d' % len(ATOMS), e, lo=0, lostrict=True,
                      deps=e.atoms())
        r = r * Sym({((at.id, 1),): 1})
    return r


# --------------------------------------------------------------------------
# numeric evaluation

def eval_atom(aid, env):
    v = env.get(aid)
    if v is not None:
        return v
    a = ATOMS[aid]
    k = a.kind
    if k == 'pi':
        v = math.pi
    elif k == 'sqrt':
        v = math.sqrt(max(eval_sym(a.data, env), 0.0))
    elif k == 'root':
        v = max(eval_sym(a.data[0], env), 0.0) ** (1.0 / a.data[1])
    elif k == 'cos':
        v = math.cos(eval_atom(a.data, env))
    elif k == 'sin':
        v = math.sin(eval_atom(a.data, env))
    elif k == 'csttrig':
        d = a.data
        t = float(d[2]) if d[1] == 'rad' else math.pi * float(d[1])
        v = math.cos(t) if d[0] == 'c' else math.sin(t)
    elif k == 'floor':
        v = float(math.floor(eval_sym(a.data, env)))
    elif k == 'atan2':
        v = math.atan2(eval_sym(a.data[0], env), eval_sym(a.data[1], env))
    elif k == 'acos':
        v = math.acos(min(1.0, max(-1.0, eval_sym(a.data, env))))
    elif k == 'aexpr':
        v = eval_sym(a.data, env)
    elif k == 'ite':
        c, x, y = a.data
        v = eval_sym(x, env) if eval_bool(c, env) else eval_sym(y, env)
    elif k == 'log10':
        v = math.log10(eval_sym(a.data, env))
    elif k == 'log':
        v = math.log(eval_sym(a.data, env))
    elif k == 'exp10':
        v = 10.0 ** eval_sym(a.data, env)
    elif k == 'exp':
        v = math.exp(eval_sym(a.data, env))
    else:
        raise KeyError(a.name)
    env[aid] = v
    return v


def eval_poly(p, env):
    t = 0.0
    for m, c in p.items():
        x = float(c)
        for a, e in m:
            x *= eval_atom(a, env) ** e
        t += x
    return t


def eval_sym(x, env):
    if not isinstance(x, Sym):
        return float(x)
    n = eval_poly(x.n, env)
    if x.d is ONE:
        return n
    return n / eval_poly(x.d, env)


def eval_bool(b, env, slack=0.0):
    if b.op == 'c':
        return b.args
    if b.op in ('lt', 'le', 'eq', 'ne'):
        v = eval_poly(b.args, env)
        return {'lt': v < slack, 'le': v <= slack, 'eq': abs(v) <= max(slack, 1e-12), 'ne': abs(v) > 1e-12}[b.op]
    if b.op == 'not':
        return not eval_bool(b.args, env)
    if b.op == 'and':
        return all(eval_bool(a, env, slack) for a in b.args)
    return any(eval_bool(a, env, slack) for a in b.args)


# --------------------------------------------------------------------------
# dtype helper

def dtype_kind(t):
    import numpy as np
    if t is None:
        return 'f'
    if t is int or t in ('int', 'i', 'int64', 'int32', 'i8', 'i4', 'uint', 'uint64'):
        return 'i'
    if t is float or t in ('float', 'f', 'd', 'float64', 'f8', 'double', 'float32'):
        return 'f'
    if t is bool or t in ('bool', '?'):
        return 'b'
    if t is object or t in ('object', 'O'):
        return 'o'
    try:
        k = np.dtype(t).kind
    except TypeError:
        return 'f'
    return {'i': 'i', 'u': 'i', 'f': 'f', 'b': 'b', 'O': 'o'}.get(k, 'o')


# --------------------------------------------------------------------------
# context plumbing

_CUR = [None]


def cur():
    c = _CUR[0]
    if c is None:
        raise EngineError('no symbolic context for a decision')
    return c


def _has_ctx():
    return _CUR[0] is not None


def set_cur(c):
    _CUR[0] = c
