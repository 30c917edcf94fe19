"""Path context: decisions, path conditions, solver queries, obligations.

Exploration is by re-execution: a path is a list of decisions; every decision
whose two sides are both satisfiable under the path condition (z3's verdict on
the connected slice of the path condition) opens an alternative."""
import itertools
import os
import sys
import math
import random
import time
from fractions import Fraction

import z3

from . import core
from .core import (ATOMS, EngineError, PathAbort, S, SBool, Sym, ONE, TRUE, FALSE, b_not, b_and, b_or,
                   p_key, p_isconst, p_constval, eval_bool, eval_sym, is_const_atom)

z3.set_param('model.completion', True)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.cache_hits = 0
        self.decisions = 0

    def as_dict(self):
        return dict(queries=self.queries, solver_s=round(self.solver_s, 3), sat=self.sat, unsat=self.unsat,
                    unknown=self.unknown, cache_hits=self.cache_hits, decisions=self.decisions)


# --------------------------------------------------------------------------
# encoding

TRACE = os.environ.get('SYMX_TRACE')

_ZV = {}
_ZP = {}
_ZC = {}
_SUPP = {}


def zv(aid):
    v = _ZV.get(aid)
    if v is None:
        a = ATOMS[aid]
        v = z3.Int('a%d' % aid) if a.isint else z3.Real('a%d' % aid)
        _ZV[aid] = v
    return v


def zr(aid):
    v = zv(aid)
    return z3.ToReal(v) if ATOMS[aid].isint else v


def zq(c):
    c = Fraction(c)
    return z3.RealVal('%d/%d' % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)


def zp(p):
    k = p_key(p)
    r = _ZP.get(k)
    if r is not None:
        return r
    allint = all(type(c) is int for c in p.values()) and all(ATOMS[a].isint for m in p for a, _ in m)
    terms = []
    for m, c in p.items():
        fs = []
        for a, e in m:
            v = zv(a) if allint else zr(a)
            fs.extend([v] * e)
        if not fs:
            terms.append(z3.IntVal(c) if allint else zq(c))
        else:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            if c != 1:
                t = (z3.IntVal(c) if allint else zq(c)) * t
            terms.append(t)
    r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
    _ZP[k] = r
    return r


_ZB = {}


def zb(b):
    k = b.key()
    r = _ZB.get(k)
    if r is not None:
        return r
    if b.op == 'c':
        r = z3.BoolVal(b.args)
    elif b.op in ('lt', 'le', 'eq', 'ne'):
        # move the constant to the right-hand side
        e = zp(b.args)
        zero = 0
        r = {'lt': e < zero, 'le': e <= zero, 'eq': e == zero, 'ne': e != zero}[b.op]
    elif b.op == 'not':
        r = z3.Not(zb(b.args))
    elif b.op == 'and':
        r = z3.And([zb(x) for x in b.args])
    elif b.op == 'or':
        r = z3.Or([zb(x) for x in b.args])
    else:
        raise EngineError('cannot encode ' + b.op)
    _ZB[k] = r
    return r


def _data_atoms(a):
    """Atoms mentioned by the definition of atom a."""
    k, d = a.kind, a.data
    if k in ('sqrt', 'floor', 'acos', 'log10', 'log', 'exp10', 'exp', 'aexpr'):
        return d.atoms()
    if k == 'root':
        return d[0].atoms()
    if k == 'atan2':
        return d[0].atoms() | d[1].atoms()
    if k in ('cos', 'sin'):
        other = core.TRIG_OF_COS.get(a.id) or core.TRIG_OF_SIN.get(a.id)
        return {d, other} if other is not None else {d}
    if k == 'ite':
        return d[0].atoms() | d[1].atoms() | d[2].atoms()
    if k == 'csttrig':
        for r, (n, p) in ():
            pass
        return set()
    return set()


def support(aid):
    """All atoms reachable from aid through definitions (including itself)."""
    s = _SUPP.get(aid)
    if s is not None:
        return s
    seen = set()
    todo = [aid]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo.extend(_data_atoms(ATOMS[x]))
    s = frozenset(seen)
    _SUPP[aid] = s
    return s


def lit_support(b):
    s = set()
    for a in b.atoms():
        s |= support(a)
    return s


def _bound_cons(a, out):
    v = zv(a.id)
    if a.lo is not None:
        l = math.ceil(a.lo) if a.isint else zq(a.lo)
        out.append(v > l if a.lostrict and not a.isint else v >= l)
    if a.hi is not None:
        h = math.floor(a.hi) if a.isint else zq(a.hi)
        out.append(v < h if a.histrict and not a.isint else v <= h)


def zfrac(x):
    """(num, den) z3 expressions of a Sym."""
    return zp(x.n), (None if x.d is ONE else zp(x.d))


def atom_cons(aid):
    """Definitional constraints of one atom."""
    r = _ZC.get(aid)
    if r is not None:
        return r
    a = ATOMS[aid]
    out = []
    _bound_cons(a, out)
    k = a.kind
    v = zr(aid)
    if k == 'sqrt':
        out.append(v >= 0)
        n, d = zfrac(a.data)
        out.append(v * v == n if d is None else v * v * d == n)
    elif k == 'root':
        e, deg = a.data
        n, d = zfrac(e)
        pw = v
        for _ in range(deg - 1):
            pw = pw * v
        out.append(v >= 0)
        out.append(pw == n if d is None else pw * d == n)
    elif k == 'sin':
        c = core.TRIG_OF_SIN.get(aid)
        if c is not None:
            out.append(v * v + zr(c) * zr(c) == 1)
    elif k == 'floor':
        n, d = zfrac(a.data)
        if d is None:
            out.append(v <= n)
            out.append(n < v + 1)
        else:
            # v <= n/d < v+1
            out.append(z3.If(d > 0, z3.And(v * d <= n, n < (v + 1) * d), z3.And(v * d >= n, n > (v + 1) * d)))
    elif k == 'atan2':
        y, x = a.data

        def sg(t):
            n, d = zfrac(t)
            return n if d is None else n * d
        zy, zx = sg(y), sg(x)
        pi = zr(core._pi.id)
        out.append(z3.Implies(zy > 0, z3.And(v > 0, v < pi)))
        out.append(z3.Implies(zy < 0, z3.And(v < 0, v > -pi)))
        out.append(z3.Implies(z3.And(zy == 0, zx > 0), v == 0))
        out.append(z3.Implies(z3.And(zy == 0, zx < 0), v == pi))
        out.append(z3.Implies(z3.And(zy > 0, zx > 0), 2 * v < pi))
        out.append(z3.Implies(z3.And(zy > 0, zx < 0), 2 * v > pi))
        out.append(z3.Implies(z3.And(zy < 0, zx > 0), 2 * v > -pi))
        out.append(z3.Implies(z3.And(zy < 0, zx < 0), 2 * v < -pi))
        out.append(z3.Implies(z3.And(zy > 0, zx == 0), 2 * v == pi))
        out.append(z3.Implies(z3.And(zy < 0, zx == 0), 2 * v == -pi))
    elif k == 'acos':
        n, d = zfrac(a.data)
        s = n if d is None else n * d
        pi = zr(core._pi.id)
        out.append(v >= 0)
        out.append(v <= pi)
        out.append(z3.Implies(s > 0, 2 * v < pi))
        out.append(z3.Implies(s < 0, 2 * v > pi))
        out.append(z3.Implies(s == 0, 2 * v == pi))
        one = z3.RealVal(1) if d is None else d
        out.append((v == 0) == (n == one))
        out.append((v == pi) == (n == -one))
    elif k == 'aexpr':
        n, d = zfrac(a.data)
        out.append(v == n if d is None else v * d == n)
    elif k == 'ite':
        c, x, y = a.data
        nx, dx = zfrac(x)
        ny, dy = zfrac(y)
        out.append(z3.Implies(zb(c), v == nx if dx is None else v * dx == nx))
        out.append(z3.Implies(z3.Not(zb(c)), v == ny if dy is None else v * dy == ny))
    elif k in ('exp10', 'exp'):
        out.append(v > 0)
    elif k == 'csttrig':
        if a.id in core.REDUCIBLE:
            n, p = core.REDUCIBLE[a.id]
            out.append(v * v == zp(p))
    _ZC[aid] = out
    return out


def pair_cons(aids):
    """Lemmas relating several atoms of one query."""
    out = []
    by = {}
    for a in aids:
        by.setdefault(ATOMS[a].kind, []).append(a)
    for kind, inc in (('log10', True), ('log', True), ('exp10', True), ('exp', True), ('acos', False)):
        l = by.get(kind, [])
        if 1 < len(l) <= 6:
            for x, y in itertools.combinations(l, 2):
                ex, ey = ATOMS[x].data, ATOMS[y].data
                d = ex - ey
                lt = zb(core.rel('lt', d)) if d.d is ONE else None
                eq = zb(core.rel('eq', d))
                if lt is None:
                    nn, dd = zfrac(d)
                    lt = nn * dd < 0
                vx, vy = zr(x), zr(y)
                out.append(lt == ((vx < vy) if inc else (vx > vy)))
                out.append(eq == (vx == vy))
    for a in by.get('log10', []) + by.get('log', []):
        e = ATOMS[a].data
        nn, dd = zfrac(e)
        s = nn - (1 if dd is None else dd)
        if dd is not None:
            s = s * dd
        out.append((s > 0) == (zr(a) > 0))
        out.append((s == 0) == (zr(a) == 0))
    return out


def angle_cons(c):
    """Quadrant lemmas linking an angle atom with its cos/sin atoms."""
    s = core.TRIG_OF_COS.get(c)
    aid = ATOMS[c].data
    A = zr(aid)
    C, Sn = zr(c), zr(s)
    pi = zr(core._pi.id)
    a = ATOMS[aid]
    lo, hi = a.lo, a.hi
    out = []
    if lo is None or hi is None or lo < -20 or hi > 20:
        return out
    k0 = math.floor(float(lo) / (math.pi / 2)) - 1
    k1 = math.ceil(float(hi) / (math.pi / 2)) + 1
    h = pi / 2
    for k in range(k0, k1 + 1):
        q = k % 4
        inside = z3.And(A > k * h, A < (k + 1) * h)
        sg = [(C > 0, Sn > 0), (C < 0, Sn > 0), (C < 0, Sn < 0), (C > 0, Sn < 0)][q]
        out.append(z3.Implies(inside, z3.And(*sg)))
        at = A == k * h
        vals = [(1, 0), (0, 1), (-1, 0), (0, -1)][q]
        out.append(z3.Implies(at, z3.And(C == vals[0], Sn == vals[1])))
        # secant / tangent bounds on sin within the quadrant
        if q in (0,):
            t = A - k * h
            out.append(z3.Implies(inside, z3.And(Sn < t, C < 1, C > 1 - t, Sn > t * zq(Fraction(6366, 10000)) * zq(Fraction(9999, 10000)))))
        elif q == 3:
            t = (k + 1) * h - A
            out.append(z3.Implies(inside, z3.And(-Sn < t, C > 1 - t, -Sn > t * zq(Fraction(6365, 10000)))))
        elif q == 1:
            t = (k + 1) * h - A
            out.append(z3.Implies(inside, z3.And(Sn < t, -C > 1 - t, Sn > t * zq(Fraction(6365, 10000)))))
        else:
            t = A - k * h
            out.append(z3.Implies(inside, z3.And(-Sn < t, -C > 1 - t, -Sn > t * zq(Fraction(6365, 10000)))))
    return out


_AC = {}


def half_cons(aids):
    """Half-angle links between an angle atom a and (a/den) atoms."""
    out = []
    for aid in aids:
        a = ATOMS[aid]
        if a.kind == 'aexpr' and len(a.data.n) == 1:
            (m, c), = a.data.n.items()
            if len(m) == 1 and m[0][1] == 1 and Fraction(c).numerator == 1:
                den = Fraction(c).denominator
                base = m[0][0]
                cb = core.INTERN.get(('cos', base))
                ch = core.INTERN.get(('cos', aid))
                if cb is not None and ch is not None and (cb.id in aids) and (ch.id in aids):
                    hs = core.TRIG_OF_COS[ch.id]
                    bs = core.TRIG_OF_COS[cb.id]
                    C, Sn = core._multi(Sym({((ch.id, 1),): 1}), Sym({((hs, 1),): 1}), den)
                    out.append(zp(C.n) == zr(cb.id))
                    out.append(zp(Sn.n) == zr(bs))
    return out


def constraints_for(aids):
    """All definitional constraints for the closure of the given atoms."""
    cl = set()
    for a in aids:
        cl |= support(a)
    out = []
    for a in sorted(cl):
        out.extend(atom_cons(a))
    if core._pi.id not in cl:
        out.extend(atom_cons(core._pi.id))
    for a in sorted(cl):
        if ATOMS[a].kind == 'cos':
            r = _AC.get(a)
            if r is None:
                r = _AC[a] = angle_cons(a)
            out.extend(r)
    out.extend(half_cons(cl))
    out.extend(pair_cons(sorted(cl)))
    return out, cl


# ---- relaxation of constants: products of irrational constants become one number in a tight interval

_CIV = {}


def const_iv(aid):
    """Enclosure of a constant atom (mpmath interval)."""
    v = _CIV.get(aid)
    if v is not None:
        return v
    from mpmath import iv
    iv.prec = 140
    a = ATOMS[aid]
    k, d = a.kind, a.data

    def rat(q):
        q = Fraction(q)
        return iv.mpf(q.numerator) / q.denominator

    def poly(p):
        t = iv.mpf(0)
        for m, c in p.items():
            x = rat(c)
            for b, e in m:
                x = x * const_iv(b) ** e
            t = t + x
        return t

    def sym(x):
        n = poly(x.n)
        return n if x.d is ONE else n / poly(x.d)
    if k == 'pi':
        v = iv.pi
    elif k == 'sqrt':
        v = iv.sqrt(sym(d))
    elif k == 'root':
        v = iv.exp(iv.log(sym(d[0])) / d[1])
    elif k == 'csttrig':
        t = rat(d[2]) if d[1] == 'rad' else iv.pi * rat(d[1])
        v = iv.cos(t) if d[0] == 'c' else iv.sin(t)
    elif k == 'log10':
        v = iv.log(sym(d)) / iv.log(10)
    elif k == 'log':
        v = iv.log(sym(d))
    else:
        raise EngineError('no enclosure of ' + k)
    lo, hi = _ends(v)
    if not (hi - lo < Fraction(1, 10 ** 15)):
        raise EngineError('loose enclosure')
    _CIV[aid] = v
    return v


def _ends(v):
    """Exact rational end points of an mpmath interval."""
    out = []
    for sgn, man, exp, bc in v._mpi_:
        if not man and exp:
            raise EngineError('unbounded enclosure')
        f = Fraction(int(man)) * (Fraction(2) ** int(exp))
        out.append(-f if sgn else f)
    return out


def _trim(f, up):
    g = f * (1 << 110)
    n = g.numerator // g.denominator
    return Fraction(n + (1 if up else 0), 1 << 110)


_KV = {}


class Relax:
    """Encodes literals with the constants relaxed."""

    def __init__(self):
        self.cons = []
        self.seen = set()
        self.deg = 0

    def coef(self, p):
        """(z3 name part, lo, hi) of a polynomial in constant atoms."""
        k = p_key(p)
        r = _KV.get(k)
        if r is None:
            from mpmath import iv
            iv.prec = 140
            t = iv.mpf(0)
            for m, c in p.items():
                c = Fraction(c)
                x = iv.mpf(c.numerator) / c.denominator
                for b, e in m:
                    x = x * const_iv(b) ** e
                t = t + x
            lo, hi = _ends(t)
            r = _KV[k] = (len(_KV), _trim(lo, False), _trim(hi, True))
        return r

    def poly(self, p):
        by = {}
        for m, c in p.items():
            cm = tuple(x for x in m if is_const_atom(ATOMS[x[0]]))
            vm = tuple(x for x in m if not is_const_atom(ATOMS[x[0]]))
            by.setdefault(vm, {})[cm] = c
        terms = []
        for vm, cp in by.items():
            self.deg = max(self.deg, sum(e for _, e in vm))
            if len(cp) == 1 and () in cp:
                terms.append(zp({vm: cp[()]}))
                continue
            n, lo, hi = self.coef(cp)
            if not vm:
                t = z3.Real('kc%d' % n)
                if ('c', n) not in self.seen:
                    self.seen.add(('c', n))
                    self.cons += [t >= zq(lo), t <= zq(hi)]
            else:
                M = zp({vm: 1})
                if z3.is_int(M):
                    M = z3.ToReal(M)
                t = z3.Real('kt%d_%s' % (n, '_'.join('%d^%d' % x for x in vm)))
                if (vm, n) not in self.seen:
                    self.seen.add((vm, n))
                    self.cons.append(z3.If(M >= 0, z3.And(t >= zq(lo) * M, t <= zq(hi) * M), z3.And(t <= zq(lo) * M, t >= zq(hi) * M)))
            terms.append(t)
        terms = [z3.ToReal(t) if z3.is_int(t) else t for t in terms]
        return z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))

    def lit(self, b):
        if b.op == 'c':
            return z3.BoolVal(b.args)
        if b.op in ('lt', 'le', 'eq', 'ne'):
            if not any(is_const_atom(ATOMS[a]) for a in b.atoms()):
                return zb(b)
            e = self.poly(b.args)
            return {'lt': e < 0, 'le': e <= 0, 'eq': e == 0, 'ne': e != 0}[b.op]
        if b.op == 'not':
            return z3.Not(self.lit(b.args))
        f = z3.And if b.op == 'and' else z3.Or
        return f([self.lit(x) for x in b.args])


# --------------------------------------------------------------------------
# the context

class Ctx:
    zero_div_raises = False

    def __init__(self, shared, prefix):
        self.sh = shared            # Shared: stats, caches, options
        self.prefix = prefix
        self.pos = 0
        self.trace = []             # [key, value]
        self.alts = []              # alternative prefixes
        self.pc = []                # literals
        self.facts = {}
        self.nonneg = set()
        self.ndec = 0
        self.draws = []
        self.preset = None
        self.nuninit = 0
        self.dirs = None
        self.distinct_pix = False
        self._penv = None
        self.zeros = set()
        self.wit = list(range(len(shared.pool)))   # stored assignments satisfying pc

    # ---- syntactic knowledge
    def assume_lit(self, b):
        if b.op == 'c':
            if not b.args:
                raise PathAbort()
            return
        if b.op == 'and':
            for x in b.args:
                self.assume_lit(x)
            return
        k = b.key()
        if k in self.facts:
            if self.facts[k]:
                return
            raise PathAbort()
        self.pc.append(b)
        self._learn(b)
        if self.wit:
            wv = self.sh.wvalue
            self.wit = [i for i in self.wit if wv(b, i) is True]

    def _learn(self, b):
        f = self.facts
        f[b.key()] = True
        f[b_not(b).key()] = False
        if b.op == 'lt':
            p = b.args
            f[('le', p_key(p))] = True
            n = core.p_neg(p)
            f[('lt', p_key(n))] = False
            f[('le', p_key(n))] = False
            f[('eq', p_key(p))] = False
            f[('eq', p_key(n))] = False
            f[('ne', p_key(p))] = True
            f[('ne', p_key(n))] = True
        elif b.op == 'le':
            n = core.p_neg(b.args)
            f[('lt', p_key(n))] = False
        elif b.op == 'eq':
            n = core.p_neg(b.args)
            for q in (b.args, n):
                f[('le', p_key(q))] = True
                f[('lt', p_key(q))] = False
                f[('eq', p_key(q))] = True
                f[('ne', p_key(q))] = False

    def mark_positive(self, x):
        """Record x > 0 (implied by the path condition) without a new literal."""
        if x.is_const():
            return
        for p in ([x.n] if x.d is ONE else [x.n, x.d]):
            for b in (SBool('lt', core.p_neg(p)), core.rel('lt', -Sym(p))):
                if b.op == 'lt':
                    self._learn(b)
        self.nonneg.add(self._nnkey(x.n))

    def mark_zero(self, p):
        if p and not p_isconst(p):
            self.zeros.add(self._nnkey(p))
            self.facts[SBool('eq', p).key()] = True
            self.facts[core.rel('eq', Sym(p)).key()] = True

    def known_zero(self, p):
        return bool(self.zeros) and self._nnkey(p) in self.zeros

    def known(self, b):
        if b.op == 'c':
            return b.args
        r = self.facts.get(b.key())
        if r is not None:
            return r
        if b.op == 'and':
            un = False
            for x in b.args:
                r = self.known(x)
                if r is False:
                    return False
                if r is None:
                    un = True
            return None if un else True
        if b.op == 'or':
            un = False
            for x in b.args:
                r = self.known(x)
                if r is True:
                    return True
                if r is None:
                    un = True
            return None if un else False
        return None

    def nonneg_known(self, x):
        s = core.p_sign_quick(x.n) if x.d is ONE else None
        if s in ('+', '>=', '0'):
            return True
        n = x.n
        if x.d is not ONE:
            sg = core.p_sign_quick(x.d)
            if sg in ('-', '<='):
                n = core.p_neg(n)
            elif sg not in ('+', '>='):
                if p_key(x.d) not in self.nonneg:
                    k = self.entails_sign(x.d)
                    if k is None:
                        return False
                    if k < 0:
                        n = core.p_neg(n)
        s = core.p_sign_quick(n)
        if s in ('+', '>=', '0'):
            return True
        if self._nnkey(n) in self.nonneg:
            return True
        return self.facts.get(('lt', p_key(core.p_scale(n, Fraction(1) / core.p_content(n))))) is False

    def _nnkey(self, n):
        if not n:
            return p_key(n)
        return p_key(core.p_scale(n, Fraction(1) / core.p_content(n)))

    def add_nonneg(self, x):
        if x.d is ONE:
            self.nonneg.add(self._nnkey(x.n))

    def note_sos(self, x):
        parts = [p for p in x.sos if isinstance(p, Sym)]
        if not parts or len(parts) > 4:
            return
        k = (tuple(p.key() for p in parts))
        if k in self.sh.sosdone:
            self.nonneg |= self.sh.sosdone[k]
            return
        new = set()
        sq = [p * p for p in parts]
        tot = sq[0]
        for u in sq[1:]:
            tot = tot + u
        if tot.is_const():
            for u in sq:
                w = tot - u
                if w.n:
                    new.add(self._nnkey(w.n))
        for r in range(1, len(sq) + 1):
            for sub in itertools.combinations(sq, r):
                t = sub[0]
                for u in sub[1:]:
                    t = t + u
                if t.d is ONE and t.n:
                    new.add(self._nnkey(t.n))
                elif t.n:
                    new.add(self._nnkey(t.n))
        self.sh.sosdone[k] = new
        self.nonneg |= new

    # ---- fresh variables made by the code under execution
    def draw(self):
        """One uniform random draw: a fresh u with 0 <= u < 1."""
        n = len(self.draws)
        if n >= self.sh.max_draws:
            raise EngineError('more than %d random draws on one path' % self.sh.max_draws)
        if self.preset is not None:
            v = self.preset(n)
            if v is not None:
                v = core.S(v)
                self.draws.append(v)
                return v
        a = core.new_atom('var', 'u#%d' % n, 'u%d' % n, lo=0, hi=1, histrict=True)
        self.draws.append(Sym({((a.id, 1),): 1}))
        if a.id not in self.sh.varset:
            self.sh.varset.add(a.id)
            self.sh.vars.append(a.id)
        return Sym({((a.id, 1),): 1})

    def uninit(self, kind):
        """Contents of uninitialised memory: a fresh unconstrained variable."""
        n = self.nuninit
        self.nuninit += 1
        a = core.new_atom('var', 'uninit%s#%d' % (kind, n), 'uninit%s%d' % (kind, n), isint=(kind != 'f'))
        if a.id not in self.sh.varset:
            self.sh.varset.add(a.id)
            self.sh.vars.append(a.id)
        return Sym({((a.id, 1),): 1})

    # ---- solver
    def _slice(self, lits, support_seed=None):
        """Path-condition literals connected to lits."""
        seed = set(support_seed or ())
        for b in lits:
            seed |= self._supp(b)
        rest = list(self.pc)
        sel = []
        pi = core._pi.id
        seed.discard(pi)
        changed = True
        while changed and rest:
            changed = False
            nrest = []
            for b in rest:
                sp = self._supp(b)
                if not sp.isdisjoint(seed):
                    sel.append(b)
                    if not sp <= seed:
                        seed |= sp
                        changed = True
                else:
                    nrest.append(b)
            rest = nrest
        return sel

    def _supp(self, b):
        k = b.key()
        s = self.sh.suppc.get(k)
        if s is None:
            s = lit_support(b)
            s = frozenset(a for a in s if not is_const_atom(ATOMS[a]))
            self.sh.suppc[k] = s
        return s

    def check(self, lits, timeout=None, extra=None, model=False, slice_=True, full=False, want=False):
        """Satisfiability of pc & lits. Returns (verdict, model|None)."""
        sh = self.sh
        sel = list(self.pc) if full else self._slice(lits)
        allb = sel + list(lits)
        key = None
        if not model and not extra:
            key = frozenset(b.key() for b in allb)
            r = sh.cache.get(key)
            if r is not None and not (r == 'unknown' and timeout and timeout > sh.tmo):
                sh.stats.cache_hits += 1
                return r, None
        ats = set()
        for b in allb:
            ats |= b.atoms()
        cons, cl = constraints_for(ats)
        tm = timeout or sh.tmo
        left = sh.deadline + 20 - time.time()
        if left < tm:
            tm = max(left, 0.3)
        v = None
        if not extra and not model:
            v = self._relaxed(lits, allb, ats, cl, tm)
            m = None
        if v is None:
            v, m = self._solve([zb(b) for b in allb] + list(extra or ()), cons, cl, tm, model or want)
        if want and m is not None:
            self.learn_witness(m, lits, cl)
        if key is not None:
            sh.cache[key] = v
        return v, m

    def _relaxed(self, lits, allb, ats, cl, tm):
        """Verdict with irrational constants replaced by numbers in tight intervals: unsat is final, sat only with a checked assignment."""
        nc = [a for a in ats if is_const_atom(ATOMS[a]) and ATOMS[a].kind != 'pi']
        if not nc:
            return None
        R = Relax()
        try:
            goals = [R.lit(b) for b in allb]
        except (EngineError, ZeroDivisionError, ValueError, OverflowError):
            return None
        va = [a for a in ats if not is_const_atom(ATOMS[a])]
        if R.deg > 1:
            return None
        cons, cl2 = constraints_for(va)
        if any(ATOMS[a].kind not in ('var', 'floor', 'pi') for a in cl2):
            return None
        v, m = self._solve(goals, cons + R.cons, cl2, min(tm, 2.0), True)
        if v == 'unsat':
            return v
        if v == 'sat' and m is not None:
            n = len(self.wit)
            self.learn_witness(m, lits, cl2)
            if len(self.wit) > n:
                return 'sat'
        return None

    def _solve(self, goals, cons, cl, tmo, model):
        sh = self.sh
        st = sh.stats
        t0 = time.time()
        hasint = any(ATOMS[a].isint for a in cl)
        s = z3.Solver()
        s.set('timeout', int(tmo * 1000))
        s.add(cons)
        s.add(goals)
        r = s.check()
        st.queries += 1
        v = str(r)
        if v == 'unknown' and not hasint and tmo >= 2:
            s2 = z3.Tactic('qfnra-nlsat').solver()
            s2.set('timeout', int(tmo * 1000))
            s2.add(cons)
            s2.add(goals)
            try:
                r = s2.check()
                if str(r) != 'unknown':
                    v, s = str(r), s2
            except z3.Z3Exception:
                pass
            st.queries += 1
        st.solver_s += time.time() - t0
        if sh.slow is not None and time.time() - t0 > 1.0:
            sh.slow.append((round(time.time() - t0, 2), v, len(goals)))
        setattr(st, v, getattr(st, v) + 1)
        m = s.model() if (v == 'sat' and model) else None
        return v, m

    # ---- stored assignments
    def witness(self, b, value):
        """A stored assignment satisfying pc under which b is `value`, or None."""
        wv = self.sh.wvalue
        n = 0
        for i in self.wit:
            if wv(b, i) is value:
                return i
            n += 1
            if n >= 64:
                break
        return None

    def replenish(self, want=6, trials=150):
        """Random assignments filtered by the path condition."""
        sh = self.sh
        if len(self.wit) >= want or sh.wtrials > 3000:
            return
        for _ in range(trials):
            sh.wtrials += 1
            e = sh.random_env()
            ok = True
            for b in self.pc:
                if wtri(b, e, sh) is not True:
                    ok = False
                    break
            if ok:
                self.wit.append(sh.add_env(e))
                if len(self.wit) >= want:
                    return

    def learn_witness(self, m, lits, cl):
        """Keep the solver's model of the slice, completed by a stored assignment."""
        sh = self.sh
        if len(sh.pool) > 600:
            return
        base = sh.pool[self.wit[0]] if self.wit else (sh.pool[0] if sh.pool else sh.random_env())
        e = {a: base[a] for a in sh.vars if a in base}
        for a in cl:
            at = ATOMS[a]
            if at.kind != 'var':
                continue
            c = core.INTERN.get(('cos', a))
            v = m.eval(zv(a), model_completion=True)
            f = _znum(v)
            if f is None:
                return
            f = int(f) if at.isint else float(f)
            if c is not None and c.id in cl:
                cv, sv = _znum(m.eval(zv(c.id), model_completion=True)), _znum(m.eval(zv(core.TRIG_OF_COS[c.id]), model_completion=True))
                if cv is not None and sv is not None:
                    t = math.atan2(float(sv), float(cv))
                    f = t + 2 * math.pi * round((f - t) / (2 * math.pi))
            e[a] = f
        for b in list(self.pc) + list(lits):
            if wtri(b, e, sh) is not True:
                return
        sh.add_env(e)
        self.wit.append(len(sh.pool) - 1)

    # ---- decisions
    def decide(self, b):
        k = self.known(b)
        if k is not None:
            return k
        self.ndec += 1
        self.sh.stats.decisions += 1
        key = b.key()
        if self.pos < len(self.prefix):
            ek, val = self.prefix[self.pos]
            if ek != key:
                raise EngineError('nondeterministic re-execution')
            self.pos += 1
            self.trace.append((key, val))
            self.assume_lit(b if val else b_not(b))
            return val
        if time.time() > self.sh.deadline:
            raise EngineError('time budget of the configuration exhausted')
        nb = b_not(b)
        t00 = time.time()
        vt = self._side(b, b, True)
        if vt == 'unsat':
            val = False
        else:
            vf = self._side(b, nb, False)
            if vf == 'unsat':
                val = True
            else:
                val = self.witness(b, False) is None or self.witness(b, True) is not None
                self.alts.append(self.trace + [(key, not val)])
                if vt == 'unknown' or vf == 'unknown':
                    self.sh.unknown_branches += 1
        self.pos += 1
        self.trace.append((key, val))
        if TRACE:
            sys.stderr.write('DECIDE %s -> %s (%s) wit=%d %.2fs\n' % (repr(b)[:300], val, vt, len(self.wit), time.time() - t00))
        self.assume_lit(b if val else nb)
        return val

    def _side(self, b, lit, value):
        if self.witness(b, value) is not None:
            self.sh.stats.cache_hits += 1
            return 'sat'
        v, m = self.check([lit], want=True)
        return v

    def concretize(self, x):
        if x.is_const():
            return int(x.const())
        key = ('conc', x.key())
        kv = self.facts.get(key)
        if kv is not None:
            return kv
        w = self._floor_arg(x)
        if w is not None:
            # floor(e) + c: walk by comparisons on e
            e, c0 = w
            k = 0
            if bool(e >= 0):
                while not bool(e < k + 1):
                    k += 1
                    if k > self.sh.max_enum:
                        raise EngineError('integer with too many values to enumerate')
            else:
                k = -1
                while not bool(e >= k):
                    k -= 1
                    if k < -self.sh.max_enum:
                        raise EngineError('integer with too many values to enumerate')
            self.facts[key] = k + c0
            return k + c0
        self.ndec += 1
        if self.pos < len(self.prefix):
            ek, val = self.prefix[self.pos]
            if ek != key:
                raise EngineError('nondeterministic re-execution')
        else:
            if time.time() > self.sh.deadline:
                raise EngineError('time budget of the configuration exhausted')
            vals = self._enum(x)
            if not vals:
                raise PathAbort()
            val = vals[0]
            for v in vals[1:]:
                self.alts.append(self.trace + [(key, v)])
        self.pos += 1
        self.trace.append((key, val))
        self.facts[key] = val
        lit = (x == val)
        self.assume_lit(lit)
        return val

    def _floor_arg(self, x):
        if x.d is not ONE:
            return None
        at, c0 = None, 0
        for m, c in x.n.items():
            if m == ():
                c0 = c
            elif len(m) == 1 and m[0][1] == 1 and c == 1 and at is None and ATOMS[m[0][0]].kind == 'floor':
                at = ATOMS[m[0][0]]
            else:
                return None
        if at is None or type(c0) is not int:
            return None
        return at.data, c0

    def _enum(self, x):
        lo, hi = core.p_bounds(x.n) if x.d is ONE else (None, None)
        vals = []
        if lo is not None and hi is not None and hi - lo <= 12:
            for v in range(math.ceil(lo), math.floor(hi) + 1):
                b = (x == v)
                k = self.known(b)
                if k is False:
                    continue
                if k is None:
                    r, _ = self.check([b])
                    if r == 'unsat':
                        continue
                vals.append(v)
            return vals
        # enumerate through models of x
        zx = zp(x.n)
        block = []
        probe = core.SBool('ne', core.p_sub(x.n, {(): Fraction(1, 2)}))   # true; carries the atoms of x
        while True:
            extra = [zx != v for v in vals]
            r, m = self.check([probe], extra=extra, model=True)
            if r == 'unsat':
                break
            if r == 'unknown':
                raise EngineError('cannot enumerate the values of an integer')
            v = m.eval(zx, model_completion=True)
            f = _znum(v)
            if f is None or Fraction(f).denominator != 1:
                raise EngineError('cannot enumerate the values of an integer')
            vals.append(int(f))
            if len(vals) > self.sh.max_enum:
                raise EngineError('integer with too many values to enumerate')
        return sorted(vals)

    def entailed(self, b):
        if b.op == 'c':
            return b.args
        k = self.known(b)
        if k is not None:
            return k
        if self.witness(b, False) is not None:
            return False
        return self.check([b_not(b)])[0] == 'unsat'

    def entails_sign(self, p):
        s = core.p_sign_quick(p)
        if s in ('+', '>='):
            return 1
        if s in ('-', '<='):
            return -1
        f = self.facts
        k = p_key(core.p_scale(p, Fraction(1) / core.p_content(p)))
        q = core.p_neg(p)
        kq = p_key(core.p_scale(q, Fraction(1) / core.p_content(q)))
        if f.get(('lt', k)) is False:
            return 1
        if f.get(('lt', kq)) is False:
            return -1
        return None

    # ---- obligations
    def prove(self, cond, timeout):
        """'unsat' when pc => cond, 'sat' or 'unknown' otherwise."""
        if cond.op == 'c':
            return 'unsat' if cond.args else 'sat'
        k = self.known(cond)
        if k is True:
            return 'unsat'
        if cond.op == 'and':
            worst = 'unsat'
            for x in cond.args:
                v = self.prove(x, timeout)
                if v == 'sat':
                    return v
                if v == 'unknown':
                    worst = v
            return worst
        if self.witness(cond, False) is not None:
            self.sh.stats.cache_hits += 1
            return 'sat'
        neg = b_not(cond)
        lits = list(neg.args) if neg.op == 'and' else [neg]
        v, _ = self.check(lits, timeout=timeout)
        if v == 'unknown':
            v = self._cvc5(lits, timeout)
        return v

    def _cvc5(self, lits, timeout):
        import subprocess
        sh = self.sh
        if not sh.use_cvc5:
            return 'unknown'
        sel = self._slice(lits)
        ats = set()
        for b in sel + list(lits):
            ats |= b.atoms()
        cons, cl = constraints_for(ats)
        s = z3.Solver()
        s.add(cons)
        s.add([zb(b) for b in sel + list(lits)])
        txt = '(set-logic ALL)\n' + s.to_smt2()
        t0 = time.time()
        try:
            r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '-'], input=txt.encode(),
                               capture_output=True, timeout=timeout + 5)
            o = r.stdout.decode().strip().split('\n')[0]
            if '(error' in r.stdout.decode():
                o = 'unknown'
        except subprocess.TimeoutExpired:
            o = 'unknown'
        sh.stats.queries += 1
        sh.stats.solver_s += time.time() - t0
        if o not in ('sat', 'unsat'):
            o = 'unknown'
        setattr(sh.stats, o, getattr(sh.stats, o) + 1)
        return o

    # ---- models
    def path_env(self):
        """An interior model of the current path condition (cached)."""
        if self.wit:
            e = dict(self.sh.pool[self.wit[-1]])
            e['_margin'] = 1e-4
            for aid in self.sh.vars:
                if aid not in e:
                    e[aid] = random_value(ATOMS[aid], self.sh.rnd)
            return e
        k = (len(self.pc), len(self.sh.vars))
        if self._penv is None or self._penv[0] != k:
            self._penv = (k, self.model(timeout=4))
        return dict(self._penv[1]) if self._penv[1] is not None else None

    def some_env(self):
        """Any values of the variables (of the path when a model is at hand), for screening only."""
        e = self.path_env()
        if e is None:
            e = {aid: random_value(ATOMS[aid], random.Random(aid)) for aid in self.sh.vars}
        return e

    def model(self, extra=(), timeout=4, margins=(Fraction(1, 100), Fraction(1, 100000), None), cond=None):
        """A float assignment of all variables satisfying pc (& extra literals), or None."""
        lits = list(extra)
        for mg in margins:
            env = self._model_once(lits, timeout, mg)
            if env is not None:
                env['_margin'] = float(mg) if mg else 0.0
                return env
        return None

    def _model_once(self, lits, timeout, margin):
        sh = self.sh
        # split pc + lits into components and solve each
        comps = []
        for b in list(self.pc) + lits:
            sp = set(self._supp(b))
            grp = [b]
            keep = []
            for s2, g2 in comps:
                if s2 & sp:
                    sp |= s2
                    grp = g2 + grp
                else:
                    keep.append((s2, g2))
            keep.append((sp, grp))
            comps = keep
        env = {}
        for sp, grp in comps:
            key = (frozenset(b.key() for b in grp), margin)
            r = sh.mcache.get(key)
            if r is None:
                r = self._comp_model(grp, timeout, margin)
                sh.mcache[key] = r if r is not None else False
            if not r:
                return None
            env.update(r)
        # remaining variables
        for aid in sh.vars:
            if aid not in env:
                env[aid] = default_value(ATOMS[aid])
        full = dict(env)
        try:
            for b in self.pc + lits:
                if not eval_bool(b, full, slack=1e-7):
                    return None
        except (KeyError, ValueError, OverflowError, ZeroDivisionError):
            return None
        return env

    def _comp_model(self, grp, timeout, margin):
        ats = set()
        for b in grp:
            ats |= b.atoms()
        cons, cl = constraints_for(ats)
        goals = []
        for b in grp:
            goals.append(zmargin(b, margin) if margin else zb(b))
        fixed = []
        for attempt in range(4):
            v, m = self._solve(goals + fixed, cons, cl, timeout, True)
            if v != 'sat':
                return None if attempt == 0 else None
            env = {}
            angs = []
            for a in sorted(cl):
                at = ATOMS[a]
                if at.kind == 'var':
                    c = core.INTERN.get(('cos', a))
                    if c is not None and c.id in cl:
                        cv = float(_znum(m.eval(zv(c.id), model_completion=True)))
                        sv = float(_znum(m.eval(zv(core.TRIG_OF_COS[c.id]), model_completion=True)))
                        av = float(_znum(m.eval(zv(a), model_completion=True)))
                        t = math.atan2(sv, cv)
                        lo = float(at.lo) if at.lo is not None else -math.inf
                        hi = float(at.hi) if at.hi is not None else math.inf
                        best = None
                        for k in range(-4, 5):
                            w = t + 2 * math.pi * k
                            if lo - 1e-9 <= w <= hi + 1e-9:
                                if best is None or abs(w - av) < abs(best - av):
                                    best = w
                        t = best if best is not None else t
                        env[a] = min(max(t, lo), hi)
                        angs.append((a, c.id, env[a]))
                    else:
                        f = _znum(m.eval(zv(a), model_completion=True))
                        env[a] = float(f) if not at.isint else int(f)
                elif at.kind == 'opaque':
                    f = _znum(m.eval(zv(a), model_completion=True))
                    env[a] = float(f)
            full = dict(env)
            try:
                ok = all(eval_bool(b, full, slack=1e-7) for b in grp)
            except (KeyError, ValueError, OverflowError, ZeroDivisionError):
                ok = False
            if ok:
                return env
            if not angs:
                return env if margin is None else None
            # pin the angles (their cos/sin and linear value agree) and retry the rest
            fixed = []
            for j, (a, c, t) in enumerate(angs):
                if attempt >= 2 and j >= len(angs) // 2:
                    continue
                e = zq(Fraction(1, 10 ** 7))
                fixed += [zr(a) == zq(Fraction(t)), zr(c) >= zq(Fraction(math.cos(t))) - e, zr(c) <= zq(Fraction(math.cos(t))) + e]
        return None


def wtri(b, env, sh):
    """Three-valued evaluation of b under env; None when too close to call."""
    op = b.op
    if op == 'c':
        return b.args
    try:
        if op in ('lt', 'le', 'eq', 'ne'):
            t = 0.0
            s = 0.0
            isint = True
            for m, c in b.args.items():
                x = float(c)
                for a, e in m:
                    if not ATOMS[a].isint:
                        isint = False
                    x *= core.eval_atom(a, env) ** e
                t += x
                s += abs(x)
            if isint:
                t = round(t)
                return {'lt': t < 0, 'le': t <= 0, 'eq': t == 0, 'ne': t != 0}[op]
            if not s < 1e200:
                return None
            tol = 1e-8 * s + 1e-13
            if abs(t) <= tol:
                return None
            return {'lt': t < 0, 'le': t < 0, 'eq': False, 'ne': True}[op]
        if op == 'not':
            r = wtri(b.args, env, sh)
            return None if r is None else not r
        un = False
        stop = op == 'or'
        for x in b.args:
            r = wtri(x, env, sh)
            if r is stop:
                return stop
            if r is None:
                un = True
        return None if un else not stop
    except (KeyError, ValueError, OverflowError, ZeroDivisionError):
        return None


def default_value(at):
    lo, hi = at.lo, at.hi
    if at.isint:
        if lo is not None:
            return int(math.ceil(lo))
        return 0 if hi is None else min(0, int(hi))
    if lo is not None and hi is not None:
        return float(lo) + 0.37 * (float(hi) - float(lo))
    if lo is not None:
        return float(lo) + 0.5
    if hi is not None:
        return float(hi) - 0.5
    return 0.3


def zmargin(b, mg):
    """A strengthened version of b, away from its boundary."""
    if b.op in ('lt', 'le'):
        if all(ATOMS[a].isint for a in b.atoms()):
            return zb(b)
        return zp(b.args) <= -zq(mg)
    if b.op == 'ne':
        if all(ATOMS[a].isint for a in b.atoms()):
            return zb(b)
        e = zp(b.args)
        return z3.Or(e <= -zq(mg), e >= zq(mg))
    if b.op == 'and':
        return z3.And([zmargin(x, mg) for x in b.args])
    if b.op == 'or':
        return z3.Or([zmargin(x, mg) for x in b.args])
    return zb(b)


def _znum(v):
    try:
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
    except z3.Z3Exception:
        pass
    return None


def random_value(at, r):
    lo, hi = at.lo, at.hi
    if at.isint:
        lo = int(math.ceil(lo)) if lo is not None else -3
        hi = int(math.floor(hi)) if hi is not None else lo + 6
        return r.randint(lo, max(lo, hi))
    lo = float(lo) if lo is not None else (float(hi) - 3.0 if hi is not None else -2.0)
    hi = float(hi) if hi is not None else lo + 4.0
    u = r.random()
    if r.random() < 0.3:
        u = u * u * u
    return lo + (hi - lo) * u


class Shared:
    """State shared by all paths of one configuration."""

    def __init__(self, budget=120.0, tmo=1.0, max_enum=64, prove_tmo=20.0, use_cvc5=True, max_draws=64, seed=1):
        self.stats = Stats()
        self.cache = {}
        self.mcache = {}
        self.suppc = {}
        self.sosdone = {}
        self.vars = []
        self.varset = set()
        self.max_draws = max_draws
        self.deadline = time.time() + budget
        self.tmo = tmo
        self.prove_tmo = prove_tmo
        self.max_enum = max_enum
        self.unknown_branches = 0
        self.use_cvc5 = use_cvc5
        self.slow = []
        self.pool = []          # stored assignments
        self.wcache = {}
        self.wtrials = 0
        self.rnd = random.Random(seed)

    def random_env(self):
        r = self.rnd
        e = {}
        for aid in self.vars:
            e[aid] = random_value(ATOMS[aid], r)
        return e

    def add_env(self, e):
        self.pool.append(e)
        return len(self.pool) - 1

    def wvalue(self, b, i):
        k = (b.key(), i)
        v = self.wcache.get(k, 0)
        if v == 0 and v is not False:
            e = self.pool[i]
            for aid in self.vars:
                if aid not in e:
                    e[aid] = random_value(ATOMS[aid], self.rnd)
            v = self.wcache[k] = wtri(b, e, self)
        return v
