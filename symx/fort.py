"""Symbolic interpreter for the Fortran extensions.

The current .f90 source is compiled by gfortran (-O0) on every run; its GIMPLE
control-flow-graph dump (-fdump-tree-cfg) is parsed and interpreted over the
same symbolic values as the Python code.  The f2py calling convention is
reproduced from the argument declarations (numpy.f2py's crackfortran)."""
import os
import re
import shutil
import subprocess
import tempfile
import types
from fractions import Fraction

import numpy as np

from . import arr, core
from .core import EngineError, S, SBool, Sym


class FortranError(Exception):
    """A memory error of the Fortran code (out-of-bounds access)."""


UNINIT = object()


class Mem:
    __slots__ = ('cells', 'kind', 'name')

    def __init__(self, n, kind, name):
        self.cells = [UNINIT] * n
        self.kind = kind
        self.name = name


class Ptr:
    __slots__ = ('mem', 'off')

    def __init__(self, mem, off=0):
        self.mem = mem
        self.off = off


class Raw:
    """malloc'ed bytes whose element type is not known yet."""
    __slots__ = ('nbytes', 'mem')

    def __init__(self, nbytes):
        self.nbytes = nbytes
        self.mem = None


_UN = [0]


def _fresh(kind):
    c = core.cur()
    v = c.uninit('f' if kind == 'f' else 'i')
    return v if kind != 'b' else (v != 0)


def _load(p, i=0):
    m = p.mem
    j = p.off + i
    if j < 0 or j >= len(m.cells):
        raise FortranError('read outside of %s (element %d of %d)' % (m.name, j, len(m.cells)))
    v = m.cells[j]
    if v is UNINIT:
        v = m.cells[j] = _fresh(m.kind)
    return v


def _store(p, i, v):
    m = p.mem
    j = p.off + i
    if j < 0 or j >= len(m.cells):
        raise FortranError('write outside of %s (element %d of %d)' % (m.name, j, len(m.cells)))
    m.cells[j] = v


def _index(i, n):
    if isinstance(i, int):
        return i
    if isinstance(i, Sym):
        if i.is_const():
            return int(i.const())
        if bool(i < 0) or bool(i >= n):
            raise FortranError('index out of bounds')
        return core.concretize(i)
    raise EngineError('index')


_ESZ = {'real(kind=8)': 8, 'real(kind=4)': 4, 'integer(kind=4)': 4, 'integer(kind=8)': 8, 'logical(kind=4)': 4,
        'integer(kind=2)': 2, 'integer(kind=1)': 1, 'logical(kind=1)': 1, 'logical(kind=8)': 8}


def tkind(t):
    t = t.strip()
    if t.startswith('real') or t in ('double', 'float'):
        return 'f'
    if t.startswith('logical') or t == '_Bool':
        return 'b'
    return 'i'


# --------------------------------------------------------------------------
# parsing

_NUM = re.compile(r'^-?\d+(B)?$')
_FLT = re.compile(r'^-?\d+\.\d*(e[+-]?\d+)?$|^-?\d+e[+-]?\d+$')
_NAME = r'[A-Za-z_][\w.$]*'
_NAMERE = re.compile(r'^%s$' % _NAME)
_BIN = re.compile(r'^(\S+) (\+|-|\*|/|%|&|\||\^|<|>|<=|>=|==|!=|u<|u<=|u>|u>=|u==|unord|ord|ltgt|<<|>>) (\S+)$')


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []        # (name, type, isarray)
        self.locals = {}        # name -> (type, n or None, ptr?)
        self.blocks = {}
        self.order = []
        self.rtype = 'void'


def parse_expr(t):
    t = t.strip()
    if t == 'NULL' or t == '0B':
        return ('null',)
    if _NUM.match(t):
        return ('c', int(t.rstrip('B')))
    if _FLT.match(t):
        f = float(t)
        return ('c', S(Fraction(repr(f))))
    if _NAMERE.match(t):
        return ('v', t)
    m = re.match(r'^\(\((.*)\)\)$', t)
    if m and _NAMERE.match(m.group(1)):
        return ('v', m.group(1))
    m = re.match(r'^\*(%s)$' % _NAME, t)
    if m:
        return ('ld', ('v', m.group(1)), ('c', 0))
    m = re.match(r'^\(\*(%s)\)\[(\S+)\]$' % _NAME, t)
    if m:
        return ('ld', ('v', m.group(1)), parse_expr(m.group(2)))
    m = re.match(r'^(%s)\[(\S+)\]$' % _NAME, t)
    if m:
        return ('ld', ('arr', m.group(1)), parse_expr(m.group(2)))
    m = re.match(r'^&(%s)$' % _NAME, t)
    if m:
        return ('addr', m.group(1))
    m = re.match(r'^&\(\*(%s)\)\[(\S+)\]$' % _NAME, t)
    if m:
        return ('addri', ('v', m.group(1)), parse_expr(m.group(2)))
    m = re.match(r'^&(%s)\[(\S+)\]$' % _NAME, t)
    if m:
        return ('addri', ('arr', m.group(1)), parse_expr(m.group(2)))
    m = re.match(r'^-(\S+)$', t)
    if m:
        return ('neg', parse_expr(m.group(1)))
    m = re.match(r'^[~!](\S+)$', t)
    if m:
        return ('not', parse_expr(m.group(1)))
    m = re.match(r'^(ABS_EXPR) <(\S+)>$', t)
    if m:
        return ('abs', parse_expr(m.group(2)))
    m = re.match(r'^(MIN_EXPR|MAX_EXPR) <(\S+), (\S+)>$', t)
    if m:
        return ('min' if m.group(1)[:3] == 'MIN' else 'max', parse_expr(m.group(2)), parse_expr(m.group(3)))
    m = re.match(r'^\(([\w ]+(?:\(kind=\d+\))?)\) (\S+)$', t)
    if m:
        return ('cast', m.group(1), parse_expr(m.group(2)))
    m = _BIN.match(t)
    if m:
        return ('bin', m.group(2), parse_expr(m.group(1)), parse_expr(m.group(3)))
    m = re.match(r'^(%s) \((.*)\)$' % _NAME, t) or re.match(r'^(\.%s) \((.*)\)$' % _NAME, t)
    if m:
        return ('call', m.group(1), [parse_expr(a) for a in split_args(m.group(2))])
    return ('bad', t)


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([<':
            d += 1
        if ch in ')]>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_cfg(txt):
    funcs = {}
    for m in re.finditer(r'^([\w() =]*?(?:\(kind=\d+\))?) ?\*?(\w+) \(([^\n]*)\)\n\{\n(.*?)^\}$', txt, re.M | re.S):
        rtype, name, params, body = m.groups()
        f = Func(name)
        f.rtype = rtype.strip()
        for p in split_args(params):
            if p == 'void':
                continue
            pm = re.match(r'^(.*?)(?: \*| &)? ?(?:restrict )?(%s)$' % _NAME, p)
            t = pm.group(1)
            isarr = '[' in t
            f.params.append((pm.group(2), t.split('[')[0].strip(), isarr))
        blk = None
        pend = None
        for line in body.split('\n'):
            l = line.strip()
            if not l:
                continue
            b = re.match(r'^<bb (\d+)> ?:', l)
            if b:
                blk = int(b.group(1))
                f.blocks[blk] = []
                f.order.append(blk)
                continue
            if blk is None:
                dm = re.match(r'^(.*?) ?(\*)? ?(?:restrict )?(%s)(?:\[(\d+)\])?;$' % _NAME, l)
                if dm:
                    t = dm.group(1).strip()
                    # pointer to array / plain pointer / plain array / scalar
                    isptr = bool(dm.group(2)) or t.endswith('*') or ('*' in l and '[' in t)
                    f.locals[dm.group(3)] = (t.split('[')[0].rstrip('* ').strip(), int(dm.group(4)) if dm.group(4) else None, isptr)
                    am = re.match(r'^(\S+)\[(\d+)\] (%s);$' % _NAME, l)
                    if am:
                        f.locals[am.group(3)] = (am.group(1), int(am.group(2)), False)
                continue
            l = re.sub(r'; \[.*\]$', ';', l)
            f.blocks[blk].append(l)
        funcs[name] = compile_func(f)
    return funcs


def compile_func(f):
    for b, ls in f.blocks.items():
        out = []
        i = 0
        while i < len(ls):
            l = ls[i]
            m = re.match(r'^if \((.*)\)$', l)
            if m:
                t = int(re.match(r'goto <bb (\d+)>;', ls[i + 1]).group(1))
                e = int(re.match(r'goto <bb (\d+)>;', ls[i + 3]).group(1))
                out.append(('if', parse_expr(m.group(1)), t, e))
                i += 4
                continue
            m = re.match(r'^goto <bb (\d+)>;$', l)
            if m:
                out.append(('goto', int(m.group(1))))
            elif l == 'return;':
                out.append(('ret', None))
            elif l.startswith('return '):
                out.append(('ret', parse_expr(l[7:-1])))
            elif re.match(r'^(L\.\d+|<L\d+>|%s) ?:' % _NAME, l) or 'CLOBBER' in l or l.startswith('//') or l.startswith('try') or l.startswith('# '):
                pass
            elif l.startswith('switch'):
                m = re.match(r'^switch \((\S+)\) <(.*)>;?$', l)
                out.append(('bad', l))
            else:
                m = re.match(r'^(.*?) = (.*);$', l)
                if m and not re.match(r'^%s \(' % _NAME, l):
                    out.append(('set', parse_expr(m.group(1)), parse_expr(m.group(2))))
                elif l.endswith(';'):
                    out.append(('do', parse_expr(l[:-1])))
                else:
                    out.append(('bad', l))
            i += 1
        f.blocks[b] = out
    return f


# --------------------------------------------------------------------------
# evaluation

class Machine:
    def __init__(self, funcs, trace=None):
        self.funcs = funcs
        self.trace = trace
        self.steps = 0

    def run(self, f, args):
        if self.trace is not None:
            self.trace[f.name] = self.trace.get(f.name, 0) + 1
        env = {}
        for (n, t, a), v in zip(f.params, args):
            env[n] = v
        for n, (t, cnt, isptr) in f.locals.items():
            if cnt is not None and not isptr:
                env[n] = Ptr(Mem(cnt, tkind(t), n))
            elif not isptr:
                env[n] = Ptr(Mem(1, tkind(t), n))
            else:
                env[n] = None
        scal = {n for n, (t, cnt, isptr) in f.locals.items() if cnt is None and not isptr}
        ptrs = {n: t for n, (t, cnt, isptr) in f.locals.items() if isptr}
        b = f.order[0]
        nxt = {x: y for x, y in zip(f.order, f.order[1:])}
        while True:
            self.steps += 1
            if self.steps > 400000:
                raise EngineError('fortran step limit')
            goto = None
            for st in f.blocks[b]:
                k = st[0]
                if k == 'set':
                    lhs, v = st[1], self.ev(st[2], env, scal)
                    if lhs[0] == 'v':
                        n = lhs[1]
                        if n in scal:
                            env[n].mem.cells[0] = v
                        elif n in ptrs and isinstance(v, Raw):
                            t = ptrs[n]
                            if v.mem is None and t in _ESZ:
                                v.mem = Mem(v.nbytes // _ESZ[t], tkind(t), n)
                            env[n] = Ptr(v.mem) if v.mem is not None else v
                        else:
                            env[n] = v
                    elif lhs[0] == 'ld':
                        p = self.ptr(lhs[1], env)
                        _store(p, _index(self.ev(lhs[2], env, scal), len(p.mem.cells) - p.off), v)
                    else:
                        raise EngineError('fortran statement %r' % (st,))
                elif k == 'if':
                    c = self.ev(st[1], env, scal)
                    goto = st[2] if self.truth(c) else st[3]
                    break
                elif k == 'goto':
                    goto = st[1]
                    break
                elif k == 'ret':
                    return self.ev(st[1], env, scal) if st[1] is not None else None
                elif k == 'do':
                    self.ev(st[1], env, scal)
                else:
                    raise EngineError('fortran statement ' + str(st[1])[:80])
            if goto is None:
                if b not in nxt:
                    return None
                goto = nxt[b]
            b = goto

    def truth(self, c):
        if isinstance(c, (bool, SBool)):
            return bool(c)
        if isinstance(c, int):
            return c != 0
        return bool(c != 0)

    def ptr(self, e, env):
        p = env.get(e[1])
        if isinstance(p, Raw):
            raise EngineError('untyped memory')
        if not isinstance(p, Ptr):
            raise EngineError('not a pointer: %s' % e[1])
        return p

    def ev(self, e, env, scal):
        k = e[0]
        if k == 'c':
            return e[1]
        if k == 'v':
            n = e[1]
            if n in scal:
                return _load(env[n])
            if n not in env:
                raise EngineError('fortran value ' + n)
            return env[n]
        if k == 'ld':
            p = self.ptr(e[1], env)
            return _load(p, _index(self.ev(e[2], env, scal), len(p.mem.cells) - p.off))
        if k == 'addr':
            p = env.get(e[1])
            if not isinstance(p, Ptr):
                raise EngineError('address of ' + e[1])
            return p
        if k == 'addri':
            p = self.ptr(e[1], env)
            i = self.ev(e[2], env, scal)
            return Ptr(p.mem, p.off + (i if isinstance(i, int) else core.concretize(i)))
        if k == 'bin':
            return self.bin(e[1], self.ev(e[2], env, scal), self.ev(e[3], env, scal))
        if k == 'cast':
            return self.cast(e[1], self.ev(e[2], env, scal))
        if k == 'neg':
            return -self.num(self.ev(e[1], env, scal))
        if k == 'not':
            v = self.ev(e[1], env, scal)
            if isinstance(v, (bool, SBool)):
                return core.b_not(v) if isinstance(v, SBool) else not v
            if isinstance(v, int):
                return ~v
            return -v - 1
        if k == 'abs':
            return abs(self.num(self.ev(e[1], env, scal)))
        if k in ('min', 'max'):
            a, b = self.num(self.ev(e[1], env, scal)), self.num(self.ev(e[2], env, scal))
            if isinstance(a, int) and isinstance(b, int):
                return min(a, b) if k == 'min' else max(a, b)
            lt = self.truth(a < b) if k == 'min' else self.truth(a > b)
            return a if lt else b
        if k == 'call':
            return self.call(e[1], e[2], env, scal)
        if k == 'null':
            return None
        raise EngineError('fortran expression %r' % (e[1:],))

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        return v

    def bin(self, op, a, b):
        if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
            if op in ('&', '|', '^', '==', '!='):
                A = self.bool_(a)
                B = self.bool_(b)
                if op == '&':
                    return core.b_and(A, B)
                if op == '|':
                    return core.b_or(A, B)
                ne = core.b_or(core.b_and(A, core.b_not(B)), core.b_and(core.b_not(A), B))
                return ne if op in ('^', '!=') else core.b_not(ne)
            raise EngineError('logical operand of ' + op)
        isint = isinstance(a, int) and isinstance(b, int)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if self.isint(a) and self.isint(b):
                a, b = self.conc(a), self.conc(b)
                if b == 0:
                    raise FortranError('integer division by zero')
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            return core.lift(a) / core.lift(b)
        if op == '%':
            a, b = self.conc(a), self.conc(b)
            if b == 0:
                raise FortranError('integer division by zero')
            r = abs(a) % abs(b)
            return r if a >= 0 else -r
        if op in ('<', 'u<'):
            return a < b
        if op in ('<=', 'u<='):
            return a <= b
        if op in ('>', 'u>'):
            return a > b
        if op in ('>=', 'u>='):
            return a >= b
        if op in ('==', 'u=='):
            return a == b
        if op in ('!=', 'ltgt'):
            return a != b
        if isint and op in ('<<', '>>', '&', '|', '^'):
            return {'<<': a << b if op == '<<' else 0, '>>': a >> b if op == '>>' else 0, '&': a & b, '|': a | b, '^': a ^ b}[op]
        if op == 'ord':
            return not (isinstance(a, float) or isinstance(b, float))
        if op == 'unord':
            return isinstance(a, float) or isinstance(b, float)
        raise EngineError('operator ' + op)

    def isint(self, v):
        return isinstance(v, int) or (isinstance(v, Sym) and v.isint and not v.is_const())

    def conc(self, v):
        return v if isinstance(v, int) else core.concretize(v)

    def bool_(self, v):
        if isinstance(v, SBool):
            return v
        if isinstance(v, (bool, int)):
            return core.TRUE if v else core.FALSE
        return core.to_bool(v != 0)

    def cast(self, t, v):
        k = tkind(t)
        if k == 'f':
            if isinstance(v, (bool, SBool)):
                raise EngineError('real of a logical')
            if isinstance(v, float):
                return v
            if t.strip() == 'real(kind=4)':
                return self.single(v)
            return core.lift(v)
        if k == 'b':
            return self.bool_(v)
        if isinstance(v, (bool, SBool)):
            return 1 if bool(v) else 0
        if isinstance(v, int):
            return v
        if isinstance(v, (Ptr, Raw)) or v is None:
            return v
        if isinstance(v, float):
            raise EngineError('integer of nan')
        if self.isint(v):
            return v
        # real -> integer truncates toward zero: make it concrete by comparisons
        return trunc_conc(v)

    def single(self, v):
        """Rounding to single precision: exact for integers below 2**24, else a free relative error."""
        if isinstance(v, int):
            return core.lift(v)
        v = core.lift(v)
        if v.is_const():
            return S(Fraction(float(np.float32(float(v.const())))))
        if v.isint:
            return v
        _UN[0] += 1
        c = core.cur()
        n = c.nuninit
        c.nuninit += 1
        a = core.new_atom('var', 'round#%d' % n, 'round%d' % n, lo=Fraction(-1, 2 ** 24), hi=Fraction(1, 2 ** 24))
        if a.id not in c.sh.varset:
            c.sh.varset.add(a.id)
            c.sh.vars.append(a.id)
        return v * (1 + Sym({((a.id, 1),): 1}))

    def call(self, name, args, env, scal):
        if name in self.funcs:
            f = self.funcs[name]
            vals = []
            for a in args:
                v = self.ev(a, env, scal)
                if isinstance(v, (int, Sym, SBool, float)):
                    raise EngineError('by-value argument')
                vals.append(v)
            return self.run(f, vals)
        if name in ('__builtin_free', '__builtin_stack_restore', '_gfortran_set_args', '_gfortran_set_options'):
            return None
        if name == '__builtin_stack_save':
            return None
        if name in ('__builtin_malloc', '__builtin_alloca_with_align', '__builtin_alloca'):
            n = self.ev(args[0], env, scal)
            return Raw(n if isinstance(n, int) else core.concretize(n))
        if name == '__builtin_calloc':
            r = Raw(self.conc(self.ev(args[0], env, scal)) * self.conc(self.ev(args[1], env, scal)))
            return r
        vals = [self.ev(a, env, scal) for a in args]
        f = _BUILTINS.get(name)
        if f is not None:
            return f(*vals)
        raise EngineError('fortran call ' + name)


def trunc_conc(v):
    c = core.cur()
    k = 0
    if bool(v >= 0):
        while not bool(v < k + 1):
            k += 1
            if k > 200:
                raise EngineError('integer out of the modelled range')
        return k
    while not bool(v > k - 1):
        k -= 1
        if k < -200:
            raise EngineError('integer out of the modelled range')
    return k


def floor_conc(v):
    t = trunc_conc(v)
    if t <= 0 and bool(core.lift(v) < t):
        return t - 1
    return t


def _powi(x, n):
    n = n if isinstance(n, int) else core.concretize(n)
    return core.lift(x) ** n


_BUILTINS = {}
for _s in ('', 'f'):
    _BUILTINS['__builtin_sqrt' + _s] = lambda x: core.sqrt_(core.lift(x))
    _BUILTINS['__builtin_floor' + _s] = lambda x: S(floor_conc(core.lift(x)))
    _BUILTINS['__builtin_ceil' + _s] = lambda x: S(-floor_conc(-core.lift(x)))
    _BUILTINS['__builtin_trunc' + _s] = lambda x: S(trunc_conc(core.lift(x)))
    _BUILTINS['__builtin_fabs' + _s] = lambda x: abs(core.lift(x))
    _BUILTINS['__builtin_cos' + _s] = lambda x: core.cos_(core.lift(x))
    _BUILTINS['__builtin_sin' + _s] = lambda x: core.sin_(core.lift(x))
    _BUILTINS['__builtin_powi' + _s] = _powi
    _BUILTINS['__builtin_pow' + _s] = lambda x, y: core.pow_(core.lift(x), core.lift(y))
    _BUILTINS['__builtin_fmax' + _s] = lambda x, y: x if bool(x >= y) else y
    _BUILTINS['__builtin_fmin' + _s] = lambda x, y: x if bool(x <= y) else y
    _BUILTINS['__builtin_ifloor' + _s] = lambda x: floor_conc(core.lift(x))
    _BUILTINS['__builtin_lfloor' + _s] = lambda x: floor_conc(core.lift(x))
    _BUILTINS['__builtin_iceil' + _s] = lambda x: -floor_conc(-core.lift(x))
    _BUILTINS['__builtin_fmod' + _s] = lambda x, y: core.lift(x) - core.lift(y) * trunc_conc(core.lift(x) / core.lift(y))

    def _copysign(x, y):
        x = abs(core.lift(x))
        return x if bool(core.lift(y) >= 0) else -x
    _BUILTINS['__builtin_copysign' + _s] = _copysign

    def _iround(x):
        x = core.lift(x)
        return floor_conc(x + S(Fraction(1, 2))) if bool(x >= 0) else -floor_conc(-x + S(Fraction(1, 2)))
    _BUILTINS['__builtin_iround' + _s] = _iround
    _BUILTINS['__builtin_lround' + _s] = _iround
    _BUILTINS['__builtin_round' + _s] = lambda x: S(_iround(x))
_BUILTINS['.FLOOR'] = _BUILTINS['__builtin_floor']
_BUILTINS['.SQRT'] = _BUILTINS['__builtin_sqrt']


# --------------------------------------------------------------------------
# f2py interface

class Frontend:
    def __init__(self, funcs=None):
        self.trace = funcs
        self.cache = {}

    def __call__(self, path, full):
        if path not in self.cache:
            self.cache[path] = self.compile(path)
        funcs, decl = self.cache[path]
        m = types.ModuleType(full)
        for name in decl:
            setattr(m, name, self.wrapper(name, decl[name], funcs, full))
        return m

    def compile(self, path):
        d = tempfile.mkdtemp(prefix='symf_', dir='/tmp')
        try:
            src = os.path.dirname(path)
            r = subprocess.run(['gfortran', '-O0', '-c', '-fdump-tree-cfg', '-ffree-line-length-none', '-I' + src, path, '-o', os.path.join(d, 'x.o'),
                                '-dumpdir', d + '/'], cwd=d, capture_output=True)
            if r.returncode:
                raise EngineError('gfortran failed: ' + r.stderr.decode()[-500:])
            dump = [f for f in os.listdir(d) if f.endswith('.cfg')]
            txt = open(os.path.join(d, dump[0])).read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
        decl = self.decls(path)
        return parse_cfg(txt), decl

    def decls(self, path):
        from numpy.f2py import crackfortran as cf
        cf.verbose = 0
        cf.quiet = 1
        cwd = os.getcwd()
        try:
            os.chdir(os.path.dirname(path))
            # inline the includes ourselves, as f2py does
            import io
            import contextlib
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                cf.include_paths = [os.path.dirname(path)] if hasattr(cf, 'include_paths') else None
                if cf.include_paths is None:
                    del cf.include_paths
                tree = cf.crackfortran([path])
        finally:
            os.chdir(cwd)
        out = {}

        def walk(b):
            for x in b:
                if x['block'] in ('subroutine', 'function'):
                    out[x['name']] = x
                else:
                    walk(x.get('body', []))
        walk(tree)
        return out

    def wrapper(self, name, d, funcs, full):
        args = d['args']
        vs = d['vars']
        if d['block'] == 'function':
            def bad(*a, **k):
                raise EngineError('fortran function ' + name)
            return bad
        ins, outs = [], []
        info = {}
        for a in args:
            v = vs.get(a, {})
            it = v.get('intent', [])
            dim = v.get('dimension')
            ts = v.get('typespec', 'real')
            kind = 'i' if ts == 'integer' else 'b' if ts == 'logical' else 'f'
            isout = 'out' in it or ('inout' in it and False)
            isin = ('out' not in it) or 'in' in it
            inplace = 'inout' in it or 'inplace' in it
            info[a] = (kind, dim, isin, 'out' in it, inplace)
        # dimension arguments that an input array determines are optional
        opt = {}
        for a in args:
            kind, dim, isin, isout, inpl = info[a]
            if dim and isin:
                for j, x in enumerate(dim):
                    if x in info and info[x][2] and not info[x][1] and x not in opt:
                        opt[x] = (a, j)
        need = [a for a in args if info[a][2] and a not in opt]
        sig = need + [a for a in args if a in opt]
        trace = self.trace
        tag = 'magpie/src/%s.f90:' % full.split('.')[-1]

        def call(*pos, **kw):
            vals = {}
            if len(pos) > len(sig):
                raise TypeError('%s() takes at most %d arguments' % (name, len(sig)))
            for n, v in zip(sig, pos):
                vals[n] = v
            for n, v in kw.items():
                if n in vals or n not in sig:
                    raise TypeError("'%s' is an invalid keyword argument for %s()" % (n, name))
                vals[n] = v
            for n in need:
                if n not in vals:
                    raise TypeError("%s() missing required argument '%s'" % (name, n))
            sc, arrs = {}, {}
            for a in args:
                kind, dim, isin, isout, inpl = info[a]
                if isin and not dim and a in vals and vals[a] is not None:
                    v = vals[a]
                    if isinstance(v, np.ndarray):
                        el = arr.elems(arr.toobj(v))
                        if not el:
                            raise TypeError('scalar argument expected')
                        v = el[0]
                    if isinstance(v, (list, tuple)):
                        v = v[0]
                    if v is None or isinstance(v, str):
                        raise TypeError('must be real number')
                    v = arr.num(v)
                    if kind == 'i':
                        v = arr.conv1(v, 'i')
                        v = v if isinstance(v, int) else core.concretize(v)
                    sc[a] = v
                elif isin and not dim and a in vals:
                    if a in opt:
                        continue
                    raise TypeError("must be real number, not NoneType")
            for a in args:
                kind, dim, isin, isout, inpl = info[a]
                if isin and dim:
                    v = arr.asarr(vals[a])
                    if v.ndim > 1 and len(dim) == 1:
                        if kind == 'f' or True:
                            el = arr.elems(arr.toobj(v))
                    else:
                        el = None
                    if v.ndim == 0:
                        v = v.reshape(1)
                    if len(dim) == 1:
                        e = arr.elems(arr.toobj(v))
                        shp = (len(e),)
                    else:
                        if v.ndim != len(dim):
                            raise ValueError('too many axes')
                        e = list(arr.toobj(v).reshape(-1, order='F'))
                        shp = v.shape
                    e = [arr.conv1(x, kind) for x in e]
                    if kind == 'i':
                        e = [x if isinstance(x, int) else core.concretize(x) for x in e]
                    arrs[a] = (e, shp)
            for x, (a, j) in opt.items():
                if x not in sc:
                    sc[x] = arrs[a][1][j]
                elif arrs[a][1][j] < sc[x]:
                    raise ValueError('(shape(%s, %d) == %s) failed' % (a, j, x))
            call_args = []
            res = []
            for a in args:
                kind, dim, isin, isout, inpl = info[a]
                if dim:
                    if isin:
                        m = Mem(len(arrs[a][0]), kind, a)
                        m.cells[:] = arrs[a][0]
                        shp = arrs[a][1]
                    else:
                        shp = tuple(self.dim(x, sc) for x in dim)
                        if any(s < 0 for s in shp):
                            raise ValueError('negative dimensions are not allowed')
                        n = 1
                        for s in shp:
                            n *= s
                        m = Mem(n, kind, a)
                    if isout:
                        res.append((m, shp, kind))
                else:
                    m = Mem(1, kind, a)
                    if isin:
                        m.cells[0] = sc[a]
                    if isout:
                        res.append((m, None, kind))
                call_args.append(Ptr(m))
            tr = {}
            M = Machine(funcs, tr)
            try:
                M.run(funcs[name], call_args)
            finally:
                if trace is not None:
                    for t, c in tr.items():
                        trace[tag + t] = trace.get(tag + t, 0) + c
            out = []
            for m, shp, kind in res:
                cells = [_load(Ptr(m), i) for i in range(len(m.cells))]
                if shp is None:
                    out.append(cells[0])
                elif len(shp) == 1:
                    out.append(arr.mk(cells, shp, kind))
                else:
                    o = np.empty(len(cells), dtype=object)
                    for i, c in enumerate(cells):
                        o[i] = c
                    out.append(arr.wrap(np.array(o.reshape(shp, order='F')), kind))
            if not out:
                return None
            return out[0] if len(out) == 1 else tuple(out)
        call.__name__ = name
        return call

    def dim(self, x, sc):
        if re.match(r'^-?\d+$', x):
            return int(x)
        if not re.match(r'^[\w\s+*/()-]+$', x):
            raise EngineError('dimension ' + x)
        try:
            return int(eval(x.replace('/', '//'), {'__builtins__': {}}, dict(sc)))
        except Exception:
            raise EngineError('dimension ' + x)
