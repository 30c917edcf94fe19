"""Symbolic side of the harness API and the path explorer."""
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import arr, core, ctx as ctxm, loader, stubs
from .core import EngineError, PathAbort, S, SBool, Sym


class Expected(Exception):
    pass


def _isnan(x):
    return isinstance(x, float) and x != x


class SymH:
    symbolic = True

    def __init__(self, ctx, run):
        self.c = ctx
        self.run = run
        self.np = arr.shim
        self.pi = arr.shim.pi
        self.hp = stubs.hp
        self.nan = core.NAN
        self._loader = None
        self.obs = []              # (label, [Sym...]) for encoder validation
        self.nobl = 0
        self.labels = set()
        self.names = {}

    # -- program under test
    def mod(self, name='magpie'):
        if self._loader is None:
            self._loader = loader.Loader(self.run.root, 'magpie', stubs.make_stubs(), self.run.fortran, self.run.codes)
            self.run.loader = self._loader
        return self._loader.load(name)

    # -- inputs
    def _var(self, name, **kw):
        a = core.new_atom('var', name, name, **kw)
        sh = self.c.sh
        if a.id not in sh.varset:
            sh.varset.add(a.id)
            sh.vars.append(a.id)
        self.names[name] = a.id
        return Sym({((a.id, 1),): 1})

    def real(self, name, lo=None, hi=None, lostrict=False, histrict=False):
        return self._var(name, lo=_fr(lo), hi=_fr(hi), lostrict=lostrict, histrict=histrict)

    def int(self, name, lo, hi):
        return self._var(name, lo=_fr(lo), hi=_fr(hi), isint=True)

    def angle(self, name, lo=0, hi=None, lostrict=False, histrict=False):
        """A real bounded by rational multiples of pi: lo*pi <= x <= hi*pi (margins are outward-rounded)."""
        hi = 2 if hi is None else hi
        pl, ph = Fraction(314159265358979, 10 ** 14), Fraction(314159265358980, 10 ** 14)
        lo, hi = Fraction(lo), Fraction(hi)
        l = lo * (pl if lo > 0 else ph)
        u = hi * (ph if hi > 0 else pl)
        x = core.angle_var(name, l, u)
        aid = next(iter(x.atoms()))
        sh = self.c.sh
        if aid not in sh.varset:
            sh.varset.add(aid)
            sh.vars.append(aid)
        self.names[name] = aid
        if lostrict:
            self.assume(x > self.pi * S(lo))
        elif lo != 0:
            self.assume(x >= self.pi * S(lo))
        if histrict:
            self.assume(x < self.pi * S(hi))
        elif hi != 0:
            self.assume(x <= self.pi * S(hi))
        return x

    def q(self, a, b=1):
        """Exact rational constant."""
        return S(Fraction(a) / Fraction(b)) if not isinstance(a, str) else S(Fraction(a))

    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        n = 1
        for s in shape:
            n *= s
        return arr.mk([self.real('%s_%d' % (name, i), lo, hi) for i in range(n)], shape)

    def arr(self, l, dtype=None):
        return arr.array(l, dtype=dtype) if dtype is not None else arr.array([x if not isinstance(x, (int, Fraction)) else S(x) for x in l] if not any(isinstance(x, (list, tuple, np.ndarray)) for x in l) else l, dtype=float)

    def hmap(self, name, nside, lo=-10000, hi=10000):
        return stubs.HMap(name, nside, _fr(lo), _fr(hi))

    def distinct_pix(self):
        """From here on, different directions lie in different pixels (numbered in no order)."""
        self.c.distinct_pix = True

    def dirpix(self, nside, x, y, z):
        """Pixel containing the unit vector (x, y, z)."""
        return stubs.dir_pix(nside, (arr.num(x), arr.num(y), arr.num(z)))

    def increasing(self, name, n, lo=None, hi=None, mingap=None):
        """n strictly increasing reals, as first + positive gaps."""
        x = self.real(name + '0', lo, hi)
        out = [x]
        for i in range(1, n):
            x = x + self.real('%sg%d' % (name, i), _fr(mingap) if mingap is not None else 0, 8, lostrict=mingap is None)
            out.append(x)
        return out

    def draws(self):
        """The uniform draws made so far on this path."""
        return list(self.c.draws)

    def fix_draws(self, f):
        """f(n): the value (rational) of the n-th draw, or None to leave it free."""
        self.c.preset = lambda n: None if f(n) is None else Fraction(f(n))

    def replay(self, l, fn):
        """Call fn with the draws of list l in place of new ones."""
        c = self.c
        keep, d = c.preset, c.draws
        c.draws = []
        c.preset = lambda n: l[n]
        try:
            return fn()
        finally:
            c.preset, c.draws = keep, d

    # -- assumptions / obligations
    def assume(self, cond):
        b = core.to_bool(cond) if not isinstance(cond, (bool, SBool, np.bool_)) else cond
        if isinstance(b, (bool, np.bool_)):
            if not b:
                raise PathAbort()
            return
        # an assumption is one decision without alternative
        c = self.c
        k = c.known(b)
        if k is True:
            return
        if k is False:
            raise PathAbort()
        if c.witness(b, True) is None:
            v, _ = c.check([b], want=True)
            if v == 'unsat':
                raise PathAbort()
        c.assume_lit(b)
        c.replenish()

    def eq(self, a, b, label='eq', tol=1e-8):
        av, ash = _flatten(a)
        bv, bsh = _flatten(b)
        self.labels.add(label)
        if ash != bsh and ash != () and bsh != ():
            self.run.obligation(self, label, core.FALSE, 'shape %s != %s' % (ash, bsh))
            return
        if ash != bsh:
            n = max(len(av), len(bv))
            av = av * n if ash == () else av
            bv = bv * n if bsh == () else bv
        self.obs.append((label, av))
        for i, (x, y) in enumerate(zip(av, bv)):
            x, y = _scal(x), _scal(y)
            if isinstance(x, float) or isinstance(y, float):
                same = (_isnan(x) and _isnan(y)) or (isinstance(x, float) and isinstance(y, float) and x == y)
                self.run.obligation(self, label, core.TRUE if same else core.FALSE, 'elt %d: %r vs %r' % (i, x, y))
                continue
            d = x - y
            if isinstance(d, Sym) and d.n == {}:
                self.run.closed(self, label)
                continue
            self.run.obligation(self, label, core.rel('eq', d), 'elt %d' % i, num=d, tol=tol)

    def check(self, cond, label='check'):
        self.labels.add(label)
        if isinstance(cond, np.ndarray):
            for e in arr.elems(arr.toobj(cond)):
                self.check(e, label)
            return
        if isinstance(cond, (bool, np.bool_)):
            b = core.TRUE if cond else core.FALSE
        else:
            b = cond if isinstance(cond, SBool) else core.to_bool(cond)
        self.run.obligation(self, label, b, '')

    def same(self, a, b):
        """Is a == b for every input of this path?  (Concretely: are they equal?)  Makes no branch."""
        x, y = _scal(a), _scal(b)
        if isinstance(x, float) or isinstance(y, float):
            return _isnan(x) and _isnan(y)
        d = x - y
        if isinstance(d, Sym) and d.n == {}:
            return True
        return self.c.prove(core.rel('eq', d), 5) == 'unsat'

    def implied(self, cond):
        """Does cond hold for every input of this path?  (Concretely: does it hold?)"""
        return self.c.prove(cond if isinstance(cond, SBool) else core.to_bool(cond), 5) == 'unsat'

    def le(self, a, b, label='le', tol=1e-9):
        self.labels.add(label)
        av, ash = _flatten(a)
        bv, bsh = _flatten(b)
        n = max(len(av), len(bv)) if not (ash != () and bsh != () and ash != bsh) else None
        if n is None:
            self.run.obligation(self, label, core.FALSE, 'shape')
            return
        av = av * n if len(av) == 1 else av
        bv = bv * n if len(bv) == 1 else bv
        for x, y in zip(av, bv):
            x, y = _scal(x), _scal(y)
            if _isnan(x) or _isnan(y):
                self.run.obligation(self, label, core.FALSE, 'nan')
                continue
            self.run.obligation(self, label, core.to_bool(x <= y), '')

    def ge(self, a, b, label='ge', tol=1e-9):
        self.le(b, a, label, tol)

    def isnan(self, x):
        return _isnan(_scal(x))

    def fail(self, label):
        self.labels.add(label)
        self.run.obligation(self, label, core.FALSE, '')

    def raises(self, fn, excs, label):
        """fn() must raise one of excs."""
        try:
            fn()
        except (PathAbort, EngineError):
            raise
        except excs:
            self.run.closed(self, label)
            return True
        except Exception:
            pass
        self.fail(label)
        return False

    def known(self, kid, ok, wrong, label):
        """Known finding kid: `ok` should hold; where it does not, `wrong` describes exactly what is recorded."""
        self.labels.add(label)
        ok, wrong = core.to_bool(ok), core.to_bool(wrong)
        if kid in self.run.known_ids:
            if self.c.prove(ok, self.c.sh.prove_tmo) != 'unsat':
                self.run.known_hit.add(kid)
            self.run.obligation(self, label, core.b_or(ok, wrong), 'known finding ' + kid)
        else:
            self.run.obligation(self, label, ok, '')

    def snapshot(self, a):
        return arr.mk(list(arr.elems(arr.toobj(a))), a.shape, getattr(a, 'kind', 'f')) if isinstance(a, np.ndarray) else a


def _fr(x):
    if x is None:
        return None
    if isinstance(x, float):
        return Fraction(repr(x))
    if isinstance(x, Sym):
        return Fraction(x.const())
    return Fraction(x)


def _flatten(a):
    if isinstance(a, np.ndarray):
        return list(arr.elems(arr.toobj(a))), a.shape
    if isinstance(a, (list, tuple)):
        if any(isinstance(x, (list, tuple, np.ndarray)) for x in a):
            subs = [_flatten(x) for x in a]
            shs = {s for _, s in subs}
            if len(shs) == 1:
                return [e for s, _ in subs for e in s], (len(a),) + subs[0][1]
            return [e for s, _ in subs for e in s], ('ragged',) + tuple(s for _, s in subs)
        return list(a), (len(a),)
    return [a], ()


def _scal(x):
    if isinstance(x, SBool):
        return S(1) if bool(x) else S(0)
    if isinstance(x, (bool, np.bool_)):
        return S(int(x))
    if isinstance(x, np.ndarray):
        x = arr.elems(arr.toobj(x))[0]
    if x is None:
        return float('nan')
    return arr.num(x)


class Run:
    """One configuration: all its paths."""

    def __init__(self, cfg, root, budget, seed=1, fortran=None, known_ids=()):
        self.cfg = cfg
        self.root = root
        self.seed = seed
        self.fortran = fortran
        self.codes = {}
        self.loader = None
        self.known_ids = set(known_ids)
        self.known_hit = set()
        self.sh = ctxm.Shared(budget=budget, tmo=cfg.tmo, prove_tmo=cfg.prove_tmo, max_draws=cfg.max_draws, max_enum=cfg.max_enum, seed=seed)
        self.n_closed = 0
        self.n_solver = 0
        self.unknown = []          # obligations without verdict
        self.cands = []            # candidate violations
        self.candlab = {}
        self.paths = 0
        self.aborted = 0
        self.engine = []           # paths that could not be encoded
        self.left = 0
        self.cases = []            # interior model of each path, for replay
        self.labels = {}

    # -- obligations
    def closed(self, h, label):
        self.n_closed += 1
        h.nobl += 1
        self.labels[label] = self.labels.get(label, 0) + 1

    def obligation(self, h, label, cond, detail, num=None, tol=None):
        c = h.c
        h.nobl += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if cond.op == 'c' and cond.args:
            self.n_closed += 1
            return
        if self.candlab.get(label, 0) >= 3:
            return
        self.n_solver += 1
        # cheap refutation: a model of the path that falsifies the condition
        env = None
        if cond.op != 'c':
            i = c.witness(cond, False)
            if i is not None:
                env = dict(c.sh.pool[i])
                if num is not None:
                    try:
                        if abs(core.eval_sym(num, dict(env))) < 1e-5:
                            env = None
                    except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                        env = None
        elif c.wit:
            env = dict(c.sh.pool[c.wit[0]])
        if env is None and (num is not None or cond.op == 'c'):
            pe = c.path_env()
            if pe is not None:
                try:
                    bad = True if cond.op == 'c' else abs(core.eval_sym(num, dict(pe))) > 1e-5
                except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                    bad = False
                if bad:
                    env = pe
        if env is None:
            if cond.op == 'c':
                # path condition itself: is it satisfiable?
                v = c.check([], full=True, timeout=c.sh.prove_tmo)[0]
                if v == 'unsat':
                    raise PathAbort()
                env = c.model(timeout=c.sh.prove_tmo)
                v = 'sat'
            else:
                v = c.prove(cond, c.sh.prove_tmo)
            if v == 'unsat':
                return
            if env is None and v == 'sat' or env is None and v == 'unknown':
                neg = core.b_not(cond)
                lits = list(neg.args) if neg.op == 'and' else [neg]
                env = c.model(extra=lits, timeout=c.sh.prove_tmo if v == 'sat' else 4)
                if env is not None and num is not None:
                    try:
                        if abs(core.eval_sym(num, dict(env))) < 1e-7:
                            # too close to tell apart numerically: look for a clear one
                            for k in (Fraction(1, 2), Fraction(1, 50), Fraction(1, 5000)):
                                for s in (1, -1):
                                    e2 = c.model(extra=[core.rel('lt', (S(k) - num * s))] if num.d is core.ONE else
                                                 [core.SBool('lt', core.p_sub({(): k}, core.p_scale(num.n, s)))], timeout=4, margins=(None,))
                                    if e2 is not None and abs(core.eval_sym(num, dict(e2))) > 1e-6:
                                        env = e2
                                        break
                                else:
                                    continue
                                break
                    except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                        pass
            if env is None:
                self.unknown.append(dict(label=label, verdict=v, detail=detail))
                return
        self.candlab[label] = self.candlab.get(label, 0) + 1
        self.cands.append(dict(kind='obligation', label=label, detail=detail, env=self.export(h, env)))

    def export(self, h, env):
        out = {}
        for aid in self.sh.vars:
            if aid in env:
                out[core.ATOMS[aid].name] = env[aid]
        return out

    # -- exploration
    def explore(self):
        cfg = self.cfg
        rnd = random.Random(self.seed)
        todo = [[]]
        sys.setrecursionlimit(6000)
        while todo:
            if time.time() > self.sh.deadline or self.paths >= cfg.max_paths:
                self.left = len(todo)
                break
            if len(self.cands) >= 6:
                self.left = len(todo)
                break
            i = len(todo) - 1 if rnd.random() < 0.5 else rnd.randrange(len(todo))
            prefix = todo[i]
            todo[i] = todo[-1]
            todo.pop()
            core._LIT.clear()
            c = ctxm.Ctx(self.sh, prefix)
            core.set_cur(c)
            c.replenish(want=24, trials=24)
            h = SymH(c, self)
            done = False
            try:
                cfg.fn(h, **cfg.kw)
                done = True
            except PathAbort:
                self.aborted += 1
            except EngineError as e:
                self.engine_path(h, c, str(e))
            except RecursionError as e:
                self.engine_path(h, c, 'recursion ' + _tb(e))
            except Exception as e:
                if _from_engine(e):
                    self.engine_path(h, c, 'engine: %s: %s @ %s' % (type(e).__name__, e, _tb(e)))
                else:
                    self.exception(h, c, e)
            todo.extend(c.alts)
            if done:
                self.paths += 1
                if len(self.cases) < cfg.validate:
                    env = c.path_env()
                    if env is None:
                        env = c.model(timeout=4)
                    if env is not None:
                        obs = {}
                        full = dict(env)
                        for lab, vals in h.obs[:40]:
                            l = obs.setdefault(lab, [])
                            for v in vals[:60]:
                                try:
                                    v = _scal(v)
                                    l.append(core.eval_sym(v, full))
                                except (KeyError, ValueError, ZeroDivisionError, OverflowError, EngineError):
                                    l.append(None)
                        self.cases.append(dict(env=self.export(h, env), margin=env.get('_margin', 0.0), obs=obs, dirs=c.dirs is not None,
                                               nobl=h.nobl))
            core.set_cur(None)
        return self

    def engine_path(self, h, c, why):
        env = None
        if len(self.engine) < 12:
            try:
                env = c.path_env()
            except (EngineError, PathAbort):
                env = None
        self.engine.append(dict(why=why[:300], env=self.export(h, env) if env else None))

    def exception(self, h, c, e):
        label = 'exception:' + type(e).__name__
        if self.candlab.get(label, 0) >= 3:
            return
        env = c.path_env() or c.model(timeout=10)
        if env is None:
            v = c.check([], full=True, timeout=10)[0]
            if v == 'unsat':
                self.aborted += 1
                return
            self.unknown.append(dict(label=label, verdict=v, detail=str(e)[:200]))
            return
        self.candlab[label] = self.candlab.get(label, 0) + 1
        self.cands.append(dict(kind='exception', label=label, detail='%s: %s @ %s' % (type(e).__name__, str(e)[:200], _tb(e)),
                               env=self.export(h, env)))


def _tb(e):
    return ' < '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))


def _from_engine(e):
    """Did the exception originate inside the engine in a way real code could not produce?"""
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1].filename
    if isinstance(e, (AttributeError, TypeError, NotImplementedError, KeyError, AssertionError)) and '/symx/' in last:
        return True
    return False
