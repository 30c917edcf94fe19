"""Concrete side of the harness API: replays inputs on the real package.

Run with the interpreter that has numpy/healpy and the compiled extensions:
  python -m symx.hcon < request.json > result.json"""
import importlib
import json
import math
import os
import signal
import sys
import traceback
from fractions import Fraction


class Skip(Exception):
    pass


class Draws:
    def __init__(self, env):
        self.env = env
        self.l = []
        self.state = 12345
        self.preset = self.over = None

    def one(self):
        n = len(self.l)
        if self.over is not None:
            self.l.append(self.over[n])
            return self.over[n]
        v = self.preset(n) if self.preset is not None else None
        v = self.env.get('u%d' % n) if v is None else float(Fraction(v))
        if v is None:
            self.state = (1103515245 * self.state + 12345) % (1 << 31)
            v = (self.state >> 8) / float(1 << 23)
        v = min(max(float(v), 0.0), 0.9999999999999999)
        self.l.append(v)
        return v

    def many(self, size):
        import numpy as np
        if size is None:
            return self.one()
        return np.array([self.one() for _ in range(int(np.prod(size)))]).reshape(size)


def patch_random(d):
    import numpy as np
    r = np.random
    for n in ('random_sample', 'random', 'ranf', 'sample'):
        setattr(r, n, lambda size=None: d.many(size))
    r.rand = lambda *s: d.many(s if s else None)

    def uniform(low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast_shapes(np.shape(low), np.shape(high))
        return low + (np.asarray(high) - low) * d.many(size)
    r.uniform = uniform

    def randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        u = d.many(size)
        return (np.floor(np.asarray(u) * (high - low)).astype(int) + low) if size is not None else int(u * (high - low)) + low
    r.randint = randint

    def permutation(x):
        if np.ndim(x) == 0:
            return np.argsort(d.many(int(x)), kind='stable')
        x = np.asarray(x)
        return x[np.argsort(d.many(len(x)), kind='stable')]
    r.permutation = permutation

    def shuffle(x):
        o = np.argsort(d.many(len(x)), kind='stable')
        x[...] = np.asarray(x)[o]
    r.shuffle = shuffle

    class G:
        pass
    g = G()
    g.random, g.uniform, g.integers, g.permutation, g.shuffle = r.random, uniform, randint, permutation, shuffle
    g.random_sample, g.rand, g.seed, g.randint = r.random, r.rand, lambda *a: None, randint
    r.default_rng = lambda *a, **k: g
    r.RandomState = lambda *a, **k: g


class ConH:
    symbolic = False

    def __init__(self, env):
        import numpy as np
        self.np = np
        self.pi = np.pi
        self.nan = np.nan
        self.env = env
        self.fails = []
        self.n = 0
        self.obs = {}
        self.d = Draws(env)
        patch_random(self.d)

    @property
    def hp(self):
        import healpy
        return healpy

    def mod(self, name='magpie'):
        return importlib.import_module(name)

    def real(self, name, lo=None, hi=None, lostrict=False, histrict=False):
        v = self.env.get(name)
        if v is None:
            l = float(Fraction(lo)) if lo is not None else None
            u = float(Fraction(hi)) if hi is not None else None
            v = l + 0.37 * (u - l) if l is not None and u is not None else l + 0.5 if l is not None else u - 0.5 if u is not None else 0.3
        return float(v)

    def int(self, name, lo, hi):
        v = self.env.get(name)
        return int(v) if v is not None else int(lo)

    def angle(self, name, lo=0, hi=None, lostrict=False, histrict=False):
        hi = 2 if hi is None else hi
        lo, hi = float(Fraction(lo)) * math.pi, float(Fraction(hi)) * math.pi
        v = self.env.get(name)
        if v is None:
            v = lo + 0.37 * (hi - lo)
        return min(max(float(v), lo), hi)

    def q(self, a, b=1):
        return float(Fraction(a) / Fraction(b))

    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        n = 1
        for s in shape:
            n *= s
        return self.np.array([self.real('%s_%d' % (name, i), lo, hi) for i in range(n)]).reshape(shape)

    def arr(self, l, dtype=None):
        return self.np.array(l, dtype=dtype if dtype is not None else float)

    def hmap(self, name, nside, lo=-10000, hi=10000):
        np = self.np
        k = np.arange(12 * nside * nside)
        u = np.modf(np.sin(k * 12.9898 + 7.31 * (1 + sum(map(ord, name)))) * 43758.5453)[0]
        return lo + (hi - lo) * (u + 1) / 2

    def distinct_pix(self):
        pass

    def dirpix(self, nside, x, y, z):
        p = self.hp.vec2pix(nside, x, y, z)
        for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
            for e in (1e-9, -1e-9):
                # on a border rounding decides
                self.assume(self.hp.vec2pix(nside, x + e * d[0], y + e * d[1], z + e * d[2]) == p)
        return p

    def increasing(self, name, n, lo=None, hi=None, mingap=None):
        x = self.real(name + '0', lo, hi)
        out = [x]
        for i in range(1, n):
            x = x + self.real('%sg%d' % (name, i), mingap if mingap is not None else 0, 8)
            out.append(x)
        return out

    def draws(self):
        return list(self.d.l)

    def fix_draws(self, f):
        self.d.preset = f

    def replay(self, l, fn):
        d = self.d
        keep, old = d.preset, d.l
        d.l, d.preset, d.over = [], None, list(l)
        try:
            return fn()
        finally:
            d.preset, d.l, d.over = keep, old, None

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def _fail(self, label, msg):
        self.fails.append([label, msg[:400]])

    def eq(self, a, b, label='eq', tol=1e-8):
        np = self.np
        self.n += 1
        try:
            a = np.array(a, dtype=float)
            b = np.array(b, dtype=float)
        except (TypeError, ValueError) as e:
            self._fail(label, 'not numeric: %s' % e)
            return
        self.obs.setdefault(label, []).extend([None if not np.isfinite(x) else float(x) for x in a.reshape(-1)])
        if a.shape != b.shape and a.shape != () and b.shape != ():
            self._fail(label, 'shape %s instead of %s' % (a.shape, b.shape))
            return
        a, b = np.broadcast_arrays(a, b)
        bad = ~((np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= tol * (1 + np.maximum(np.abs(b), 0))))
        if bad.any():
            i = np.argwhere(bad)[0]
            i = tuple(int(t) for t in i)
            self._fail(label, 'at %s: %.12g instead of %.12g' % (i, a[i], b[i]))

    def check(self, cond, label='check'):
        self.n += 1
        if not bool(self.np.all(cond)):
            self._fail(label, 'false')

    def same(self, a, b):
        a, b = float(a), float(b)
        return a != a and b != b or abs(a - b) <= 1e-9 * (1 + abs(b))

    def implied(self, cond):
        return bool(cond)

    def le(self, a, b, label='le', tol=1e-9):
        np = self.np
        self.n += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape and a.shape != () and b.shape != ():
            self._fail(label, 'shape')
            return
        if not np.all(a <= b + tol * (1 + np.abs(b))):
            self._fail(label, 'not %s <= %s' % (np.array2string(a, threshold=8), np.array2string(b, threshold=8)))

    def ge(self, a, b, label='ge', tol=1e-9):
        self.le(b, a, label, tol)

    def isnan(self, x):
        return x is None or bool(self.np.isnan(x))

    def fail(self, label):
        self.n += 1
        self._fail(label, 'reached')

    def raises(self, fn, excs, label):
        self.n += 1
        try:
            fn()
        except excs:
            return True
        except Exception as e:
            self._fail(label, 'raised %s' % type(e).__name__)
            return False
        self._fail(label, 'did not raise')
        return False

    def known(self, kid, ok, wrong, label):
        self.n += 1
        if bool(ok):
            return
        if kid in KNOWN and bool(wrong):
            return
        self._fail(label, 'false')

    def snapshot(self, a):
        return self.np.copy(a) if isinstance(a, self.np.ndarray) else a


KNOWN = set()


def run_case(cfg, env):
    h = ConH(env)
    out = dict(status='ok', fails=[], n=0, obs={})
    import warnings
    warnings.simplefilter('ignore')
    try:
        cfg.fn(h, **cfg.kw)
    except Skip:
        out['status'] = 'skip'
    except Exception as e:
        out['status'] = 'exception'
        tb = traceback.extract_tb(e.__traceback__)
        out['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        out['where'] = ' < '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-5:]))
        out['in_code'] = any('/magpie/' in f.filename for f in tb)
    out['fails'] = h.fails
    out['n'] = h.n
    out['obs'] = h.obs
    return out


def main():
    req = json.load(sys.stdin)
    real_stdout = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.path.insert(0, req['root'])
    KNOWN.update(req.get('known', []))
    from symx import reg
    cfgs = {c.name: c for c in reg.configs(req['prop'])}
    try:
        import magpie
        import magpie.coords
        for m in req.get('preload', []):
            importlib.import_module(m)
        imp = None
    except Exception as e:
        imp = '%s: %s' % (type(e).__name__, e)
    res = []
    for case in req['cases']:
        if imp is not None:
            res.append(dict(status='exception', error='import: ' + imp, in_code=True, fails=[], n=0, obs={}))
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(60)
            try:
                o = run_case(cfgs[case['config']], dict(case['env']))
            except BaseException as e:
                o = dict(status='harness', error=repr(e)[:300], fails=[], n=0, obs={})
            with os.fdopen(w, 'w') as f:
                json.dump(o, f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            txt = f.read()
        _, st = os.waitpid(pid, 0)
        if txt:
            res.append(json.loads(txt))
        else:
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            res.append(dict(status='timeout' if sig == 14 else 'crash', error='signal %d' % sig, fails=[], n=0, obs={}))
    os.write(real_stdout, json.dumps(res).encode() if False else b'')
    with os.fdopen(real_stdout, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    # run as the importable module, so that KNOWN is shared
    from symx import hcon
    hcon.main()
