"""Valuations of value numbers (random interpretation).

Two value numbers that are the same node are equal for every input.  When two normal forms differ the analysis still has
to tell "different function" from "same function, normal form not canonical enough"; it does so on the value graph: a
finite valuation of the input symbols is propagated through both graphs, and only a pair that is separated by a valuation
is called different.  Nothing of kalepy is involved: only the terms that the analysis derived from the source.
"""
import itertools
import math
import random

import mpmath
import numpy as np

from . import terms as tm
from .terms import T

mp = mpmath.mp
mp.dps = 50
SAFE_PREFIX = ('rng_', 'uninit', 'lib_')


class Unknown(Exception):
    """the term depends on something the analysis does not know"""


def known(t, names):
    """does t depend only on the given input symbols and on random variates"""
    for x in tm.find(t, lambda x: x.op in ('sym', 'bsym')):
        n = x.args[0]
        if n not in names and not n.startswith(SAFE_PREFIX):
            return False
    return True


class Table:
    hp = False

    def __init__(self, seed, names, rng=(), over=None):
        self.seed, self.names = seed, names
        self.rng = rng
        self.memo = {}
        self.vals = {}
        self.over = over or {}

    # ------------------------------------------------------------ symbols
    def symval(self, t, env):
        name = t.args[0]
        if name == 'isclose':
            x, y, rt, at = (self.ev(i, env) for i in t.args[1])
            return x == y or abs(x - y) <= at + rt * abs(y)
        idx = tuple(self.ev(i, env) for i in t.args[1])
        if not name.startswith('lib_interp'):
            idx = tuple(_rint(i) for i in idx)
        k = (name, idx)
        v = self.vals.get(k)
        if v is None:
            v = self.draw(name, idx, t.op == 'bsym')
            if self.hp and isinstance(v, float):
                v = mp.mpf(v)
            self.vals[k] = v
        return v

    def draw(self, name, idx, isbool):
        if name not in self.names and not name.startswith(SAFE_PREFIX):
            raise Unknown(name)
        if name.startswith('rng_'):
            self.variates = True
        info = tm.SYM.get(name, {})
        if 'fast' in info and not self.hp:
            return info['fast'](self, idx)
        if 'template' in info:
            t, env = info['template'](idx)
            return self.ev(t, env)
        if 'expand' in info:
            return self.ev(info['expand'](idx), {})
        o = self.over.get(name)
        if o is None:
            o = info.get('gen')
        if o is not None:
            v = o(self, idx) if callable(o) else o
            if v is not None:
                return v
        r = random.Random(f'{self.seed}|{name}|{idx}')
        if isbool:
            return r.random() < 0.5
        if name.startswith('rng_choice_'):
            k = int(name.rsplit('_', 1)[1])
            n = self.rng[k]['n'] if k < len(self.rng) else None
            n = _rint(self.ev(n, {})) if isinstance(n, T) else n
            return r.randrange(max(int(n), 1)) if n is not None else r.randrange(3)
        lo, hi = info.get('lo'), info.get('hi')
        if info.get('int'):
            a = lo if lo is not None else -3
            b = hi if hi is not None else a + 4
            if info.get('sorted') and idx:
                return int(a) + 2 * idx[-1] + r.randrange(2)
            return r.randint(int(a), int(b))
        if info.get('sorted') and idx:
            base = random.Random(f'{self.seed}|{name}|{idx[:-1]}').uniform(-1.5, 0.5) if lo is None else lo
            s = base
            for j in range(idx[-1] + 1):
                s += random.Random(f'{self.seed}|{name}|{idx[:-1]}|{j}').uniform(0.2, 1.1)
            return s
        sc = info.get('scale', 1.0)
        if lo is not None and hi is not None:
            return r.uniform(lo, hi)
        if lo is not None:
            return lo + sc * (0.15 + 1.4 * r.random())
        if hi is not None:
            return hi - sc * (0.15 + 1.4 * r.random())
        return sc * r.gauss(0.3, 1.3)

    # ------------------------------------------------------------ terms
    def ev(self, t, env):
        if not isinstance(t, T):
            return t
        op = t.op
        if op == 'num':
            f = t.args[0]
            return int(f) if f.denominator == 1 else (mp.mpf(f.numerator) / f.denominator if self.hp else float(f))
        if op == 'var':
            if t.args[0] not in env:
                raise Unknown('free index')
            return env[t.args[0]]
        if op == 'bv':
            return env[('b', t.args[0])]
        key = (t, tuple(sorted(((str(k), env[k]) for k in t.fv if k in env)))) if t.fv else (t, ())
        m = self.memo.get(key)
        if m is None:
            m = self.memo[key] = self._ev(t, env)
        return m

    def truth(self, t, env=None):
        return bool(self.ev(t, env or {}))

    def _ev(self, t, env):
        op, a = t.op, t.args
        if op == 'inf':
            return math.inf
        if op == 'ninf':
            return -math.inf
        if op == 'nan':
            return math.nan
        if op == 'pi':
            return mp.pi() if self.hp else math.pi
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op in ('sym', 'bsym'):
            return self.symval(t, env)
        if op == 'poly':
            return self.poly(t, env)[0]
        if op == 'cmp':
            if a[1].op == 'poly':
                v, sc = self.poly(a[1], env)
            else:
                v, sc = self.ev(a[1], env), 1.0
            if v != v:
                return False
            tol = (mp.mpf(10)**-32 if self.hp else 1e-11) * max(sc, 1e-3)
            if a[0] == '==':
                return abs(v) <= tol
            if a[0] == '<':
                return v < -tol
            return v <= tol
        if op == 'and':
            return all(self.ev(x, env) for x in a)
        if op == 'or':
            return any(self.ev(x, env) for x in a)
        if op == 'not':
            return not self.ev(a[0], env)
        if op == 'ite':
            return self.ev(a[1] if self.ev(a[0], env) else a[2], env)
        if op == 'bind':
            return self.bind(t, env)
        if op == 'fn':
            return self.fn(a[0], a[1], env)
        raise Unknown(op)

    def poly(self, t, env):
        tot, sc = 0, 0.0
        for m, c in t.args[0]:
            v = c.numerator if c.denominator == 1 else (mp.mpf(c.numerator) / c.denominator if self.hp else float(c))
            zero = False
            for x, e in m:
                xv = self.ev(x, env)
                if self.hp and isinstance(xv, int):
                    xv = mp.mpf(xv)
                v = v * power(xv, e)
            tot = tot + v
            sc += abs(v) if v == v and abs(v) != math.inf else 0.0
        return tot, sc

    def dims(self, ds, env, limit=400):
        out = []
        for d in ds:
            n = _rint(self.ev(d, env))
            if n > limit:
                raise Unknown('large dimension')
            out.append(max(n, 0))
        return out

    def array(self, l, env):
        """a lam as a numpy array"""
        _, levels, dims, body, _ = l.args
        ds = self.dims(dims, env)
        out = np.empty(ds, dtype=object)
        for ix in itertools.product(*[range(n) for n in ds]):
            e = dict(env)
            for lv, k in zip(levels, ix):
                e[('b', lv)] = k
            out[ix] = self.ev(body, e)
        return out

    def bind(self, t, env):
        kind, levels, dims, body, extra = t.args
        if kind == 'lam':
            raise Unknown('lam value')
        xs = [x for x in self.array(t, env).ravel()]
        if kind == 'sum':
            s = 0
            for x in xs:
                s = s + x
            return s
        if kind == 'prod':
            s = 1
            for x in xs:
                s = s * x
            return s
        if kind == 'any':
            return any(xs)
        if kind == 'all':
            return all(xs)
        if kind in ('min', 'max'):
            if not xs:
                return math.inf if kind == 'min' else -math.inf
            if any(x != x for x in xs):
                return math.nan
            return (min if kind == 'min' else max)(xs)
        raise Unknown(kind)

    def flo(self, xs, env):
        return np.array([float(self.ev(x, env)) for x in xs], dtype=float)

    def larr(self, l, env):
        if l.op == 'bind' and l.args[0] == 'lam':
            return np.array(self.array(l, env), dtype=float)
        return np.array(float(self.ev(l, env)))

    def fn(self, name, args, env):
        ev = self.ev
        f1 = F1HP.get(name) if self.hp else None
        f1 = f1 or F1.get(name)
        if f1 is not None:
            x = ev(args[0], env)
            return f1(x)
        if name == 'pow':
            x, e = ev(args[0], env), ev(args[1], env)
            try:
                r = mp.mpf(x) ** e if self.hp else float(x) ** float(e)
            except (OverflowError, ZeroDivisionError):
                return math.inf
            except ValueError:
                return math.nan
            return math.nan if isinstance(r, (complex, mp.mpc)) else r
        if name in ('max', 'min'):
            xs = [ev(x, env) for x in args]
            if any(x != x for x in xs):
                return math.nan
            return (max if name == 'max' else min)(xs)
        if name in ('cholU', 'inv', 'pinv'):
            i, j, n = (_rint(ev(x, env)) for x in args[:3])
            if self.hp:
                return self.linhp(name, i, j, n, [ev(x, env) for x in args[3:]])
            mt = self.flo(args[3:], env).reshape(n, n)
            try:
                r = {'cholU': lambda m: np.linalg.cholesky(m).T, 'inv': np.linalg.inv, 'pinv': np.linalg.pinv}[name](mt)
            except np.linalg.LinAlgError:
                raise Unknown('singular')
            return float(r[i, j])
        if name == 'det':
            n = int(args[0].args[0])
            if self.hp:
                return mp.det(mp.matrix([[ev(args[1 + r * n + c], env) for c in range(n)] for r in range(n)]))
            return float(np.linalg.det(self.flo(args[1:], env).reshape(n, n)))
        if name in ('sel', 'selm', 'rank', 'rankm', 'perm'):
            arr = self.array(args[0], env)
            if name == 'perm':
                xs = [float(x) for x in arr]
                o = sorted(range(len(xs)), key=lambda k: xs[k])
                return o[self.ix(args[2], env, len(o))]
            if name == 'sel':
                o = [k for k, b in enumerate(arr) if b]
                return o[self.ix(args[2], env, len(o))]
            if name == 'rank':
                k = _rint(ev(args[2], env))
                return sum(1 for b in arr[:k] if b)
            if name == 'selm':
                ax, k = _rint(ev(args[1], env)), args[2]
                o = [ix for ix in itertools.product(*[range(n) for n in arr.shape]) if arr[ix]]
                return o[self.ix(k, env, len(o))][ax]
            me = tuple(_rint(ev(x, env)) for x in args[1:])
            return sum(1 for ix in itertools.product(*[range(n) for n in arr.shape]) if ix < me and arr[ix])
        if name in ('ss_left', 'ss_right'):
            xs = self.larr(args[0], env)
            return int(np.searchsorted(xs, float(ev(args[2], env)), side=name[3:]))
        if name == 'interp':
            kw = {}
            if len(args) >= 6:
                for k, x in zip(('left', 'right', 'period'), args[4:]):
                    v = ev(x, env)
                    if v == v:
                        kw[k] = v
            return float(np.interp(float(ev(args[0], env)), self.larr(args[1], env), self.larr(args[2], env), **kw))
        if name == 'median':
            return float(np.median(np.concatenate([self.larr(x, env).ravel() for x in args])))
        if name == 'quantile':
            q = ev(args[0], env)
            if not 0 <= q <= 1:
                raise Unknown('quantile')
            return float(np.quantile(np.concatenate([self.larr(x, env).ravel() for x in args[1:]]), q))
        if name in ('argmin', 'argmax'):
            return int(getattr(np, name)(self.larr(args[0], env)))
        if name == 'bitand':
            return int(ev(args[0], env)) & int(ev(args[1], env))
        if name == 'mod':
            return ev(args[0], env) % ev(args[1], env)
        if name == 'floordiv':
            return ev(args[0], env) // ev(args[1], env)
        raise Unknown(name)

    def linhp(self, name, i, j, n, ent):
        m = mp.matrix([[ent[r * n + c] for c in range(n)] for r in range(n)])
        try:
            if name == 'cholU':
                return mp.cholesky(m)[j, i]
            return (m**-1)[i, j]
        except (ZeroDivisionError, ValueError):
            raise Unknown('singular')

    def ix(self, t, env, n):
        k = _rint(self.ev(t, env))
        if not -n <= k < n:
            raise Unknown('index outside selection')
        return k


def power(x, e):
    if e == 1:
        return x
    try:
        if e.denominator == 1:
            n = int(e)
            if n >= 0:
                return x ** n
            if x == 0:
                return math.inf
            return (x if isinstance(x, mp.mpf) else float(x)) ** n
        if isinstance(x, bool):
            x = int(x)
        if x < 0:
            if x > -1e-12:
                x = 0.0
            else:
                return math.nan
        if x == 0 and e < 0:
            return math.inf
        if isinstance(x, mp.mpf):
            return x ** (mp.mpf(e.numerator) / e.denominator)
        return float(x) ** float(e)
    except OverflowError:
        return math.inf


def _log(x):
    if x != x or x < 0:
        return math.nan
    return -math.inf if x == 0 else math.log(x) if x != math.inf else x


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def _fin(f):
    def g(x):
        if x != x or abs(x) == math.inf:
            return x
        return f(x)
    return g


def _gamma(x):
    try:
        return math.gamma(x)
    except (ValueError, OverflowError):
        return math.nan


def _ppf(p):
    from statistics import NormalDist
    return NormalDist().inv_cdf(p) if 0 < p < 1 else math.nan


def _rint(x):
    return int(mp.nint(x)) if isinstance(x, mpmath.mpf) else int(round(x))


def _floor(x):
    n = int(x)
    return n - 1 if n > x else n


def _near(f):
    """floor-like functions with tolerance for values that are integers up to rounding"""
    def g(x):
        r = _rint(x)
        return r if abs(x - r) < 1e-9 else f(x)
    return _fin(g)


F1 = {'abs': abs, 'ceil': _near(lambda x: _floor(x) + 1), 'floor': _near(_floor), 'trunc': _near(int), 'round': _fin(_rint),
      'exp': _exp, 'log': _log, 'erf': math.erf, 'gamma': _gamma,
      'normcdf': lambda x: 0.5 * (1 + math.erf(x / math.sqrt(2))), 'normppf': _ppf,
      'isfinite': lambda x: x == x and abs(x) != math.inf, 'isnan': lambda x: x != x, 'isinf': lambda x: abs(x) == math.inf,
      'sin': _fin(math.sin), 'cos': _fin(math.cos), 'tan': _fin(math.tan), 'arctan': math.atan, 'tanh': math.tanh}


def _hpf(f, lim=None):
    def g(x):
        if x != x:
            return math.nan
        return f(mp.mpf(x))
    return g


F1HP = {'exp': _hpf(lambda x: mp.exp(x) if x < 1e6 else mp.inf), 'log': _hpf(lambda x: mp.log(x) if x > 0 else (-mp.inf if x == 0 else math.nan)),
        'erf': _hpf(mp.erf), 'gamma': _hpf(lambda x: mp.gamma(x)), 'normcdf': _hpf(mp.ncdf)}


def close(x, y, rel=1e-7, ab=1e-12):
    if x != x and y != y:
        return True
    if x == y:
        return True
    if x != x or y != y or abs(x) == math.inf or abs(y) == math.inf:
        return False
    return abs(x - y) <= rel * max(abs(x), abs(y)) + ab
