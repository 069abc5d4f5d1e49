"""Comparison of the value numbers of an entry point with those of its specification."""
import itertools
import numpy as np

from . import terms as tm
from . import npcore as nc
from . import rint
from .rint import Table, Unknown, close
from .terms import T, num, TRUE, FALSE
from .values import Arr, Choice, Opaque, Ref, LList, LDict, LObj, isnumeric, conc

SAME, AGREE, DIFFER, UNKNOWN = 'same', 'agree', 'differ', 'unknown'


class NotSame(Exception):
    pass


class V:
    """a value together with the abstract state it lives in"""

    def __init__(self, I, st, v):
        self.I, self.st, self.v = I, st, v

    def __enter__(self):
        self.save = self.I.st
        self.I.st = self.st
        return self

    def __exit__(self, *a):
        self.I.st = self.save


# ------------------------------------------------------------------ symbolic
def atom(I, x):
    x = I.resolve(x)
    if isinstance(x, bool):
        return tm.num(int(x))
    if isinstance(x, (T, int, float)):
        return tm.tonum(I.T(x))
    return x


def simp(I, t):
    return I.st.facts.simplify(t) if isinstance(t, T) else t


def skeleton(V_, depth=0):
    """hashable symbolic image of a value; None leaves are unknown"""
    I = V_.I
    with V_:
        return _skel(I, V_.v, depth)


def _skel(I, v, depth=0):
    v = I.resolve(v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            return _skel(I, nc.read(I, v, []), depth)
        idx, vs = [], []
        conc_axes = []
        for n in v.shape:
            if isinstance(n, int) and conc(n):
                conc_axes.append(range(n))
            else:
                conc_axes.append(None)
        names = [tm.var(f'q{k}') for k in range(v.ndim)]
        for k, n in enumerate(v.shape):
            tm.VARDIM[f'q{k}'] = num(n)
            tm.bump()
        cells = []
        for ix in itertools.product(*[r if r is not None else [names[k]] for k, r in enumerate(conc_axes)]):
            c = atom(I, nc.read(I, v, list(ix)))
            cells.append(simp(I, c) if isinstance(c, T) else ('?' if isinstance(c, (Opaque, Choice)) else _skel(I, c, depth + 1)))
        return ('arr', tuple(num(n) for n in v.shape), tuple(cells))
    if isinstance(v, bool):
        return num(int(v))
    if isinstance(v, (T, int, float)):
        return simp(I, tm.tonum(I.T(v)))
    if v is None or isinstance(v, str):
        return ('const', v)
    if isinstance(v, tuple):
        return ('seq', tuple(_skel(I, x, depth + 1) for x in v))
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, LList) and o.kind != 'varlen' and o.kind != 'symlist':
            return ('seq', tuple(_skel(I, x, depth + 1) for x in o.items))
        if isinstance(o, LDict) and not o.open:
            return ('dict', tuple((k, _skel(I, x, depth + 1)) for k, x in sorted(o.d.items(), key=lambda kv: str(kv[0]))))
    return '?'


def hasunknown(s):
    if s == '?':
        return True
    if isinstance(s, tuple):
        return any(hasunknown(x) for x in s)
    return False


# ------------------------------------------------------------------ valuations
def concrete(V_, table):
    with V_:
        return _conc(V_.I, V_.v, table)


def _conc(I, v, tb):
    while True:
        v = I.resolve(v)
        if isinstance(v, Choice):
            v = v.a if tb.truth(v.cond) else v.b
            continue
        break
    if isinstance(v, Arr):
        sh = tuple(int(round(tb.ev(n, {}))) if isinstance(n, T) else n for n in v.shape)
        if any(n < 0 or n > 60 for n in sh):
            raise Unknown('shape')
        names = [tm.var(f'q{k}') for k in range(v.ndim)]
        for k, n in enumerate(v.shape):
            tm.VARDIM[f'q{k}'] = num(n)
            tm.bump()
        cache = {}
        out = np.empty(sh, dtype=object)
        for ix in itertools.product(*[range(n) for n in sh]):
            key = tuple(i if isinstance(n, int) and conc(n) else names[k] for k, (i, n) in enumerate(zip(ix, v.shape)))
            if key not in cache:
                cache[key] = atom(I, nc.read(I, v, list(key)))
            c = cache[key]
            env = {f'q{k}': i for k, i in enumerate(ix)}
            while isinstance(c, Choice):
                c = atom(I, c.a if tb.ev(tm.truth(c.cond), env) else c.b)
            if isinstance(c, T):
                out[ix] = tb.ev(c, env)
            elif c is None or isinstance(c, str):
                out[ix] = c
            elif isinstance(c, (Arr, tuple, Ref)):
                out[ix] = _conc(I, c, tb)
            else:
                raise Unknown('element')
        return out
    if isinstance(v, (bool, int, float)):
        return float(v)
    if isinstance(v, T):
        return tb.ev(v, {})
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, tuple):
        return [_conc(I, x, tb) for x in v]
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, LList) and o.kind not in ('varlen', 'symlist'):
            return [_conc(I, x, tb) for x in o.items]
        if isinstance(o, LDict) and not o.open:
            return {k: _conc(I, x, tb) for k, x in o.d.items()}
    raise Unknown('value')


def canon(x):
    """sequences and arrays compare alike"""
    if isinstance(x, np.ndarray):
        return canon(list(x)) if x.ndim else canon(x.item())
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    return x


def diff(a, b, path='', rel=1e-7, ab=1e-12):
    """None when equal, otherwise a description of the first difference"""
    sa, sb = isinstance(a, (list, np.ndarray)), isinstance(b, (list, np.ndarray))
    if sa and sb:
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape:
            return f'{path} has shape {a.shape}, expected {b.shape}'
        if isinstance(a, np.ndarray) and a.ndim == 0:
            return diff(a.item(), b, path, rel, ab)
        if len(a) != len(b):
            return f'{path} has length {len(a)}, expected {len(b)}'
        for k in range(len(a)):
            d = diff(a[k], b[k], f'{path}[{k}]', rel, ab)
            if d:
                return d
        return None
    if sa or sb:
        if sa and isinstance(a, np.ndarray) and a.ndim == 0:
            return diff(a.item(), b, path, rel, ab)
        if sb and isinstance(b, np.ndarray) and b.ndim == 0:
            return diff(a, b.item(), path, rel, ab)
        return f'{path} is {"a sequence" if sa else a!r}, expected {"a sequence" if sb else b!r}'
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f'{path} has keys {sorted(map(str, a))}, expected {sorted(map(str, b))}'
        for k in a:
            d = diff(a[k], b[k], f'{path}[{k!r}]', rel, ab)
            if d:
                return d
        return None
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return None if a == b else f'{path} is {a!r}, expected {b!r}'
    if close(a, b, rel, ab):
        return None
    return f'{path} = {float(a):.6g}, expected {float(b):.6g}'


# ------------------------------------------------------------------ where
def diff_locs(tc, ts, repo='/repo'):
    """source positions of the value-graph nodes of the code that are not nodes of the specification"""
    if not isinstance(tc, T):
        return []
    spec = set(tm.find(ts, lambda x: True)) if isinstance(ts, T) else set()
    cnt = {}
    for x in tm.find(tc, lambda x: x not in spec):
        if x.loc and repo in str(x.loc):
            cnt[str(x.loc)] = cnt.get(str(x.loc), 0) + 1
    return sorted(cnt, key=lambda k: -cnt[k])
