"""Law of a value that depends on random variates: push-forward of the known laws of the variates through the value graph.

The variates are put on a low-discrepancy point set (Sobol) through their inverse distribution functions and the value
graph is evaluated at every point, which integrates any function of the value over the distribution of the variates."""
import math

import numpy as np
from scipy import stats
from scipy.stats import qmc

from . import terms as tm
from .rint import Table, Unknown, _rint
from .terms import T


def variates(t):
    return [x for x in tm.find(t, lambda x: x.op == 'sym' and x.args[0].startswith('rng_'))]


_CLEAN = {}


def clean(t):
    """the value depends on the inputs only, on no variate and on no state of a loop"""
    r = _CLEAN.get(t)
    if r is None:
        if t.op in ('sym', 'bsym') and (t.args[0].startswith(('rng_', 'phi_')) or {'template', 'expand', 'fast'} & set(tm.SYM.get(t.args[0], {}))):
            r = False
        else:
            r = all(clean(x) for x in subterms(t.args))
        _CLEAN[t] = r
    return r


def subterms(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from subterms(a)


_APP = {}


def applied(p, j):
    r = _APP.get((p, j))
    if r is None:
        r = _APP[p, j] = tm.apply_lam(p, [tm.num(j)])
    return r


class Draws(Table):
    """a valuation with the variates taken from one row of the point set"""

    def __init__(self, base, rng, row, slots):
        super().__init__(base.seed, base.names, rng, base.over)
        self.row, self.slots, self.base = row, slots, base

    def ev(self, t, env):
        if isinstance(t, T) and t.op not in ('num', 'var', 'bv') and clean(t):
            return self.base.ev(t, env)
        return super().ev(t, env)

    def u(self, key):
        k = self.slots.setdefault(key, len(self.slots))
        if k >= len(self.row):
            raise Unknown('more variates than dimensions of the point set')
        return self.row[k]

    def draw(self, name, idx, isbool):
        if not name.startswith('rng_'):
            return super().draw(name, idx, isbool)
        k = int(name.rsplit('_', 1)[1])
        kind = name[4:].rsplit('_', 1)[0]
        meta = self.rng[k] if k < len(self.rng) else {}
        if kind == 'choice' and not meta.get('replace', True) is True:
            raise Unknown('choice without replacement')
        return self.variate(kind, meta, self.u((name, idx)), idx)

    def arg(self, meta, a, idx):
        v = meta['args'][a]
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, T):
            return float(self.ev(v, {}))
        raise Unknown('parameter of a random variate')

    def variate(self, kind, meta, u, idx):
        if kind == 'uniform':
            return u
        if kind == 'normal':
            return float(stats.norm.ppf(u))
        if kind == 'choice':
            n = meta['n']
            n = _rint(self.ev(n, {})) if isinstance(n, T) else n
            if not meta.get('p_given'):
                return min(int(u * n), n - 1)
            p = meta.get('p')
            if p is None:
                raise Unknown('probabilities')
            acc = 0.0
            for j in range(n):
                acc += float(self.ev(applied(p, j), {}))
                if u < acc:
                    return j
            return n - 1
        if kind == 'randint':
            lo, hi = meta['low'], meta['high']
            lo, hi = (_rint(self.ev(x, {})) if isinstance(x, T) else x for x in (lo, hi))
            lo, hi = (0, lo) if hi is None else (lo, hi)
            return min(int(lo + u * (hi - lo)), hi - 1)
        if 'args' not in meta:
            raise Unknown(kind)
        A = lambda a: self.arg(meta, a, idx)        # noqa
        if kind == 'beta':
            return float(stats.beta.ppf(u, A('a'), A('b')))
        if kind == 'gamma':
            return float(stats.gamma.ppf(u, A('shape')) * A('scale'))
        if kind == 'standard_gamma':
            return float(stats.gamma.ppf(u, A('shape')))
        if kind == 'exponential':
            return float(stats.expon.ppf(u) * A('scale'))
        if kind == 'standard_exponential':
            return float(stats.expon.ppf(u))
        if kind == 'chisquare':
            return float(stats.chi2.ppf(u, A('df')))
        if kind == 'power':
            return float(u ** (1 / A('a')))
        if kind == 'triangular':
            l, m, r = A('left'), A('mode'), A('right')
            return float(stats.triang.ppf(u, (m - l) / (r - l), l, r - l))
        if kind == 'laplace':
            return float(stats.laplace.ppf(u, A('loc'), A('scale')))
        raise Unknown(kind)


def pushforward(f, base, rng, dims, n):
    """values of f(table) at n points of the variates"""
    pts = qmc.Sobol(dims, scramble=True, seed=7).random(n)
    pts = np.clip(pts, 1e-9, 1 - 1e-9)
    slots = {}
    out = []
    for row in pts:
        out.append(f(Draws(base, rng, row, slots)))
    return np.array(out, dtype=float)
