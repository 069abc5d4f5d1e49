"""Loops without a closed summary: a loop is kept as a transition system (symbolic state at the start of an iteration, its
state at the end, the exit condition) and valuations are carried along it; an invariant is checked on arbitrary states."""
from . import terms as tm
from . import npcore as nc
from .loops import peek
from .law import clean
from .rint import Table, Unknown
from .terms import T
from .values import Arr, Buf, isnumeric

MAXITER = 60


class System:
    """one loop: phi name -> (location, value before the first iteration, value after an iteration)"""

    def __init__(self, I, rec):
        self.I, self.rec = I, rec
        self.exit, self.var = rec['exit'], rec['var']
        self.phis = {}
        for loc, (nm, ph) in rec['phis'].items():
            if nm is not None:
                end = peek(rec['end'], loc) if rec['end'] is not None else None
                self.phis[nm] = (loc, Value(I, rec['base'], peek(rec['base'], loc)), Value(I, rec['end'], end), ph)


class Value:
    """value of one location in one state, as terms over index variables"""

    def __init__(self, I, st, v):
        self.I, self.st, self.v, self.got = I, st, v, {}
        self.shape = v.shape if isinstance(v, (Buf, Arr)) else ()

    def term(self, idx):
        if not self.shape:
            if not (isnumeric(self.v)):
                raise Unknown('loop state')
            return self.I.T(self.v), {}
        k = tuple(i if nc.conc(n) else None for i, n in zip(idx, self.shape))
        r = self.got.get(k)
        if r is None:
            vs = [tm.num(i) if nc.conc(n) else tm.fresh('t', nc.D(n)) for i, n in zip(idx, self.shape)]
            old, self.I.st = self.I.st, self.st
            try:
                x = nc.read_base(self.I, self.v, vs) if isinstance(self.v, Buf) else nc.read(self.I, self.v, vs)
            finally:
                self.I.st = old
            if not isinstance(x, T) and not isnumeric(x):
                raise Unknown('loop state')
            r = self.got[k] = ([None if nc.conc(n) else v.args[0] for v, n in zip(vs, self.shape)], self.I.T(x))
        return r[1], {v: i for v, i in zip(r[0], idx) if v is not None}

    def at(self, tb, idx):
        t, env = self.term(idx)
        return tb.ev(t, env)


class Long(Unknown):
    pass


class Sim(Table):
    """a valuation that also gives values to the states of loops; inputs and variates come from `root`"""

    def __init__(self, root, systems, phi=None, it=None):
        super().__init__(root.seed, root.names, root.rng, root.over)
        self.root, self.systems = root, systems
        self.phi, self.it = phi or {}, it or {}
        self.base = getattr(root, 'base', root)
        self.ends = {}
        self.limit = MAXITER

    def ev(self, t, env):
        if isinstance(t, T) and t.op == 'var' and t.args[0] not in env and t.args[0] in self.it:
            return self.it[t.args[0]]
        if isinstance(t, T) and t.op not in ('num', 'var', 'bv') and self.base is not None and clean(t) and all(v in env for v in t.fv):
            return self.base.ev(t, env)
        return super().ev(t, env)

    def draw(self, name, idx, isbool):
        f = self.phi.get(name)
        if f is not None:
            return f(idx)
        for s in self.systems:
            if name in s.phis:
                return self.final(s)[name](idx)
        r = self.root.vals.get((name, idx))
        if r is None:
            info = tm.SYM.get(name, {})
            if 'fast' in info or 'template' in info or 'expand' in info:
                return super().draw(name, idx, isbool)
            r = self.root.vals[(name, idx)] = self.root.draw(name, idx, isbool)
        return r

    def u(self, key):
        return self.root.u(key)

    def first(self, s):
        """state before the first iteration"""
        return {nm: cell(self, b) for nm, (loc, b, e, ph) in s.phis.items()}

    def step(self, s, phi, k):
        """(valuation of iteration k, whether the loop is left there)"""
        tb = Sim(self.root, self.systems, {**self.phi, **phi}, {**self.it, s.var: k})
        return tb, bool(tb.ev(s.exit, {}))

    def final(self, s):
        if id(s) in self.ends:
            return self.ends[id(s)]
        phi = self.first(s)
        for k in range(self.limit):
            tb, out = self.step(s, phi, k)
            if out:
                self.ends[id(s)] = phi
                self.count = k
                return phi
            phi = {nm: cell(tb, e) for nm, (loc, b, e, ph) in s.phis.items()}
        raise Long('a loop of many iterations')


def cell(tb, val):
    memo = {}

    def f(idx):
        if idx not in memo:
            memo[idx] = val.at(tb, idx)
        return memo[idx]
    return f
