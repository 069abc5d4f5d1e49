"""P04: results move with the units and the origin of the data.

One value graph, two valuations: the inputs, and the same inputs in other units and from another origin; every cell of the
result under the second valuation is related to the same cell under the first."""
import itertools
import random

import numpy as np

from .. import law, rint, sim
from .common import *  # noqa
from .p17 import tt

R_DENS = 'the value graph of the density is homogeneous: in other units it is the same divided by the units of the dimensions evaluated'
R_POS = 'the value graph of the points is equivariant: they move with the data'
R_CDF = 'the value graph of the cdf is invariant'
KERN = ('gaussian', 'box', 'parabola', 'triweight')
# (scale, shift) of every dimension
MOVES = (((0.004, 0.0), (900.0, 0.0), (3.1, 0.0)),
         ((1.0, -9.0), (1.0, 30.0), (1.0, 4.0)),
         ((70.0, 11.0), (0.013, -0.7), (0.4, 100.0)),
         ((1e5, 0.0), (1e-5, 0.0), (1e4, 0.0)))


def run(ck):
    w = ck.world()
    for D in (1, 2, 3):
        for wt in (False, True):
            for kern in KERN if D < 3 else KERN[:2]:
                ck.case(f'density D={D} weights={wt} {kern}', R_DENS, dens, w, D, wt, kern, {})
        for bw in ('scott', 'silverman', 'number') + (('vector',) if D > 1 else ()):
            ck.case(f'density D={D} bandwidth {bw}', R_DENS, dens, w, D, True, 'gaussian', {'bw': bw})
        ck.case(f'pdf D={D}', R_DENS, dens, w, D, True, 'gaussian', {'pdf': True})
        ck.case(f'density D={D} module function', R_DENS, dens, w, D, True, 'gaussian', {'mod': True})
        ck.case(f'density D={D} given neff', R_DENS, dens, w, D, True, 'gaussian', {'neff': True})
        ck.case(f'density D={D} grid', R_DENS, dens, w, D, True, 'gaussian', {'grid': True})
        for refl in ('pairs', 'half', 'true'):
            for where in ('KDE', 'call'):
                ck.case(f'density D={D} reflect {refl} in {where}', R_DENS, dens, w, D, where == 'KDE', 'gaussian', {'reflect': refl, 'where': where})
        for prm in ((0, [0], [1], [1, 0]) if D == 2 else (2, [2, 0]) if D == 3 else ()):
            ck.case(f'density D={D} params={prm}', R_DENS, dens, w, D, True, 'gaussian', {'params': prm})
            if prm != 0:
                ck.case(f'density D={D} params={prm} reflect', R_DENS, dens, w, D, True, 'gaussian', {'params': prm, 'reflect': 'pairs', 'where': 'KDE'})
        for wt in (False, True):
            for kern in KERN[:3]:
                ck.case(f'automatic points D={D} weights={wt} {kern}', R_POS, auto, w, D, wt, kern, {})
        for how in ('reflect', 'reflect true', 'extrema', 'number', 'neff'):
            ck.case(f'automatic points D={D} {how}', R_POS, auto, w, D, True, 'gaussian', {how: True})
        for how in ('', 'number', 'extrema', 'weights'):
            ck.case(f'parse_edges D={D} {how}'.strip(), R_POS, edges, w, D, how)
    ck.case('density at automatic points D=1', R_DENS, dens, w, 1, True, 'gaussian', {'auto': True})
    for D in (1, 2):
        for kern in KERN[:3]:
            for keep in (False, True):
                if keep and D == 1:
                    continue
                ck.case(f'resample D={D} {kern} keep={keep}', R_POS, resample, w, D, True, kern, {'keep': keep})
        for refl in ('pairs', 'half', 'true'):
            ck.case(f'resample D={D} reflect {refl}', R_POS, resample, w, D, True, 'gaussian', {'reflect': refl})
        ck.case(f'resample D={D} unweighted', R_POS, resample, w, D, False, 'gaussian', {})
        ck.case(f'resample D={D} module function', R_POS, resample, w, D, True, 'gaussian', {'mod': True})
        for wt in (False, True):
            ck.case(f'cdf D={D} weights={wt}', R_CDF, cdf, w, D, wt, False)
        ck.case(f'cdf D={D} reflect', R_CDF, cdf, w, D, True, True)
        for dens_ in (False, True):
            ck.case(f'from_hist D={D} density={dens_}', R_POS, hist, w, D, dens_)
        for interp in (False, True):
            ck.case(f'sample_grid D={D} interpolate={interp}', R_POS, sgrid, w, D, interp)


class Pair:
    """two related valuations of a scenario"""

    def __init__(self, ck, key, s, base, o, names, rule, loops=()):
        self.ck, self.key, self.s, self.I, self.base, self.o, self.rule = ck, key, s, s.I, base, o, rule
        s.inputs |= names
        self.moved, self.tol = {}, 1e-7
        self.systems = [sim.System(s.I, r) for r in loops]

    def dim(self, **kw):
        """names of inputs -> dimension (None: the first index)"""
        self.moved.update(kw)

    def tables(self, seed, move, over, hp=False):
        rng = self.o.rng
        A = rint.Table(seed, self.s.inputs, rng, dict(over))
        B = rint.Table(seed, self.s.inputs, rng, dict(over))
        A.hp = B.hp = hp
        for nm, d in self.moved.items():
            def f(tb, idx, nm=nm, d=d):
                k = (nm, idx)
                if k not in A.vals:
                    x = A.draw(nm, idx, False)
                    A.vals[k] = rint.mp.mpf(x) if hp else x
                a, b = move[d(idx) if callable(d) else d]
                return (rint.mp.mpf(a) if hp else a) * A.vals[k] + b
            B.over[nm] = f
        r = random.Random(seed)
        row = [r.random() for _ in range(600)]
        slots = {}
        out = []
        for t in (A, B):
            z = law.Draws(t, rng, row, slots)
            z.hp = hp
            if self.systems:
                z = sim.Sim(z, self.systems)
                z.hp = hp
            out.append(z)
        return out

    def exit(self, tb):
        pc = self.o.st.pc
        if all(tb.truth(c) for c in pc):
            return None
        for st, ex in self.o.raises:
            if ex.loc and all(tb.truth(c) for c in st.pc):
                return ex
        return '?'

    def judge(self, outs, over, moves=MOVES):
        """outs: [(array or number, kind, dims of a density / row -> dim)]"""
        done, why = 0, ''
        I, o = self.I, self.o
        if o.undecided or not o.ok:
            e = o.raises[:1]
            return self.ck.add(self.key, UNDECIDED, self.rule, str(o.undecided or f'every abstract path raises {[(x.cls, x.msg, x.loc) for _, x in e]}'))
        I.st = o.st
        outs = [(sim.Value(I, o.st, I.resolve(v)), *x) for v, *x in outs(I.resolve(o.value))]
        for n, move in enumerate(moves):
            try:
                A, B = self.tables(str(n + 3), move, over(n))
                xa, xb = self.exit(A), self.exit(B)
                if xa == '?' or xb == '?' or xa is not None and xb is not None:
                    why = 'unknown path' if xa == '?' else str(xa)
                    continue
                if xa is not None or xb is not None:
                    x = xa or xb
                    return self.ck.add(self.key, VIOLATED, self.rule, f'{x.cls} ({x.msg}) in one choice of units and origin only: {show(move)}', x.loc)
                for v, kind, dims in outs:
                    e = self.one(A, B, v, kind, dims, move)
                    if e:
                        A, B = self.tables(str(n + 3), move, over(n), True)
                        e = self.one(A, B, v, kind, dims, move)
                    if e:
                        return self.ck.add(self.key, VIOLATED, self.rule, f'{e}; {show(move)}')
            except (sim.Long, rint.Unknown) as e:
                why = str(e)
                continue
            done += 1
        if done < 2:
            return self.ck.add(self.key, UNDECIDED, self.rule, f'{done} of {len(moves)} pairs of valuations complete: {why}')
        self.ck.add(self.key, HOLDS, self.rule, how=f'{done} pairs of valuations, every cell')

    def one(self, A, B, v, kind, dims, move):
        sa, sb = (tuple(int(t.ev(tt(x), {})) for x in v.shape) for t in (A, B))
        if sa != sb:
            return f'a result of shape {sa} becomes one of shape {sb}'
        a = np.array([float(A.ev(*v.term(i))) for i in itertools.product(*map(range, sa))]).reshape(sa)
        b = np.array([float(B.ev(*v.term(i))) for i in itertools.product(*map(range, sb))]).reshape(sb)
        if kind == 'pos':
            want = np.empty(sa)
            tol = np.empty(sa)
            for r in (range(sa[0]) if dims is None else [slice(None)]):
                sc, sh = move[r if dims is None else dims]
                want[r] = sc * a[r] + sh
                tol[r] = 3e-7 * (sc * (np.ptp(a[r]) + np.abs(a[r]).max()) + abs(sh) * 1e-2)
        else:
            want = a / np.prod([move[d][0] for d in dims]) if kind == 'dens' else a
            tol = self.tol * np.abs(want) + 1e-12 * np.abs(want).max() + 1e-250
        bad = ~(np.abs(b - want) <= tol) & ~(np.isnan(b) & np.isnan(want))
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(bad))
            return f'cell {list(i)} is {b[i]:.9g} instead of {want[i]:.9g} (from {a[i]:.9g})'


def show(move):
    return 'units and shifts ' + ', '.join(f'{a:g}/{b:g}' for a, b in move)


def first(idx):
    return idx[0]


def place(p, D):
    p.dim(data=0 if D == 1 else first, pts=0 if D == 1 else first)


def refl_arg(s, p, D, how, dims=None):
    if how == 'true':
        return TRUE
    out = []
    for j, d in enumerate(range(D) if dims is None else dims):
        lo, hi = (s.num(f'r{n}{d}', gen=g) for n, g in (('l', lambda tb, i: -7.5), ('h', lambda tb, i: 8.25)))
        p[f'rl{d}'] = p[f'rh{d}'] = d
        out.append(s.list([lo, hi] if how == 'pairs' else [None, hi] if d % 2 else [lo, None]))
    return s.list(out)


def over(n):
    return {'N': 5 + n % 3, 'M': 4, 'S': 4, 'h': (0.4, 0.9, 0.3, 0.6)[n], 'b0': 0.5, 'b1': 0.3, 'b2': 0.8, 'ne': 3.7, 'B': 5}


def dens(ck, key, w, D, wt, kern, opt):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, cov=None)
    kw, q, mv = {'kernel': kern}, {}, {}
    bw = opt.get('bw')
    if bw in ('scott', 'silverman', None):
        kw['bandwidth'] = bw
    elif bw == 'vector':
        kw['bandwidth'] = s.list([s.num(f'b{d}', lo=0, lo_open=True) for d in range(D)])
    if opt.get('neff'):
        kw['neff'] = s.num('ne', lo=1)
    dims = opt.get('params')
    dl = list(range(D)) if dims is None else dims if isinstance(dims, list) else [dims]
    if opt.get('reflect'):
        a = refl_arg(s, mv, D, opt['reflect'])
        (kw if opt['where'] == 'KDE' else q)['reflect'] = a
    if dims is not None:
        q['params'] = s.list(dims) if isinstance(dims, list) else dims
    pts = k.points if dims is None else s.arr('q', (len(dl), k.M) if isinstance(dims, list) else (k.M,))
    if opt.get('grid'):
        e = [s.arr(f'e{d}', (3,)) for d in dl]
        pts = s.list(e) if D > 1 else e[0]
        q['grid'] = TRUE
    base = I.st
    I.rng_log = []

    def code():
        if opt.get('mod'):
            kw.update(q)
            if k.w is not None:
                kw['weights'] = k.w
            return I.call(s.get('kalepy.density'), [k.data, pts], kw)
        o = k.kde(**kw)
        return I_call(s, o, 'pdf' if opt.get('pdf') else 'density', [None if opt.get('auto') else pts], dict(q))
    o = s.run(code)
    p = Pair(ck, key, s, base, o, k.names | set(mv) | {'q', 'e0', 'e1', 'e2', 'b0', 'b1', 'b2', 'ne'}, R_DENS)
    if opt.get('reflect') == 'true':
        p.tol = 3e-6        # the boundary is at a distance relative to the data value
    place(p, D)
    p.dim(**mv, **{f'e{d}': d for d in range(D)})
    p.dim(q=(lambda i: dl[i[0]]) if isinstance(dims, list) else dl[0])

    def outs(v):
        d = item(s, v, 1)
        r = [(d, 'dens', dl)]
        if opt.get('auto'):
            r.append((item(s, v, 0), 'pos', 0))
        return r
    p.judge(outs, over, MOVES if kern == 'gaussian' or not opt.get('auto') else MOVES[:2])


def vectors(s, v, D):
    I = s.I
    v = I.resolve(v)
    if D == 1 and isinstance(v, Arr) and v.ndim == 1:
        return [(v, 'pos', 0)]
    xs = [item(s, v, d) for d in range(D)]
    return [(x if isinstance(I.resolve(x), Arr) else I.np.call(I, Builtin('numpy.asarray'), [x], {}), 'pos', d) for d, x in enumerate(xs)]


def auto(ck, key, w, D, wt, kern, opt):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, cov=None)
    kw, mv = {'kernel': kern}, {}
    if opt.get('reflect') or opt.get('reflect true'):
        kw['reflect'] = refl_arg(s, mv, D, 'half' if opt.get('reflect') else 'true')
    if opt.get('extrema'):
        kw['extrema'] = refl_arg(s, mv, D, 'half')
    if opt.get('number'):
        kw['points'] = s.int('B', 3)
    if opt.get('neff'):
        kw['neff'] = s.num('ne', lo=1)
    base = I.st
    o = s.run(lambda: I.getattr(k.kde(**kw), 'points'))
    p = Pair(ck, key, s, base, o, k.names | set(mv) | {'B', 'ne'}, R_POS)
    place(p, D)
    p.dim(**mv)
    p.judge(lambda v: vectors(s, v, D), over)


def edges(ck, key, w, D, how):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=how == 'weights', cov=None)
    kw, mv = {}, {}
    if how == 'weights':
        kw['weights'] = k.w
    if how == 'extrema':
        kw['extrema'] = refl_arg(s, mv, D, 'half')
    if how == 'number':
        kw['edges'] = s.int('B', 3)
    base = I.st
    o = s.run(lambda: I.call(s.get('kalepy.utils.parse_edges'), [k.data], kw))
    p = Pair(ck, key, s, base, o, k.names | set(mv) | {'B'}, R_POS)
    place(p, D)
    p.dim(**mv)
    p.judge(lambda v: vectors(s, v, D), over)


def resample(ck, key, w, D, wt, kern, opt):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, cov=None)
    kw, q, mv = {'kernel': kern}, {'size': s.int('S', 2)}, {}
    if opt.get('reflect'):
        kw['reflect'] = refl_arg(s, mv, D, opt['reflect'])
    if opt.get('keep'):
        q['keep'] = s.list([num(1)])
    base = I.st
    I.rng_log = []
    n0 = len(I.loops)

    def code():
        if opt.get('mod'):
            return I.call(s.get('kalepy.resample'), [k.data], dict(kw, weights=k.w, **q))
        return I_call(s, k.kde(**kw), 'resample', [], q)
    o = s.run(code)
    p = Pair(ck, key, s, base, o, k.names | set(mv) | {'S'}, R_POS, list(I.loops[n0:]))
    place(p, D)
    p.dim(**mv)
    p.judge(lambda v: [(v, 'pos', None if D > 1 else 0)], over)


def cdf(ck, key, w, D, wt, refl):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, cov=None)
    mv = {}
    e = [s.arr(f'e{d}', (4,), sorted=True) for d in range(D)]
    kw = {'points': e[0] if D == 1 else s.list(e)}
    if refl:
        kw['reflect'] = refl_arg(s, mv, D, 'pairs')
    base = I.st
    o = s.run(lambda: I_call(s, k.kde(**kw), 'cdf', [k.points], {}))
    p = Pair(ck, key, s, base, o, k.names | set(mv) | {'e0', 'e1'}, R_CDF)
    place(p, D)
    p.dim(**mv, **{f'e{d}': d for d in range(D)})
    p.judge(lambda v: [(v, 'same', ())], over)


def hist(ck, key, w, D, d_):
    s = w.scenario()
    I = s.I
    n = [s.int(f'G{d}', 4) for d in range(D)]
    e = [s.arr(f'e{d}', (n[d],), sorted=True) for d in range(D)]
    h = s.arr('hist', tuple(tm.sub(num(x), num(1)) for x in n), lo=0, lo_open=True)
    pts = s.arr('pts', (4,) if D == 1 else (D, 4))
    base = I.st

    def code():
        o = I.call(I.getattr(s.get('kalepy.KDE'), 'from_hist'), [e[0] if D == 1 else s.list(e), h], {})
        if d_:
            return item(s, I_call(s, o, 'pdf', [pts], {}), 1)
        return I.getattr(o, 'dataset')
    o = s.run(code)
    p = Pair(ck, key, s, base, o, {'hist', 'pts'} | {f'{c}{d}' for d in range(D) for c in 'eG'}, R_DENS if d_ else R_POS)
    p.dim(pts=0 if D == 1 else first, **{f'e{d}': d for d in range(D)})
    p.judge(lambda v: [(v, 'dens', range(D))] if d_ else [(v, 'pos', None)], lambda n: {'G0': 5, 'G1': 4})


def sgrid(ck, key, w, D, interp):
    s = w.scenario()
    I = s.I
    n = [3, 4][:D]
    e = [s.arr(f'e{d}', (n[d],), sorted=True) for d in range(D)]
    g = s.arr('g', tuple(n), lo=0, lo_open=True)
    base = I.st
    I.rng_log = []
    n0 = len(I.loops)
    o = s.run(lambda: I.call(s.get('kalepy.sample_grid'), [e[0] if D == 1 else s.list(e), g, s.int('S', 2)], {'interpolate': TRUE if interp else FALSE}))
    p = Pair(ck, key, s, base, o, {'g', 'S'} | {f'e{d}' for d in range(D)}, R_POS, list(I.loops[n0:]))
    p.dim(**{f'e{d}': d for d in range(D)})
    p.judge(lambda v: [(v, 'pos', None if D > 1 else 0)], over)
