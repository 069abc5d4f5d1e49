"""P21: what is drawn in a panel belongs to the dimensions of its axes.

The arguments of every drawing call are value graphs.  They are evaluated under pairs of valuations: other units and origin
per dimension (an argument along an axis has to move like the dimension of the axis), other data in the remaining
dimensions (nothing may change), other weights (counts, densities and quantiles have to follow)."""
import itertools
import random

import numpy as np

from .. import rint, sim
from .common import *  # noqa
from .p04 import MOVES, Pair, first, over
from .p17 import tt
from .p18 import Merged

R_AX = 'arguments of a drawing call move with the units and origin of the dimension of their axis'
R_LOC = 'the arguments of a drawing call depend on the dimensions of their panel only'
R_VAL = 'heights and cells drawn are proportional to the weighted counts, or to the weighted density, of the dimensions of the panel'
R_W = 'weighted quantities drawn depend on the weights'
# positions of the arguments along x, along y, and of the heights
CALLS = {'plot': ('x', 'y'), 'scatter': ('x', 'y'), 'pcolormesh': ('x', 'y', 'c'), 'pcolor': ('x', 'y', 'c'), 'contour': ('x', 'y', 'c'), 'contourf': ('x', 'y', 'c'),
         'axvline': ('x',), 'axhline': ('y',), 'axvspan': ('x', 'x'), 'axhspan': ('y', 'y'), 'set_xlim': ('x', 'x'), 'set_ylim': ('y', 'y'),
         'fill_between': ('x', 'y', 'y'), 'fill_betweenx': ('y', 'x', 'x'), 'step': ('x', 'y'), 'bar': ('x', 'y'), 'barh': ('y', 'x'), 'vlines': ('x', 'y', 'y'), 'hlines': ('y', 'x', 'x'),
         'arrow': (), 'annotate': ()}


def run(ck):
    w = ck.world()
    for D in (2, 3):
        for meth in ('plot_data', 'plot_kde', 'hist', 'clean', 'plot'):
            for wt in (False, True):
                if D == 3 and (not wt or meth in ('hist', 'plot') and not ck.thorough):
                    continue
                ck.case(f'Corner.{meth} D={D} weights={wt}', R_AX, corner, w, D, meth, wt, {})
            if D == 2:
                ck.case(f'Corner.{meth} D={D} not rotated', R_AX, corner, w, D, meth, True, {'rotate': False})
                ck.case(f'Corner.{meth} D={D} explicit limits, quantiles', R_AX, corner, w, D, meth, True, {'limits': True, 'quantiles': True})
        for o in ('bl', 'tl', 'br', 'tr'):
            if o != 'tl' and (D == 2 or o == 'bl'):
                ck.case(f'Corner.plot_kde D={D} origin={o}', R_AX, corner, w, D, 'plot_kde', True, {'origin': o})
        ck.case(f'Corner.target D={D}', R_AX, target, w, D)
    for wt in (False, True):
        for rot in (False, True):
            for kd in (False, True):
                ck.case(f'dist1d weights={wt} rotate={rot} kde={kd}', R_AX, one, w, 1, 'dist1d', wt, rot, kd, 0)
            for f in ('hist1d', 'carpet', 'confidence'):
                ck.case(f'{f} weights={wt} rotate={rot}', R_AX, one, w, 1, f, wt, rot, False, 0)
        for D, prm in ((2, 1), (3, 2), (3, 0)):
            ck.case(f'dist1d weights={wt} kde D={D} param={prm}', R_AX, one, w, D, 'dist1d', wt, False, True, prm)
        for f in ('dist2d', 'hist2d', 'contour'):
            ck.case(f'{f} weights={wt}', R_AX, two, w, 2, f, wt, None)
        ck.case(f'dist2d weights={wt} params=[1, 0] of data', R_AX, two, w, 2, 'dist2d', wt, [1, 0], True)
        for D, prm in ((2, [0, 1]), (2, [1, 0]), (3, [2, 0]), (3, [0, 1])):
            if D == 2 or wt:
                ck.case(f'dist2d weights={wt} kde D={D} params={prm}', R_AX, two, w, D, 'dist2d', wt, prm)


# ------------------------------------------------------------------ reading what is drawn
class Drawn:
    def __init__(self, ck, key, s, k, base, o, D, panels, moved, names, names_w, given):
        self.ck, self.key, self.s, self.k, self.D, self.o = ck, key, s, k, D, o
        self.I, self.panels, self.moved, self.given = s.I, panels, moved, given or {}
        self.p = Pair(ck, key, s, base, o, k.names | names, R_AX)
        self.p.dim(data=0 if k.data.ndim == 1 else first)
        self.p.dim(**moved)
        self.read, self.C, self.marks = {}, None, True

    def numbers(self, tb, v):
        """values of a drawn argument under a valuation; None when it is not a number or an array"""
        I = self.I
        v = I.resolve(v)
        while isinstance(v, Choice):
            v = I.resolve(v.a if tb.truth(v.cond) else v.b)
        if v is None or isinstance(v, (str, bool)):
            return None
        if isinstance(v, Opaque):
            raise rint.Unknown(f'drawn value: {v.why}')
        if isinstance(v, Ref) and isinstance(I.get(v), LList) and I.get(v).kind not in ('varlen', 'symlist'):
            xs = [self.numbers(tb, x) for x in I.get(v).items]
            return np.array(xs, float) if xs and all(x is not None and np.ndim(x) == 0 for x in xs) else None
        if isinstance(v, tuple):
            xs = [self.numbers(tb, x) for x in v]
            return np.array(xs, float) if xs and all(x is not None and np.ndim(x) == 0 for x in xs) else None
        if isinstance(v, Arr):
            r = self.read.get(id(v))
            if r is None:
                r = self.read[id(v)] = (v, sim.Value(I, self.o.st, v))
            sh = tuple(int(tb.ev(tt(x), {})) for x in v.shape)
            return np.array([float(tb.ev(*r[1].term(i))) for i in itertools.product(*map(range, sh))]).reshape(sh)
        if isnumeric(v):
            return float(tb.ev(I.T(v), {}))
        return None

    def run(self):
        ck, o = self.ck, self.o
        if o.undecided or not o.ok:
            e = [(x.cls, x.msg, x.loc) for _, x in o.raises[:1]]
            return ck.add(self.key, UNDECIDED, R_AX, str(o.undecided or f'every abstract path raises {e}'))
        I = self.I
        I.st = o.st
        evs = []
        for e in o.events:
            ob = e.get('obj')
            if e['kind'] == 'ext' and isinstance(ob, Ext) and e['method'] in CALLS:
                pan = self.panels(ob)
                if pan is not None:
                    evs.append((e, pan))
        self.done, self.skip = 0, []
        over_ = lambda n: dict(over(n), N=6)     # noqa
        for n in (0, 2):
            move = MOVES[n]
            for test in ('units', 'weights'):
                try:
                    A, B = self.p.tables(str(n + 3), move, over_(n))
                except rint.Unknown as e:
                    return ck.add(self.key, UNDECIDED, R_AX, str(e))
                if test == 'weights' and self.k.w is None:
                    continue
                try:
                    xa = self.p.exit(A)
                    if xa is not None:
                        if xa != '?':
                            return ck.add(self.key, VIOLATED, R_AX, f'valid input reaches {xa.cls} ({xa.msg})', xa.loc)
                        continue
                except rint.Unknown:
                    continue
                for e, pan in evs:
                    try:
                        bad = self.units(e, pan, A, B, move) if test == 'units' else self.weights(e, pan, A, str(n + 3), over_(n))
                    except (rint.Unknown, sim.Long) as x:
                        if test == 'units':
                            self.skip.append(f'{e["method"]} at line {e["loc"][1] if e["loc"] else "?"}: {x}')
                        continue
                    if bad:
                        return ck.add(self.key, VIOLATED, bad[0], f'{e["method"]} {bad[1]}', e['loc'])
        # other data in the dimensions that are not drawn
        if self.D > 1:
            for d in range(self.D):
                A, _ = self.p.tables('3', MOVES[0], over_(0))
                C, _ = self.p.tables('3', MOVES[0], over_(0))
                C.base.over['data'] = lambda tb, idx, d=d, A=A: self.other(A, idx) if idx[0] == d else A.base.draw('data', idx, False)
                try:
                    if self.p.exit(A) is not None or self.p.exit(C) is not None:
                        continue
                    for e, pan in evs:
                        if d in pan[:2] or not self.happens(e, A):
                            continue
                        for what, v in self.args(e):
                            try:
                                a, c = self.numbers(A, v), self.numbers(C, v)
                            except (rint.Unknown, sim.Long):
                                continue
                            if a is not None and (np.shape(a) != np.shape(c) or not np.allclose(a, c, 1e-6, 1e-300, equal_nan=True)):
                                return ck.add(self.key, VIOLATED, R_LOC, f'{e["method"]} in the panel of dimensions {pan[0]} and {pan[1]} changes with the data of dimension {d}', e['loc'])
                except rint.Unknown:
                    continue
        if not self.done:
            return ck.add(self.key, UNDECIDED, R_AX, 'nothing drawn is known: ' + '; '.join(self.skip[:3]))
        ck.add(self.key, HOLDS, R_AX, how=f'{self.done} drawn arguments, {len(set(self.skip))} unknown')

    @staticmethod
    def other(A, idx):
        return random.Random(f'other{idx}').gauss(0.0, 2.0)

    def size(self, A, nm):
        return self.given.get(nm, 0)

    def happens(self, e, tb):
        return all(tb.truth(c) for c in e.get('pc') or ())

    def args(self, e):
        names = CALLS[e['method']]
        vals = list(e['args'])
        if e['method'] in ('set_xlim', 'set_ylim') and len(vals) == 1:
            names = names[:1]
        return list(zip(names, vals))

    # --------------------------------------------------------------
    def units(self, e, pan, A, B, move):
        """pan: dimension along x, dimension along y (None: density or counts)"""
        if not self.happens(e, A):
            return None
        if not self.happens(e, B):
            return R_AX, f'is reached in one choice of units only: {self.show(move)}'
        dims = [d for d in pan[:2] if d is not None]
        got = []
        for n, (what, v) in enumerate(self.args(e)):
            try:
                a, b = self.numbers(A, v), self.numbers(B, v)
            except (rint.Unknown, sim.Long) as x:
                self.skip.append(f'{e["method"]} at line {e["loc"][1] if e["loc"] else "?"}: {x}')
                got.append(None)
                continue
            got.append(a)
            if a is None or b is None:
                continue
            if np.shape(a) != np.shape(b):
                return R_AX, f'of {np.shape(a)} values in one choice of units, {np.shape(b)} in another'
            d = {'x': pan[0], 'y': pan[1], 'c': None}[what]
            if d is not None:
                sc, sh = move[d]
                want = sc * np.asarray(a) + sh
                tol = 1e-6 * (sc * np.nanmax(np.abs(a), initial=0.0) * 2 + abs(sh))
                if not self.same(b, want, tol):
                    o = [x for x in range(self.D) if self.same(b, move[x][0] * np.asarray(a) + move[x][1], 1e-6 * (move[x][0] * np.nanmax(np.abs(a), initial=0.0) * 2 + abs(move[x][1])))]
                    return R_AX, f'has argument {n} along {what}, the axis of dimension {d}' + (f', in the units of dimension {o[0]}' if o else ', which does not move with that dimension') + f' ({self.few(a)} becomes {self.few(b)}, {self.show(move)})'
            elif what != 'c' and not e['method'].startswith('set_') or what == 'c':
                f = np.prod([move[x][0] for x in dims])
                m = np.nanmax(np.abs(a), initial=0.0)
                if not self.same(b, a, 1e-6 * m) and not self.same(b, np.asarray(a) / f, 1e-6 * m / f):
                    return R_AX, f'has argument {n} of heights that are neither unchanged nor a density in other units ({self.few(a)} becomes {self.few(b)}, {self.show(move)})'
            self.done += 1
        return self.values(e, pan, A, got) or self.marks and self.quantile(e, pan, A, got) or None

    def same(self, a, b, tol):
        a, b = np.asarray(a, float), np.asarray(b, float)
        bad = ~(np.abs(a - b) <= np.maximum(tol, 1e-7 * np.abs(b))) & ~(np.isnan(a) & np.isnan(b)) & ~(a == b)
        return not bad.any()

    @staticmethod
    def few(a):
        return np.array2string(np.ravel(a)[:3], precision=4)

    @staticmethod
    def show(move):
        return 'units/shifts ' + ', '.join(f'{a:g}/{b:g}' for a, b in move)

    # -------------------------------------------------------------- heights
    def values(self, e, pan, A, got):
        m = e['method']
        data, wt = self.inputs(A)
        self.used = {}
        for nm, d in self.moved.items():
            if nm[0] == 'e':
                self.used[d] = np.array([float(A.ev(tm.sym(nm, num(q)), {})) for q in range(self.size(A, nm))])
        if m == 'plot' and None in pan[:2] and all(g is not None for g in got) and np.size(got[0]) > 2:
            d = pan[0] if pan[0] is not None else pan[1]
            x, y = got if pan[1] is None else got[::-1]
            ok = np.isfinite(x) & np.isfinite(y)
            x, y = x[ok], y[ok]
            refs = [self.density([d], data, wt, [x])]
            if len(x) % 2 == 0 and np.allclose(x[1:-1:2], x[2::2]):
                ed = np.append(x[0::2], x[-1])
                c = np.histogram(data[d], bins=ed, weights=wt)[0]
                refs += [np.repeat(c, 2), np.repeat(c / np.diff(ed), 2)]
            if not any(self.propto(y, r) for r in refs):
                return R_VAL, f'draws heights {self.few(y)} at {self.few(x)} for dimension {d} that are neither its counts nor its density'
        if m in ('pcolormesh', 'pcolor', 'contour', 'contourf') and None not in pan[:2] and all(g is not None for g in got[:3]) and len(got) > 2:
            x, y, c = got[:3]
            j, i = pan[:2]
            r = None
            if np.ndim(x) == 1:
                if np.ndim(c) != 2 or c.shape[0] not in (len(y), len(y) - 1) or c.shape[1] not in (len(x), len(x) - 1):
                    return R_VAL, f'draws {np.shape(c)} cells on {len(y)} by {len(x)} edges'
                if c.shape == (len(y) - 1, len(x) - 1):
                    h = np.histogram2d(data[j], data[i], bins=(x, y), weights=wt)[0].T
                    area = np.diff(x)[None, :] * np.diff(y)[:, None]
                    r = [h, h / area]
                else:
                    x, y = np.meshgrid(x, y)
            if r is None:
                X, Y = np.asarray(x), np.asarray(y)
                if X.shape != np.shape(c):
                    return R_VAL, f'draws {np.shape(c)} values at {X.shape} points'
                r = list(self.density([j, i], data, wt, [X, Y]))
                r += self.centred(X, Y, data[j], data[i], wt, j, i)
                inner = np.zeros(c.shape, bool)
                inner[1:-1, 1:-1] = True
                alt = [(np.where(inner, z, 0.0)) for z in r]
                if any(self.propto(np.where(inner, c, 0.0), z) for z in alt) or any(self.propto(c, z) for z in r):
                    return None
                return R_VAL, f'draws values on the panel of dimensions {j}, {i} that are neither proportional to their counts nor to their density: {self.few(c)}'
            c = np.where(np.isfinite(c), c, np.nan)
            if not any(self.propto(c, z) for z in r):
                return R_VAL, f'draws cells in the panel of dimensions {j}, {i} that are not proportional to their counts: {self.few(c)}'
        return None

    def centred(self, X, Y, dx, dy, wt, j, i):
        """weighted counts and densities of the bins, of the edges in use, in which the points lie"""
        e = [self.used.get(j), self.used.get(i)]
        if any(x is None for x in e):
            return []
        h = np.histogram2d(dx, dy, bins=e, weights=wt)[0]
        a = [np.clip(np.searchsorted(x, v) - 1, 0, len(x) - 2) for x, v in zip(e, (X, Y))]
        return [h[a[0], a[1]], (h / (np.diff(e[0])[:, None] * np.diff(e[1])))[a[0], a[1]]]

    def inputs(self, A):
        I, k = self.I, self.k
        N = int(A.ev(tt(k.N), {}))
        data = np.array([[float(A.ev(I.T(nc.read(I, k.data2, [d, i])), {})) for i in range(N)] for d in range(k.D)])
        wt = None if k.w is None else np.array([float(A.ev(I.T(nc.read(I, k.w, [i])), {})) for i in range(N)])
        return data, wt

    @staticmethod
    def density(dims, data, wt, x):
        D, N = data.shape
        w = np.ones(N) if wt is None else wt
        neff = w.sum()**2 / (w**2).sum()
        # the bandwidth rule applies to the dimensions of the estimate it was made for
        out = []
        for nd, sel in ((D, data), (len(dims), data[dims])):
            C = np.atleast_2d(np.cov(sel, aweights=wt))
            if nd == D and nd != len(dims):
                C = C[np.ix_(dims, dims)]
            H = C * neff**(-2 / (nd + 4))
            Hi = np.linalg.inv(H)
            z = np.stack([np.asarray(x[a])[..., None] - data[d] for a, d in enumerate(dims)], -1)
            out.append((np.exp(-0.5 * np.einsum('...a,ab,...b', z, Hi, z)) * w).sum(-1))
        return out

    @staticmethod
    def propto(a, b):
        if isinstance(b, list):
            return any(Drawn.propto(a, x) for x in b)
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            return False
        ok = np.isfinite(a) & np.isfinite(b)
        a, b = a[ok], b[ok]
        if not len(a) or not np.abs(b).max() or not np.abs(a).max():
            return True
        k = (a * b).sum() / (b * b).sum()
        return bool(np.all(np.abs(a - k * b) <= 1e-6 * np.abs(k * b).max()))

    # -------------------------------------------------------------- weights
    def weights(self, e, pan, A, seed, ov):
        """lines and spans at quantiles follow the weights"""
        m = e['method']
        if m not in ('axvline', 'axhline', 'axvspan', 'axhspan') or not self.happens(e, A):
            return None
        if self.C is None or self.C[0] != seed:
            C, _ = self.p.tables(seed, MOVES[0], dict(ov, w=lambda tb, idx: random.Random(f'w{idx}').uniform(0.1, 5.0)))
            self.C = seed, C
        C = self.C[1]
        if self.p.exit(C) is not None or not self.happens(e, C):
            return None
        for what, v in self.args(e):
            a, c = self.numbers(A, v), self.numbers(C, v)
            if a is not None and c is not None and not self.same(a, c, 1e-9 * abs(a)):
                return None
        return R_W, f'does not change with the weights of the data ({self.few(a)})'

    def quantile(self, e, pan, A, got):
        """a line is the median, a span lies between quantiles at equal distances of the ends, of the dimension it is drawn for"""
        m = e['method']
        if m not in ('axvline', 'axhline', 'axvspan', 'axhspan') or any(g is None for g in got):
            return None
        d = pan[0] if m[2] == 'v' else pan[1]
        if d is None:
            return R_AX, 'marks a value along the axis of the counts or density'
        data, wt = self.inputs(A)
        q = np.argsort(data[d])
        x = data[d][q]
        w = np.ones(len(x)) if wt is None else wt[q]
        # conventions for the cumulative weight of a sorted value
        cums = [(np.cumsum(w) - 0.5 * w) / w.sum(), np.cumsum(w) / w.sum(), (np.cumsum(w) - w) / w.sum()]
        cums.append((np.cumsum(w) - w) / (w.sum() - w[-1]))
        if wt is None:
            cums.append(np.arange(len(x)) / (len(x) - 1))
        of = f'{"weighted " if wt is not None else ""}'
        if len(got) == 1:
            want = [np.interp(0.5, c, x) for c in cums]
            if not any(self.same(got[0], v, 1e-7 * np.abs(x).max()) for v in want):
                return R_VAL, f'marks {float(got[0]):.6g} in dimension {d}; its {of}median is {want[0]:.6g}'
            return None
        lo, hi = sorted(float(g) for g in got)
        if not x[0] <= lo <= hi <= x[-1]:
            return R_VAL, f'marks the range from {lo:.6g} to {hi:.6g} in dimension {d} with data from {x[0]:.6g} to {x[-1]:.6g}'
        qs = [float(A.ev(tm.sym(n), {})) for n in ('q0', 'q1') if n in self.p.s.inputs]
        show = []
        for c in cums:
            if lo == x[0] or hi == x[-1]:
                ok = not qs or any(self.same(np.interp([0.5 - v / 2, 0.5 + v / 2], c, x), [lo, hi], 1e-7 * np.abs(x).max()) for v in qs)
                a, b = 0.0, 1.0
            else:
                a, b = np.interp([lo, hi], x, c)
                ok = abs(a + b - 1.0) < 1e-6 and (not qs or min(abs(b - a - v) for v in qs) < 1e-6)
            if ok:
                return None
            show.append((a, b))
        return R_VAL, f'marks the range between the {of}quantiles {show[0][0]:.4g} and {show[0][1]:.4g} of dimension {d}' + (f' for the requested {np.round(qs, 4).tolist()}' if qs else '')


def corner(ck, key, w, D, meth, wt, opt):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, cov=None)
    kw, km, mv, names = {}, {}, {}, set()
    if wt:
        kw['weights'] = k.w
    if 'rotate' in opt:
        kw['rotate'] = FALSE
    if 'origin' in opt:
        kw['origin'] = opt['origin']
    if opt.get('limits'):
        kw['limits'] = s.list([s.list([s.num(f'l{d}', gen=lambda tb, i: -20.0), s.num(f'u{d}', gen=lambda tb, i: 22.5)]) for d in range(D)])
        mv.update({f'{c}{d}': d for c in 'lu' for d in range(D)})
    if opt.get('quantiles'):
        km['quantiles'] = s.list([s.num('q0', lo=0.2, hi=0.4), s.num('q1', lo=0.5, hi=0.8)])
        names |= {'q0', 'q1'}
    e = [s.arr(f'e{d}', (4 + d % 2,), gen=(lambda tb, i: -9.0 + 5.5 * i[0] + 0.3 * i[0]**2)) for d in range(D)]
    km['edges'] = s.list(e)
    mv.update({f'e{d}': d for d in range(D)})
    names |= set(mv)
    base = I.st
    box = {}

    def code():
        c = I.call(s.get('kalepy.Corner'), [k.data], kw)
        I_call(s, c, meth, [], km)
        a = I.getattr(c, 'axes')
        return tuple(tuple(item(s, a, (num(i), num(j))) for j in range(D)) for i in range(D))
    o = s.run(code)
    if o.ok and isinstance(o.value, tuple):
        for i in range(D):
            for j in range(D):
                x = I.resolve(o.value[i][j])
                if isinstance(x, Ext) and 'panel' in x.info:
                    box[x.info['panel']] = (i, j)
    rot = opt.get('rotate', True)

    def panels(ob):
        ij = box.get(ob.info.get('panel'))
        if ij is None or ij[1] > ij[0]:
            return None
        i, j = ij
        if i == j:
            return (None, i) if rot and i == D - 1 else (i, None)
        return j, i
    Drawn(ck, key, s, k, base, o, D, panels, mv, names, wt, {f'e{d}': 4 + d % 2 for d in range(D)}).run()


def target(ck, key, w, D):
    s = w.scenario()
    I = s.I
    k = Case(s, D, cov=None)
    t = [s.num(f't{d}') for d in range(D)]
    u = [s.num(f'u{d}', gen=lambda tb, i: 3.0) if d != 1 else None for d in range(D)]
    lo = [s.num(f'l{d}', gen=lambda tb, i: -3.0) if d != 0 else None for d in range(D)]
    mv = {f'{c}{d}': d for c in 'tul' for d in range(D)}
    lim = s.list([s.list([s.num(f'x{d}', gen=lambda tb, i: -20.0), s.num(f'y{d}', gen=lambda tb, i: 22.5)]) for d in range(D)])
    mv.update({f'{c}{d}': d for c in 'xy' for d in range(D)})
    base = I.st
    box = {}

    def code():
        c = I.call(s.get('kalepy.Corner'), [k.data], {'limits': lim})
        I_call(s, c, 'target', [s.list(t)], {'upper_limits': s.list(u), 'lower_limits': s.list(lo)})
        a = I.getattr(c, 'axes')
        return tuple(tuple(item(s, a, (num(i), num(j))) for j in range(D)) for i in range(D))
    draw(ck, key, s, k, base, code, D, mv, box)


def draw(ck, key, s, k, base, code, D, mv, box):
    I = s.I
    o = s.run(code)
    if o.ok and isinstance(o.value, tuple):
        for i in range(D):
            for j in range(D):
                x = I.resolve(o.value[i][j])
                if isinstance(x, Ext) and 'panel' in x.info:
                    box[x.info['panel']] = (i, j)

    def panels(ob):
        ij = box.get(ob.info.get('panel'))
        if ij is None or ij[1] > ij[0]:
            return None
        i, j = ij
        if i == j:
            return (None, i) if i == D - 1 else (i, None)
        return j, i
    d = Drawn(ck, key, s, k, base, o, D, panels, mv, set(mv), False, None)
    d.marks = False
    d.run()


def ext_ax():
    return Ext('axes', {'panel': (0, 0)})


def one(ck, key, w, D, f, wt, rot, kd, prm):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, cov=None)
    e = s.arr('e', (5,), gen=lambda tb, i: -9.0 + 5.5 * i[0])
    kw = {'ax': ext_ax()}
    if rot:
        kw['rotate'] = TRUE
    if f in ('dist1d', 'hist1d'):
        kw['edges'] = e
    if f == 'dist1d':
        kw.update(confidence=TRUE, hist=TRUE, density=TRUE)
        if kd:
            kw['param'] = num(prm)
    base = I.st

    def code():
        x = k.kde(bandwidth=None) if kd else k.data
        q = dict(kw)
        if wt and not kd:
            q['weights'] = k.w
        return I.call(s.get('kalepy.plot.' + f), [x], q)
    o = s.run(code)
    Drawn(ck, key, s, k, base, o, D, lambda ob: (None, prm) if rot else (prm, None), {'e': prm}, {'e'}, wt, None).run()


def two(ck, key, w, D, f, wt, prm, raw=False):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, cov=None)
    pr = prm or [0, 1]
    e = [s.arr(f'e{d}', (4 + n,), gen=lambda tb, i: -9.0 + 5.5 * i[0] + 0.3 * i[0]**2) for n, d in enumerate(pr)]
    kw = {'ax': ext_ax(), 'edges': s.list(e)}
    if f == 'contour':
        kw.update(smooth=None, upsample=None)
    if prm is not None:
        kw['params'] = s.list(prm)
    if wt and (prm is None or raw):
        kw['weights'] = k.w
    base = I.st

    def code():
        x = k.kde(bandwidth=None) if prm is not None and not raw else k.data
        return I.call(s.get('kalepy.plot.' + f), [x], kw)
    o = s.run(code)
    Drawn(ck, key, s, k, base, o, D, lambda ob: (pr[0], pr[1]), {f'e{d}': d for d in pr}, {f'e{d}' for d in pr}, wt, {f'e{d}': 4 + n for n, d in enumerate(pr)}).run()
