"""P07: resampling with boundaries stays inside and uses the mirrored data."""
import random

import numpy as np

from .. import law, rint, sim
from .common import *  # noqa
from .p06 import bounds
from .p08 import reference, tt

R_IN = 'every cell of the returned points lies within the boundaries, in every state of the drawing loop'
R_LAW = 'the law of the value graph of a resampled point is the mixture of kernels at data and mirror images, within the boundaries'
R_SIZE = 'the number of points is the requested size'
FORMS = {1: ['flat', 'flat-lo', 'flat-hi', (('lo', 'hi'),)],
         2: [(('lo', 'hi'), None), (None, ('lo', 'hi')), ((None, 'hi'), None), (('lo', None), (None, 'hi')), (('lo', 'hi'), ('lo', 'hi'))],
         3: [(None, ('lo', 'hi'), None), (('lo', None), None, (None, 'hi'))]}


def run(ck):
    w = ck.world()
    for D in (1, 2) + ((3,) if ck.thorough else ()):
        for form in FORMS[D]:
            fm = str(form).replace("'", '')
            for wt in (False, True):
                ck.case(f'D={D} {fm} weights={wt}', R_LAW, lawcase, w, D, form, wt, 'gaussian', {'where': 'KDE' if wt else 'resample'})
                ck.case(f'D={D} {fm} weights={wt} stays inside', R_IN, inside, w, D, form, wt, 'gaussian', {'where': 'resample' if wt else 'KDE'})
        form = FORMS[D][0]
        for kern in ('box', 'parabola'):
            ck.case(f'D={D} {kern}', R_LAW, lawcase, w, D, form, True, kern, {'where': 'KDE'})
            ck.case(f'D={D} {kern} stays inside', R_IN, inside, w, D, form, True, kern, {'where': 'KDE'})
        ck.case(f'D={D} reflect=True stays inside', R_IN, inside, w, D, 'true', True, 'gaussian', {'where': 'KDE'})
        ck.case(f'D={D} reflect=True', R_LAW, lawcase, w, D, 'true', True, 'gaussian', {'where': 'KDE'})
        ck.case(f'D={D} default size stays inside', R_IN, inside, w, D, form, True, 'gaussian', {'where': 'KDE', 'size': None})
        ck.case(f'D={D} module function', R_LAW, lawcase, w, D, form, True, 'gaussian', {'where': 'mod'})
        ck.case(f'D={D} module function stays inside', R_IN, inside, w, D, form, True, 'gaussian', {'where': 'mod'})
        ck.case(f'D={D} replaces the boundaries of the constructor', R_LAW, lawcase, w, D, form, True, 'gaussian', {'where': 'both'})
        ck.case(f'D={D} replaces the boundaries of the constructor, stays inside', R_IN, inside, w, D, form, True, 'gaussian', {'where': 'both'})
        ck.case(f'D={D} after density', R_LAW, lawcase, w, D, form, True, 'gaussian', {'where': 'KDE', 'after': True})
    ck.case('D=2 keep another dimension', R_LAW, lawcase, w, 2, (('lo', 'hi'), None), True, 'gaussian', {'where': 'KDE', 'keep': 1})
    ck.case('D=2 keep another dimension stays inside', R_IN, inside, w, 2, (None, ('lo', 'hi')), True, 'gaussian', {'where': 'KDE', 'keep': 0})


def setup(s, D, form, wt, kern, opt):
    I = s.I
    k = Case(s, D, weights=wt)
    if form == 'true':
        arg, sp, names = TRUE, None, set()
    else:
        arg, sp, names = bounds(s, k, form, D)
    S = s.int('S', 1)
    ra = {} if opt.get('size', 1) is None else {'size': S}
    if 'keep' in opt:
        ra['keep'] = s.list([num(opt['keep'])])
    kw = {'kernel': kern}
    where = opt['where']
    if where == 'KDE':
        kw['reflect'] = arg
    elif where == 'resample':
        ra['reflect'] = arg
    elif where == 'both':
        kw['reflect'] = s.list([s.list([s.num('q0', hi=-60), s.num('q1', lo=60)]) for d in range(D)])
        ra['reflect'] = arg

    def code():
        if where == 'mod':
            q = dict(kw, bandwidth=k.h, covariance=k.cov, reflect=arg, **ra)
            if k.w is not None:
                q['weights'] = k.w
            return I.call(s.get('kalepy.resample'), [k.data], q)
        o = k.kde(**kw)
        if opt.get('after'):
            I_call(s, o, 'density', [k.points], {})
        return I_call(s, o, 'resample', [], ra)
    base = I.st
    I.rng_log = []
    n0 = len(I.loops)
    o = s.run(code)
    return k, sp, names, S, base, o, [r for r in I.loops[n0:]]


def result(ck, key, s, o, D, rule):
    I = s.I
    if o.undecided or not o.ok:
        ck.add(key, UNDECIDED, rule, str(o.undecided or 'every abstract path raises: ' + '; '.join(f'{e.cls} {e.msg} {e.loc}' for _, e in o.raises[:2])))
        return None
    I.st = o.st
    v = I.resolve(o.value)
    if not isinstance(v, Arr) or v.ndim != (1 if D == 1 else 2):
        ck.add(key, UNDECIDED, rule, 'the resampled points are not known to the analysis')
        return None
    rd = sim.Value(I, o.st, v)

    def cell(tb, d, j):
        return float(rd.at(tb, (j,) if D == 1 else (d, j)))
    return v, cell


class Data:
    """values of the inputs under one valuation, with boundaries at chosen distances of the data"""

    def __init__(self, s, k, sp, D, tb, N, h, margin):
        I = s.I
        tb.over.update({'N': N, 'h': h})
        self.x = np.array([[float(tb.ev(I.T(nc.read(I, k.data2, [d, i])), {})) for i in range(N)] for d in range(D)])
        C = np.array([[float(tb.ev(I.T(nc.read(I, k.cov, [i, j])), {})) for j in range(D)] for i in range(D)])
        self.H = C * h * h
        sd = np.sqrt(np.diag(self.H))
        self.w = np.array([float(tb.ev(I.T(nc.read(I, k.w, [i])), {})) for i in range(N)]) if k.w is not None else np.ones(N)
        self.w = self.w / self.w.sum()
        self.b = []
        for d in range(D):
            lo, hi = -np.inf, np.inf
            r = (None, None) if sp is not None and sp[d] is None else sp[d] if sp is not None else (1, 1)
            if r[0] is not None:
                lo = self.x[d].min()
                if sp is not None:
                    lo = tb.over[f'lo{d}'] = lo - margin[0] * sd[d]
                else:
                    lo = lo - abs(lo) * 1e-8
            if r[1] is not None:
                hi = self.x[d].max()
                if sp is not None:
                    hi = tb.over[f'hi{d}'] = hi + margin[1] * sd[d]
                else:
                    hi = hi + abs(hi) * 1e-8
            self.b.append((lo, hi))
        tb.memo.clear()

    def outside(self, x):
        for d, (lo, hi) in enumerate(self.b):
            if not lo - 1e-12 <= x[d] <= hi + 1e-12:
                return d
        return None


def lawcase(ck, key, w, D, form, wt, kern, opt):
    s = w.scenario()
    k, sp, names, S, base, o, loops = setup(s, D, form, wt, kern, opt)
    q = result(ck, key, s, o, D, R_LAW)
    if q is None:
        return
    v, cell = q
    systems = [sim.System(s.I, r) for r in loops]
    pc = o.st.pc[len(base.pc):]
    n = 4096 if not ck.thorough else 16384
    for seed, h, margin in (('3', 0.6, (0.2, 0.9)), ('5', 2.5, (1.1, 0.3))):
        tb = rint.Table(seed, s.inputs, o.rng)
        tb.over = {'S': 1}
        if 'size' in opt:
            tb.over.pop('S')
        dt = Data(s, k, sp, D, tb, 4, h if sp is not None else min(h, 0.9), margin)
        if np.linalg.eigvalsh(dt.H).min() <= 0:
            continue
        from scipy.stats import qmc
        pts = np.clip(qmc.Sobol(12, scramble=True, seed=7).random(n), 1e-9, 1 - 1e-9)
        slots, X = {}, []
        bare = 0
        for row in pts:
            root = law.Draws(tb, o.rng, row, slots)
            z = sim.Sim(root, systems)
            z.limit = 2
            try:
                if not all(z.truth(c) for c in pc):
                    bare += 1
                    continue
                X.append([cell(z, d, 0) for d in range(D)])
            except sim.Long:
                bare += 1
        X = np.array(X).T
        if X.size == 0 or X.shape[1] < n // 20:
            return ck.add(key, UNDECIDED, R_LAW, f'only {X.size} of {n} draws are accepted at once')
        bad = compare(X, dt, kern, D, opt)
        if bad:
            return ck.add(key, VIOLATED, R_LAW, bad, blame(o, s))
    ck.add(key, HOLDS, R_LAW, how=f'push-forward over {X.shape[1]} accepted points, {len(systems)} loop(s)')


def blame(o, s):
    for l in s.I.loops:
        pass
    return None


def mixture(dt, kern, D, opt, n=600000):
    g = np.random.default_rng(5)
    N = dt.x.shape[1]
    cent, wts = [dt.x], [dt.w]
    for d, b in enumerate(dt.b):
        for r in b:
            if np.isfinite(r):
                m = dt.x.copy()
                m[d] = 2 * r - m[d]
                cent.append(m)
                wts.append(dt.w)
    cent, wts = np.concatenate(cent, axis=1), np.concatenate(wts)
    i = g.choice(len(wts), size=n, p=wts / wts.sum())
    L = np.linalg.cholesky(dt.H)
    u = L @ reference(kern, D, n)
    if 'keep' in opt:
        u[opt['keep']] = 0
    x = cent[:, i] + u
    ok = np.ones(n, bool)
    for d, (lo, hi) in enumerate(dt.b):
        ok &= (x[d] >= lo) & (x[d] <= hi)
    return x[:, ok]


def compare(X, dt, kern, D, opt):
    R = mixture(dt, kern, D, opt)
    sd = np.sqrt(np.diag(dt.H))
    g = np.random.default_rng(3)
    dirs = [(f'coordinate {d}', np.eye(D)[d]) for d in range(D)]
    dirs += [('a combination of the coordinates', v / np.linalg.norm(v)) for v in (g.standard_normal((5, D)) if D > 1 else [])]
    for nm, u in dirs:
        y, r = (u / sd) @ X, np.sort((u / sd) @ R)
        f = np.searchsorted(r, np.sort(y), side='right') / len(r)
        fl = np.searchsorted(r, np.sort(y), side='left') / len(r)
        e = (np.arange(len(f)) + 0.5) / len(f)
        ks = np.maximum(e - f, fl - e).max()
        if ks > 0.02 + 0.6 / np.sqrt(len(f)):
            return (f'{nm} of a point drawn with boundaries {[tuple(np.round(b, 3)) for b in dt.b]} has quartiles {np.round(np.quantile(y, [.25, .5, .75]), 3).tolist()} '
                    f'instead of {np.round(np.quantile(r, [.25, .5, .75]), 3).tolist()} for kernels at the data {np.round(dt.x, 3).tolist()}, weights {np.round(dt.w, 3).tolist()} and their mirror images')
    return None


def inside(ck, key, w, D, form, wt, kern, opt):
    s = w.scenario()
    k, sp, names, S, base, o, loops = setup(s, D, form, wt, kern, opt)
    q = result(ck, key, s, o, D, R_IN)
    if q is None:
        return
    v, cell = q
    ck.prove(key + ': number of points', s, base, o, tm.eq(tt(v.shape[-1]), tt(S if 'size' not in opt else k.N)), k.names | {'S'}, R_SIZE)
    systems = [sim.System(s.I, r) for r in loops]
    pc = o.st.pc[len(base.pc):]
    nh = nx = most = 0
    for seed in range(10 if not ck.thorough else 60):
        for h in (0.5, 3.0, 8.0):
            size = 1 + seed % 5
            tb = rint.Table(f'{seed}|{h}', s.inputs, o.rng)
            tb.over = {'S': size}
            dt = Data(s, k, sp, D, tb, 2 + seed % 3, h, (0.3 * (seed % 4), 0.2 * (seed % 3)))
            if np.linalg.eigvalsh(dt.H).min() <= 0:
                continue
            z = sim.Sim(tb, systems)
            if not all(z.truth(c) for c in pc):
                nx += 1
                continue
            nh += 1
            most = max(most, getattr(z, 'count', 0))
            rows = {}
            for j in range(size if 'size' not in opt else 2 + seed % 3):
                x = [cell(z, d, j) for d in range(D)]
                i = rows.setdefault(tuple(x), j)
                if i != j:
                    return ck.add(key, VIOLATED, R_IN, f'points {i} and {j} of {size} are the same draw (after {getattr(z, "count", 0)} passes of the loop)')
                if 'keep' in opt and np.abs(dt.x[opt['keep']] - x[opt['keep']]).min() > 1e-9:
                    return ck.add(key, VIOLATED, R_LAW, f'point {j} of {size} does not keep coordinate {opt["keep"]} of a data point: {x[opt["keep"]]:.5g} '
                                  f'(after {getattr(z, "count", 0)} passes of the loop)')
                d = dt.outside(x)
                if d is not None:
                    return ck.add(key, VIOLATED, R_IN, f'point {j} of {size} has coordinate {d} = {x[d]:.5g}, outside of [{dt.b[d][0]:.5g}, {dt.b[d][1]:.5g}] '
                                  f'(after {getattr(z, "count", 0)} passes of the loop)')
    if not nh:
        return ck.add(key, UNDECIDED, R_IN, 'no valuation completes')
    how = invariant(ck, s, k, sp, S, o, pc, systems, cell, D, opt)
    ck.add(key, HOLDS, R_IN, how=f'{nh} histories of up to {most} passes; ' + (f'invariant {how}' if how else 'no inductive invariant found'))


def invariant(ck, s, k, sp, S, o, pc, systems, cell, D, opt):
    """an invariant 'the first n rows of this buffer are within the boundaries' that holds initially, is kept by every pass and suffices"""
    if len(systems) != 1:
        return None
    sy = systems[0]
    counters = [nm for nm, (loc, b, e, ph) in sy.phis.items() if not b.shape]
    bufs = [nm for nm, (loc, b, e, ph) in sy.phis.items() if b.shape]
    for n in counters:
        for bf in bufs:
            r = holds(ck, s, k, sp, S, o, pc, sy, cell, D, opt, n, bf)
            if r:
                return f'rows below {n.split("_", 1)[1].rsplit("_", 1)[0]} are within the boundaries: {r}'
    return None


def holds(ck, s, k, sp, S, o, pc, sy, cell, D, opt, n, bf):
    done = 0
    shape = sy.phis[bf][1].shape
    for seed in range(24):
        size = 1 + seed % 4
        tb = rint.Table(f'inv{seed}', s.inputs, o.rng)
        tb.over = {'S': size}
        N = 3 if 'size' not in opt else size
        h = (0.5, 3.0)[seed % 2]
        try:
            dt = Data(s, k, sp, D, tb, N, h, (0.3, 0.2))
            z = sim.Sim(tb, [sy])
            dims = [int(z.ev(tt(d), {})) for d in shape]
            rows = [a for a, d in enumerate(shape) if not nc.conc(d)]
            if len(rows) != 1 or D > 1 and len(shape) != 2:
                return None
            row = rows[0]
            first = z.first(sy)
            if int(first[n](())) != 0:
                return None
            g = random.Random(f'{seed}')
            m = g.randint(0, dims[row])
            vals = {}

            def cells(idx):
                if idx not in vals:
                    d = [i for a, i in enumerate(idx) if a != row]
                    d = d[0] if d and D > 1 else 0
                    lo, hi = dt.b[d]
                    lo, hi = (max(lo, -50) if idx[row] < m else -100), (min(hi, 50) if idx[row] < m else 100)
                    vals[idx] = random.Random(f'{seed}|{idx}').uniform(lo, hi)
                return vals[idx]
            phi = {}
            for nm, (loc, b, e, ph) in sy.phis.items():
                if nm == n:
                    phi[nm] = lambda idx: m
                elif nm == bf:
                    phi[nm] = cells
                elif not b.shape:
                    phi[nm] = lambda idx, nm=nm: random.Random(f'{seed}|{nm}').randint(1, 5)
            t, out = z.step(sy, phi, 3)
            if out:
                t.systems = []
                if not all(t.truth(c) for c in pc):
                    continue
                for j in range(dims[row]):
                    if dt.outside([cell(t, d, j) for d in range(D)]) is not None:
                        return None
            else:
                end = {nm: sim.cell(t, e) for nm, (loc, b, e, ph) in sy.phis.items() if nm in (n, bf)}
                m2 = int(end[n](()))
                if not 0 <= m2 <= dims[row]:
                    return None
                for j in range(m2):
                    x = [end[bf](tuple(j if a == row else d for a in range(len(shape)))) for d in range(D)]
                    if dt.outside(x) is not None:
                        return None
            done += 1
        except rint.Unknown:
            return None
    return f'{done} arbitrary states' if done > 8 else None
