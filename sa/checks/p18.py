"""P18: outlier sampling accounts for every bin exactly once."""
import itertools

import numpy as np

from .. import law, rint, sim
from .common import *  # noqa
from .p17 import Grid, tt

RULE = 'the points are the centroid of every bin above the threshold with its mass, and unit points in the other bins in proportion to their mass'
R_N = 'points and weights agree in number'


def run(ck):
    w = ck.world()
    for D in (1, 2, 3):
        for how in ('object', 'function'):
            for mass in ('trapz', 'given'):
                for rel in ('some', 'none', 'all', 'one'):
                    if D == 3 and (how, mass) != ('object', 'given'):
                        continue
                    ck.case(f'{how} D={D} mass={mass} {rel} above the threshold', RULE, case, w, D, how, mass, rel, {})
        ck.case(f'without interpolation D={D}', RULE, case, w, D, 'object', 'given', 'some', {'interp': False})
        ck.case(f'zero mass bins D={D}', RULE, case, w, D, 'object', 'zeros', 'some', {})
        ck.case(f'second call D={D}', RULE, case, w, D, 'object', 'given', 'some', {'twice': True})
        ck.case(f'mass equal to the threshold D={D}', RULE, case, w, D, 'object', 'given', 'equal', {})
        ck.case(f'default threshold D={D}', RULE, case, w, D, 'object', 'big', 'default', {})


def zeros(tb, idx):
    return 0.0 if sum(idx) % 3 == 0 else 0.4 + 0.7 * (sum((a + 2) * i * i for a, i in enumerate(idx)) % 4)


def case(ck, key, w, D, how, mass, rel, opt):
    s = w.scenario()
    I = s.I
    g = Grid(s, D)
    kw = {}
    if mass != 'trapz':
        kw['mass'] = g.arr('mass', 1, **({'lo': 0, 'gen': zeros} if mass == 'zeros' else {'lo': 2, 'hi': 14} if mass == 'big' else {'lo': 0.1, 'hi': 2.5}))
    if rel != 'default':
        kw['threshold'] = s.num('th', lo=0)
    call = {}
    if opt.get('interp') is False:
        call['interpolate'] = FALSE
    names = g.names | {'th'}
    base = I.st
    I.rng_log = []

    def code():
        if how == 'function':
            return I.call(s.get('kalepy.sample_outliers'), [g.edges, g.dens], {**kw, **call})
        o = I.call(s.get('kalepy.sample.Sample_Outliers'), [g.edges, g.dens], dict(kw))
        if opt.get('twice'):
            I_call(s, o, 'sample', [], {})
        return I_call(s, o, 'sample', [], dict(call))
    o = s.run(code)
    if o.undecided or not o.ok:
        return ck.add(key, UNDECIDED, RULE, str(o.undecided or 'every abstract path raises'))
    I.st = base.fork()
    cen = s.run(lambda: I.call(s.get('spec.centres'), [tuple(g.e), g.dens], {}))
    rc = [sim.Value(I, cen.st, I.resolve(x)) for x in (I.items(cen.value) if not isinstance(I.resolve(cen.value), Arr) else [item(s, cen.value, num(d)) for d in range(D)])]
    I.st = o.st
    v = I.resolve(o.value)
    if not isinstance(v, tuple) or len(v) != (2 if how == 'function' else 3):
        return ck.add(key, UNDECIDED, RULE, 'the result is not known to the analysis')
    num_, P, W = (None,) * (how == 'function') + tuple(I.resolve(x) for x in v)
    pc = o.st.pc[len(base.pc):]
    flat = D == 1 and how == 'function'
    done = 0
    for seed in range(4):
        tb = rint.Table(str(seed), s.inputs, o.rng)
        ng = ([4, 3, 3] if seed % 2 == 0 else [5, 4, 3])[:D]
        I.st = base
        if mass == 'trapz':
            tb.over['th'] = 1.0
        e, m = g.load(tb, ng, kw.get('mass'))
        ms = np.sort(m.ravel())
        if rel != 'default':
            pos = ms[ms > 0]
            tb.over['th'] = {'some': 0.5 * (ms[len(ms) // 2] + ms[len(ms) // 2 - 1]), 'none': ms[-1] + 0.5, 'all': 0.5 * pos[0],
                             'one': 0.5 * (ms[-1] + ms[-2]), 'equal': ms[len(ms) // 2]}[rel]
        th = tb.over.get('th', 10.0)
        tb.memo.clear()
        r = judge(tb, o, s, num_, P, W, rc, pc, flat, D, e, m, th, ck)
        if r == '?':
            continue
        if isinstance(r, tuple):
            return ck.add(key, VIOLATED, r[0], r[1] + f' (threshold {th:.4g}, mass {np.round(m, 3).tolist()})', r[2] if len(r) > 2 else None)
        done += 1
    if not done:
        return ck.add(key, UNDECIDED, RULE, 'no valuation completes')
    ck.add(key, HOLDS, RULE, how=f'{done} grids, push-forward of the points outside')


class Merged:
    """an array value that may be one of several on different paths"""

    def __init__(self, I, st, v):
        self.I, self.st, self.v = I, st, v
        self.rd = sim.Value(I, st, v) if isinstance(v, Arr) else None

    def pick(self, tb):
        v = self.v
        while isinstance(v, Choice):
            v = self.I.resolve(v.a if tb.truth(v.cond) else v.b)
        if v is self.v and self.rd is not None:
            return self.rd
        if not isinstance(v, Arr):
            raise rint.Unknown('result')
        return sim.Value(self.I, self.st, v)


def judge(tb, o, s, num_, P, W, rc, pc, flat, D, e, m, th, ck):
    I = s.I
    I.st = o.st
    if not all(tb.truth(c) for c in pc):
        for st, ex in o.raises:
            if ex.loc and all(tb.truth(c) for c in st.pc[len(o.st.pc) - len(pc):]):
                return RULE, f'valid input reaches {ex.cls} ({ex.msg})', ex.loc
        return '?'
    rp, rw = Merged(I, o.st, P).pick(tb), Merged(I, o.st, W).pick(tb)
    shp = tuple(int(tb.ev(tt(x), {})) for x in rp.shape)
    shw = tuple(int(tb.ev(tt(x), {})) for x in rw.shape)
    if shp[-1] != shw[-1] or len(shw) != 1:
        return R_N, f'{shp[-1]} points but weights of shape {shw}'
    if not flat and shp[0] != D or flat and len(shp) != 1:
        return R_N, f'points of shape {shp} for {D} dimension(s)'
    N = shp[-1]
    if num_ is not None and int(tb.ev(tt(num_), {})) != N:
        return R_N, f'reports {int(tb.ev(tt(num_), {}))} points but returns {N}'
    ins = [b for b in np.ndindex(*m.shape) if m[b] > th]
    rest = np.where(m > th, 0.0, m)
    nout = int(np.around(rest.sum()))
    if N != len(ins) + nout:
        return RULE, f'{N} points instead of {len(ins)} centroids and {nout} samples'
    cent = {b: tuple(float(rc[d].at(tb, b)) for d in range(D)) for b in ins}

    def points(z):
        return [(tuple(float(rp.at(z, (j,) if flat else (d, j))) for d in range(D)), float(rw.at(z, (j,)))) for j in range(N)]
    base = points(tb)
    idx = set()
    for b in ins:
        hit = [j for j, (x, q) in enumerate(base) if j not in idx and all(rint.close(p, c) for p, c in zip(x, cent[b])) and rint.close(q, m[b])]
        if not hit:
            near = [j for j, (x, q) in enumerate(base) if all(rint.close(p, c) for p, c in zip(x, cent[b]))]
            return RULE, f'bin {b} of mass {m[b]:.4g} is not represented at its centroid {np.round(cent[b], 4).tolist()} with its mass' + (
                f' but with {base[near[0]][1]:.4g}' if near else '')
        idx.add(hit[0])
    out = [j for j in range(N) if j not in idx]
    for j in out:
        if not rint.close(base[j][1], 1.0):
            return RULE, f'point {j}, which represents no bin above the threshold, has weight {base[j][1]:.5g}'
    if not out:
        return None
    count = np.zeros(m.shape)
    from scipy.stats import qmc
    n = 512 if not ck.thorough else 2048
    pts = np.clip(qmc.Sobol(min((D + 1) * len(out) + 2, 40), scramble=True, seed=7).random(n), 1e-9, 1 - 1e-9)
    slots = {}
    if (D + 1) * len(out) + 2 > 40:
        return None
    for row in pts:
        z = law.Draws(tb, o.rng, row, slots)
        for j in out:
            x = [float(rp.at(z, (j,) if flat else (d, j))) for d in range(D)]
            b = []
            for d in range(D):
                i = int(np.searchsorted(e[d], x[d], side='right')) - 1
                i += (i == -1 and x[d] >= e[d][0] - 1e-9) - (i == len(e[d]) - 1 and x[d] <= e[d][-1] + 1e-9)
                if not 0 <= i < len(e[d]) - 1:
                    return RULE, f'an outlier has coordinate {d} = {x[d]:.5g}, outside of the edges'
                b.append(i)
            if rest[tuple(b)] == 0:
                return RULE, f'an outlier lies in bin {tuple(b)} of mass {m[tuple(b)]:.4g}, which is above the threshold or empty'
            count[tuple(b)] += 1
    p, q = count / count.sum(), rest / rest.sum()
    if np.abs(p - q).max() > 0.035:
        k = tuple(int(i) for i in np.unravel_index(np.abs(p - q).argmax(), p.shape))
        return RULE, f'outliers fall in bin {k} with probability {p[k]:.3f} instead of {q[k]:.3f}'
    return None
