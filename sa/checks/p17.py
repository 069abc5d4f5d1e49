"""P17: grid sampling picks bins by mass and places samples inside them."""
import itertools
import random

import numpy as np
from scipy import stats

from .. import law, rint, sim
from ..values import canon_dim
from .common import *  # noqa

R_LAW = 'the law of the value graph of a sample over the bins is the share of their mass'
R_IN = 'every sample lies within the edges of a bin that has mass'
R_SC = 'the scalar of a sample belongs to the bin of its position'
R_N = 'the number of samples is the requested one, by default the total mass'
R_IND = 'samples share no variates but those that pick the bins'


def run(ck):
    w = ck.world()
    for D in (1, 2, 3):
        for how in ('object', 'function'):
            for mass in ('trapz', 'given', 'zeros'):
                for interp in (None, False, True):
                    if interp is True and (D, how, mass) != (2, 'object', 'given') or D == 3 and (how == 'function' or mass == 'zeros'):
                        continue
                    ck.case(f'{how} D={D} mass={mass} interpolate={interp}', R_LAW, case, w, D, how, mass, interp, {})
        for interp in (False, None):
            ck.case(f'several samples D={D} interpolate={interp}', R_LAW, case, w, D, 'object', 'given', interp, {'S': 3})
            if interp is not False:
                for q in range(D):
                    ck.case(f'scalar D={D} interpolate={interp} varying along dimension {q}', R_SC, case, w, D, 'object' if interp else 'function', 'given', interp, {'scalar': True, 'along': q})
            ck.case(f'scalar D={D} interpolate={interp}', R_SC, case, w, D, 'object', 'given', interp, {'scalar': True})
        ck.case(f'scalar D={D} trapezoid', R_SC, case, w, D, 'object', 'given', False, {'scalar': 'trapz'})
        if D < 3:
            ck.case(f'scalar D={D} function, several samples', R_SC, case, w, D, 'function', 'trapz', False, {'scalar': True, 'S': 2})
            ck.case(f'default number D={D}', R_N, number, w, D, False)
            ck.case(f'default number D={D} given mass', R_N, number, w, D, True)
            ck.case(f'second call D={D}', R_LAW, case, w, D, 'object', 'given', None, {'twice': True})
            ck.case(f'zero density in places D={D}', R_LAW, case, w, D, 'object', 'given', None, {'zero': True})
    ck.case('proportional D=2', R_LAW, case, w, 2, 'proportional', 'trapz', False, {'scalar': 'prop'})
    ck.case('proportional D=1', R_LAW, case, w, 1, 'proportional', 'trapz', False, {'scalar': 'prop'})


def code_of(tb, idx):
    return 1000.0 * (1 + idx[0]) + sum(70.0 * (1 + i) * (a + 1) for a, i in enumerate(idx[1:]))


def some_zero(tb, idx):
    r = random.Random(f'{tb.seed}|zero|{idx}')
    return 0.0 if r.random() < 0.4 and any(idx) else r.uniform(0.2, 2.0)


class Grid:
    def __init__(self, s, D, opt=()):
        opt = dict(opt)
        self.s, self.D = s, D
        self.n = [s.int(f'G{d}', 3) for d in range(D)]
        self.e = [s.arr(f'e{d}', (self.n[d],), sorted=True) for d in range(D)]
        self.edges = self.e[0] if D == 1 else s.list(self.e)
        if opt.get('zero'):
            self.dens = s.arr('dens', tuple(self.n), lo=0, gen=some_zero)
        else:
            self.dens = self.arr('dens')
        self.names = {'S', 'dens', 'mass', 'sd', 'sm', 'por'} | {f'e{d}' for d in range(D)} | {f'G{d}' for d in range(D)}

    def arr(self, nm, less=0, **kw):
        sh = tuple(canon_dim(tm.sub(num(x), num(less))) for x in self.n)
        if not kw:
            kw = dict(lo=0, lo_open=True)
        return self.s.arr(nm, sh, **kw)

    def values(self, tb, a, sh):
        I = self.s.I
        rd = sim.Value(I, self.s.I.st, a)
        out = np.zeros(sh)
        for i in itertools.product(*[range(x) for x in sh]):
            out[i] = float(rd.at(tb, i))
        return out

    def load(self, tb, ng, mass=None):
        """(edges, mass of every bin) under a valuation"""
        for d in range(self.D):
            tb.over[f'G{d}'] = ng[d]
        e = [np.array([float(tb.ev(self.s.I.T(nc.read(self.s.I, x, [i])), {})) for i in range(ng[d])]) for d, x in enumerate(self.e)]
        bins = tuple(x - 1 for x in ng)
        if mass is not None:
            return e, self.values(tb, mass, bins)
        return e, trapz(e, self.values(tb, self.dens, tuple(ng)))


def trapz(e, z):
    """mass of every cell: mean of the corners times the volume"""
    m = z
    for d in range(z.ndim):
        m = 0.5 * (np.take(m, range(1, m.shape[d]), d) + np.take(m, range(m.shape[d] - 1), d))
    for d, x in enumerate(e):
        m = m * np.diff(x).reshape([-1 if a == d else 1 for a in range(z.ndim)])
    return m


def build(s, g, how, mass, interp, opt):
    I = s.I
    con, call = {}, {}
    if mass == 'given':
        con['mass'] = g.arr('mass', 1)
    elif mass == 'zeros':
        con['mass'] = g.arr('mass', 1, lo=0, gen=some_zero)
    sc = opt.get('scalar')
    if sc and sc != 'prop':
        if 'along' in opt:
            q = opt['along']
            con['scalar_dens'] = g.arr('sd', gen=lambda tb, idx: 1.0 + 2.0 * idx[q] + 0.5 * idx[q]**2)
        else:
            con['scalar_dens'] = g.arr('sd', lo=0, hi=1)
        if sc is True:
            con['scalar_mass'] = g.arr('sm', 1, gen=code_of)
    S = s.int('S', 1)
    if interp is not None:
        call['interpolate'] = TRUE if interp else FALSE
    por = g.arr('por') if sc == 'prop' else None

    def code():
        if how == 'function':
            return I.call(s.get('kalepy.sample_grid'), [g.edges, g.dens], {**con, **call, 'nsamp': S})
        if how == 'proportional':
            return I.call(s.get('kalepy.sample_grid_proportional'), [g.edges, g.dens, por, S], {**con, **call})
        o = I.call(s.get('kalepy.sample.Sample_Grid'), [g.edges, g.dens], dict(con))
        if opt.get('twice'):
            I_call(s, o, 'sample', [num(2)], {})
        return I_call(s, o, 'sample', [S], dict(call))
    return code, con, por


def case(ck, key, w, D, how, mass, interp, opt):
    s = w.scenario()
    I = s.I
    g = Grid(s, D, opt)
    code, con, por = build(s, g, how, mass, interp, opt)
    base = I.st
    I.rng_log = []
    o = s.run(code)
    if ck.valid_raises(key, s, base, o, g.names, R_LAW):
        return
    I.st = o.st
    v = I.resolve(o.value)
    scal = None
    if opt.get('scalar'):
        if not isinstance(v, tuple) or len(v) != 2:
            return ck.add(key, UNDECIDED, R_SC, 'no scalar values')
        v, scal = I.resolve(v[0]), I.resolve(v[1])
    flat = D == 1 and how == 'function'
    if not isinstance(v, Arr) or v.ndim != (1 if flat else 2) or scal is not None and not isinstance(scal, Arr):
        return ck.add(key, UNDECIDED, R_LAW, 'the samples are not known to the analysis')
    ck.prove(key + ': number', s, base, o, tm.eq(tt(v.shape[-1]), tm.sym('S')), g.names, R_N)
    rd = sim.Value(I, o.st, v)
    rs = sim.Value(I, o.st, scal) if scal is not None else None
    pc = o.st.pc[len(base.pc):]
    n = 2048 if not ck.thorough else 8192
    Sn = opt.get('S', 1)
    for seed in ('3', '8', '11')[:2 if D < 3 and not ck.thorough else 3 if D < 3 else 1]:
        tb = rint.Table(seed, s.inputs, o.rng)
        tb.over = {'S': Sn}
        ng = [4, 3, 3][:D] if seed != '8' else [3, 4, 3][:D]
        I.st = base
        given = con.get('mass') if how != 'proportional' else None
        e, m = g.load(tb, ng, given)
        want = None
        if how == 'proportional':
            m = trapz(e, g.values(tb, por, tuple(ng)))
            want = trapz(e, g.values(tb, g.dens, tuple(ng)) / g.values(tb, por, tuple(ng)))
        elif opt.get('scalar') == 'trapz':
            want = trapz(e, g.values(tb, con['scalar_dens'], tuple(ng)))
        elif scal is not None:
            want = g.values(tb, con['scalar_mass'], m.shape)
        if m.sum() == 0:
            continue
        tb.memo.clear()
        if not all(tb.truth(c) for c in pc):
            continue
        r = push(tb, o, rd, rs, flat, D, Sn, n, e, m, want, interp, opt.get('along'))
        if isinstance(r, tuple):
            return ck.add(key, VIOLATED, r[0], r[1] + f' (edges {[np.round(x, 3).tolist() for x in e]}, mass {np.round(m, 3).tolist()})')
    ck.add(key, HOLDS, R_LAW, how=f'push-forward over {n} draws of {Sn} sample(s)')


def push(tb, o, rd, rs, flat, D, Sn, n, e, m, want, interp, along=None):
    from scipy.stats import qmc
    dims = (D + 1) * Sn + 2
    pts = np.clip(qmc.Sobol(dims, scramble=True, seed=7).random(n), 1e-9, 1 - 1e-9)
    slots = {}
    count = np.zeros(m.shape)
    frac = [[] for d in range(D)]
    inbin = {}
    for row in pts:
        z = law.Draws(tb, o.rng, row, slots)
        for j in range(Sn):
            x = [float(rd.at(z, (j,) if flat else (d, j))) for d in range(D)]
            b = []
            for d in range(D):
                i = int(np.searchsorted(e[d], x[d], side='right')) - 1
                if i == len(e[d]) - 1 and x[d] <= e[d][-1] + 1e-9:
                    i -= 1
                if i == -1 and x[d] >= e[d][0] - 1e-9:
                    i = 0
                if not 0 <= i < len(e[d]) - 1:
                    return R_IN, f'a sample has coordinate {d} = {x[d]:.5g}, outside of the edges'
                b.append(i)
                frac[d].append((x[d] - e[d][i]) / (e[d][i + 1] - e[d][i]))
            b = tuple(b)
            if m[b] == 0:
                return R_IN, f'a sample {np.round(x, 4).tolist()} lies in the bin {b}, which has no mass'
            count[b] += 1
            if rs is not None:
                y = float(rs.at(z, (j,)))
                inbin.setdefault(b, []).append([f[-1] for f in frac] + [y])
                if interp is False:
                    if abs(y - want[b]) > 1e-9 * max(1, abs(want[b])):
                        k = np.unravel_index(np.abs(want - y).argmin(), want.shape)
                        return R_SC, f'a sample in bin {b} has the scalar {y:.6g} instead of {want[b]:.6g}' + (
                            f', which belongs to bin {tuple(int(q) for q in k)}' if abs(want[k] - y) < 1e-6 else '')
                elif abs(y - want[b]) > 20:
                    return R_SC, f'a sample in bin {b} has the scalar {y:.6g}, far from the {want[b]:.6g} of its bin'
    if along is not None:
        for b, rows in inbin.items():
            if len(rows) < 60:
                continue
            rk = np.argsort(np.argsort(np.array(rows), axis=0), axis=0)
            c = np.corrcoef(rk.T)[:-1, -1]
            if c[along] < 0.8:
                return R_SC, (f'within bin {b} the scalar, whose density increases along dimension {along} only, has the rank correlations {np.round(c, 3).tolist()} '
                              f'with the coordinates')
    p, q = count / count.sum(), m / m.sum()
    if np.abs(p - q).max() > 0.02:
        k = tuple(int(i) for i in np.unravel_index(np.abs(p - q).argmax(), p.shape))
        return R_LAW, f'bin {k} is picked with probability {p[k]:.3f} instead of {q[k]:.3f}'
    if interp is False:
        for d in range(D):
            u = np.sort(frac[d])
            ks = np.abs(u - (np.arange(len(u)) + 0.5) / len(u)).max()
            if ks > 0.03:
                return R_IN, f'positions within the bins along dimension {d} are not uniform although interpolation is off'
    return None


def tt(x):
    return x if isinstance(x, T) else num(x)


def number(ck, key, w, D, given):
    s = w.scenario()
    I = s.I
    g = Grid(s, D)
    con = {'mass': g.arr('mass', 1, lo=2, hi=9)} if given else {}
    base = I.st

    def code():
        return I_call(s, I.call(s.get('kalepy.sample.Sample_Grid'), [g.edges, g.dens], dict(con)), 'sample', [], {'interpolate': FALSE})
    o = s.run(code)
    if ck.valid_raises(key, s, base, o, g.names, R_N):
        return
    I.st = o.st
    v = I.resolve(o.value)
    if not isinstance(v, Arr):
        return ck.add(key, UNDECIDED, R_N, 'the samples are not known to the analysis')
    n = 0
    for seed in range(6):
        tb = rint.Table(str(seed), s.inputs, o.rng)
        I.st = base
        e, m = g.load(tb, [4, 3][:D], con.get('mass'))
        tb.memo.clear()
        if not all(tb.truth(c) for c in o.st.pc[len(base.pc):]):
            continue
        got = int(tb.ev(tt(v.shape[-1]), {}))
        if got != int(m.sum()):
            return ck.add(key, VIOLATED, R_N, f'{got} samples for a total mass of {m.sum():.5g}')
        n += 1
    if not n:
        return ck.add(key, UNDECIDED, R_N, 'no valuation completes')
    ck.add(key, HOLDS, R_N, how=f'{n} valuations')
