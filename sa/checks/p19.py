"""P19: automatic evaluation grids cover the data or the requested range."""
import numpy as np

from .. import rint, sim
from .common import *  # noqa
from .p17 import tt

R_END = 'first and last value numbers of the generated points are the ends of the requested range of that dimension'
R_COV = 'the generated points reach beyond the data by at least the kernel bandwidth'
R_USE = 'explicit edges are used unchanged'
R_MON = 'generated points increase'


def run(ck):
    w = ck.world()
    for D in (1, 2, 3):
        for wt in (False, True):
            for kern in ('gaussian', 'box', 'parabola'):
                ck.case(f'KDE D={D} weights={wt} {kern}', R_COV, kde, w, D, wt, kern, {})
            ck.case(f'KDE D={D} weights={wt} few effective points', R_COV, kde, w, D, wt, 'gaussian', {'few': True})
        ck.case(f'KDE D={D} given neff', R_COV, kde, w, D, False, 'gaussian', {'neff': True})
        for ex in ('pairs', 'tuples', 'array', 'flat', 'flat lo', 'flat hi', 'half', 'none first', 'none last'):
            ck.case(f'KDE D={D} extrema {ex}', R_END, kde, w, D, False, 'gaussian', {'extrema': ex})
        for ex in ('pairs', 'tuples', 'half', 'none first', 'none last') + (('flat', 'flat lo', 'flat hi') if D == 1 else ()):
            ck.case(f'KDE D={D} reflect {ex}', R_END, kde, w, D, True, 'gaussian', {'reflect': ex})
        ck.case(f'KDE D={D} reflect=True', R_END, kde, w, D, True, 'gaussian', {'reflect': 'true'})
        ck.case(f'KDE D={D} extrema and reflect', R_END, kde, w, D, True, 'gaussian', {'reflect': 'pairs', 'extrema': 'pairs'})
        ck.case(f'KDE D={D} number of points', R_COV, kde, w, D, False, 'gaussian', {'number': True})
        ck.case(f'KDE D={D} explicit points', R_USE, explicit, w, D, 'KDE')
        ck.case(f'KDE D={D} integer data', R_COV, kde, w, D, False, 'gaussian', {'dtype': 'i'})
        ck.case(f'KDE D={D} asked twice', R_COV, kde, w, D, False, 'gaussian', {'twice': True})
        ck.case(f'parse_edges D={D}', R_COV, edges, w, D, {})
        ck.case(f'parse_edges D={D} weights', R_COV, edges, w, D, {'weights': True})
        ck.case(f'parse_edges D={D} integer data', R_COV, edges, w, D, {'dtype': 'i'})
        ck.case(f'parse_edges D={D} no pad', R_COV, edges, w, D, {'pad': 0})
        ck.case(f'parse_edges D={D} pad', R_COV, edges, w, D, {'pad': 2})
        ck.case(f'parse_edges D={D} number', R_COV, edges, w, D, {'number': True})
        for ex in ('pairs', 'tuples', 'array', 'flat', 'flat lo', 'flat hi', 'half', 'half tuples', 'none first', 'none last', 'none tuples'):
            ck.case(f'parse_edges D={D} extrema {ex}', R_END, edges, w, D, {'extrema': ex})
        for ex in ('pairs', 'half', 'none first'):
            for prm in {1: ((1,), (0,)), 2: ((2, 0), (0, 1)), 3: ((3, 0, 2), (1, 0, 3))}[D]:
                ck.case(f'parse_edges D={D} params={prm} of extrema {ex} of all parameters', R_END, edges, w, D, {'extrema': ex, 'params': prm})
        ck.case(f'parse_edges D={D} explicit', R_USE, explicit, w, D, 'parse_edges')
        if D > 1:
            ck.case(f'parse_edges D={D} explicit in one dimension only', R_USE, explicit, w, D, 'some')


def extr(s, D, how, near=False):
    """(argument, [(lo, hi)] with None where the default applies)"""
    lo = [s.num(f'x{d}', hi=-6) for d in range(D)]
    hi = [s.num(f'y{d}', lo=6) for d in range(D)]
    if how == 'pairs':
        return s.list([s.list([lo[d], hi[d]]) for d in range(D)]), list(zip(lo, hi))
    if how == 'tuples':
        return tuple((lo[d], hi[d]) for d in range(D)), list(zip(lo, hi))
    if how == 'array':
        a = s.list([s.list([lo[d], hi[d]]) for d in range(D)])
        return s.I.np.call(s.I, Builtin('numpy.array'), [a], {}), list(zip(lo, hi))
    if how == 'half tuples':
        p = [(lo[d], None) if d % 2 == 0 else (None, hi[d]) for d in range(D)]
        return tuple(p), p
    if how == 'none tuples':
        p = list(zip(lo, hi))[:-1] + [(None, None)]
        return tuple(p[:-1]) + (None,), p
    if how == 'flat':
        return s.list([lo[0], hi[0]]), [(lo[0], hi[0])] * D
    if how == 'flat lo':
        return s.list([lo[0], None]), [(lo[0], None)] * D
    if how == 'flat hi':
        return s.list([None, hi[0]]), [(None, hi[0])] * D
    if how == 'half':
        p = [(lo[d], None) if d % 2 == 0 else (None, hi[d]) for d in range(D)]
        return s.list([s.list(list(x)) for x in p]), p
    if how == 'none first':
        p = [(None, None)] + list(zip(lo, hi))[1:]
        return s.list([None] + [s.list(list(x)) for x in p[1:]]), p
    if how == 'none last':
        p = list(zip(lo, hi))[:-1] + [(None, None)]
        return s.list([s.list(list(x)) for x in p[:-1]] + [None]), p
    raise ValueError(how)


def dims_of(s, o, D):
    """reader of every dimension of the result: index -> value; its length"""
    I = s.I
    v = I.resolve(o.value)
    if D == 1:
        vs = [v]
    elif isinstance(v, Arr):
        vs = [item(s, v, num(d)) for d in range(D)]
    else:
        vs = I.items(v)
    if vs is None or len(vs) != D:
        return None
    vs = [I.resolve(x) for x in vs]
    if not all(isinstance(x, Arr) and x.ndim == 1 for x in vs):
        vs = [as_arr(s, x) for x in vs]
    if not all(isinstance(x, Arr) and x.ndim == 1 for x in vs):
        return None
    return [(sim.Value(I, I.st, x), x.shape[0]) for x in vs]


def as_arr(s, x):
    return s.I.np.call(s.I, Builtin('numpy.asarray'), [x], {})


def judge(ck, key, s, base, o, k, D, rule, names, bounds, cover, over, size=None, twice=()):
    """bounds: requested (lo, hi) per dimension; cover(tb, d): distance beyond the data that has to be reached where there is none"""
    I = s.I
    if ck.valid_raises(key, s, base, o, names, rule, over=dict(over[0])):
        return
    I.st = o.st
    rd = dims_of(s, o, D)
    if rd is None:
        return ck.add(key, UNDECIDED, rule, 'the points are not known to the analysis')
    done = 0
    pc = o.st.pc[len(base.pc):]
    for n, ov in enumerate(over):
        tb = rint.Table(str(n), s.inputs, o.rng)
        tb.over = dict(ov)
        try:
            if not all(tb.truth(c) for c in list(base.pc) + list(pc)):
                continue
        except rint.Unknown as e:
            return ck.add(key, UNDECIDED, rule, f'unknown: {e}')
        N = int(tb.ev(tt(k.N), {}))
        for d in range(D):
            r, m = rd[d]
            m = int(tb.ev(tt(m), {}))
            if m < 2:
                return ck.add(key, VIOLATED, rule, f'{m} point(s) in dimension {d}')
            if size is not None and m != int(tb.ev(tt(size), {})) + 1:
                return ck.add(key, VIOLATED, rule, f'{m} points in dimension {d} for {int(tb.ev(tt(size), {}))} requested bins')
            x = [float(r.at(tb, (j,))) for j in range(m)]
            data = [float(tb.ev(I.T(nc.read(I, k.data2, [d, i])), {})) for i in range(N)]
            loc = None
            if any(b <= a for a, b in zip(x, x[1:])):
                return ck.add(key, VIOLATED, R_MON, f'the points of dimension {d} do not increase: {np.round(x[:6], 4).tolist()}')
            req = bounds[d] if bounds else (None, None)
            for side, nm in ((0, 'lower'), (1, 'upper')):
                got = x[-1] if side else x[0]
                if req[side] is not None:
                    want = float(tb.ev(tt(req[side]), {}))
                    if not rint.close(got, want):
                        return ck.add(key, VIOLATED, rule, f'the {nm} end of dimension {d} is {got:.6g} instead of the requested {want:.6g}', loc)
                else:
                    c = cover(tb, d)
                    want = max(data) + c if side else min(data) - c
                    if (got < want - 1e-9 * abs(want) - 1e-9) if side else (got > want + 1e-9 * abs(want) + 1e-9):
                        return ck.add(key, VIOLATED, rule, f'the {nm} end of dimension {d} is {got:.6g}; it has to reach {want:.6g} (data from {min(data):.5g} to {max(data):.5g}, bandwidth {c:.5g})', loc)
        done += 1
    if not done:
        return ck.add(key, UNDECIDED, rule, 'no valuation completes')
    ck.add(key, HOLDS, rule, how=f'{done} valuations, every dimension')


def kde(ck, key, w, D, wt, kern, opt):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, dtype=opt.get('dtype', 'f'), nlo=5 if not opt.get('few') else 3)
    kw = {'kernel': kern}
    bounds = None
    if opt.get('reflect') == 'true':
        kw['reflect'] = TRUE
    elif opt.get('reflect'):
        kw['reflect'], bounds = extr(s, D, opt['reflect'])
    if opt.get('extrema'):
        if opt.get('reflect'):
            kw['extrema'] = s.list([s.list([s.num(f'p{d}', hi=-9), s.num(f'q{d}', lo=9)]) for d in range(D)])
            bounds = [(tm.sym(f'p{d}'), tm.sym(f'q{d}')) for d in range(D)]
        else:
            kw['extrema'], bounds = extr(s, D, opt['extrema'])
    size = None
    if opt.get('number'):
        size = s.int('B', 3)
        kw['points'] = size
    if opt.get('neff'):
        kw['neff'] = s.num('ne', lo=1, lo_open=True)
    base = I.st

    def code():
        o = k.kde(**kw)
        if opt.get('twice'):
            I.getattr(o, 'points')
            I_call(s, o, 'density', [k.points], {})
        return I.getattr(o, 'points')
    o = s.run(code)
    H = k.H

    def cover(tb, d):
        if opt.get('reflect') == 'true':
            return 0.0
        return float(np.sqrt(float(tb.ev(I.T(nc.read(I, H, [d, d])), {}))))
    over = [{'N': n, 'h': h} for n in ((3, 4) if opt.get('few') else (5, 8, 12)) for h in (0.3, 1.1)]
    if wt and opt.get('few'):
        over = [{'N': 3 + i % 3, 'h': 0.7, 'w': (lambda tb, idx, i=i: 1.0 if idx[0] == i % 3 else 0.05 * (1 + idx[0]))} for i in range(4)]
    if opt.get('neff'):
        over = [{'N': 5, 'h': 0.7, 'ne': v} for v in (1.2, 1.9, 2.5, 4.0, 30.0)]
    judge(ck, key, s, base, o, k, D, R_END if bounds or opt.get('reflect') else R_COV, k.names | {'B', 'ne'}, bounds, cover, over, size)


def edges(ck, key, w, D, opt):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=opt.get('weights', False), dtype=opt.get('dtype', 'f'))
    kw, bounds, size = {}, None, None
    if k.w is not None:
        kw['weights'] = k.w
    if opt.get('extrema'):
        if opt.get('params'):
            full, bounds = extr(s, max(opt['params']) + 2, opt['extrema'])
            kw['extrema'], kw['params'] = full, s.list(list(opt['params']))
            bounds = [bounds[p] for p in opt['params']]
        else:
            kw['extrema'], bounds = extr(s, D, opt['extrema'])
    if 'pad' in opt:
        kw['pad'] = num(opt['pad'])
    if opt.get('number'):
        size = s.int('B', 3)
        kw['edges'] = size
    base = I.st
    o = s.run(lambda: I.call(s.get('kalepy.utils.parse_edges'), [k.data], dict(kw)))
    over = [{'N': n} for n in (5, 7, 10)]
    judge(ck, key, s, base, o, k, D, R_END if bounds else R_COV, k.names | {'B'}, bounds, lambda tb, d: 0.0, over, size)


def explicit(ck, key, w, D, how):
    s = w.scenario()
    I = s.I
    k = Case(s, D, cov='diag')
    e = [s.arr(f'e{d}', (s.int(f'G{d}', D + 1),), sorted=True) for d in range(D)]
    if how == 'some':
        arg = s.list([None] * (D - 1) + [e[-1]])
    else:
        arg = e[0] if D == 1 else s.list(e)

    def code():
        if how == 'KDE':
            r = I.getattr(k.kde(points=arg), 'points')
        else:
            r = I.call(s.get('kalepy.utils.parse_edges'), [k.data], {'edges': arg})
        if D == 1:
            return r
        r = I.items(r)
        return tuple(as_arr(s, x) for x in (r if how != 'some' else r[-1:]))

    def spec():
        return e[0] if D == 1 else tuple(e if how != 'some' else e[-1:])
    ck.conform(key, s, code, spec, k.names | {f'e{d}' for d in range(D)} | {f'G{d}' for d in range(D)}, R_USE)
