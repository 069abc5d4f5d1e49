"""P20: weighted quantiles keep every value with its own weight."""
from .common import *  # noqa

RULE = 'value number of the quantiles equals interpolation of the sorted values at the middle of their own cumulative weight'
R_SC = 'quantiles with all weights multiplied by one positive factor have the same value number'


def run(ck):
    w = ck.world()
    for wt in (False, True):
        for pc in ('list', 'array', 'scalar', 'sigmas', 'sigma list'):
            ck.case(f'quantiles weights={wt} percs={pc}', RULE, one, w, wt, pc, False, 'f')
        ck.case(f'quantiles weights={wt} integer data', RULE, one, w, wt, 'list', False, 'i')
        ck.case(f'quantiles weights={wt} values sorted', RULE, one, w, wt, 'list', True, 'f')
        for n in (1, 2, 3):
            for ax in (0, 1, -1, -2):
                ck.case(f'quantiles weights={wt} {n} rows axis={ax}', RULE, rows, w, wt, n, ax, False)
            ck.case(f'quantiles weights={wt} {n} rows flattened', RULE, rows, w, wt, n, None, False)
            for ax in (None, 0, 1):
                ck.case(f'quantiles weights={wt} {n} rows axis={ax} values sorted', RULE, rows, w, wt, n, ax, False, True)
        ck.case(f'quantiles weights={wt} 2 rows axis=1 one level', RULE, rows, w, wt, 2, 1, True)
        ck.case(f'iqrange weights={wt}', RULE, iqr, w, wt, False)
        ck.case(f'iqrange weights={wt} log', RULE, iqr, w, wt, True)
    for ax in (None, 0, 1):
        ck.case(f'quantiles of rescaled weights axis={ax}', R_SC, scaled, w, ax)


def levels(s, pc):
    if pc == 'array':
        return s.arr('p', (s.int('P', 1),), lo=0, hi=1)
    if pc == 'scalar':
        return s.num('p', lo=0, hi=1)
    if pc == 'sigmas':
        return s.arr('sg', (s.int('P', 1),))
    if pc == 'sigma list':
        return s.list([-1.5, 0.5, s.num('sg')])
    return s.list([s.num('p0', lo=0, hi=1), 0.5, 1.0])


def one(ck, key, w, wt, pc, srt, dt):
    s = w.scenario()
    N = s.int('N', 2)
    v = s.arr('v', (N,), dt, sorted=srt) if srt else s.arr('v', (N,), dt)
    wv = s.arr('w', (N,), lo=0, lo_open=True) if wt else None
    p = levels(s, pc)
    kw = {'weights': wv, 'sigmas' if 'sigma' in pc else 'percs': p}
    if srt:
        kw['values_sorted'] = True

    def spec():
        pp = s.I.call(s.get('spec.normal_cdf'), [p], {}) if 'sigma' in pc else p
        return s.I.call(s.get('spec.quantile_sorted' if srt else 'spec.quantile'), [v, pp, wv], {})
    ck.conform(key, s, lambda: s.I.call(s.get('kalepy.utils.quantiles'), [v], kw), spec, {'v', 'w', 'N', 'P', 'p', 'p0', 'sg'}, RULE)


def rows(ck, key, w, wt, n, ax, single, srt=False):
    s = w.scenario()
    N = s.int('N', 2)
    a = ax if ax is None else ax % 2
    sh = (N, n) if a == 0 else (n, N)
    v = s.arr('v', sh)
    wv = s.arr('w', sh, lo=0, lo_open=True) if wt else None
    p = levels(s, 'scalar' if single else 'list')

    def spec():
        if a is None:
            f = [None if x is None else s.I.np.call(s.I, Builtin('numpy.ravel'), [x], {}) for x in (v, wv)]
            return s.I.call(s.get('spec.quantile_sorted' if srt else 'spec.quantile'), [f[0], p, f[1]], {})
        return s.I.call(s.get('spec.quantile_rows'), [v, p, wv, n, a, srt], {})
    kw = {'percs': p, 'weights': wv, 'axis': ax}
    if srt:
        kw['values_sorted'] = True
    ck.conform(key, s, lambda: s.I.call(s.get('kalepy.utils.quantiles'), [v], kw), spec, {'v', 'w', 'N', 'p', 'p0'}, RULE)


def iqr(ck, key, w, wt, log):
    s = w.scenario()
    N = s.int('N', 2)
    v = s.arr('v', (N,), lo=0, lo_open=True) if log else s.arr('v', (N,))
    wv = s.arr('w', (N,), lo=0, lo_open=True) if wt else None

    def spec():
        x = s.I.np.call(s.I, Builtin('numpy.log10'), [v], {}) if log else v
        return s.I.call(s.get('spec.interquartile'), [x, wv], {})
    ck.conform(key, s, lambda: s.I.call(s.get('kalepy.utils.iqrange'), [v], {'weights': wv, 'log': log}), spec, {'v', 'w', 'N'}, RULE)


def scaled(ck, key, w, ax):
    s = w.scenario()
    N = s.int('N', 2)
    sh = (N,) if ax is None else (N, 2) if ax == 0 else (2, N)
    v, wv = s.arr('v', sh), s.arr('w', sh, lo=0, lo_open=True)
    c = s.num('c', lo=0, lo_open=True)
    p = levels(s, 'list')

    def call(x):
        return s.I.call(s.get('kalepy.utils.quantiles'), [v], {'percs': p, 'weights': x, 'axis': ax})
    ck.conform(key, s, lambda: call(s.I.binop('Mult', wv, c)), lambda: call(wv), {'v', 'w', 'N', 'p0', 'c'}, R_SC)
