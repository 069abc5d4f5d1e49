"""Abstract calls of the public interface, shared by the effect and shape checks.

Every entry is (key, tags, build): build(s) binds symbolic arguments and returns a function that makes the calls.
tags: 'rng' when the call may draw random numbers, 'plot' when it draws, 'default' when optional containers are omitted."""
from .common import *  # noqa

ENTRIES = []


def entry(key, *tags):
    def deco(f):
        ENTRIES.append((key, set(tags), f))
        return f
    return deco


# ------------------------------------------------------------------ KDE
def lists2(s, name, D, lo=-2.0, hi=3.0):
    """[[lo, hi], ...] as a caller's nested list"""
    rows = []
    for d in range(D):
        rows.append(s.list([s.num(f'{name}lo{d}', lo=lo, hi=lo + 1), s.num(f'{name}hi{d}', lo=hi, hi=hi + 1)]))
    return s.list(rows, owner=name)


def ctor(D, wt, **opts):
    def build(s):
        k = Case(s, D, weights=wt, cov='sym' if opts.get('cov') else None)
        kw = {}
        if opts.get('reflect'):
            kw['reflect'] = lists2(s, 'reflect', D) if opts['reflect'] == 1 else s.list([True] + [None] * (D - 1), owner='reflect') if opts['reflect'] == 2 \
                else s.list([s.list([True, None])] + [s.list([None, s.num('rhi', lo=4)])] * (D - 1), owner='reflect')
        if opts.get('extrema'):
            kw['extrema'] = lists2(s, 'extrema', D)
        if opts.get('points'):
            kw['points'] = s.list([s.arr(f'edge{d}', (s.int(f'G{d}', 3),), sorted=True) for d in range(D)], owner='points') if D > 1 else s.arr('edge0', (s.int('G0', 3),), sorted=True)
        if opts.get('bw') == 'vector':
            kw['bandwidth'] = s.arr('bandwidth', (D,), lo=0, lo_open=True)
        elif opts.get('bw') == 'matrix':
            kw['bandwidth'] = s.arr('bandwidth', (D, D), lo=0, lo_open=True)
        elif opts.get('bw') == 'rescale':
            kw['bw_rescale'] = s.arr('bw_rescale', (D,), lo=0, lo_open=True)
        elif opts.get('bw'):
            kw['bandwidth'] = opts['bw']
        if opts.get('kernel'):
            kw['kernel'] = opts['kernel']
        if opts.get('dtype'):
            k.data = s.arr('data', (k.N,) if D == 1 else (D, k.N), opts['dtype'])
        return k, kw
    return build


CTORS = []
for _D in (1, 2, 3):
    CTORS += [(f'KDE D={_D}', ctor(_D, False)), (f'KDE D={_D} weights', ctor(_D, True))]
for _D in (1, 2):
    CTORS += [(f'KDE D={_D} reflect', ctor(_D, True, reflect=1)), (f'KDE D={_D} reflect True', ctor(_D, False, reflect=2)),
              (f'KDE D={_D} reflect half open', ctor(_D, True, reflect=3)),
              (f'KDE D={_D} extrema and points', ctor(_D, True, extrema=1, points=1)), (f'KDE D={_D} box', ctor(_D, True, kernel='box', cov=1)),
              (f'KDE D={_D} vector bandwidth', ctor(_D, True, bw='vector', cov=1)), (f'KDE D={_D} silverman', ctor(_D, True, bw='silverman', cov=1)),
              (f'KDE D={_D} rescale', ctor(_D, True, bw='rescale', cov=1)), (f'KDE D={_D} integer data', ctor(_D, True, dtype='i'))]
CTORS += [('KDE D=2 matrix bandwidth', ctor(2, True, bw='matrix', cov=1)), ('KDE D=2 triweight', ctor(2, False, kernel='triweight'))]


def mk(s, build):
    k, kw = build(s)
    return k, k.kde(**kw)


def reg_kde():
    for name, b in CTORS:
        def only(s, b=b):
            k, kw = b(s)
            return lambda: k.kde(**kw)
        entry(name)(only)

        def dens(s, b=b):
            k, kw = b(s)

            def go():
                kde = k.kde(**kw)
                I_call(s, kde, 'density', [k.points], {})
                return I_call(s, kde, 'pdf', [k.points], {})
            return go
        entry(name + ' density, pdf')(dens)

        if 'D=3' not in name:
            def res(s, b=b):
                k, kw = b(s)
                n = s.int('S', 2)

                def go():
                    kde = k.kde(**kw)
                    return I_call(s, kde, 'resample', [n], {})
                return go
            entry(name + ' resample', 'rng')(res)


def own(s, v, name):
    s.I.mark_owner(v, 'arg:' + name)
    return v


def reg_kde2():
    def auto(D, wt, refl):
        def f(s):
            k, kw = ctor(D, wt, reflect=refl)(s)

            def go():
                kde = k.kde(**kw)
                s.I.getattr(kde, 'points')
                I_call(s, kde, 'density', [], {})
                I_call(s, kde, 'pdf', [], {})
                return s.I.getattr(kde, 'points')
            return go
        return f
    for D in (1, 2):
        for wt in (False, True):
            for refl in (0, 1):
                entry(f'KDE D={D} weights={wt} reflect={refl} automatic points')(auto(D, wt, refl))

    def cdf(D):
        def f(s):
            k, kw = ctor(D, True)(s)

            def go():
                kde = k.kde(**kw)
                I_call(s, kde, 'cdf', [k.points], {})
                return I_call(s, kde, 'cdf', [k.points], {})
            return go
        return f
    for D in (1, 2):
        entry(f'KDE D={D} cdf')(cdf(D))

    def grid(D, par):
        def f(s):
            k = Case(s, D, weights=True)
            edges = s.list([s.arr(f'g{d}', (s.int(f'G{d}', 3),), sorted=True) for d in range(len(par) if par else D)], owner='points')
            kw = {'grid': True}
            if par:
                kw['params'] = s.list(par, owner='params')
            return lambda: I_call(s, k.kde(), 'density', [edges], kw)
        return f
    entry('KDE D=2 grid')(grid(2, None))
    entry('KDE D=3 grid params')(grid(3, [2, 0]))

    def drefl(D, par):
        def f(s):
            k = Case(s, D, weights=True)
            r = lists2(s, 'reflect', len(par) if par else D)
            kw = {'reflect': r}
            if par:
                kw['params'] = s.list(par, owner='params')
            pts = s.arr('p', (len(par), k.M)) if par else k.points
            return lambda: I_call(s, k.kde(), 'density', [pts], kw)
        return f
    entry('KDE D=1 density reflect')(drefl(1, None))
    entry('KDE D=2 density reflect')(drefl(2, None))
    entry('KDE D=3 density reflect params')(drefl(3, [1, 2]))

    def dtrue(D):
        def f(s):
            k = Case(s, D, weights=True)
            r = s.list([s.list([True, None])] + [None] * (D - 1), owner='reflect')
            return lambda: I_call(s, k.kde(), 'density', [k.points], {'reflect': r})
        return f
    entry('KDE D=1 density reflect True')(dtrue(1))
    entry('KDE D=2 density reflect True')(dtrue(2))

    def rkeep(D, keep, refl):
        def f(s):
            k = Case(s, D, weights=True)
            kp = s.list(keep, owner='keep') if isinstance(keep, list) else keep
            kw = {'keep': kp}
            if refl is not None:
                kw['reflect'] = s.list([s.list(['x', 'y']) if r else None for r in refl]) if False else \
                    s.list([s.list([s.num(f'rl{i}', hi=-2), s.num(f'rh{i}', lo=2)]) if r else None for i, r in enumerate(refl)], owner='reflect')
            n = s.int('S', 2)
            return lambda: I_call(s, k.kde(), 'resample', [n], kw)
        return f
    entry('KDE D=2 resample keep 0', 'rng')(rkeep(2, 0, None))
    entry('KDE D=3 resample keep list', 'rng')(rkeep(3, [0, 2], None))
    entry('KDE D=2 resample keep True', 'rng')(rkeep(2, True, None))
    entry('KDE D=2 resample keep 0 reflect 1', 'rng')(rkeep(2, 0, [0, 1]))
    entry('KDE D=2 resample reflect', 'rng')(rkeep(2, None, [1, 1]))
    entry('KDE D=1 resample reflect', 'rng')(rkeep(1, None, [1]))

    def kernel(D, meth, wt, refl):
        def f(s):
            k = Case(s, D, weights=wt)
            cls = s.I.call(s.get('kalepy.kernels.get_distribution_class'), ['gaussian'], {})
            kw = {}
            if wt:
                kw['weights'] = k.w
            if refl:
                kw['reflect'] = s.list([s.list([s.num(f'rl{d}', hi=-3), s.num(f'rh{d}', lo=4)], owner='reflect') for d in range(D)], owner='reflect')
            n = s.int('S', 2)
            if meth == 'resample':
                kw['size'] = n
            args = [k.points2, k.data2] if meth == 'density' else [k.data2]
            return lambda: I_call(s, s.I.call(s.get('kalepy.kernels.Kernel'), [cls, k.h, k.cov], {}), meth, args, dict(kw))
        return f
    for D in (1, 2):
        for wt in (False, True):
            for refl in (False, True):
                t = ' weighted' * wt + ' reflected' * refl
                entry(f'Kernel.density D={D}{t}')(kernel(D, 'density', wt, refl))
                if not refl or wt:
                    entry(f'Kernel.resample D={D}{t}', 'rng')(kernel(D, 'resample', wt, refl))

    def hist1(s):
        n = s.int('G', 4)
        bins, hist = s.arr('bins', (tm.add(n, tm.ONE),), sorted=True), s.arr('hist', (n,), lo=0, lo_open=True)
        return lambda: s.I.call(s.I.getattr(s.get('kalepy.KDE'), 'from_hist'), [bins, hist], {})

    def hist2(s):
        ns = [s.int(f'G{d}', 4) for d in (0, 1)]
        bins = s.list([s.arr(f'bins{d}', (tm.add(ns[d], tm.ONE),), sorted=True) for d in (0, 1)], owner='bins')
        hist = s.arr('hist', tuple(ns), lo=0, lo_open=True)
        return lambda: s.I.call(s.I.getattr(s.get('kalepy.KDE'), 'from_hist'), [bins, hist], {})
    entry('KDE.from_hist 1D')(hist1)
    entry('KDE.from_hist 2D')(hist2)


# ------------------------------------------------------------------ module level functions
def reg_mod():
    def call(fname, D, extra=(), **fixed):
        def f(s):
            k = Case(s, D, weights=True, cov=None)
            kw = {'weights': k.w}
            args = [k.data]
            if fname in ('density', 'pdf'):
                args.append(k.points)
            if 'reflect' in extra:
                kw['reflect'] = lists2(s, 'reflect', D)
            if 'size' in extra:
                kw['size'] = s.int('S', 2)
            if 'edges' in extra:
                args.append(s.list([s.arr(f'g{d}', (s.int(f'G{d}', 3),), sorted=True) for d in range(D)], owner='edges') if D > 1 else s.arr('g0', (s.int('G0', 3),), sorted=True))
                del kw['weights']
            kw.update(fixed)
            return lambda: s.I.call(s.get('kalepy.' + fname), args, kw)
        return f
    for D in (1, 2):
        for ex in ((), ('reflect',)):
            t = ' reflect' if ex else ''
            entry(f'kalepy.density D={D}{t}')(call('density', D, ex))
            entry(f'kalepy.pdf D={D}{t}')(call('pdf', D, ex))
            entry(f'kalepy.resample D={D}{t}', 'rng')(call('resample', D, ex + ('size',)))


def reg_kernels():
    for kern in ('gaussian', 'box', 'parabola', 'triweight'):
        for D in (1, 2, 3):
            def ev(s, kern=kern, D=D):
                m = s.int('M', 2)
                y = s.arr('y', (D, m))

                def go():
                    d = s.I.call(s.get('kalepy.kernels.get_distribution_class'), [kern], {})
                    s.I.call(s.I.getattr(d, 'evaluate'), [y], {})
                    return s.I.call(s.I.getattr(d, 'norm'), [D], {})
                return go
            entry(f'{kern}.evaluate D={D}')(ev)

            def sm(s, kern=kern, D=D):
                n = s.int('S', 2)

                def go():
                    d = s.I.call(s.get('kalepy.kernels.get_distribution_class'), [kern], {})
                    return s.I.call(s.I.getattr(d, 'sample'), [n], {'ndim': D})
                return go
            entry(f'{kern}.sample D={D}', 'rng')(sm)

        def gr(s, kern=kern):
            es = s.list([s.arr(f'e{d}', (s.int(f'G{d}', 3),), sorted=True) for d in (0, 1)], owner='edges')

            def go():
                d = s.I.call(s.get('kalepy.kernels.get_distribution_class'), [kern], {})
                return s.I.call(s.I.getattr(d, 'grid'), [es], {})
            return go
        entry(f'{kern}.grid')(gr)


# ------------------------------------------------------------------ utils
def U(key, fname, f, *tags):
    def b(s):
        args, kw = f(s)
        return lambda: s.I.call(s.get('kalepy.utils.' + fname), args, kw)
    entry(f'utils.{key}', *tags)(b)


def edges_(s, D, nm='edges'):
    return s.list([s.arr(f'{nm}{d}', (s.int(f'G{d}', 3),), sorted=True) for d in range(D)], owner=nm)


def dens_(s, D, nm='dens', **kw):
    return s.arr(nm, tuple(s.sym(f'G{d}') for d in range(D)), lo=0, **kw)


def mass_(s, D, nm='mass', **kw):
    return s.arr(nm, tuple(tm.sub(s.sym(f'G{d}'), tm.ONE) for d in range(D)), lo=0, **kw)


def reg_utils():
    x1 = lambda s: s.arr('x', (s.int('N', 5),))
    x2 = lambda s, D=2: s.arr('x', (D, s.int('N', 5)))
    w1 = lambda s: s.arr('w', (s.sym('N'),), lo=0, lo_open=True)
    U('add_cov', 'add_cov', lambda s: ([x2(s), s.arr('cov', (2, 2), gen=spd)], {}))
    U('rem_cov', 'rem_cov', lambda s: ([x2(s), s.arr('cov', (2, 2), gen=spd)], {}))
    U('bound_indices', 'bound_indices', lambda s: ([x2(s), lists2(s, 'bounds', 2)], {}))
    U('bound_indices outside', 'bound_indices', lambda s: ([x2(s), lists2(s, 'bounds', 2)], {'outside': True}))
    U('cov_keep_vars', 'cov_keep_vars', lambda s: ([s.arr('matrix', (3, 3), gen=spd), s.list([0, 2], owner='keep')], {}))
    U('cov_keep_vars reflect', 'cov_keep_vars', lambda s: ([s.arr('matrix', (2, 2), gen=spd), 0], {'reflect': s.list([None, s.list([0.0, None])], owner='reflect')}))
    for D in (1, 2):
        for ax in (None, 0):
            U(f'cumsum D={D} axis={ax}', 'cumsum', lambda s, D=D, ax=ax: ((edges_(s, D), [dens_(s, D)])[1], {'axis': ax}))
            U(f'cumtrapz D={D} axis={ax}', 'cumtrapz', lambda s, D=D, ax=ax: ((lambda e: [dens_(s, D), e])(edges_(s, D)), {'axis': ax}))
            U(f'trapz_nd D={D} axis={ax}', 'trapz_nd', lambda s, D=D, ax=ax: ((lambda e: [dens_(s, D), e])(edges_(s, D)), {'axis': ax}))
            U(f'trapz_dens_to_mass D={D} axis={ax}', 'trapz_dens_to_mass', lambda s, D=D, ax=ax: ((lambda e: [dens_(s, D), e])(edges_(s, D)), {'axis': ax}))
        U(f'centroids D={D}', 'centroids', lambda s, D=D: ((lambda e: [e, dens_(s, D)])(edges_(s, D)), {}))
        U(f'midpoints D={D}', 'midpoints', lambda s, D=D: ([(edges_(s, D), dens_(s, D))[1]], {}))
        U(f'midpoints D={D} axis None', 'midpoints', lambda s, D=D: ([(edges_(s, D), dens_(s, D))[1]], {'axis': None}))
        U(f'parse_edges D={D}', 'parse_edges', lambda s, D=D: ([x1(s) if D == 1 else x2(s)], {}))
        U(f'parse_edges D={D} weights', 'parse_edges', lambda s, D=D: ([x1(s) if D == 1 else x2(s)], {'weights': w1(s)}))
        U(f'parse_edges D={D} extrema', 'parse_edges', lambda s, D=D: ([x1(s) if D == 1 else x2(s)], {'extrema': lists2(s, 'extrema', D)}))
        U(f'parse_edges D={D} number', 'parse_edges', lambda s, D=D: ([x1(s) if D == 1 else x2(s)], {'edges': s.int('E', 3)}))
    U('parse_edges D=2 edges', 'parse_edges', lambda s: ([x2(s)], {'edges': edges_(s, 2)}))
    U('parse_edges D=2 mixed', 'parse_edges', lambda s: ([x2(s)], {'edges': s.list([None, s.arr('e', (s.int('E', 3),), sorted=True)], owner='edges')}))
    U('midpoints log', 'midpoints', lambda s: ([s.arr('x', (s.int('N', 5),), lo=0, lo_open=True)], {'log': True}))
    for kw in ({}, {'density': True}, {'probability': True}, {'density': True, 'probability': True}):
        U(f'histogram {sorted(kw)}', 'histogram', lambda s, kw=kw: ([x1(s)], dict(kw, bins=s.arr('bins', (s.int('B', 3),), sorted=True), weights=w1(s))))
        U(f'histogram unweighted {sorted(kw)}', 'histogram', lambda s, kw=kw: ([x1(s)], dict(kw, bins=s.arr('bins', (s.int('B', 3),), sorted=True))))
    U('matrix_invert', 'matrix_invert', lambda s: ([s.arr('m', (2, 2), gen=spd)], {}))
    U('meshgrid', 'meshgrid', lambda s: ([s.arr('a', (s.int('N', 3),)), s.arr('b', (s.int('M', 3),))], {}))
    U('minmax', 'minmax', lambda s: ([x1(s)], {}))
    U('minmax prev', 'minmax', lambda s: ([x1(s)], {'prev': s.list([s.num('p0', hi=-3), s.num('p1', lo=4)], owner='prev')}))
    U('minmax stretch', 'minmax', lambda s: ([x1(s)], {'stretch': s.num('st', lo=0)}))
    U('minmax limit', 'minmax', lambda s: ([x1(s)], {'limit': s.list([s.num('l0', hi=-1), s.num('l1', lo=1)], owner='limit')}))
    U('minmax positive', 'minmax', lambda s: ([x1(s)], {'positive': True}))
    U('minmax log_stretch', 'minmax', lambda s: ([s.arr('x', (s.int('N', 5),), lo=0, lo_open=True)], {'log_stretch': s.num('ls', lo=0)}))
    U('iqrange', 'iqrange', lambda s: ([x1(s)], {'weights': w1(s)}))
    U('quantiles', 'quantiles', lambda s: ([x1(s), s.list([s.num('p0', lo=0, hi=1), s.num('p1', lo=0, hi=1)], owner='percs')], {}))
    U('quantiles weights', 'quantiles', lambda s: ([x1(s), s.list([s.num('p0', lo=0, hi=1), s.num('p1', lo=0, hi=1)], owner='percs')], {'weights': w1(s)}))
    U('quantiles sorted weights', 'quantiles', lambda s: ([s.arr('x', (s.int('N', 5),), sorted=True), s.list([s.num('p0', lo=0, hi=1)], owner='percs')], {'weights': w1(s), 'values_sorted': True}))
    U('quantiles sigmas', 'quantiles', lambda s: ([x1(s)], {'sigmas': s.list([s.num('p0', lo=-2, hi=2)], owner='sigmas')}))
    U('quantiles axis', 'quantiles', lambda s: ([x2(s), s.list([s.num('p0', lo=0, hi=1)], owner='percs')], {'axis': -1}))
    U('spacing', 'spacing', lambda s: ([s.arr('x', (s.int('N', 5),), lo=0, lo_open=True), 'log'], {'num': s.int('E', 3)}))
    U('spacing lin', 'spacing', lambda s: ([x1(s), 'lin'], {}))
    U('subdivide', 'subdivide', lambda s: ([s.arr('x', (s.int('N', 5),), sorted=True)], {'num': 2}))
    U('subdivide log', 'subdivide', lambda s: ([s.arr('x', (s.int('N', 5),), sorted=True, lo=0.1)], {'num': 1, 'log': True}))
    U('bins', 'bins', lambda s: ([s.num('a', lo=0, hi=1), s.num('b', lo=2, hi=3), s.int('E', 3)], {}))
    U('stats', 'stats', lambda s: ([x1(s)], {}))
    U('stats_str', 'stats_str', lambda s: ([x1(s)], {'weights': w1(s)}))
    U('stats_str percs', 'stats_str', lambda s: ([x1(s)], {'percs': s.list([0.1, 0.9], owner='percs'), 'ave': True, 'std': True}))
    U('array_str', 'array_str', lambda s: ([x1(s)], {}))
    U('really1d', 'really1d', lambda s: ([s.list([s.num('a'), s.num('b')], owner='arr')], {}))
    U('flatten', 'flatten', lambda s: ([s.list([s.list([s.num('a'), s.num('b')]), s.list([s.num('c')])], owner='arr')], {}))
    U('isjagged', 'isjagged', lambda s: ([s.list([s.list([s.num('a'), s.num('b')]), s.list([s.num('c'), s.num('d')])], owner='arr')], {}))


def spd(tb, ix):
    return 2.0 + 0.1 * ix[0] if ix[0] == ix[1] else 0.3 + 0.05 * (ix[0] + ix[1])


# ------------------------------------------------------------------ samplers
def reg_sample():
    for D in (1, 2, 3):
        for mass in (False, True):
            for scal in (False, True):
                for interp in (True, False):
                    if D == 3 and (mass or not interp):
                        continue

                    def g(s, D=D, mass=mass, scal=scal, interp=interp):
                        e = edges_(s, D)
                        d = dens_(s, D)
                        kw = {}
                        if mass:
                            kw['mass'] = s.arr('mass', tuple(tm.sub(s.sym(f'G{i}'), tm.ONE) for i in range(D)), lo=0)
                        if scal:
                            kw['scalar_dens'] = dens_(s, D, 'scalar')
                        n = s.int('S', 2)

                        def go():
                            sg = s.I.call(s.get('kalepy.sample.Sample_Grid'), [e, d], kw)
                            s.I.call(s.I.getattr(sg, 'sample'), [n], {'interpolate': interp})
                            return s.I.call(s.I.getattr(sg, 'sample'), [n], {'interpolate': interp})
                        return go
                    slow = ('slow',) if D == 3 and interp else ()
                    entry(f'Sample_Grid D={D} mass={mass} scalar={scal} interpolate={interp}', 'rng', *slow)(g)

                    def f(s, D=D, mass=mass, scal=scal, interp=interp):
                        e = edges_(s, D)
                        d = dens_(s, D)
                        kw = {'interpolate': interp}
                        if mass:
                            kw['mass'] = s.arr('mass', tuple(tm.sub(s.sym(f'G{i}'), tm.ONE) for i in range(D)), lo=0)
                        if scal:
                            kw['scalar_dens'] = dens_(s, D, 'scalar')
                        return lambda: s.I.call(s.get('kalepy.sample_grid'), [e, d, s.int('S', 2)], kw)
                    entry(f'sample_grid D={D} mass={mass} scalar={scal} interpolate={interp}', 'rng', *slow)(f)
        if D < 3:
            def o(s, D=D):
                e = edges_(s, D)
                d = dens_(s, D)
                return lambda: s.I.call(s.get('kalepy.sample_outliers'), [e, d, s.num('thr', lo=0)], {})
            entry(f'sample_outliers D={D}', 'rng')(o)

            def o2(s, D=D):
                e = edges_(s, D)
                d = dens_(s, D)
                m = s.arr('mass', tuple(tm.sub(s.sym(f'G{i}'), tm.ONE) for i in range(D)), lo=0)
                return lambda: s.I.call(s.get('kalepy.sample_outliers'), [e, d, s.num('thr', lo=0)], {'mass': m})
            entry(f'sample_outliers D={D} mass', 'rng')(o2)

            def p(s, D=D):
                e = edges_(s, D)
                d = dens_(s, D)
                return lambda: s.I.call(s.get('kalepy.sample_grid_proportional'), [e, d, dens_(s, D, 'portion'), s.int('S', 2)], {})
            entry(f'sample_grid_proportional D={D}', 'rng')(p)


def cdict(s, name, d):
    """a dict of the caller"""
    return s.dict(d, owner=name)


def reg_plot():
    def cc(meth, D, src, kwc=(), kwm=(), twice=False):
        def f(s):
            k = Case(s, D, weights=src == 'weighted')
            cov = {}
            kw = {}
            if 'limits' in kwc:
                kw['limits'] = lists2(s, 'limits', D)
            if 'labels' in kwc:
                kw['labels'] = s.list([f'x{i}' for i in range(D)], owner='labels')
            if 'ticks' in kwc:
                kw['ticks'] = s.list([s.list([s.num('t0'), s.num('t1')])] + [None] * (D - 1), owner='ticks')
            if src == 'weighted':
                kw['weights'] = k.w
            km = {}
            if 'dicts' in kwm:
                km['dist1d'] = cdict(s, 'dist1d', {'carpet': False})
                km['dist2d'] = cdict(s, 'dist2d', {'scatter': False})
            if 'quantiles' in kwm:
                km['quantiles'] = s.list([s.num('q0', lo=0.1, hi=0.4), s.num('q1', lo=0.5, hi=0.9)], owner='quantiles')
            if 'edges' in kwm:
                km['edges'] = s.list([s.arr(f'edge{d}', (s.int(f'G{d}', 4),), sorted=True) for d in range(D)], owner='edges')
            if 'limit' in kwm:
                km['limit'] = True

            def go():
                x = k.kde() if src == 'kde' else k.data
                c = s.I.call(s.get('kalepy.Corner'), [x], kw)
                I_call(s, c, meth, [], km)
                if twice:
                    I_call(s, c, meth, [], km)
                return c
            return go
        return f

    for D in (2, 3):
        slow = ('slow',) if D == 3 else ()
        entry(f'Corner D={D} options', 'plot', *slow)(lambda s, D=D: (lambda k, kw: lambda: s.I.call(s.get('kalepy.Corner'), [k.data], kw))(
            Case(s, D), {'limits': lists2(s, 'limits', D), 'labels': s.list([f'x{i}' for i in range(D)], owner='labels'),
                         'ticks': s.list([s.list([s.num('t0'), s.num('t1')])] + [None] * (D - 1), owner='ticks')}))
        for meth in ('plot', 'clean', 'hist', 'plot_kde', 'plot_data'):
            src = 'data' if meth in ('hist', 'plot_data') else 'kde'
            rng = ('rng',) if meth in ('plot', 'plot_data') else ()
            entry(f'Corner.{meth} D={D}', 'plot', 'default', *rng, *slow)(cc(meth, D, src))
            entry(f'Corner.{meth} D={D} weighted data, dicts, limits', 'plot', *rng, *slow)(cc(meth, D, 'weighted', ('limits', 'labels'), ('dicts', 'edges') + (('limit',) if meth not in ('x',) else ())))
            entry(f'Corner.{meth} D={D} quantiles', 'plot', 'default', *rng, *slow)(cc(meth, D, src, (), ('quantiles',)))
    entry('corner D=2', 'plot', 'rng', 'default')(lambda s: (lambda k: lambda: s.I.call(s.get('kalepy.corner'), [k.data], {
        'labels': s.list(['a', 'b'], owner='labels')}))(Case(s, 2)))
    entry('corner D=2 kwcorner', 'plot', 'rng')(lambda s: (lambda k: lambda: s.I.call(s.get('kalepy.corner'), [k.data], {
        'labels': s.list(['a', 'b'], owner='labels'), 'kwcorner': cdict(s, 'kwcorner', {'rotate': False}),
        'dist1d': cdict(s, 'dist1d', {'hist': True}), 'dist2d': cdict(s, 'dist2d', {'median': False})}))(Case(s, 2)))

    def targ(s):
        k = Case(s, 2)
        a = s.list([s.num('t0'), s.num('t1')], owner='targets')
        u = s.list([s.num('u0'), None], owner='upper_limits')
        lo = s.list([None, s.num('l0')], owner='lower_limits')
        lim = lists2(s, 'limits', 2)

        def go():
            c = s.I.call(s.get('kalepy.Corner'), [k.data], {'limits': lim})
            return I_call(s, c, 'target', [a], {'upper_limits': u, 'lower_limits': lo})
        return go
    entry('Corner.target D=2', 'plot')(targ)

    def d1(fname, **o):
        def f(s):
            k = Case(s, 1, weights=o.get('weights', False))
            kw = {'ax': ext_ax()}
            if o.get('weights'):
                kw['weights'] = k.w
            if o.get('edges'):
                kw['edges'] = s.arr('edges', (s.int('G', 4),), sorted=True)
            if o.get('quantiles'):
                kw['quantiles'] = s.list([s.num('q0', lo=0.1, hi=0.4), s.num('q1', lo=0.5, hi=0.9)], owner='quantiles')
            for x in ('rotate', 'confidence', 'hist', 'carpet', 'density', 'fancy', 'joints', 'probability', 'positive', 'renormalize', 'median', 'limit', 'random', 'shift'):
                if x in o:
                    kw[x] = o[x]
            if o.get('kde'):
                kw.pop('weights', None)
                return lambda: s.I.call(s.get('kalepy.' + fname), [k.kde()], kw)
            return lambda: s.I.call(s.get('kalepy.' + fname), [k.data], kw)
        return f
    entry('carpet', 'plot', 'rng')(d1('carpet'))
    entry('carpet weights fancy', 'plot', 'rng')(d1('carpet', weights=True, fancy=True, shift=1.0))
    entry('carpet limit rotate', 'plot', 'rng')(d1('carpet', weights=True, limit=3, rotate=True, random='uniform'))
    entry('confidence', 'plot', 'default')(d1('confidence'))
    entry('confidence weights', 'plot')(d1('confidence', weights=True, quantiles=True, rotate=True))
    for wt in (False, True):
        entry(f'hist1d weights={wt}', 'plot')(d1('hist1d', weights=wt, edges=True, density=True, probability=True))
        entry(f'hist1d weights={wt} joints', 'plot')(d1('hist1d', weights=wt, joints=False, renormalize=True, rotate=True))
        entry(f'dist1d weights={wt} all', 'plot', 'rng')(d1('dist1d', weights=wt, edges=True, confidence=True, hist=True, density=True, quantiles=True, rotate=True))
        entry(f'dist1d weights={wt}', 'plot')(d1('dist1d', weights=wt, carpet=False))
        entry(f'dist1d kde weights={wt}', 'plot')(d1('dist1d', kde=True, weights=wt, carpet=False, hist=True, confidence=True))

    def d2(fname, **o):
        def f(s):
            k = Case(s, o.get('D', 2), weights=o.get('weights', False))
            kw = {'ax': ext_ax()}
            if o.get('weights'):
                kw['weights'] = k.w
            if o.get('edges'):
                kw['edges'] = s.list([s.arr(f'edge{d}', (s.int(f'G{d}', 4),), sorted=True) for d in range(2)], owner='edges')
            if o.get('quantiles'):
                kw['quantiles'] = s.list([s.num('q0', lo=0.1, hi=0.4), s.num('q1', lo=0.5, hi=0.9)], owner='quantiles')
            if o.get('params'):
                kw['params'] = s.list(o['params'], owner='params')
            for x in ('scatter', 'hist', 'contour', 'median', 'mask_dense', 'mask_below', 'smooth', 'upsample', 'pad', 'outline'):
                if x in o:
                    kw[x] = o[x]
            if 'smooth' in kw and kw['smooth'] == 'array':
                kw['smooth'] = s.arr('smooth', (2,), lo=1)
            if o.get('kde'):
                kw.pop('weights', None)
                return lambda: s.I.call(s.get('kalepy.' + fname), [k.kde()], kw)
            return lambda: s.I.call(s.get('kalepy.' + fname), [k.data], kw)
        return f
    for wt in (False, True):
        entry(f'hist2d weights={wt}', 'plot')(d2('hist2d', weights=wt, edges=True, mask_below=True))
        entry(f'hist2d weights={wt} automatic', 'plot')(d2('hist2d', weights=wt))
        entry(f'contour weights={wt}', 'plot')(d2('contour', weights=wt, edges=True, quantiles=True))
        entry(f'contour weights={wt} smooth', 'plot')(d2('contour', weights=wt, edges=True, upsample=2, smooth=2.0, pad=2))
        entry(f'dist2d weights={wt} scatter', 'plot')(d2('dist2d', weights=wt, edges=True, quantiles=True))
        entry(f'dist2d weights={wt}', 'plot')(d2('dist2d', weights=wt, scatter=False, edges=True, upsample=2, smooth=1.0))
        entry(f'dist2d kde weights={wt}', 'plot', 'default')(d2('dist2d', kde=True, weights=wt, scatter=False))
        entry(f'dist2d kde D=3 params weights={wt}', 'plot', 'slow')(d2('dist2d', D=3, kde=True, weights=wt, scatter=False, params=[2, 0]))


def ext_ax():
    return Ext('axes', {'panel': None})


reg_kde()
reg_kde2()
reg_plot()
reg_mod()
reg_kernels()
reg_utils()
reg_sample()


def entries(ck):
    return [e for e in ENTRIES if ck.thorough or 'slow' not in e[1]]
