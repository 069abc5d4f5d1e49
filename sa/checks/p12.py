"""P12: output shapes follow the documented contract."""
from .common import *  # noqa
from . import corpus

RULE = 'abstract shape of the result equals the documented shape'


def run(ck):
    w = ck.world()
    for D in (1, 2, 3):
        for how in ('points', 'one point', 'column') if D == 1 else ('points', 'one point'):
            for meth in ('density', 'pdf'):
                for refl in (False, True):
                    for mod in (False, True):
                        if mod and (refl or how == 'column'):
                            continue
                        ck.case(f'{"kalepy." if mod else ""}{meth} D={D} {how} reflect={refl}', RULE, dens, w, D, how, meth, refl, mod)
        for refl in (False, True):
            for prm in ([None, [0]] if D == 1 else [None, 0, [0], [1, 0]] + ([[2, 0]] if D == 3 else [])):
                if prm is None:
                    ck.case(f'density on a grid D={D} reflect={refl}', RULE, grid, w, D, None, refl)
                elif D > 1:
                    ck.case(f'density params={prm} D={D} reflect={refl}', RULE, par, w, D, prm, refl, False)
                    ck.case(f'density params={prm} one point D={D} reflect={refl}', RULE, par, w, D, prm, refl, True)
                    if isinstance(prm, list):
                        ck.case(f'density on a grid params={prm} D={D} reflect={refl}', RULE, grid, w, D, prm, refl)
        for mod in (False, True):
            for size in (None, 'S', 1, 'float'):
                for sq in (True, False):
                    for opt in ('', 'keep', 'reflect'):
                        if mod and not sq or opt == 'keep' and D == 1 or opt == 'reflect' and (D == 3 or size is None):
                            continue
                        ck.case(f'{"kalepy." if mod else ""}resample D={D} size={size} squeeze={sq} {opt}'.strip(), RULE, resample, w, D, size, sq, opt, mod)
        for nm in ('gaussian', 'box', 'parabola', 'triweight'):
            for size in ('S', 1):
                ck.case(f'{nm} sample D={D} size={size}', RULE, ksample, w, nm, D, size)
    for D in (1, 2):
        for how in ('points', 'one point'):
            ck.case(f'cdf D={D} {how}', RULE, cdf, w, D, how)
        ck.case(f'automatic points D={D}', RULE, auto, w, D)
    for D in (1, 2, 3):
        for sc in (False, True):
            for mass in (False, True):
                for interp in (True, False):
                    if D == 3 and (mass or interp and not ck.thorough):
                        continue
                    for size in ('S', 1, None):
                        if size == 1 and (mass or not interp):
                            continue
                        t = f' D={D} scalar={sc} mass={mass} interpolate={interp} nsamp={size}'
                        ck.case('sample_grid' + t, RULE, sgrid, w, D, sc, mass, interp, size, 'sample_grid')
                        if size == 'S':
                            ck.case('Sample_Grid.sample' + t, RULE, sgrid, w, D, sc, mass, interp, size, 'Sample_Grid')
        if D < 3 or ck.thorough:
            ck.case(f'sample_grid_proportional D={D}', RULE, prop, w, D)
        ck.case(f'sample_outliers D={D}', RULE, outl, w, D, False)
        ck.case(f'sample_outliers D={D} mass given', RULE, outl, w, D, True)


def shape(I, v):
    v = I.resolve(v)
    if isinstance(v, Choice):
        return Choice(v.cond, shape(I, v.a), shape(I, v.b))
    if isnumeric(v):
        return ()
    return I.np.call(I, Builtin('numpy.shape'), [v], {})


def shapes(s, v):
    """shapes of the members of a tuple"""
    I = s.I
    it = I.items(v)
    return tuple(shape(I, x) for x in it)


def refl_(s, D):
    return s.list([s.list([s.num(f'rl{d}', hi=-3), s.num(f'rh{d}', lo=4)]) for d in range(D)])


def points(s, k, D, how):
    m = 1 if how == 'one point' else k.M
    p = k.points if how == 'points' else s.arr('q', (m,) if D == 1 and how != 'column' else (D, m))
    return p, m


def dens(ck, key, w, D, how, meth, refl, mod):
    s = w.scenario()
    k = Case(s, D, weights=True, cov=None if mod else 'sym')
    p, m = points(s, k, D, how)
    kw = {'reflect': refl_(s, D)} if refl else {}

    def code():
        if mod:
            return shapes(s, s.I.call(s.get('kalepy.' + meth), [k.data, p], {'weights': k.w}))
        return shapes(s, I_call(s, k.kde(), meth, [p], kw))
    ps = (D, m) if D > 1 or how == 'column' else (m,)
    ck.conform(key, s, code, lambda: (ps, (m,)), k.names, RULE)


def grid(ck, key, w, D, prm, refl):
    s = w.scenario()
    k = Case(s, D, weights=True)
    n = D if prm is None else len(prm)
    ns = [s.int(f'G{i}', 2) for i in range(n)]
    e = [s.arr(f'e{i}', (ns[i],), sorted=True) for i in range(n)]
    kw = {'grid': True}
    if prm is not None:
        kw['params'] = s.list(prm)
    if refl:
        kw['reflect'] = refl_(s, n)
    ck.conform(key, s, lambda: shape(s.I, item(s, I_call(s, k.kde(), 'density', [s.list(e)], kw), 1)), lambda: tuple(ns), k.names, RULE)


def par(ck, key, w, D, prm, refl, one):
    s = w.scenario()
    k = Case(s, D, weights=True)
    m = 1 if one else k.M
    p = s.arr('q', (m,) if isinstance(prm, int) else (len(prm), m))
    kw = {'params': s.list(prm) if isinstance(prm, list) else prm}
    if refl:
        kw['reflect'] = refl_(s, 1 if isinstance(prm, int) else len(prm))
    ck.conform(key, s, lambda: shapes(s, I_call(s, k.kde(), 'density', [p], kw)), lambda: ((m,) if isinstance(prm, int) else (len(prm), m), (m,)), k.names, RULE)


def resample(ck, key, w, D, size, sq, opt, mod):
    s = w.scenario()
    k = Case(s, D, weights=True, cov=None if mod else 'sym')
    n = {'S': lambda: s.int('S', 1), 'float': lambda: num(7.0), 1: lambda: 1, None: lambda: None}[size]()
    kw = {} if n is None else {'size': n}
    if opt == 'keep':
        kw['keep'] = 0
    if opt == 'reflect':
        kw['reflect'] = refl_(s, D)
    if not sq:
        kw['squeeze'] = False

    def code():
        if mod:
            return shape(s.I, s.I.call(s.get('kalepy.resample'), [k.data], dict(kw, weights=k.w)))
        return shape(s.I, I_call(s, k.kde(), 'resample', [], kw))
    n = k.N if n is None else 7 if size == 'float' else n
    ck.conform(key, s, code, lambda: (n,) if D == 1 and sq else (D, n), k.names, RULE, raises=opt != 'reflect')


def ksample(ck, key, w, nm, D, size):
    s = w.scenario()
    n = s.int('S', 1) if size == 'S' else 1

    def code():
        d = s.I.call(s.get('kalepy.kernels.get_distribution_class'), [nm], {})
        return (shape(s.I, I_call(s, d, 'sample', [n], {'ndim': D})), shape(s.I, I_call(s, d, 'sample', [n], {'ndim': D, 'squeeze': False})))
    ck.conform(key, s, code, lambda: ((n,) if D == 1 else (D, n), (D, n)), set(), RULE)


def cdf(ck, key, w, D, how):
    s = w.scenario()
    k = Case(s, D, weights=True, cov=None)
    p, m = points(s, k, D, how)
    ck.conform(key, s, lambda: shape(s.I, I_call(s, k.kde(), 'cdf', [p], {})), lambda: (m,), k.names, RULE)


def auto(ck, key, w, D):
    s = w.scenario()
    k = Case(s, D, weights=True, cov=None)

    def code():
        o = k.kde()
        p, v = s.I.items(I_call(s, o, 'density', [], {}))
        e = [p] if D == 1 else s.I.items(p)
        sh = [shape(s.I, x) for x in e]
        return len(sh), tuple(len(s.I.items(x) if not isinstance(x, tuple) else x) for x in sh), shape(s.I, v), tuple(y for x in sh for y in x)

    def judge(v):
        return v
    s2 = s
    base = s.I.st
    o = s2.run(code)
    if ck.valid_raises(key, s, base, o, k.names, RULE):
        return
    s.I.st = o.st
    n, nd, vs, es = o.value
    if n != D or any(x != 1 for x in nd):
        return ck.add(key, VIOLATED, RULE, f'{n} dimensions of evaluation points for {D}-dimensional data')
    if len(vs) != D or any(s.I.decide(tm.eq(num(a), num(b))) is not tm.TRUE for a, b in zip(vs, es)):
        return ck.add(key, VIOLATED, RULE, 'the shape of the values is not the shape of the grid of the returned points')
    ck.add(key, HOLDS, RULE, how='one value per combination of the returned points')


def sgrid(ck, key, w, D, sc, mass, interp, size, fn):
    s = w.scenario()
    I = s.I
    e, d = corpus.edges_(s, D), corpus.dens_(s, D)
    kw = {}
    if sc:
        kw['scalar_dens'] = corpus.dens_(s, D, 'scalar')
    if mass:
        kw['mass'] = corpus.mass_(s, D)
    n = s.int('S', 1) if size == 'S' else size
    scal = None

    def code():
        if fn == 'sample_grid':
            r = I.call(s.get('kalepy.sample_grid'), [e, d], dict(kw, nsamp=n, interpolate=interp))
        else:
            r = I_call(s, I.call(s.get('kalepy.Sample_Grid'), [e, d], kw), 'sample', [n], {'interpolate': interp})
        return shapes(s, r) if sc else shape(I, r)

    def spec():
        m = n
        if n is None:
            m = I.call(s.get('spec.total_mass'), [tuple(I.items(e)), d, kw.get('mass')], {})
        v = (m,) if D == 1 and fn == 'sample_grid' else (D, m)
        return (v, (m,)) if sc else v
    ck.conform(key, s, code, spec, set(), RULE, raises=False)


def prop(ck, key, w, D):
    s = w.scenario()
    I = s.I
    e, d, p = corpus.edges_(s, D), corpus.dens_(s, D), corpus.dens_(s, D, 'portion')
    n = s.int('S', 1)
    ck.conform(key, s, lambda: shapes(s, I.call(s.get('kalepy.sample_grid_proportional'), [e, d, p, n], {})), lambda: ((D, n), (n,)), set(), RULE, raises=False)


def outl(ck, key, w, D, mass):
    s = w.scenario()
    I = s.I
    e, d = corpus.edges_(s, D), corpus.dens_(s, D)
    kw = {'mass': corpus.mass_(s, D)} if mass else {}
    t = s.num('thr', lo=0, lo_open=True)

    def code():
        v, wt = I.items(I.call(s.get('kalepy.sample_outliers'), [e, d, t], kw))
        return I.call(s.get('spec.pair_shape'), [v, wt], {})
    ck.conform(key, s, code, lambda: ((1, (), 1, 0) if D == 1 else (2, (D,), 1, 0)), set(), RULE, raises=False)
