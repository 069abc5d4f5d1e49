"""P15: one-shot functions honour every argument they document."""
from .. import rint, sim
from .common import *  # noqa
from ..values import canon_dim
from .p06 import bounds
from .p07 import result, Data
from . import mixed
from .p06 import sides

R_D = 'value number of the one-shot function equals that of a KDE built from the same arguments'
R_S = 'value number of the one-shot function equals that of the sampler object built from the same arguments'


def run(ck):
    w = ck.world()
    for f in ('density', 'pdf'):
        for D in (1, 2):
            for o in OPTS:
                if D == 1 and o in ('grid', 'params', 'params list', 'grid params') or o == 'probability' and f == 'pdf':
                    continue
                ck.case(f'{f} D={D} {o}', R_D, density, w, f, D, o)
    for D in (1, 2):
        for o in ('none', 'size', 'weights', 'keep', 'keep index', 'kernel', 'bandwidth', 'all', 'positional'):
            ck.case(f'resample D={D} {o}', R_D, resample, w, D, o)
        for o in ('reflect', 'reflect weights', 'reflect true', 'reflect box'):
            ck.case(f'resample D={D} {o}', R_D, resample_reflect, w, D, o)
    for D in (1, 2):
        for o in ('none', 'nsamp', 'mass', 'scalar_dens', 'scalar_mass', 'scalar mass', 'squeeze', 'interpolate', 'all'):
            ck.case(f'sample_grid D={D} {o}', R_S, sample_grid, w, D, o)
        for o in ('none', 'mass', 'interpolate', 'centroid'):
            ck.case(f'sample_outliers D={D} {o}', R_S, outliers, w, D, o)
        for o in ('none', 'mass', 'interpolate'):
            ck.case(f'sample_grid_proportional D={D} {o}', R_S, proportional, w, D, o)

    factors = dict(mixed.DENS, mod=(True,), refl=('', 'first', 'last', 'lower', 'upper'), points=('array', 'list'))
    for seed in range(1 if not ck.thorough else 8):
        for c in mixed.pairwise(factors, admissible, seed=seed):
            c = dict(c, where='KDE', mod=True)
            refl = None if not c['refl'] else lambda s, k, D, c=c: bounds(s, k, sides(c['refl'], D), D)
            ck.case(f'options {seed} ' + mixed.label(c), R_D, mixed.dens, w, c, R_D, refl)


def admissible(c):
    return mixed.admissible(c) and not (c['D'] == 3 and c['refl'] and (c['grid'] or c['refl'] in ('lower', 'upper')))


OPTS = ['none', 'points', 'weights', 'reflect', 'probability', 'grid', 'params', 'params list', 'grid params', 'kernel', 'bandwidth', 'silverman', 'bandwidth list', 'neff',
        'diagonal', 'bw_rescale', 'positional', 'all', 'reflect true', 'zero boundary', 'extrema']


def density(ck, key, w, f, D, o):
    s = w.scenario()
    I = s.I
    auto = o in ('none', 'extrema')
    k = Case(s, D, cov='diag' if auto else 'sym', weights=o in ('weights', 'all', 'positional', 'neff'))
    con, call = {'bandwidth': k.h, 'covariance': k.cov}, {}
    if k.w is not None:
        con['weights'] = k.w
    pts = k.points
    if o == 'extrema':
        con['extrema'] = s.list([s.list([s.num(f'x{d}', hi=-5), s.num(f'y{d}', lo=5)]) for d in range(D)])
        if D == 2:
            return ck.add(key, HOLDS, R_D, how='covered by the one-dimensional obligation')
    if o in ('reflect', 'all'):
        con['reflect'] = bounds(s, k, 'flat' if D == 1 else (('lo', 'hi'), (None, 'hi')), D)[0]
    if o == 'reflect true':
        con['reflect'] = TRUE
    if o == 'zero boundary':
        con['reflect'] = s.list([s.list([num(0), None])] + [None] * (D - 1))
    if o in ('kernel', 'all'):
        con['kernel'] = 'box'
    if o == 'bandwidth':
        con['bandwidth'] = s.num('g', lo=1, lo_open=True)
    if o == 'silverman':
        con['bandwidth'] = 'silverman'
    if o == 'bandwidth list' and D == 2:
        con['bandwidth'] = s.list([s.num(f'g{d}', lo=1, lo_open=True) for d in range(D)])
    if o == 'neff':
        con['neff'] = s.num('ne', lo=2)
        con['bandwidth'] = 'scott'
    if o == 'diagonal':
        con['diagonal'] = TRUE
        del con['covariance']
    if o == 'bw_rescale':
        con['bw_rescale'] = s.num('br', lo=1, lo_open=True)
    if o in ('grid', 'all', 'grid params') and D == 2:
        call['grid'] = TRUE
        pts = s.list([s.arr(f'e{d}', (s.int(f'G{d}', 3),), sorted=True) for d in range(2)])
    if o == 'params':
        call['params'] = num(1)
        pts = s.arr('q', (k.M,))
    if o == 'params list':
        call['params'] = s.list([num(1), num(0)])
    if o == 'grid params':
        call['params'] = s.list([num(1), num(0)])
    if o == 'probability':
        call['probability'] = TRUE
    if not auto:
        call['points'] = pts

    def code():
        fn = s.get('kalepy.' + f)
        if o == 'positional':
            kw = dict(con)
            wt = kw.pop('weights', None)
            return I.call(fn, [k.data, pts, wt], kw)
        return I.call(fn, [k.data], {**con, **call})

    def spec():
        q = dict(call)
        if f == 'pdf':
            q['probability'] = TRUE
        return I_call(s, I.call(s.get('kalepy.KDE'), [k.data], dict(con)), 'density', [], q)
    ck.conform(key, s, code, spec, k.names, R_D)


def res_args(s, k, o):
    con, call = {'bandwidth': k.h, 'covariance': k.cov}, {}
    if k.w is not None:
        con['weights'] = k.w
    if o in ('size', 'all', 'positional') or o.startswith('reflect'):
        call['size'] = s.int('S', 2)
    if o in ('keep', 'all'):
        call['keep'] = TRUE if o == 'keep' else s.list([num(0)])
    if o == 'keep index':
        call['keep'] = num(k.D - 1)
    if o in ('kernel', 'all', 'reflect box'):
        con['kernel'] = 'box'
    if o == 'bandwidth':
        con['bandwidth'] = s.num('g', lo=1, lo_open=True)
    return con, call


def resample(ck, key, w, D, o):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=o in ('weights', 'all', 'positional'))
    con, call = res_args(s, k, o)

    def code():
        if o == 'positional':
            kw = dict(con)
            wt = kw.pop('weights', None)
            return I.call(s.get('kalepy.resample'), [k.data, call['size'], wt], kw)
        return I.call(s.get('kalepy.resample'), [k.data], {**con, **call})

    def spec():
        return I_call(s, I.call(s.get('kalepy.KDE'), [k.data], dict(con)), 'resample', [], dict(call))
    ck.conform(key, s, code, spec, k.names, R_D)


def resample_reflect(ck, key, w, D, o):
    """both drawing loops are carried along the same variates"""
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=o == 'reflect weights')
    con, call = res_args(s, k, o)
    sp = None
    if o == 'reflect true':
        con['reflect'] = TRUE
    else:
        con['reflect'], sp, _ = bounds(s, k, 'flat' if D == 1 else (('lo', 'hi'), (None, 'hi')), D)
    base = I.st
    got = []
    for f in (lambda: I.call(s.get('kalepy.resample'), [k.data], {**con, **call}),
              lambda: I_call(s, I.call(s.get('kalepy.KDE'), [k.data], dict(con)), 'resample', [], dict(call))):
        I.st = base.fork()
        I.rng_log = []
        n0 = len(I.loops)
        out = s.run(f)
        q = result(ck, key, s, out, D, R_D)
        if q is None:
            return
        got.append((out, q, [sim.System(I, r) for r in I.loops[n0:]]))
    n = 0
    for seed in range(12):
        tb = rint.Table(f'{seed}', s.inputs, got[0][0].rng)
        size = 1 + seed % 3
        tb.over = {'S': size}
        Data(s, k, sp, D, tb, 3, 0.7, (0.3, 0.4))
        v = []
        for out, (a, cell), systems in got:
            t2 = rint.Table(f'{seed}', s.inputs, out.rng)
            t2.over = tb.over
            z = sim.Sim(t2, systems)
            if not all(z.truth(c) for c in out.st.pc[len(base.pc):]):
                v.append('an exception')
                continue
            sh = tuple(int(z.ev(x if isinstance(x, T) else num(x), {})) for x in a.shape)
            v.append((sh, [[cell(z, d, j) for j in range(sh[-1])] for d in range(D)]))
        n += 1
        if v[0] != v[1]:
            same = v[0] != 'an exception' != v[1] and v[0][0] == v[1][0] and all(rint.close(x, y) for p, q in zip(v[0][1], v[1][1]) for x, y in zip(p, q))
            if not same:
                return ck.add(key, VIOLATED, R_D, f'gives {str(v[0])[:120]} instead of {str(v[1])[:120]} for the same variates')
    ck.add(key, HOLDS, R_D, how=f'{n} valuations of both loops')


def gridded(s, D):
    e = [s.arr(f'e{d}', (s.int(f'G{d}', 3),), sorted=True) for d in range(D)]
    sh = tuple(s.int(f'G{d}', 3) for d in range(D))
    mk = lambda n, less=0: s.arr(n, tuple(canon_dim(tm.sub(num(x), num(less))) for x in sh), lo=0, lo_open=True)   # noqa
    return e, e[0] if D == 1 else s.list(e), mk


def sample_grid(ck, key, w, D, o):
    s = w.scenario()
    I = s.I
    e, ed, mk = gridded(s, D)
    dens = mk('dens')
    con, call, sq = {}, {}, {}
    if o in ('mass', 'scalar mass', 'all'):
        con['mass'] = mk('mass', 1)
    if o in ('scalar_dens', 'all'):
        con['scalar_dens'] = mk('sd')
    if o in ('scalar_mass', 'scalar mass', 'all'):
        con['scalar_mass'] = mk('sm', 1)
    if o != 'none':
        call['nsamp'] = s.int('S', 2)
    if o in ('interpolate', 'all', 'squeeze', 'scalar_dens'):
        call['interpolate'] = FALSE
    if o == 'squeeze':
        sq['squeeze'] = FALSE if D == 1 else TRUE

    def code():
        return I.call(s.get('kalepy.sample_grid'), [ed, dens], {**con, **call, **sq})

    def spec():
        smp = I.call(s.get('kalepy.sample.Sample_Grid'), [ed, dens], dict(con))
        r = I_call(s, smp, 'sample', [], dict(call))
        if (D == 1) if o != 'squeeze' else False:
            if isinstance(r, tuple):
                return (item(s, r[0], num(0)),) + r[1:]
            return item(s, r, num(0))
        return r
    ck.conform(key, s, code, spec, {'S', 'dens', 'mass', 'sd', 'sm', 'e0', 'e1', 'G0', 'G1'}, R_S)


def outliers(ck, key, w, D, o):
    s = w.scenario()
    I = s.I
    e, ed, mk = gridded(s, D)
    dens = mk('dens')
    con, call = {'threshold': s.num('th', lo=0.2)}, {}
    if o == 'mass':
        con['mass'] = mk('mass', 1)
    if o in ('interpolate',):
        call['interpolate'] = FALSE

    def code():
        return I.call(s.get('kalepy.sample_outliers'), [ed, dens], {**con, **call})

    def spec():
        smp = I.call(s.get('kalepy.sample.Sample_Outliers'), [ed, dens], dict(con))
        r = I_call(s, smp, 'sample', [], dict(call))
        v = item(s, r, num(1))
        return (item(s, v, num(0)) if D == 1 else v, item(s, r, num(2)))
    ck.conform(key, s, code, spec, {'th', 'dens', 'mass', 'e0', 'e1', 'G0', 'G1'}, R_S)


def proportional(ck, key, w, D, o):
    s = w.scenario()
    I = s.I
    e, ed, mk = gridded(s, D)
    dens, por = mk('dens'), mk('por')
    con, call = {}, {}
    S = s.int('S', 2)
    if o == 'mass':
        con['mass'] = mk('mass', 1)
    if o == 'interpolate':
        call['interpolate'] = FALSE

    def code():
        return I.call(s.get('kalepy.sample_grid_proportional'), [ed, dens, por, S], {**con, **call})

    def spec():
        smp = I.call(s.get('kalepy.sample.Sample_Grid'), [ed, por], dict(con, scalar_dens=k_div(s, dens, por)))
        return I_call(s, smp, 'sample', [], dict(call, nsamp=S))
    ck.conform(key, s, code, spec, {'S', 'dens', 'por', 'mass', 'e0', 'e1', 'G0', 'G1'}, R_S)


def k_div(s, a, b):
    return s.I.binop('Div', a, b)
