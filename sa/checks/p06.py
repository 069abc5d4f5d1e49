"""P06: reflecting boundaries: mirrored density inside, zero outside."""
import random

from .common import *  # noqa
from . import mixed

RULE = 'value number of the reflected density equals direct plus mirrored kernel sums inside, zero outside'
RULE_T = 'the boundary that stands for True lies just outside the data extremum'

# forms of the reflect argument: nested lists of 'lo<d>', 'hi<d>', None
FORMS = {
    1: [[['lo', 'hi']], [['lo', None]], [[None, 'hi']], [[None, None]], 'flat', 'flat-lo', 'flat-hi', 'array', 'tuple'],
    2: [[['lo', 'hi'], None], [None, ['lo', 'hi']], [['lo', 'hi'], ['lo', 'hi']], [['lo', None], [None, 'hi']],
        [None, None], [['lo', None], None], [None, [None, 'hi']], 'tuple'],
    3: [[None, ['lo', 'hi'], None], [['lo', 'hi'], None, ['lo', None]]],
}


def run(ck):
    w = ck.world()
    for D in (1, 2, 3):
        for form in FORMS[D]:
            for wt in (False, True):
                for where in ('KDE', 'density'):
                    for kern in ('gaussian', 'parabola') if D < 3 or ck.thorough else ('gaussian',):
                        if kern != 'gaussian' and (where == 'KDE' or not wt) and not ck.thorough:
                            continue
                        ck.case(f'D={D} reflect={fshow(form)} in {where} weights={wt} {kern}', RULE, refl, w, D, form, wt, where, kern)
    for D in (1, 2):
        ck.case(f'D={D} pdf with reflect in KDE', RULE, refl, w, D, FORMS[D][0], True, 'pdf', 'gaussian')
        for v in (False, True):
            ck.case(f'D={D} reflect given to the density call overrides {"" if v else "an absent "}constructor reflect', RULE, override, w, D, v)
    for D, params in ((2, 0), (2, 1), (2, [1, 0]), (3, [2, 0]), (2, [1])):
        ck.case(f'D={D} params={params} selects the boundaries of those dimensions', RULE, params_, w, D, params)
    for D in (1, 2):
        ck.case(f'D={D} reflect on a grid', RULE, grid, w, D)
    for D, sel in ((1, True), (2, True), (2, [True, None]), (2, [None, True]), (2, [[True, 'hi'], None]), (2, [['lo', True], True]), (1, [[True, None]]),
                   (1, [['lo', True]]), (1, [True, 'hi']), (1, ['lo', True]), (1, [True]), (3, [None, True, ['lo', 'hi']])):
        for sign in ('negative', 'positive', 'mixed'):
            ck.case(f'D={D} reflect={sel} {sign} data', RULE_T, true_, w, D, sel, sign)
    for D in (1, 2):
        for where in ('KDE', 'density'):
            ck.case(f'D={D} reflect=False in {where}', RULE, false_, w, D, where)
        ck.case(f'D={D} reflect=True in density', RULE_T, true_density, w, D)
    for D in (1, 2):
        ck.case(f'D={D} integer data, fractional boundary', RULE, integer, w, D)
    for D in (1, 2):
        ck.case(f'Kernel.density D={D} with reflect', RULE, kernel, w, D)

    factors = dict(mixed.DENS, where=('KDE', 'call', 'both'), form=('first', 'last', 'lower', 'upper', 'all'))
    done = set()
    for seed in range(2 if not ck.thorough else 8):
        for c in mixed.pairwise(factors, admissible, seed=seed):
            if mixed.label(c) not in done:
                done.add(mixed.label(c))
                ck.case('options ' + mixed.label(c), RULE, mixed.dens, w, c, RULE, lambda s, k, D, c=c: bounds(s, k, sides(c['form'], D), D))


def admissible(c):
    # boundaries given to the call are those of the selected dimensions
    return mixed.admissible(c) and (c['where'] == 'KDE' or c['params'] is None) and not (c['D'] == 3 and (c['form'] in ('all', 'lower', 'upper') or c['grid'] and c['params'] is None))


def sides(form, D):
    return {'first': [['lo', 'hi']] + [None] * (D - 1), 'last': [None] * (D - 1) + [['lo', 'hi']], 'lower': [['lo', None]] * D,
            'upper': [[None, 'hi']] * D, 'all': [['lo', 'hi']] * D}[form]


def fshow(f):
    return str(f).replace("'", '')


def within(name, a, b):
    def g(tb, idx):
        return random.Random(f'{tb.seed}|{name}').uniform(a, b)
    return g


def bounds(s, k, form, D):
    """(value passed to kalepy, nested tuples for the specification, names)"""
    names = set()

    def b(x, d):
        if x is None:
            return None
        nm = f'{x}{d}'
        if nm not in names:
            names.add(nm)
            s.num(nm, gen=within(nm, -2.0, -0.5) if x == 'lo' else within(nm, 0.8, 3.0))
            o = ('hi' if x == 'lo' else 'lo') + str(d)
            if o in names:
                s.assume(tm.lt(tm.sym(f'lo{d}'), tm.sym(f'hi{d}')))
        return tm.sym(nm)
    I = s.I
    if form in ('flat', 'flat-lo', 'flat-hi'):
        lo, hi = (b('lo', 0) if form != 'flat-hi' else None), (b('hi', 0) if form != 'flat-lo' else None)
        return s.list([lo, hi]), ((lo, hi),), names
    if form == 'array':
        lo, hi = b('lo', 0), b('hi', 0)
        return I.np.call(I, Builtin('numpy.array'), [s.list([s.list([lo, hi])])], {}), ((lo, hi),), names
    if form == 'tuple':
        t = tuple((b('lo', d), b('hi', d)) for d in range(D))
        return t, t, names
    out, sp = [], []
    for d, f in enumerate(form):
        if f is None:
            out.append(None)
            sp.append(None)
        else:
            p = tuple(b(x, d) for x in f)
            out.append(s.list(p))
            sp.append(p)
    return s.list(out), tuple(sp), names


def refl(ck, key, w, D, form, wt, where, kern):
    s = w.scenario()
    k = Case(s, D, weights=wt)
    arg, sp, names = bounds(s, k, form, D)

    def code():
        kde = k.kde(kernel=kern, **({'reflect': arg} if where != 'density' else {}))
        return item(s, I_call(s, kde, 'pdf' if where == 'pdf' else 'density', [k.points], {'reflect': arg} if where == 'density' else {}), 1)

    def spec():
        d = k.spec('density', k.points2, k.data2, k.w, k.H, kern, sp)
        return k.spec('divide', d, k.spec('total', k.w, k.N)) if where == 'pdf' else d
    ck.conform(key, s, code, spec, k.names | names, RULE)


def override(ck, key, w, D, both):
    s = w.scenario()
    k = Case(s, D, weights=True)
    arg, sp, names = bounds(s, k, [['lo', 'hi']] + [None] * (D - 1), D)
    l2 = s.num('lo9', lo=-4, hi=-3)

    def code():
        kde = k.kde(**({'reflect': s.list([s.list([l2, None])] + [None] * (D - 1))} if both else {}))
        return item(s, I_call(s, kde, 'density', [k.points], {'reflect': arg}), 1)
    ck.conform(key, s, code, lambda: k.spec('density', k.points2, k.data2, k.w, k.H, 'gaussian', sp), k.names | names | {'lo9'}, RULE)


def params_(ck, key, w, D, params):
    s = w.scenario()
    k = Case(s, D, weights=True)
    arg, sp, names = bounds(s, k, [['lo', 'hi'], ['lo', None], [None, 'hi']][:D], D)
    sel = [params] if isinstance(params, int) else params
    pts = s.arr('p', (len(sel), k.M))
    pa = s.I.getitem(pts, 0) if isinstance(params, int) else pts

    def code():
        kde = k.kde(reflect=arg)
        return item(s, I_call(s, kde, 'density', [pa], {'params': params if isinstance(params, int) else s.list(params)}), 1)

    def spec():
        return k.spec('density', pts, k.spec('rows', k.data2, tuple(sel)), k.w, k.spec('restrict', k.H, tuple(sel)), 'gaussian', tuple(sp[i] for i in sel))
    ck.conform(key, s, code, spec, k.names | names | {'p'}, RULE)


def grid(ck, key, w, D):
    s = w.scenario()
    k = Case(s, D, weights=True)
    arg, sp, names = bounds(s, k, [['lo', 'hi'], ['lo', None]][:D], D)
    edges = []
    for i in range(D):
        n = s.int(f'G{i}', 2)
        edges.append(s.arr(f'e{i}', (n,), sorted=True))
        names |= {f'G{i}', f'e{i}'}

    def code():
        return item(s, I_call(s, k.kde(reflect=arg), 'density', [s.list(edges)], {'grid': True}), 1)
    ck.conform(key, s, code, lambda: k.spec('grid_density', tuple(edges), k.data2, k.w, k.H, 'gaussian', sp), k.names | names, RULE)


def true_arg(s, sel, D):
    names = {f'{x}{d}' for x in ('lo', 'hi') for d in range(D)}

    def b(x, d):
        if x in ('lo', 'hi'):
            return s.num(f'{x}{d}', **({'lo': -30.0, 'hi': -29} if x == 'lo' else {'lo': 29, 'hi': 30.0}))
        return x
    if sel is True:
        return True, [[True, True]] * D, names
    flat = D == 1 and not isinstance(sel[0], list) and len(sel) == 2
    if flat:
        return s.list([b(x, 0) for x in sel]), [sel], names
    return s.list([s.list([b(x, d) for x in f]) if isinstance(f, list) else f for d, f in enumerate(sel)]), \
        [[True, True] if f is True else f for f in sel], names


def true_(ck, key, w, D, sel, sign):
    s = w.scenario()
    k = Case(s, D, weights=True)
    rng = {'negative': dict(hi=-1), 'positive': dict(lo=1), 'mixed': {}}[sign]
    k.data = s.arr('data', (k.N,) if D == 1 else (D, k.N), **rng)
    k.data2 = s.I.np.call(s.I, Builtin('numpy.atleast_2d'), [k.data], {})
    arg, sides, names = true_arg(s, sel, D)
    base = s.I.st

    def code():
        kde = k.kde(reflect=arg)
        return s.I.getattr(kde, 'reflect')
    o = s.run(code)
    nm = k.names | names
    if ck.valid_raises(key, s, base, o, nm, RULE_T):
        return
    # effective boundaries
    conds = []
    used = []
    for d in range(D):
        row = s.I.resolve(s.I.getitem(o.value, d))
        if sides[d] is None:
            conds.append(tm.TRUE if row is None else tm.FALSE)
            used.append(None)
            continue
        pair = []
        for j in (0, 1):
            v = s.I.resolve(s.I.getitem(row, j))
            want = sides[d][j]
            if want is True:
                t = s.I.T(v)
                mn = k.spec('extremum', k.data2, d, j)
                gap = tm.sub(mn, t) if j == 0 else tm.sub(t, mn)
                conds.append(tm.le(tm.ZERO, gap))
                conds.append(tm.le(gap, tm.mul(tm.num(1e-3), tm.add(tm.fn('abs', mn), k.spec('extent', k.data2, d)))))
                pair.append(t)
            elif want is None:
                conds.append(tm.TRUE if v is None else tm.FALSE)
                pair.append(None)
            else:
                conds.append(tm.eq(s.I.T(v), tm.sym(f'{want}{d}')))
                pair.append(tm.sym(f'{want}{d}'))
        used.append(tuple(pair))
    ck.prove(key, s, base, o, tm.and_(*conds), nm, RULE_T, 'the boundary used in place of True is not just outside the data extremum')
    # the density uses those boundaries
    s.I.st = base

    def code2():
        return item(s, I_call(s, k.kde(reflect=arg), 'density', [k.points], {}), 1)
    ck.conform(key + ' density', s, code2, lambda: k.spec('density', k.points2, k.data2, k.w, k.H, 'gaussian', tuple(used)), nm, RULE)


def false_(ck, key, w, D, where):
    s = w.scenario()
    k = Case(s, D, weights=True)
    arg, sp, names = bounds(s, k, [['lo', 'hi']] + [None] * (D - 1), D)

    def code():
        kde = k.kde(reflect=False if where == 'KDE' else arg)
        return item(s, I_call(s, kde, 'density', [k.points], {'reflect': False} if where == 'density' else {}), 1)
    ck.conform(key, s, code, lambda: k.spec('density', k.points2, k.data2, k.w, k.H, 'gaussian', None), k.names | names, RULE)


def true_density(ck, key, w, D):
    s = w.scenario()
    k = Case(s, D, weights=True)

    def code():
        return item(s, I_call(s, k.kde(), 'density', [k.points], {'reflect': True}), 1)

    def same():
        return item(s, I_call(s, k.kde(reflect=True), 'density', [k.points], {}), 1)
    ck.conform(key, s, code, same, k.names, RULE)


def integer(ck, key, w, D):
    s = w.scenario()
    k = Case(s, D, weights=True, dtype='i')
    arg, sp, names = bounds(s, k, [['lo', 'hi']] + [None] * (D - 1), D)

    def code():
        return item(s, I_call(s, k.kde(reflect=arg), 'density', [k.points], {}), 1)
    ck.conform(key, s, code, lambda: k.spec('density', k.points2, k.data2, k.w, k.H, 'gaussian', sp), k.names | names, RULE)


def kernel(ck, key, w, D):
    s = w.scenario()
    k = Case(s, D, weights=True)
    arg, sp, names = bounds(s, k, [['lo', 'hi'], ['lo', None]][:D], D)
    I = s.I

    def code():
        dist = I.call(s.get('kalepy.kernels.get_distribution_class'), ['box'], {})
        kern = I.call(s.get('kalepy.kernels.Kernel'), [], {'distribution': dist, 'bandwidth': k.h, 'covariance': k.cov})
        return I_call(s, kern, 'density', [k.points2, k.data2], {'weights': k.w, 'reflect': arg})
    ck.conform(key, s, code, lambda: k.spec('density', k.points2, k.data2, k.w, k.H, 'box', sp), k.names | names, RULE)
