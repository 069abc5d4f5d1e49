"""P13: invalid input is rejected with ValueError before any result is produced."""
from .common import *  # noqa
from . import corpus
from ..engine import directed, conds_of

RULE = 'every path of a call with the invalid argument leaves with ValueError (no normal return, no other exception)'


def run(ck):
    w = ck.world()
    for D in (1, 2, 3):
        for how in ('empty', 'empty list') if D == 1 else ('empty',):
            case(ck, w, f'dataset {how} D={D}', empty, D, how)
        for where in ('KDE', 'kalepy.density', 'kalepy.pdf', 'kalepy.resample'):
            for how in ('short', 'long', 'negative', 'zero', 'nan', 'inf', '-inf', 'two rows'):
                if where != 'KDE' and D > 1 and how not in ('short', 'negative'):
                    continue
                case(ck, w, f'{where} weights {how} D={D}', weights, D, how, where)
        for meth in ('density', 'pdf'):
            for mod in (False, True):
                for refl in (False, True):
                    for n in ((D + 1, D - 1) if D > 1 else (2,)):
                        case(ck, w, f'{"kalepy." if mod else ""}{meth} of points with {n} coordinates D={D} reflect={refl}', points, D, n, meth, mod, refl)
        if D > 1:
            for n, prm in ((1, [0, 1]), (2, [0]), (2, 1)) + (((2, [0, 1, 2]), (3, [0, 2])) if D == 3 else ()):
                for refl in (False, True):
                    case(ck, w, f'density of points with {n} coordinates params={prm} D={D} reflect={refl}', params, D, n, prm, refl)
        for where in ('constructor', 'density', 'resample'):
            for how in ('too many', 'too few', 'scalar', 'three values', 'one value', 'reversed', 'equal'):
                if D == 1 and how in ('too few', 'scalar') or how == 'scalar':
                    continue
                for q in range(D if how in ('three values', 'one value', 'reversed', 'equal') else 1):
                    of = f' of dimension {q}' if q else ''
                    case(ck, w, f'boundaries {how}{of} D={D} in {where}', bounds, D, how, where, q)
        case(ck, w, f'unknown kernel D={D}', kernel, D, 'name')
        case(ck, w, f'unknown bandwidth rule D={D}', kernel, D, 'rule')
        if D > 1:
            case(ck, w, f'unknown bandwidth rule for one dimension D={D}', kernel, D, 'one rule')
            for keep in (0, [0], True, D - 1, [0, D - 1]):
                for where in ('constructor', 'resample'):
                    case(ck, w, f'keep {keep} of a reflected dimension D={D} boundaries in {where}', keeping, D, keep, where)
        for f in ('Sample_Grid', 'Sample_Outliers', 'sample_grid', 'sample_outliers'):
            for how in ('short edge', 'long edge', 'missing edge', 'extra edge') + ('mass',):
                if D == 1 and how == 'missing edge':
                    continue
                case(ck, w, f'{f} {how} D={D}', gridded, D, f, how)
        for f in ('trapz_nd', 'trapz_dens_to_mass', 'cumtrapz'):
            for how in ('short edge', 'missing edge', 'extra edge'):
                if D == 1 and how == 'missing edge':
                    continue
                case(ck, w, f'{f} {how} D={D}', gridded, D, f, how)
    case(ck, w, 'quantiles without levels', misc, 'quantiles')
    case(ck, w, 'minmax with both stretches', misc, 'minmax')
    case(ck, w, 'sample_outliers with nsamp', misc, 'outliers')


def case(ck, w, key, f, *args):
    ck.case(key, RULE, rejects, w, f, args)


def rejects(ck, key, w, f, args):
    s = w.scenario()
    code = f(s, *args)
    I = s.I
    base = I.st
    I.rng_log = []
    o = s.run(code)
    if o.undecided:
        return ck.add(key, UNDECIDED, RULE, o.undecided)
    tabs = ck.tables(s.inputs, base.pc, 8, o.rng)
    if not tabs:
        return ck.add(key, UNDECIDED, RULE, 'no valuation of the scenario')
    n = len(base.pc)
    for st, ex in o.raises:
        if isvalueerror(ex.cls):
            continue
        hit = ck.reachable(st.pc[n:], base.pc, tabs)
        if hit:
            return ck.add(key, VIOLATED, RULE, f'invalid input leaves with {ex.cls} ({ex.msg})' + ck.witness(hit), ex.loc)
    good = next((ex for st, ex in o.raises if isvalueerror(ex.cls) and ck.reachable(st.pc[n:], base.pc, tabs)), None)
    if o.ok:
        hit = ck.reachable(o.st.pc[n:], base.pc, tabs)
        if hit:
            return ck.add(key, VIOLATED, RULE, 'invalid input is accepted' + ck.witness(hit), I.loc and last(o))
        _, unk = ck.feasible(o.st.pc[n:], tabs)
        if unk:
            return ck.add(key, UNDECIDED, RULE, 'the condition of the normal return is not known')
    if good is None:
        return ck.add(key, UNDECIDED, RULE, 'no rejection found')
    ck.add(key, HOLDS, RULE, how=f'rejected at {good.loc[0]}:{good.loc[1]}' if good.loc else 'rejected')


def last(o):
    return None


def isvalueerror(c):
    return c.split('.')[-1] in ('ValueError', 'LinAlgError', 'UnicodeError')


# ------------------------------------------------------------------ invalid inputs
def empty(s, D, how):
    d = s.list([]) if how == 'empty list' else s.arr('data', (0,) if D == 1 else (D, 0))
    return lambda: s.I.call(s.get('kalepy.KDE'), [d], {})


def weights(s, D, how, where):
    I = s.I
    k = Case(s, D, cov=None)
    if how in ('short', 'long'):
        M = s.int('Mw', 1)
        if how == 'short':
            s.assume(tm.lt(M, k.N))
        else:
            M = tm.add(num(k.N), num(M))
        wv = s.arr('w', (M,), lo=0, lo_open=True)
    elif how == 'two rows':
        wv = s.arr('w', (2, k.N), lo=0, lo_open=True)
    elif how == 'zero':
        wv = nc.build(I, (k.N,), lambda i: tm.ZERO, 'f', owner='arg:weights')
    else:
        J = s.int('J', 0)
        s.assume(tm.lt(J, k.N))
        good = s.arr('w', (k.N,), lo=0, lo_open=True)
        bad = {'negative': lambda: tm.neg(s.num('x', lo=0, lo_open=True)), 'nan': lambda: tm.NAN, 'inf': lambda: tm.INF, '-inf': lambda: tm.NINF}[how]()
        wv = nc.build(I, (k.N,), lambda i: tm.ite(tm.eq(i[0], J), bad, I.T(nc.read(I, good, i))), 'f', owner='arg:weights')
    if where == 'KDE':
        return lambda: I.call(s.get('kalepy.KDE'), [k.data], {'weights': wv})
    if where == 'kalepy.resample':
        return lambda: I.call(s.get(where), [k.data], {'weights': wv})
    return lambda: I.call(s.get(where), [k.data, k.points], {'weights': wv})


def refl_(s, D):
    return s.list([s.list([s.num(f'rl{d}', hi=-3), s.num(f'rh{d}', lo=4)]) for d in range(D)])


def points(s, D, n, meth, mod, refl):
    k = Case(s, D, weights=True, cov=None)
    p = s.arr('q', (n, k.M))
    kw = {'reflect': refl_(s, D)} if refl else {}
    if mod:
        return lambda: s.I.call(s.get('kalepy.' + meth), [k.data, p], dict(kw, weights=k.w))
    return lambda: I_call(s, k.kde(), meth, [p], kw)


def params(s, D, n, prm, refl):
    k = Case(s, D, weights=True, cov=None)
    p = s.arr('q', (n, k.M))
    kw = {'params': s.list(prm) if isinstance(prm, list) else prm}
    if refl:
        kw['reflect'] = refl_(s, len(prm) if isinstance(prm, list) else 1)
    return lambda: I_call(s, k.kde(), 'density', [p], kw)


def bounds(s, D, how, where, q):
    k = Case(s, D, weights=True, cov=None)
    n = D + 1 if how == 'too many' else D - 1 if how == 'too few' else D

    def pair(d):
        lo, hi = s.num(f'rl{d}', hi=-3), s.num(f'rh{d}', lo=4)
        if d == q and how == 'equal':
            return [hi, hi]
        if d == q and how == 'reversed':
            return [hi, lo]
        if d == q and how == 'three values':
            return [lo, hi, s.num('extra')]
        if d == q and how == 'one value':
            return [lo]
        return [lo, hi]
    r = s.list([s.list(pair(d)) for d in range(n)])
    if where == 'constructor':
        return lambda: k.kde(reflect=r)
    if where == 'density':
        return lambda: I_call(s, k.kde(), 'density', [k.points], {'reflect': r})
    return lambda: I_call(s, k.kde(), 'resample', [], {'reflect': r})


def kernel(s, D, how):
    k = Case(s, D, weights=True, cov=None, bandwidth=None)
    if how == 'name':
        return lambda: s.I.call(s.get('kalepy.KDE'), [k.data], {'kernel': 'gaussain'})
    bw = 'scot' if how == 'rule' else s.list(['scott'] * (D - 1) + ['silver'])
    return lambda: s.I.call(s.get('kalepy.KDE'), [k.data], {'bandwidth': bw})


def keeping(s, D, keep, where):
    k = Case(s, D, weights=True, cov=None)
    r = s.list([s.list([s.num('rl', hi=-3), None])] + [None] * (D - 2) + [s.list([s.num('rl2', hi=-3), s.num('rh2', lo=4)])])
    kp = s.list(keep) if isinstance(keep, list) else keep
    if where == 'constructor':
        return lambda: I_call(s, k.kde(reflect=r), 'resample', [], {'keep': kp})
    return lambda: I_call(s, k.kde(), 'resample', [], {'keep': kp, 'reflect': r})


def gridded(s, D, f, how):
    I = s.I
    ns = [s.int(f'G{d}', 3) for d in range(D)]
    ms = list(ns)
    if how in ('short edge', 'long edge'):
        ms[D - 1] = tm.sub(num(ns[D - 1]), tm.ONE) if how == 'short edge' else tm.add(num(ns[D - 1]), tm.ONE)
    if how == 'missing edge':
        ms = ms[:-1]
    if how == 'extra edge':
        ms = ms + [s.int('GX', 3)]
    e = s.list([s.arr(f'e{d}', (m,), sorted=True) for d, m in enumerate(ms)])
    d = s.arr('f', tuple(ns), lo=0, lo_open=True)
    kw = {}
    if how == 'mass':
        kw['mass'] = s.arr('m', tuple(ns), lo=0, lo_open=True)
    if f in ('trapz_nd', 'trapz_dens_to_mass', 'cumtrapz'):
        a = [d, e]
        return lambda: I.call(s.get('kalepy.utils.' + f), a, {})
    t = s.num('thr', lo=0, lo_open=True)
    if f == 'Sample_Grid':
        return lambda: I.call(s.get('kalepy.Sample_Grid'), [e, d], kw)
    if f == 'Sample_Outliers':
        return lambda: I.call(s.get('kalepy.Sample_Outliers'), [e, d], dict(kw, threshold=t))
    if f == 'sample_grid':
        return lambda: I.call(s.get('kalepy.sample_grid'), [e, d], dict(kw, nsamp=s.int('S', 1)))
    return lambda: I.call(s.get('kalepy.sample_outliers'), [e, d, t], kw)


def misc(s, what):
    I = s.I
    N = s.int('N', 2)
    v = s.arr('v', (N,))
    if what == 'quantiles':
        return lambda: I.call(s.get('kalepy.utils.quantiles'), [v], {})
    if what == 'minmax':
        return lambda: I.call(s.get('kalepy.utils.minmax'), [v], {'stretch': 0.1, 'log_stretch': 0.1})
    e, d = corpus.edges_(s, 1), corpus.dens_(s, 1)
    return lambda: I.call(s.get('kalepy.sample_outliers'), [e, d, s.num('thr', lo=0, lo_open=True)], {'nsamp': s.int('S', 1)})
