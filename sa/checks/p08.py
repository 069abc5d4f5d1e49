"""P08: resampled points are weighted data points plus kernel displacements."""
import numpy as np

from .. import law, rint
from .common import *  # noqa
from .p10 import ORDER
from .mixed import pairwise, label

R_LAW = 'the law of the value graph of a resampled point is a data point, chosen by weight, plus a displacement of the kernel'
R_KEEP = 'kept coordinates are the value numbers of the data'
R_SIZE = 'the number of points is the requested size, by default the number of data points'
R_IND = 'every resampled point depends on variates of its own only'


def run(ck):
    w = ck.world()
    kerns = ('gaussian', 'box', 'parabola') + (('triweight',) if ck.thorough else ())
    for D in (1, 2) + ((3,) if ck.thorough else ()):
        for wt in (False, True):
            for kern in kerns:
                ck.case(f'resample D={D} weights={wt} {kern}', R_LAW, case, w, D, wt, kern, 'none', {})
        ck.case(f'resample D={D} default size', R_LAW, case, w, D, True, 'gaussian', 'none', {'size': None})
        ck.case(f'resample D={D} more points than data', R_LAW, case, w, D, True, 'gaussian', 'none', {'big': True})
        ck.case(f'resample D={D} integer data', R_LAW, case, w, D, True, 'gaussian', 'none', {'dtype': 'i'})
        ck.case(f'resample D={D} float size', R_LAW, case, w, D, False, 'box', 'none', {'size': 'float'})
        ck.case(f'resample D={D} second call', R_LAW, case, w, D, True, 'gaussian', 'none', {'twice': True})
        ck.case(f'resample D={D} after density', R_LAW, case, w, D, True, 'gaussian', 'none', {'after': True})
        ck.case(f'resample D={D} boundaries switched off', R_LAW, case, w, D, True, 'gaussian', 'none', {'off': True})
        ck.case(f'resample D={D} module function', R_LAW, case, w, D, True, 'box', 'none', {'mod': True})
        ck.case(f'resample D={D} bandwidth per dimension', R_LAW, case, w, D, True, 'gaussian', 'none', {'vec': True})
        for keep in ('true', 'false', 'one', 'list'):
            ck.case(f'resample D={D} keep={keep}', R_LAW, case, w, D, True, 'gaussian', keep, {})
        ck.case(f'resample D={D} keep=one box', R_LAW, case, w, D, False, 'box', 'one', {})
    ck.case('resample D=1 unsqueezed', R_LAW, case, w, 1, True, 'gaussian', 'none', {'unsq': True})
    ck.case('resample D=3 keep=two', R_LAW, case, w, 3, True, 'gaussian', 'two', {})
    ck.case('resample D=3 keep=last', R_LAW, case, w, 3, True, 'gaussian', 'last', {})
    ck.case('resample D=3', R_LAW, case, w, 3, True, 'gaussian', 'none', {})
    done = set()
    for seed in range(1 if not ck.thorough else 6):
        for c in pairwise(FACTORS, admissible, seed=seed):
            if label(c) not in done:
                done.add(label(c))
                opt = {c['how']: True, c['more']: True, 'dtype': c['dtype']}
                if c['size'] != 'given':
                    opt['size'] = c['size'] or None
                ck.case('options ' + label(c), R_LAW, case, w, c['D'], c['wt'], c['kern'], c['keep'], opt)


FACTORS = {'D': (1, 2, 3), 'wt': (False, True), 'kern': ('gaussian', 'box', 'parabola'), 'keep': ('none', 'true', 'false', 'one', 'list', 'two'),
           'size': ('given', '', 'float'), 'dtype': ('f', 'i'), 'how': ('plain', 'twice', 'after', 'off', 'mod'), 'more': ('', 'vec', 'unsq', 'big')}


def admissible(c):
    return (c['keep'] != 'two' or c['D'] == 3) and not (c['how'] == 'mod' and c['more'] in ('vec', 'unsq')) and not (c['D'] == 3 and c['kern'] != 'gaussian')


KEEP = {'none': lambda s, D: (None, ()), 'true': lambda s, D: (TRUE, tuple(range(D))), 'false': lambda s, D: (FALSE, ()),
        'one': lambda s, D: (num(0), (0,)), 'list': lambda s, D: (s.list([num(D - 1)]), (D - 1,)),
        'two': lambda s, D: (s.list([num(2), num(0)]), (0, 2)), 'last': lambda s, D: ((num(2),), (2,))}


def tt(x):
    return x if isinstance(x, T) else num(x)


def reference(kern, D, n=200000):
    g = np.random.default_rng(7)
    z = g.standard_normal((D, n))
    if kern == 'gaussian':
        return z
    r = np.sqrt(g.beta(D / 2, ORDER[kern] + 1, n))
    return r * z / np.linalg.norm(z, axis=0)


def case(ck, key, w, D, wt, kern, keep, opt):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, bandwidth='h', dtype=opt.get('dtype', 'f'))
    vec = [s.num(f'b{d}', lo=0, lo_open=True) for d in range(D)]
    kw = {'kernel': kern}
    if opt.get('vec') and D > 1:
        kw['bandwidth'] = s.list(vec)
    if opt.get('off'):
        kw['reflect'] = s.list([s.list([s.num('r0', hi=-40), None])] + [None] * (D - 1))
    S = s.int('S', 2)
    kp, kept = KEEP[keep](s, D)
    ra = {}
    if kp is not None:
        ra['keep'] = kp
    if 'size' not in opt:
        ra['size'] = S
    elif opt['size'] == 'float':
        ra['size'] = tm.tonum(tm.mul(S, num(1.0)))
        ra['size'] = I.np.call(I, Builtin('numpy.float64'), [S], {})
    if opt.get('off'):
        ra['reflect'] = FALSE
    if opt.get('unsq'):
        ra['squeeze'] = FALSE

    def code():
        if opt.get('mod'):
            q = dict(kw, bandwidth=k.h, covariance=k.cov, **ra)
            if k.w is not None:
                q['weights'] = k.w
            return I.call(s.get('kalepy.resample'), [k.data], q)
        o = k.kde(**kw)
        if opt.get('after'):
            I_call(s, o, 'density', [k.points], {})
        if opt.get('twice'):
            I_call(s, o, 'resample', [], {'size': num(2), 'keep': TRUE})
        return I_call(s, o, 'resample', [], ra)
    base = I.st
    I.rng_log = []
    o = s.run(code)
    if ck.valid_raises(key, s, base, o, k.names, R_LAW):
        return
    I.st = o.st
    v = I.resolve(o.value)
    if not isinstance(v, Arr):
        return ck.add(key, UNDECIDED, R_LAW, 'the resampled points are not known to the analysis')
    flat = v.ndim == 1
    if (v.ndim != 2) if (D > 1 or opt.get('unsq')) else not flat:
        return ck.add(key, VIOLATED, R_SIZE, f'{v.ndim}-dimensional result for {D}-dimensional data')
    want = k.N if opt.get('size', 1) is None else S
    ck.prove(key + ': number of points', s, base, o, tm.eq(tt(v.shape[-1]), tt(want)), k.names | {'S'}, R_SIZE)
    if not flat:
        ck.prove(key + ': number of coordinates', s, base, o, tm.eq(tt(v.shape[0]), num(D)), k.names | {'S'}, R_SIZE)

    def col(j):
        out = []
        for d in range(D):
            x = I.resolve(nc.read(I, v, [j] if flat else [d, j]))
            if not isnumeric(x):
                raise rint.Unknown('coordinate')
            out.append(tm.tonum(I.T(x)))
        return out
    try:
        judge(ck, key, s, k, o, col, wt, kern, kept, opt, kw.get('bandwidth') is not None, D)
        a, b = ({(y.args[0], tuple(map(str, y.args[1]))) for t in col(j) for y in law.variates(t)} for j in (0, 1))
        both = sorted(a & b)
        if both:
            ck.add(key + ': independence', VIOLATED, R_IND, f'points 0 and 1 both depend on the variate {both[0][0][4:]}{list(both[0][1])}')
        else:
            ck.add(key + ': independence', HOLDS, R_IND, how=f'{len(a)} variates each')
    except rint.Unknown as e:
        return ck.add(key, UNDECIDED, R_LAW, f'the law depends on {e}')


def judge(ck, key, s, k, o, col, wt, kern, kept, opt, vec, D):
    I = s.I
    n = 4096 if not ck.thorough else 16384
    N = 5
    Sn = 9 if opt.get('big') else 3
    over = {'S': Sn, 'N': N, 'h': 1e-3 if opt.get('dtype') != 'i' else 0.02}
    over.update({f'b{d}': 1e-3 * (1 + d) for d in range(D)})
    H = k.spec('matrix', k.cov, k.h)
    for seed in ('3', '4', '5', '6', '7', '8'):
        base = rint.Table(seed, s.inputs, o.rng)
        base.over = dict(over)
        data = np.array([[float(base.ev(I.T(nc.read(I, k.data2, [d, i])), {})) for i in range(N)] for d in range(D)])
        C = np.array([[float(base.ev(I.T(nc.read(I, k.cov, [i, j])), {})) for j in range(D)] for i in range(D)])
        b = np.array([over[f'b{d}'] for d in range(D)]) if vec else np.full(D, over['h'])
        Hm = C * b[:, None] * b[None, :]
        sc = np.sqrt(np.diag(Hm))
        gap = min(np.abs((data[:, i] - data[:, j]) / sc).max() for i in range(N) for j in range(i))
        if gap > 30 and np.linalg.eigvalsh(Hm).min() > 0:
            break
    else:
        return ck.add(key, UNDECIDED, R_LAW, 'no separated dataset found')
    wts = np.array([float(base.ev(I.T(nc.read(I, k.w, [i])), {})) for i in range(N)]) if wt else np.ones(N)
    wts = wts / wts.sum()
    bad = None
    for j in ((1,) if not opt.get('big') else (1, Sn - 1)):
        x = col(j)
        dims = len({(y.args[0], tuple(map(str, y.args[1]))) for t in x for y in law.variates(t)})
        X = law.pushforward(lambda tb: [float(tb.ev(t, {})) for t in x], base, o.rng, min(max(1, dims) + 4, 40), n).T
        bad = compare(X, data, sc, Hm, wts, kern, kept, D, n)
        if bad:
            break
    if bad:
        loc = None
        for t in x:
            ls = [y.loc for y in tm.find(t, lambda y: True) if y.loc and str(y.loc[0]).startswith('kalepy')]
            loc = loc or (ls[0] if ls else None)
        return ck.add(key, VIOLATED, bad[0], bad[1], loc)
    ck.add(key, HOLDS, R_LAW, how=f'push-forward over {n} points')


def compare(X, data, sc, Hm, wts, kern, kept, D, n):
    N = data.shape[1]
    dist = np.abs((X[:, None, :] - data[:, :, None]) / sc[:, None, None]).max(axis=0)
    own = dist.argmin(axis=0)
    near = dist.min(axis=0)
    if near.max() > 14:
        q = int(near.argmax())
        return R_LAW, (f'a resampled point {np.round(X[:, q], 4).tolist()} is {near[q]:.3g} bandwidths away from every data point '
                       f'(nearest {np.round(data[:, own[q]], 4).tolist()})')
    freq = np.bincount(own, minlength=N) / n
    if np.abs(freq - wts).max() > 0.015:
        q = int(np.abs(freq - wts).argmax())
        return R_LAW, f'data point {q} is drawn with probability {freq[q]:.3f} instead of {wts[q]:.3f}'
    U = X - data[:, own]
    for d in kept:
        if np.abs(U[d]).max() > 0:
            return R_KEEP, f'kept coordinate {d} moves away from the data by {np.abs(U[d]).max():.3g}'
    free = [d for d in range(D) if d not in kept]
    if not free:
        return None
    Lw = np.linalg.inv(np.linalg.cholesky(Hm[np.ix_(free, free)]))
    ref = np.linalg.cholesky(Hm) @ reference(kern, D)
    Y, R = Lw @ U[free], Lw @ ref[free]
    g = np.random.default_rng(3)
    F = len(free)
    dirs = list(np.eye(F)) + ([v / np.linalg.norm(v) for v in g.standard_normal((6, F))] if F > 1 else [])
    stat = [(f'component along {np.round(v, 2).tolist()}', v @ Y, v @ R) for v in dirs]
    if F > 1:
        stat.append(('distance', np.sqrt((Y ** 2).sum(0)), np.sqrt((R ** 2).sum(0))))
    for nm, y, r in stat:
        for i in [None] + list(range(N)):
            yy = y if i is None else y[own == i]
            if len(yy) < 150:
                continue
            rs = np.sort(r)
            u = np.searchsorted(rs, np.sort(yy)) / len(rs)
            ks = np.abs(u - (np.arange(len(u)) + 0.5) / len(u)).max()
            if ks > (0.02 if i is None else 0.03 + 1.2 / np.sqrt(len(yy))):
                return R_LAW, (f'the displacement{"" if i is None else f" of data point {i}"} does not have the law of the {kern} kernel with the kernel '
                               f'covariance: its {nm}, in units of the kernel matrix, has quartiles {np.round(np.quantile(yy, [.25, .5, .75]), 3).tolist()} '
                               f'instead of {np.round(np.quantile(r, [.25, .5, .75]), 3).tolist()}')
    return None
