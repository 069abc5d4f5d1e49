"""P05: density is the normalised weighted kernel sum; pdf divides by the total weight."""
from .common import *  # noqa
from . import mixed

RULE = 'value number of density/pdf equals the weighted kernel sum of the specification'
KERN = ['gaussian', 'box', 'parabola', 'epanechnikov', 'triweight']


def run(ck):
    w = ck.world()
    for D in (1, 2, 3) + ((4,) if ck.thorough else ()):
        for kern in KERN if D < 3 or ck.thorough else ('gaussian', 'parabola'):
            for wt in (False, True):
                for meth in ('density', 'density+probability', 'pdf'):
                    key = f'{meth} D={D} {kern} weights={wt}'
                    ck.case(key, RULE, dens, w, D, kern, wt, meth)
    for D, params in ((2, 0), (2, 1), (2, [0]), (2, [1, 0]), (3, [2, 0]), (3, 1), (3, [0, 1, 2]), (3, [2, 1, 0]), (3, [0, 2])):
        for wt in (False, True):
            for kern in ('gaussian', 'box', 'parabola') if ck.thorough else ('gaussian', 'parabola'):
                key = f'density D={D} params={params} {kern} weights={wt}'
                ck.case(key, RULE, par, w, D, params, kern, wt)
    for D in (1, 2, 3):
        for wt in (False, True):
            key = f'density on a grid D={D} weights={wt}'
            ck.case(key, RULE, grid, w, D, wt, None)
    for D, params in ((3, [2, 0]), (2, [1, 0]), (3, [1])):
        key = f'density on a grid D={D} params={params}'
        ck.case(key, RULE, grid, w, D, True, params)
    for D in (2, 3):
        for bw in ('vector', 'matrix', 'diagonal', 'rescale'):
            key = f'density D={D} {bw} bandwidth'
            ck.case(key, RULE, bandw, w, D, bw)
    for D in (1, 2):
        for wt in (False, True):
            key = f'density D={D} default covariance weights={wt}'
            ck.case(key, RULE, datacov, w, D, wt)
            key = f'density D={D} data and points given as nested lists weights={wt}'
            ck.case(key, RULE, lists, w, D, wt)
    for D in (1, 2):
        for meth in ('density', 'pdf'):
            key = f'{meth} evaluated twice, different points, D={D}'
            ck.case(key, RULE, twice, w, D, meth)
    for D in (1, 2, 3):
        for wt in (False, True):
            key = f'Kernel.density D={D} weights={wt}'
            ck.case(key, RULE, kernel, w, D, wt)

    done = set()
    for seed in range(3 if not ck.thorough else 12):
        for c in mixed.pairwise(mixed.DENS, mixed.admissible, seed=seed):
            if mixed.label(c) not in done:
                done.add(mixed.label(c))
                ck.case('options ' + mixed.label(c), RULE, mixed.dens, w, c, RULE)


def scaled(k, d, prob):
    if not prob:
        return d
    return k.spec('divide', d, k.spec('total', k.w, k.N))


def dens(ck, key, w, D, kern, wt, meth):
    s = w.scenario()
    k = Case(s, D, weights=wt)
    prob = meth != 'density'
    kw = {'probability': True} if '+' in meth else {}

    def code():
        return item(s, I_call(s, k.kde(kernel=kern), 'pdf' if meth == 'pdf' else 'density', [k.points], kw), 1)
    ck.conform(key, s, code, lambda: scaled(k, k.spec('density', k.points2, k.data2, k.w, k.H, kern), prob), k.names, RULE)


def par(ck, key, w, D, params, kern, wt):
    s = w.scenario()
    k = Case(s, D, weights=wt)
    sel = [params] if isinstance(params, int) else params
    n = len(sel)
    pts = s.arr('p', (n, k.M))
    arg = pts
    if isinstance(params, int):
        arg = s.I.getitem(pts, 0)
    pl = s.list(params) if isinstance(params, list) else params

    def code():
        return item(s, I_call(s, k.kde(kernel=kern), 'density', [arg], {'params': pl}), 1)

    def spec():
        return k.spec('density', pts, k.spec('rows', k.data2, tuple(sel)), k.w, k.spec('restrict', k.H, tuple(sel)), kern)
    ck.conform(key, s, code, spec, k.names | {'p'}, RULE)


def grid(ck, key, w, D, wt, params):
    s = w.scenario()
    k = Case(s, D, weights=wt)
    sel = list(range(D)) if params is None else params
    edges, names, sizes = [], set(), []
    for i in range(len(sel)):
        n = s.int(f'G{i}', 2)
        sizes.append(n)
        edges.append(s.arr(f'e{i}', (n,), sorted=True))
        names |= {f'G{i}', f'e{i}'}
    kw = {'grid': True}
    if params is not None:
        kw['params'] = s.list(params)

    def code():
        return item(s, I_call(s, k.kde(), 'density', [s.list(edges)], kw), 1)

    def spec():
        return k.spec('grid_density', tuple(edges), k.spec('rows', k.data2, tuple(sel)), k.w, k.spec('restrict', k.H, tuple(sel)), 'gaussian')
    ck.conform(key, s, code, spec, k.names | names, RULE)


def bandw(ck, key, w, D, how):
    s = w.scenario()
    k = Case(s, D, weights=True)
    names = set()
    kw = {}
    if how == 'vector':
        bw = s.arr('b', (D,), lo=0, lo_open=True)
        B = k.spec('diag', bw)
    elif how == 'matrix':
        bw = s.arr('b', (D, D), lo=0.5, hi=1.0, gen=lambda tb, ix: 0.9 + 0.1 * ix[0] if ix[0] == ix[1] else 0.5)
        B = bw
    elif how == 'diagonal':
        bw = k.h
        kw['diagonal'] = True
        B = k.spec('diag', s.list([k.h] * D))
    else:
        bw = k.h
        r = s.num('r', lo=0, lo_open=True)
        kw['bw_rescale'] = r
        B = tm.mul(k.h, r)

    def code():
        return item(s, I_call(s, k.kde(bandwidth=bw, **kw), 'density', [k.points], {}), 1)
    ck.conform(key, s, code, lambda: k.spec('density', k.points2, k.data2, k.w, k.spec('matrix', k.cov, B), 'gaussian'), k.names | {'b', 'r'}, RULE)


def datacov(ck, key, w, D, wt):
    s = w.scenario()
    k = Case(s, D, weights=wt, cov=None)

    def code():
        return item(s, I_call(s, k.kde(), 'density', [k.points], {}), 1)

    def spec():
        return k.spec('density', k.points2, k.data2, k.w, k.spec('matrix', k.spec('covariance', k.data2, k.w), k.h), 'gaussian')
    ck.conform(key, s, code, spec, k.names, RULE)


def lists(ck, key, w, D, wt):
    s = w.scenario()
    n, m = 4, 3
    names = {'h'}

    def mk(nm, *sh, **info):
        names.add(nm)
        s.arr(nm, sh, **info)
        if len(sh) == 1:
            return s.list([tm.sym(nm, i) for i in range(sh[0])])
        return s.list([s.list([tm.sym(nm, i, j) for j in range(sh[1])]) for i in range(sh[0])])
    k = Case(s, D, weights=False)
    names |= k.names
    data = mk('d', n) if D == 1 else mk('d', D, n)
    pts = mk('p', m) if D == 1 else mk('p', D, m)
    wts = mk('w', n, lo=0, lo_open=True) if wt else None

    def arr2(x):
        return s.I.np.call(s.I, Builtin('numpy.atleast_2d'), [x], {})

    def code():
        kw = {'data': data}
        if wt:
            kw['weights'] = wts
        return item(s, I_call(s, k.kde(**kw), 'density', [pts], {}), 1)

    def spec():
        ww = s.I.np.call(s.I, Builtin('numpy.array'), [wts], {}) if wt else None
        return k.spec('density', arr2(pts), arr2(data), ww, k.H, 'gaussian')
    ck.conform(key, s, code, spec, names, RULE)


def twice(ck, key, w, D, meth):
    s = w.scenario()
    k = Case(s, D, weights=True)
    p2 = s.arr('pts2', (k.M,) if D == 1 else (D, k.M))

    def code():
        kde = k.kde()
        I_call(s, kde, meth, [p2], {'params': 0} if D == 1 else {})
        if D > 1:
            I_call(s, kde, 'density', [s.I.getitem(p2, 0)], {'params': 0})
        return item(s, I_call(s, kde, meth, [k.points], {}), 1)
    ck.conform(key, s, code, lambda: scaled(k, k.spec('density', k.points2, k.data2, k.w, k.H, 'gaussian'), meth == 'pdf'), k.names | {'pts2'}, RULE)


def kernel(ck, key, w, D, wt):
    s = w.scenario()
    k = Case(s, D, weights=wt)
    I = s.I

    def code():
        dist = I.call(s.get('kalepy.kernels.get_distribution_class'), ['parabola'], {})
        kern = I.call(s.get('kalepy.kernels.Kernel'), [], {'distribution': dist, 'bandwidth': k.h, 'covariance': k.cov})
        return I_call(s, kern, 'density', [k.points2, k.data2], {'weights': k.w})
    ck.conform(key, s, code, lambda: k.spec('density', k.points2, k.data2, k.w, k.H, 'parabola'), k.names, RULE)
