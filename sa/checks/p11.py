"""P11: bandwidth rules, effective sample size and kernel covariance."""
from .common import *  # noqa

R_BW = 'value number of the bandwidth equals the documented rule'
R_N = 'value number of neff equals the number of points or the Kish effective size'
R_COV = 'value number of the covariance equals the weighted data covariance or the one given'
R_MAT = 'value number of the kernel covariance equals the covariance times the squared bandwidth, element by element'
R_LIB = 'class documentation: the default bandwidth is the scott rule'

SPECS = ['default', 'scott', 'silverman', 'scalar', '[scalar]', 'int', 'vector', 'list', 'names', 'mixed', 'matrix']


def run(ck):
    w = ck.world()
    for D in (1, 2, 3) + ((4, 5) if ck.thorough else (4,)):
        for wt in (False, True):
            for nf in (False, True):
                ck.case(f'neff D={D} weights={wt} neff given={nf}', R_N, neff_, w, D, wt, nf)
                for how in SPECS:
                    if D == 1 and how in ('names', 'mixed'):
                        continue
                    if D > 3 and how in ('names', 'matrix', 'list', 'vector', 'int', '[scalar]') and not ck.thorough:
                        continue
                    if nf and how in ('scalar', '[scalar]', 'int', 'vector', 'list', 'matrix'):
                        continue
                    ck.case(f'bandwidth={how} D={D} weights={wt} neff given={nf}', R_BW, bw_, w, D, wt, nf, how, {}, False)
    for D in (1, 2, 3):
        for how in ('default', 'silverman', 'scalar', 'vector'):
            for wt in (False, True):
                ck.case(f'kernel matrix bandwidth={how} D={D} weights={wt}', R_MAT, bw_, w, D, wt, False, how, {}, True)
                ck.case(f'kernel matrix bandwidth={how} D={D} weights={wt} diagonal', R_MAT, bw_, w, D, wt, False, how, {'diagonal': True}, True)
                for r in ('scalar', 'matrix') + (('vector',) if how == 'vector' else ()):
                    ck.case(f'bandwidth={how} rescaled by {r} D={D} weights={wt}', R_BW, bw_, w, D, wt, False, how, {'rescale': r}, False)
                    if wt:
                        ck.case(f'kernel matrix bandwidth={how} rescaled by {r} D={D} diagonal', R_MAT, bw_, w, D, wt, False, how, {'rescale': r, 'diagonal': True}, True)
        for kern in ('box', 'parabola', 'epanechnikov', 'triweight', 'class'):
            ck.case(f'kernel matrix {kern} D={D}', R_MAT, bw_, w, D, True, False, 'default', {'kernel': kern}, True)
        for opt in ('reflect', 'points', 'extrema', 'helper'):
            ck.case(f'kernel matrix unaffected by {opt} D={D}', R_MAT, bw_, w, D, True, False, 'silverman', {opt: True}, True)
        for wt in (False, True):
            for how in ('none', 'given', 'int data', 'list'):
                ck.case(f'covariance {how} D={D} weights={wt}', R_COV, cov_, w, D, wt, how)
    for D in (1, 2, 3):
        for how in ('scalar', 'matrix'):
            ck.case(f'Kernel.matrix D={D} bandwidth={how}', R_MAT, kernel_, w, D, how)


def neff_(ck, key, w, D, wt, nf):
    s = w.scenario()
    k = Case(s, D, weights=wt, cov=None)
    kw = {'neff': s.num('nf', lo=2)} if nf else {}
    ck.conform(key, s, lambda: s.I.getattr(k.kde(**kw), 'neff'), lambda: s.sym('nf') if nf else k.spec('neff', k.N, k.w), k.names, R_N)


def bspec(s, k, how, D, wt, nf):
    """(argument, bandwidth matrix of the specification, is it a per-dimension specification)"""
    I = s.I

    def rule(nm):
        return k.spec('plugin', nm, k.N, k.w, nf, D)
    if how in ('default', 'scott', 'silverman'):
        return (None if how == 'default' else how), lambda: k.spec('full', rule('scott' if how == 'default' else how), D), False
    if how == 'scalar':
        return k.h, lambda: k.spec('full', k.h, D), False
    if how == 'int':
        n = s.int('hb', 1)
        return n, lambda: k.spec('full', n, D), False
    if how == '[scalar]':
        return s.list([k.h]), lambda: k.spec('full', k.h, D), False
    if how == 'vector':
        b = s.arr('b', (D,), lo=0, lo_open=True)
        return b, lambda: k.spec('diag', b) if D > 1 else k.spec('full', I.getitem(b, 0), D), D > 1
    if how == 'list':
        b = [s.num(f'b{d}', lo=0, lo_open=True) for d in range(D)]
        return s.list(b), lambda: k.spec('diag', s.list(b)) if D > 1 else k.spec('full', b[0], D), D > 1
    if how == 'names':
        nm = ['scott', 'silverman', 'scott', 'silverman', 'scott'][:D]
        return s.list(nm), lambda: k.spec('diag', s.list([rule(n) for n in nm])), True
    if how == 'mixed':
        v = [k.h if d % 2 else 'silverman' for d in range(D)]
        return s.list(v), lambda: k.spec('diag', s.list([rule(x) if isinstance(x, str) else x for x in v])), True
    if how == 'matrix':
        b = s.arr('b', (D, D), lo=0, lo_open=True, gen=lambda tb, ix: 0.9 + 0.1 * ix[0] if ix[0] == ix[1] else 0.3 + 0.05 * (ix[0] + ix[1]))
        return b, lambda: b, True
    b = [[s.num(f'b{min(i, j)}{max(i, j)}', lo=0, lo_open=True, **({'lo': 0.8} if i == j else {'hi': 0.4})) for j in range(D)] for i in range(D)]
    return s.list([s.list(r) for r in b]), lambda: s.list([s.list(r) for r in b]), True


def bw_(ck, key, w, D, wt, nf, how, opt, mat):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, cov=None if mat and how == 'default' else 'sym')
    kw = {}
    if nf:
        nf = kw['neff'] = s.num('nf', lo=2)
    else:
        nf = None
    arg, B, perdim = bspec(s, k, how, D, wt, nf)
    if opt.get('diagonal'):
        kw['diagonal'] = True
    if opt.get('kernel'):
        kw['kernel'] = s.get('kalepy.kernels.Triweight') if opt['kernel'] == 'class' else opt['kernel']
    if opt.get('reflect'):
        kw['reflect'] = s.list([s.list([s.num(f'lo{d}', hi=-3), None]) for d in range(D)])
    if opt.get('points'):
        kw['points'] = s.list([s.arr(f'g{d}', (s.int(f'G{d}', 3),), sorted=True) for d in range(D)]) if D > 1 else s.arr('g0', (s.int('G0', 3),), sorted=True)
    if opt.get('extrema'):
        kw['extrema'] = s.list([s.list([s.num(f'lo{d}', hi=-3), s.num(f'hi{d}', lo=4)]) for d in range(D)])
    if opt.get('helper'):
        kw['helper'] = False
    if opt.get('rescale'):
        r = s.num('r', lo=0, lo_open=True) if opt['rescale'] == 'scalar' else s.arr('r', (D, D) if opt['rescale'] == 'matrix' else (D,), lo=0, lo_open=True)
        kw['bw_rescale'] = r

    def spec():
        b = B()
        if opt.get('diagonal') and not perdim:
            b = k.spec('diag', s.list([I.getitem(b, (d, d)) for d in range(D)]))
        if opt.get('rescale'):
            b = k.spec('scaled_rows', b, r)
        if not mat:
            return b
        return k.spec('matrix', k.cov if k.cov is not None else k.spec('covariance', k.data2, k.w), b)

    def code():
        o = k.kde(bandwidth=arg, **kw)
        return I.getattr(I.getattr(o, 'kernel'), 'matrix') if mat else I.getattr(o, 'bandwidth')
    ck.conform(key, s, code, spec, k.names, R_MAT if mat else R_BW)


def cov_(ck, key, w, D, wt, how):
    s = w.scenario()
    k = Case(s, D, weights=wt, cov='sym' if how == 'given' else None, dtype='i' if how == 'int data' else 'f')
    I = s.I
    data, data2 = k.data, k.data2
    if how == 'list':
        data = s.list([I.getitem(k.data2, d) for d in range(D)]) if D > 1 else k.data
    kw = {}

    def code():
        return I.getattr(k.kde(data=data, **kw), 'covariance')
    ck.conform(key, s, code, lambda: k.cov if how == 'given' else k.spec('covariance', data2, k.w), k.names, R_COV)


def kernel_(ck, key, w, D, how):
    s = w.scenario()
    k = Case(s, D)
    I = s.I
    b = k.h if how == 'scalar' else s.arr('b', (D, D), lo=0, lo_open=True)

    def code():
        dist = s.get('kalepy.kernels.Gaussian')
        o = I.call(s.get('kalepy.kernels.Kernel'), [dist, b, k.cov], {})
        return I.getattr(o, 'matrix')
    ck.conform(key, s, code, lambda: k.spec('matrix', k.cov, b), k.names, R_MAT)
