"""P09: every kernel is non-negative, normalised and has its declared support."""
import math

from .. import rint
from .common import *  # noqa

R_VAL = 'value number of the kernel equals its normalised radial function of the distance'
R_NORM = 'the radial integral of the value graph of the kernel is one'
R_POS = 'the value graph of the kernel is never negative'
R_SUP = 'the kernel vanishes outside of the unit ball exactly when it is declared finite'
R_REG = 'each registered name selects its own kernel'
R_IN = 'inside() tells which points lie in the support'

KNOWN = ['gaussian', 'box', 'parabola', 'epanechnikov', 'triweight']
CLASSES = {'Gaussian': 'gaussian', 'Box': 'box', 'Parabola': 'parabola', 'Triweight': 'triweight'}


def names(w):
    s = w.scenario()
    d = s.I.get(s.get('kalepy.kernels.DISTRIBUTIONS'))
    return sorted({str(k) for k in d.d} | set(KNOWN))


def run(ck):
    w = ck.world()
    for nm in names(w):
        for D in (1, 2, 3, 4) + ((5, 6) if ck.thorough else ()):
            if nm in KNOWN:
                ck.case(f'{nm} evaluated at points D={D}', R_VAL, value, w, nm, D, 'points')
                ck.case(f'{nm} norm D={D}', R_VAL, norm, w, nm, D)
            ck.case(f'{nm} integral D={D}', R_NORM, integral, w, nm, D)
            ck.case(f'{nm} sign D={D}', R_POS, sign, w, nm, D)
            ck.case(f'{nm} support D={D}', R_SUP, support, w, nm, D)
            ck.case(f'{nm} inside D={D}', R_IN, inside, w, nm, D)
        for D in (5, 6, 7, 8, 11):
            if nm in KNOWN:
                ck.case(f'{nm} norm D={D}', R_VAL, norm, w, nm, D)
        if nm in KNOWN:
            for how in ('flat', 'scalar', 'list', 'single'):
                ck.case(f'{nm} evaluated at {how} points', R_VAL, value, w, nm, 1, how)
            for D in (1, 2, 3):
                ck.case(f'{nm} on a grid D={D}', R_VAL, value, w, nm, D, 'grid')
            for how in (str.upper, str.capitalize, lambda x: '  ' + x + ' '):
                ck.case(f'name {how(nm)!r}', R_REG, value, w, how(nm), 2, 'points', nm)
            ck.case(f'KDE kernel={nm}', R_REG, kde, w, nm, nm)
    ck.case('no name selects the gaussian kernel', R_REG, value, w, None, 2, 'points', 'gaussian')
    ck.case('KDE without kernel', R_REG, kde, w, None, 'gaussian')
    for c, nm in CLASSES.items():
        ck.case(f'class {c}', R_REG, value, w, ('class', c), 2, 'points', nm)
        ck.case(f'KDE kernel=class {c}', R_REG, kde, w, ('class', c), nm)


def dist(s, nm):
    f = s.get('kalepy.kernels.get_distribution_class')
    if isinstance(nm, tuple):
        nm = s.get('kalepy.kernels.' + nm[1])
    return s.I.call(f, [] if nm is None else [nm], {})


def pts(s, D, how):
    """(argument, (D, M) array)"""
    M = s.int('M', 2)
    if how == 'flat':
        p = s.arr('p', (M,))
        return p, s.I.np.call(s.I, Builtin('numpy.atleast_2d'), [p], {})
    if how == 'scalar':
        x = s.num('p')
        return x, s.list([s.list([x])])
    if how == 'list':
        x = [s.num(f'p{i}') for i in range(3)]
        return s.list(x), s.list([s.list(x)])
    if how == 'single':
        p = s.arr('p', (D, 1))
        return p, p
    p = s.arr('p', (D, M))
    return p, p


def value(ck, key, w, nm, D, how, sp=None):
    s = w.scenario()
    I = s.I
    sp = sp or nm
    if how == 'grid':
        e = [s.arr(f'e{d}', (s.int(f'G{d}', 2),), sorted=True) for d in range(D)]
        return ck.conform(key, s, lambda: I_call(s, dist(s, nm), 'grid', [s.list(e)], {}), lambda: I.call(s.get('spec.kernel_grid'), [tuple(e), sp], {}), set(), R_VAL)
    a, p = pts(s, D, how)

    def spec():
        r = I.call(s.get('spec.kernel_at'), [I.np.call(I, Builtin('numpy.array'), [p], {}), sp], {})
        return r
    ck.conform(key, s, lambda: I_call(s, dist(s, nm), 'evaluate', [a], {}), spec, set(), R_VAL)


def norm(ck, key, w, nm, D):
    s = w.scenario()
    ck.conform(key, s, lambda: I_call(s, dist(s, nm), 'norm', [D], {}), lambda: s.I.call(s.I.getitem(s.get('spec.NORMS'), nm), [D], {}), set(), R_VAL)


def radial(ck, key, w, nm, D, rule, tail=False):
    """(scenario, outcome, term of the kernel at the point (r, 0, ..., 0)) or None"""
    s = w.scenario()
    I = s.I
    r = s.num('r', **({'lo': 1, 'lo_open': True} if tail else {'lo': 0}))
    p = s.list([s.list([r])] + [s.list([0.0]) for _ in range(D - 1)])
    o = s.run(lambda: I.getitem(I_call(s, dist(s, nm), 'evaluate', [I.np.call(I, Builtin('numpy.array'), [p], {})], {}), 0))
    if ck.valid_raises(key, s, I.st, o, set(), rule):
        return None
    I.st = o.st
    v = cpatom(I, o.value)
    if not isinstance(v, T):
        ck.add(key, UNDECIDED, rule, 'the value of the kernel is not known to the analysis')
        return None
    return s, o, v


def cpatom(I, v):
    v = I.resolve(v)
    if isinstance(v, Arr) and v.ndim == 0:
        v = nc.read(I, v, [])
    return tm.tonum(I.T(v)) if isnumeric(v) else v


def finite(s, nm):
    """declared support of the kernel: its FINITE property"""
    I = s.I
    v = I.resolve(I.getattr(I.call(dist(s, nm), [], {}), 'FINITE'))
    v = I.decide(tm.truth(I.T(v))) if isnumeric(v) else v
    return {tm.TRUE: True, tm.FALSE: False}.get(v)


def integral(ck, key, w, nm, D):
    q = radial(ck, key, w, nm, D, R_NORM)
    if q is None:
        return
    s, o, v = q
    fin = finite(s, nm)
    surf = 2 * math.pi ** (D / 2) / math.gamma(D / 2)
    # Gauss-Legendre panels over the value graph
    import numpy as np
    x, wt = np.polynomial.legendre.leggauss(20)
    tot = 0.0
    edges = [k / 8 for k in range(9)] + ([] if fin else [1 + 0.5 * k for k in range(1, 40)])
    try:
        for a, b in zip(edges[:-1], edges[1:]):
            for xi, wi in zip(x, wt):
                r = (a + b) / 2 + xi * (b - a) / 2
                tb = rint.Table('0', {'r'}, (), {'r': r})
                tot += wi * (b - a) / 2 * float(tb.ev(v, {})) * surf * r ** (D - 1)
    except rint.Unknown as e:
        return ck.add(key, UNDECIDED, R_NORM, f'the value of the kernel depends on {e}')
    if abs(tot - 1) > 1e-6:
        return ck.add(key, VIOLATED, R_NORM, f'the {nm} kernel integrates to {tot:.6g} in {D} dimension(s)', where(v))
    ck.add(key, HOLDS, R_NORM, how=f'radial quadrature of the value graph gives {tot:.9f}')


def where(v):
    ls = [x.loc for x in tm.find(v, lambda x: True) if x.loc and str(x.loc[0]).startswith('kalepy')]
    return ls[0] if ls else None


def sign(ck, key, w, nm, D):
    s = w.scenario()
    I = s.I
    p = s.arr('p', (D, s.int('M', 2)))
    o = s.run(lambda: I.getitem(I_call(s, dist(s, nm), 'evaluate', [p], {}), 0))
    base = I.st
    if ck.valid_raises(key, s, base, o, set(), R_POS):
        return
    I.st = o.st
    v = cpatom(I, o.value)
    if not isinstance(v, T):
        return ck.add(key, UNDECIDED, R_POS, 'the value of the kernel is not known to the analysis')
    ck.prove(key, s, base, o, tm.le(tm.ZERO, v), set(), R_POS, f'the {nm} kernel is negative')


def support(ck, key, w, nm, D):
    q = radial(ck, key, w, nm, D, R_SUP)
    if q is None:
        return
    s, o, v = q
    fin = finite(s, nm)
    if fin is None:
        return ck.add(key, UNDECIDED, R_SUP, 'the declared support is not known to the analysis')
    bad = None
    try:
        for k in range(1, 200):
            r = k / 50 + 0.005
            x = float(rint.Table('0', {'r'}, (), {'r': r}).ev(v, {}))
            want = r < 1 if fin else True
            if (x > 0) != want:
                bad = f'the {nm} kernel is declared {"finite" if fin else "infinite"} but has the value {x:.4g} at distance {r:.4g}'
                break
    except rint.Unknown as e:
        return ck.add(key, UNDECIDED, R_SUP, f'the value of the kernel depends on {e}')
    if bad:
        return ck.add(key, VIOLATED, R_SUP, bad, where(v))
    if fin:
        q = radial(ck, key, w, nm, D, R_SUP, tail=True)
        if q is None:
            return
        s, o, v = q
        if s.I.decide(tm.eq(v, tm.ZERO)) is tm.TRUE:
            return ck.add(key, HOLDS, R_SUP, how='zero for every distance above one (path facts), positive inside')
    ck.add(key, HOLDS, R_SUP, how='value graph evaluated on both sides of the declared support')


def inside(ck, key, w, nm, D):
    s = w.scenario()
    I = s.I
    fin = finite(s, nm)
    if fin is None:
        return ck.add(key, UNDECIDED, R_IN, 'the declared support is not known to the analysis')
    M = s.int('M', 2)
    p = s.arr('p', (M,) if D == 1 else (D, M))
    p2 = I.np.call(I, Builtin('numpy.atleast_2d'), [p], {})
    ck.conform(key, s, lambda: I_call(s, dist(s, nm), 'inside', [p], {}), lambda: I.call(s.get('spec.in_ball' if fin else 'spec.everywhere'), [p2], {}), set(), R_IN)


def kde(ck, key, w, nm, sp):
    s = w.scenario()
    k = Case(s, 2, weights=True)
    if isinstance(nm, tuple):
        nm = s.get('kalepy.kernels.' + nm[1])

    def code():
        return item(s, I_call(s, k.kde(kernel=nm), 'density', [k.points], {}), 1)
    ck.conform(key, s, code, lambda: k.spec('density', k.points2, k.data2, k.w, k.H, sp), k.names, R_REG)
