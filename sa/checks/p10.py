"""P10: kernel samplers draw from the density of their own kernel."""
import numpy as np
from scipy import special, stats

from .. import law, rint
from .common import *  # noqa
from .p09 import KNOWN, CLASSES, dist, names

R_LAW = 'the law of the value graph of a sampled point is isotropic with the radial law of its kernel'
R_IND = 'every sampled point depends on variates of its own only'
R_KIND = 'random variates have the number and laws the sampler documents'
ORDER = {'box': 0, 'parabola': 1, 'epanechnikov': 1, 'triweight': 3}


def run(ck):
    w = ck.world()
    for nm in names(w):
        for D in (1, 2, 3) + ((4, 5) if ck.thorough else ()):
            if nm in KNOWN:
                ck.case(f'{nm} samples D={D}', R_LAW, sample, w, nm, D, False)
                ck.case(f'{nm} samples D={D} are independent', R_IND, independent, w, nm, D)
        if nm in KNOWN:
            ck.case(f'{nm} default dimension', R_LAW, sample, w, nm, None, False)
            ck.case(f'{nm} samples D=1 unsqueezed', R_LAW, sample, w, nm, 1, True)


def column(s, nm, D, unsq, rule, ck, key):
    """(outcome, function j -> coordinates of point j)"""
    I = s.I
    n = s.int('S', 3)
    kw = {}
    if D is not None:
        kw['ndim'] = D
    if unsq:
        kw['squeeze'] = False
    o = s.run(lambda: I_call(s, dist(s, nm), 'sample', [n], kw))
    if ck.valid_raises(key, s, I.st, o, set(), rule):
        return None
    I.st = o.st
    v = I.resolve(o.value)
    if not isinstance(v, Arr):
        ck.add(key, UNDECIDED, rule, 'the sampled points are not known to the analysis')
        return None
    flat = v.ndim == 1

    def col(j):
        out = []
        for d in range(D or 1):
            x = I.resolve(nc.read(I, v, [j] if flat else [d, j]))
            if not isnumeric(x):
                raise rint.Unknown('coordinate')
            out.append(tm.tonum(I.T(x)))
        return out
    return o, col, v


def sample(ck, key, w, nm, D, unsq):
    s = w.scenario()
    q = column(s, nm, D, unsq, R_LAW, ck, key)
    if q is None:
        return
    o, col, v = q
    D = D or 1
    try:
        x = col(1)
        base = rint.Table('3', s.inputs, o.rng)
        base.over = {'S': 3}
        dims = max(1, len({(y.args[0], tuple(map(str, y.args[1]))) for t in x for y in law.variates(t)}))
        n = 4096 if not ck.thorough else 16384
        X = law.pushforward(lambda tb: [float(tb.ev(t, {})) for t in x], base, o.rng, min(dims + 4, 40), n)
    except rint.Unknown as e:
        return ck.add(key, UNDECIDED, R_LAW, f'the law depends on {e}')
    r = np.sqrt((X ** 2).sum(axis=1))
    if nm == 'gaussian':
        F = stats.chi2.cdf(r ** 2, D)
    else:
        F = np.where(r > 1 + 1e-9, 2.0, special.betainc(D / 2, ORDER[nm] + 1, np.clip(r ** 2, 0, 1)))
    bad = None
    loc = None
    for t in x:
        ls = [y.loc for y in tm.find(t, lambda y: True) if y.loc and str(y.loc[0]).startswith('kalepy')]
        loc = loc or (ls[0] if ls else None)
    fs = np.sort(F)
    ks = np.max(np.abs(fs - (np.arange(n) + 0.5) / n))
    e = X / np.where(r > 0, r, 1)[:, None]
    m1, m2 = np.abs(e.mean(axis=0)).max(), e.T @ e / n
    tol = 0.02
    if fs[-1] > 1.5:
        bad = f'points at distance {r.max():.3g}, outside of the support'
    elif ks > tol:
        bad = f'the distance from the centre has another law: P(r<{np.median(r):.3g}) = 0.5 instead of {np.median(F):.3g}'
    elif m1 > tol or np.abs(m2 - np.eye(D) / D).max() > tol:
        bad = 'the direction is not isotropic (first or second moments)'
    elif np.abs((e ** 4).mean(axis=0) - 3 / (D * (D + 2))).max() > tol:
        bad = 'the direction is not isotropic (fourth moments)'
    elif np.abs((F[:, None] * e ** 2).mean(axis=0) - 0.5 / D).max() > tol:
        bad = 'the distance depends on the direction'
    if bad:
        return ck.add(key, VIOLATED, R_LAW, f'samples of the {nm} kernel in {D} dimension(s): {bad}', loc)
    ck.add(key, HOLDS, R_LAW, how=f'push-forward over {n} points: radial law within {ks:.4f}')


def independent(ck, key, w, nm, D):
    """different points share no variate"""
    s = w.scenario()
    q = column(s, nm, D, False, R_IND, ck, key)
    if q is None:
        return
    o, col, v = q
    try:
        a, b = ({(y.args[0], tuple(map(str, y.args[1]))) for t in col(j) for y in law.variates(t)} for j in (0, 1))
    except rint.Unknown as e:
        return ck.add(key, UNDECIDED, R_IND, f'{e} is not known')
    if not a:
        return ck.add(key, UNDECIDED, R_IND, 'the samples depend on no known variate')
    both = sorted(a & b)
    if both:
        return ck.add(key, VIOLATED, R_IND, f'points 0 and 1 both depend on the variate {both[0][0][4:]}{list(both[0][1])}')
    ck.add(key, HOLDS, R_IND, how=f'{len(a)} variates each')
