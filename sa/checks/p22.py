"""P22: contour levels enclose the requested fractions of the gridded density drawn."""
import numpy as np

from .. import rint, sim
from .common import *  # noqa
from .p04 import over
from .p21 import Drawn, ext_ax

RULE = 'the value graph of the levels: the values above a level are as large a part of the total as possible within the requested fraction'
R_MASK = 'the lowest level is the limit of what is masked'
SIG = (0.5, 1.0, 1.5, 2.0)
# the three largest cells hold exactly 1/2 of the total, the six largest exactly 3/4
EXACT = (1.0, 2.875, 8.0, 1.5, 5.0, 0.5, 2.625, 2.0, 3.0, 1.25, 2.5, 1.75)


def run(ck):
    w = ck.world()
    for wt in (False, True):
        for how in ('default', 'one', 'two', 'three', 'unsorted', 'array', 'small', 'sigmas'):
            for f in ('contour', 'dist2d', 'draw_contour2d'):
                if (how == 'sigmas' and f != 'dist2d') or wt and f == 'draw_contour2d':
                    continue
                ck.case(f'{f} weights={wt} fractions {how}', RULE, case, w, f, wt, how, {})
                if how == 'two' and f != 'dist2d':
                    ck.case(f'{f} weights={wt} fractions {how} not padded', RULE, case, w, f, wt, how, {'pad': False})
                    ck.case(f'{f} weights={wt} fractions {how} empty cells', RULE, case, w, f, wt, how, {'zeros': True})
                if how == 'two' and f == 'draw_contour2d':
                    ck.case(f'{f} fractions met exactly', RULE, case, w, f, wt, how, {'tie': True, 'pad': False})
        ck.case(f'dist2d weights={wt} contours after histogram', RULE, case, w, 'dist2d', wt, 'two', {'hist': True})
        for how in ('default', 'two'):
            for meth in ('plot_kde', 'clean'):
                ck.case(f'Corner.{meth} weights={wt} fractions {how}', RULE, corner, w, meth, wt, how)


def asked(s, how):
    """(argument, names) of the requested fractions"""
    if how == 'default':
        return None, ()
    if how == 'small':
        return s.list([s.num('q0', lo=0.0, hi=0.01, lo_open=True), s.num('q1', lo=0.6, hi=0.9)]), ('q0', 'q1')
    n = {'one': 1, 'two': 2, 'three': 3, 'unsorted': 3, 'array': 2, 'sigmas': 2}[how]
    nm = [f'q{i}' for i in range(n)]
    a = [s.num(x, lo=0.1 + 0.28 * i, hi=0.3 + 0.28 * i) for i, x in enumerate(nm)]
    if how == 'unsorted':
        a = [a[1], a[2], a[0]]
    a = s.list(a)
    if how in ('array',):
        a = s.I.np.call(s.I, Builtin('numpy.array'), [a], {})
    return a, nm


class Levels(Drawn):
    fixed, eps = {}, 1e-9

    def go(self, names, how):
        ck, o, I = self.ck, self.o, self.I
        if o.undecided or not o.ok:
            e = [(x.cls, x.msg, x.loc) for _, x in o.raises[:1]]
            return ck.add(self.key, UNDECIDED, RULE, str(o.undecided or f'every abstract path raises {e}'))
        I.st = o.st
        evs = [e for e in o.events if e['kind'] == 'ext' and e['method'] in ('contour', 'contourf') and 'levels' in self.fields(e)]
        done, skip = 0, ''
        for n in range(4):
            tb = rint.Table(str(n), self.s.inputs, o.rng, dict(over(n), N=7, **self.fixed))
            try:
                x = self.exit_of(tb)
            except rint.Unknown as e:
                skip = str(e)
                continue
            if x == '?':
                continue
            if x is not None:
                return ck.add(self.key, VIOLATED, RULE, f'valid input reaches {x.cls} ({x.msg})', x.loc)
            want = np.array(sorted(float(tb.ev(tm.sym(q), {})) for q in names)) if names else None
            if want is None or how == 'sigmas':
                want = 1.0 - np.exp(-0.5 * np.square(SIG if want is None else want))
            for e in evs:
                try:
                    if not self.happens(e, tb):
                        continue
                    c, lv = self.numbers(tb, e['args'][2]), self.numbers(tb, self.fields(e)['levels'])
                except (rint.Unknown, sim.Long) as x:
                    skip = str(x)
                    continue
                if c is None or lv is None:
                    continue
                bad = self.levels(np.asarray(c), np.atleast_1d(lv), want)
                if bad:
                    return ck.add(self.key, VIOLATED, RULE, bad, e['loc'])
                done += 1
        if not done:
            return ck.add(self.key, UNDECIDED, RULE, f'no level drawn is known: {skip}')
        ck.add(self.key, HOLDS, RULE, how=f'{done} sets of levels')

    def fields(self, e):
        kw = dict(e['kw'])
        if len(e['args']) > 3:
            kw.setdefault('levels', e['args'][3])
        return kw

    def exit_of(self, tb):
        if all(tb.truth(c) for c in self.o.st.pc):
            return None
        for st, ex in self.o.raises:
            if ex.loc and all(tb.truth(c) for c in st.pc):
                return ex
        return '?'

    def levels(self, c, lv, want):
        eps = self.eps
        if len(lv) != len(want):
            return f'{len(lv)} levels for {len(want)} requested fractions'
        if np.any(np.diff(lv) < 0):
            return f'the levels {np.round(lv, 6).tolist()} do not increase'
        z = np.sort(c.ravel())[::-1]
        cum = np.cumsum(z) / z.sum()
        for v, q in zip(lv, want[::-1]):
            k = np.nonzero(np.abs(z - v) <= 1e-9 * z[0])[0]
            if not len(k):
                return f'level {v:.6g} is no value of the density drawn'
            first = k[0] == 0 and cum[0] > q - eps
            ok = cum[k] <= q + eps
            nxt = np.array([cum[i + 1] if i + 1 < len(cum) else np.inf for i in k]) > q - eps
            if not first and not np.any(ok & nxt):
                return f'level {v:.6g}, for the fraction {q:.4g}, encloses {cum[k[0]]:.4g}'
        return None


def case(ck, key, w, f, wt, how, opt):
    s = w.scenario()
    I = s.I
    k = Case(s, 2, weights=wt, cov=None)
    e = [s.arr(f'e{d}', (4 + d,), gen=lambda tb, i: -4.0 + 2.5 * i[0]) for d in range(2)]
    q, names = asked(s, how)
    kw = {'edges': s.list(e)}
    if q is not None:
        kw['sigmas' if how == 'sigmas' else 'quantiles'] = q
    if 'pad' in opt:
        kw['pad'] = FALSE
    if f == 'dist2d':
        kw.update(scatter=FALSE, mask_dense=FALSE, hist=TRUE if opt.get('hist') else FALSE)
    if f == 'contour':
        kw.update(smooth=None, upsample=None)
    base = I.st

    def code():
        if f == 'draw_contour2d':
            gen = (lambda tb, i: EXACT[4 * i[0] + i[1]]) if opt.get('tie') else (lambda tb, i: 0.0 if (i[0] + 2 * i[1]) % 3 == 0 else 0.3 + ((7 * i[0] + 5 * i[1]) % 11) / 4) if opt.get('zeros') else None
            h = s.arr('hist', (3, 4), lo=0, lo_open=True, gen=gen) if gen else s.arr('hist', (3, 4), lo=0, lo_open=True)
            return I.call(s.get('kalepy.plot.draw_contour2d'), [ext_ax(), kw.pop('edges'), h], kw)
        q_ = dict(kw, ax=ext_ax())
        if f == 'dist2d':
            return I.call(s.get('kalepy.plot.' + f), [k.kde(bandwidth=None, points=s.list(e))], q_)
        if wt:
            q_['weights'] = k.w
        return I.call(s.get('kalepy.plot.' + f), [k.data], q_)
    o = s.run(code)
    lv = Levels(ck, key, s, k, base, o, 2, lambda ob: (0, 1), {}, set(names) | {'e0', 'e1', 'hist'}, wt, None)
    if opt.get('tie'):
        lv.fixed, lv.eps = {'q0': 0.5, 'q1': 0.75}, 0.0
    lv.go(names, how)


def corner(ck, key, w, meth, wt, how):
    s = w.scenario()
    I = s.I
    k = Case(s, 2, weights=wt, cov=None)
    e = [s.arr(f'e{d}', (4 + d,), gen=lambda tb, i: -4.0 + 2.5 * i[0]) for d in range(2)]
    q, names = asked(s, how)
    km = {'edges': s.list(e)}
    if q is not None:
        km['quantiles'] = q
    base = I.st

    def code():
        c = I.call(s.get('kalepy.Corner'), [k.kde(bandwidth=None, points=s.list(e))], {})
        return I_call(s, c, meth, [], km)
    o = s.run(code)
    Levels(ck, key, s, k, base, o, 2, lambda ob: (0, 1), {}, set(names) | {'e0', 'e1'}, wt, None).go(names, how)
