"""P23: histograms count every weight once and normalise as documented."""
import random

import numpy as np

from .. import rint, sim
from .common import *  # noqa
from .p21 import Drawn, ext_ax

RULE = 'value graph of the histogram equals the sum of the weights in each bin, normalised as asked'
R_AUTO = 'value graph of the histogram on automatic edges: edges increase and reach over all data, counts are those of its own edges'
R_DRAW = 'values drawn: one horizontal line per bin from edge to edge, at the value of the histogram'

R_DRAW2 = 'values drawn: every bin of the two-dimensional density histogram between its own edges, and only bins asked for are masked'


def run(ck):
    w = ck.world()
    for wt in (False, True):
        for dn in (False, True):
            for pr in (False, True):
                for ed in ('array', 'list', 'int'):
                    ck.case(f'histogram weights={wt} density={dn} probability={pr} edges {ed}', RULE, direct, w, wt, dn, pr, ed, 'f')
                ck.case(f'histogram weights={wt} density={dn} probability={pr} integer data', RULE, direct, w, wt, dn, pr, 'array', 'i')
                ck.case(f'histogram weights={wt} density={dn} probability={pr} automatic edges', R_AUTO, auto, w, wt, dn, pr)
                ck.case(f'hist1d weights={wt} density={dn} probability={pr}', R_DRAW, draw1, w, wt, dn, pr, {})
        for opt in ({'rotate': True}, {'joints': False}, {'joints': False, 'rotate': True}, {'positive': False}, {'nonzero': True}, {'nonzero': True, 'rotate': True},
                    {'renormalize': True}, {'renormalize': 'r'}, {'renormalize': 'r', 'joints': False, 'rotate': True}):
            nm = ' '.join(f'{a}={b}' for a, b in opt.items())
            ck.case(f'hist1d weights={wt} {nm}', R_DRAW, draw1, w, wt, True, False, opt)
            ck.case(f'hist1d weights={wt} {nm} counts', R_DRAW, draw1, w, wt, False, False, opt)
        for opt in ({}, {'mask_below': True}, {'mask_below': 'm'}, {'bins': 3}):
            nm = ' '.join(f'{a}={b}' for a, b in opt.items())
            ck.case(f'hist2d weights={wt} {nm}', R_DRAW2, draw2, w, wt, opt)


def norm(dn, pr):
    return {'density': boolean(dn), 'probability': boolean(pr)}


def boolean(x):
    return TRUE if x else FALSE


def edges(s, ed):
    if ed == 'int':
        return num(3)
    if ed == 'list':
        return s.list([-2.5, -0.5, 0.0, s.num('top', lo=0.5, hi=2.0)])
    return s.arr('e', (5,), gen=lambda tb, i: -2.0 + 0.75 * i[0] + 0.1 * i[0]**2)


def direct(ck, key, w, wt, dn, pr, ed, dt):
    s = w.scenario()
    I = s.I
    N = s.int('N', 2)
    v = s.arr('v', (N,), dt)
    wv = s.arr('w', (N,), lo=0, lo_open=True) if wt else None
    e = edges(s, ed)

    def spec():
        g = I.call(s.get('spec.equal_edges'), [v, num(3)], {}) if ed == 'int' else e
        h = I.call(s.get('spec.histogram'), [v, g, wv, boolean(dn), boolean(pr)], {})
        return (h, I.np.call(I, Builtin('numpy.array'), [g], {}))
    ck.conform(key, s, lambda: I.call(s.get('kalepy.utils.histogram'), [v], dict(norm(dn, pr), bins=e, weights=wv)), spec, {'v', 'w', 'N', 'e', 'top'}, RULE)


def auto(ck, key, w, wt, dn, pr):
    s = w.scenario()
    I = s.I
    N = s.int('N', 2)
    v = s.arr('v', (N,))
    wv = s.arr('w', (N,), lo=0, lo_open=True) if wt else None

    def own():
        return I.call(s.get('kalepy.utils.histogram'), [v], dict(norm(dn, pr), bins=None, weights=wv))

    def code():
        h, e = [I.resolve(x) for x in own()]
        return (h, I.call(s.get('spec.covers'), [e, v], {}))

    def spec():
        h, e = [I.resolve(x) for x in own()]
        return (I.call(s.get('spec.histogram'), [v, e, wv, boolean(dn), boolean(pr)], {}), TRUE)
    ck.conform(key, s, code, spec, {'v', 'w', 'N'}, R_AUTO)


class Bars(Drawn):
    def go(self, judge, method):
        ck, o, I = self.ck, self.o, self.I
        if o.undecided or not o.ok:
            e = [(x.cls, x.msg, x.loc) for _, x in o.raises[:1]]
            return ck.add(self.key, UNDECIDED, self.rule, str(o.undecided or f'every abstract path raises {e}'))
        I.st = o.st
        evs = [e for e in o.events if e['kind'] == 'ext' and e['method'] in method]
        done, skip = 0, ''
        for n in range(5):
            for ov in self.overs:
                tb = rint.Table(str(n), self.s.inputs, o.rng, ov)
                try:
                    if not all(tb.truth(c) for c in o.st.pc):
                        for st, x in o.raises:
                            if x.loc and all(tb.truth(c) for c in st.pc):
                                return ck.add(self.key, VIOLATED, self.rule, f'valid input reaches {x.cls} ({x.msg})', x.loc)
                        continue
                    es = [e for e in evs if self.happens(e, tb)]
                    if len(es) != 1:
                        return ck.add(self.key, VIOLATED, self.rule, f'{len(es)} drawing calls for one histogram')
                    bad = judge(self, tb, es[0])
                except (rint.Unknown, sim.Long) as x:
                    skip = str(x)
                    continue
                if bad:
                    return ck.add(self.key, VIOLATED, self.rule, bad, es[0]['loc'])
                done += 1
        if not done:
            return ck.add(self.key, UNDECIDED, self.rule, f'nothing drawn is known: {skip}')
        ck.add(self.key, HOLDS, self.rule, how=f'{done} drawings')


def same(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, 1e-9, 1e-300, equal_nan=True)


def bar_points(e, h, joints, drop):
    out = []
    for j, v in enumerate(h):
        if not (drop and v == 0):
            out += [(e[j], v), (e[j + 1], v)]
        if (not joints or drop and v == 0) and out and out[-1] is not None:
            out.append(None)
    while out and out[-1] is None:
        out.pop()
    return out


def drawn_points(x, y):
    out = []
    for a, b in zip(x, y):
        if a == a and b == b:
            out.append((a, b))
        elif out and out[-1] is not None:
            out.append(None)
    while out and out[-1] is None:
        out.pop()
    return out


def draw1(ck, key, w, wt, dn, pr, opt):
    s = w.scenario()
    I = s.I
    k = Case(s, 1, weights=wt, cov=None)
    e = s.arr('e', (6,), gen=lambda tb, i: -9.0 + 3.5 * i[0] + 0.1 * i[0]**2)
    kw = {'edges': e, 'ax': ext_ax(), **norm(dn, pr)}
    if wt:
        kw['weights'] = k.w
    ren = opt.get('renormalize')
    for a, b in opt.items():
        kw[a] = s.num('ren', lo=0.5, hi=3.0) if b == 'r' else boolean(b)
    base = I.st
    o = s.run(lambda: I.call(s.get('kalepy.plot.hist1d'), [k.data], kw))

    def judge(dr, tb, ev):
        ed, dat = dr.numbers(tb, e), dr.numbers(tb, k.data)
        wv = dr.numbers(tb, k.w) if wt else np.ones(len(dat))
        h = np.histogram(dat, ed, weights=wv)[0].astype(float)
        if dn:
            h = h / np.diff(ed)
        if pr:
            h = h / wv.sum()
        if ren:
            h = h / h.max() * (1.0 if ren is True else float(tb.ev(tm.sym('ren'), {})))
        x, y = dr.numbers(tb, ev['args'][0]), dr.numbers(tb, ev['args'][1])
        if opt.get('rotate'):
            x, y = y, x
        got, want = drawn_points(x, y), bar_points(ed, h, opt.get('joints', True), opt.get('nonzero', False))
        if [p is None for p in got] != [p is None for p in want]:
            return f'{sum(p is not None for p in got)} points in {1 + sum(p is None for p in got)} pieces drawn for {sum(p is not None for p in want)} in {1 + sum(p is None for p in want)}'
        for p, q in zip(got, want):
            if p is not None and not same(p, q):
                return f'({p[0]:.6g}, {p[1]:.6g}) drawn in place of ({q[0]:.6g}, {q[1]:.6g})'
    b = Bars(ck, key, s, k, base, o, 1, lambda ob: (0, None), {}, {'e', 'ren'}, wt, None)
    b.rule, b.overs = R_DRAW, [dict(N=6), dict(N=3)]
    b.go(judge, ('plot',))


def wide(tb, i):
    return random.Random(f'{tb.seed}{i}').gauss(0.0, 2.0) * (1.0 if i[0] else 40.0)


def draw2(ck, key, w, wt, opt):
    s = w.scenario()
    I = s.I
    k = Case(s, 2, weights=wt, cov=None)
    e = [s.arr(f'e{d}', (4 + d,), gen=lambda tb, i, d=d: (-4.0 + 2.4 * i[0] + 0.1 * i[0]**2) * (1.0 if d else 40.0)) for d in range(2)]
    kw = {'ax': ext_ax(), 'edges': num(opt['bins']) if 'bins' in opt else s.list(e)}
    if wt:
        kw['weights'] = k.w
    mb = opt.get('mask_below')
    if mb:
        kw['mask_below'] = TRUE if mb is True else s.num('m', lo=0.001, hi=0.01)
    base = I.st
    o = s.run(lambda: I.call(s.get('kalepy.plot.hist2d'), [k.data], kw))

    def judge(dr, tb, ev):
        dat = dr.numbers(tb, k.data)
        wv = dr.numbers(tb, k.w) if wt else np.ones(dat.shape[1])
        x, y, c = [dr.numbers(tb, a) for a in ev['args'][:3]]
        ed = [dr.numbers(tb, a) for a in e] if 'bins' not in opt else [x, y]
        for d in range(2):
            if not same((x, y)[d], ed[d]):
                return f'edges of dimension {d} are not those given'
        cnt = np.histogram2d(dat[0], dat[1], ed, weights=wv)[0]
        if not cnt.sum() > 0:
            raise rint.Unknown('no data within the edges')
        h = cnt / cnt.sum() / np.diff(ed[0])[:, None] / np.diff(ed[1])[None, :]
        if 'bins' in opt and (len(x) != opt['bins'] + 1 or x[0] > dat[0].min() or x[-1] < dat[0].max() or y[0] > dat[1].min() or y[-1] < dat[1].max()):
            return 'the automatic edges do not reach over all data in the requested number of bins'
        if mb is True:
            h = np.where(cnt < 0.85 * wv.mean(), np.nan, h)
            grey = (cnt >= 0.85 * wv.mean()) & (cnt <= wv.mean())
            if not wt:
                grey[:] = False
        else:
            grey = np.zeros(h.shape, bool)
            if mb:
                h = np.where(h <= float(tb.ev(tm.sym('m'), {})), np.nan, h)
        if c.shape != h.T.shape:
            return f'{c.shape} values drawn for {h.T.shape} bins'
        bad = ~grey & ~np.isclose(c.T, h, 1e-9, 1e-300, equal_nan=True)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            return f'bin {i}, {j} with weight {cnt[i, j]:.6g} is drawn as {c.T[i, j]:.6g}, not {h[i, j]:.6g}'
    b = Bars(ck, key, s, k, base, o, 2, lambda ob: (0, 1), {}, {'e0', 'e1', 'm'}, wt, None)
    b.rule, b.overs = R_DRAW2, [dict(N=n, data=wide) for n in (6, 4)]
    b.go(judge, ('pcolormesh', 'pcolor'))
