"""P14: cdf is the normalised cumulative integral and stays within [0, 1]."""
from .common import *  # noqa

RULE = 'value number of cdf equals the normalised cumulative trapezoid integral of the density, interpolated and constant outside the grid'


def run(ck):
    w = ck.world()
    for D in (1, 2):
        for wt in (False, True):
            for kern in ('gaussian', 'box', 'parabola', 'triweight'):
                if D == 2 and kern in ('parabola', 'triweight') and not ck.thorough:
                    continue
                ck.case(f'cdf D={D} weights={wt} {kern}', RULE, cdf, w, D, wt, kern, 'given', False, 'points')
        ck.case(f'cdf D={D} reflect', RULE, cdf, w, D, True, 'gaussian', 'given', True, 'points')
        ck.case(f'cdf D={D} one point', RULE, cdf, w, D, True, 'gaussian', 'given', False, 'one')
        ck.case(f'cdf D={D} list of points', RULE, cdf, w, D, True, 'gaussian', 'given', False, 'list')
        ck.case(f'cdf D={D} asked twice', RULE, cdf, w, D, True, 'gaussian', 'given', False, 'twice')
        if D == 1:
            ck.case(f'cdf D={D} automatic grid', RULE, cdf, w, D, True, 'gaussian', 'auto', False, 'points')
    ck.case('cdf D=1 column of points', RULE, cdf, w, 1, True, 'gaussian', 'given', False, 'column')


def cdf(ck, key, w, D, wt, kern, grid, refl, how):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, cov='diag' if grid == 'auto' else 'sym')
    kw = {'kernel': kern}
    if refl:
        kw['reflect'] = s.list([s.list([s.num('r0', hi=-4), None]) if d == 0 else None for d in range(D)])
    if grid == 'given':
        e = [s.arr(f'e{d}', (s.int(f'G{d}', 3),), sorted=True) for d in range(D)]
        kw['points'] = e[0] if D == 1 else s.list(e)
    q = {'points': lambda: k.points, 'twice': lambda: k.points, 'one': lambda: s.arr('q', (1,) if D == 1 else (D, 1)),
         'list': lambda: s.list([s.num('q0'), s.num('q1')] if D == 1 else [s.list([s.num(f'q{d}0'), s.num(f'q{d}1')]) for d in range(D)]),
         'column': lambda: s.arr('q', (1, k.M))}[how]()
    q2 = I.np.call(I, Builtin('numpy.atleast_2d'), [q], {})

    def code():
        o = k.kde(**kw)
        if how == 'twice':
            I_call(s, o, 'cdf', [k.spec('divide', k.points, 2.0)], {})
        return I_call(s, o, 'cdf', [q], {})

    def spec():
        if grid == 'given':
            ed = e
        else:
            pts = I.getattr(k.kde(**kw), 'points')
            ed = [pts] if D == 1 else list(I.items(pts))
        r = tuple(((s.sym('r0'), None) if d == 0 else None) for d in range(D)) if refl else None
        d = k.spec('grid_density', tuple(ed), k.data2, k.w, k.H, kern, r)
        return k.spec('cdf', q2, tuple(ed), d)
    ck.conform(key, s, code, spec, k.names | {'q', 'q0', 'q1', 'q00', 'q01', 'q10', 'q11', 'e0', 'e1', 'G0', 'G1', 'r0'}, RULE)
