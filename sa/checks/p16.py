"""P16: trapezoid masses, integrals, midpoints and centroids are exact per cell."""
from .common import *  # noqa

R_MASS = 'value number of every mass equals the mean of its corner densities times the volume along the requested axes'
R_TOT = 'value number of the integral equals the sum of the masses'
R_CUM = 'value number of the cumulative integral equals the cumulative sum of the masses'
R_MID = 'value number of every midpoint equals the mean of its neighbours'
R_COM = 'value number of every centroid equals the centre of mass of the linear density of its cell'


def run(ck):
    w = ck.world()
    for D in (1, 2, 3):
        one = [None, 0, -1] if D == 1 else [None, 0, 1, -1, -2, [0, 1], [1, 0], [0, -1]] if D == 2 else [None, 1, 2, -1, -2, [0, 2], [2, 1], [-1, 0], [0, 1, 2]]
        for ax in one:
            for sh in ('arrays', 'lists') if D == 2 else ('arrays', 'bare') if D == 1 else ('arrays',):
                ck.case(f'trapz_dens_to_mass D={D} axis={ax} {sh}', R_MASS, tool, w, D, ax, sh, 'trapz_dens_to_mass', 'trapz_mass')
                ck.case(f'trapz_nd D={D} axis={ax} {sh}', R_TOT, tool, w, D, ax, sh, 'trapz_nd', 'trapz_total')
            if ax is None or isinstance(ax, int):
                ck.case(f'cumsum D={D} axis={ax}', R_CUM, csum, w, D, ax)
                for pre in (True, False):
                    if D < 3 or pre and ax is None or ck.thorough:
                        ck.case(f'cumtrapz D={D} axis={ax} prepend={pre}', R_CUM, cum, w, D, ax, pre)
        for ax in {1: [None, 0, -1], 2: [None, 0, 1, -1, [0], [0, 1]], 3: [None, 1, -1, [0, 2]]}[D]:
            for log in (False, True):
                ck.case(f'midpoints D={D} axis={ax} log={log}', R_MID, mid, w, D, ax, log, 'f')
        ck.case(f'midpoints D={D} integers', R_MID, mid, w, D, None, False, 'i')
        ck.case(f'midpoints D={D} default axis', R_MID, mid, w, D, 'default', False, 'f')
        for sh in ('arrays', 'lists') + (('bare',) if D == 1 else ()):
            ck.case(f'centroids D={D} {sh}', R_COM, com, w, D, sh)


def grid(s, D, sh, positive=False):
    ns = [s.int(f'G{d}', 3) for d in range(D)]
    e = [s.arr(f'e{d}', (ns[d],), sorted=True) for d in range(D)]
    d = s.arr('f', tuple(ns), lo=0, lo_open=positive)
    return e, d, e[0] if sh == 'bare' else tuple(e) if sh == 'lists' else s.list(e)


NAMES = {'f', 'e0', 'e1', 'e2', 'G0', 'G1', 'G2'}


def arg(s, ax):
    return s.list(ax) if isinstance(ax, list) else ax


def tool(ck, key, w, D, ax, sh, name, spec):
    s = w.scenario()
    e, d, ed = grid(s, D, sh)
    ax_ = tuple(ax) if isinstance(ax, list) else ax
    ck.conform(key, s, lambda: s.I.call(s.get('kalepy.utils.' + name), [d, ed], {} if ax is None else {'axis': arg(s, ax)}),
               lambda: s.I.call(s.get('spec.' + spec), [d, tuple(e), ax_], {}), NAMES, R_TOT if name == 'trapz_nd' else R_MASS)


def csum(ck, key, w, D, ax):
    s = w.scenario()
    e, d, ed = grid(s, D, 'arrays')
    ck.conform(key, s, lambda: s.I.call(s.get('kalepy.utils.cumsum'), [d], {'axis': ax}), lambda: s.I.call(s.get('spec.cumulative'), [d, ax], {}), NAMES, R_CUM)


def cum(ck, key, w, D, ax, pre):
    s = w.scenario()
    e, d, ed = grid(s, D, 'arrays')
    ck.conform(key, s, lambda: s.I.call(s.get('kalepy.utils.cumtrapz'), [d, ed], {'axis': ax, 'prepend': pre}),
               lambda: s.I.call(s.get('spec.cumulative_mass'), [d, tuple(e), ax, pre], {}), NAMES, R_CUM)


def mid(ck, key, w, D, ax, log, dt):
    s = w.scenario()
    sh = tuple(s.int(f'G{d}', 3) for d in range(D))
    a = s.arr('f', sh, dt, lo=0, lo_open=True) if log else s.arr('f', sh, dt)
    axs = tuple(range(D)) if ax is None else (D - 1,) if ax == 'default' else tuple(x % D for x in (ax if isinstance(ax, list) else [ax]))
    kw = {} if ax == 'default' else {'axis': arg(s, ax)}
    if log:
        kw['log'] = True
    ck.conform(key, s, lambda: s.I.call(s.get('kalepy.utils.midpoints'), [a], kw), lambda: s.I.call(s.get('spec.mids'), [a, axs, log], {}), NAMES, R_MID)


def com(ck, key, w, D, sh):
    s = w.scenario()
    e, d, ed = grid(s, D, sh, True)
    ck.conform(key, s, lambda: s.I.call(s.get('kalepy.utils.centroids'), [ed, d], {}), lambda: s.I.call(s.get('spec.centres'), [tuple(e), d], {}), NAMES, R_COM)
