"""Combinations of the options of a density evaluation: every pair of options occurs together (pairwise cover)."""
import itertools
import random

from .common import *  # noqa


def pairwise(factors, ok=lambda c: True, seed=0, tries=60):
    """configurations (dicts) that contain every admissible pair of option values"""
    names = list(factors)
    g = random.Random(seed)

    def pairs(c):
        return {((a, c[a]), (b, c[b])) for a, b in itertools.combinations(names, 2)}
    todo = {((a, x), (b, y)) for a, b in itertools.combinations(names, 2) for x in factors[a] for y in factors[b]}
    out, dry = [], 0
    while todo and dry < 40:
        best, gain = None, 0
        for _ in range(tries):
            c = {n: g.choice(factors[n]) for n in names}
            (a, x), (b, y) = g.choice(sorted(todo, key=repr))
            c[a], c[b] = x, y
            if ok(c) and len(pairs(c) & todo) > gain:
                best, gain = c, len(pairs(c) & todo)
        if best is None:
            dry += 1
            continue
        todo -= pairs(best)
        out.append(best)
    return out


DENS = {'D': (1, 2, 3), 'kern': ('gaussian', 'box', 'parabola', 'triweight'), 'wt': (False, True),
        'ask': ('density', 'probability', 'pdf'), 'params': (None, 'first', 'last', 'reversed', 'list of one', 'negative'),
        'grid': (False, True), 'bw': ('number', 'vector', 'rescaled', 'diagonal', 'scott'), 'points': ('array', 'list', 'constructor'),
        'helper': (True, False)}


def admissible(c):
    if c['D'] == 1 and c['params'] not in (None, 'first'):
        return False
    if c['D'] == 3 and c['kern'] in ('box', 'triweight'):
        return False
    if c['points'] == 'constructor' and not c['grid']:
        # points of the constructor are a grid in several dimensions
        return c['D'] == 1
    if c['points'] == 'list' and c['grid'] and c['D'] == 1:
        return False
    return True


def selection(D, params):
    """(argument for kalepy, selected dimensions, is the argument a number)"""
    if params is None:
        return None, list(range(D))
    return {'first': (0, [0]), 'last': (D - 1, [D - 1]), 'reversed': (list(range(D))[::-1], list(range(D))[::-1]),
            'list of one': ([D - 1], [D - 1]), 'negative': (-1, [D - 1])}[params]


def label(c):
    return ' '.join(f'{n}={c[n]}' for n in c)


def dens(ck, key, w, c, rule, refl=None):
    """refl: (case, D) -> (argument, specification, names), where"""
    s = w.scenario()
    I = s.I
    D = c['D']
    k = Case(s, D, weights=c['wt'])
    names = set(k.names) | {'b', 'r', 'p'}
    arg, sel = selection(D, c['params'])
    n = len(sel)
    # the points
    if c['grid'] or c['points'] == 'constructor':
        edges = [s.arr(f'e{d}', (s.int(f'G{d}', 2),) if c['points'] != 'list' else (3,), sorted=True) for d in (range(D) if c['points'] == 'constructor' else sel)]
        names |= {f'{x}{d}' for x in 'eG' for d in range(D)}
        used = [edges[d] for d in sel] if c['points'] == 'constructor' else edges
        if c['points'] == 'list':
            pts = s.list([I.call(I.getattr(e, 'tolist'), [], {}) for e in edges])
        elif len(edges) == 1 and not (c['grid'] and c['points'] == 'array'):
            pts = edges[0]
        else:
            pts = s.list(edges)
        grid = len(sel) > 1 or c['points'] != 'constructor'
    else:
        used, grid = None, False
        p2 = s.arr('p', (n, k.M if c['points'] == 'array' else 3))
        pts = I.getitem(p2, 0) if n == 1 else p2
        if c['points'] == 'list':
            pts = I.call(I.getattr(pts, 'tolist'), [], {})
    kw, B = {'kernel': c['kern']}, None
    bw = k.h
    if c['bw'] == 'vector':
        bw = s.arr('b', (D,), lo=0, lo_open=True)
        B = k.spec('diag', bw) if D > 1 else I.getitem(bw, 0)
    elif c['bw'] == 'rescaled':
        r = kw['bw_rescale'] = s.num('r', lo=0, lo_open=True)
        B = tm.mul(k.h, r)
    elif c['bw'] == 'diagonal':
        kw['diagonal'] = TRUE
        B = k.spec('diag', s.list([k.h] * D))
    elif c['bw'] == 'scott':
        bw = 'scott'
        B = k.spec('plugin', 'scott', k.N, k.w, None, D)
    else:
        B = k.h
    if not c['helper']:
        kw['helper'] = FALSE
    sp, where = None, None
    if refl is not None:
        ra, sp, nm = refl(s, k, D)
        names |= nm
        where = c['where']
        if where in ('KDE', 'both'):
            kw['reflect'] = ra if where == 'KDE' else s.list([s.list([s.num('q0', hi=-60), None]) for d in range(D)])
            names |= {'q0'}
    if c['points'] == 'constructor':
        kw['points'] = pts
    prob = c['ask'] != 'density'

    def code():
        q = {}
        if c['ask'] == 'probability':
            q['probability'] = TRUE
        if c['grid'] and c['points'] != 'constructor':
            q['grid'] = TRUE
        if arg is not None:
            q['params'] = s.list(arg) if isinstance(arg, list) else arg
        if where in ('call', 'both'):
            q['reflect'] = ra
        if c.get('mod'):
            con = dict(kw, bandwidth=bw, covariance=k.cov, **q)
            if k.w is not None:
                con['weights'] = k.w
            return item(s, I.call(s.get('kalepy.' + ('pdf' if c['ask'] == 'pdf' else 'density')), [k.data] + ([] if c['points'] == 'constructor' else [pts]), con), 1)
        o = k.kde(bandwidth=bw, **kw)
        return item(s, I_call(s, o, 'pdf' if c['ask'] == 'pdf' else 'density', [] if c['points'] == 'constructor' else [pts], q), 1)

    def spec():
        H = k.spec('restrict', k.spec('matrix', k.cov, B), tuple(sel))
        rows = k.spec('rows', k.data2, tuple(sel))
        r = tuple(sp[i] for i in sel) if sp is not None else None
        if used is None:
            d = k.spec('density', p2, rows, k.w, H, c['kern'], r)
        elif grid:
            d = k.spec('grid_density', tuple(used), rows, k.w, H, c['kern'], r)
        else:
            d = k.spec('density', I.np.call(I, Builtin('numpy.atleast_2d'), [used[0]], {}), rows, k.w, H, c['kern'], r)
        return k.spec('divide', d, k.spec('total', k.w, k.N)) if prob else d
    ck.conform(key, s, code, spec, names, rule)
