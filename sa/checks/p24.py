"""P24: array helpers keep their documented meaning for every shape and option."""
import itertools

from .common import *  # noqa

R_COV = 'value graph: removing a covariance undoes adding it; the factor used times its transpose is the covariance'
R_WHITE = 'value graph: data whose covariance is removed has the identity as its sample covariance'
R_IN = 'value graph of the selection equals the comparison of each point with the bounds of its dimensions'
R_MM = 'value graph of the extremes equals their definition: data, then stretches, previous extremes, limits'
R_SP = 'value graph of the grid equals its definition: ends, number and equal (log) spacing'
R_DIV = 'value graph of the subdivided array equals its definition: kept edges, equally (log-)spaced points between'
R_FLAT = 'structure of ragged input: concatenated elements, total number, raggedness, shape'


def run(ck):
    w = ck.world()
    for D in (1, 2, 3):
        for f in ('round', 'factor', 'white', 'white given'):
            ck.case(f'rem_cov {f} {D}D', R_WHITE if 'white' in f else R_COV, cov, w, D, f)
    kinds = {'n': (False, False), 'b': (True, True), 'l': (True, False), 'u': (False, True), 'N': None}
    for D in (1, 2, 3):
        for c in itertools.product('nbluN', repeat=D):
            if D == 3 and len(set(c)) < 3 and c[0] != c[2]:
                continue
            ck.case(f'bound_indices {D}D bounds {"".join(c)}', R_IN, bounded, w, D, [kinds[x] for x in c], 'list')
        ck.case(f'bound_indices {D}D bounds in an array', R_IN, bounded, w, D, [(True, True)] * D, 'array')
    for c in 'blu':
        ck.case(f'bound_indices one pair {c}', R_IN, bounded, w, 1, [kinds[c]], 'pair')
        ck.case(f'bound_indices one pair {c} flat data', R_IN, bounded, w, 1, [kinds[c]], 'flat')
    for c in 'blunN':
        ck.case(f'bound_indices outside {c}', R_IN, out, w, kinds[c])
    for pv in (None, (1, 1), (1, 0), (0, 1)):
        for st in (None, 'stretch', 'log_stretch', 'stretch pair', 'log_stretch pair'):
            for lm in (None, (1, 1), (1, 0), (0, 1)):
                ck.case(f'minmax prev={pv} {st} limit={lm}', R_MM, extreme, w, pv, st, lm)
    for e in ('positive', 'empty', 'empty prev', 'none positive', 'none positive prev'):
        ck.case(f'minmax {e}', R_MM, special, w, e)
    for sc in ('log', 'lin', 'linear', 'logarithmic'):
        for n in (None, 4):
            ck.case(f'spacing {sc} num={n}', R_SP, space, w, sc, n)
    ck.case('bins', R_SP, bins, w)
    for n in (1, 2, 3):
        for log in (False, True):
            for L in (2, 4):
                ck.case(f'subdivide {L} values num={n} log={log}', R_DIV, divide, w, n, log, L)
    for nm in SHAPES:
        ck.case(f'structure of {nm}', R_FLAT, flat, w, nm)


def call(s, name, args, kw=None):
    return s.I.call(s.get('kalepy.utils.' + name), args, kw or {})


def spec(s, name, *args):
    return s.I.call(s.get('spec.' + name), list(args), {})


def cov(ck, key, w, D, f):
    s = w.scenario()
    k = Case(s, D, weights=False, cov='sym')
    c = k.cov
    x = k.data2

    def code():
        if f == 'round':
            return call(s, 'rem_cov', [call(s, 'add_cov', [x, c]), c])
        if f == 'factor':
            m = call(s, 'add_cov', [spec(s, 'identity', num(D)), c])
            return s.I.np.call(s.I, Builtin('numpy.dot'), [m, s.I.np.call(s.I, Builtin('numpy.transpose'), [m], {})], {})
        kw = {'cov': spec(s, 'covariance', x, None)} if 'given' in f else {}
        return spec(s, 'covariance', call(s, 'rem_cov', [x], kw), None)

    def want():
        return {'round': lambda: x, 'factor': lambda: c}.get(f, lambda: spec(s, 'identity', num(D)))()
    ck.conform(key, s, code, want, k.names, R_WHITE if 'white' in f else R_COV, over={'N': 7})


def bounded(ck, key, w, D, which, form):
    s = w.scenario()
    I = s.I
    N = s.int('N', 2)
    flat_ = form == 'flat'
    x = s.arr('x', (N,) if flat_ else (D, N))
    lo = [s.num(f'lo{d}', lo=-1.5, hi=-0.2) if b and b[0] else None for d, b in enumerate(which)]
    hi = [s.num(f'hi{d}', lo=0.2, hi=1.5) if b and b[1] else None for d, b in enumerate(which)]
    b = [None if c is None else s.list([lo[d], hi[d]]) for d, c in enumerate(which)]
    b = b[0] if form in ('pair', 'flat') else s.list(b)
    if form == 'array':
        b = I.np.call(I, Builtin('numpy.array'), [b], {})
    two = I.np.call(I, Builtin('numpy.atleast_2d'), [x], {})
    ck.conform(key, s, lambda: call(s, 'bound_indices', [x, b]), lambda: spec(s, 'inside', two, s.list(lo), s.list(hi)),
               {'x', 'N'} | {f'{a}{d}' for a in ('lo', 'hi') for d in range(D)}, R_IN)


def out(ck, key, w, b):
    s = w.scenario()
    N = s.int('N', 2)
    x = s.arr('x', (N,))
    lo = s.num('lo', lo=-1.5, hi=-0.2) if b and b[0] else None
    hi = s.num('hi', lo=0.2, hi=1.5) if b and b[1] else None
    bnd = s.list([None]) if b is None else s.list([lo, hi])
    ck.conform(key, s, lambda: call(s, 'bound_indices', [x, bnd], {'outside': TRUE}), lambda: spec(s, 'outside', x, lo, hi), {'x', 'N', 'lo', 'hi'}, R_IN)


def extreme(ck, key, w, pv, st, lm):
    s = w.scenario()
    N = s.int('N', 2)
    log = bool(st) and st.startswith('log')
    x = s.arr('x', (N,), lo=0.1, hi=9.0) if log else s.arr('x', (N,))

    def ends_(nm, which, at):
        return None if which is None else s.list([s.num(f'{nm}{i}', lo=at[i][0], hi=at[i][1]) if b else None for i, b in enumerate(which)])
    p = ends_('p', pv, ((0.05, 0.4), (5.0, 12.0)) if log else ((-2.0, 0.0), (0.0, 2.0)))
    m = ends_('m', lm, ((0.05, 0.4), (5.0, 12.0)) if log else ((-2.0, -0.5), (0.5, 2.0)))
    f = a = None
    if st:
        if 'pair' in st:
            f = a = s.list([s.num('f0', lo=-0.5, hi=1.0), s.num('f1', lo=-0.5, hi=1.0)])
        else:
            a = s.num('f0', lo=-0.5, hi=1.0)
            f = s.list([a, a])
    kw = {'prev': p, 'limit': m}
    if st:
        kw[st.split()[0]] = a
    ck.conform(key, s, lambda: call(s, 'minmax', [x], kw), lambda: spec(s, 'extremes', x, p, None if log else f, f if log else None, m),
               {'x', 'N', 'f0', 'f1', 'p0', 'p1', 'm0', 'm1'}, R_MM)


def special(ck, key, w, e):
    s = w.scenario()
    N = s.int('N', 2)
    kw = {'positive': TRUE} if 'positive' in e else {}
    prev = s.list([s.num('p0', lo=-2, hi=0), s.num('p1', lo=0, hi=2)]) if 'prev' in e else None
    if prev is not None:
        kw['prev'] = prev
    if 'empty' in e:
        x = s.arr('x', (0,))
    elif 'none' in e:
        x = s.arr('x', (N,), lo=-3, hi=-0.5)
    else:
        x = s.arr('x', (N,), gen=lambda tb, i: (1.7, -0.4, 0.0, 2.9, -3.0, 0.3)[i[0] % 6])
    want = (lambda: spec(s, 'positives', x)) if e == 'positive' else (lambda: prev)
    ck.conform(key, s, lambda: call(s, 'minmax', [x], kw), want, {'x', 'N', 'p0', 'p1'}, R_MM)


def space(ck, key, w, sc, n):
    s = w.scenario()
    N = s.int('N', 2)
    log = sc.startswith('log')
    x = s.arr('x', (N,), lo=0.1, hi=9.0) if log else s.arr('x', (N,))
    kw = {} if n is None else {'num': num(n)}
    lo, hi = (s.I.np.call(s.I, Builtin('numpy.' + f), [x], {}) for f in ('min', 'max'))

    def code():
        r = call(s, 'spacing', [x, sc], kw)
        return spec(s, 'ends', r, lo, hi) if n is None else r
    ck.conform(key, s, code, lambda: (num(1), num(1), TRUE) if n is None else spec(s, 'spaced', lo, hi, num(n), TRUE if log else FALSE), {'x', 'N'}, R_SP)


def bins(ck, key, w):
    s = w.scenario()
    a, b = s.num('a', lo=-2, hi=0), s.num('b', lo=0.1, hi=3)
    ck.conform(key, s, lambda: call(s, 'bins', [a, b, num(5)]), lambda: spec(s, 'cells', a, b, num(5)), {'a', 'b'}, R_SP)


def divide(ck, key, w, n, log, L):
    s = w.scenario()
    x = s.arr('x', (L,), lo=0.1, hi=9.0, sorted=True) if log else s.arr('x', (L,), sorted=True)
    ck.conform(key, s, lambda: call(s, 'subdivide', [x], {'num': num(n), 'log': TRUE if log else FALSE}),
               lambda: spec(s, 'divided', x, num(n), TRUE if log else FALSE), {'x'}, R_DIV)


# (nested lengths; flat elements, ragged, shape)
SHAPES = {'one list': ([3], False), 'two equal lists': ([[2], [2]], False), 'two unequal lists': ([[2], [3]], True), 'list of three': ([[1], [2], [3]], True),
          'equal nested': ([[[2], [2]], [[2], [2]]], False), 'unequal nested': ([[[2], [1]], [[2], [2]]], True)}


def flat(ck, key, w, nm):
    s = w.scenario()
    st, ragged = SHAPES[nm]
    cnt = itertools.count()
    every = []

    def make(x):
        if isinstance(x[0], int):
            v = [s.num(f'v{next(cnt)}') for _ in range(x[0])]
            every.extend(v)
            return s.list(v)
        return s.list([make(y) for y in x])

    def shape(x):
        if isinstance(x[0], int):
            return (x[0],)
        return (len(x),) + shape(x[0])
    a = make(st)
    parts = [(lambda: call(s, 'flatten', [a]), lambda: s.I.np.call(s.I, Builtin('numpy.array'), [s.list(every)], {})),
             (lambda: call(s, 'flatlen', [a]), lambda: num(len(every))),
             (lambda: call(s, 'isjagged', [a]), lambda: TRUE if ragged else FALSE)]
    if not ragged:
        parts.append((lambda: call(s, 'jshape', [a]), lambda: tuple(num(i) for i in shape(st))))

    def code():
        r = [p[0]() for p in parts]
        r[0] = s.I.np.call(s.I, Builtin('numpy.asarray'), [r[0]], {})
        return tuple(r)
    ck.conform(key, s, code, lambda: tuple(p[1]() for p in parts), {f'v{i}' for i in range(len(every))}, R_FLAT)
