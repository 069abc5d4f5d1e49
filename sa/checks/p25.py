"""P25: a KDE made from a histogram represents every bin at its centre with its own count."""
from .common import *  # noqa

RULE = 'value number of the density equals that of the bin centres, each weighted with the content of its own bin'
R_SAME = 'value number of the density equals that of the constructor given the bin centres and the bin contents'


def run(ck):
    w = ck.world()
    for D in (1, 2, 3):
        for kern in ('gaussian', 'box', 'parabola', 'triweight') if D < 3 else ('gaussian',):
            ck.case(f'default bandwidth D={D} {kern}', RULE, plain, w, D, kern, 'array')
        ck.case(f'default bandwidth D={D} lists', RULE, plain, w, D, 'gaussian', 'list')
        ck.case(f'default bandwidth D={D} whole numbers', RULE, plain, w, D, 'gaussian', 'int')
        ck.case(f'default bandwidth D={D} as many bins in every dimension', RULE, plain, w, D, 'gaussian', 'square')
        ck.case(f'default bandwidth D={D} empty bins', RULE, plain, w, D, 'gaussian', 'zero')
        for bw in ('number', 'scott', 'silverman', 'matrix', 'none') + (('vector', 'list') if D > 1 else ('vector',)):
            ck.case(f'bandwidth {bw} D={D}', R_SAME, same, w, D, bw, ())
        for opt in ('kernel', 'covariance', 'neff', 'diagonal', 'bw_rescale', 'reflect', 'points'):
            if D < 3:
                ck.case(f'{opt} passed on D={D}', R_SAME, same, w, D, 'number', (opt,))
        ck.case(f'arguments by position D={D}', R_SAME, same, w, D, 'number', ('position',))
        ck.case(f'covariance with the default bandwidth D={D}', R_SAME, same, w, D, 'default', ('covariance',))


def bins(s, D):
    n = [s.int(f'G{d}', 3) for d in range(D)]
    return n, [s.arr(f'e{d}', (n[d],), sorted=True) for d in range(D)]


def names(D):
    return {'hist', 'pts', 'M'} | {f'{c}{d}' for d in range(D) for c in 'eG'}


SIZES = {'G0': 4, 'G1': 3, 'G2': 3}


def sizes(D):
    return {'G0': 5, 'G1': 4} if D < 3 else dict(SIZES)


def plain(ck, key, w, D, kern, how):
    s = w.scenario()
    I = s.I
    if how in ('list', 'square'):
        n = [4, 3, 3][:D] if how == 'list' else [3] * D
        e = [s.arr(f'e{d}', (n[d],), sorted=True) for d in range(D)]
        b = [I.call(I.getattr(x, 'tolist'), [], {}) for x in e]
        h = s.arr('hist', tuple(x - 1 for x in n), lo=0, lo_open=True)
    else:
        n, e = bins(s, D)
        b = e
        sh = tuple(tm.sub(num(x), num(1)) for x in n)
        if how == 'int':
            h = s.arr('hist', sh, 'i', lo=1)
        elif how == 'zero':
            h = s.arr('hist', sh, lo=0, gen=lambda tb, ix: 0.0 if sum(ix) % 2 else 1.0 + 0.3 * ix[-1] + 0.7 * ix[0])
        else:
            h = s.arr('hist', sh, lo=0, lo_open=True)
    given = I.call(I.getattr(h, 'tolist'), [], {}) if how == 'list' else h
    pts = s.arr('pts', (s.int('M', 2),) if D == 1 else (D, s.int('M', 2)))
    p2 = I.np.call(I, Builtin('numpy.atleast_2d'), [pts], {})

    def code():
        o = I.call(I.getattr(s.get('kalepy.KDE'), 'from_hist'), [b[0] if D == 1 else s.list(b), given], {'kernel': kern})
        return item(s, I_call(s, o, 'density', [pts], {'probability': TRUE}), 1)

    def spec():
        return I.call(s.get('spec.histogram_pdf'), [p2, tuple(e), h, kern], {})
    ck.conform(key, s, code, spec, names(D), RULE, over=sizes(D))


def same(ck, key, w, D, bw, opts):
    s = w.scenario()
    I = s.I
    n, e = bins(s, D)
    h = s.arr('hist', tuple(tm.sub(num(x), num(1)) for x in n), lo=0, lo_open=True)
    M = s.int('M', 2)
    pts = s.arr('pts', (M,) if D == 1 else (D, M))
    b = e[0] if D == 1 else s.list(e)
    arg = {'number': lambda: s.num('h', lo=0, lo_open=True), 'scott': lambda: 'scott', 'silverman': lambda: 'silverman', 'none': lambda: None,
           'vector': lambda: s.arr('h', (D,), lo=0, lo_open=True),
           'list': lambda: s.list([s.num(f'h{d}', lo=0, lo_open=True) for d in range(D)]),
           'matrix': lambda: s.arr('h', (D, D), lo=0, lo_open=True, gen=lambda tb, ix: 0.9 + 0.1 * ix[0] if ix[0] == ix[1] else 0.3),
           'default': lambda: 'bin width'}[bw]()
    kw = {}
    if 'kernel' in opts:
        kw['kernel'] = 'box'
    if 'covariance' in opts:
        kw['covariance'] = Case(s, D).cov
    if 'neff' in opts:
        kw['neff'] = s.num('nf', lo=2)
        arg = 'scott'
    if 'diagonal' in opts:
        kw['diagonal'] = TRUE
    if 'bw_rescale' in opts:
        kw['bw_rescale'] = s.num('r', lo=0, lo_open=True)
    if 'reflect' in opts:
        kw['reflect'] = s.list([s.list([s.num(f'lo{d}', hi=-6), None]) for d in range(D)])
    if 'points' in opts:
        kw['points'] = pts
    extra = []
    if 'position' in opts:
        extra = ['parabola', None, None, None, Case(s, D).cov]

    def value(o):
        if D > 1 and not opts and bw != 'number':
            w_ = I.getattr(o, 'weights')
            return s.list([I.getattr(o, 'dataset'), I.call(s.get('spec.divide'), [w_, I.np.call(I, Builtin('numpy.sum'), [w_], {})], {}), I.getattr(I.getattr(o, 'kernel'), 'matrix'), I.getattr(o, 'neff')])
        q = [] if 'points' in opts else [pts]
        return item(s, I_call(s, o, 'density', q, {'probability': TRUE}), 1)

    def code():
        a = [b, h] if bw == 'default' else [b, h, arg]
        if extra:
            # the arguments of the constructor that follow the weights
            a = a + extra
        return value(I.call(I.getattr(s.get('kalepy.KDE'), 'from_hist'), a, dict(kw)))

    def spec():
        c = I.call(s.get('spec.bin_centres'), [tuple(e)], {})
        bwd = arg
        if bw == 'default':
            bwd = I.call(s.get('spec.mean_widths'), [tuple(e)], {})
        return value(I.call(s.get('kalepy.KDE'), [c, bwd, I.call(I.getattr(h, 'flatten'), [], {})] + extra, dict(kw)))
    ck.conform(key, s, code, spec, names(D) | {'h', 'h0', 'h1', 'h2', 'nf', 'r', 'c00', 'c11', 'c22', 'c01', 'c02', 'c12', 'lo0', 'lo1', 'lo2'}, R_SAME, over=sizes(D))
