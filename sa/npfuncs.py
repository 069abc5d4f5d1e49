"""Models of the numpy / scipy functions."""
import itertools
from fractions import Fraction

from . import terms as tm
from .terms import T, num, TRUE, FALSE, ite, and_, or_, not_
from .values import *  # noqa
from .values import conc, canon_dim, same
from .npcore import *  # noqa
from . import npcore as nc

MODELS = {}


def model(names, sig=None):
    def deco(f):
        for n in names.split():
            MODELS[n] = (f, sig)
        return f
    return deco


class Bad(Exception):
    pass


def parse(sig, args, kw):
    """bind library call arguments; None when they do not match the modelled signature"""
    names = []
    dfl = {}
    for p in sig.split():
        if '=' in p:
            n, d = p.split('=')
            dfl[n] = {'None': None, 'True': True, 'False': False}.get(d, None)
            if d not in ('None', 'True', 'False'):
                try:
                    dfl[n] = int(d)
                except ValueError:
                    dfl[n] = num(float(d)) if d.replace('.', '').replace('-', '').isdigit() else d
            names.append(n)
        else:
            names.append(p)
    if len(args) > len(names):
        return None
    out = dict(dfl)
    for n, a in zip(names, args):
        out[n] = a
    for k, a in kw.items():
        if k not in names:
            return None
        out[k] = a
    for n in names:
        if n not in out:
            return None
    return out


# ---------------------------------------------------------------- helpers
def ints(I, v):
    """list of python ints from an int / tuple / list / array, else None"""
    v = I.resolve(v)
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return [v]
    if isinstance(v, T):
        return [int(v.args[0])] if v.op == 'num' and v.args[0].denominator == 1 else None
    it = I.items(v)
    if it is None:
        return None
    out = []
    for x in it:
        r = ints(I, x)
        if r is None or len(r) != 1:
            return None
        out += r
    return out


def dims(I, v):
    """shape argument -> tuple of dims or None"""
    v = I.resolve(v)
    if isinstance(v, int) and not isinstance(v, bool):
        return (v,)
    if isinstance(v, T):
        if not tm.isint(v):
            I.raise_('TypeError', 'non-integer shape')
        return (canon_dim(tm.tonum(v)),)
    if isinstance(v, Arr) and v.ndim == 0:
        return dims(I, scalar(I, v))
    it = I.items(v)
    if it is None:
        return None
    out = []
    for x in it:
        r = dims(I, x)
        if r is None or len(r) != 1:
            return None
        out += r
    return tuple(out)


def axes_of(I, axis, nd):
    if axis is None:
        return list(range(nd))
    r = ints(I, axis)
    if r is None:
        return None
    out = []
    for a in r:
        if not -nd <= a < nd:
            I.raise_('AxisError', f'axis {a} out of bounds for {nd}')
        out.append(a % nd)
    return out


def one(I, v):
    """numeric scalar or None"""
    v = I.resolve(v)
    if isinstance(v, Arr) and v.ndim == 0:
        v = scalar(I, v)
    if isinstance(v, Arr) and size_of(v) == 1:
        v = read(I, v, [0] * v.ndim)
    return v if isnumeric(v) else None


def dtype_arg(I, d):
    d = I.resolve(d)
    if d is None:
        return None
    n = d.name if isinstance(d, Builtin) else d if isinstance(d, str) else ''
    n = n.split('.')[-1]
    if n.startswith('float') or n in ('f', 'f8', 'double', 'd', 'inexact', 'floating'):
        return 'f'
    if n.startswith('int') or n.startswith('uint') or n in ('i', 'i8', 'intp'):
        return 'i'
    if n.startswith('bool'):
        return 'b'
    if n in ('object', 'object_', 'O'):
        return 'o'
    if isinstance(d, Ext) and d.kind == 'dtype':
        return d.info['dt']
    return None


def reduce_(I, arr, axis, fold, keepdims=False, dtype='f'):
    """fold(list of (kind 'conc' values) ...) generic reduction: fold(vals, vs, dims) -> T"""
    ax = axes_of(I, axis, arr.ndim)
    if ax is None:
        return Opaque('axis')
    keep = [k for k in range(arr.ndim) if k not in ax]
    shape = [arr.shape[k] for k in keep]
    if keepdims:
        shape = [1 if k in ax else arr.shape[k] for k in range(arr.ndim)]

    def f(idx):
        src = [None] * arr.ndim
        if keepdims:
            for k in keep:
                src[k] = idx[k]
        else:
            for k, i in zip(keep, idx):
                src[k] = i
        vs, ds, rngs = [], [], []
        for k in ax:
            if conc(arr.shape[k]):
                rngs.append((k, range(arr.shape[k])))
            else:
                v = tm.fresh('r', D(arr.shape[k]))
                vs.append(v)
                ds.append(D(arr.shape[k]))
                src[k] = v
        vals = []
        for c in itertools.product(*[r for _, r in rngs]):
            for (k, _), j in zip(rngs, c):
                src[k] = j
            x = read(I, arr, src)
            if not isnumeric(x):
                return Opaque('reduction')
            vals.append(I.T(x))
        return fold(vals, vs, ds)
    if not shape:
        return f([])
    return build(I, shape, f, dtype)


def bindv(kind):
    def g(v, vs, ds):
        return tm.bind(kind, vs, ds, v) if vs else v
    return g


def f_sum(vals, vs, ds):
    s = tm.add(*vals) if vals else tm.ZERO
    return tm.bind('sum', vs, ds, s) if vs else s


def f_prod(vals, vs, ds):
    s = tm.mul(*vals) if vals else tm.ONE
    return tm.bind('prod', vs, ds, s) if vs else s


def f_mm(kind):
    def g(vals, vs, ds):
        s = tm.minmax_(kind, *vals)
        return tm.bind(kind, vs, ds, s) if vs else s
    return g


def f_any(vals, vs, ds):
    s = or_(*[tm.truth(v) for v in vals]) if vals else FALSE
    return tm.bind('any', vs, ds, s) if vs else s


def f_all(vals, vs, ds):
    s = and_(*[tm.truth(v) for v in vals]) if vals else TRUE
    return tm.bind('all', vs, ds, s) if vs else s


def arr_or(I, v):
    v = as_arr(I, v)
    return v


def red(I, v, axis, fold, keepdims, dtype='f'):
    a = as_arr(I, v)
    if isinstance(a, Opaque):
        return Opaque('reduction')
    k = I.truth(keepdims) is TRUE if keepdims is not None else False
    return reduce_(I, a, axis, fold, k, dtype)


def nonempty(I, v, axis):
    a = as_arr(I, v)
    if isinstance(a, Arr):
        ax = axes_of(I, axis, a.ndim)
        if ax is not None:
            n = mulT([a.shape[k] for k in ax])
            c = eqd(I, n, 0)
            if c is not FALSE:
                I.raise_if(c, 'ValueError', 'zero-size array to reduction')
    return a


def pyb(v):
    return True if v is TRUE else False if v is FALSE else v


@model('numpy.sum numpy.nansum numpy.add.reduce', 'a axis=None dtype=None out=None keepdims=False')
def m_sum(I, a, axis, dtype, out, keepdims):
    arr = as_arr(I, a)
    if isinstance(arr, Opaque):
        return Opaque('sum')
    return red(I, arr, axis, f_sum, keepdims, 'i' if arr.dtype in 'ib' else arr.dtype)


@model('numpy.prod numpy.product numpy.multiply.reduce', 'a axis=None dtype=None out=None keepdims=False')
def m_prod(I, a, axis, dtype, out, keepdims):
    return red(I, a, axis, f_prod, keepdims)


def compact(I, arr, limit=60):
    """an array of long computations with the elements named by their contents"""
    if not isinstance(arr, Arr) or arr.dtype in 'ob' or all(conc(n) for n in arr.shape):
        return arr
    idx = [0 if conc(n) else tm.fresh('p', D(n)) for n in arr.shape]
    x = read(I, arr, idx)
    if not isinstance(x, T) or len(tm.find(x, lambda y: True)) < limit:
        return arr
    from . import npfuncs2 as n2
    lo, _, hi, _ = tm.interval(x)
    info = {}
    if all(not conc(n) for n in arr.shape):
        if lo > tm.NEGINF:
            info['lo'] = lo
        if hi < tm.POSINF:
            info['hi'] = hi
    return n2.folded(I, 'big', n2.libkey(I, arr), arr, **info)


def mm(kind):
    def g(I, a, axis, out, keepdims):
        arr = nonempty(I, a, axis)
        if isinstance(arr, Opaque):
            return arr
        arr = compact(I, arr)
        return red(I, arr, axis, f_mm(kind), keepdims, arr.dtype)
    return g


for _k, _n in (('min', 'numpy.min numpy.amin numpy.nanmin numpy.minimum.reduce'),
               ('max', 'numpy.max numpy.amax numpy.nanmax numpy.maximum.reduce')):
    model(_n, 'a axis=None out=None keepdims=False')(mm(_k))


@model('numpy.ptp', 'a axis=None')
def m_ptp(I, a, axis):
    return binop(I, 'Sub', mm('max')(I, a, axis, None, False), mm('min')(I, a, axis, None, False))


@model('numpy.any numpy.logical_or.reduce', 'a axis=None out=None keepdims=False')
def m_any(I, a, axis, out, keepdims):
    return pyb(red(I, a, axis, f_any, keepdims, 'b'))


@model('numpy.all numpy.alltrue numpy.logical_and.reduce', 'a axis=None out=None keepdims=False')
def m_all(I, a, axis, out, keepdims):
    return pyb(red(I, a, axis, f_all, keepdims, 'b'))


@model('numpy.count_nonzero', 'a axis=None keepdims=False')
def m_cnz(I, a, axis, keepdims):
    def fold(vals, vs, ds):
        return f_sum([tm.tonum(tm.truth(v)) for v in vals], vs, ds)
    return red(I, a, axis, fold, keepdims, 'i')


def cnt(arr, ax):
    return D(mulT([arr.shape[k] for k in ax]))


@model('numpy.mean numpy.nanmean', 'a axis=None dtype=None out=None keepdims=False')
def m_mean(I, a, axis, dtype, out, keepdims):
    arr = as_arr(I, a)
    if isinstance(arr, Opaque):
        return arr
    ax = axes_of(I, axis, arr.ndim)
    s = red(I, arr, axis, f_sum, keepdims)
    return binop(I, 'Div', s, cnt(arr, ax))


@model('numpy.average', 'a axis=None weights=None returned=False keepdims=False')
def m_average(I, a, axis, weights, returned, keepdims):
    if weights is None:
        return m_mean(I, a, axis, None, None, keepdims)
    w = as_arr(I, weights)
    arr = as_arr(I, a)
    if isinstance(w, Opaque) or isinstance(arr, Opaque):
        return Opaque('average')
    if w.ndim != arr.ndim:
        if w.ndim == 1 and axis is not None:
            ax = axes_of(I, axis, arr.ndim)
            m = [tm.ZERO]
            m = [ov(ax[0])]
            sh = [1] * arr.ndim
            sh[ax[0]] = w.shape[0]
            w = view(w, sh, m)
            w = broadcast_to(I, w, arr.shape)
        else:
            I.raise_('TypeError', 'axis must be specified')
    return binop(I, 'Div', red(I, binop(I, 'Mult', arr, w), axis, f_sum, keepdims), red(I, w, axis, f_sum, keepdims))


@model('numpy.var numpy.nanvar', 'a axis=None dtype=None out=None ddof=0 keepdims=False')
def m_var(I, a, axis, dtype, out, ddof, keepdims):
    arr = as_arr(I, a)
    if isinstance(arr, Opaque):
        return arr
    mu = m_mean(I, arr, axis, None, None, True)
    d = binop(I, 'Sub', arr, mu)
    ax = axes_of(I, axis, arr.ndim)
    return binop(I, 'Div', red(I, binop(I, 'Mult', d, d), axis, f_sum, keepdims), binop(I, 'Sub', cnt(arr, ax), ddof))


@model('numpy.std numpy.nanstd', 'a axis=None dtype=None out=None ddof=0 keepdims=False')
def m_std(I, a, axis, dtype, out, ddof, keepdims):
    return un(I, tm.sqrt, m_var(I, a, axis, dtype, out, ddof, keepdims))


def along(I, arr, axis, idx):
    """(lam of the 1-d slice through idx along axis, dim)"""
    v = tm.fresh('l', D(arr.shape[axis]))
    src = list(idx)
    src[axis] = v
    x = read(I, arr, src)
    if not isnumeric(x):
        return None
    return tm.lam([v], [D(arr.shape[axis])], tm.tonum(I.T(x)))


def stat1(I, a, axis, keepdims, mk):
    """order statistics: uninterpreted function of the slice"""
    arr = as_arr(I, a)
    if isinstance(arr, Opaque):
        return arr
    ax = axes_of(I, axis, arr.ndim)
    if ax is None:
        return Opaque('axis')

    def fold(vals, vs, ds):
        if not vs:
            return mk(None, vals)
        return mk((vs, ds), vals)
    k = I.truth(keepdims) is TRUE
    return reduce_(I, arr, axis, fold, k)


def order_stat(name, *extra):
    def mk(b, vals):
        if b is None:
            if name == 'median' and len(vals) == 1:
                return vals[0]
            if name == 'median' and len(vals) == 2:
                return tm.div(tm.add(*vals), num(2))
            return tm.fn(name, *extra, *sorted(vals, key=lambda x: x.id))
        ls = [tm.lam(b[0], b[1], v) for v in vals]
        return tm.fn(name, *extra, *sorted(ls, key=lambda x: x.id))
    return mk


@model('numpy.median numpy.nanmedian', 'a axis=None out=None overwrite_input=False keepdims=False')
def m_median(I, a, axis, out, overwrite_input, keepdims):
    return stat1(I, a, axis, keepdims, order_stat('median'))


def pct(scale):
    def g(I, a, q, axis, keepdims, method, interpolation):
        qq = I.resolve(q)
        if isnumeric(qq):
            return stat1(I, a, axis, keepdims, order_stat('quantile', tm.mul(I.T(qq), num(scale))))
        qa = as_arr(I, qq)
        if isinstance(qa, Arr) and qa.ndim == 1 and conc(qa.shape[0]):
            rs = [g(I, a, read(I, qa, [k]), axis, keepdims, method, interpolation) for k in range(qa.shape[0])]
            return as_arr(I, tuple(rs))
        if isinstance(qa, Arr) and qa.ndim == 1:
            arr = as_arr(I, a)
            if isinstance(arr, Arr) and axis is None:
                return build(I, qa.shape, lambda i: g(I, arr, read(I, qa, i), None, False, None, None))
        return Opaque('percentile')
    return g


model('numpy.percentile numpy.nanpercentile', 'a q axis=None keepdims=False method=None interpolation=None')(pct(Fraction(1, 100)))
model('numpy.quantile numpy.nanquantile', 'a q axis=None keepdims=False method=None interpolation=None')(pct(1))


def argmm(kind):
    def g(I, a, axis, out, keepdims):
        arr = as_arr(I, a)
        if isinstance(arr, Opaque):
            return arr

        if axis is None:
            arr = reshape(I, arr, [-1])
            axis = 0
            if isinstance(arr, Opaque):
                return arr

        def fold(vals, vs, ds):
            if not vs and len(vals) <= 6:
                # index of the first extreme value
                best, bi = vals[0], tm.ZERO
                for k, v in enumerate(vals[1:], 1):
                    c = tm.lt(v, best) if kind == 'min' else tm.lt(best, v)
                    bi = ite(c, num(k), bi)
                    best = tm.minmax_(kind, best, v)
                return bi
            if vs and len(vals) == 1:
                return tm.fn('arg' + kind, tm.lam(vs, ds, vals[0]))
            return Opaque('arg' + kind)
        return reduce_(I, arr, axis, fold, I.truth(keepdims) is TRUE if keepdims is not None else False, 'i')
    return g


for _k in ('min', 'max'):
    model(f'numpy.arg{_k} numpy.nanarg{_k}', 'a axis=None out=None keepdims=False')(argmm(_k))


# ---------------------------------------------------------------- cumulative and ordering
def out_(I, out, r):
    if out is None:
        return r
    if isinstance(out, Arr) and not isinstance(r, Opaque):
        setitem(I, out, Ellipsis, r)
        return out
    if isinstance(out, Arr):
        smash(I, out, 'out')
        return out
    return r


def cum(kind):
    def g(I, a, axis, dtype, out):
        arr = compact(I, as_arr(I, a))
        if isinstance(arr, Opaque):
            return arr
        if axis is None:
            if arr.ndim != 1:
                arr = reshape(I, arr, [-1])
                if isinstance(arr, Opaque):
                    return arr
            axis = 0
        ax = axes_of(I, axis, arr.ndim)[0]

        def f(idx):
            i = idx[ax]
            if conc(arr.shape[ax]):
                xs = [read(I, arr, idx[:ax] + [k] + idx[ax + 1:]) for k in range(i + 1)]
                if not all(isnumeric(x) for x in xs):
                    return Opaque('cumulative')
                xs = [I.T(x) for x in xs]
                return tm.add(*xs) if kind == 'sum' else tm.mul(*xs)
            n = tm.add(num(i), tm.ONE)
            v = tm.fresh('c', n)
            x = read(I, arr, idx[:ax] + [v] + idx[ax + 1:])
            if not isnumeric(x):
                return Opaque('cumulative')
            return tm.bind(kind, [v], [n], tm.tonum(I.T(x)))
        r = build(I, arr.shape, f, 'i' if arr.dtype in 'ib' else arr.dtype)
        return out_(I, out, r)
    return g


model('numpy.cumsum numpy.add.accumulate', 'a axis=None dtype=None out=None')(cum('sum'))
model('numpy.cumprod numpy.multiply.accumulate', 'a axis=None dtype=None out=None')(cum('prod'))


@model('numpy.diff', 'a n=1 axis=-1 prepend=None append=None')
def m_diff(I, a, n, axis, prepend, append):
    arr = as_arr(I, a)
    if isinstance(arr, Opaque):
        return arr
    if n != 1:
        if n == 0:
            return arr
        return m_diff(I, m_diff(I, a, 1, axis, prepend, append), n - 1, axis, None, None)
    if arr.ndim == 0:
        I.raise_('ValueError', 'diff requires input that is at least one dimensional')
    for x, first in ((prepend, True), (append, False)):
        if x is not None:
            xa = as_arr(I, x)
            if isinstance(xa, Opaque):
                return xa
            if xa.ndim == 0:
                xa = broadcast_to(I, atleast(I, xa, 1), (1,)) if arr.ndim == 1 else Opaque('prepend')
            if isinstance(xa, Opaque):
                return xa
            arr = concat(I, [xa, arr] if first else [arr, xa], axes_of(I, axis, arr.ndim)[0])
    ax = axes_of(I, axis, arr.ndim)[0]
    sh = list(arr.shape)
    sh[ax] = canon_dim(dim_sub(I, D(sh[ax]), tm.ONE))

    def f(idx):
        hi = list(idx)
        hi[ax] = idx[ax] + 1 if isinstance(idx[ax], int) else tm.add(idx[ax], tm.ONE)
        x, y = read(I, arr, hi), read(I, arr, idx)
        if not (isnumeric(x) and isnumeric(y)):
            return Opaque('diff')
        return tm.sub(tm.tonum(I.T(x)), I.T(y))
    return build(I, sh, f, arr.dtype)


def perm_index(I, arr, ax, idx):
    l = along(I, arr, ax, idx)
    if l is None:
        return None
    return tm.fn('perm', l, D(arr.shape[ax]), num(idx[ax]))


def sort_(I, a, axis):
    arr = compact(I, as_arr(I, a), 30)
    if isinstance(arr, Opaque):
        return arr
    if axis is None:
        arr = reshape(I, arr, [-1])
        axis = -1
        if isinstance(arr, Opaque):
            return arr
    ax = axes_of(I, axis, arr.ndim)[0]
    if arr.shape[ax] == 1 and isinstance(arr.shape[ax], int):
        return cast(I, arr, arr.dtype)
    if arr.ndim == 1 and conc(arr.shape[0]):
        xs = [read(I, arr, [k]) for k in range(arr.shape[0])]
        if all(isinstance(x, (int, bool)) or (isinstance(x, T) and tm.isnum(x)) for x in xs):
            ys = sorted(xs, key=lambda x: I.T(x).args[0])
            return build(I, arr.shape, lambda i: ys[i[0]], arr.dtype)

    def f(idx):
        p = perm_index(I, arr, ax, idx)
        if p is None:
            return Opaque('sort')
        src = list(idx)
        src[ax] = p
        return read(I, arr, src)
    return build(I, arr.shape, f, arr.dtype)


@model('numpy.sort', 'a axis=-1 kind=None order=None stable=None')
def m_sort(I, a, axis, kind, order, stable):
    return sort_(I, a, axis)


@model('numpy.argsort', 'a axis=-1 kind=None order=None stable=None')
def m_argsort(I, a, axis, kind, order, stable):
    arr = compact(I, as_arr(I, a), 30)
    if isinstance(arr, Opaque):
        return arr
    if axis is None:
        arr = reshape(I, arr, [-1])
        axis = -1
        if isinstance(arr, Opaque):
            return arr
    ax = axes_of(I, axis, arr.ndim)[0]

    def f(idx):
        p = perm_index(I, arr, ax, idx)
        return Opaque('argsort') if p is None else p
    return build(I, arr.shape, f, 'i')


def lam1(I, arr):
    v = tm.fresh('l', D(arr.shape[0]))
    x = read(I, arr, [v])
    return tm.lam([v], [D(arr.shape[0])], tm.tonum(I.T(x))) if isnumeric(x) else None


@model('numpy.searchsorted', 'a v side=left sorter=None')
def m_searchsorted(I, a, v, side, sorter):
    arr = compact(I, as_arr(I, a), 30)
    if isinstance(arr, Opaque) or arr.ndim != 1:
        return Opaque('searchsorted')
    l = lam1(I, arr)
    if l is None or sorter is not None:
        return Opaque('searchsorted')
    nm = 'ss_left' if side == 'left' else 'ss_right'
    return ewise(I, lambda x: tm.fn(nm, l, D(arr.shape[0]), x), [v], 'i')


@model('numpy.digitize', 'x bins right=False')
def m_digitize(I, x, bins, right):
    return m_searchsorted(I, bins, x, 'left' if right is True else 'right', None)


for _n in ('ss_left', 'ss_right'):
    tm.FN_INFO[_n] = {'iv': (0.0, False, float('inf'), False), 'int': True}


@model('numpy.interp', 'x xp fp left=None right=None period=None')
def m_interp(I, x, xp, fp, left, right, period):
    xa, fa = as_arr(I, xp), as_arr(I, fp)
    if isinstance(xa, Opaque) or isinstance(fa, Opaque):
        return Opaque('interp')
    if xa.ndim != 1 or fa.ndim != 1:
        I.raise_('ValueError', 'object too deep')
    l1, l2 = lam1(I, xa), lam1(I, fa)
    if l1 is None or l2 is None:
        return Opaque('interp')
    ex = []
    for y in (left, right, period):
        if y is not None:
            o = one(I, y)
            if o is None:
                return Opaque('interp')
            ex.append(I.T(o))
        else:
            ex.append(tm.NAN)
    if all(e is tm.NAN for e in ex):
        ex = []
    return ewise(I, lambda v: tm.fn('interp', v, l1, l2, D(xa.shape[0]), *ex), [x], 'f')


@model('numpy.unique', 'ar return_index=False return_inverse=False return_counts=False axis=None')
def m_unique(I, ar, **kw):
    return Opaque('unique')


# ---------------------------------------------------------------- elementwise
def un(I, f, v, dtype=None):
    return ewise(I, f, [v], dtype)


def unary_model(names, f, dtype='f'):
    @model(names, 'x out=None where=True dtype=None')
    def g(I, x, out, where, dtype):
        return out_(I, out, ewise(I, f, [x], dt))
    dt = dtype
    return g


unary_model('numpy.sqrt math.sqrt', tm.sqrt)
unary_model('numpy.exp math.exp', lambda x: tm.fn('exp', x))
unary_model('numpy.expm1', lambda x: tm.sub(tm.fn('exp', x), tm.ONE))
unary_model('numpy.log math.log', lambda x: tm.fn('log', x))
unary_model('numpy.log10 math.log10', lambda x: tm.fn('log10', x))
unary_model('numpy.log2 math.log2', lambda x: tm.fn('log2', x))
unary_model('numpy.log1p', lambda x: tm.fn('log', tm.add(tm.ONE, x)))
unary_model('numpy.square', lambda x: tm.mul(x, x), None)
unary_model('numpy.abs numpy.absolute numpy.fabs math.fabs', lambda x: tm.fn('abs', x), None)
unary_model('numpy.negative', lambda x: tm.neg(x), None)
unary_model('numpy.positive', lambda x: x, None)
unary_model('numpy.reciprocal', lambda x: tm.powr(x, -1))
unary_model('numpy.ceil', lambda x: tm.fn('ceil', x))
unary_model('numpy.floor', lambda x: tm.fn('floor', x))
unary_model('math.ceil', lambda x: tm.fn('ceil', x), 'i')
unary_model('math.floor', lambda x: tm.fn('floor', x), 'i')
unary_model('numpy.trunc numpy.fix math.trunc', lambda x: tm.fn('trunc', x))
unary_model('numpy.rint numpy.around numpy.round', lambda x: tm.fn('round', x))
unary_model('numpy.isfinite math.isfinite', lambda x: tm.fn('isfinite', x), 'b')
unary_model('numpy.isnan math.isnan', lambda x: tm.fn('isnan', x), 'b')
unary_model('numpy.isinf math.isinf', lambda x: tm.FALSE if tm.finite(x) else tm.TRUE if x in (tm.INF, tm.NINF) else tm.fn('isinf', x), 'b')
unary_model('numpy.logical_not numpy.invert numpy.bitwise_not', lambda x: not_(tm.truth(x)), 'b')
unary_model('numpy.sign', lambda x: ite(tm.lt(tm.ZERO, x), tm.ONE, ite(tm.lt(x, tm.ZERO), num(-1), tm.ZERO)), None)
unary_model('scipy.special.gamma math.gamma', lambda x: tm.fn('gamma', x))
unary_model('scipy.special.gammaln scipy.special.loggamma math.lgamma', lambda x: tm.fn('log', tm.fn('gamma', x)))
unary_model('numpy.cbrt', lambda x: tm.powr(x, Fraction(1, 3)))
for _f in ('sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'tanh', 'sinh', 'cosh', 'deg2rad', 'rad2deg'):
    unary_model(f'numpy.{_f} math.{_f}', (lambda n: lambda x: tm.fn(n, x))(_f))
unary_model('scipy.special.erf math.erf', lambda x: tm.fn('erf', x))


@model('numpy.round numpy.around', 'a decimals=0 out=None')
def m_round(I, a, decimals, out):
    if decimals == 0:
        return ewise(I, lambda x: tm.fn('round', x), [a], 'f')
    return Opaque('round')


@model('scipy.special.beta', 'a b')
def m_beta(I, a, b):
    return ewise(I, lambda x, y: tm.fn('beta', x, y), [a, b], 'f')


@model('math.pow', 'x y')
def m_mpow(I, x, y):
    return binop(I, 'Pow', x, y)


@model('math.factorial', 'x')
def m_fact(I, x):
    return ewise(I, lambda v: tm.fn('gamma', tm.add(v, tm.ONE)), [x], 'i')


@model('math.prod', 'x start=1')
def m_mprod(I, x, start):
    return binop(I, 'Mult', red(I, x, None, f_prod, False), start)


@model('math.hypot numpy.hypot', 'x y')
def m_hypot(I, x, y):
    return ewise(I, lambda a, b: tm.sqrt(tm.add(tm.mul(a, a), tm.mul(b, b))), [x, y], 'f')


def bin_model(names, op):
    @model(names, 'x1 x2 out=None where=True dtype=None')
    def g(I, x1, x2, out, where, dtype):
        r = I.splitn([x1, x2], lambda vs: binop(I, op, vs[0], vs[1], np_=True))
        return out_(I, out, r)


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide numpy.true_divide', 'Div'),
               ('power numpy.float_power', 'Pow'), ('floor_divide', 'FloorDiv'), ('mod numpy.remainder', 'Mod'),
               ('logical_and numpy.bitwise_and', 'BitAnd'), ('logical_or numpy.bitwise_or', 'BitOr'),
               ('logical_xor numpy.bitwise_xor', 'BitXor')):
    bin_model('numpy.' + _n, _o)


def cmp_model(name, op):
    @model('numpy.' + name, 'x1 x2 out=None')
    def g(I, x1, x2, out):
        return out_(I, out, compare_arr(I, op, x1, x2))


for _n, _o in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    cmp_model(_n, _o)


def mm2(kind):
    def g(I, x1, x2, out):
        return out_(I, out, ewise(I, lambda a, b: tm.minmax_(kind, a, b), [x1, x2]))
    return g


model('numpy.maximum numpy.fmax', 'x1 x2 out=None')(mm2('max'))
model('numpy.minimum numpy.fmin', 'x1 x2 out=None')(mm2('min'))


@model('numpy.clip', 'a a_min=None a_max=None out=None min=None max=None')
def m_clip(I, a, a_min, a_max, out, min, max):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max

    def go(vs):
        lo, hi = vs
        r = a
        if lo is not None:
            r = ewise(I, lambda x, y: tm.minmax_('max', x, y), [r, lo])
        if hi is not None:
            r = ewise(I, lambda x, y: tm.minmax_('min', x, y), [r, hi])
        return r
    r = I.splitn([lo, hi], go)
    return out_(I, out, r)


@model('numpy.where', 'condition x=None y=None')
def m_where(I, condition, x, y):
    if x is None and y is None:
        return m_nonzero(I, condition)
    dt = join_dt(dt_of(I.resolve(x)), dt_of(I.resolve(y)))
    return ewise(I, lambda c, a, b: ite(tm.truth(c), a, b), [condition, x, y], dt)


def masked(I, c, x):
    """masked cells are NaN: neither is drawn"""
    return ewise(I, lambda c, a: ite(tm.truth(c), tm.NAN, tm.tonum(a)), [c, x], 'f')


@model('numpy.ma.masked_where', 'condition a copy=True')
def m_masked_where(I, condition, a, copy):
    return masked(I, condition, a)


for _n, _op in (('less', lambda a, b: tm.lt(a, b)), ('less_equal', lambda a, b: tm.le(a, b)), ('greater', lambda a, b: tm.lt(b, a)),
                ('greater_equal', lambda a, b: tm.le(b, a)), ('equal', lambda a, b: tm.eq(a, b)), ('not_equal', lambda a, b: tm.not_(tm.eq(a, b)))):
    model('numpy.ma.masked_' + _n, 'x value copy=True')(
        lambda I, x, value, copy, op=_op: masked(I, ewise(I, lambda a, b: op(tm.tonum(a), tm.tonum(b)), [x, value], 'b'), x))


@model('numpy.ma.masked_invalid', 'a copy=True')
def m_masked_invalid(I, a, copy):
    return as_arr(I, a, copy=True)


@model('numpy.select', 'condlist choicelist default=0')
def m_select(I, condlist, choicelist, default):
    r = default
    cs, vs = I.items(condlist), I.items(choicelist)
    if cs is None or vs is None:
        return Opaque('select')
    for c, v in reversed(list(zip(cs, vs))):
        r = m_where(I, c, v, r)
    return r


@model('numpy.nonzero', 'a')
def m_nonzero(I, a):
    arr = as_arr(I, a)
    if isinstance(arr, Opaque):
        return arr
    if arr.dtype != 'b':
        arr = cast(I, arr, 'b')
    r = mask_index(I, arr)
    if r is None:
        return Opaque('nonzero')
    n, pick, _ = r
    return tuple(build(I, (n,), lambda i, k=k: pick(i[0])[k], 'i') for k in range(arr.ndim))


@model('numpy.flatnonzero', 'a')
def m_flatnonzero(I, a):
    arr = as_arr(I, a)
    if isinstance(arr, Opaque):
        return arr
    return m_nonzero(I, reshape(I, arr, [-1]))[0]


def isclose_t(a, b, rt=num(Fraction(1, 10**5)), at=num(Fraction(1, 10**8))):
    if a is b:
        return TRUE
    a, b = tm.tonum(a), tm.tonum(b)
    if all(tm.isnum(x) for x in (a, b, rt, at)):
        x, y = a.args[0], b.args[0]
        return TRUE if abs(x - y) <= at.args[0] + rt.args[0] * abs(y) else FALSE
    if a in (tm.INF, tm.NINF) or b in (tm.INF, tm.NINF):
        return FALSE
    return tm.mk('bsym', 'isclose', (a, b, rt, at))


@model('numpy.isclose', 'a b rtol=None atol=None equal_nan=False')
def m_isclose(I, a, b, rtol, atol, equal_nan):
    return ewise(I, isclose_t, [a, b, 1e-5 if rtol is None else rtol, 1e-8 if atol is None else atol], 'b')


@model('numpy.allclose', 'a b rtol=None atol=None equal_nan=False')
def m_allclose(I, a, b, rtol, atol, equal_nan):
    return m_all(I, m_isclose(I, a, b, rtol, atol, False), None, None, False)


@model('numpy.array_equal', 'a b equal_nan=False')
def m_array_equal(I, a, b, equal_nan):
    x, y = as_arr(I, a), as_arr(I, b)
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        return Opaque('array_equal')
    if x.ndim != y.ndim:
        return False
    c = and_(*[eqd(I, p, q) for p, q in zip(x.shape, y.shape)])
    if c is FALSE:
        return False
    if c is not TRUE:
        return tm.mk('bsym', 'array_equal', (c,))
    return m_all(I, compare_arr(I, 'Eq', x, y), None, None, False)


# ---------------------------------------------------------------- operators
def binop_t(op, a, b):
    if op == 'Add':
        if tm.isbool(a) and tm.isbool(b):
            return tm.add(a, b)
        return tm.add(a, b)
    if op == 'Sub':
        return tm.sub(tm.tonum(a), b)
    if op == 'Mult':
        return tm.mul(a, b)
    if op == 'Div':
        return tm.div(tm.tonum(a), tm.tonum(b))
    if op == 'Pow':
        return tm.powr(tm.tonum(a), tm.tonum(b))
    if op == 'FloorDiv':
        if not (tm.isint(tm.tonum(a)) and tm.isint(tm.tonum(b))):
            if tm.isnum(a) and tm.isnum(b) and b is not tm.ZERO:
                return num(a.args[0] // b.args[0])
            return tm.fn('floor', tm.div(tm.tonum(a), tm.tonum(b)))
        return tm.floordiv(tm.tonum(a), tm.tonum(b))
    if op == 'Mod':
        return tm.mod(tm.tonum(a), tm.tonum(b))
    if op == 'BitAnd':
        if tm.isbool(a) and tm.isbool(b):
            return and_(a, b)
        if tm.isbool(a) or tm.isbool(b):
            return and_(tm.truth(a), tm.truth(b))
        return tm.fn('bitand', a, b)
    if op == 'BitOr':
        return or_(tm.truth(a), tm.truth(b))
    if op == 'BitXor':
        return not_(tm.eq(tm.truth(a), tm.truth(b)))
    return None


def binop(I, op, a, b, np_=False):
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, Choice) or isinstance(b, Choice):
        return I.splitn([a, b], lambda vs: binop(I, op, vs[0], vs[1], np_))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('arithmetic')
    a, b = (nc.as_arr(I, x) if isinstance(x, Ext) and x.kind == 'flat' else x for x in (a, b))
    if isinstance(a, Ext) or isinstance(b, Ext):
        return Ext('value')
    if isinstance(a, str):
        if op == 'Add' and isinstance(b, str):
            return a + b if '<str>' not in (a, b) else '<str>'
        if op == 'Mod':
            return '<str>'
        if op == 'Mult' and isinstance(b, int):
            return a * b
        if op == 'Mult':
            return '<str>'
        if not isinstance(b, Arr):
            I.raise_('TypeError', 'unsupported operand')
    if isinstance(b, str) and not isinstance(a, Arr):
        if op == 'Mult' and isnumeric(a):
            return '<str>'
        I.raise_('TypeError', 'unsupported operand')
    la = isinstance(a, tuple) or (isinstance(a, Ref) and isinstance(I.get(a), LList))
    lb = isinstance(b, tuple) or (isinstance(b, Ref) and isinstance(I.get(b), LList))
    if not np_ and not isinstance(a, Arr) and not isinstance(b, Arr):
        if la and lb and op == 'Add':
            ia, ib = I.items(a), I.items(b)
            if ia is None or ib is None:
                return I.newlist([Opaque('list')], kind='varlen')
            if isinstance(a, tuple) and isinstance(b, tuple):
                return tuple(ia + ib)
            if isinstance(a, tuple) or isinstance(b, tuple):
                I.raise_('TypeError', 'can only concatenate')
            return I.newlist(ia + ib)
        if op == 'Mult' and (la and isnumeric(b) or lb and isnumeric(a)):
            l, n = (a, b) if la else (b, a)
            it = I.items(l)
            nn = ints(I, n)
            if it is None or nn is None:
                if it is not None and len(it) == 1 and isnumeric(n):
                    x = it[0]
                    return SymIter(I.T(n), lambda i: x)
                return I.newlist([Opaque('list')], kind='varlen')
            it = it * nn[0]
            return tuple(it) if isinstance(l, tuple) else I.newlist(it)
        if la or lb or a is None or b is None or isinstance(a, (Ref, Func)) or isinstance(b, (Ref, Func)):
            x = a if (la or a is None or isinstance(a, Ref)) else b
            if isinstance(x, Ref) and isinstance(I.get(x), LObj):
                return Opaque('operator')
            if (la and (isnumeric(b) and dt_of(b) == 'f' or b is None)) or a is None or b is None or la or lb:
                I.raise_('TypeError', f'unsupported operand types for {op}')
            return Opaque('operator')
    if op == 'MatMult':
        return MODELS['numpy.dot'][0](I, a, b, None)
    if op in ('LShift', 'RShift'):
        return Opaque('shift')
    f = lambda x, y: binop_t(op, x, y)      # noqa
    a2 = a if isnumeric(a) or isinstance(a, Arr) else as_arr(I, a)
    b2 = b if isnumeric(b) or isinstance(b, Arr) else as_arr(I, b)
    if isinstance(a2, Opaque) or isinstance(b2, Opaque):
        return Opaque('arithmetic')
    if isnumeric(a2) and isnumeric(b2):
        r = f(I.T(a2), I.T(b2))
        if isinstance(a2, (int,)) and isinstance(b2, int) and not isinstance(a2, bool) and tm.isnum(r) and \
                r.args[0].denominator == 1 and op in ('Add', 'Sub', 'Mult', 'FloorDiv', 'Mod', 'Pow'):
            return int(r.args[0])
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return pyb(r)
        return r
    if any(isinstance(x, Arr) and x.dtype == 'o' for x in (a2, b2)):
        def bad(xs):
            if any(x is None for x in xs):
                I.raise_('TypeError', 'None in arithmetic')
            return Opaque('object element')
        f.obj = bad
    dt = join_dt(dt_of(a2), dt_of(b2))
    if op == 'Div' and dt != 'o':
        dt = 'f'
    elif op == 'Pow' and dt in 'ib':
        e = b2
        dt = 'i' if dt_of(e) in 'ib' else 'f'
    elif op in ('BitAnd', 'BitOr', 'BitXor') and 'b' in (dt_of(a2), dt_of(b2)):
        dt = 'b'
    elif op in ('Add', 'Sub', 'Mult') and dt == 'b':
        dt = 'i' if op != 'Sub' else 'b'
    return ewise(I, f, [a2, b2], dt)


CMP = {'Lt': lambda a, b: tm.lt(a, b), 'LtE': lambda a, b: tm.le(a, b), 'Gt': lambda a, b: tm.lt(b, a),
       'GtE': lambda a, b: tm.le(b, a), 'Eq': lambda a, b: tm.eq(a, b), 'NotEq': lambda a, b: not_(tm.eq(a, b))}


def compare_arr(I, op, a, b):
    f = lambda x, y: CMP[op](x, y)      # noqa

    def obj(xs):
        x, y = xs
        if op in ('Eq', 'NotEq'):
            if x is None or y is None or isinstance(x, str) or isinstance(y, str):
                if isinstance(x, Opaque) or isinstance(y, Opaque):
                    return Opaque('compare')
                e = same(x, y)
                return e if op == 'Eq' else not e
            return Opaque('compare')
        if x is None or y is None:
            I.raise_('TypeError', 'comparison with None')
        return Opaque('compare')
    f.obj = obj
    if a is None or isinstance(a, str):
        a0 = a
        a = build(I, (), lambda i: a0, 'o')
    if b is None or isinstance(b, str):
        b0 = b
        b = build(I, (), lambda i: b0, 'o')
    r = ewise(I, f, [a, b], 'b')
    return r


def unary(I, op, v):
    if isinstance(v, Opaque):
        return Opaque('unary')
    if isinstance(v, Ext):
        return Ext('value')
    if op == 'UAdd':
        return v
    if op == 'USub':
        if isinstance(v, int) and not isinstance(v, bool):
            return -v
        if not (isnumeric(v) or isinstance(v, Arr)):
            I.raise_('TypeError', 'bad operand for unary -')
        return un(I, tm.neg, v)
    if op == 'Invert':
        if isinstance(v, bool):
            return ~v
        if isinstance(v, int):
            return ~v
        if not (isnumeric(v) or isinstance(v, Arr)):
            I.raise_('TypeError', 'bad operand for unary ~')
        if isinstance(v, Arr) and v.dtype != 'b':
            return Opaque('invert')
        return un(I, lambda x: not_(tm.truth(x)), v, 'b')
    return Opaque('unary')
