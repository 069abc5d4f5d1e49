"""Models of numpy / scipy: construction, reshaping, linear algebra, random numbers."""
from .npfuncs import *   # noqa
from .npfuncs import model, MODELS, f_sum, red, un, pyb, lam1
import bisect as _bisect
import itertools as _it
import math
from . import npfuncs as nf


# ---------------------------------------------------------------- construction
@model('numpy.array', 'object dtype=None copy=True order=None subok=False ndmin=0')
def m_array(I, object, dtype, copy, order, subok, ndmin):
    dt = dtype_arg(I, dtype)
    if dtype is not None and dt is None:
        return Opaque('dtype')
    cp = copy is not False
    r = as_arr(I, object, copy=cp and isinstance(I.resolve(object), Arr), dtype=dt)
    if isinstance(r, Arr) and ndmin:
        r = atleast(I, r, ndmin)
    return r


@model('numpy.asarray numpy.asanyarray numpy.ascontiguousarray numpy.asfarray numpy.require', 'a dtype=None order=None copy=None')
def m_asarray(I, a, dtype, order, copy):
    dt = dtype_arg(I, dtype)
    if dtype is not None and dt is None:
        return Opaque('dtype')
    return as_arr(I, a, dtype=dt, copy=copy is True)


@model('numpy.copy', 'a order=None subok=False')
def m_copy(I, a, order, subok):
    r = as_arr(I, a)
    return cast(I, r, r.dtype) if isinstance(r, Arr) else r


for _n in (1, 2, 3):
    def _al(n):
        def g(I, a):
            r = as_arr(I, a)
            return atleast(I, r, n) if isinstance(r, Arr) else r
        return g
    model(f'numpy.atleast_{_n}d', 'a')(_al(_n))


def filled(val):
    def g(I, shape, dtype, order):
        sh = dims(I, shape)
        if sh is None:
            return Opaque('shape')
        for d in sh:
            I.raise_if(tm.lt(D(d), tm.ZERO), 'ValueError', 'negative dimensions')
        dt = dtype_arg(I, dtype) or 'f'
        if dtype is not None and dtype_arg(I, dtype) is None:
            return Opaque('dtype')
        if val is None:
            if dt == 'o':
                return build(I, sh, lambda i: None, 'o')
            return build(I, sh, lambda i: tm.sym('uninit', *i), dt)
        v = TRUE if val and dt == 'b' else FALSE if dt == 'b' else num(val)
        return build(I, sh, lambda i: v, dt)
    return g


model('numpy.zeros', 'shape dtype=None order=None')(filled(0))
model('numpy.ones', 'shape dtype=None order=None')(filled(1))
model('numpy.empty', 'shape dtype=None order=None')(filled(None))


def filled_like(val):
    def g(I, a, dtype, order, subok, shape):
        r = as_arr(I, a)
        if isinstance(r, Opaque):
            return r
        dt = dtype_arg(I, dtype) or r.dtype
        if val is None:
            return build(I, r.shape, lambda i: tm.sym('uninit', *i), dt)
        v = TRUE if val and dt == 'b' else FALSE if dt == 'b' else num(val)
        return build(I, r.shape, lambda i: v, dt)
    return g


model('numpy.zeros_like', 'a dtype=None order=None subok=None shape=None')(filled_like(0))
model('numpy.ones_like', 'a dtype=None order=None subok=None shape=None')(filled_like(1))
model('numpy.empty_like', 'a dtype=None order=None subok=None shape=None')(filled_like(None))


@model('numpy.full', 'shape fill_value dtype=None order=None')
def m_full(I, shape, fill_value, dtype, order):
    sh = dims(I, shape)
    v = as_arr(I, fill_value)
    if sh is None or isinstance(v, Opaque):
        return Opaque('full')
    dt = dtype_arg(I, dtype) or v.dtype
    return build(I, sh, lambda i: castv(I, bread(I, v, sh, i), dt), dt)


@model('numpy.full_like', 'a fill_value dtype=None order=None subok=None shape=None')
def m_full_like(I, a, fill_value, dtype, order, subok, shape):
    r, v = as_arr(I, a), as_arr(I, fill_value)
    if isinstance(r, Opaque) or isinstance(v, Opaque):
        return Opaque('full')
    dt = dtype_arg(I, dtype) or r.dtype
    return build(I, r.shape, lambda i: castv(I, bread(I, v, r.shape, i), dt), dt)


@model('numpy.eye numpy.identity', 'N M=None k=0 dtype=None')
def m_eye(I, N, M, k, dtype):
    sh = dims(I, N)
    s2 = dims(I, M) if M is not None else sh
    if sh is None or s2 is None:
        return Opaque('eye')
    return build(I, (sh[0], s2[0]), lambda i: ite(tm.eq(tm.sub(num(i[1]), num(i[0])), num(k)), tm.ONE, tm.ZERO), 'f')


@model('numpy.arange', 'start stop=None step=1 dtype=None')
def m_arange(I, start, stop, step, dtype):
    lo, hi = (0, start) if stop is None else (start, stop)
    lo, hi, st = one(I, lo), one(I, hi), one(I, step)
    if lo is None or hi is None or st is None:
        return Opaque('arange')
    lo, hi, st = I.T(lo), I.T(hi), I.T(st)
    dt = dtype_arg(I, dtype) or ('i' if all(tm.isint(x) for x in (lo, hi, st)) else 'f')
    if st is tm.ONE:
        n = dim_sub(I, hi, lo)
        if not tm.isint(n):
            n = tm.fn('ceil', n)
    else:
        n = tm.fn('ceil', tm.div(tm.sub(hi, lo), st))
        if not tm.isnum(n):
            n = tm.minmax_('max', n, tm.ZERO)
        elif n.args[0] < 0:
            n = tm.ZERO
    return build(I, (n,), lambda i: tm.add(lo, tm.mul(st, num(i[0]))), dt)


def big(*ts):
    n = 0
    for t in ts:
        if isinstance(t, T):
            n += len(tm.find(t, lambda x: True))
    return n > 60


def lin(I, start, stop, num_, endpoint, f):
    n = one(I, num_)
    a, b = I.resolve(start), I.resolve(stop)
    if n is None:
        return Opaque('linspace'), None
    n = I.T(n)
    if not tm.isint(n):
        I.raise_('TypeError', 'num must be an integer')
    a = a if isnumeric(a) else as_arr(I, a)
    b = b if isnumeric(b) else as_arr(I, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('linspace'), None
    a = scalar(I, a) if isinstance(a, Arr) and a.ndim == 0 else a
    b = scalar(I, b) if isinstance(b, Arr) and b.ndim == 0 else b
    ep = endpoint is not False
    den = tm.sub(n, tm.ONE) if ep else n
    if den is tm.ZERO:
        den = tm.ONE
    ash = a.shape if isinstance(a, Arr) else ()
    bsh = b.shape if isinstance(b, Arr) else ()
    sh = bshape(I, [ash, bsh]) if (ash or bsh) else ()

    def g(i):
        x, y = bread(I, a, sh, i[1:]), bread(I, b, sh, i[1:])
        if not (isnumeric(x) and isnumeric(y)):
            return Opaque('linspace')
        x, y = tm.tonum(I.T(x)), tm.tonum(I.T(y))
        return f(tm.add(x, tm.div(tm.mul(num(i[0]), tm.sub(y, x)), den)))
    if not sh and isnumeric(a) and isnumeric(b) and big(I.T(a), I.T(b), n):
        # a grid whose ends are themselves long computations is named by its contents
        lo, hi = tm.interval(n)[0], tm.interval(n)[2]
        key = libkey(I, a, b, n, f(tm.sym('lib_lin_probe')))
        if not tm.isnum(n):
            n0 = n
            n = tm.sym(libsym('dim', libkey(I, n), int=True, lo=max(0, lo), **({'hi': hi} if hi < math.inf else {}), expand=lambda i: n0))
            den = tm.sub(n, tm.ONE) if ep else n
        return folded(I, 'grid', key, build(I, (n,), g, 'f')), Opaque('step')
    r = build(I, (n,) + tuple(sh), g, 'f')
    step = tm.div(tm.sub(I.T(b), I.T(a)), den) if not sh and isnumeric(a) and isnumeric(b) else Opaque('step')
    return r, step


@model('numpy.linspace', 'start stop num=50 endpoint=True retstep=False dtype=None axis=0')
def m_linspace(I, start, stop, num, endpoint, retstep, dtype, axis):
    r, st = lin(I, start, stop, num, endpoint, lambda x: x)
    return (r, st) if retstep is True else r


@model('numpy.logspace', 'start stop num=50 endpoint=True base=10 dtype=None axis=0')
def m_logspace(I, start, stop, num, endpoint, base, dtype, axis):
    bb = one(I, base)
    return lin(I, start, stop, num, endpoint, lambda x: tm.powr(I.T(bb), x))[0]


@model('numpy.geomspace', 'start stop num=50 endpoint=True dtype=None axis=0')
def m_geomspace(I, start, stop, num, endpoint, dtype, axis):
    a, b = un(I, lambda x: tm.fn('log10', x), start), un(I, lambda x: tm.fn('log10', x), stop)
    return lin(I, a, b, num, endpoint, lambda x: tm.powr(tm.num(10), x))[0]


def m_meshgrid(I, args, kw):
    indexing = I.resolve(kw.pop('indexing', 'xy'))
    kw.pop('copy', None)
    if kw.pop('sparse', False) is not False or kw:
        return Opaque('meshgrid')
    arrs = []
    for a in args:
        if not isinstance(a, (Arr, Opaque, tuple, Ref)) and not isnumeric(a):
            return I.newlist([Opaque('meshgrid')], kind='varlen')
        x = as_arr(I, a)
        if isinstance(x, Opaque):
            return I.newlist([Opaque('meshgrid')] * len(args))
        x = atleast(I, x, 1)
        if x.ndim > 1:
            x = reshape(I, x, [-1])
        arrs.append(x)
    sh = [a.shape[0] for a in arrs]
    pos = list(range(len(arrs)))
    if indexing == 'xy' and len(arrs) >= 2:
        sh[0], sh[1] = sh[1], sh[0]
        pos[0], pos[1] = 1, 0
    elif indexing not in ('ij', 'xy'):
        if isinstance(indexing, str):
            I.raise_('ValueError', 'indexing')
        return I.newlist([Opaque('meshgrid')] * len(args))
    return I.newlist([build(I, sh, lambda i, a=a, p=p: read(I, a, [i[p]]), a.dtype) for a, p in zip(arrs, pos)])


MODELS['numpy.meshgrid'] = (m_meshgrid, '*')


@model('numpy.indices', 'dimensions dtype=None sparse=False')
def m_indices(I, dimensions, dtype, sparse):
    sh = dims(I, dimensions)
    if sh is None:
        return Opaque('indices')
    return build(I, (len(sh),) + sh, lambda i: num(i[1 + i[0]]), 'i')


# ---------------------------------------------------------------- shape queries
@model('numpy.shape', 'a')
def m_shape(I, a):
    sh = nested_shape(I, a)
    if sh == 'ragged':
        I.raise_('ValueError', 'inhomogeneous')
    if sh is None:
        r = as_arr(I, a)
        if isinstance(r, Arr):
            return r.shape
        return Opaque('shape')
    return tuple(sh)


@model('numpy.ndim', 'a')
def m_ndim(I, a):
    sh = m_shape(I, a)
    return len(sh) if isinstance(sh, tuple) else Opaque('ndim')


@model('numpy.size', 'a axis=None')
def m_size(I, a, axis):
    sh = m_shape(I, a)
    if not isinstance(sh, tuple):
        return Opaque('size')
    if axis is not None:
        return sh[axis]
    return mulT(sh)


@model('numpy.isscalar', 'element')
def m_isscalar(I, element):
    e = I.resolve(element)
    if isinstance(e, Opaque):
        return Opaque('isscalar')
    return isnumeric(e) or isinstance(e, str)


@model('numpy.iterable', 'y')
def m_iterable(I, y):
    y = I.resolve(y)
    if isinstance(y, Opaque):
        return Opaque('iterable')
    if isinstance(y, Arr):
        return y.ndim > 0
    return isinstance(y, (tuple, str, VRange, SymIter)) or (isinstance(y, Ref) and isinstance(I.get(y), (LList, LDict)))


@model('numpy.issubdtype', 'arg1 arg2')
def m_issubdtype(I, arg1, arg2):
    a = dtype_arg(I, arg1)
    b = I.resolve(arg2)
    n = b.name.split('.')[-1] if isinstance(b, Builtin) else None
    if a is None or n is None:
        return Opaque('issubdtype')
    if n in ('integer', 'int', 'int64', 'signedinteger'):
        return a == 'i'
    if n in ('floating', 'float', 'float64', 'inexact'):
        return a == 'f'
    if n == 'number':
        return a in 'if'
    if n in ('bool_', 'bool'):
        return a == 'b'
    return Opaque('issubdtype')


# ---------------------------------------------------------------- manipulation
@model('numpy.reshape', 'a newshape order=None')
def m_reshape(I, a, newshape, order):
    r = as_arr(I, a)
    sh = dims(I, newshape)
    if isinstance(r, Opaque) or sh is None:
        return Opaque('reshape')
    return reshape(I, r, sh)


@model('numpy.ravel', 'a order=None')
def m_ravel(I, a, order):
    r = as_arr(I, a)
    return reshape(I, r, [-1]) if isinstance(r, Arr) else r


@model('numpy.transpose', 'a axes=None')
def m_transpose(I, a, axes):
    r = as_arr(I, a)
    if isinstance(r, Opaque):
        return r
    p = list(range(r.ndim))[::-1] if axes is None else axes_of(I, axes, r.ndim)
    return transpose(r, p) if p is not None else Opaque('transpose')


@model('numpy.swapaxes', 'a axis1 axis2')
def m_swapaxes(I, a, axis1, axis2):
    r = as_arr(I, a)
    if isinstance(r, Opaque):
        return r
    x, y = axes_of(I, axis1, r.ndim)[0], axes_of(I, axis2, r.ndim)[0]
    p = list(range(r.ndim))
    p[x], p[y] = p[y], p[x]
    return transpose(r, p)


@model('numpy.moveaxis', 'a source destination')
def m_moveaxis(I, a, source, destination):
    r = as_arr(I, a)
    if isinstance(r, Opaque):
        return r
    s, d = axes_of(I, source, r.ndim), axes_of(I, destination, r.ndim)
    if s is None or d is None:
        return Opaque('moveaxis')
    order = [k for k in range(r.ndim) if k not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return transpose(r, order)


@model('numpy.rollaxis', 'a axis start=0')
def m_rollaxis(I, a, axis, start):
    r = as_arr(I, a)
    if isinstance(r, Opaque):
        return r
    ax = axes_of(I, axis, r.ndim)[0]
    order = [k for k in range(r.ndim) if k != ax]
    st = start if start <= ax else start - 1
    order.insert(st, ax)
    return transpose(r, order)


@model('numpy.squeeze', 'a axis=None')
def m_squeeze(I, a, axis):
    r = as_arr(I, a)
    if isinstance(r, Opaque):
        return r
    return squeeze(I, r, None if axis is None else axes_of(I, axis, r.ndim))


@model('numpy.expand_dims', 'a axis')
def m_expand(I, a, axis):
    r = as_arr(I, a)
    if isinstance(r, Opaque):
        return r
    ax = ints(I, axis)
    for x in sorted(x % (r.ndim + len(ax)) for x in ax):
        r = expand(r, x)
    return r


@model('numpy.broadcast_to', 'array shape subok=False')
def m_broadcast_to(I, array, shape, subok):
    r, sh = as_arr(I, array), dims(I, shape)
    if isinstance(r, Opaque) or sh is None:
        return Opaque('broadcast_to')
    return broadcast_to(I, r, sh)


def m_broadcast_arrays(I, args, kw):
    rs = [as_arr(I, a) for a in args]
    if any(isinstance(r, Opaque) for r in rs):
        return Opaque('broadcast_arrays')
    sh = bshape(I, [r.shape for r in rs])
    return I.newlist([broadcast_to(I, r, sh) for r in rs])


MODELS['numpy.broadcast_arrays'] = (m_broadcast_arrays, '*')


def concat(I, arrs, ax):
    n = arrs[0].ndim
    for a in arrs:
        if a.ndim != n:
            I.raise_('ValueError', 'dimensions must match')
    sh = list(arrs[0].shape)
    for a in arrs[1:]:
        for k in range(n):
            if k != ax:
                c = eqd(I, a.shape[k], sh[k])
                if c is not TRUE:
                    I.raise_if(not_(c), 'ValueError', 'dimensions must match')
    tot = tm.ZERO
    offs = []
    for a in arrs:
        offs.append(tot)
        tot = tm.add(tot, D(a.shape[ax]))
    sh[ax] = canon_dim(tot)

    def f(idx):
        i = num(idx[ax])
        r = None
        for a, off in reversed(list(zip(arrs, offs))):
            j = tm.sub(i, off)
            if tm.isnum(j):
                if not (0 <= j.args[0] and (not isinstance(a.shape[ax], int) or j.args[0] < a.shape[ax])):
                    continue
            src = list(idx)
            src[ax] = j
            c = I.decide(tm.lt(j, D(a.shape[ax])))
            if c is FALSE:
                continue
            v = read(I, a, src)
            r = v if r is None or c is TRUE else I.join_val(c, v, r)
        return r if r is not None else Opaque('concat')
    return build(I, sh, f, join_dt(*[a.dtype for a in arrs]))


def seq_arrs(I, v):
    v = I.resolve(v)
    if isinstance(v, Arr):
        if v.ndim and conc(v.shape[0]):
            return [as_arr(I, getitem(I, v, k)) for k in range(v.shape[0])]
        return None
    it = I.items(v)
    if it is None:
        return None
    rs = [as_arr(I, x) for x in it]
    if any(isinstance(r, Opaque) for r in rs):
        return None
    return rs


@model('numpy.concatenate', 'arrays axis=0 out=None dtype=None casting=None')
def m_concatenate(I, arrays, axis, out, dtype, casting):
    rs = seq_arrs(I, arrays)
    if rs is None:
        return Opaque('concatenate')
    if not rs:
        I.raise_('ValueError', 'need at least one array')
    if axis is None:
        rs = [reshape(I, r, [-1]) for r in rs]
        axis = 0
    if any(r.ndim == 0 for r in rs):
        I.raise_('ValueError', 'zero-dimensional arrays cannot be concatenated')
    if any(isinstance(r, Opaque) for r in rs):
        return Opaque('concatenate')
    return concat(I, rs, axes_of(I, axis, rs[0].ndim)[0])


@model('numpy.append', 'arr values axis=None')
def m_append(I, arr, values, axis):
    a, b = as_arr(I, arr), as_arr(I, values)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('append')
    if axis is None:
        a, b = reshape(I, a, [-1]), reshape(I, b, [-1])
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('append')
        return concat(I, [a, b], 0)
    return concat(I, [a, b], axes_of(I, axis, a.ndim)[0])


@model('numpy.stack', 'arrays axis=0 out=None')
def m_stack(I, arrays, axis, out):
    rs = seq_arrs(I, arrays)
    if rs is None:
        return Opaque('stack')
    ax = axis % (rs[0].ndim + 1)
    return concat(I, [expand(r, ax) for r in rs], ax)


@model('numpy.vstack numpy.row_stack', 'tup')
def m_vstack(I, tup):
    rs = seq_arrs(I, tup)
    if rs is None:
        return Opaque('vstack')
    return concat(I, [atleast(I, r, 2) for r in rs], 0)


@model('numpy.hstack', 'tup')
def m_hstack(I, tup):
    rs = seq_arrs(I, tup)
    if rs is None:
        return Opaque('hstack')
    rs = [atleast(I, r, 1) for r in rs]
    return concat(I, rs, 0 if rs[0].ndim == 1 else 1)


@model('numpy.column_stack', 'tup')
def m_column_stack(I, tup):
    rs = seq_arrs(I, tup)
    if rs is None:
        return Opaque('column_stack')
    return concat(I, [expand(r, 1) if r.ndim == 1 else r for r in rs], 1)


@model('numpy.delete', 'arr obj axis=None')
def m_delete(I, arr, obj, axis):
    a = as_arr(I, arr)
    ii = ints(I, obj)
    if isinstance(a, Opaque) or ii is None:
        return Opaque('delete')
    if axis is None:
        a = reshape(I, a, [-1])
        axis = 0
    ax = axes_of(I, axis, a.ndim)[0]
    d = a.shape[ax]
    if not conc(d):
        if len(ii) == 1 and ii[0] in (0, -1):
            s = Slice(1, None, None) if ii[0] == 0 else Slice(None, -1, None)
            v = getitem(I, a, tuple([Slice(None, None, None)] * ax + [s]))
            return cast(I, v, v.dtype)
        return Opaque('delete')
    for i in ii:
        if not -d <= i < d:
            I.raise_('IndexError', 'delete')
    keep = [k for k in range(d) if k not in [i % d for i in ii]]
    sh = list(a.shape)
    sh[ax] = len(keep)
    return build(I, sh, lambda i: read(I, a, i[:ax] + [keep[i[ax]]] + i[ax + 1:]), a.dtype)


@model('numpy.insert', 'arr obj values axis=None')
def m_insert(I, arr, obj, values, axis):
    a = as_arr(I, arr)
    k = ints(I, obj)
    v = as_arr(I, values)
    if isinstance(a, Opaque) or isinstance(v, Opaque) or k is None or len(k) != 1 or a.ndim != 1 or v.ndim > 0:
        return Opaque('insert')
    left = getitem(I, a, Slice(None, k[0], None)) if k[0] else None
    right = getitem(I, a, Slice(k[0], None, None))
    parts = [x for x in (left, atleast(I, v, 1), right) if x is not None]
    return concat(I, parts, 0)


@model('numpy.flip', 'm axis=None')
def m_flip(I, m, axis):
    a = as_arr(I, m)
    if isinstance(a, Opaque):
        return a
    ax = axes_of(I, axis, a.ndim)
    return getitem(I, a, tuple(Slice(None, None, -1) if k in ax else Slice(None, None, None) for k in range(a.ndim)))


model('numpy.flipud', 'm')(lambda I, m: m_flip(I, m, 0))
model('numpy.fliplr', 'm')(lambda I, m: m_flip(I, m, 1))


@model('numpy.tile', 'A reps')
def m_tile(I, A, reps):
    a, r = as_arr(I, A), dims(I, reps)
    if isinstance(a, Opaque) or r is None:
        return Opaque('tile')
    n = max(a.ndim, len(r))
    r = (1,) * (n - len(r)) + r
    while a.ndim < n:
        a = expand(a, 0)
    sh = [mulT([x, y]) for x, y in zip(a.shape, r)]
    return build(I, sh, lambda i: read(I, a, [tm.mod(num(x), D(d)) for x, d in zip(i, a.shape)]), a.dtype)


@model('numpy.repeat', 'a repeats axis=None')
def m_repeat(I, a, repeats, axis):
    r = as_arr(I, a)
    k = one(I, repeats)
    if isinstance(r, Opaque) or k is None:
        return Opaque('repeat')
    if axis is None:
        r = reshape(I, r, [-1])
        axis = 0
    ax = axes_of(I, axis, r.ndim)[0]
    sh = list(r.shape)
    sh[ax] = mulT([sh[ax], canon_dim(I.T(k))])
    return build(I, sh, lambda i: read(I, r, i[:ax] + [tm.floordiv(num(i[ax]), I.T(k))] + i[ax + 1:]), r.dtype)


@model('numpy.roll', 'a shift axis=None')
def m_roll(I, a, shift, axis):
    r = as_arr(I, a)
    k = ints(I, shift)
    if isinstance(r, Opaque) or k is None or r.ndim != 1:
        return Opaque('roll')
    n = D(r.shape[0])
    j = num(k[0])
    return build(I, r.shape, lambda i: read(I, r, [ite(tm.lt(num(i[0]), j), tm.add(tm.sub(num(i[0]), j), n), tm.sub(num(i[0]), j))])
                 if k[0] >= 0 else read(I, r, [ite(tm.lt(tm.sub(num(i[0]), j), n), tm.sub(num(i[0]), j), tm.sub(tm.sub(num(i[0]), j), n))]), r.dtype)


@model('numpy.pad', 'array pad_width mode=constant constant_values=0')
def m_pad(I, array, pad_width, mode, constant_values):
    a = as_arr(I, array)
    pw = as_arr(I, pad_width)
    cv = one(I, constant_values)
    if isinstance(a, Opaque) or isinstance(pw, Opaque) or mode != 'constant' or cv is None:
        return Opaque('pad')
    pw = broadcast_to(I, pw, (a.ndim, 2))
    lo = [read(I, pw, [k, 0]) for k in range(a.ndim)]
    hi = [read(I, pw, [k, 1]) for k in range(a.ndim)]
    if not all(isnumeric(x) for x in lo + hi):
        return Opaque('pad')
    lo, hi = [I.T(x) for x in lo], [I.T(x) for x in hi]
    sh = [canon_dim(tm.add(D(d), x, y)) for d, x, y in zip(a.shape, lo, hi)]

    def f(idx):
        c = TRUE
        src = []
        for i, l, d in zip(idx, lo, a.shape):
            j = tm.sub(num(i), l)
            if l is not tm.ZERO:
                c = and_(c, tm.le(tm.ZERO, j))
            c = and_(c, tm.lt(j, D(d)))
            src.append(j)
        c = I.decide(c)
        if c is FALSE:
            return castv(I, cv, a.dtype)
        return I.join_val(c, read(I, a, src), castv(I, cv, a.dtype)) if c is not TRUE else read(I, a, src)
    return build(I, sh, f, a.dtype)


@model('numpy.take_along_axis', 'arr indices axis')
def m_taa(I, arr, indices, axis):
    a, ix = as_arr(I, arr), as_arr(I, indices)
    if isinstance(a, Opaque) or isinstance(ix, Opaque):
        return Opaque('take_along_axis')
    if axis is None:
        a = reshape(I, a, [-1])
        axis = 0
    if a.ndim != ix.ndim:
        I.raise_('ValueError', 'take_along_axis')
    ax = axes_of(I, axis, a.ndim)[0]

    def f(idx):
        t = norm_elem(I, read(I, ix, idx), a.shape[ax])
        if isinstance(t, Opaque):
            return t
        src = [0 if (isinstance(d, int) and d == 1) else i for d, i in zip(a.shape, idx)]
        src[ax] = t
        return read(I, a, src)
    sh = [x if k == ax or not (isinstance(x, int) and x == 1) else y for k, (x, y) in enumerate(zip(ix.shape, a.shape))]
    if sh != list(ix.shape):
        g = f

        def f(idx):     # noqa
            ii = [0 if (isinstance(d, int) and d == 1) else i for d, i in zip(ix.shape, idx)]
            t = norm_elem(I, read(I, ix, ii), a.shape[ax])
            if isinstance(t, Opaque):
                return t
            src = list(idx)
            src[ax] = t
            return read(I, a, src)
    return build(I, sh, f, a.dtype)


@model('numpy.take', 'a indices axis=None out=None mode=None')
def m_take(I, a, indices, axis, out, mode):
    r = as_arr(I, a)
    if isinstance(r, Opaque):
        return r
    if axis is None:
        r = reshape(I, r, [-1])
        axis = 0
    ax = axes_of(I, axis, r.ndim)[0]
    return getitem(I, r, tuple([Slice(None, None, None)] * ax + [indices]))


@model('numpy.compress', 'condition a axis=None')
def m_compress(I, condition, a, axis):
    return m_take(I, a, as_arr(I, condition), axis, None, None)


@model('numpy.extract', 'condition arr')
def m_extract(I, condition, arr):
    return getitem(I, as_arr(I, arr), as_arr(I, condition))


@model('numpy.unravel_index', 'indices shape order=None')
def m_unravel(I, indices, shape, order):
    sh = dims(I, shape)
    ix = as_arr(I, indices)
    if sh is None or isinstance(ix, Opaque):
        return tuple(Opaque('unravel_index') for _ in sh) if sh is not None else Opaque('unravel_index')

    def f(idx, k):
        t = read(I, ix, idx)
        return unravel(sh, tm.tonum(I.T(t)))[k] if isnumeric(t) else Opaque('unravel_index')
    if order not in (None, 'C'):
        return tuple(Opaque('unravel_index') for _ in sh)
    if ix.ndim == 0:
        return tuple(f([], k) for k in range(len(sh)))
    return tuple(build(I, ix.shape, lambda i, k=k: f(i, k), 'i') for k in range(len(sh)))


@model('numpy.ravel_multi_index', 'multi_index dims mode=None order=None')
def m_ravel_multi(I, multi_index, dims, mode, order):
    sh = nf.dims(I, dims)
    ix = [as_arr(I, x) for x in (I.items(multi_index) or [])]
    if sh is None or not ix or any(isinstance(x, Opaque) for x in ix):
        return Opaque('ravel_multi_index')
    return ewise(I, lambda *xs: ravel_idx(sh, xs), ix, 'i')


def tri(upper):
    def g(I, n, k, m):
        nn, kk = ints(I, n), ints(I, k)
        if nn is None or kk is None or nn[0] > 8:
            return (Opaque('tri'), Opaque('tri'))
        cells = [(i, j) for i in range(nn[0]) for j in range(nn[0]) if (j - i >= kk[0] if upper else j - i <= kk[0])]
        return (build(I, (len(cells),), lambda i: num(cells[i[0]][0]), 'i') if len(cells) <= CONC else Opaque('tri'),
                build(I, (len(cells),), lambda i: num(cells[i[0]][1]), 'i') if len(cells) <= CONC else Opaque('tri'))
    return g


model('numpy.triu_indices', 'n k=0 m=None')(tri(True))
model('numpy.tril_indices', 'n k=0 m=None')(tri(False))


@model('numpy.diag_indices', 'n ndim=2')
def m_diag_indices(I, n, ndim):
    r = MODELS['numpy.arange'][0](I, n, None, 1, None)
    return tuple([r] * ndim)


def triuf(upper):
    def g(I, m, k):
        a = as_arr(I, m)
        if isinstance(a, Opaque):
            return a
        return build(I, a.shape, lambda i: ite(tm.le(num(k), tm.sub(num(i[1]), num(i[0]))) if upper else tm.le(tm.sub(num(i[1]), num(i[0])), num(k)),
                                               tm.tonum(I.T(read(I, a, i))), tm.ZERO), a.dtype)
    return g


model('numpy.triu', 'm k=0')(triuf(True))
model('numpy.tril', 'm k=0')(triuf(False))


@model('numpy.diag', 'v k=0')
def m_diag(I, v, k):
    a = as_arr(I, v)
    if isinstance(a, Opaque) or k != 0:
        return Opaque('diag')
    if a.ndim == 2:
        return diagonal(I, a)
    return build(I, (a.shape[0],) * 2, lambda i: I.join_val(tm.eq(num(i[0]), num(i[1])), read(I, a, [i[0]]), tm.ZERO), a.dtype)


def diagonal(I, a):
    if a.ndim != 2:
        return Opaque('diagonal')
    d = a.shape[0]
    if isinstance(d, int) and isinstance(a.shape[1], int):
        d = min(d, a.shape[1])
    return Arr(a.buf, (d,), [tm.subst(m, {ov(1): ov(0)}) for m in a.maps], a.dtype)


@model('numpy.diagonal', 'a offset=0 axis1=0 axis2=1')
def m_diagonal(I, a, offset, axis1, axis2):
    r = as_arr(I, a)
    return diagonal(I, r) if isinstance(r, Arr) and offset == 0 else Opaque('diagonal')


@model('numpy.fill_diagonal', 'a val wrap=False')
def m_fill_diagonal(I, a, val, wrap):
    if isinstance(a, Arr) and a.ndim == 2:
        setitem(I, diagonal(I, a), Ellipsis, val)
    return None


@model('numpy.trace', 'a')
def m_trace(I, a):
    r = as_arr(I, a)
    return red(I, diagonal(I, r), None, f_sum, False) if isinstance(r, Arr) and r.ndim == 2 else Opaque('trace')


def m_ix(I, args, kw):
    arrs = [as_arr(I, a) for a in args]
    if any(isinstance(a, Opaque) for a in arrs):
        return Opaque('ix_')
    out = []
    for a in arrs:
        if a.dtype == 'b':
            a = MODELS['numpy.nonzero'][0](I, a)[0]
        out.append(a)
    return Ext('ix', {'arrs': out})


MODELS['numpy.ix_'] = (m_ix, '*')


@model('numpy.copyto', 'dst src casting=None where=True')
def m_copyto(I, dst, src, casting, where):
    if isinstance(dst, Arr):
        if where is True:
            setitem(I, dst, Ellipsis, src)
        else:
            setitem(I, dst, Ellipsis, MODELS['numpy.where'][0](I, where, src, dst))


@model('numpy.put', 'a ind v mode=None')
def m_put(I, a, ind, v, mode):
    if isinstance(a, Arr):
        smash(I, a, 'put')


@model('numpy.putmask numpy.place', 'a mask values')
def m_putmask(I, a, mask, values):
    if isinstance(a, Arr):
        o = one(I, values)
        if o is not None:
            setitem(I, a, mask, o)
        else:
            smash(I, a, 'putmask')


# ---------------------------------------------------------------- integration and covariance
@model('numpy.trapz numpy.trapezoid scipy.integrate.trapezoid scipy.integrate.trapz', 'y x=None dx=1 axis=-1')
def m_trapz(I, y, x, dx, axis):
    a = as_arr(I, y)
    if isinstance(a, Opaque):
        return a
    ax = axes_of(I, axis, a.ndim)[0]
    if x is None:
        d = dx
    else:
        xa = as_arr(I, x)
        if isinstance(xa, Opaque):
            return xa
        if xa.ndim == 1:
            d = MODELS['numpy.diff'][0](I, xa, 1, -1, None, None)
            for k in range(a.ndim):
                if k < ax:
                    pass
            sh = [1] * a.ndim
            sh[ax] = d.shape[0]
            d = view(d, sh, [ov(ax)])
        else:
            d = MODELS['numpy.diff'][0](I, xa, 1, axis, None, None)
    full = [Slice(None, None, None)] * a.ndim
    hi, lo = list(full), list(full)
    hi[ax], lo[ax] = Slice(1, None, None), Slice(None, -1, None)
    s = binop(I, 'Add', getitem(I, a, tuple(hi)), getitem(I, a, tuple(lo)))
    p = binop(I, 'Mult', binop(I, 'Mult', d, s), tm.num(0.5))
    return red(I, p, ax, f_sum, False)


@model('numpy.cov', 'm y=None rowvar=True bias=False ddof=None fweights=None aweights=None dtype=None')
def m_cov(I, m, y, rowvar, bias, ddof, fweights, aweights, dtype):
    a = as_arr(I, m)
    if isinstance(a, Opaque):
        return a
    if a.ndim > 2:
        I.raise_('ValueError', 'm has more than 2 dimensions')
    if y is not None:
        ya = as_arr(I, y)
        if isinstance(ya, Opaque):
            return ya
        a = concat(I, [atleast(I, a, 2), atleast(I, ya, 2)], 0)
    one_d = a.ndim == 1
    a = atleast(I, a, 2)
    rv = rowvar is not False
    if not rv and a.shape[0] != 1:
        a = transpose(a, [1, 0])
    dd, n = a.shape
    if ddof is None:
        ddof = 0 if bias is True else 1
    ddof = I.T(one(I, ddof))
    w = None
    if fweights is not None:
        return Opaque('cov')
    if aweights is not None:
        w = as_arr(I, aweights)
        if isinstance(w, Opaque):
            return w
        if w.ndim != 1:
            I.raise_('RuntimeError', 'cannot handle multidimensional aweights')
        I.raise_if(not_(eqd(I, w.shape[0], n)), 'RuntimeError', 'incompatible numbers of samples and aweights')
        neg = m_cov_neg(I, w)
        I.raise_if(neg, 'ValueError', 'aweights cannot be negative')
    if not conc(dd):
        return Opaque('cov')

    def S(f):
        if conc(n):
            return tm.add(*[f(k) for k in range(n)])
        v = tm.fresh('k', D(n))
        return tm.bind('sum', [v], [D(n)], f(v))
    W = (lambda k: tm.tonum(I.T(read(I, w, [k])))) if w is not None else (lambda k: tm.ONE)
    X = lambda i, k: tm.tonum(I.T(read(I, a, [i, k])))      # noqa
    if w is not None and not all(isnumeric(x) for x in I.get(w).cells.values()) or not all(isnumeric(x) for x in I.get(a).cells.values()):
        return Opaque('cov')
    wsum = S(W)
    mean = [tm.div(S(lambda k: tm.mul(W(k), X(i, k))), wsum) for i in range(dd)]
    if w is None:
        fact = tm.sub(D(n), ddof)
    elif ddof is tm.ZERO:
        fact = wsum
    else:
        fact = tm.sub(wsum, tm.div(tm.mul(ddof, S(lambda k: tm.mul(W(k), W(k)))), wsum))

    def f(idx):
        i, j = idx
        return tm.div(S(lambda k: tm.mul(W(k), tm.sub(X(i, k), mean[i]), tm.sub(X(j, k), mean[j]))), fact)
    if dd == 1:
        return f([0, 0])
    return build(I, (dd, dd), f, 'f')


def m_cov_neg(I, w):
    v = tm.fresh('k', D(w.shape[0]))
    if conc(w.shape[0]):
        return or_(*[tm.lt(tm.tonum(I.T(read(I, w, [k]))), tm.ZERO) for k in range(w.shape[0]) if isnumeric(read(I, w, [k]))])
    x = read(I, w, [v])
    if not isnumeric(x):
        return FALSE
    return tm.bind('any', [v], [D(w.shape[0])], tm.lt(tm.tonum(I.T(x)), tm.ZERO))


# ---------------------------------------------------------------- linear algebra
def square_entries(I, m):
    a = as_arr(I, m)
    if isinstance(a, Opaque):
        return None
    if a.ndim != 2:
        I.raise_('LinAlgError', 'must be 2-dimensional')
    if not (isinstance(a.shape[0], int) and a.shape[0] == a.shape[1] and conc(a.shape[0])):
        c = eqd(I, a.shape[0], a.shape[1])
        I.raise_if(not_(c), 'LinAlgError', 'must be square')
        return None
    n = a.shape[0]
    e = [read(I, a, [i, j]) for i in range(n) for j in range(n)]
    if not all(isnumeric(x) for x in e):
        return None
    return n, [tm.tonum(I.T(x)) for x in e]


def lib_fail(I, exc, what):
    if I.lib_raises:
        I._nid += 1
        I.raise_if(tm.mk('bsym', f'{what}_fails{I._nid}', ()), exc, what)


@model('numpy.linalg.inv scipy.linalg.inv', 'a overwrite_a=False check_finite=True')
def m_inv(I, a, overwrite_a, check_finite):
    lib_fail(I, 'LinAlgError', 'inv')
    r = square_entries(I, a)
    if r is None:
        return Opaque('inv')
    n, e = r
    return build(I, (n, n), lambda i: tm.fn('inv', i[0], i[1], n, *e), 'f')


@model('numpy.linalg.pinv scipy.linalg.pinv', 'a rcond=None hermitian=False')
def m_pinv(I, a, rcond, hermitian):
    r = square_entries(I, a)
    if r is None:
        return Opaque('pinv')
    n, e = r
    return build(I, (n, n), lambda i: tm.fn('pinv', i[0], i[1], n, *e), 'f')


@model('numpy.linalg.det scipy.linalg.det', 'a')
def m_det(I, a):
    r = square_entries(I, a)
    if r is None:
        return Opaque('det')
    n, e = r
    return tm.fn('det', n, *e)


def chol(I, a, lower):
    lib_fail(I, 'LinAlgError', 'cholesky')
    r = square_entries(I, a)
    if r is None:
        return Opaque('cholesky')
    n, e = r
    # positive definiteness: a zero diagonal entry fails
    if any(e[k * n + k] is tm.ZERO for k in range(n)):
        I.raise_('LinAlgError', 'matrix is not positive definite')
    return build(I, (n, n), lambda i: tm.fn('cholU', i[1], i[0], n, *e) if lower else tm.fn('cholU', i[0], i[1], n, *e), 'f')


@model('numpy.linalg.cholesky', 'a')
def m_npchol(I, a):
    return chol(I, a, True)


@model('scipy.linalg.cholesky', 'a lower=False overwrite_a=False check_finite=True')
def m_spchol(I, a, lower, overwrite_a, check_finite):
    return chol(I, a, lower is True)


@model('numpy.linalg.solve scipy.linalg.solve', 'a b')
def m_solve(I, a, b):
    return m_dot(I, m_inv(I, a, False, True), b, None)


@model('numpy.linalg.norm scipy.linalg.norm', 'x ord=None axis=None keepdims=False')
def m_norm(I, x, ord, axis, keepdims):
    a = as_arr(I, x)
    if isinstance(a, Opaque) or ord not in (None, 2):
        return Opaque('norm')
    return un(I, tm.sqrt, red(I, binop(I, 'Mult', a, a), axis, f_sum, keepdims))


@model('numpy.dot numpy.matmul', 'a b out=None')
def m_dot(I, a, b, out):
    x, y = as_arr(I, a), as_arr(I, b)
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        return Opaque('dot')
    if x.ndim == 0 or y.ndim == 0:
        return binop(I, 'Mult', x, y)
    ky = max(y.ndim - 2, 0)
    if x.ndim > 2 or y.ndim > 2:
        return Opaque('dot')
    I.raise_if(not_(eqd(I, x.shape[-1], y.shape[ky])), 'ValueError', 'shapes not aligned')
    n = x.shape[-1]
    sh = list(x.shape[:-1]) + ([y.shape[1]] if y.ndim == 2 else [])

    def f(idx):
        xi = idx[:x.ndim - 1]
        yi = idx[x.ndim - 1:]

        def t(k):
            p, q = read(I, x, xi + [k]), read(I, y, [k] + yi)
            return tm.mul(I.T(p), I.T(q)) if isnumeric(p) and isnumeric(q) else None
        if conc(n):
            ts = [t(k) for k in range(n)]
            return tm.add(*ts) if all(z is not None for z in ts) else Opaque('dot')
        v = tm.fresh('k', D(n))
        z = t(v)
        return tm.bind('sum', [v], [D(n)], z) if z is not None else Opaque('dot')
    if not sh:
        return f([])
    return build(I, sh, f, join_dt(x.dtype, y.dtype))


@model('numpy.outer', 'a b out=None')
def m_outer(I, a, b, out):
    x, y = as_arr(I, a), as_arr(I, b)
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        return Opaque('outer')
    x, y = reshape(I, x, [-1]), reshape(I, y, [-1])
    return binop(I, 'Mult', expand(x, 1), expand(y, 0))


@model('numpy.inner numpy.vdot', 'a b')
def m_inner(I, a, b):
    x, y = as_arr(I, a), as_arr(I, b)
    if isinstance(x, Arr) and isinstance(y, Arr) and x.ndim == 1 and y.ndim == 1:
        return m_dot(I, x, y, None)
    return Opaque('inner')


def m_einsum(I, args, kw):
    spec = args[0]
    ops = [as_arr(I, a) for a in args[1:]]
    if not isinstance(spec, str) or any(isinstance(o, Opaque) for o in ops) or '.' in spec:
        return Opaque('einsum')
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = [c for c in sorted(set(ins.replace(',', ''))) if ins.count(c) == 1]
        out = ''.join(letters)
    ins = ins.split(',')
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            I.raise_('ValueError', 'einsum')
        for c, d in zip(s, o.shape):
            if c in dim:
                cc = eqd(I, dim[c], d)
                if cc is not TRUE:
                    I.raise_if(not_(cc), 'ValueError', 'einsum')
            else:
                dim[c] = d
    red_ = [c for c in dim if c not in out]

    def f(idx):
        env = dict(zip(out, idx))
        vs, ds, cc = [], [], []
        for c in red_:
            if conc(dim[c]):
                cc.append(c)
            else:
                v = tm.fresh('k', D(dim[c]))
                env[c] = v
                vs.append(v)
                ds.append(D(dim[c]))
        tot = []
        for combo in itertools.product(*[range(dim[c]) for c in cc]):
            env.update(zip(cc, combo))
            p = tm.ONE
            for s, o in zip(ins, ops):
                x = read(I, o, [env[c] for c in s])
                if not isnumeric(x):
                    return Opaque('einsum')
                p = tm.mul(p, I.T(x))
            tot.append(p)
        s = tm.add(*tot) if tot else tm.ZERO
        return tm.bind('sum', vs, ds, s) if vs else s
    if not out:
        return f([])
    return build(I, [dim[c] for c in out], f, join_dt(*[o.dtype for o in ops]))


MODELS['numpy.einsum'] = (m_einsum, '*')


# ---------------------------------------------------------------- statistics
@model('scipy.stats.norm.cdf', 'x loc=0 scale=1')
def m_normcdf(I, x, loc, scale):
    return ewise(I, lambda a, l, s: tm.fn('normcdf', tm.div(tm.sub(a, l), s)), [x, loc, scale], 'f')


@model('scipy.stats.norm.ppf', 'q loc=0 scale=1')
def m_normppf(I, q, loc, scale):
    return ewise(I, lambda a, l, s: tm.add(l, tm.mul(s, tm.fn('normppf', a))), [q, loc, scale], 'f')


@model('scipy.stats.norm.isf', 'q loc=0 scale=1')
def m_normisf(I, q, loc, scale):
    return ewise(I, lambda a, l, s: tm.sub(l, tm.mul(s, tm.fn('normppf', a))), [q, loc, scale], 'f')


@model('scipy.stats.norm.sf', 'x loc=0 scale=1')
def m_normsf(I, x, loc, scale):
    return ewise(I, lambda a, l, s: tm.fn('normcdf', tm.div(tm.sub(l, a), s)), [x, loc, scale], 'f')


@model('scipy.stats.norm.pdf', 'x loc=0 scale=1')
def m_normpdf(I, x, loc, scale):
    def f(a, l, s):
        z = tm.div(tm.sub(a, l), s)
        return tm.div(tm.fn('exp', tm.div(tm.mul(z, z), num(-2))), tm.mul(s, tm.sqrt(tm.mul(num(2), tm.PI))))
    return ewise(I, f, [x, loc, scale], 'f')


tm.FN_INFO['normcdf'] = {'iv': (0.0, False, 1.0, False)}


# ---------------------------------------------------------------- random numbers
def rng(I, name, size, meta, info, sizes=None, dtype='f'):
    """a fresh block of random variates"""
    k = len(I.rng_log)
    I.rng_log.append(dict(name=name, **meta))
    I.event('rng', name=name, size=size, id=k, **{x: meta[x] for x in meta if x != 'name'})
    nm = f'rng_{name}_{k}'
    tm.SYM.setdefault(nm, {}).update(info)
    sh = None
    if size is None:
        sh = sizes if sizes is not None else ()
    else:
        sh = dims(I, size)
        if sh is None:
            return Opaque('random shape')
    lv = list(I.loopvars)
    if sh == ():
        return tm.sym(nm, *lv)
    for d in sh:
        I.raise_if(tm.lt(D(d), tm.ZERO), 'ValueError', 'negative dimensions')
    return build(I, sh, lambda i: tm.sym(nm, *(lv + list(i))), dtype)


def bsize(I, vs):
    shs = []
    for v in vs:
        s = nested_shape(I, v)
        if s is None or s == 'ragged':
            return None
        shs.append(s)
    return bshape(I, shs)


@model('numpy.random.uniform', 'low=0 high=1 size=None')
def m_uniform(I, low, high, size):
    u = rng(I, 'uniform', size, {'low': low, 'high': high}, dict(lo=0, hi=1, hi_open=True), bsize(I, [low, high]))
    return binop(I, 'Add', low, binop(I, 'Mult', binop(I, 'Sub', high, low), u))


@model('numpy.random.random numpy.random.random_sample numpy.random.ranf numpy.random.sample', 'size=None')
def m_random(I, size):
    return rng(I, 'uniform', size, {}, dict(lo=0, hi=1, hi_open=True))


def m_rand(I, args, kw):
    return rng(I, 'uniform', tuple(args) if args else None, {}, dict(lo=0, hi=1, hi_open=True))


def m_randn(I, args, kw):
    return rng(I, 'normal', tuple(args) if args else None, {}, {})


MODELS['numpy.random.rand'] = (m_rand, '*')
MODELS['numpy.random.randn'] = (m_randn, '*')


@model('numpy.random.normal', 'loc=0 scale=1 size=None')
def m_normal(I, loc, scale, size):
    z = rng(I, 'normal', size, {'loc': loc, 'scale': scale}, {}, bsize(I, [loc, scale]))
    return binop(I, 'Add', loc, binop(I, 'Mult', scale, z))


@model('numpy.random.standard_normal', 'size=None')
def m_stdnormal(I, size):
    return rng(I, 'normal', size, {}, {})


@model('numpy.random.multivariate_normal', 'mean cov size=None check_valid=None tol=None method=None')
def m_mvn(I, mean, cov, size, check_valid, tol, method):
    mu = as_arr(I, mean)
    r = square_entries(I, cov)
    if r is None or isinstance(mu, Opaque):
        I.event('rng', name='multivariate_normal', size=size, id=-1)
        return Opaque('multivariate_normal')
    n, e = r
    sh = () if size is None else dims(I, size)
    if sh is None:
        return Opaque('multivariate_normal')
    z = rng(I, 'normal', tuple(sh) + (n,), {'mean': mean, 'cov': cov}, {})
    if isinstance(z, Opaque):
        return z
    return build(I, tuple(sh) + (n,), lambda i: tm.add(I.T(read(I, mu, [i[-1]])), *[tm.mul(tm.fn('cholU', k, i[-1], n, *e), read(I, z, i[:-1] + [k])) for k in range(n)]), 'f')


@model('numpy.random.choice', 'a size=None replace=True p=None')
def m_choice(I, a, size, replace, p):
    lib_fail(I, 'ValueError', 'choice')
    av_ = I.resolve(a)
    pa = None
    n = None
    if isnumeric(av_):
        n = canon_dim(I.T(av_)) if not isinstance(av_, bool) else None
    else:
        arr = as_arr(I, av_)
        if isinstance(arr, Arr):
            n = arr.shape[0]
    if p is not None:
        pa = as_arr(I, p)
        if isinstance(pa, Arr) and n is not None:
            if pa.ndim != 1:
                I.raise_('ValueError', "'p' must be 1-dimensional")
            c = eqd(I, pa.shape[0], n)
            if c is not TRUE:
                I.raise_if(not_(c), 'ValueError', "'a' and 'p' must have same size")
    info = dict(lo=0, int=True)
    if isinstance(n, int):
        info['hi'] = n - 1
    pl = lam1(I, pa) if isinstance(pa, Arr) and pa.ndim == 1 else None
    r = rng(I, 'choice', size, {'n': n, 'p': pl if p is not None else None, 'p_given': p is not None, 'replace': replace}, info, (), 'i')
    if isnumeric(av_):
        return r
    arr = as_arr(I, av_)
    if isinstance(arr, Opaque) or isinstance(r, Opaque):
        return Opaque('choice')
    return getitem(I, arr, r)


@model('numpy.random.randint numpy.random.random_integers', 'low high=None size=None dtype=None')
def m_randint(I, low, high, size, dtype):
    return rng(I, 'randint', size, {'low': low, 'high': high}, dict(lo=0, int=True), None, 'i')


@model('numpy.random.poisson', 'lam=1 size=None')
def m_poisson(I, lam, size):
    return rng(I, 'poisson', size, {'lam': lam}, dict(lo=0, int=True), bsize(I, [lam]), 'i')


def gen_rng(name, sig, **info):
    names = [x.split('=')[0] for x in sig.split()]

    @model('numpy.random.' + name, sig + ' size=None')
    def g(I, size, **kw):
        return rng(I, name, size, {'args': {n: kw[n] for n in names}}, info, bsize(I, [kw[n] for n in names]))


gen_rng('beta', 'a b', lo=0, hi=1)
gen_rng('gamma', 'shape scale=1', lo=0)
gen_rng('standard_gamma', 'shape', lo=0)
gen_rng('exponential', 'scale=1', lo=0)
gen_rng('standard_exponential', '', lo=0)
gen_rng('chisquare', 'df', lo=0)
gen_rng('power', 'a', lo=0, hi=1)
gen_rng('lognormal', 'mean=0 sigma=1', lo=0, lo_open=True)
gen_rng('triangular', 'left mode right')
gen_rng('binomial', 'n p', lo=0)
gen_rng('multinomial', 'n pvals', lo=0)
gen_rng('geometric', 'p', lo=1)
gen_rng('laplace', 'loc=0 scale=1')
gen_rng('logistic', 'loc=0 scale=1')
gen_rng('standard_cauchy', '')
gen_rng('standard_t', 'df')
gen_rng('weibull', 'a', lo=0)
gen_rng('pareto', 'a', lo=0)
gen_rng('rayleigh', 'scale=1', lo=0)
gen_rng('vonmises', 'mu kappa')


@model('numpy.random.shuffle', 'x')
def m_shuffle(I, x):
    I.event('rng', name='shuffle', size=None, id=-1)
    x = I.resolve(x)
    if isinstance(x, Arr):
        smash(I, x, 'shuffled')
    elif isinstance(x, Ref):
        I.event('write', owner=I.get(x).owner, what='shuffle', obj=x)


@model('numpy.random.permutation', 'x')
def m_permutation(I, x):
    I.event('rng', name='permutation', size=None, id=-1)
    return Opaque('permutation')


def _seed(name):
    def g(I, args, kw):
        I.event('seed', name=name)
        return None if name != 'get_state' else Opaque('rng state')
    return g


for _n in ('seed', 'set_state', 'get_state', 'set_bit_generator'):
    MODELS['numpy.random.' + _n] = (_seed(_n), '*')


def _gen(name):
    def g(I, args, kw):
        I.event('rng_other', name=name, seeded=bool(args or kw))
        return Ext('rng', {'name': name})
    return g


for _n in ('default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'Philox', 'SFC64'):
    MODELS['numpy.random.' + _n] = (_gen(_n), '*')
for _n in ('random', 'uniform', 'gauss', 'normalvariate', 'choice', 'choices', 'randint', 'sample', 'shuffle', 'seed', 'randrange', 'Random', 'SystemRandom',
           'betavariate', 'expovariate', 'getrandbits'):
    MODELS['random.' + _n] = (_gen('random.' + _n), '*')
for _n in ('urandom',):
    MODELS['os.urandom'] = (_gen('os.urandom'), '*')
for _n in ('token_bytes', 'randbelow', 'choice', 'randbits'):
    MODELS['secrets.' + _n] = (_gen('secrets.' + _n), '*')


# ---------------------------------------------------------------- histograms, interpolation
LIBKEYS = {}


def libkey(I, *vals):
    """a number for the contents of library arguments: the same contents give the same number"""
    from . import compare as cp
    try:
        k = tuple(cp.skeleton(cp.V(I, I.st, v)) for v in vals)
        if cp.hasunknown(k):
            k = object()
        hash(k)
    except Exception:                 # noqa: contents without a canonical form are distinct
        k = object()
    return LIBKEYS.setdefault(k, len(LIBKEYS))


def libsym(kind, n, **info):
    nm = f'lib_{kind}_{n}'
    tm.SYM.setdefault(nm, {}).update(info)
    return nm


def run(I, name, *args):
    from .pycalls import run_model
    return run_model(I, name, list(args), {})


class Template:
    """elements of a named array as terms over index variables, one for each index into the axes of known length"""

    def __init__(self, shape, read):
        self.shape, self.read, self.got = shape, read, {}

    def __call__(self, idx):
        """(term, environment) of one element"""
        k = tuple(i if conc(n) else None for i, n in zip(idx, self.shape))
        r = self.got.get(k)
        if r is None:
            vs = [num(i) if conc(n) else tm.fresh('t', D(n)) for i, n in zip(idx, self.shape)]
            r = self.got[k] = ([None if conc(n) else v.args[0] for v, n in zip(vs, self.shape)], self.read(vs))
        return r[1], {v: i for v, i in zip(r[0], idx) if v is not None}


def folded(I, kind, key, arr, **info):
    """an array of symbols named by its contents; valuations expand the symbols"""
    if not isinstance(arr, Arr):
        return arr
    b = I.st.heap[arr.buf]
    buf = Buf(b.shape, dict(b.cells) if isinstance(b.cells, dict) else b.cells, b.dtype)

    def template(idx):
        m = {nc.ov(j): i for j, i in enumerate(idx)}
        return nc.read_base(I, buf, [tm.subst(x, m) for x in arr.maps])
    nm = libsym(kind, key, template=Template(arr.shape, template), **info)
    return build(I, arr.shape, lambda i: tm.sym(nm, *i), arr.dtype)


def auto_edges(I, arr, bins, key):
    """bin edges chosen by numpy: equal bins over the range, an unknown number of them when a rule is named"""
    lo, hi = run(I, 'numpy.min', arr), run(I, 'numpy.max', arr)
    lo, hi = (tm.tonum(I.T(x)) if isnumeric(x) else None for x in (lo, hi))
    n = tm.sym(libsym('nbins', key, int=True, lo=2, hi=4)) if isinstance(bins, str) else I.T(bins)
    m = canon_dim(tm.add(num(n), tm.ONE))
    if lo is None or hi is None:
        nm = libsym('edges', key, sorted=True)
        return build(I, (m,), lambda i: tm.sym(nm, *i), 'f')
    same = tm.eq(lo, hi)
    half = tm.div(tm.ONE, num(2))
    a, b = tm.ite(same, tm.sub(lo, half), lo), tm.ite(same, tm.add(hi, half), hi)
    return build(I, (m,), lambda i: tm.add(a, tm.mul(tm.sub(b, a), tm.div(tm.tonum(num(i[0])), num(n)))), 'f')


def in_bin(I, x, e, j, n):
    a, b = I.T(read(I, e, [j])), I.T(read(I, e, [tm.add(num(j), tm.ONE)]))
    last = tm.and_(tm.eq(num(j), tm.sub(num(n), tm.ONE)), tm.eq(x, b))
    return tm.and_(tm.le(a, x), tm.or_(tm.lt(x, b), last))


def hist_nd(I, xs, es, w, density):
    """weighted counts of the points in each bin; the last bin is closed"""
    xs = [reshape(I, as_arr(I, x), [-1]) for x in xs]
    w = None if w is None else as_arr(I, w)
    if w is not None and isinstance(w, Arr) and w.ndim != 1:
        w = reshape(I, w, [-1])
    if any(not isinstance(x, Arr) for x in xs + es) or isinstance(w, Opaque):
        return Opaque('histogram')
    if w is not None:
        c = eqd(I, w.shape[0], xs[0].shape[0])
        if c is not TRUE:
            I.raise_if(tm.not_(c), 'ValueError', 'weights should have the same shape as a.')
    n = xs[0].shape[0]
    ns = [canon_dim(tm.sub(D(e.shape[0]), tm.ONE)) for e in es]

    def cell(idx):
        def one(v):
            c = tm.and_(*[in_bin(I, tm.tonum(I.T(read(I, x, [v]))), e, i, m) for x, e, i, m in zip(xs, es, idx, ns)])
            return tm.ite(c, tm.tonum(I.T(read(I, w, [v]))) if w is not None else tm.ONE, tm.ZERO)
        if conc(n):
            return tm.add(*[one(v) for v in range(n)])
        v = tm.fresh('h', D(n))
        return tm.bind('sum', [v], [D(n)], one(v))
    h = build(I, ns, cell, 'i' if w is None else 'f')
    if density and isinstance(h, Arr):
        tot = run(I, 'numpy.sum', h)

        def vol(i):
            return tm.mul(*[tm.sub(I.T(read(I, e, [tm.add(num(k), tm.ONE)])), I.T(read(I, e, [k]))) for e, k in zip(es, i)])
        h = build(I, ns, lambda i: tm.div(tm.tonum(I.T(read(I, h0, i))), tm.mul(vol(i), tm.tonum(I.T(tot)))), 'f') if (h0 := h) is not None else h
    return h


def hist_edges(I, a, bins, range, weights):
    b = I.resolve(bins)
    arr = as_arr(I, a)
    if isinstance(b, str) and weights is not None:
        I.raise_('TypeError', 'Automated estimation of the number of bins is not supported for weighted data')
    if range is not None or isinstance(arr, Opaque):
        return Opaque('histogram range')
    if isinstance(b, str) or isnumeric(b):
        arr = reshape(I, arr, [-1])
        return auto_edges(I, arr, b, libkey(I, arr, b))
    e = as_arr(I, b)
    return e


@model('numpy.histogram', 'a bins=10 range=None normed=None weights=None density=None')
def m_histogram(I, a, bins, range, normed, weights, density):
    weights = I.resolve(weights)
    I.event('lib', name='numpy.histogram', args=dict(a=a, bins=bins, range=range, weights=weights, density=density))
    e = hist_edges(I, a, bins, range, weights)
    if isinstance(e, Opaque) or e.ndim != 1:
        return (Opaque('histogram'), Opaque('histogram'))
    dn = I.truth(density) is TRUE if density is not None else False
    return (folded(I, 'hist', libkey(I, a, e, weights, dn), hist_nd(I, [a], [e], weights, dn), lo=0), e)


@model('numpy.histogram_bin_edges', 'a bins=10 range=None weights=None')
def m_histogram_bin_edges(I, a, bins, range, weights):
    return hist_edges(I, a, bins, range, weights)


@model('numpy.histogram2d', 'x y bins=10 range=None density=None weights=None')
def m_histogram2d(I, x, y, bins, range, density, weights):
    weights = I.resolve(weights)
    I.event('lib', name='numpy.histogram2d', args=dict(x=x, y=y, bins=bins, range=range, weights=weights, density=density))
    b = I.resolve(bins)
    if isnumeric(b):
        es = [hist_edges(I, z, b, range, weights) for z in (x, y)]
    else:
        it = I.items(b)
        es = [hist_edges(I, z, c, range, weights) for z, c in zip((x, y), it)] if it is not None and len(it) == 2 else [Opaque('e'), Opaque('e')]
    if any(isinstance(e, Opaque) or e.ndim != 1 for e in es):
        return (Opaque('histogram2d'), es[0], es[1])
    dn = I.truth(density) is TRUE if density is not None else False
    h = folded(I, 'hist2d', libkey(I, x, y, es[0], es[1], weights, dn), hist_nd(I, [x, y], es, weights, dn), lo=0)
    return (h, es[0], es[1])


def exactnum(v):
    """the term of a number of either precision, without rounding"""
    from fractions import Fraction
    if hasattr(v, 'man_exp'):
        m, x = v.man_exp
        return num(Fraction(int(m)) * (Fraction(2) ** int(x)))
    return num(Fraction(float(v)) if isinstance(v, float) and v - v == 0 else v)


def interp_value(I, e, x):
    """linear interpolation on a rectangular grid (interp1d and RegularGridInterpolator)"""
    a, kw = e.info['args'], dict(e.info['kw'])
    names = ('x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value', 'assume_sorted') if e.kind == 'interp1d' else \
        ('points', 'values', 'method', 'bounds_error', 'fill_value')
    kw.update(zip(names, a))
    kw = {k: I.resolve(v) for k, v in kw.items()}
    if e.kind == 'interp1d':
        g, method = [as_arr(I, kw['x'])], kw.get('kind', 'linear')
        vals = as_arr(I, kw['y'])
        be, fill = kw.get('bounds_error'), kw.get('fill_value', tm.NAN)
        if fill == 'extrapolate':
            be, fill = False, None
        elif be is None:
            be = True
    else:
        it = kw['points']
        if isinstance(it, Arr):
            it = [I.getitem(it, k) for k in range(it.shape[0])] if it.ndim and isinstance(it.shape[0], int) else None
        else:
            it = I.items(it)
        if it is None:
            return Opaque('interpolator grid')
        g, method = [as_arr(I, y) for y in it], kw.get('method', 'linear')
        vals = as_arr(I, kw['values'])
        be, fill = kw.get('bounds_error', True), kw.get('fill_value', tm.NAN)
    if method != 'linear' or any(isinstance(y, Opaque) or y.ndim != 1 for y in g) or isinstance(vals, Opaque) or vals.ndim != len(g) \
            or isinstance(be, (Opaque, Choice, T)) or not (fill is None or isnumeric(fill)):
        return Opaque('interpolator')
    nd = len(g)
    if e.kind != 'interp1d':
        if x.ndim == 0 or x.ndim == 1 and nd == 1:
            x = reshape(I, x, [-1, 1])
        elif x.ndim == 1:
            x = reshape(I, x, [-1, nd])
        if not isinstance(x.shape[-1], int):
            return Opaque('interpolator')
        if x.shape[-1] != nd:
            I.raise_('ValueError', 'The requested sample points xi have another dimension than the RegularGridInterpolator')
        osh = x.shape[:-1]
        q = lambda i: [I.T(read(I, x, list(i) + [k])) for k in range(nd)]          # noqa: E731
    else:
        osh = x.shape
        q = lambda i: [I.T(read(I, x, list(i)))]          # noqa: E731
    ends = [(I.T(read(I, y, [0])), I.T(read(I, y, [canon_dim(tm.sub(D(y.shape[0]), tm.ONE))]))) for y in g]

    def inside(v):
        return tm.and_(*[tm.and_(tm.le(lo, w), tm.le(w, hi)) for w, (lo, hi) in zip(v, ends)])
    if be:
        ok = run(I, 'numpy.all', build(I, osh, lambda i: inside(q(i)), 'b')) if osh else inside(q(()))
        I.raise_if(tm.not_(I.truth(ok)), 'ValueError', 'One of the requested xi is out of bounds')
        fill = None
    key = libkey(I, *g, vals, str(fill))
    gb = [I.st.heap[build(I, y.shape, lambda i, y=y: read(I, y, i), 'f').buf] for y in g]
    vb = I.st.heap[build(I, vals.shape, lambda i: tm.tonum(I.T(read(I, vals, i))), 'f').buf]

    def rg(k, j):
        return tm.tonum(I.T(nc.read_base(I, gb[k], [j])))

    def at(pos):
        """the interpolated value at a point given as terms"""
        ns = [tm.sub(D(y.shape[0]), tm.ONE) for y in g]

        def cellsum(k, js, ws):
            if k == nd:
                out = []
                for corner in _it.product((0, 1), repeat=nd):
                    c = [tm.add(num(j), num(b)) for j, b in zip(js, corner)]
                    out.append(tm.mul(tm.tonum(I.T(nc.read_base(I, vb, c))), *[w if b else tm.sub(tm.ONE, w) for w, b in zip(ws, corner)]))
                return tm.add(*out)

            def one(j):
                j = num(j)
                lo, hi = rg(k, j), rg(k, tm.add(j, tm.ONE))
                first, last = tm.eq(j, tm.ZERO), tm.eq(j, tm.sub(ns[k], tm.ONE))
                c = tm.and_(tm.or_(first, tm.le(lo, pos[k])), tm.or_(last, tm.lt(pos[k], hi)))
                w = tm.div(tm.sub(pos[k], lo), tm.sub(hi, lo))
                return tm.ite(c, cellsum(k + 1, js + [j], ws + [w]), tm.ZERO)
            n = canon_dim(ns[k])
            if conc(n):
                return tm.add(*[one(num(v)) for v in range(n)])
            v = tm.fresh('h', D(n))
            return tm.bind('sum', [v], [D(n)], one(v))
        t = cellsum(0, [], [])
        return t if fill is None else tm.ite(inside(pos), t, I.T(fill))
    shared = {}

    vt = Template(vb.shape, lambda i: tm.tonum(I.T(nc.read_base(I, vb, i))))
    gts = [Template(y.shape, lambda i, k=k: rg(k, i[0])) for k, y in enumerate(g)]

    def fast(tb, idx):
        """interpolation from the evaluated grid (double precision)"""
        store = shared if shared.get('const', True) else tb.vals
        kk = ('grid of', nm)
        if kk not in store:
            ns = tb.dims([D(y.shape[0]) for y in g], {}, 5000)
            if nd > 1 and max(ns) > 60:
                from .rint import Unknown
                raise Unknown('large dimension')
            seen = []

            def one(tpl, ix):
                t, env = tpl(ix)
                seen.append(t)
                return float(tb.ev(t, env))
            xs = [[one(gts[k], (j,)) for j in range(n)] for k, n in enumerate(ns)]
            ys = {ix: one(vt, ix) for ix in _it.product(*[range(n) for n in ns])}
            const = shared.setdefault('const', not any(tm.find(t, lambda y: y.op in ('sym', 'bsym')) for t in set(seen)))
            store = shared if const else tb.vals
            store[kk] = (xs, ys)
        xs, ys = store[kk]
        x = [float(v) for v in idx]
        if fill is not None and not all(a[0] <= v <= a[-1] for a, v in zip(xs, x)):
            return tb.ev(I.T(fill), {})
        js = [min(max(_bisect.bisect_right(a, v) - 1, 0), len(a) - 2) for a, v in zip(xs, x)]
        ws = [(v - a[j]) / (a[j + 1] - a[j]) for a, v, j in zip(xs, x, js)]
        if nd == 1:
            j = js[0]
            return ys[(j,)] + (x[0] - xs[0][j]) * (ys[(j + 1,)] - ys[(j,)]) / (xs[0][j + 1] - xs[0][j])
        tot = 0.0
        for corner in _it.product((0, 1), repeat=nd):
            p = ys[tuple(j + b for j, b in zip(js, corner))]
            for w, b in zip(ws, corner):
                p = p * (w if b else 1 - w)
            tot += p
        return tot
    nm = libsym('interp', key, expand=lambda idx: at([exactnum(v) for v in idx]), fast=fast)
    if not osh:
        return tm.sym(nm, *q(()))
    return build(I, osh, lambda i: tm.sym(nm, *q(i)), 'f')


def ext_lib(name, res=None):
    def g(I, args, kw):
        k = len(I.lib_log)
        I.lib_log.append((name, dict(args=args, kw=kw)))
        I.event('lib', name=name, id=k, args=dict(args=args, kw=kw))
        return Ext(name, dict(args=args, kw=kw, id=k)) if res is None else res(I, args, kw, k)
    return g


def m_binstat(I, args, kw, k):
    return (Opaque('binned_statistic'), Opaque('binned_statistic'), Opaque('binned_statistic'))


MODELS['scipy.interpolate.interp1d'] = (ext_lib('interp1d'), '*')
MODELS['scipy.interpolate.RegularGridInterpolator'] = (ext_lib('RegularGridInterpolator'), '*')
MODELS['scipy.stats.binned_statistic'] = (ext_lib('scipy.stats.binned_statistic', m_binstat), '*')
MODELS['scipy.binned_statistic'] = (ext_lib('scipy.stats.binned_statistic', m_binstat), '*')
for _n in ('zoom', 'gaussian_filter', 'uniform_filter', 'median_filter'):
    MODELS['scipy.ndimage.' + _n] = (ext_lib('scipy.ndimage.' + _n, lambda I, a, kw, k: Opaque('ndimage')), '*')
