"""Abstract arrays: reading, materialising, broadcasting, indexing, writing."""
import itertools
from fractions import Fraction

from . import terms as tm
from .terms import T, num, TRUE, FALSE, ite, and_, or_, not_
from .values import *  # noqa
from .values import conc, canon_dim, same

MAXCELLS = 6000


def ov(j):
    return tm.var(f'o{j}')


def av(k):
    return tm.var(f'a{k}')


def ident(n):
    return tuple(ov(j) for j in range(n))


class ranges:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.save = {k: tm.RANGES.get(k) for k in self.d}
        tm.RANGES.update(self.d)
        self.ver = tm.VER[0]
        tm.newver()

    def __exit__(self, *a):
        tm.VER[0] = self.ver
        for k, v in self.save.items():
            if v is None:
                tm.RANGES.pop(k, None)
            else:
                tm.RANGES[k] = v


def sub0(t, m):
    return tm.subst(t, m) if isinstance(t, T) else t


def D(d):
    return num(d)


def eqd(I, a, b):
    """are two dims equal: TRUE / FALSE / T"""
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a == b else FALSE
    return I.decide(tm.eq(num(a), num(b)))


def mulT(ds):
    r = tm.ONE
    for d in ds:
        r = tm.mul(r, num(d))
    return canon_dim(r)


def size_of(arr):
    return mulT(arr.shape)


def dim_sub(I, hi, lo):
    hi, lo = num(hi), num(lo)
    d = tm.sub(hi, lo)
    c = I.decide(tm.le(tm.ZERO, d))
    if c is TRUE:
        return d
    if c is FALSE:
        return tm.ZERO
    return tm.minmax_('max', tm.ZERO, d)


# ---------------------------------------------------------------- build / read
def combos(shape):
    return itertools.product(*[range(d) for d in shape if conc(d)])


def full_index(shape, combo):
    it = iter(combo)
    return [next(it) if conc(d) else av(k) for k, d in enumerate(shape)]


def build(I, shape, f, dtype='f', owner=None):
    """materialise an array; f(idx list of int | T) -> element value"""
    shape = tuple(canon_dim(d) for d in shape)
    n = 1
    for d in shape:
        if conc(d):
            n *= max(d, 0)
    if n > MAXCELLS:
        return Opaque('large array')
    cells = {}
    vs = {k: tm.fresh('e', D(d)) for k, d in enumerate(shape) if not conc(d)}
    back = {v: av(k) for k, v in vs.items()}
    for combo in combos(shape):
        it = iter(combo)
        idx = [next(it) if conc(d) else vs[k] for k, d in enumerate(shape)]
        v = f(idx)
        cells[combo] = v
    if back:
        with ranges({f'a{k}': D(shape[k]) for k in vs}):
            for c, v in cells.items():
                cells[c] = subst_val(v, back)
    b = I.alloc(Buf(shape, cells, dtype, owner))
    return Arr(b, shape, ident(len(shape)), dtype)


def subst_val(v, m):
    if isinstance(v, T):
        return tm.subst(v, m)
    if isinstance(v, Choice):
        return Choice(tm.subst(v.cond, m), subst_val(v.a, m), subst_val(v.b, m))
    if isinstance(v, tuple):
        return tuple(subst_val(x, m) for x in v)
    return v


def read(I, arr, idx):
    buf = I.st.heap[arr.buf]
    m = {ov(j): num(i) for j, i in enumerate(idx)}
    base = [tm.subst(x, m) for x in arr.maps]
    return read_base(I, buf, base)


def read_base(I, buf, base):
    sub = {}
    keys = [()]
    conds = [TRUE]
    for k, (d, b) in enumerate(zip(buf.shape, base)):
        if conc(d):
            if tm.isnum(b):
                j = int(b.args[0])
                if not 0 <= j < d:
                    return Opaque('index out of range')
                keys = [x + (j,) for x in keys]
            else:
                # symbolic index into expanded axis
                nk, nc = [], []
                for x, c in zip(keys, conds):
                    for j in range(d):
                        nk.append(x + (j,))
                        nc.append(and_(c, tm.eq(b, num(j))) if j < d - 1 else c)
                keys, conds = nk, nc
        else:
            sub[av(k)] = b
    if not keys:
        return Opaque('empty')
    r = None
    for x, c in zip(reversed(keys), reversed(conds)):
        v = subst_val(buf.cells[x], sub) if sub else buf.cells[x]
        r = v if r is None else I.join_val(c, v, r)
    return r


def scalar(I, arr):
    return read(I, arr, [])


# ---------------------------------------------------------------- conversion
def dt_of(v):
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, T):
        return 'b' if tm.isbool(v) else 'i' if v.op not in ('num',) and tm.isint(v) else 'f'
    if isinstance(v, Arr):
        return v.dtype
    return 'o'


def join_dt(*ds):
    if 'o' in ds:
        return 'o'
    for x in ('f', 'i', 'b'):
        if x in ds:
            return x
    return 'f'


def is_listy(I, v):
    return isinstance(v, tuple) or (isinstance(v, Ref) and isinstance(I.get(v), LList))


def nested_shape(I, v):
    """shape of a value, None if unknown, 'ragged' when inhomogeneous"""
    v = I.resolve(v)
    if isinstance(v, Arr):
        return v.shape
    if isnumeric(v) or v is None or isinstance(v, (str, Ext)):
        return ()
    if is_listy(I, v):
        items = I.items(v)
        if items is None:
            return None
        if not items:
            return (0,)
        shs = [nested_shape(I, x) for x in items]
        if any(s is None for s in shs):
            return None
        if any(s == 'ragged' for s in shs):
            return 'ragged'
        s0 = shs[0]
        for s in shs[1:]:
            if len(s) != len(s0):
                return 'ragged'
            for a, b in zip(s, s0):
                c = eqd(I, a, b)
                if c is FALSE:
                    return 'ragged'
                if c is not TRUE:
                    return None
        return (len(items),) + tuple(s0)
    if isinstance(v, VRange):
        n = I.iterate(v)
        if isinstance(n, list):
            return (len(n),)
        return (canon_dim(n.dim),) if n is not None else None
    if isinstance(v, Choice):
        a, b = nested_shape(I, v.a), nested_shape(I, v.b)
        return a if a == b else None
    if isinstance(v, (Func, Cls, Builtin, Bound, Method, ModuleV, ExcV)):
        return ()
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, (LDict, LObj)):
            return ()
    return None


def as_arr(I, v, copy=False, dtype=None):
    """np.asarray; Opaque when unknown"""
    v = I.resolve(v)
    if isinstance(v, Ref) and isinstance(I.get(v), LList) and I.get(v).kind == 'symlist':
        v = I.get(v).items[0]
    if isinstance(v, Ext) and v.kind == 'flat':
        v = reshape(I, v.info['arr'], [-1])
        if isinstance(v, Arr):
            v = cast(I, v, dtype or v.dtype)
    if isinstance(v, Arr):
        if copy or (dtype is not None and dtype != v.dtype):
            return cast(I, v, dtype or v.dtype)
        return v
    if isnumeric(v):
        return build(I, (), lambda i: v if dtype is None else castv(I, v, dtype), dtype or dt_of(v))
    if isinstance(v, SymIter):
        e = v.elem(tm.fresh('p', v.dim))
        if isnumeric(e):
            return build(I, (v.dim,), lambda i: v.elem(i[0]), dtype or dt_of(e))
        if isinstance(e, Arr):
            sh = (canon_dim(num(v.dim)),) + e.shape
            es = {}

            def get(i):
                if i[0] not in es:
                    es[i[0]] = v.elem(i[0])
                return read(I, es[i[0]], i[1:])
            # elements are produced before the buffer is built
            vs = {}
            return build(I, sh, get, dtype or e.dtype)
        if isinstance(e, tuple) and all(isnumeric(x) for x in e):
            return build(I, (canon_dim(num(v.dim)), len(e)), lambda i: v.elem(i[0])[i[1]] if isinstance(i[1], int) else Opaque('tuple'), dtype or join_dt(*[dt_of(x) for x in e]))
        return Opaque('array of iterator')
    if isinstance(v, VRange):
        it = I.iterate(v)
        if isinstance(it, list):
            return build(I, (len(it),), lambda i: it[i[0]], 'i')
        if it is None:
            return Opaque('array of range')
        return build(I, (it.dim,), lambda i: it.elem(num(i[0])), 'i')
    if isinstance(v, Opaque):
        return v
    sh = nested_shape(I, v)
    if sh == 'ragged':
        if dtype != 'o':
            I.raise_('ValueError', 'inhomogeneous shape')
        items = I.items(v)
        return build(I, (len(items),), lambda i: items[i[0]], 'o')
    if sh is None:
        if is_listy(I, v) and I.items(v) is not None:
            # symbolic lengths not provably equal: a mismatch raises
            items = [I.resolve(x) for x in I.items(v)]
            if all(isinstance(x, Arr) and x.ndim == 1 for x in items):
                for x in items[1:]:
                    I.raise_if(not_(eqd(I, x.shape[0], items[0].shape[0])), 'ValueError', 'inhomogeneous')
                return build(I, (len(items),) + items[0].shape, lambda i: read(I, items[i[0]], i[1:]), dtype or join_dt(*[x.dtype for x in items]))
        return Opaque('array of unknown')
    if sh == ():
        if v is None or isinstance(v, (str, Ref, Ext, Func, Cls, Builtin)):
            return build(I, (), lambda i: v, 'o')
        if isinstance(v, Choice):
            return build(I, (), lambda i: v, 'o')
        return Opaque('0-d')
    flat = {}
    dts = []

    def get(x, idx):
        x = I.resolve(x)
        if isinstance(x, Arr):
            return read(I, x, idx)
        if isinstance(x, Choice):
            if not idx:
                return x
            return I.join_val(x.cond, get(x.a, idx), get(x.b, idx))
        if not idx:
            return x
        items = I.items(x)
        i = idx[0]
        if not isinstance(i, int):
            it = I.iterate(x)
            if isinstance(it, SymIter):
                return it.elem(num(i))
            if items is None or len(items) > 64:
                return Opaque('get')
            # a longer list: choice of the item by the index
            vs = [get(y, idx[1:]) for y in items]
            r = vs[-1]
            for k in range(len(vs) - 2, -1, -1):
                r = I.join_val(tm.eq(tm.tonum(I.T(i)), num(k)), vs[k], r)
            return r
        return get(items[i], idx[1:])

    def leaf_dt(x):
        x = I.resolve(x)
        if isinstance(x, Arr):
            return x.dtype
        if is_listy(I, x):
            return join_dt(*([leaf_dt(y) for y in (I.items(x) or [])] or ['f']))
        if isinstance(x, VRange):
            return 'i'
        if isinstance(x, Choice):
            return join_dt(leaf_dt(x.a), leaf_dt(x.b))
        return dt_of(x)
    dt = dtype or leaf_dt(v)
    r = build(I, sh, lambda idx: castv(I, get(v, idx), dt) if dtype else get(v, idx), dt)
    return r


def castv(I, x, dt):
    if isinstance(x, Choice):
        return I.join_val(x.cond, castv(I, x.a, dt), castv(I, x.b, dt))
    if not isnumeric(x):
        if dt == 'f' and x is None:
            return tm.NAN
        return x
    t = I.T(x)
    if dt == 'f':
        return tm.tonum(t)
    if dt == 'i':
        return tm.fn('trunc', tm.tonum(t))
    if dt == 'b':
        return tm.truth(t)
    return x


def cast(I, arr, dt):
    return build(I, arr.shape, lambda i: castv(I, read(I, arr, i), dt), dt)


# ---------------------------------------------------------------- broadcasting / elementwise
def bshape(I, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = x
                continue
            c = eqd(I, d, x)
            if c is TRUE:
                continue
            # assumed: a symbolic dimension is not 1
            I.raise_if(not_(c), 'ValueError', f'shape mismatch {d} {x}')
            if isinstance(x, int):
                d = x
        out.append(d)
    return tuple(out)


def bread(I, v, shape, idx):
    """element of v broadcast to an array of ndim len(idx)"""
    if isnumeric(v):
        return v
    if isinstance(v, Arr):
        off = len(idx) - v.ndim
        return read(I, v, [0 if (isinstance(d, int) and d == 1) else idx[off + k] for k, d in enumerate(v.shape)])
    return v


def ewise(I, f, vs, dtype=None):
    """apply f elementwise with broadcasting; scalars stay scalar"""
    vs = [I.resolve(v) for v in vs]
    if any(isinstance(v, Choice) for v in vs):
        return I.splitn(vs, lambda vs: ewise(I, f, vs, dtype))
    if any(isinstance(v, Opaque) for v in vs):
        return Opaque('elementwise')
    vs = [v if isnumeric(v) or isinstance(v, Arr) else as_arr(I, v) for v in vs]
    if any(isinstance(v, Opaque) for v in vs):
        return Opaque('elementwise')

    def g(xs):
        if any(isinstance(x, Choice) for x in xs):
            for k, x in enumerate(xs):
                if isinstance(x, Choice):
                    return I.join_val(x.cond, g(xs[:k] + [x.a] + xs[k + 1:]), g(xs[:k] + [x.b] + xs[k + 1:]))
        if any(not isnumeric(x) for x in xs):
            return fo(xs) if fo else Opaque('object element')
        return f(*[I.T(x) for x in xs])
    fo = getattr(f, 'obj', None)
    if not any(isinstance(v, Arr) for v in vs):
        return g(vs)
    shape = bshape(I, [v.shape if isinstance(v, Arr) else () for v in vs])
    if dtype is None:
        dtype = join_dt(*[dt_of(v) for v in vs])
    if shape == ():
        r = g([scalar(I, v) if isinstance(v, Arr) else v for v in vs])
        return r
    return build(I, shape, lambda idx: g([bread(I, v, shape, idx) for v in vs]), dtype)


# ---------------------------------------------------------------- views
def view(arr, shape, m):
    """m: list of T index for each axis of arr, over o0.. of new axes"""
    sub = {ov(j): x for j, x in enumerate(m)}
    return Arr(arr.buf, shape, [tm.subst(x, sub) for x in arr.maps], arr.dtype)


def transpose(arr, perm):
    inv = [None] * len(perm)
    for newk, old in enumerate(perm):
        inv[old] = ov(newk)
    return view(arr, [arr.shape[p] for p in perm], inv)


def squeeze(I, arr, axis=None):
    keep = []
    for k, d in enumerate(arr.shape):
        if axis is not None:
            if k in axis:
                I.raise_if(not_(eqd(I, d, 1)), 'ValueError', 'squeeze')
                continue
            keep.append(k)
            continue
        if isinstance(d, int) and d == 1:
            continue
        keep.append(k)       # symbolic dimensions are assumed larger than one
    m = [tm.ZERO] * arr.ndim
    for newk, old in enumerate(keep):
        m[old] = ov(newk)
    return view(arr, [arr.shape[k] for k in keep], m)


def expand(arr, pos):
    """insert a new axis of size 1 at pos"""
    m = [ov(k if k < pos else k + 1) for k in range(arr.ndim)]
    sh = list(arr.shape)
    sh.insert(pos, 1)
    return view(arr, sh, m)


def atleast(I, arr, n):
    if arr.ndim >= n:
        return arr
    if n == 1:
        return view(arr, (1,), [])
    if n == 2:
        if arr.ndim == 0:
            return view(arr, (1, 1), [])
        return expand(arr, 0)
    return Opaque('atleast_3d')


def ravel_idx(shape, idx):
    f = tm.ZERO
    for d, i in zip(shape, idx):
        f = tm.add(tm.mul(f, D(d)), num(i))
    return f


def unravel(shape, flat):
    out = []
    for d in reversed(shape[1:]):
        out.append(tm.mod(flat, D(d)))
        flat = tm.floordiv(flat, D(d))
    out.append(flat)
    return list(reversed(out)) if shape else []


def reshape(I, arr, shape):
    shape = [canon_dim(d) if not isinstance(d, Opaque) else d for d in shape]
    if any(isinstance(d, Opaque) for d in shape):
        return Opaque('reshape')
    tot = size_of(arr)
    if any(isinstance(d, int) and d == -1 for d in shape):
        k = [isinstance(d, int) and d == -1 for d in shape].index(True)
        rest = mulT([d for j, d in enumerate(shape) if j != k])
        if isinstance(rest, int) and rest == 0:
            shape[k] = 0
        else:
            q = tm.div(D(tot), D(rest))
            if not tm.isint(q) and not tm.isnum(q):
                q = tm.floordiv(D(tot), D(rest))
            shape[k] = canon_dim(q)
    else:
        I.raise_if(not_(eqd(I, mulT(shape), tot)), 'ValueError', 'cannot reshape')
    shape = tuple(shape)
    if shape == arr.shape:
        return arr
    old = [d for d in arr.shape if not (isinstance(d, int) and d == 1)]
    new = [d for d in shape if not (isinstance(d, int) and d == 1)]
    if old == new:
        m = [tm.ZERO] * arr.ndim
        pos = [k for k, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
        j = 0
        for k, d in enumerate(arr.shape):
            if not (isinstance(d, int) and d == 1):
                m[k] = ov(pos[j])
                j += 1
        return view(arr, shape, m)

    def f(idx):
        return read(I, arr, unravel(arr.shape, ravel_idx(shape, idx)))
    r = build(I, shape, f, arr.dtype, owner=I.get(arr).owner)
    return r


def broadcast_to(I, arr, shape):
    off = len(shape) - arr.ndim
    m = []
    for k, d in enumerate(arr.shape):
        if isinstance(d, int) and d == 1:
            m.append(tm.ZERO)
        else:
            I.raise_if(not_(eqd(I, d, shape[off + k])), 'ValueError', 'broadcast_to')
            m.append(ov(off + k))
    return view(arr, shape, m)


# ---------------------------------------------------------------- indexing
def norm_int(I, i, d):
    """integer index -> nonnegative T; raises IndexError when out of range"""
    t = num(i) if not isinstance(i, T) else tm.tonum(i)
    if tm.isnum(t) and t.args[0] < 0:
        t2 = tm.add(D(d), t)
        I.raise_if(tm.lt(t2, tm.ZERO), 'IndexError', 'index')
        return t2
    if tm.isnum(t):
        I.raise_if(tm.le(D(d), t), 'IndexError', 'index')
        return t
    if not tm.nonneg(t):
        c = I.decide(tm.lt(t, tm.ZERO))
        if c is not FALSE:
            t = ite(c, tm.add(t, D(d)), t)
    return t


def norm_slice(I, s, d):
    """-> (start T, length dim, step int) or None"""
    step = I.resolve(s.step)
    if step is None:
        step = 1
    if isinstance(step, T) and tm.isnum(step):
        step = int(step.args[0])
    if not isinstance(step, int) or step == 0:
        return None
    dT = D(d)

    def bound(x, dflt):
        x = I.resolve(x)
        if x is None:
            return dflt
        if isinstance(x, Arr) and x.ndim == 0:
            x = scalar(I, x)
        if not isnumeric(x):
            return None
        t = tm.tonum(I.T(x))
        if tm.isnum(t):
            c = int(t.args[0])
            if c < 0:
                r = tm.add(dT, t)
                if I.decide(tm.le(tm.ZERO, r)) is TRUE or not isinstance(d, int):
                    return r
                return tm.ZERO
            if isinstance(d, int):
                return num(min(c, d))
            if I.decide(tm.le(t, dT)) is TRUE or c <= 2:
                return t           # symbolic dims are taken to be large enough for small constants
            return tm.minmax_('min', t, dT)
        if not tm.nonneg(t):
            c = I.decide(tm.lt(t, tm.ZERO))
            if c is TRUE:
                t = tm.add(t, dT)
            elif c is not FALSE:
                t = ite(c, tm.add(t, dT), t)
        if I.decide(tm.le(t, dT)) is TRUE:
            return t
        return tm.minmax_('min', t, dT)
    if step > 0:
        lo, hi = bound(s.lo, tm.ZERO), bound(s.hi, dT)
        if lo is None or hi is None:
            return None
        n = dim_sub(I, hi, lo)
        if step != 1:
            n = tm.floordiv(tm.add(n, num(step - 1)), num(step))
        return lo, canon_dim(n), step
    if s.lo is None and s.hi is None and step == -1:
        return tm.sub(dT, tm.ONE), d, -1
    if isinstance(d, int):
        lo = I.resolve(s.lo)
        hi = I.resolve(s.hi)
        if all(x is None or isinstance(x, int) for x in (lo, hi)):
            r = range(*slice(lo, hi, step).indices(d))
            return num(r.start), len(r), step
    return None


def is_mask(v):
    return isinstance(v, Arr) and v.dtype == 'b'


def prep_index(I, arr, index):
    if not isinstance(index, tuple):
        index = (index,)
    out = []
    for x in index:
        x = I.resolve(x)
        if isinstance(x, Choice):
            return x
        if isinstance(x, Ref) and isinstance(I.get(x), LList):
            x = as_arr(I, x)
            if isinstance(x, Arr) and x.shape == (0,):
                x = cast(I, x, 'i')
        if isinstance(x, Ext) and x.kind == 'ix':
            return x
        if isinstance(x, VRange):
            x = as_arr(I, x)
        if isinstance(x, tuple):
            x = as_arr(I, x)
        if isinstance(x, Arr) and x.ndim == 0 and x.dtype != 'b':
            x = scalar(I, x)
        if isinstance(x, bool) or (isinstance(x, T) and tm.isbool(x)):
            return Opaque('boolean scalar index')
        out.append(x)
    n = 0
    for x in out:
        if x is None or x is Ellipsis:
            continue
        n += x.ndim if is_mask(x) else 1
    if n > arr.ndim:
        I.raise_('IndexError', 'too many indices')
    if any(x is Ellipsis for x in out):
        k = [x is Ellipsis for x in out].index(True)
        out[k:k + 1] = [Slice(None, None, None)] * (arr.ndim - n)
    else:
        out += [Slice(None, None, None)] * (arr.ndim - n)
    return out


def index_view(I, arr, index):
    """basic part of an index -> (view, advanced) where advanced is list of (axis in view, array)"""
    sh, m, adv = [], [], []
    ax = 0
    for x in index:
        if x is None:
            sh.append(1)
            continue
        if isinstance(x, Opaque):
            return None
        d = arr.shape[ax]
        if isinstance(x, Slice):
            r = norm_slice(I, x, d)
            if r is None:
                return None
            start, n, step = r
            m.append(tm.add(start, tm.mul(num(step), ov(len(sh)))))
            sh.append(n)
            ax += 1
        elif isinstance(x, Arr):
            nd = x.ndim if is_mask(x) else 1
            adv.append((len(sh), x))
            for _ in range(nd):
                m.append(ov(len(sh)))
                sh.append(arr.shape[ax])
                ax += 1
        elif isnumeric(x):
            if isinstance(x, T) and x.op == 'ite' and not tm.isint(x):
                pass
            m.append(norm_int(I, x, d))
            ax += 1
        else:
            I.raise_('IndexError', f'bad index {x!r}')
    return view(arr, sh, m), adv


def getitem(I, arr, index):
    if isinstance(index, Opaque):
        return Opaque('index')
    ix = prep_index(I, arr, index)
    if isinstance(ix, Choice):
        idx = index if isinstance(index, tuple) else (index,)
        return I.splitn(list(idx), lambda vs: getitem(I, arr, tuple(vs)))
    if isinstance(ix, Opaque):
        return ix
    if isinstance(ix, Ext):
        arrs = ix.info['arrs']
        if len(arrs) != arr.ndim:
            return Opaque('ix')
        return build(I, [a.shape[0] for a in arrs], lambda i: read(I, arr, [norm_int(I, read(I, a, [j]), d) for a, j, d in zip(arrs, i, arr.shape)]), arr.dtype)
    r = index_view(I, arr, ix)
    if r is None:
        return Opaque('index')
    v, adv = r
    if not adv:
        if v.shape == ():
            return read(I, v, [])
        return v
    return advanced_get(I, v, adv)


def mask_lam(I, mask):
    vs = [tm.fresh('m', D(d)) for d in mask.shape]
    b = read(I, mask, vs)
    if not isnumeric(b):
        return None
    return tm.lam(vs, [D(d) for d in mask.shape], tm.truth(I.T(b)))


def mask_count(I, mask, l=None):
    l = l if l is not None else mask_lam(I, mask)
    vs = [tm.fresh('c', D(d)) for d in mask.shape]
    return canon_dim(tm.bind('sum', vs, [D(d) for d in mask.shape], tm.tonum(tm.apply_lam(l, vs))))


def mask_index(I, mask):
    """-> (count dim, function k -> list of T index per axis) or None"""
    if all(conc(d) for d in mask.shape):
        cells = list(itertools.product(*[range(d) for d in mask.shape]))
        vals = [read(I, mask, list(c)) for c in cells]
        vals = [I.decide(tm.truth(I.T(x))) if isnumeric(x) else None for x in vals]
        if all(x is TRUE or x is FALSE for x in vals):
            sel = [c for c, x in zip(cells, vals) if x is TRUE]

            def pick(k):
                k = num(k)
                if tm.isnum(k):
                    return [num(j) for j in sel[int(k.args[0])]]
                out = []
                for ax in range(mask.ndim):
                    r = num(sel[-1][ax]) if sel else tm.ZERO
                    for q in range(len(sel) - 2, -1, -1):
                        r = ite(tm.eq(k, num(q)), num(sel[q][ax]), r)
                    out.append(r)
                return out
            return len(sel), pick, None
    l = mask_lam(I, mask)
    if l is None:
        return None
    n = mask_count(I, mask, l)
    if mask.ndim == 1:
        if l.args[3] is TRUE:
            return mask.shape[0], (lambda k: [num(k)]), l
        d = D(mask.shape[0])
        return n, (lambda k: [tm.fn('sel', l, d, num(k))]), l
    if l.args[3] is TRUE:
        return size_of(mask), (lambda k: unravel(mask.shape, num(k))), l
    return n, (lambda k: [tm.fn('selm', l, num(ax), num(k)) for ax in range(mask.ndim)]), l


def advanced_get(I, v, adv):
    # boolean masks -> index functions
    parts = []
    for pos, x in adv:
        if is_mask(x):
            for k, d in enumerate(x.shape):
                c = eqd(I, d, v.shape[pos + k])
                if c is not TRUE:
                    I.raise_if(not_(c), 'IndexError', 'boolean index did not match')
            r = mask_index(I, x)
            if r is None:
                return Opaque('mask')
            n, pick, _ = r
            parts.append((pos, x.ndim, (n,), lambda idx, pick=pick: pick(idx[0])))
        else:
            d = v.shape[pos]
            parts.append((pos, 1, x.shape, lambda idx, x=x, d=d: [norm_elem(I, read(I, x, idx), d)]))
    bsh = bshape(I, [p[2] for p in parts]) if len(parts) > 1 else parts[0][2]
    used = set()
    for pos, nd, _, _ in parts:
        used |= set(range(pos, pos + nd))
    first = min(used)
    contiguous = used == set(range(first, first + len(used)))
    at = first if contiguous else 0
    rest = [k for k in range(v.ndim) if k not in used]
    before = [k for k in rest if k < first] if contiguous else []
    after = [k for k in rest if k not in before]
    shape = [v.shape[k] for k in before] + list(bsh) + [v.shape[k] for k in after]
    nb = len(bsh)

    def f(idx):
        bi = idx[len(before):len(before) + nb]
        src = [None] * v.ndim
        for k, i in zip(before, idx[:len(before)]):
            src[k] = i
        for k, i in zip(after, idx[len(before) + nb:]):
            src[k] = i
        for pos, nd, sh, fn in parts:
            off = nb - len(sh)
            ii = [0 if (isinstance(d, int) and d == 1) else bi[off + k] for k, d in enumerate(sh)]
            for k, t in enumerate(fn(ii)):
                if isinstance(t, Opaque):
                    return Opaque('index element')
                src[pos + k] = t
        return read(I, v, src)
    r = build(I, shape, f, v.dtype)
    if any(is_mask(x) and not all(conc(d) for d in x.shape) for _, x in adv) and v.dtype != 'o':
        from . import npfuncs as n1
        return n1.compact(I, r)
    return r


def norm_elem(I, t, d):
    if not isnumeric(t):
        return Opaque('index element')
    t = tm.tonum(I.T(t))
    if tm.isnum(t):
        return tm.add(t, D(d)) if t.args[0] < 0 else t
    if tm.nonneg(t):
        return t
    c = I.decide(tm.lt(t, tm.ZERO))
    return ite(c, tm.add(t, D(d)), t)


# ---------------------------------------------------------------- writing
def invert(maps, base, vshape):
    """indices of the view at base position `base` -> (conds, idx) or None"""
    idx = [None] * len(vshape)
    conds = []
    for m, b in zip(maps, base):
        b = num(b)
        os = [j for j in range(len(vshape)) if f'o{j}' in m.fv]
        if not os:
            conds.append(tm.eq(b, m))
            continue
        if len(os) > 1:
            return None
        j = os[0]
        c0 = tm.subst(m, {ov(j): tm.ZERO})
        s = tm.sub(tm.subst(m, {ov(j): tm.ONE}), c0)
        if not tm.isnum(s) or tm.sub(m, tm.add(c0, tm.mul(s, ov(j)))) is not tm.ZERO or s is tm.ZERO:
            return None
        q = tm.div(tm.sub(b, c0), s)
        if abs(s.args[0]) != 1:
            if not tm.isnum(q):
                conds.append(tm.eq(tm.mod(tm.sub(b, c0), s), tm.ZERO))
                q = tm.floordiv(tm.sub(b, c0), s)
            elif q.args[0].denominator != 1:
                conds.append(FALSE)
                q = tm.ZERO
        if idx[j] is not None:
            conds.append(tm.eq(idx[j], q))
        else:
            idx[j] = q
            conds.append(tm.le(tm.ZERO, q))
            conds.append(tm.lt(q, D(vshape[j])))
    for j, i in enumerate(idx):
        if i is None:
            idx[j] = tm.ZERO
    return conds, [int(i.args[0]) if tm.isnum(i) and i.args[0].denominator == 1 else i for i in idx]


def coerce_store(I, v, dt):
    """value stored into a buffer of dtype dt"""
    if dt == 'i' and isnumeric(v):
        t = tm.tonum(I.T(v))
        if not tm.isint(t):
            I.event('trunc', value=t)
            return tm.fn('trunc', t)
        return t
    if dt == 'b' and isnumeric(v):
        return tm.truth(I.T(v))
    if dt == 'f' and isnumeric(v):
        return tm.tonum(I.T(v))
    if dt == 'f' and v is None:
        return tm.NAN
    return v


def write(I, v, f, what='setitem'):
    """store f(idx) at every position of view v"""
    buf = I.st.heap[v.buf]
    I.event('write', owner=buf.owner, what=what, obj=v)
    nb = I.wr(v.buf)
    rng = {f'a{k}': D(d) for k, d in enumerate(buf.shape) if not conc(d)}
    with ranges(rng):
        new = {}
        for combo in combos(buf.shape):
            base = full_index(buf.shape, combo)
            r = invert(v.maps, base, v.shape)
            if r is None:
                new = {c: Opaque('scattered write') for c in buf.cells}
                break
            conds, idx = r
            c = and_(*[I.decide(x) for x in conds])
            if c is FALSE:
                continue
            # index variables inside f must not be mistaken for the canonical variables of other arrays
            val = f(idx)
            val = coerce_store(I, val, buf.dtype)
            new[combo] = val if c is TRUE else I.join_val(c, val, buf.cells[combo])
    nb.cells.update(new)


def smash(I, v, why):
    buf = I.st.heap[v.buf]
    I.event('write', owner=buf.owner, what='setitem', obj=v)
    nb = I.wr(v.buf)
    for c in nb.cells:
        nb.cells[c] = Opaque(why)


def setitem(I, arr, index, val):
    val = I.resolve(val)
    if isinstance(val, Choice):
        return I.split(val, lambda x: setitem(I, arr, index, x))
    if isinstance(index, Opaque):
        return smash(I, arr, 'index')
    ix = prep_index(I, arr, index)
    if isinstance(ix, Choice):
        idx = index if isinstance(index, tuple) else (index,)
        return I.splitn(list(idx), lambda vs: setitem(I, arr, tuple(vs), val))
    if isinstance(ix, (Opaque, Ext)):
        return smash(I, arr, 'index')
    r = index_view(I, arr, ix)
    if r is None:
        return smash(I, arr, 'index')
    v, adv = r
    if isinstance(val, Opaque):
        if not adv:
            return write(I, v, lambda idx: val)
        return smash(I, arr, 'opaque value')
    if not (isnumeric(val) or isinstance(val, Arr) or val is None or isinstance(val, str)) or \
            (isinstance(val, (Ref,)) and arr.dtype != 'o'):
        if arr.dtype == 'o' and v.shape == () and not adv:
            return write(I, v, lambda idx: val)
        val = as_arr(I, val)
        if isinstance(val, Opaque):
            return smash(I, arr, 'opaque value')
    if not adv:
        if isinstance(val, Arr):
            if val.buf == v.buf:
                val = cast(I, val, val.dtype)
            check_fit(I, val.shape, v.shape)
            if v.shape == () and val.ndim:
                return write(I, v, lambda idx: read(I, val, [0] * val.ndim))
        return write(I, v, lambda idx: bget(I, val, v.shape, idx))
    return advanced_set(I, v, adv, val)


def check_fit(I, src, dst):
    src = list(src)
    while len(src) > len(dst) and isinstance(src[0], int) and src[0] == 1:
        src = src[1:]
    if len(src) > len(dst):
        I.raise_('ValueError', 'could not broadcast')
    off = len(dst) - len(src)
    for k, d in enumerate(src):
        if isinstance(d, int) and d == 1:
            continue
        c = eqd(I, d, dst[off + k])
        if c is not TRUE:
            I.raise_if(not_(c), 'ValueError', f'could not broadcast {d} into {dst[off + k]}')


def bget(I, val, shape, idx):
    if isinstance(val, Arr):
        if val.ndim > len(idx):
            ex = val.ndim - len(idx)
            return read(I, val, [0] * ex + [0 if (isinstance(d, int) and d == 1) else idx[k] for k, d in enumerate(val.shape[ex:])])
        return bread(I, val, shape, idx)
    return val


def advanced_set(I, v, adv, val):
    if isinstance(val, Arr) and val.buf == v.buf:
        val = cast(I, val, val.dtype)
    if len(adv) == 1 and is_mask(adv[0][1]):
        pos, mask = adv[0]
        mnd = mask.ndim
        for k, d in enumerate(mask.shape):
            c = eqd(I, d, v.shape[pos + k])
            if c is not TRUE:
                I.raise_if(not_(c), 'IndexError', 'boolean index did not match')
        if mask.buf == v.buf:
            mask = cast(I, mask, 'b')
        r = mask_index(I, mask)
        if r is None:
            return smash(I, v, 'mask')
        n, pick, l = r
        sel_shape = list(v.shape[:pos]) + [n] + list(v.shape[pos + mnd:])
        if isinstance(val, Arr) and val.ndim:
            check_fit(I, val.shape, sel_shape)
        old = {}

        def f(idx):
            m = read(I, mask, idx[pos:pos + mnd])
            c = I.decide(tm.truth(I.T(m)))
            o = read(I, v, idx)
            if c is FALSE:
                return o
            if isinstance(val, Arr) and val.ndim and not (val.ndim == 1 and val.shape[0] == 1 and isinstance(val.shape[0], int)):
                mi = idx[pos:pos + mnd]
                if l is None:
                    # concrete mask: rank by counting
                    cells = list(itertools.product(*[range(d) for d in mask.shape]))
                    rank = 0
                    for cc in cells:
                        if list(cc) == list(mi):
                            break
                        if I.decide(tm.truth(I.T(read(I, mask, list(cc))))) is TRUE:
                            rank += 1
                    k = rank
                elif mnd == 1:
                    k = tm.fn('rank', l, D(mask.shape[0]), num(mi[0])) if l.args[3] is not TRUE else num(mi[0])
                else:
                    k = tm.fn('rankm', l, *[num(x) for x in mi])
                x = bget(I, val, sel_shape, idx[:pos] + [k] + idx[pos + mnd:])
            else:
                x = bget(I, val, sel_shape, [0] * len(sel_shape)) if isinstance(val, Arr) else val
            x = coerce_store(I, x, I.get(v).dtype)
            return x if c is TRUE else I.join_val(c, x, o)
        # snapshot: f reads v before the write
        snap = I.st.heap[v.buf]
        sid = I.alloc(Buf(snap.shape, dict(snap.cells), snap.dtype))
        sv = Arr(sid, v.shape, v.maps, v.dtype)
        vv = v

        def g(idx):
            nonlocal v
            save, v = v, sv
            try:
                return f(idx)
            finally:
                v = save
        return write(I, vv, g)
    if all(not is_mask(x) for _, x in adv) and all(all(conc(d) for d in x.shape) for _, x in adv):
        bsh = bshape(I, [x.shape for _, x in adv])
        tgt = []
        for c in itertools.product(*[range(d) for d in bsh]):
            ii = {}
            for pos, x in adv:
                t = bread(I, x, bsh, list(c))
                if not isnumeric(t):
                    return smash(I, v, 'index')
                t = norm_elem(I, t, v.shape[pos])
                ii[pos] = t
            tgt.append((c, ii))
        used = sorted(p for p, _ in adv)
        contiguous = used == list(range(used[0], used[0] + len(used)))
        for c, ii in tgt:
            index = tuple(ii[k] if k in ii else Slice(None, None, None) for k in range(v.ndim))
            if isinstance(val, Arr) and val.ndim:
                restn = v.ndim - len(used)
                if val.ndim <= restn:
                    x = val
                elif contiguous and used[0] == 0 or restn == 0:
                    vi = [0 if (isinstance(d, int) and d == 1) else c[k] for k, d in enumerate(val.shape[:len(bsh)])] if val.ndim >= len(bsh) else list(c)[-val.ndim:]
                    x = getitem(I, val, tuple(vi))
                elif contiguous:
                    b = used[0]
                    off = val.ndim - (v.ndim - len(used) + len(bsh))
                    vi = [Slice(None, None, None)] * max(0, b + off)
                    vi += [0 if (isinstance(val.shape[len(vi) + k], int) and val.shape[len(vi) + k] == 1) else q for k, q in enumerate(c)]
                    x = getitem(I, val, tuple(vi))
                else:
                    return smash(I, v, 'scatter')
            else:
                x = val
            setitem(I, v, index, x)
        return
    # symbolic integer scatter
    if len(adv) == 1 and not is_mask(adv[0][1]) and adv[0][1].ndim == 1 and v.ndim == 1 and isnumeric(val) is False:
        pass
    return smash(I, v, 'scatter')


def assign_all(I, arr, val):
    """arr[...] = val in place, with numpy's casting rule for in-place operators"""
    if arr.dtype in ('i', 'b') and dt_of(I.resolve(val)) == 'f' and not isinstance(val, (Opaque, Choice)):
        I.raise_('TypeError', 'cannot cast in place')
    setitem(I, arr, Ellipsis, val)
