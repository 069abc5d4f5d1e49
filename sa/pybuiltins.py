"""Python builtins and small library functions."""
import builtins as _b
import itertools as _it

from . import terms as tm
from .terms import T, num, TRUE, FALSE, ite, and_, or_, not_
from .values import *  # noqa
from .values import conc, canon_dim, same
from . import npcore as nc
from .npcore import as_arr, read, scalar, size_of, build, dt_of, is_listy, reshape
from . import npfuncs as nf
from .npfuncs import MODELS, pyb, ints, one
from . import npmodel as nm
from .pycalls import BI, bi


def type_of(I, v):
    """python type name of a value, or None"""
    v = I.resolve(v)
    if isinstance(v, bool) or isinstance(v, T) and tm.isbool(v):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, T):
        return 'npint' if tm.isint(v) else 'float'
    if isinstance(v, str):
        return 'str'
    if v is None:
        return 'NoneType'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, Arr):
        return 'ndarray'
    if isinstance(v, Slice):
        return 'slice'
    if isinstance(v, VRange):
        return 'range'
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, LList):
            return 'set' if o.kind == 'set' else 'list'
        if isinstance(o, LDict):
            return 'dict'
    if isinstance(v, (Func, Bound, Method, Builtin)):
        return 'function'
    if isinstance(v, Cls):
        return 'type'
    if isinstance(v, ExcV):
        return v.cls
    if isinstance(v, ModuleV):
        return 'module'
    if isinstance(v, SymIter):
        return 'list'
    return None


SUB = {'bool': {'bool', 'int', 'bool_', 'Number', 'Integral', 'Real', 'Hashable'}, 'int': {'int', 'Number', 'Integral', 'Real', 'integer', 'int64', 'Hashable'},
       'npint': {'int', 'integer', 'int64', 'Number', 'Integral', 'Real', 'signedinteger', 'number', 'generic', 'Hashable'},
       'float': {'float', 'float64', 'floating', 'Number', 'Real', 'number', 'inexact', 'generic', 'Hashable'},
       'str': {'str', 'Sequence', 'Iterable', 'Hashable', 'Sized', 'Container', 'Collection'}, 'NoneType': {'NoneType', 'Hashable'}, 'tuple': {'tuple', 'Sequence', 'Iterable', 'Sized', 'Collection', 'Container', 'Hashable'},
       'ndarray': {'ndarray', 'Iterable', 'Sized', 'Container', 'Collection'}, 'list': {'list', 'Sequence', 'MutableSequence', 'Iterable', 'Sized', 'Container', 'Collection'},
       'set': {'set', 'Iterable', 'Sized', 'Collection', 'Container'}, 'dict': {'dict', 'Mapping', 'MutableMapping', 'Iterable', 'Sized', 'Collection', 'Container', 'OrderedDict'},
       'function': {'function', 'Callable', 'FunctionType', 'Hashable'}, 'type': {'type', 'Callable', 'Hashable'}, 'range': {'range', 'Sequence', 'Iterable', 'Sized'}, 'slice': {'slice'}}


def isinst(I, v, c):
    """bool, or None when unknown"""
    c = I.resolve(c)
    if isinstance(c, tuple):
        rs = [isinst(I, v, x) for x in c]
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False
    v = I.resolve(v)
    if isinstance(c, Cls):
        if isinstance(v, Ref) and isinstance(I.get(v), LObj):
            oc = I.get(v).cls
            return oc is not None and c in oc.mro()
        if isinstance(v, ExcV):
            return v.cls == c.name
        return None if isinstance(v, Opaque) else False
    if isinstance(c, Builtin):
        n = c.name.split('.')[-1]
        if n == 'object':
            return True
        if isinstance(v, Ref) and isinstance(I.get(v), LObj):
            oc = I.get(v).cls
            if oc is None:
                return None
            return any(isinstance(b, Builtin) and b.name == c.name for b in oc.ext_bases())
        if isinstance(v, ExcV):
            from .interp import exc_sub
            return exc_sub(v.cls, n)
        if isinstance(v, Ext):
            if v.kind == 'dtype':
                return n == 'dtype'
            return None
        t = type_of(I, v)
        if t is None:
            return None
        return n in SUB.get(t, {t})
    return None


@bi('isinstance')
def b_isinstance(I, a, kw):
    r = isinst(I, a[0], a[1])
    return nm.unknown_bool(I) if r is None else r


@bi('issubclass')
def b_issubclass(I, a, kw):
    x, y = a
    if isinstance(x, Cls):
        ys = y if isinstance(y, tuple) else (y,)
        return any((c in x.mro()) if isinstance(c, Cls) else any(b is c for b in x.ext_bases()) or (isinstance(c, Builtin) and c.name == 'object') for c in ys)
    if isinstance(x, Builtin):
        return any(x is c for c in (y if isinstance(y, tuple) else (y,)))
    if isinstance(x, Opaque):
        return nm.unknown_bool(I)
    I.raise_('TypeError', 'issubclass() arg 1 must be a class')


def try_attr(I, o, name):
    """list of path ends of getattr: (state, value) and the states where AttributeError was raised"""
    base = I.st
    I.st = base.fork()
    I.handlers.append([])
    from .interp import Dead
    v = None
    ok = True
    try:
        v = I.getattr(o, name)
    except Dead:
        ok = False
    coll = I.handlers.pop()
    good = [(I.st, v)] if ok else []
    bad = [s for s, e in coll if e.cls == 'AttributeError']
    rest = [(s, e) for s, e in coll if e.cls != 'AttributeError']
    I.handlers[-1].extend(rest)
    return base, good, bad


@bi('hasattr')
def b_hasattr(I, a, kw):
    base, good, bad = try_attr(I, a[0], a[1])
    n = len(base.pc)
    return I.merge([(s, True) for s, _ in good] + [(s, False) for s in bad], n)


@bi('getattr')
def b_getattr(I, a, kw):
    if not isinstance(a[1], str) or '<str>' in a[1]:
        return Opaque('getattr')
    if len(a) < 3:
        return I.getattr(a[0], a[1])
    base, good, bad = try_attr(I, a[0], a[1])
    return I.merge(good + [(s, a[2]) for s in bad], len(base.pc))


@bi('setattr')
def b_setattr(I, a, kw):
    if isinstance(a[1], str) and '<str>' not in a[1]:
        I.setattr(a[0], a[1], a[2])


@bi('len')
def b_len(I, a, kw):
    v = a[0]
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.raise_('TypeError', 'len() of unsized object')
        return v.shape[0]
    if isinstance(v, (tuple,)):
        return len(v)
    if isinstance(v, str):
        return len(v) if '<str>' not in v else Opaque('len')
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, LObj):
            return I.call(I.getattr(v, '__len__'), [], {})
        it = I.items(v)
        if it is None:
            if isinstance(o, LList) and o.kind == 'symlist':
                return canon_dim(num(o.items[0].dim))
            return Opaque('len')
        return len(it)
    if isinstance(v, SymIter):
        return canon_dim(num(v.dim))
    if isinstance(v, VRange):
        it = I.iterate(v)
        return len(it) if isinstance(it, list) else canon_dim(it.dim) if it is not None else Opaque('len')
    if isinstance(v, (Opaque, Ext)) or isinstance(v, Method) and isinstance(v.obj, Ext):
        return Opaque('len')
    I.raise_('TypeError', 'object has no len()')


def as_int(I, v):
    v = I.resolve(v)
    if isinstance(v, Arr) and v.ndim == 0:
        v = scalar(I, v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, T):
        return canon_dim(tm.tonum(v)) if tm.isint(tm.tonum(v)) else None
    return None


@bi('range')
def b_range(I, a, kw):
    xs = [as_int(I, v) for v in a]
    if any(x is None for x in xs):
        for v, x in zip(a, xs):
            if x is None and (v is None or isinstance(v, (str, tuple)) or isinstance(v, T)):
                I.raise_('TypeError', 'range() needs integers')
        return Opaque('range')
    if len(xs) == 1:
        return VRange(0, xs[0], 1)
    if len(xs) == 2:
        return VRange(xs[0], xs[1], 1)
    return VRange(*xs)


def sym_zip(I, its, f):
    """combine iterators: lists and SymIters"""
    if all(isinstance(x, list) for x in its):
        return I.newlist([f(list(t), k) for k, t in enumerate(zip(*its))])
    if any(x is None for x in its):
        return None
    dims = [tm.num(len(x)) if isinstance(x, list) else num(x.dim) for x in its]
    syms = [x for x in its if not isinstance(x, list)]
    d = num(syms[0].dim)
    for s in syms[1:]:
        if num(s.dim) is not d:
            d = tm.minmax_('min', d, num(s.dim))
    for x in its:
        if isinstance(x, list):
            return None
    return SymIter(d, lambda i: f([x.elem(i) for x in its], i))


@bi('zip')
def b_zip(I, a, kw):
    from .interp import StarArg
    if any(isinstance(x, StarArg) for x in a):
        return Opaque('zip(*)')
    r = sym_zip(I, [I.iterate(x) for x in a], lambda xs, i: tuple(xs))
    return Opaque('zip') if r is None else r


@bi('enumerate')
def b_enumerate(I, a, kw):
    st = a[1] if len(a) > 1 else kw.get('start', 0)
    r = sym_zip(I, [I.iterate(a[0])], lambda xs, i: (I.binop('Add', i, st) if st != 0 else i, xs[0]))
    return Opaque('enumerate') if r is None else r


@bi('numpy.ndenumerate')
def b_ndenumerate(I, a, kw):
    arr = as_arr(I, a[0])
    if isinstance(arr, Opaque):
        return arr
    if all(conc(d) for d in arr.shape):
        return I.newlist([(tuple(c), read(I, arr, list(c))) for c in _it.product(*[range(d) for d in arr.shape])])
    n = num(size_of(arr))

    def el(i):
        idx = nc.unravel(arr.shape, i)
        return (tuple(canon_dim(x) if tm.isnum(x) else x for x in idx), read(I, arr, idx))
    return SymIter(n, el)


@bi('numpy.ndindex')
def b_ndindex(I, a, kw):
    sh = nf.dims(I, a[0] if len(a) == 1 else tuple(a))
    if sh is None:
        return Opaque('ndindex')
    if all(isinstance(d, int) and d <= 64 for d in sh):
        return I.newlist([tuple(c) for c in _it.product(*[range(d) for d in sh])])
    return SymIter(num(nc.mulT(sh)), lambda i: tuple(nc.unravel(sh, i)))


@bi('list tuple set frozenset')
def b_list(I, a, kw):
    return to_seq(I, a, list)


def to_seq(I, a, kind):
    if not a:
        return I.newlist([]) if kind is list else ()
    it = I.iterate(a[0])
    if isinstance(it, list):
        return I.newlist(it) if kind is list else tuple(it)
    if it is None:
        return Opaque('sequence') if isinstance(a[0], (Opaque, Ext)) else I.newlist([Opaque('list')], kind='varlen')
    return SymIter(it.dim, it.elem)


BI['tuple'] = lambda I, a, kw: to_seq(I, a, tuple)


def b_set(I, a, kw):
    if not a:
        return I.newlist([], kind='set')
    it = I.iterate(a[0])
    if not isinstance(it, list):
        return I.newlist([Opaque('set')], kind='varlen')
    out = []
    for x in it:
        if not any(same(x, y) for y in out):
            out.append(x)
    if any(isinstance(x, (T, Opaque)) for x in out) and len(out) > 1:
        return I.newlist([Opaque('set')], kind='varlen')
    return I.newlist(out, kind='set')


BI['set'] = BI['frozenset'] = b_set


@bi('dict collections.OrderedDict')
def b_dict(I, a, kw):
    d = I.newdict({})
    if a:
        nm.dict_update(I, d, a[0])
    if kw:
        nm.dict_update(I, d, I.newdict({k: v for k, v in kw.items() if k != '**'}))
        if '**' in kw:
            I.wr(d.id).open = True
    return d


@bi('collections.defaultdict collections.Counter')
def b_ddict(I, a, kw):
    return I.newdict({}, open_=True)


@bi('sorted')
def b_sorted(I, a, kw):
    it = I.iterate(a[0])
    rev = kw.get('reverse', False)
    if isinstance(it, list) and kw.get('key') is None:
        try:
            if all(isinstance(x, (int, str)) and not isinstance(x, bool) for x in it):
                return I.newlist(sorted(it, reverse=bool(rev)))
        except TypeError:
            pass
        if all(isinstance(x, T) and tm.isnum(x) or isinstance(x, int) for x in it):
            return I.newlist(sorted(it, key=lambda x: num(x).args[0], reverse=bool(rev)))
        if len(it) <= 1:
            return I.newlist(it)
    arr = as_arr(I, a[0])
    if isinstance(arr, Arr) and arr.ndim == 1 and arr.dtype != 'o' and kw.get('key') is None:
        r = MODELS['numpy.sort'][0](I, arr, -1, None, None, None)
        if isinstance(r, Arr):
            if rev is not False:
                r = I.getitem(r, Slice(None, None, -1))
            its = I.items(r)
            return I.newlist(its) if its is not None else SymIter(num(r.shape[0]), lambda i: I.getitem(r, i))
    return I.newlist([Opaque('sorted')], kind='varlen')


@bi('reversed')
def b_reversed(I, a, kw):
    it = I.iterate(a[0])
    if isinstance(it, list):
        return I.newlist(list(reversed(it)))
    if it is None:
        return Opaque('reversed')
    return SymIter(it.dim, lambda i: it.elem(tm.sub(tm.sub(num(it.dim), tm.ONE), num(i))))


def minmax(kind):
    def f(I, a, kw):
        if len(a) == 1:
            it = I.iterate(a[0])
            if isinstance(it, list):
                if not it:
                    if 'default' in kw:
                        return kw['default']
                    I.raise_('ValueError', 'empty sequence')
                vals = it
            else:
                arr = as_arr(I, a[0])
                if isinstance(arr, Arr) and arr.ndim == 1 and kw.get('key') is None:
                    return MODELS['numpy.' + kind][0](I, arr, None, None, False)
                return Opaque(kind)
        else:
            vals = list(a)
        if kw.get('key') is not None:
            return Opaque(kind)
        vals = [one(I, x) if isinstance(x, Arr) else I.resolve(x) for x in vals]
        if any(isinstance(x, Opaque) for x in vals):
            return Opaque(kind)
        if any(isinstance(x, Choice) for x in vals):
            return I.splitn(vals, lambda vs: f(I, vs, kw))
        if any(x is None or not isnumeric(x) for x in vals):
            if all(isinstance(x, str) for x in vals):
                return min(vals) if kind == 'min' else max(vals)
            if any(x is None for x in vals):
                I.raise_('TypeError', 'comparison')
            return Opaque(kind)
        r = tm.minmax_(kind, *[tm.tonum(I.T(x)) for x in vals])
        if all(isinstance(x, int) for x in vals):
            return min(vals) if kind == 'min' else max(vals)
        return r
    return f


BI['min'] = minmax('min')
BI['max'] = minmax('max')


@bi('sum')
def b_sum(I, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    it = I.iterate(a[0])
    if isinstance(it, list):
        r = start
        for x in it:
            r = I.binop('Add', r, x)
        return r
    if isinstance(it, SymIter):
        e = it.elem(v := tm.fresh('s', it.dim))
        if isnumeric(e):
            return I.binop('Add', tm.bind('sum', [v], [num(it.dim)], tm.tonum(I.T(e))), start)
        if isinstance(e, Arr):
            sh = e.shape

            def f(idx):
                w = tm.fresh('s', it.dim)
                return tm.bind('sum', [w], [num(it.dim)], tm.tonum(I.T(read(I, it.elem(w), idx))))
            r = build_safe(I, sh, f, e.dtype)
            return r
    return Opaque('sum')


def build_safe(I, sh, f, dt):
    try:
        return build(I, sh, f, dt)
    except TypeError:
        return Opaque('array')


@bi('any')
def b_any(I, a, kw):
    return anyall(I, a, or_, FALSE, 'any')


@bi('all')
def b_all(I, a, kw):
    return anyall(I, a, and_, TRUE, 'all')


def anyall(I, a, op, z, kind):
    it = I.iterate(a[0])
    if isinstance(it, list):
        r = z
        for x in it:
            r = op(r, I.truth(x))
        return pyb(r)
    if isinstance(it, SymIter):
        v = tm.fresh('q', it.dim)
        return pyb(tm.bind(kind, [v], [num(it.dim)], I.truth(it.elem(v))))
    return nm.unknown_bool(I)


@bi('abs')
def b_abs(I, a, kw):
    return nf.MODELS['numpy.abs'][0](I, a[0]) if False else abs_(I, a[0])


def abs_(I, v):
    if isinstance(v, int):
        return abs(v)
    fn, sig = MODELS['numpy.abs']
    from .pycalls import run_model
    return run_model(I, 'numpy.abs', [v], {})


@bi('int numpy.int64 numpy.int32 numpy.intp numpy.int_')
def b_int(I, a, kw):
    if not a:
        return 0
    v = I.resolve(a[0])
    if isinstance(v, Arr):
        if size_of(v) == 1:
            v = read(I, v, [0] * v.ndim)
        else:
            return Opaque('int')
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, T):
        t = tm.tonum(v)
        if t is tm.NAN:
            I.raise_('ValueError', 'cannot convert NaN')
        if t is tm.INF or t is tm.NINF:
            I.raise_('OverflowError', 'cannot convert infinity')
        if tm.isnum(t):
            return int(t.args[0])
        return canon_dim(tm.fn('trunc', t))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            if '<str>' in v:
                return Opaque('int')
            I.raise_('ValueError', 'int')
    if v is None or isinstance(v, tuple) or is_listy(I, v):
        I.raise_('TypeError', 'int() argument')
    return Opaque('int')


@bi('float numpy.float64 numpy.float32 numpy.double numpy.float_')
def b_float(I, a, kw):
    if not a:
        return num(0)
    v = I.resolve(a[0])
    if isinstance(v, Arr):
        if size_of(v) == 1:
            v = read(I, v, [0] * v.ndim)
        else:
            return Opaque('float')
    if isnumeric(v):
        return tm.tonum(I.T(v))
    if isinstance(v, str):
        try:
            return num(float(v))
        except ValueError:
            if '<str>' in v:
                return Opaque('float')
            I.raise_('ValueError', 'float')
    if v is None or isinstance(v, tuple) or is_listy(I, v):
        I.raise_('TypeError', 'float() argument')
    return Opaque('float')


@bi('bool numpy.bool_')
def b_bool(I, a, kw):
    return pyb(I.truth(a[0])) if a else False


@bi('str repr ascii format hex oct bin chr')
def b_str(I, a, kw):
    if len(a) == 1 and isinstance(a[0], str):
        return a[0]
    if len(a) == 1 and isinstance(a[0], int):
        return str(a[0])
    return '<str>'


@bi('print')
def b_print(I, a, kw):
    return None


@bi('type')
def b_type(I, a, kw):
    v = a[0]
    if isinstance(v, Ref) and isinstance(I.get(v), LObj):
        return I.get(v).cls or Opaque('type')
    t = type_of(I, v)
    if t is None:
        return Opaque('type')
    return Builtin({'npint': 'numpy.int64', 'ndarray': 'numpy.ndarray'}.get(t, t))


@bi('callable')
def b_callable(I, a, kw):
    v = a[0]
    if isinstance(v, (Func, Bound, Cls, Builtin, Method)):
        return True
    if isinstance(v, Opaque) or isinstance(v, Ext):
        return nm.unknown_bool(I)
    if isinstance(v, Ref) and isinstance(I.get(v), LObj) and I.get(v).cls:
        return I.cls_lookup(I.get(v).cls, '__call__')[1] is not None
    return False


@bi('map')
def b_map(I, a, kw):
    its = [I.iterate(x) for x in a[1:]]
    r = sym_zip(I, its, lambda xs, i: I.call(a[0], xs, {}))
    return Opaque('map') if r is None else r


@bi('filter')
def b_filter(I, a, kw):
    it = I.iterate(a[1])
    if not isinstance(it, list):
        return Opaque('filter')
    out = []
    for x in it:
        c = I.decide(I.truth(x if a[0] is None else I.call(a[0], [x], {})))
        if c is TRUE:
            out.append(x)
        elif c is not FALSE:
            return I.newlist([Opaque('filter')], kind='varlen')
    return I.newlist(out)


@bi('slice')
def b_slice(I, a, kw):
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(*(list(a) + [None])[:3])


@bi('iter')
def b_iter(I, a, kw):
    return a[0]


@bi('next')
def b_next(I, a, kw):
    it = I.iterate(a[0])
    if isinstance(it, list):
        if it:
            return it[0]
        if len(a) > 1:
            return a[1]
        I.raise_('StopIteration', '')
    return Opaque('next')


@bi('round')
def b_round(I, a, kw):
    if len(a) == 1 or a[1] is None:
        if isinstance(a[0], int):
            return a[0]
        from .pycalls import run_model
        return run_model(I, 'numpy.rint', [a[0]], {})
    from .pycalls import run_model
    return run_model(I, 'numpy.round', list(a), {})


@bi('pow')
def b_pow(I, a, kw):
    return I.binop('Pow', a[0], a[1])


@bi('divmod')
def b_divmod(I, a, kw):
    return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))


@bi('id hash input dir vars memoryview bytes bytearray complex')
def b_opq(I, a, kw):
    return Opaque('builtin')


@bi('locals')
def b_locals(I, a, kw):
    e = I.get(I.frames[-1].env)
    return I.newdict(dict(e.vars))


@bi('globals')
def b_globals(I, a, kw):
    e = I.get(I.get(I.frames[-1].env).globals)
    I.event('globals_call', name='globals')
    return I.newdict(dict(e.vars))


@bi('eval exec compile __import__')
def b_eval(I, a, kw):
    I.event('sys', name='eval', args=a)
    return Opaque('eval')


@bi('object object.__init__ object.__init_subclass__ object.__new__')
def b_object(I, a, kw):
    return None


@bi('super')
def b_super(I, a, kw):
    if len(a) == 2:
        return Superv(a[0], a[1])
    return Superv(I.frames[-1].cls, I.frames[-1].selfv)


@bi('property staticmethod classmethod')
def b_prop(I, a, kw):
    return Opaque('descriptor')


def _deco(kind):
    def f(I, a, kw):
        v = a[0]
        if isinstance(v, Func):
            return Func(v.node, v.env, v.module, v.name, v.defaults, v.kwdefaults, v.cls, kind, v.decorators)
        return v
    return f


for _k in ('property', 'staticmethod', 'classmethod'):
    BI[_k] = _deco(_k)


@bi('numba.njit numba.jit numba.vectorize abc.abstractmethod functools.wraps numpy.vectorize')
def b_ident(I, a, kw):
    if a and isinstance(a[0], (Func, Bound)):
        return a[0]
    return Opaque('decorator')


@bi('functools.lru_cache functools.cache functools.cached_property')
def b_cache(I, a, kw):
    d = Ext('lru_cache')
    return I.decorate(d, I.resolve(a[0])) if a and isinstance(I.resolve(a[0]), Func) else d


# ---------------------------------------------------------------- copy, functools, itertools, operator
def cp(I, v, deep, memo):
    v = I.resolve(v)
    if isinstance(v, Choice):
        return Choice(v.cond, cp(I, v.a, deep, memo), cp(I, v.b, deep, memo))
    if isinstance(v, Arr):
        if ('a', v.buf, v.maps) not in memo:
            memo[('a', v.buf, v.maps)] = nc.cast(I, v, v.dtype)
        return memo[('a', v.buf, v.maps)]
    if isinstance(v, tuple):
        return tuple(cp(I, x, deep, memo) for x in v) if deep else v
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        o = I.get(v)
        if isinstance(o, LList):
            r = I.newlist(o.items, kind=o.kind)
            memo[v.id] = r
            if deep:
                I.wr(r.id).items = tuple(cp(I, x, deep, memo) for x in o.items)
            return r
        if isinstance(o, LDict):
            r = I.newdict(dict(o.d), open_=o.open)
            memo[v.id] = r
            if deep:
                I.wr(r.id).d = {k: cp(I, x, deep, memo) for k, x in o.d.items()}
            return r
        if isinstance(o, LObj):
            r = I.newobj(o.cls, dict(o.attrs))
            memo[v.id] = r
            if deep:
                I.wr(r.id).attrs = {k: cp(I, x, deep, memo) for k, x in o.attrs.items()}
            return r
    return v


@bi('copy.copy')
def b_copy(I, a, kw):
    return cp(I, a[0], False, {})


@bi('copy.deepcopy')
def b_deepcopy(I, a, kw):
    return cp(I, a[0], True, {})


@bi('functools.reduce')
def b_reduce(I, a, kw):
    it = I.iterate(a[1])
    if not isinstance(it, list):
        return Opaque('reduce')
    it = ([a[2]] if len(a) > 2 else []) + it
    if not it:
        I.raise_('TypeError', 'reduce of empty')
    r = it[0]
    for x in it[1:]:
        r = I.call(a[0], [r, x], {})
    return r


@bi('functools.partial')
def b_partial(I, a, kw):
    f, pre, pk = a[0], a[1:], dict(kw)
    return Ext('lib_callable', {'call': lambda I, x, k: I.call(f, list(pre) + list(x), {**pk, **k})})


def _opr(op):
    return lambda I, a, kw: I.binop(op, a[0], a[1])


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('pow', 'Pow'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('and_', 'BitAnd'), ('or_', 'BitOr')):
    BI['operator.' + _n] = _opr(_o)
for _n, _o in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq')):
    BI['operator.' + _n] = (lambda o: lambda I, a, kw: I.compare(o, a[0], a[1]))(_o)
BI['operator.itemgetter'] = lambda I, a, kw: Ext('lib_callable', {'call': lambda I, x, k: I.getitem(x[0], a[0])})


@bi('itertools.product')
def b_product(I, a, kw):
    its = [I.iterate(x) for x in a]
    rep = ints(I, kw.get('repeat', 1))
    if any(not isinstance(x, list) for x in its) or rep is None:
        return Opaque('product')
    return I.newlist([tuple(t) for t in _it.product(*its, repeat=rep[0])])


@bi('itertools.combinations itertools.permutations itertools.combinations_with_replacement')
def b_comb(I, a, kw):
    return Opaque('itertools')


@bi('itertools.combinations')
def b_combinations(I, a, kw):
    it = I.iterate(a[0])
    k = ints(I, a[1])
    if not isinstance(it, list) or k is None:
        return Opaque('combinations')
    return I.newlist([tuple(t) for t in _it.combinations(it, k[0])])


@bi('itertools.chain')
def b_chain(I, a, kw):
    its = [I.iterate(x) for x in a]
    if any(not isinstance(x, list) for x in its):
        return Opaque('chain')
    return I.newlist([y for x in its for y in x])


@bi('itertools.chain.from_iterable')
def b_chainfi(I, a, kw):
    it = I.iterate(a[0])
    return b_chain(I, it, {}) if isinstance(it, list) else Opaque('chain')


@bi('itertools.accumulate')
def b_accum(I, a, kw):
    return Opaque('accumulate')


@bi('itertools.zip_longest itertools.islice itertools.count itertools.cycle itertools.repeat')
def b_itr(I, a, kw):
    return Opaque('itertools')


@bi('math.isclose')
def b_misclose(I, a, kw):
    return nm.unknown_bool(I)


@bi('numpy.errstate numpy.seterr numpy.set_printoptions numpy.testing')
def b_errstate(I, a, kw):
    return Opaque('errstate')


@bi('numpy.add.reduce numpy.add.accumulate numpy.multiply.reduce numpy.logical_and.reduce numpy.logical_or.reduce numpy.maximum.reduce numpy.minimum.reduce')
def _noop(I, a, kw):
    return Opaque('ufunc method')


def _red(target, dflt0=True):
    def f(I, a, kw):
        from .pycalls import run_model
        arr = a[0]
        ax = a[1] if len(a) > 1 else kw.get('axis', 0)
        return run_model(I, target, [arr], {'axis': ax})
    return f


for _n, _t in (('add.reduce', 'sum'), ('multiply.reduce', 'prod'), ('logical_and.reduce', 'all'), ('logical_or.reduce', 'any'), ('maximum.reduce', 'max'), ('minimum.reduce', 'min'),
               ('add.accumulate', 'cumsum'), ('multiply.accumulate', 'cumprod')):
    BI['numpy.' + _n] = _red('numpy.' + _t)


def _outer(op):
    def f(I, a, kw):
        x, y = as_arr(I, a[0]), as_arr(I, a[1])
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return Opaque('outer')
        xe = x
        for _ in range(y.ndim):
            xe = nc.expand(xe, xe.ndim)
        return nf.binop(I, op, xe, y, True)
    return f


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div')):
    BI[f'numpy.{_n}.outer'] = _outer(_o)
