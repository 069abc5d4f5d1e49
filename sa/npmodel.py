"""Facade between the interpreter and the library models: items, operators, attributes, calls."""
from . import terms as tm
from .terms import T, num, TRUE, FALSE, ite, and_, or_, not_
from .values import *  # noqa
from .values import conc, canon_dim, same
from . import npcore as nc
from .npcore import (as_arr, read, scalar, size_of, dim_sub, build, dt_of, assign_all, is_listy, reshape, transpose, cast)  # noqa
from . import npfuncs as nf
from . import npfuncs2  # noqa  (registers models)
from .npfuncs import MODELS, binop, unary, parse, pyb, ints, one


# ---------------------------------------------------------------- items
def mutate(I, ref, what):
    I.event('write', owner=I.get(ref).owner, what=what, obj=ref)


def index_seq(I, items, i, rebuild):
    """items[i] for a python sequence"""
    if isinstance(i, Slice):
        b = []
        for x in (i.lo, i.hi, i.step):
            x = I.resolve(x)
            if x is None:
                b.append(None)
                continue
            r = ints(I, x)
            if r is None:
                return I.newlist([Opaque('slice')], kind='varlen')
            b.append(r[0])
        return rebuild(items[slice(*b)])
    if isinstance(i, Arr):
        i = scalar(I, i) if i.ndim == 0 else i
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int):
        if not -len(items) <= i < len(items):
            I.raise_('IndexError', 'index out of range')
        return items[i]
    if isinstance(i, T):
        if i.op == 'num':
            if i.args[0].denominator != 1:
                I.raise_('TypeError', 'index must be an integer')
            return index_seq(I, items, int(i.args[0]), rebuild)
        if not items:
            I.raise_('IndexError', 'index out of range')
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            c = I.decide(tm.eq(tm.tonum(i), num(k)))
            r = items[k] if c is TRUE else r if c is FALSE else I.join_val(c, items[k], r)
        return r
    if isinstance(i, (str, tuple)) or i is None:
        I.raise_('TypeError', 'list indices must be integers or slices')
    return Opaque('index')


def getitem(I, o, i):
    if isinstance(o, Arr):
        return nc.getitem(I, o, i)
    if isinstance(o, tuple):
        return index_seq(I, list(o), i, tuple)
    if isinstance(o, str):
        return index_seq(I, list(o), i, ''.join)
    if isinstance(o, Ref):
        ob = I.get(o)
        if isinstance(ob, LList):
            if ob.kind == 'varlen':
                return Opaque('item')
            if ob.kind == 'symlist':
                return getitem(I, ob.items[0], i)
            return index_seq(I, list(ob.items), i, lambda x: I.newlist(x))
        if isinstance(ob, LDict):
            k = I.key(i)
            if k in ob.d and ob.d[k] is not MISSING_():
                v = ob.d[k]
                return present(I, v, k)
            if isinstance(k, T) and all(isinstance(x, (int, T)) for x in ob.d) and ob.d:
                r = None
                first = True
                for kk, v in ob.d.items():
                    c = I.decide(tm.eq(k, num(kk)))
                    r = v if first else I.join_val(c, v, r)
                    first = False
                return r
            if ob.open or isinstance(k, (Opaque, T)):
                return Opaque('dict item')
            I.raise_('KeyError', str(k))
        if isinstance(ob, LObj) and ob.cls:
            v, c = I.cls_lookup(ob.cls, '__getitem__')
            if c is not None:
                return I.call(Bound(o, v), [i], {})
            I.raise_('TypeError', 'not subscriptable')
    if isinstance(o, SymIter):
        if isinstance(i, Slice):
            if i.lo is None and i.step is None and i.hi is None:
                return o
            r = nc.norm_slice(I, i, o.dim)
            if r is None:
                return Opaque('slice')
            s, n, st = r
            return SymIter(num(n), lambda j: o.elem(tm.add(s, tm.mul(num(st), num(j)))))
        if isnumeric(i):
            return o.elem(nc.norm_int(I, i, o.dim))
        return Opaque('item')
    if isinstance(o, VRange):
        it = I.iterate(o)
        if isinstance(it, list):
            return index_seq(I, it, i, lambda x: I.newlist(x))
        return getitem(I, it, i) if it is not None else Opaque('item')
    if isinstance(o, Ext):
        if o.kind == 'flat':
            a = reshape(I, o.info['arr'], [-1])
            return nc.getitem(I, a, i)
        if o.kind in ('np.r_', 'np.c_', 'np.s_', 'np.mgrid', 'np.ogrid'):
            return ext_getitem(I, o, i)
        I.event('ext', obj=o, method='getitem', args=[i], kw={})
        return Ext('item', {'of': o, 'key': i})
    if isinstance(o, Opaque):
        return Opaque('item of ' + o.why[:40])
    if o is None or isnumeric(o):
        if isinstance(o, T) and (i == () or i is Ellipsis):
            return o
        if isinstance(o, T) and isinstance(i, tuple) and all(x is None or x is Ellipsis for x in i):
            return nc.getitem(I, nc.build(I, (), lambda ix: o, nc.dt_of(o)), i)
        I.raise_('TypeError' if not isinstance(o, T) else 'IndexError', 'not subscriptable')
    if isinstance(o, (Cls, Builtin)):
        return o
    if isinstance(o, Method) and isinstance(o.obj, Ext):
        return Ext('item', {'of': o.obj, 'attr': o.name, 'key': i})
    if isinstance(o, (Func, Bound, Method, ExcV, ModuleV)):
        I.raise_('TypeError', 'not subscriptable')
    return Opaque('item')


def MISSING_():
    from .interp import MISSING
    return MISSING


def present(I, v, k):
    M = MISSING_()
    if isinstance(v, Choice) and (v.a is M or v.b is M):
        miss = v.cond if v.a is M else not_(v.cond)
        I.raise_if(miss, 'KeyError', str(k))
        return I.resolve(v.b if v.a is M else v.a)
    return v


def ext_getitem(I, o, i):
    parts = i if isinstance(i, tuple) else (i,)
    if o.kind == 'np.s_':
        return i
    if o.kind == 'np.r_':
        arrs = []
        for p in parts:
            p = I.resolve(p)
            if isinstance(p, Slice):
                lo = 0 if p.lo is None else p.lo
                if isinstance(I.resolve(p.step), (int,)) or p.step is None:
                    r = MODELS['numpy.arange'][0](I, lo, p.hi, 1 if p.step is None else p.step, None)
                else:
                    return Opaque('r_')
            elif isnumeric(p):
                pp = p
                r = build(I, (1,), lambda j: pp, dt_of(pp))
            else:
                r = as_arr(I, p)
            if isinstance(r, Opaque):
                return r
            arrs.append(nc.atleast(I, r, 1))
        return npfuncs2.concat(I, arrs, 0)
    if o.kind == 'np.c_':
        return MODELS['numpy.column_stack'][0](I, I.newlist(list(parts)))
    return Opaque(o.kind)


def setitem(I, o, i, v):
    if isinstance(o, Arr):
        return nc.setitem(I, o, i, v)
    if isinstance(o, Ref):
        ob = I.get(o)
        if isinstance(ob, LList):
            mutate(I, o, 'setitem')
            if ob.kind in ('varlen', 'symlist'):
                n = I.wr(o.id)
                n.items, n.kind = (Opaque('store'),), 'varlen'
                return
            items = list(ob.items)
            if isinstance(i, Arr) and i.ndim == 0:
                i = scalar(I, i)
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, T) and i.op == 'num' and i.args[0].denominator == 1:
                i = int(i.args[0])
            if isinstance(i, int):
                if not -len(items) <= i < len(items):
                    I.raise_('IndexError', 'assignment index out of range')
                items[i] = v
                I.wr(o.id).items = tuple(items)
                return
            if isinstance(i, T):
                for k in range(len(items)):
                    c = I.decide(tm.eq(tm.tonum(i), num(k)))
                    items[k] = v if c is TRUE else items[k] if c is FALSE else I.join_val(c, v, items[k])
                I.wr(o.id).items = tuple(items)
                return
            if isinstance(i, Slice):
                b = [None if x is None else (ints(I, x) or [None])[0] for x in (i.lo, i.hi, i.step)]
                it = I.items(v)
                if it is not None and not any(x is not None and y is None for x, y in zip((i.lo, i.hi, i.step), b)):
                    items[slice(*b)] = it
                    I.wr(o.id).items = tuple(items)
                    return
                n = I.wr(o.id)
                n.items, n.kind = (Opaque('slice store'),), 'varlen'
                return
            if isinstance(i, (str, tuple)) or i is None:
                I.raise_('TypeError', 'list indices must be integers')
            n = I.wr(o.id)
            n.items = tuple(Opaque('store') for _ in items)
            return
        if isinstance(ob, LDict):
            mutate(I, o, 'setitem')
            k = I.key(i)
            if isinstance(k, Opaque):
                I.wr(o.id).open = True
                return
            I.wr(o.id).d[k] = v
            return
        if isinstance(ob, LObj) and ob.cls:
            f, c = I.cls_lookup(ob.cls, '__setitem__')
            if c is not None:
                I.call(Bound(o, f), [i, v], {})
                return
            I.raise_('TypeError', 'item assignment')
    if isinstance(o, Ext):
        if o.kind == 'flat':
            a = o.info['arr']
            if a.ndim == 1:
                return nc.setitem(I, a, i, v)
            return nc.smash(I, a, 'flat store')
        I.event('ext', obj=o, method='setitem', args=[i, v], kw={})
        return
    if isinstance(o, (tuple, str)) or o is None or isnumeric(o):
        I.raise_('TypeError', 'item assignment')


def delitem(I, o, i):
    o = I.resolve(o)
    if isinstance(o, Ref):
        ob = I.get(o)
        mutate(I, o, 'delitem')
        if isinstance(ob, LList):
            items = list(ob.items)
            r = ints(I, i) if not isinstance(i, Slice) else None
            if r is not None:
                if not -len(items) <= r[0] < len(items):
                    I.raise_('IndexError', 'del')
                del items[r[0]]
                I.wr(o.id).items = tuple(items)
            else:
                n = I.wr(o.id)
                n.items, n.kind = (Opaque('del'),), 'varlen'
        elif isinstance(ob, LDict):
            k = I.key(i)
            if k in ob.d:
                I.wr(o.id).d.pop(k)
            elif not ob.open:
                I.raise_('KeyError', str(k))


def list_extend(I, ref, v):
    mutate(I, ref, 'extend')
    it = I.iterate(v)
    o = I.wr(ref.id)
    if isinstance(it, list) and o.kind not in ('varlen', 'symlist'):
        o.items = o.items + tuple(it)
    else:
        o.items, o.kind = (Opaque('extend'),), 'varlen'


def dict_update(I, ref, v):
    mutate(I, ref, 'update')
    v = I.resolve(v)
    o = I.wr(ref.id)
    if isinstance(v, Ref) and isinstance(I.get(v), LDict):
        src = I.get(v)
        M = MISSING_()
        for k, x in src.d.items():
            if isinstance(x, Choice) and (x.a is M or x.b is M):
                old = o.d.get(k, M)
                o.d[k] = Choice(x.cond, old if x.a is M else x.a, old if x.b is M else x.b)
            else:
                o.d[k] = x
        o.open = o.open or src.open
        return
    it = I.iterate(v) if v is not None else []
    if isinstance(it, list):
        for p in it:
            kv = I.items(p)
            if kv is None or len(kv) != 2:
                o.open = True
                return
            o.d[I.key(kv[0])] = kv[1]
    else:
        o.open = True


# ---------------------------------------------------------------- comparison
def is_same(I, a, b):
    """`a is b` : bool or T"""
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return None
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, T) and a is FALSE:
        a = False
    if isinstance(a, T) and a is TRUE:
        a = True
    if isinstance(b, T) and b is FALSE:
        b = False
    if isinstance(b, T) and b is TRUE:
        b = True
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        x, y = (a, b) if isinstance(b, bool) else (b, a)
        if isinstance(x, T) and tm.isbool(x):
            return pyb(x if y else not_(x))
        return False
    if isinstance(a, (Builtin, ModuleV, Func, Cls)):
        return a is b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isnumeric(a) and isnumeric(b):
        return pyb(tm.eq(I.T(a), I.T(b)))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return same(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Arr):
        return a == b
    if isinstance(a, Ref):
        return a == b
    return a is b


def equal(I, a, b):
    """python == for non-array operands: bool, T or None (unknown)"""
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, Choice):
        r = [equal(I, x, b) for x in (a.a, a.b)]
        return None if None in [x if x is None else 0 for x in r] else pyb(ite(a.cond, I.T(r[0]), I.T(r[1])))
    if isinstance(b, Choice):
        return equal(I, b, a)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return None
    if isnumeric(a) and isnumeric(b):
        return pyb(tm.eq(tm.tonum(I.T(a)), tm.tonum(I.T(b)))) if not (tm.isbool(I.T(a)) and tm.isbool(I.T(b))) else pyb(tm.eq(I.T(a), I.T(b)))
    if isinstance(a, str) and isinstance(b, str):
        if '<str>' in a or '<str>' in b:
            return None
        return a == b
    if isinstance(a, Arr) and a.ndim == 0:
        return equal(I, scalar(I, a), b)
    if isinstance(b, Arr) and b.ndim == 0:
        return equal(I, a, scalar(I, b))
    if isinstance(a, tuple) and isinstance(b, tuple) or (is_listy(I, a) and is_listy(I, b) and isinstance(a, Ref) and isinstance(b, Ref)):
        ia, ib = I.items(a), I.items(b)
        if ia is None or ib is None:
            return None
        if len(ia) != len(ib):
            return False
        r = TRUE
        for x, y in zip(ia, ib):
            e = equal(I, x, y)
            if e is None:
                return None
            r = and_(r, I.T(e))
        return pyb(r)
    if isinstance(a, (Builtin, ModuleV, Func, Cls)):
        return a is b
    if isinstance(a, Ext) and a.kind == 'dtype':
        d = nf.dtype_arg(I, b)
        return None if d is None else d == a.info['dt']
    if isinstance(b, Ext) and b.kind == 'dtype':
        return equal(I, b, a)
    if isinstance(a, Ext) or isinstance(b, Ext):
        return a is b
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return True
        return None
    if type(a) is not type(b):
        return False
    return same(a, b)


def unknown_bool(I):
    I._nid += 1
    return tm.mk('bsym', f'unknown{I._nid}', ())


def contains(I, a, b):
    """a in b"""
    b = I.resolve(b)
    if isinstance(b, str):
        if isinstance(a, str):
            if '<str>' in a or '<str>' in b:
                return unknown_bool(I)
            return a in b
        I.raise_('TypeError', 'in <string>')
    if isinstance(b, Ref) and isinstance(I.get(b), LDict):
        o = I.get(b)
        k = I.key(a)
        M = MISSING_()
        if k in o.d:
            v = o.d[k]
            if isinstance(v, Choice) and (v.a is M or v.b is M):
                return pyb(v.cond if v.b is M else not_(v.cond))
            return v is not M
        if o.open or isinstance(k, (Opaque, T)):
            return unknown_bool(I)
        return False
    if isinstance(b, Arr):
        if a is None or isinstance(a, str):
            if b.dtype != 'o':
                return False
        if isnumeric(a) or b.dtype == 'o':
            r = nf.compare_arr(I, 'Eq', b, a)
            if isinstance(r, Arr):
                return nf.m_any(I, r, None, None, False)
            return r
        return unknown_bool(I)
    if isinstance(b, (Opaque, Ext)) or b is None or isnumeric(b):
        if b is None or isnumeric(b):
            I.raise_('TypeError', 'argument is not iterable')
        return unknown_bool(I)
    it = I.items(b)
    if it is None:
        s = I.iterate(b)
        if isinstance(b, VRange) and isnumeric(a) and (b.step == 1):
            return pyb(and_(tm.le(num(b.lo), I.T(a)), tm.lt(I.T(a), num(b.hi))))
        return unknown_bool(I)
    r = FALSE
    for x in it:
        x = I.resolve(x)
        s = is_same(I, a, x)
        if s is True:
            return True if r is FALSE else pyb(TRUE)
        if isinstance(x, Arr) and x.ndim or isinstance(a, Arr) and a.ndim:
            arr = x if isinstance(x, Arr) else a
            other = a if isinstance(x, Arr) else x
            if isinstance(other, (str,)) or other is None:
                # numpy compares elementwise; truth of the result raises unless one element
                c = nf.compare_arr(I, 'Eq', arr, other)
                r = or_(r, I.truth(c))
                continue
            return unknown_bool(I)
        e = equal(I, a, x)
        if e is None:
            r = or_(r, unknown_bool(I))
        else:
            r = or_(r, I.T(e))
    return pyb(r)


def unflat(I, v):
    return reshape(I, v.info['arr'], [-1]) if isinstance(v, Ext) and v.kind == 'flat' else v


def compare(I, op, a, b):
    if op in ('Is', 'IsNot'):
        r = is_same(I, a, b)
        if r is None:
            return unknown_bool(I)
        return (pyb(not_(I.T(r))) if op == 'IsNot' else r)
    if op in ('In', 'NotIn'):
        r = contains(I, a, b)
        return pyb(not_(I.T(r))) if op == 'NotIn' else r
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('comparison')
    a, b = unflat(I, a), unflat(I, b)
    if isinstance(a, Ext) and a.kind != 'dtype' or isinstance(b, Ext) and b.kind != 'dtype':
        return Opaque('comparison')
    if isinstance(a, Arr) and a.ndim == 0 and not isinstance(b, Arr) and a.dtype == 'o':
        a = scalar(I, a)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if op in ('Eq', 'NotEq') and (isinstance(a, (Builtin, Func, Cls)) or isinstance(b, (Builtin, Func, Cls))):
            return op == 'NotEq'
        if any(isinstance(x, Ref) and isinstance(I.get(x), (LDict, LObj)) for x in (a, b)):
            return Opaque('comparison')
        return nf.compare_arr(I, op, a, b)
    if op in ('Eq', 'NotEq'):
        r = equal(I, a, b)
        if r is None:
            return unknown_bool(I)
        return pyb(not_(I.T(r))) if op == 'NotEq' else r
    if isnumeric(a) and isnumeric(b):
        return pyb(nf.CMP[op](tm.tonum(I.T(a)), tm.tonum(I.T(b))))
    if isinstance(a, str) and isinstance(b, str):
        return unknown_bool(I) if '<str>' in a + b else {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if is_listy(I, a) and is_listy(I, b):
        if isinstance(a, tuple) == isinstance(b, tuple):
            return unknown_bool(I)
    I.raise_('TypeError', f'{op} not supported')


# ---------------------------------------------------------------- module attributes
SUBMODULES = {'numpy.random', 'numpy.linalg', 'numpy.ma', 'numpy.fft', 'numpy.polynomial', 'numpy.lib', 'scipy.stats', 'scipy.linalg', 'scipy.special',
              'scipy.interpolate', 'scipy.ndimage', 'scipy.integrate', 'scipy.optimize', 'scipy.spatial', 'scipy.stats.norm', 'matplotlib.pyplot', 'matplotlib.cm', 'matplotlib.colors',
              'matplotlib.patheffects', 'matplotlib.ticker', 'matplotlib.transforms', 'os.path', 'collections.abc', 'scipy.stats.qmc'}
CONSTS = {'numpy.pi': tm.PI, 'math.pi': tm.PI, 'numpy.inf': tm.INF, 'numpy.Inf': tm.INF, 'numpy.infty': tm.INF, 'math.inf': tm.INF, 'numpy.nan': tm.NAN, 'numpy.NaN': tm.NAN,
          'numpy.NAN': tm.NAN, 'math.nan': tm.NAN, 'numpy.newaxis': None, 'numpy.PINF': tm.INF, 'numpy.NINF': tm.NINF,
          'numpy.e': tm.fn('exp', tm.ONE), 'math.e': tm.fn('exp', tm.ONE), 'math.tau': tm.mul(num(2), tm.PI), 'scipy.pi': tm.PI, 'os.sep': '/', 'sys.maxsize': 2**63 - 1,
          'numpy.True_': True, 'numpy.False_': False, 'logging.WARNING': 30, 'logging.INFO': 20, 'logging.ERROR': 40, 'logging.DEBUG': 10, 'logging.CRITICAL': 50,
          'scipy.constants.pi': tm.PI}
_NP_NAMES = None
EXC_NAMES = {'numpy.linalg.LinAlgError': 'LinAlgError', 'numpy.AxisError': 'AxisError', 'scipy.linalg.LinAlgError': 'LinAlgError',
             'numpy.exceptions.AxisError': 'AxisError'}


def np_names():
    global _NP_NAMES
    if _NP_NAMES is None:
        import os
        with open(os.path.join(os.path.dirname(__file__), 'np_names.txt')) as f:
            _NP_NAMES = set(f.read().split())
    return _NP_NAMES


def module_attr(I, mod, name):
    full = mod + '.' + name
    if full in CONSTS:
        return CONSTS[full]
    if full in EXC_NAMES:
        return Builtin(EXC_NAMES[full])
    if full in SUBMODULES:
        return ModuleV(full)
    if full == 'six.string_types':
        return (Builtin('str'),)
    if full in ('six.integer_types',):
        return (Builtin('int'),)
    if full == 'numpy.random.mtrand' or full == 'numpy.random.RandomState':
        return Builtin(full)
    if full in ('numpy.r_', 'numpy.c_', 'numpy.s_', 'numpy.index_exp', 'numpy.mgrid', 'numpy.ogrid'):
        return Ext('np.' + name.replace('index_exp', 's_'))
    if mod in ('numpy', 'numpy.random', 'numpy.linalg') and full not in np_names() and full not in MODELS:
        I.raise_('AttributeError', f'module {mod} has no attribute {name}')
    if mod == 'os.environ' or full == 'os.environ':
        return Ext('environ')
    if full == 'sys.argv':
        return I.newlist([], kind='varlen')
    if mod == 'math' and 'numpy.' + name in MODELS and full not in MODELS:
        return Builtin('math.' + name)
    if full == 'builtins.' + name:
        return Builtin(name)
    return Builtin(full)


# ---------------------------------------------------------------- attributes of values
SCALAR_ATTR = {'ndim': 0, 'size': 1, 'shape': (), 'itemsize': 8, 'nbytes': 8}
AMETH = {'sum': 'numpy.sum', 'prod': 'numpy.prod', 'min': 'numpy.min', 'max': 'numpy.max', 'mean': 'numpy.mean', 'std': 'numpy.std', 'var': 'numpy.var', 'any': 'numpy.any', 'all': 'numpy.all',
         'cumsum': 'numpy.cumsum', 'cumprod': 'numpy.cumprod', 'argsort': 'numpy.argsort', 'argmin': 'numpy.argmin', 'argmax': 'numpy.argmax', 'clip': 'numpy.clip', 'take': 'numpy.take',
         'repeat': 'numpy.repeat', 'nonzero': 'numpy.nonzero', 'diagonal': 'numpy.diagonal', 'trace': 'numpy.trace', 'dot': 'numpy.dot', 'ravel': 'numpy.ravel', 'squeeze': 'numpy.squeeze',
         'transpose': 'numpy.transpose', 'swapaxes': 'numpy.swapaxes', 'searchsorted': 'numpy.searchsorted', 'round': 'numpy.round', 'ptp': 'numpy.ptp', 'compress': 'numpy.compress',
         'reshape': 'numpy.reshape', 'conj': 'numpy.asarray', 'conjugate': 'numpy.asarray'}
AMETH2 = {'flatten', 'copy', 'astype', 'tolist', 'item', 'sort', 'fill', 'put', 'view', 'resize', 'itemset', 'partition', 'setflags', 'tobytes', 'byteswap', 'setfield', 'dump',
          'is_integer', '__len__', '__getitem__', '__setitem__', '__iter__', '__contains__', '__call__', '__add__', '__mul__', '__str__', '__repr__'}
LISTM = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'index', 'count', 'copy', 'clear', '__len__', '__getitem__', '__contains__', '__iter__', 'add', 'discard', 'update',
         'union', 'intersection', 'difference', 'issubset', 'issuperset', '__setitem__', 'popleft', 'appendleft', 'symmetric_difference'}
DICTM = {'get', 'items', 'keys', 'values', 'pop', 'update', 'setdefault', 'copy', 'clear', 'popitem', '__len__', '__getitem__', '__contains__', '__iter__', 'fromkeys', 'move_to_end',
         'most_common', '__setitem__'}
TUPM = {'index', 'count', '__len__', '__getitem__', '__contains__', '__iter__'}


def dt_ext(dt):
    e = DTS.get(dt)
    if e is None:
        e = DTS[dt] = Ext('dtype', {'dt': dt})
    return e


DTS = {}


def value_attr(I, o, name):
    if isinstance(o, Arr):
        if name == 'shape':
            return tuple(o.shape)
        if name == 'ndim':
            return o.ndim
        if name == 'size':
            return size_of(o)
        if name == 'T':
            return transpose(o, tuple(reversed(range(o.ndim))))
        if name == 'dtype':
            return dt_ext(o.dtype)
        if name == 'flat':
            return Ext('flat', {'arr': o})
        if name in ('real', 'base', 'data'):
            return o if name == 'real' else Opaque(name)
        if name in ('imag', 'strides', 'itemsize', 'nbytes', 'flags', 'ctypes', '__array_interface__', '__class__', 'mask'):
            if name == 'mask':
                I.raise_('AttributeError', 'mask')
            return Opaque(name)
        if name in AMETH or name in AMETH2:
            return Method(o, name)
        I.raise_('AttributeError', f'ndarray.{name}')
    if isinstance(o, T):
        if name in SCALAR_ATTR:
            return SCALAR_ATTR[name]
        if name == 'dtype':
            return dt_ext(dt_of(o))
        if name in ('T', 'real', 'flat'):
            return o
        if name == 'imag':
            return 0
        if name in AMETH or name in AMETH2:
            return Method(o, name)
        I.raise_('AttributeError', f'scalar.{name}')
    if isinstance(o, (bool, int)):
        # a python int, or a numpy integer the analysis knows exactly
        if name in ('real',):
            return o
        if name in SCALAR_ATTR:
            return SCALAR_ATTR[name]
        if name == 'dtype':
            return dt_ext(dt_of(o))
        if name in AMETH or name in AMETH2 or name in ('bit_length',):
            return Method(o, name)
        I.raise_('AttributeError', f'int.{name}')
    if isinstance(o, str):
        if hasattr('', name):
            return Method(o, name)
        I.raise_('AttributeError', f'str.{name}')
    if o is None:
        if name == '__class__':
            return Builtin('NoneType')
        I.raise_('AttributeError', f'NoneType.{name}')
    if isinstance(o, tuple):
        if name in TUPM:
            return Method(o, name)
        if name == '__class__':
            return Builtin('tuple')
        I.raise_('AttributeError', f'tuple.{name}')
    if isinstance(o, Ref):
        ob = I.get(o)
        if isinstance(ob, LList):
            if name in LISTM:
                return Method(o, name)
            if name == '__class__':
                return Builtin('list')
            I.raise_('AttributeError', f'list.{name}')
        if isinstance(ob, LDict):
            if name in DICTM:
                return Method(o, name)
            if name == '__class__':
                return Builtin('dict')
            I.raise_('AttributeError', f'dict.{name}')
        return Opaque(name)
    if isinstance(o, Func):
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__doc__':
            return ast_doc(o)
        if name == 'setter' or name == 'getter':
            return Method(o, name)
        if name == '__self__':
            I.raise_('AttributeError', name)
        return Opaque(name)
    if isinstance(o, Bound):
        if name == '__self__':
            return o.obj
        if name == '__func__':
            return o.func
        return value_attr(I, o.func, name)
    if isinstance(o, Builtin):
        n = o.name
        if name in ('__name__', '__qualname__'):
            return n.split('.')[-1]
        if n == 'environ':
            return Opaque('environ')
        if n + '.' + name in MODELS or n.split('.')[0] in ('numpy', 'scipy', 'matplotlib', 'os', 'logging', 'warnings', 'collections', 'itertools', 'functools', 'dict', 'str', 'datetime',
                                                           'numba', 'operator'):
            return Builtin(n + '.' + name)
        return Builtin(n + '.' + name)
    if isinstance(o, Ext):
        if o.kind == 'dtype':
            if name == 'kind':
                return {'f': 'f', 'i': 'i', 'b': 'b', 'o': 'O'}[o.info['dt']]
            if name == 'type':
                return Builtin('numpy.' + {'f': 'float64', 'i': 'int64', 'b': 'bool_', 'o': 'object_'}[o.info['dt']])
            return Opaque('dtype.' + name)
        if o.kind == 'flat':
            return value_attr(I, o.info['arr'], name)
        if name in o.info.get('attrs', {}):
            return o.info['attrs'][name]
        return Method(o, name)
    if isinstance(o, ExcV):
        if name == 'args':
            return Opaque('args')
        return Opaque(name)
    if isinstance(o, Opaque):
        return Opaque(f'{o.why[:40]}.{name}')
    if isinstance(o, Method):
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__self__':
            return o.obj
        # reductions: np.add.reduce and friends are handled as builtins
        return Opaque(name)
    if isinstance(o, (SymIter, VRange)):
        if name in ('start', 'stop', 'step') and isinstance(o, VRange):
            return {'start': o.lo, 'stop': o.hi, 'step': o.step}[name]
        return Opaque(name)
    if isinstance(o, Slice):
        if name in ('start', 'stop', 'step'):
            return {'start': o.lo, 'stop': o.hi, 'step': o.step}[name]
    return Opaque(name)


def ast_doc(f):
    import ast
    try:
        return ast.get_docstring(f.node) or ''
    except TypeError:
        return ''


from .pycalls import call, call_ext  # noqa
from . import pybuiltins  # noqa
