"""Abstract values of the interpreter."""
from . import terms as t
from .terms import T, num

CONC = 8        # integer dimensions up to this are expanded cell by cell


class Opaque:
    """A value the analysis knows nothing about."""
    __slots__ = ('why', 'loc')

    def __init__(self, why='?'):
        self.why = why
        self.loc = t.LOC[0]

    def __repr__(self):
        return f'<opaque {self.why} @{self.loc}>'


class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return f'ref{self.id}'


class Arr:
    """A view of an abstract buffer.  maps[k]: index into base axis k as T over placeholder variables o0.. of the view's axes."""
    __slots__ = ('buf', 'shape', 'maps', 'dtype')

    def __init__(self, buf, shape, maps, dtype):
        self.buf, self.shape, self.maps, self.dtype = buf, tuple(shape), tuple(maps), dtype

    @property
    def ndim(self):
        return len(self.shape)

    def __eq__(self, o):
        return isinstance(o, Arr) and (self.buf, self.shape, self.maps) == (o.buf, o.shape, o.maps)

    def __hash__(self):
        return hash((self.buf, self.shape, self.maps))

    def __repr__(self):
        return f'<arr {self.dtype}{list(self.shape)} buf{self.buf}>'


class Choice:
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, Choice) and o.cond is self.cond and same(self.a, o.a) and same(self.b, o.b)

    def __hash__(self):
        return hash(('choice', self.cond))

    def __repr__(self):
        return f'<{self.cond} ? {self.a!r} : {self.b!r}>'


class Func:
    def __init__(self, node, env, module, name, defaults=(), kwdefaults=None, cls=None, kind='function', decorators=()):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.cls, self.kind, self.decorators = cls, kind, decorators

    def __repr__(self):
        return f'<func {self.name}>'


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func

    def __eq__(self, o):
        return isinstance(o, Bound) and same(self.obj, o.obj) and self.func is o.func

    def __hash__(self):
        return hash(('bound', id(self.func)))


class Cls:
    def __init__(self, name, bases, ref, module):
        self.name, self.bases, self.ref, self.module = name, bases, ref, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, Cls)]
        return out

    def __repr__(self):
        return f'<class {self.name}>'


class Builtin:
    """A modelled (or unmodelled) library callable, or a builtin."""
    _tab = {}

    def __new__(cls, name):
        b = cls._tab.get(name)
        if b is None:
            b = object.__new__(cls)
            b.name = name
            cls._tab[name] = b
        return b

    def __repr__(self):
        return f'<lib {self.name}>'


class Method:
    """method of a library object or builtin value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __eq__(self, o):
        return isinstance(o, Method) and o.name == self.name and same(o.obj, self.obj)

    def __hash__(self):
        return hash(('m', self.name))

    def __repr__(self):
        return f'<method {self.obj!r}.{self.name}>'


class ModuleV:
    _tab = {}

    def __new__(cls, name):
        b = cls._tab.get(name)
        if b is None:
            b = object.__new__(cls)
            b.name = name
            cls._tab[name] = b
        return b

    def __repr__(self):
        return f'<module {self.name}>'


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, Slice) and same(self.lo, o.lo) and same(self.hi, o.hi) and same(self.step, o.step)

    def __hash__(self):
        return hash('slice')

    def __repr__(self):
        return f'slice({self.lo},{self.hi},{self.step})'


class VRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, VRange) and (self.lo, self.hi, self.step) == (o.lo, o.hi, o.step)

    def __hash__(self):
        return hash('vrange')


class ExcV:
    """an exception value"""

    def __init__(self, cls, msg=None, loc=None):
        self.cls, self.msg, self.loc = cls, msg, loc

    def __eq__(self, o):
        return isinstance(o, ExcV) and o.cls == self.cls and o.loc == self.loc

    def __hash__(self):
        return hash(('exc', self.cls))

    def __repr__(self):
        return f'<exc {self.cls}>'


class Ext:
    """An external object (figure, axes, interpolator ...); `info` describes it."""
    n = 0

    def __init__(self, kind, info=None):
        Ext.n += 1
        self.id = Ext.n
        self.kind, self.info = kind, info or {}

    def __repr__(self):
        return f'<ext {self.kind}>'


class Superv:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SymIter:
    """iteration over a symbolic number of items"""

    def __init__(self, dim, elem):
        self.dim, self.elem = dim, elem


# ---- heap objects (treated as immutable; replaced on write)
class Buf:
    __slots__ = ('shape', 'cells', 'dtype', 'owner', 'wr')

    def __init__(self, shape, cells, dtype, owner=None, wr=True):
        self.shape, self.cells, self.dtype, self.owner, self.wr = tuple(shape), cells, dtype, owner, wr


class LList:
    __slots__ = ('items', 'owner', 'kind')

    def __init__(self, items, owner=None, kind='list'):
        self.items, self.owner, self.kind = tuple(items), owner, kind


class LAlt:
    """a list whose length depends on the path: either of two lists (heap ids)"""
    __slots__ = ('cond', 'a', 'b', 'owner', 'n')

    def __init__(self, cond, a, b, owner, n):
        self.cond, self.a, self.b, self.owner, self.n = cond, a, b, owner, n


class LDict:
    __slots__ = ('d', 'owner', 'open')

    def __init__(self, d, owner=None, open_=False):
        self.d, self.owner, self.open = d, owner, open_


class LObj:
    __slots__ = ('cls', 'attrs', 'owner')

    def __init__(self, cls, attrs, owner=None):
        self.cls, self.attrs, self.owner = cls, attrs, owner


class LEnv:
    __slots__ = ('vars', 'parent', 'globals', 'gnames', 'nlnames')

    def __init__(self, vars, parent=None, globals_=None, gnames=frozenset(), nlnames=frozenset()):
        self.vars, self.parent, self.globals, self.gnames, self.nlnames = vars, parent, globals_, gnames, nlnames


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, int, float, str, Ref, Arr, Choice, Bound, Method, Slice, VRange, ExcV)) or a is None:
        return a == b
    return False


def isnumeric(v):
    return isinstance(v, (T, int, float, bool))


def canon_dim(d):
    if isinstance(d, T):
        if d.op == 'num' and d.args[0].denominator == 1:
            return int(d.args[0])
        return d
    return int(d)


def conc(d):
    return isinstance(d, int) and d <= CONC
