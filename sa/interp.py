"""Abstract interpreter for the Python source of kalepy.  Nothing of kalepy is imported or executed."""
import ast
import builtins as _b
import os
import sys
from fractions import Fraction

from . import terms as tm
from .terms import T, num, TRUE, FALSE, ite, and_, or_, not_, isbool
from .values import *  # noqa
from .values import conc, canon_dim, same

sys.setrecursionlimit(20000)
REPO = os.environ.get('KALEPY_SRC', '/repo')


class Dead(Exception):
    """the current path has no normal continuation"""


class Undecided(Exception):
    """analysis limit reached on this entry point"""


class State:
    __slots__ = ('heap', 'pc', 'own', '_facts')

    def __init__(self, heap, pc=(), own=None):
        self.heap, self.pc, self.own, self._facts = heap, pc, (own if own is not None else set()), None

    def fork(self, cond=None):
        s = State(dict(self.heap), self.pc if cond is None else self.pc + (cond,))
        return s

    @property
    def facts(self):
        if self._facts is None or self._facts[0] != len(self.pc):
            self._facts = (len(self.pc), tm.Facts(self.pc))
        return self._facts[1]

    def assume(self, cond):
        if cond is not TRUE and cond not in self.pc:
            self.pc = self.pc + (cond,)


class Frame:
    def __init__(self, env, func, module, cls=None, selfv=None):
        self.env, self.func, self.module, self.cls, self.selfv = env, func, module, cls, selfv
        self.returns = []
        self.loops = []
        self.exc = []


class LoopFrame:
    def __init__(self):
        self.breaks, self.continues = [], []


_SRC = {}


def parse_module(path):
    if path not in _SRC:
        with open(path) as f:
            src = f.read()
        _SRC[path] = ast.parse(src, path)
    return _SRC[path]


class Interp:
    MAXDEPTH = 60

    def __init__(self, lib_raises=False):
        from . import npmodel
        self.models = npmodel.MODELS
        self.np = npmodel
        self.lib_raises = lib_raises
        self._nid = 1
        self.st = State({}, ())
        self.handlers = [[]]
        self.frames = []
        self.events = []
        self.modules = {}
        self.quiet = 0
        self.unmodelled = {}
        self.loops = []            # summaries of while loops
        self.loc = None
        self.phase = 'init'
        self.calls = {}            # function name -> number of abstract calls
        self.visited = set()       # (file, line) of statements analysed
        self.rng_log = []
        self.lib_log = []
        self.memo = {}
        self.loopvars = []
        self.steps = 0
        self.maxsteps = 4000000
        self.hooks = {}            # function qualified name -> python callable(interp, args, kw, call)

    # ------------------------------------------------------------ heap
    def alloc(self, obj):
        self._nid += 1
        self.st.heap[self._nid] = obj
        self.st.own.add(self._nid)
        return self._nid

    def get(self, r):
        i = r if isinstance(r, int) else r.id if isinstance(r, Ref) else r.buf
        o = self.st.heap[i]
        if isinstance(o, LAlt):
            d = self.decide(o.cond)
            if d is TRUE or d is FALSE:
                return self.get(o.a if d is TRUE else o.b)
            return LList([Opaque('list of varying length')], o.owner, 'varlen')
        return o

    def wr(self, i):
        """mutable version of heap object i"""
        st = self.st
        o = st.heap[i]
        if isinstance(o, LAlt):
            d = self.decide(o.cond)
            if d is TRUE or d is FALSE:
                return self.wr(o.a if d is TRUE else o.b)
            st.heap[i] = o = LList([Opaque('list of varying length')], o.owner, 'varlen')
        if i in st.own:
            return o
        if isinstance(o, LEnv):
            n = LEnv(dict(o.vars), o.parent, o.globals, o.gnames, o.nlnames)
        elif isinstance(o, LObj):
            n = LObj(o.cls, dict(o.attrs), o.owner)
        elif isinstance(o, LDict):
            n = LDict(dict(o.d), o.owner, o.open)
        elif isinstance(o, LList):
            n = LList(o.items, o.owner, o.kind)
        elif isinstance(o, Buf):
            n = Buf(o.shape, dict(o.cells), o.dtype, o.owner, o.wr)
        else:
            raise AssertionError(o)
        st.heap[i] = n
        st.own.add(i)
        return n

    def newlist(self, items, owner=None, kind='list'):
        return Ref(self.alloc(LList(items, owner, kind)))

    def newdict(self, d, owner=None, open_=False):
        return Ref(self.alloc(LDict(d, owner, open_)))

    def newobj(self, cls, attrs=None):
        return Ref(self.alloc(LObj(cls, attrs or {})))

    def event(self, kind, **kw):
        if self.quiet:
            return
        kw['kind'] = kind
        kw['loc'] = self.loc
        kw['pc'] = self.st.pc
        kw['phase'] = self.phase
        kw['stack'] = tuple(f.func.name if f.func else f.module for f in self.frames)
        kw['fnode'] = self.frames[-1].func.name if self.frames and self.frames[-1].func else None
        self.events.append(kw)

    # ------------------------------------------------------------ paths
    def decide(self, c):
        """condition T -> TRUE/FALSE/T simplified by the facts of this path"""
        if c is TRUE or c is FALSE:
            return c
        d = self.st.facts.decide(c)
        if d is not None:
            return d
        if c.op in ('and', 'or', 'not', 'ite'):
            return self.st.facts.simplify(c)
        return c

    def fork(self, cond, ft, ff, join=True):
        cond = self.decide(tm.truth(cond))
        if cond is TRUE:
            return ft()
        if cond is FALSE:
            return ff()
        base = self.st
        n = len(base.pc)
        outs = []
        for c, f in ((cond, ft), (not_(cond), ff)):
            self.st = base.fork(c)
            try:
                v = f()
                outs.append((self.st, v))
            except Dead:
                pass
        return self.merge(outs, n)

    def merge(self, outs, n):
        """join path ends (state, value) that share the first n path facts; sets self.st, returns joined value"""
        if not outs:
            raise Dead()
        if len(outs) == 1:
            self.st = outs[0][0]
            return outs[0][1]
        conds = [and_(*s.pc[n:]) for s, _ in outs]
        s, v = outs[-1]
        acc_s, acc_v = s, v
        for (s, v), c in zip(reversed(outs[:-1]), reversed(conds[:-1])):
            heap, val = self.join2(c, s, v, acc_s, acc_v)
            acc_s, acc_v = State(heap, s.pc[:n]), val
        pc = outs[0][0].pc[:n]
        tot = or_(*conds)
        acc_s.pc = pc if tot is TRUE else pc + (tot,)
        self.st = acc_s
        return acc_v

    def join2(self, c, s1, v1, s2, v2):
        h1, h2 = s1.heap, s2.heap
        heap = dict(h2)
        self._jh = heap
        for i, o in h1.items():
            o2 = h2.get(i)
            if o2 is None:
                heap[i] = o
            elif o is not o2:
                heap[i] = self.join_obj(c, o, o2)
        val = self.join_val(c, v1, v2)
        return heap, val

    def join_obj(self, c, a, b):
        if isinstance(a, LEnv):
            vs = {}
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                if k in a.vars and k in b.vars:
                    vs[k] = self.join_val(c, a.vars[k], b.vars[k])
                else:
                    u = Opaque('unbound ' + k)
                    vs[k] = self.join_val(c, a.vars.get(k, u), b.vars.get(k, u))
            return LEnv(vs, a.parent, a.globals, a.gnames, a.nlnames)
        if isinstance(a, LObj):
            vs = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                if k in a.attrs and k in b.attrs:
                    vs[k] = self.join_val(c, a.attrs[k], b.attrs[k])
                else:
                    u = Opaque('unset ' + k)
                    vs[k] = self.join_val(c, a.attrs.get(k, u), b.attrs.get(k, u))
            return LObj(a.cls, vs, a.owner)
        if isinstance(a, LDict):
            vs = {}
            op = a.open or b.open
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                if k in a.d and k in b.d:
                    vs[k] = self.join_val(c, a.d[k], b.d[k])
                else:
                    vs[k] = Choice(c, a.d.get(k, MISSING), b.d.get(k, MISSING))
            return LDict(vs, a.owner, op)
        if isinstance(a, LList):
            if len(a.items) == len(b.items):
                return LList([self.join_val(c, x, y) for x, y in zip(a.items, b.items)], a.owner, a.kind)
            return self.join_alt(c, a, b)
        if isinstance(a, LAlt) or isinstance(b, LAlt):
            return self.join_alt(c, a, b)
        if isinstance(a, Buf):
            if a.shape == b.shape and set(a.cells) == set(b.cells):
                return Buf(a.shape, {k: self.join_val(c, a.cells[k], b.cells[k]) for k in a.cells}, a.dtype, a.owner, a.wr)
            return Buf(a.shape, {k: Opaque('join') for k in a.cells}, a.dtype, a.owner, a.wr)
        raise AssertionError(a)

    def join_alt(self, c, a, b):
        """lists of different length"""
        if isinstance(a, LAlt) and isinstance(b, LAlt) and (a.cond, a.a, a.b) == (b.cond, b.a, b.b):
            return a
        n = sum(x.n if isinstance(x, LAlt) else 1 for x in (a, b))
        if n > 8 or any(isinstance(x, LList) and x.kind in ('varlen', 'symlist') for x in (a, b)):
            return LList([Opaque('list of varying length')], a.owner, 'varlen')
        ids = []
        for x in (a, b):
            self._nid += 1
            self._jh[self._nid] = x
            ids.append(self._nid)
        return LAlt(c, ids[0], ids[1], a.owner, n)

    def join_val(self, c, a, b):
        if same(a, b):
            return a
        if isnumeric(a) and isnumeric(b):
            ta = self.T(a)
            tb = self.T(b)
            r = ite(c, ta, tb)
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        if isinstance(a, Choice) and a.cond is c:
            a = a.a
        if isinstance(b, Choice) and b.cond is c:
            b = b.b
        if same(a, b):
            return a
        return Choice(c, a, b)

    def T(self, v):
        if isinstance(v, T):
            return v
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            return num(v)
        raise TypeError(v)

    def resolve(self, v):
        while isinstance(v, Choice):
            d = self.decide(v.cond)
            if d is TRUE:
                v = v.a
            elif d is FALSE:
                v = v.b
            else:
                break
        if isinstance(v, T) and v.op == 'ite':
            d = self.decide(v.args[0])
            if d is TRUE:
                return self.resolve(v.args[1])
            if d is FALSE:
                return self.resolve(v.args[2])
        if isinstance(v, Ref):
            o = self.st.heap.get(v.id)
            if isinstance(o, LAlt):
                return self.resolve(Choice(o.cond, Ref(o.a), Ref(o.b)))
        return v

    def split(self, v, f):
        """apply f to every alternative of v"""
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.fork(v.cond, lambda: self.split(v.a, f), lambda: self.split(v.b, f))
        return f(v)

    def splitn(self, vs, f):
        vs = list(vs)
        for i, v in enumerate(vs):
            v = self.resolve(v)
            vs[i] = v
            if isinstance(v, Choice):
                return self.fork(v.cond, lambda: self.splitn(vs[:i] + [v.a] + vs[i + 1:], f),
                                 lambda: self.splitn(vs[:i] + [v.b] + vs[i + 1:], f))
        return f(vs)

    def raise_(self, cls, msg=None):
        self.emit(ExcV(cls, msg, self.loc))

    def emit(self, exc):
        self.handlers[-1].append((self.st, exc))
        raise Dead()

    def raise_if(self, cond, cls, msg=None):
        """conditional raise; continue under the negation"""
        cond = self.decide(tm.truth(cond))
        if cond is FALSE:
            return
        if cond is TRUE:
            self.raise_(cls, msg)
        s = self.st.fork(cond)
        self.handlers[-1].append((s, ExcV(cls, msg, self.loc)))
        self.st.assume(not_(cond))

    # ------------------------------------------------------------ modules
    def load(self, name):
        """abstractly execute the top level of a kalepy module"""
        if name in self.modules:
            return self.modules[name]
        rel = name.split('.')
        path = os.path.join(REPO, *rel) + '.py'
        if not os.path.exists(path):
            path = os.path.join(REPO, *rel, '__init__.py')
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        env = self.alloc(LEnv({'__name__': name, '__file__': path}, None, None))
        self.modules[name] = env
        self.wr(env).globals = env
        tree = parse_module(path)
        self.frames.append(Frame(env, None, name))
        save = self.loc
        try:
            self.block(tree.body)
        finally:
            self.frames.pop()
            self.loc = save
        if '.' in name:
            par, sub = name.rsplit('.', 1)
            self.wr(self.modules[par]).vars.setdefault(sub, ModuleV(name))
        return env

    def load_file(self, name, path):
        """abstractly execute a specification module"""
        env = self.alloc(LEnv({'__name__': name, '__file__': path}, None, None))
        self.modules[name] = env
        self.wr(env).globals = env
        self.frames.append(Frame(env, None, name))
        try:
            self.block(parse_module(path).body)
        finally:
            self.frames.pop()
        return env

    def mark_owner(self, v, label, seen=None, attrs=True):
        """label every mutable object reachable from v"""
        seen = set() if seen is None else seen
        if isinstance(v, Choice):
            self.mark_owner(v.a, label, seen)
            self.mark_owner(v.b, label, seen)
            return
        if isinstance(v, tuple):
            for x in v:
                self.mark_owner(x, label, seen)
            return
        if isinstance(v, Func):
            return
        if isinstance(v, Cls):
            v = v.ref
        i = v.buf if isinstance(v, Arr) else v.id if isinstance(v, Ref) else None
        if i is None or i in seen:
            return
        seen.add(i)
        if isinstance(self.st.heap[i], LAlt):
            o = self.st.heap[i]
            self.mark_owner(Ref(o.a), label, seen)
            self.mark_owner(Ref(o.b), label, seen)
            return
        o = self.wr(i)
        if isinstance(o, LEnv):
            return
        if o.owner is None:
            o.owner = label
        if isinstance(o, LList):
            for n, x in enumerate(o.items):
                self.mark_owner(x, f'{label}[{n}]', seen)
        elif isinstance(o, LDict):
            for k, x in o.d.items():
                self.mark_owner(x, f'{label}[{k!r}]', seen)
        elif isinstance(o, LObj):
            for k, x in o.attrs.items():
                self.mark_owner(x, f'{label}.{k}', seen)
        elif isinstance(o, Buf) and o.dtype == 'o':
            for k, x in o.cells.items():
                self.mark_owner(x, f'{label}{list(k)}', seen)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided('step limit')
        fr = self.frames[-1]
        self.loc = (fr.module, getattr(s, 'lineno', 0))
        tm.LOC[0] = self.loc
        self.visited.add(self.loc)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided(f'statement {type(s).__name__} at {self.loc}')
        m(s)

    def at(self, node):
        self.loc = (self.frames[-1].module, getattr(node, 'lineno', self.loc[1] if self.loc else 0))
        tm.LOC[0] = self.loc

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        e = self.wr(self.frames[-1].env)
        e.gnames = e.gnames | set(s.names)

    def s_Nonlocal(self, s):
        e = self.wr(self.frames[-1].env)
        e.nlnames = e.nlnames | set(s.names)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id)
            v = self.ev(s.value)
            self.at(s)
            r = self.inplace(op, cur, v)
            self.assign(t, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value)
            self.at(s)
            r = self.inplace(op, cur, v)
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            v = self.ev(s.value)
            self.at(s)

            def go(o):
                cur = self.getitem(o, i)
                if isinstance(o, Arr):
                    self.setitem(o, i, self.binop(op, cur, v))
                else:
                    self.setitem(o, i, self.inplace(op, cur, v))
            self.split(o, go)
        else:
            raise Undecided('augassign')

    def inplace(self, op, cur, v):
        def go(c):
            if isinstance(c, Arr):
                r = self.binop(op, c, v)
                self.np.assign_all(self, c, r)
                return c
            if isinstance(c, Ref):
                o = self.get(c)
                if isinstance(o, LList) and op == 'Add':
                    self.np.list_extend(self, c, v)
                    return c
                if isinstance(o, LDict) and op == 'BitOr':
                    self.np.dict_update(self, c, v)
                    return c
            return self.binop(op, c, v)
        return self.split(cur, go)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = self.wr(self.frames[-1].env)
                e.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                i = self.ev(t.slice)
                self.np.delitem(self, o, i)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, Ref) and isinstance(self.get(o), LObj):
                    self.wr(o.id).attrs.pop(t.attr, None)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.frames[-1].returns.append((self.st, v))
        raise Dead()

    def s_Break(self, s):
        self.frames[-1].loops[-1].breaks.append(self.st)
        raise Dead()

    def s_Continue(self, s):
        self.frames[-1].loops[-1].continues.append(self.st)
        raise Dead()

    def s_Raise(self, s):
        if s.exc is None:
            fr = next((f for f in reversed(self.frames) if f.exc), None)
            if fr is None:
                self.raise_('RuntimeError', 'no active exception to reraise')
            self.emit(fr.exc[-1])
        v = self.ev(s.exc)
        self.at(s)

        def go(v):
            if isinstance(v, ExcV):
                self.emit(ExcV(v.cls, v.msg, self.loc))
            if isinstance(v, Builtin):
                self.emit(ExcV(v.name.split('.')[-1], None, self.loc))
            if isinstance(v, Cls):
                self.emit(ExcV(v.name, None, self.loc))
            self.emit(ExcV('Exception', None, self.loc))
        self.split(v, go)

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.at(s)
        self.raise_if(not_(c), 'AssertionError')

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        self.fork(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_FunctionDef(self, s):
        v = self.mkfunc(s, s.name)
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d), v)
        self.setvar(s.name, v)

    def decorate(self, d, v):
        n = d.name if isinstance(d, Builtin) else None
        if n in ('staticmethod', 'classmethod', 'property') and isinstance(v, Func):
            f = Func(v.node, v.env, v.module, v.name, v.defaults, v.kwdefaults, v.cls, n, v.decorators)
            return f
        if n in ('numba.njit', 'numba.jit', 'abc.abstractmethod', 'numba.vectorize', 'functools.wraps', 'functools.lru_cache',
                 'functools.cache'):
            if n in ('functools.lru_cache', 'functools.cache') and isinstance(v, Func):
                v = Func(v.node, v.env, v.module, v.name, v.defaults, v.kwdefaults, v.cls, v.kind, v.decorators + (n,))
            return v
        if isinstance(d, Ext) and d.kind == 'lru_cache' and isinstance(v, Func):
            return Func(v.node, v.env, v.module, v.name, v.defaults, v.kwdefaults, v.cls, v.kind, v.decorators + ('lru_cache',))
        if n == 'functools.cached_property' and isinstance(v, Func):
            return Func(v.node, v.env, v.module, v.name, v.defaults, v.kwdefaults, v.cls, 'property', v.decorators + ('cached_property',))
        if isinstance(d, Opaque):
            return v
        if isinstance(d, Method) and d.name == 'setter' and isinstance(d.obj, Func):
            f = d.obj
            v2 = Func(v.node, v.env, v.module, v.name, v.defaults, v.kwdefaults, v.cls, 'property', v.decorators)
            g = Func(f.node, f.env, f.module, f.name, f.defaults, f.kwdefaults, f.cls, 'property', f.decorators)
            g.setter = v2
            return g
        return self.call(d, [v], {})

    def mkfunc(self, s, name, kind='function'):
        a = s.args
        defaults = tuple(self.ev(d) for d in a.defaults)
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(defaults):], defaults):
            self.mark_owner(d, f'default:{name}({p.arg})')
        kwd = {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[p.arg] = self.ev(d)
                self.mark_owner(kwd[p.arg], f'default:{name}({p.arg})')
        fr = self.frames[-1]
        return Func(s, fr.env, fr.module, name, defaults, kwd, cls=None, kind=kind)

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        fr = self.frames[-1]
        ns = self.alloc(LEnv({}, fr.env, self.get(fr.env).globals))
        self.frames.append(Frame(ns, None, fr.module))
        try:
            self.block(s.body)
        finally:
            self.frames.pop()
        vars = dict(self.get(ns).vars)
        ref = self.newobj(None, vars)
        c = Cls(s.name, bases, ref, fr.module)
        for v in vars.values():
            if isinstance(v, Func) and v.cls is None:
                v.cls = c
                st = getattr(v, 'setter', None)
                if st:
                    st.cls = c
        self.setvar(s.name, c)

    def s_Import(self, s):
        for a in s.names:
            if a.name.split('.')[0] == 'kalepy':
                self.load(a.name)
            if a.asname:
                self.setvar(a.asname, ModuleV(a.name))
            else:
                self.setvar(a.name.split('.')[0], ModuleV(a.name.split('.')[0]))

    def s_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            base = self.frames[-1].module
            pkg = base if base == 'kalepy' else base.rsplit('.', s.level)[0]
            mod = pkg + ('.' + mod if mod else '')
        if mod.split('.')[0] == 'kalepy':
            env = self.load(mod)
            for a in s.names:
                if a.name == '*':
                    vars = self.get(env).vars
                    names = None
                    if '__all__' in vars:
                        al = vars['__all__']
                        if isinstance(al, Ref):
                            names = [x for x in self.get(al).items if isinstance(x, str)]
                    if names is None:
                        names = [k for k in vars if not k.startswith('_')]
                    for k in names:
                        if k in self.get(env).vars:
                            self.setvar(k, self.get(env).vars[k])
                else:
                    v = self.get(env).vars.get(a.name)
                    if v is None and a.name not in self.get(env).vars:
                        try:
                            self.load(mod + '.' + a.name)
                            v = ModuleV(mod + '.' + a.name)
                        except FileNotFoundError:
                            self.raise_('ImportError', a.name)
                    self.setvar(a.asname or a.name, v)
            return
        for a in s.names:
            if a.name == '*':
                continue
            self.setvar(a.asname or a.name, self.modattr(ModuleV(mod), a.name))

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Opaque('with'))
        self.block(s.body)

    def s_Try(self, s):
        base = self.st
        n = len(base.pc)
        self.st = base.fork()
        coll = []
        self.handlers.append(coll)
        outs = []
        fr = self.frames[-1]
        try:
            self.block(s.body)
            ok = True
        except Dead:
            ok = False
        finally:
            self.handlers.pop()
        if ok:
            try:
                self.block(s.orelse)
                outs.append((self.st, None))
            except Dead:
                pass
        for st, exc in coll:
            self.st = st
            handled = False
            for h in s.handlers:
                mt = self.match_exc(exc, h)
                if mt:
                    handled = True
                    if h.name:
                        self.setvar(h.name, exc)
                    fr.exc.append(exc)
                    try:
                        self.block(h.body)
                        outs.append((self.st, None))
                    except Dead:
                        pass
                    finally:
                        fr.exc.pop()
                    break
            if not handled:
                self.handlers[-1].append((st, exc))
        if s.finalbody:
            res = []
            for st, _ in outs:
                self.st = st
                try:
                    self.block(s.finalbody)
                    res.append((self.st, None))
                except Dead:
                    pass
            outs = res
        self.merge(outs, n)

    def match_exc(self, exc, h):
        if h.type is None:
            return True
        v = self.ev(h.type)
        names = []
        for x in (v if isinstance(v, tuple) else (v,)):
            names.append(x.name.split('.')[-1] if isinstance(x, (Builtin, Cls)) else '?')
        return any(exc_sub(exc.cls, nm) for nm in names)

    def s_While(self, s):
        from . import loops
        loops.run_while(self, s)

    def s_For(self, s):
        from . import loops
        loops.run_for(self, s)

    # ------------------------------------------------------------ names
    def lookup_env(self, name):
        i = self.frames[-1].env
        first = True
        h = self.st.heap
        g = h[i].globals
        while i is not None:
            e = h[i]
            if first and name in e.gnames:
                i = g
                e = h[i]
            first = False
            if name in e.vars:
                return i
            i = e.parent
        if g is not None and name in h[g].vars:
            return g
        return None

    def name(self, name):
        i = self.lookup_env(name)
        if i is not None:
            v = self.st.heap[i].vars[name]
            if isinstance(v, Opaque) and v.why.startswith('unbound '):
                pass
            return v
        if hasattr(_b, name):
            return Builtin(name)
        self.raise_('NameError', name)

    def setvar(self, name, v):
        fr = self.frames[-1]
        e = self.st.heap[fr.env]
        if name in e.gnames:
            g = self.st.heap[fr.env].globals
            self.event('global', name=name, module=fr.module, value=v)
            self.wr(g).vars[name] = v
            return
        if name in e.nlnames:
            i = e.parent
            while i is not None and name not in self.st.heap[i].vars:
                i = self.st.heap[i].parent
            if i is not None:
                self.wr(i).vars[name] = v
                return
        self.wr(fr.env).vars[name] = v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.at(t)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            self.at(t)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Undecided('assign target')

    def unpack(self, elts, v):
        def go(v):
            items = self.items(v)
            if items is None:
                if isinstance(v, Arr) or isinstance(v, SymIter):
                    # symbolic number of items: unpacking needs an exact length
                    dim = v.shape[0] if isinstance(v, Arr) else v.dim
                    if isinstance(v, Arr) and not any(isinstance(e, ast.Starred) for e in elts):
                        self.raise_if(not_(tm.eq(num(dim), num(len(elts)))), 'ValueError', 'unpack')
                        items = [self.getitem(v, k) for k in range(len(elts))]
                if items is None:
                    for e in elts:
                        self.assign(e, Opaque('unpack') if not isinstance(e, ast.Starred) else self.newlist([Opaque('unpack')], kind='varlen'))
                    return
            star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(elts) - k - 1
                if len(items) < len(elts) - 1:
                    self.raise_('ValueError', 'unpack')
                mid = items[k:len(items) - after]
                for e, x in zip(elts[:k], items[:k]):
                    self.assign(e, x)
                self.assign(elts[k].value, self.newlist(mid))
                for e, x in zip(elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x)
                return
            if len(items) != len(elts):
                self.raise_('ValueError', 'unpack')
            for e, x in zip(elts, items):
                self.assign(e, x)
        self.split(v, go)

    def items(self, v):
        """concrete list of the items of an iterable value, or None"""
        v = self.resolve(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, LList):
                if o.kind in ('varlen', 'symlist'):
                    return None
                return list(o.items)
            if isinstance(o, LDict):
                if o.open:
                    return None
                return [k for k in o.d if o.d[k] is not MISSING]
            return None
        if isinstance(v, VRange):
            if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
                r = range(v.lo, v.hi, v.step)
                if len(r) <= 64:
                    return list(r)
            return None
        if isinstance(v, Arr):
            if v.ndim and conc(v.shape[0]):
                return [self.getitem(v, k) for k in range(v.shape[0])]
            return None
        return None

    def iterate(self, v):
        """-> list of items or SymIter or None (unknown)"""
        v = self.resolve(v)
        if isinstance(v, SymIter):
            return v
        it = self.items(v)
        if it is not None:
            return it
        if isinstance(v, Ref) and isinstance(self.get(v), LList) and self.get(v).kind == 'symlist':
            return self.get(v).items[0]
        if isinstance(v, VRange):
            lo, hi, st = (num(x) for x in (v.lo, v.hi, v.step))
            n = self.np.dim_sub(self, hi, lo) if st is tm.ONE else None
            if n is None:
                if tm.isnum(st) and st.args[0] == -1:
                    n = tm.sub(lo, hi)
                else:
                    return None
            return SymIter(n, lambda i: tm.add(lo, tm.mul(st, i)))
        if isinstance(v, Arr) and v.ndim:
            return SymIter(num(v.shape[0]), lambda i: self.getitem(v, i))
        if isinstance(v, Arr):
            self.raise_('TypeError', 'iteration over a 0-d array')
        if isnumeric(v) or v is None or isinstance(v, (Func, Cls)):
            self.raise_('TypeError', 'not iterable')
        return None

    # ------------------------------------------------------------ attributes
    def modattr(self, m, name):
        full = m.name + '.' + name
        if m.name.split('.')[0] == 'kalepy':
            env = self.load(m.name)
            vars = self.get(env).vars
            if name in vars:
                return vars[name]
            if full in self.modules:
                return ModuleV(full)
            self.raise_('AttributeError', full)
        r = self.np.module_attr(self, m.name, name)
        return r

    def cls_lookup(self, cls, name):
        for c in cls.mro():
            a = self.get(c.ref).attrs
            if name in a:
                return a[name], c
        return None, None

    def getattr(self, o, name):
        def go(o):
            if isinstance(o, ModuleV):
                return self.modattr(o, name)
            if isinstance(o, Cls):
                v, c = self.cls_lookup(o, name)
                if c is not None:
                    if isinstance(v, Func):
                        if v.kind == 'classmethod':
                            return Bound(o, v)
                        return v
                    return v
                if name == '__name__':
                    return o.name
                if name == '__init__' or name == '__class__':
                    return Builtin('object.' + name)
                self.raise_('AttributeError', f'{o.name}.{name}')
            if isinstance(o, Ref):
                ob = self.get(o)
                if isinstance(ob, LObj):
                    if name in ob.attrs:
                        return ob.attrs[name]
                    if ob.cls is None:
                        return Opaque(name)
                    v, c = self.cls_lookup(ob.cls, name)
                    if c is not None:
                        if isinstance(v, Func):
                            if v.kind == 'staticmethod':
                                return v
                            if v.kind == 'classmethod':
                                return Bound(ob.cls, v)
                            if v.kind == 'property':
                                return self.call(Bound(o, v), [], {})
                            return Bound(o, v)
                        return v
                    if name == '__class__':
                        return ob.cls
                    if name == '__dict__':
                        return self.newdict(dict(ob.attrs))
                    if ob.cls.ext_bases() and any(isinstance(b, Opaque) for b in ob.cls.ext_bases()):
                        return Opaque(name)
                    self.raise_('AttributeError', f'{ob.cls.name}.{name}')
            if isinstance(o, Superv):
                selfv = o.obj
                cls = self.get(selfv).cls if isinstance(selfv, Ref) else selfv
                m = cls.mro()
                k = m.index(o.cls) if o.cls in m else 0
                for c in m[k + 1:]:
                    a = self.get(c.ref).attrs
                    if name in a:
                        v = a[name]
                        if isinstance(v, Func) and v.kind in ('function', 'classmethod'):
                            return Bound(selfv, v)
                        if isinstance(v, Func) and v.kind == 'property':
                            return self.call(Bound(selfv, v), [], {})
                        return v
                return Builtin('object.' + name)
            return self.np.value_attr(self, o, name)
        return self.split(o, go)

    def setattr(self, o, name, v):
        def go(o):
            if isinstance(o, Ref) and isinstance(self.get(o), LObj):
                ob = self.get(o)
                if ob.cls is not None:
                    pv, c = self.cls_lookup(ob.cls, name)
                    if isinstance(pv, Func) and pv.kind == 'property':
                        st = getattr(pv, 'setter', None)
                        if st is None:
                            self.raise_('AttributeError', name)
                        self.call(Bound(o, st), [v], {})
                        return
                self.event('setattr', obj=o, cls=ob.cls.name if ob.cls else None, attr=name, value=v, owner=ob.owner,
                           old=ob.attrs.get(name, MISSING))
                self.wr(o.id).attrs[name] = v
                return
            if isinstance(o, Cls):
                self.event('global', name=f'{o.name}.{name}', module=o.module, value=v)
                self.wr(o.ref.id).attrs[name] = v
                return
            if isinstance(o, ModuleV):
                self.event('global', name=f'{o.name}.{name}', module=o.name, value=v)
                if o.name in self.modules:
                    self.wr(self.modules[o.name]).vars[name] = v
                return
            if isinstance(o, Arr):
                if name == 'shape':
                    self.event('write', owner=self.get(o).owner, what='shape')
                return
            if isinstance(o, Ext):
                self.event('ext', obj=o, method='setattr:' + name, args=[v], kw={})
                return
            if o is None or isnumeric(o):
                self.raise_('AttributeError', name)
        self.split(o, go)

    # ------------------------------------------------------------ items
    def getitem(self, o, i):
        return self.split(o, lambda o: self.split(i, lambda i: self.np.getitem(self, o, i)))

    def setitem(self, o, i, v):
        self.split(o, lambda o: self.split(i, lambda i: self.np.setitem(self, o, i, v)))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided(f'expression {type(e).__name__}')
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return num(v)
        if isinstance(v, complex) or isinstance(v, bytes):
            return Opaque('const')
        return v

    def e_Name(self, e):
        return self.name(e.id)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        self.at(e)
        return self.getattr(o, e.attr)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        i = self.ev(e.slice)
        self.at(e)
        return self.getitem(o, i)

    def e_Slice(self, e):
        return Slice(*[self.ev(x) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e):
        return tuple(self.elems(e.elts))

    def e_List(self, e):
        return self.newlist(self.elems(e.elts))

    def e_Set(self, e):
        return self.newlist(self.elems(e.elts), kind='set')

    def elems(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                it = self.iterate(v)
                if isinstance(it, list):
                    out.extend(it)
                else:
                    out.append(Opaque('star'))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.resolve(self.ev(v))
                if isinstance(o, Ref) and isinstance(self.get(o), LDict):
                    d.update(self.get(o).d)
                continue
            kk = self.key(self.ev(k))
            d[kk] = self.ev(v)
        return self.newdict(d)

    def key(self, k):
        k = self.resolve(k)
        if isinstance(k, T):
            if k.op == 'num' and k.args[0].denominator == 1:
                return int(k.args[0])
            return k
        if isinstance(k, (Ref, Arr)):
            return k
        return k

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        return self.boolop(isand, e.values)

    def boolop(self, isand, vals):
        v = self.ev(vals[0])
        if len(vals) == 1:
            return v
        c = self.truth(v)
        if isand:
            return self.fork(c, lambda: self.boolop(isand, vals[1:]), lambda: v)
        return self.fork(c, lambda: v, lambda: self.boolop(isand, vals[1:]))

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        self.at(e)
        if isinstance(e.op, ast.Not):
            return self.pybool(not_(self.truth(v)))
        return self.split(v, lambda v: self.np.unary(self, type(e.op).__name__, v))

    def pybool(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        return t

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.at(e)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.splitn([a, b], lambda vs: self.np.binop(self, op, vs[0], vs[1]))

    def e_Compare(self, e):
        left = self.ev(e.left)

        def chain(left, ops, rest):
            right = self.ev(rest[0])
            self.at(e)
            r = self.compare(type(ops[0]).__name__, left, right)
            if len(ops) == 1:
                return r
            c = self.truth(r)
            return self.fork(c, lambda: chain(right, ops[1:], rest[1:]), lambda: r)
        return chain(left, e.ops, e.comparators)

    def compare(self, op, a, b):
        return self.splitn([a, b], lambda vs: self.np.compare(self, op, vs[0], vs[1]))

    def truth(self, v):
        v = self.resolve(v)
        if v is None:
            return FALSE
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return TRUE if v else FALSE
        if isinstance(v, T):
            return tm.truth(v)
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, Choice):
            return ite(v.cond, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, LList):
                if o.kind == 'varlen':
                    return tm.mk('bsym', f'len{v.id}', ())
                return TRUE if o.items else FALSE
            if isinstance(o, LDict):
                return TRUE if o.d else FALSE
            return TRUE
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.truth(self.np.scalar(self, v))
            n = self.np.size_of(v)
            if isinstance(n, int) and n == 1:
                return self.truth(self.np.read(self, v, [0] * v.ndim))
            if isinstance(n, int) and n == 0:
                return FALSE
            c = self.decide(tm.eq(num(n), tm.ONE))
            if c is FALSE:
                self.raise_('ValueError', 'truth value of an array')
            self.raise_if(not_(c), 'ValueError', 'truth value of an array')
            return tm.mk('bsym', f'truth{v.buf}', ())
        if isinstance(v, Opaque):
            self._nid += 1
            return tm.mk('bsym', f'opaque{self._nid}', ())
        return TRUE

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.fork(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        if all(isinstance(v, ast.Constant) for v in e.values):
            return ''.join(v.value for v in e.values)
        return '<str>'

    def e_Lambda(self, e):
        fake = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=0)],
                               decorator_list=[], lineno=e.lineno, col_offset=0)
        return self.mkfunc(fake, '<lambda>')

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_GeneratorExp(self, e):
        return self.comp(e, 'list')

    def e_SetComp(self, e):
        return self.comp(e, 'set')

    def e_DictComp(self, e):
        return self.comp(e, 'dict')

    def comp(self, e, kind):
        from . import loops
        return loops.run_comp(self, e, kind)

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = self.frames[-1]
            return Superv(fr.cls, fr.selfv)
        f = self.ev(e.func)
        args, kw = [], {}
        opaque_star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                it = self.iterate(v)
                if isinstance(it, list):
                    args.extend(it)
                elif isinstance(it, SymIter):
                    args.append(StarArg(v))
                else:
                    opaque_star = True
                    args.append(Opaque('star'))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                v = self.resolve(v)
                if isinstance(v, Ref) and isinstance(self.get(v), LDict):
                    for kk, x in self.get(v).d.items():
                        if x is not MISSING:
                            kw[kk] = x
                    if self.get(v).open:
                        kw.setdefault('**', True)
                elif isinstance(v, Choice):
                    alts = v

                    def with_alt(d):
                        kw2 = dict(kw)
                        if isinstance(d, Ref):
                            kw2.update({kk: x for kk, x in self.get(d).d.items() if x is not MISSING})
                        return self.call(f, args, kw2)
                    return self.split(alts, with_alt)
            else:
                if k.arg in kw:
                    self.at(e)
                    self.raise_('TypeError', f'multiple values for {k.arg}')
                kw[k.arg] = v
        self.at(e)
        # optional keyword entries
        for k, x in list(kw.items()):
            if isinstance(x, Choice) and (x.a is MISSING or x.b is MISSING):
                def go(present, val):
                    kw2 = dict(kw)
                    if present:
                        kw2[k] = val
                    else:
                        kw2.pop(k)
                    return self.call(f, args, kw2)
                return self.fork(x.cond, lambda: go(x.a is not MISSING, x.a), lambda: go(x.b is not MISSING, x.b))
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        f = self.resolve(f)
        if isinstance(f, Choice):
            return self.split(f, lambda f: self.call(f, args, kw))
        loc = self.loc
        r = self._call(f, list(args), dict(kw))
        self.loc = loc
        tm.LOC[0] = loc
        return r

    def _call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_func(f, args, kw, None)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.obj] + args, kw, f.obj)
        if isinstance(f, Cls):
            if any(isinstance(b, Builtin) and is_exc_name(b.name.split('.')[-1]) for b in f.ext_bases()):
                return ExcV(f.name, None, self.loc)
            o = self.newobj(f, {})
            init, c = self.cls_lookup(f, '__init__')
            if init is not None:
                self.call_func(init, [o] + args, kw, o)
            elif args or kw:
                if not any(isinstance(b, Opaque) for b in f.ext_bases()):
                    self.raise_('TypeError', 'takes no arguments')
            return o
        if isinstance(f, (Builtin, Method)):
            return self.np.call(self, f, args, kw)
        if isinstance(f, Opaque):
            return Opaque('call ' + f.why)
        if isinstance(f, Ref):
            ob = self.get(f)
            if isinstance(ob, LObj) and ob.cls:
                v, c = self.cls_lookup(ob.cls, '__call__')
                if v is not None:
                    return self.call_func(v, [f] + args, kw, f)
        if isinstance(f, Ext):
            return self.np.call_ext(self, f, args, kw)
        self.raise_('TypeError', f'not callable: {f!r}')

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        for p, v in zip(pos, args):
            vals[p] = v
        extra = args[len(pos):]
        if extra and a.vararg is None:
            self.raise_('TypeError', f'{f.name}: too many positional arguments')
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        kwo = [p.arg for p in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k == '**':
                rest[k] = v
                continue
            if k in pos[len(a.posonlyargs):] or k in kwo:
                if k in vals:
                    self.raise_('TypeError', f'{f.name}: multiple values for {k}')
                vals[k] = v
            else:
                rest[k] = v
        opn = rest.pop('**', False)
        if rest and a.kwarg is None:
            self.raise_('TypeError', f'{f.name}: unexpected keyword {sorted(map(str, rest))}')
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.newdict(rest, open_=bool(opn))
        nd = len(f.defaults)
        for k, p in enumerate(pos):
            if p not in vals:
                j = k - (len(pos) - nd)
                if j >= 0:
                    vals[p] = f.defaults[j]
                else:
                    self.raise_('TypeError', f'{f.name}: missing argument {p}')
        for p in kwo:
            if p not in vals:
                if p in f.kwdefaults:
                    vals[p] = f.kwdefaults[p]
                else:
                    self.raise_('TypeError', f'{f.name}: missing argument {p}')
        return vals

    def qual(self, f):
        return f'{f.module}.{f.cls.name}.{f.name}' if f.cls else f'{f.module}.{f.name}'

    def memokey(self, v):
        v = self.resolve(v)
        if isinstance(v, Arr) or isinstance(v, Ref) and isinstance(self.get(v), (LList, LDict)):
            self.raise_('TypeError', 'unhashable')
        if isinstance(v, Ref):
            return ('ref', v.id)
        try:
            hash(v)
        except TypeError:
            return ('id', id(v))
        return v

    def alive(self, v):
        i = v.buf if isinstance(v, Arr) else v.id if isinstance(v, Ref) else None
        return i is None or i in self.st.heap

    def call_func(self, f, args, kw, selfv):
        if len(self.frames) > self.MAXDEPTH:
            raise Undecided('call depth')
        q = self.qual(f)
        self.calls[q] = self.calls.get(q, 0) + 1
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if f.decorators:
            self.event('memo', func=q)
            key = tuple(self.memokey(x) for x in args) + tuple((k, self.memokey(x)) for k, x in kw.items())
            tab = self.memo.setdefault((q, f.cls), {})
            if not (key in tab and self.alive(tab[key])):
                tab[key] = self.call_body(f, args, kw, selfv)
            return tab[key]
        return self.call_body(f, args, kw, selfv)

    def call_body(self, f, args, kw, selfv):
        base = self.st
        n = len(base.pc)
        vals = self.bind(f, args, kw)
        env = self.alloc(LEnv(vals, f.env, self.get(f.env).globals))
        if selfv is None and args and f.cls is not None and f.kind in ('function', 'property'):
            selfv = args[0]
        fr = Frame(env, f, f.module, f.cls, selfv)
        self.frames.append(fr)
        try:
            try:
                self.block(f.node.body)
                fr.returns.append((self.st, None))
            except Dead:
                pass
        finally:
            self.frames.pop()
        v = self.merge(fr.returns, n)
        # drop the environment unless captured
        if not any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp)) for s in f.node.body for x in ast.walk(s)):
            self.st.heap.pop(env, None)
        return v


class _Missing:
    def __repr__(self):
        return '<missing>'


MISSING = _Missing()


class StarArg:
    """*x with a symbolic number of items"""

    def __init__(self, v):
        self.v = v


EXC = {'LinAlgError': 'ValueError'}


def exc_sub(a, b):
    """is exception class named a a subclass of b"""
    if a == b or b in ('BaseException', 'Exception'):
        return True
    if a in EXC:
        return exc_sub(EXC[a], b)
    ca, cb = getattr(_b, a, None), getattr(_b, b, None)
    try:
        return issubclass(ca, cb)
    except TypeError:
        return False


def is_exc_name(n):
    c = getattr(_b, n, None)
    return n in ('LinAlgError', 'AxisError') or isinstance(c, type) and issubclass(c, BaseException)
