"""Scenarios: abstract calls of kalepy's public entry points on symbolic arguments.

A scenario loads the current source of the package, binds symbolic inputs (arrays of symbolic length whose elements are
value numbers), interprets the entry point abstractly, and keeps the resulting abstract values, the final abstract heap,
every path that leaves with an exception and every effect that was recorded on the way.
"""
import os
import time
import traceback

from . import interp as ip
from . import terms as tm
from . import npcore as nc
from . import loops
from .terms import T, num, TRUE, FALSE
from .values import Arr, Bound, Builtin, Buf, Choice, Cls, ExcV, Ext, Func, LDict, LEnv, LList, LObj, Method, ModuleV, Opaque, Ref, Slice, Superv, isnumeric  # noqa
from .values import conc

HERE = os.path.dirname(os.path.abspath(__file__))
PKG = 'kalepy'


class Missing(Exception):
    """a public name that the property is about does not exist"""


class World:
    """one loaded copy of the package"""

    def __init__(self, plot=True, lib_raises=False):
        I = ip.Interp(lib_raises=lib_raises)
        self.I = I
        try:
            I.load('kalepy')
            for m in ('utils', 'kernels', 'kde', 'sample') + (('plot',) if plot else ()):
                I.load('kalepy.' + m)
        except ip.Dead:
            raise Missing('importing kalepy raises: ' + repr([e[1] for e in I.handlers[-1]][:3]))
        except FileNotFoundError as e:
            raise Missing(f'module not found: {e}')
        self.load_events = I.events
        self.base = I.st
        self.calls0 = {}
        self.visited_all = set(I.visited)
        self.calls_all = {}

    def scenario(self):
        return Scn(self)


class Outcome:
    """result of one abstract call"""

    def __init__(self):
        self.ok = False          # there is a path that returns
        self.value = None
        self.st = None
        self.raises = []         # (state, ExcV)
        self.events = []
        self.undecided = None    # reason the analysis gave up
        self.rng = []
        self.loops = []
        self.wall = 0.0

    def __repr__(self):
        return f'<outcome ok={self.ok} value={self.value!r} raises={len(self.raises)} und={self.undecided}>'


class Scn:
    def __init__(self, world):
        self.w = world
        self.inputs = set()
        self.prefix = ''
        I = self.I = world.I
        I.st = world.base.fork()
        I.events = []
        I.rng_log = []
        I.lib_log = []
        I.memo = {}
        I.phi0 = 0
        I.loopvars = []
        I.loops = []
        I.unmodelled = {}
        I.handlers = [[]]
        I.frames = []
        I.loc = None
        I.steps = 0
        I.quiet = 0
        I.phase = 'setup'

    # -------------------------------------------------- inputs
    def num(self, name, **info):
        info.setdefault('finite', True)
        name = self.prefix + name
        self.inputs.add(name)
        return setsym(name, info)

    def int(self, name, lo=1, **info):
        name = self.prefix + name
        self.inputs.add(name)
        return setsym(name, dict(int=True, lo=lo, **info))

    def arr(self, name, shape, dtype='f', owner=True, **info):
        info.setdefault('finite', True)
        if dtype == 'i':
            info['int'] = True
        name = self.prefix + name
        self.inputs.add(name)
        setsym(name, info)
        return nc.build(self.I, shape, lambda i: tm.sym(name, *i), dtype, owner='arg:' + name if owner else None)

    def barr(self, name, shape):
        name = self.prefix + name
        self.inputs.add(name)
        return nc.build(self.I, shape, lambda i: tm.mk('bsym', name, tuple(num(x) for x in i)), 'b', owner='arg:' + name)

    def sym(self, name):
        return tm.sym(self.prefix + name)

    def list(self, items, owner=None, kind='list'):
        r = self.I.newlist(items, kind=kind)
        if owner:
            self.I.mark_owner(r, 'arg:' + owner)
        return r

    def dict(self, d, owner=None):
        r = self.I.newdict(dict(d))
        if owner:
            self.I.mark_owner(r, 'arg:' + owner)
        return r

    def assume(self, c):
        self.I.st.assume(tm.truth(c))

    # -------------------------------------------------- names
    def get(self, path):
        """value of a dotted public name, e.g. 'kalepy.KDE' or 'kalepy.utils.trapz_nd'"""
        I = self.I
        parts = path.split('.')
        for k in range(len(parts), 0, -1):
            mod = '.'.join(parts[:k])
            if mod in I.modules:
                env = I.get(I.modules[mod])
                rest = parts[k:]
                if not rest:
                    return ModuleV(mod)
                if rest[0] not in env.vars:
                    raise Missing(path)
                v = env.vars[rest[0]]
                for a in rest[1:]:
                    v = self.attr(v, a)
                return v
        raise Missing(path)

    def attr(self, v, name):
        n = len(self.I.handlers[-1])
        try:
            return self.I.getattr(v, name)
        except ip.Dead:
            del self.I.handlers[-1][n:]
            raise Missing(f'attribute {name}')

    # -------------------------------------------------- running
    def run(self, f, *args, **kw):
        """abstract call; f is a value or a python callable taking no arguments"""
        I = self.I
        out = Outcome()
        t0 = time.time()
        I.handlers = [[]]
        I.phase = 'run'
        loops.PHI[0] = I.phi0
        ev0 = len(I.events)
        lo0 = len(I.loops)
        base, I.st = I.st, I.st.fork()
        try:
            if isinstance(f, str):
                f = self.get(f)
            v = f() if callable(f) and not isinstance(f, (Builtin,)) and not hasattr(f, 'node') and not isinstance(f, (Cls, Bound, Method)) else I.call(f, list(args), kw)
            out.ok = True
            out.value = v
            out.st = I.st
        except ip.Dead:
            pass
        except Missing:
            raise
        except ip.Undecided as e:
            out.undecided = f'{e} at {I.loc}'
        except RecursionError:
            out.undecided = f'recursion limit at {I.loc}'
        except Exception as e:                                   # noqa: a limit of the analysis, never of the code
            tb = traceback.extract_tb(e.__traceback__)[-1]
            out.undecided = f'analysis limit {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno}) at {I.loc}'
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        out.raises = I.handlers[0]
        I.handlers = [[]]
        I.frames = []
        I.loopvars = []
        I.quiet = 0
        out.events = I.events[ev0:]
        out.loops = I.loops[lo0:]
        out.rng = list(I.rng_log)
        out.unmodelled = dict(I.unmodelled)
        out.wall = time.time() - t0
        if not out.ok:
            I.st = base
        self.w.visited_all |= I.visited
        for k, n in I.calls.items():
            self.w.calls_all[k] = n
        return out

    # -------------------------------------------------- reading results
    def shape(self, v):
        """shape of an array value as tuple of int/T; () for a number; None if unknown"""
        v = self.I.resolve(v)
        if isinstance(v, Arr):
            return v.shape
        if isinstance(v, (T, int, float, bool)):
            return ()
        return None

    def cell(self, v, idx):
        """element of an array or number, as T, or None when the analysis does not know it"""
        I = self.I
        v = I.resolve(v)
        if isinstance(v, Arr):
            r = nc.read(I, v, list(idx))
        else:
            r = v
        r = I.resolve(r)
        if isinstance(r, (T, int, float, bool)):
            return tm.tonum(I.T(r))
        return None

    def cond(self, since=0):
        return tm.and_(*self.I.st.pc[since:])


def setsym(name, info):
    d = tm.SYM.setdefault(name, {})
    if d != info:
        d.clear()
        d.update(info)
        tm.bump()
    return tm.sym(name)


