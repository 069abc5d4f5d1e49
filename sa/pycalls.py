"""Calls of builtins, library functions and methods of library values."""
from . import terms as tm
from .terms import T, num, TRUE, FALSE, ite, and_, or_, not_
from .values import *  # noqa
from .values import conc, canon_dim, same
from . import npcore as nc
from .npcore import as_arr, read, scalar, size_of, build, dt_of, is_listy, reshape, transpose, cast
from . import npfuncs as nf
from .npfuncs import MODELS, parse, pyb, ints, one

BI = {}


def bi(names):
    def deco(f):
        for n in names.split():
            BI[n] = f
        return f
    return deco


EXCS = set('''BaseException Exception ValueError TypeError KeyError IndexError AttributeError RuntimeError NotImplementedError ZeroDivisionError ArithmeticError
LookupError NameError OSError IOError StopIteration AssertionError ImportError Warning UserWarning DeprecationWarning RuntimeWarning FutureWarning OverflowError
FloatingPointError MemoryError KeyboardInterrupt SystemExit UnboundLocalError FileNotFoundError LinAlgError AxisError RecursionError ModuleNotFoundError EOFError'''.split())
IGNORED = ('logging', 'warnings', 'gc', 'time', 'datetime', 'cProfile', 'pstats', 'traceback')


def call(I, f, args, kw):
    if isinstance(f, Method):
        return method(I, f.obj, f.name, args, kw)
    name = f.name
    alt = None
    for k, a in enumerate(args):
        if isinstance(I.resolve(a), Choice):
            return I.splitn(args, lambda vs: call(I, f, vs, kw))
    for k, a in kw.items():
        if isinstance(I.resolve(a), Choice):
            ks = list(kw)
            return I.splitn([kw[x] for x in ks], lambda vs: call(I, f, args, dict(zip(ks, vs))))
    args = [I.resolve(a) for a in args]
    kw = {k: I.resolve(v) for k, v in kw.items()}
    base = name.split('.')
    if name in BI:
        return BI[name](I, args, kw)
    if len(base) == 1 and name in EXCS:
        return ExcV(name, args[0] if args and isinstance(args[0], str) else None, I.loc)
    if base[0] in IGNORED:
        return Opaque(name)
    if base[0] == 'math' and name not in MODELS:
        alt = {'math.fabs': 'numpy.abs', 'math.isclose': 'numpy.isclose', 'math.fsum': 'numpy.sum', 'math.pow': 'numpy.power', 'math.dist': None}.get(name, 'numpy.' + base[1])
        name = alt if alt in MODELS else name
    if name.startswith('scipy.') and name not in MODELS and 'numpy.' + base[-1] in MODELS and len(base) == 2:
        name = 'numpy.' + base[-1]
    if name in MODELS:
        return run_model(I, name, args, kw)
    if base[0] in ('matplotlib', 'plt', 'mpl_toolkits', 'mpl'):
        I.event('ext', obj=None, method=name, args=args, kw=kw)
        if name == 'matplotlib.pyplot.subplots':
            r = subplots(I, args, kw)
            if r is not None:
                return (Ext('figure', {}), r)
        return Ext(name, {'args': args, 'kw': kw})
    if base[0] in ('os', 'sys', 'shutil', 'subprocess', 'io', 'pathlib', 'tempfile', 'pickle', 'socket') or name == 'open':
        I.event('sys', name=name, args=args)
        return Opaque(name)
    return unmodelled(I, name, args, kw)


def unmodelled(I, name, args, kw):
    I.unmodelled[name] = I.unmodelled.get(name, 0) + 1
    I.event('unmodelled', name=name, args=args, kw=kw)
    return Opaque(f'result of {name}')


def run_model(I, name, args, kw):
    fn, sig = MODELS[name]
    if any(isinstance(a, _stararg()) for a in args):
        args = [SymIter(num(it.dim), it.elem) if isinstance(a, _stararg()) and isinstance((it := I.iterate(a.v)), SymIter) else a for a in args]
        if name not in ('numpy.meshgrid',) and len(args) > 1:
            return Opaque('star call ' + name)
    if sig == '*':
        return fn(I, args, kw)
    out = kw.get('out')
    b = parse(sig or '', args, kw)
    if b is None:
        kw2 = {k: v for k, v in kw.items() if k not in ('out', 'dtype', 'order', 'casting', 'where', 'subok')}
        drop = set(kw) - set(kw2)
        if drop and not ('where' in kw):
            b = parse(sig or '', args, kw2)
        if b is None:
            # an unknown keyword or too many arguments: numpy raises TypeError, or the model is partial
            if out is not None and isinstance(out, Arr):
                nc.smash(I, out, 'out=')
            return unmodelled(I, name + '(args)', args, kw)
        r = fn(I, **b)
        if 'out' in drop and isinstance(out, Arr):
            nc.assign_all(I, out, r)
            return out
        return r
    return fn(I, **b)


def _stararg():
    from .interp import StarArg
    return StarArg


def call_ext(I, e, args, kw):
    if e.kind == 'lib_callable':
        return e.info['call'](I, args, kw)
    I.event('ext', obj=e, method='__call__', args=args, kw=kw)
    if e.kind in ('interp1d', 'RegularGridInterpolator'):
        return interp_call(I, e, args, kw)
    return Ext('result', {'of': e, 'method': '__call__', 'args': args, 'kw': kw})


def interp_call(I, e, args, kw):
    """value of a linear interpolator, named by the contents of its grid"""
    from . import npfuncs2 as n2
    x = as_arr(I, args[0]) if args else Opaque('no argument')
    I.event('lib_eval', name=e.kind, id=e.info['id'], x=x)
    if isinstance(x, Opaque):
        return x
    return n2.interp_value(I, e, x)


def subplots(I, args, kw, figure=None):
    """an object array of axes of known size"""
    nr = I.resolve(args[0] if args else kw.get('nrows', 1))
    nc_ = I.resolve(args[1] if len(args) > 1 else kw.get('ncols', 1))
    if not (isinstance(nr, int) and isinstance(nc_, int)):
        return None
    cells = {}

    def cell(i):
        k = (int(i[0]), int(i[1]))
        if k not in cells:
            cells[k] = Ext('axes', {'panel': k})
        return cells[k]
    arr = build(I, (nr, nc_), cell, 'o')
    if kw.get('squeeze', True) is not False:
        arr = nc.squeeze(I, arr)
        if arr.shape == ():
            arr = cells[(0, 0)]
    return arr


# ---------------------------------------------------------------- methods
def method(I, o, name, args, kw):
    o = I.resolve(o)
    if isinstance(o, (Choice,)):
        return I.split(o, lambda x: I.call(I.getattr(x, name), args, kw))
    if isinstance(o, Arr) or (isinstance(o, (T, int, bool)) and not isinstance(o, str)):
        return arr_method(I, o, name, args, kw)
    if isinstance(o, str):
        return str_method(I, o, name, args, kw)
    if isinstance(o, tuple) or (isinstance(o, Ref) and isinstance(I.get(o), LList)):
        return list_method(I, o, name, args, kw)
    if isinstance(o, Ref) and isinstance(I.get(o), LDict):
        return dict_method(I, o, name, args, kw)
    if isinstance(o, Ext):
        if o.kind == 'rng':
            I.event('rng_other', name=name, seeded=True)
            return Opaque('rng value')
        if o.kind in ('interp1d', 'RegularGridInterpolator') and name == '__call__':
            return interp_call(I, o, args, kw)
        I.event('ext', obj=o, method=name, args=args, kw=kw)
        if name == 'subplots':
            r = subplots(I, args, kw)
            if r is not None:
                return r
        return Ext('result', {'of': o, 'method': name, 'args': args, 'kw': kw})
    if isinstance(o, Opaque):
        return Opaque(name)
    return Opaque(name)


def arr_method(I, o, name, args, kw):
    from . import npmodel as nm
    for k, a in enumerate(args):
        if isinstance(I.resolve(a), Choice):
            return I.splitn(args, lambda vs: arr_method(I, o, name, vs, kw))
    for k, a in kw.items():
        if isinstance(I.resolve(a), Choice):
            ks = list(kw)
            return I.splitn([kw[x] for x in ks], lambda vs: arr_method(I, o, name, args, dict(zip(ks, vs))))
    args = [I.resolve(a) for a in args]
    kw = {k: I.resolve(v) for k, v in kw.items()}
    if name == 'reshape':
        sh = args[0] if len(args) == 1 else tuple(args)
        return MODELS['numpy.reshape'][0](I, o, sh, kw.get('order'))
    if name == 'transpose':
        if not args:
            return transpose(o, tuple(reversed(range(o.ndim)))) if isinstance(o, Arr) else o
        ax = args[0] if len(args) == 1 and not isinstance(args[0], int) else tuple(args)
        return MODELS['numpy.transpose'][0](I, o, ax)
    if name in nm.AMETH:
        return run_model(I, nm.AMETH[name], [o] + list(args), kw)
    if name == 'flatten':
        r = MODELS['numpy.ravel'][0](I, o, None)
        return cast(I, r, r.dtype) if isinstance(r, Arr) else r
    if name in ('copy', '__copy__', '__deepcopy__'):
        return cast(I, o, o.dtype) if isinstance(o, Arr) else o
    if name == 'astype':
        dt = nf.dtype_arg(I, args[0] if args else kw.get('dtype'))
        if dt is None:
            return Opaque('astype')
        if not isinstance(o, Arr):
            return nc.castv(I, o, dt)
        c = I.resolve(kw.get('copy', True))
        if c is False and dt == o.dtype:
            return o
        return cast(I, o, dt)
    if name == 'tolist':
        if not isinstance(o, Arr):
            return o
        return tolist(I, o)
    if name == 'item':
        if not isinstance(o, Arr):
            return o
        if not args:
            s = size_of(o)
            if s == 1:
                return read(I, o, [0] * o.ndim)
            I.raise_if(not_(nc.eqd(I, s, 1)), 'ValueError', 'item')
            return read(I, o, [0] * o.ndim)
        return I.getitem(o, args[0] if len(args) == 1 else tuple(args))
    if name == 'sort' and isinstance(o, Arr):
        ax = args[0] if args else kw.get('axis', -1)
        r = MODELS['numpy.sort'][0](I, o, ax, None, None, None)
        nc.assign_all(I, o, r)
        return None
    if name == 'fill' and isinstance(o, Arr):
        nc.setitem(I, o, Ellipsis, args[0])
        return None
    if name in ('put', 'resize', 'itemset', 'partition', 'byteswap', 'setfield') and isinstance(o, Arr):
        nc.smash(I, o, name)
        return None
    if name == 'setflags':
        return None
    if name == 'view':
        return o
    if name == '__len__':
        return BI['len'](I, [o], {})
    if name == '__getitem__':
        return I.getitem(o, args[0])
    if name == '__setitem__':
        return I.setitem(o, args[0], args[1])
    if name in ('__add__', '__mul__'):
        return I.binop('Add' if name == '__add__' else 'Mult', o, args[0])
    if name == 'is_integer':
        return pyb(TRUE if tm.isint(I.T(o)) else tm.eq(tm.fn('floor', I.T(o)), I.T(o)))
    return unmodelled(I, 'ndarray.' + name, args, kw)


def tolist(I, o):
    if o.ndim == 0:
        return scalar(I, o)
    it = I.items(o)
    if it is None:
        return SymIter(num(o.shape[0]), lambda i: (lambda x: tolist(I, x) if isinstance(x, Arr) else x)(I.getitem(o, i)))
    return I.newlist([tolist(I, x) if isinstance(x, Arr) else x for x in it])


def str_method(I, o, name, args, kw):
    if name == 'join':
        it = I.items(args[0])
        if it is not None and all(isinstance(x, str) for x in it) and '<str>' not in o and not any('<str>' in x for x in it):
            return o.join(it)
        return '<str>'
    if name == 'format':
        return '<str>'
    if '<str>' in o:
        if name in ('startswith', 'endswith', 'isdigit', 'islower', 'isupper'):
            from .npmodel import unknown_bool
            return unknown_bool(I)
        return Opaque('str.' + name) if name in ('split', 'index', 'find', 'count') else '<str>'
    if all(isinstance(a, (str, int)) or a is None or (isinstance(a, tuple) and all(isinstance(x, str) for x in a)) for a in args) and not kw:
        try:
            r = getattr(o, name)(*args)
        except ValueError:
            I.raise_('ValueError', name)
        except TypeError:
            I.raise_('TypeError', name)
        return I.newlist(r) if isinstance(r, list) else r
    return '<str>'


def list_method(I, o, name, args, kw):
    from . import npmodel as nm
    isl = isinstance(o, Ref)
    items = I.items(o)
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'add', 'discard', 'update', 'popleft', 'appendleft', '__setitem__') and isl:
        if name == '__setitem__':
            return nm.setitem(I, o, args[0], args[1])
        if name in ('extend', 'update'):
            for a in args:
                nm.list_extend(I, o, a)
            return None
        nm.mutate(I, o, name)
        ob = I.wr(o.id)
        if ob.kind in ('varlen', 'symlist') or items is None:
            if ob.kind == 'symlist':
                ob.items, ob.kind = (Opaque(name),), 'varlen'
            return Opaque('pop') if name.startswith('pop') else None
        if name == 'append':
            ob.items = ob.items + (args[0],)
        elif name == 'appendleft':
            ob.items = (args[0],) + ob.items
        elif name == 'add':
            known = [x for x in items if same(x, args[0])]
            if not known:
                ob.items = ob.items + (args[0],)
        elif name == 'insert':
            k = ints(I, args[0])
            if k is None:
                ob.items, ob.kind = (Opaque('insert'),), 'varlen'
            else:
                items.insert(k[0], args[1])
                ob.items = tuple(items)
        elif name in ('pop', 'popleft'):
            k = [0] if name == 'popleft' else ints(I, args[0]) if args else [-1]
            if not items:
                I.raise_('IndexError', 'pop from empty list')
            if k is None:
                ob.items, ob.kind = (Opaque('pop'),), 'varlen'
                return Opaque('pop')
            try:
                v = items.pop(k[0])
            except IndexError:
                I.raise_('IndexError', 'pop index out of range')
            ob.items = tuple(items)
            return v
        elif name == 'clear':
            ob.items = ()
        elif name == 'reverse':
            ob.items = tuple(reversed(items))
        elif name == 'sort':
            r = BI['sorted'](I, [I.newlist(items)], kw)
            ri = I.items(r)
            if ri is None:
                ob.items, ob.kind = (Opaque('sort'),), 'varlen'
            else:
                ob.items = tuple(ri)
        else:
            ob.items, ob.kind = (Opaque(name),), 'varlen'
        return None
    if name == 'copy':
        return I.newlist(items) if items is not None else I.newlist([Opaque('copy')], kind='varlen')
    if items is None:
        return Opaque(name)
    if name == 'index':
        r = Opaque('index')
        hit = FALSE
        out = None
        for k, x in enumerate(items):
            e = nm.is_same(I, x, args[0])
            if e is not True:
                e = nm.equal(I, x, args[0])
            if e is None:
                return r
            c = and_(not_(hit), I.T(e))
            c = I.decide(c)
            if c is TRUE:
                out = k if out is None else out + [(TRUE, k)]
                hit = TRUE
                break
            if c is not FALSE:
                out = (out or []) + [(c, k)]
                hit = or_(hit, I.T(e))
        if out is None:
            I.raise_('ValueError', 'not in list')
        if isinstance(out, int):
            return out
        I.raise_if(not_(hit), 'ValueError', 'not in list')
        t = num(out[-1][1])
        for c, k in reversed(out[:-1]):
            t = ite(c, num(k), t)
        return t
    if name == 'count':
        tot = tm.ZERO
        for x in items:
            e = nm.equal(I, x, args[0])
            if e is None:
                return Opaque('count')
            tot = tm.add(tot, tm.tonum(I.T(e)))
        return canon_dim(tot)
    if name == '__len__':
        return len(items)
    if name == '__getitem__':
        return I.getitem(o, args[0])
    if name == '__contains__':
        return nm.contains(I, args[0], o)
    return Opaque('list.' + name)


def dict_method(I, o, name, args, kw):
    from . import npmodel as nm
    M = nm.MISSING_()
    ob = I.get(o)
    if name == 'get':
        k = I.key(args[0])
        dflt = args[1] if len(args) > 1 else kw.get('default')
        if k in ob.d:
            v = ob.d[k]
            if isinstance(v, Choice) and (v.a is M or v.b is M):
                return I.join_val(v.cond, dflt if v.a is M else v.a, dflt if v.b is M else v.b)
            return dflt if v is M else v
        if ob.open or isinstance(k, (T, Opaque)):
            return Opaque('dict.get')
        return dflt
    if name in ('items', 'keys', 'values'):
        if ob.open:
            return I.newlist([Opaque('dict')], kind='varlen')
        ks = []
        for k in list(ob.d):
            v = ob.d[k]
            if v is M:
                continue
            if isinstance(v, Choice) and (v.a is M or v.b is M):
                return I.newlist([Opaque('dict')], kind='varlen')
            ks.append(k)
        if name == 'items':
            return I.newlist([(k, ob.d[k]) for k in ks])
        return I.newlist(ks if name == 'keys' else [ob.d[k] for k in ks])
    if name == 'pop':
        nm.mutate(I, o, 'pop')
        k = I.key(args[0])
        has = k in ob.d
        if has:
            v = I.wr(o.id).d.pop(k)
            if isinstance(v, Choice) and (v.a is M or v.b is M):
                if len(args) < 2:
                    I.raise_if(v.cond if v.a is M else not_(v.cond), 'KeyError', str(k))
                    return I.resolve(v.b if v.a is M else v.a)
                return I.join_val(v.cond, args[1] if v.a is M else v.a, args[1] if v.b is M else v.b)
            return v
        if len(args) > 1:
            return args[1] if not ob.open else Opaque('dict.pop')
        if ob.open:
            return Opaque('dict.pop')
        I.raise_('KeyError', str(k))
    if name == 'update':
        for a in args:
            nm.dict_update(I, o, a)
        if kw:
            nm.dict_update(I, o, I.newdict(kw))
        return None
    if name == 'setdefault':
        k = I.key(args[0])
        v = ob.d.get(k, M)
        new = args[1] if len(args) > 1 else None
        if v is M:
            nm.mutate(I, o, 'setdefault')
            I.wr(o.id).d[k] = new
            return new
        if isinstance(v, Choice) and (v.a is M or v.b is M):
            nm.mutate(I, o, 'setdefault')
            w = I.join_val(v.cond, new if v.a is M else v.a, new if v.b is M else v.b)
            I.wr(o.id).d[k] = w
            return w
        return v
    if name == 'copy':
        return I.newdict(dict(ob.d), open_=ob.open)
    if name == 'clear':
        nm.mutate(I, o, 'clear')
        I.wr(o.id).d.clear()
        return None
    if name == 'popitem':
        nm.mutate(I, o, 'popitem')
        return Opaque('popitem')
    if name == '__len__':
        return len(ob.d)
    if name == '__getitem__':
        return I.getitem(o, args[0])
    if name == '__setitem__':
        return I.setitem(o, args[0], args[1])
    if name == '__contains__':
        return nm.contains(I, args[0], o)
    if name == 'move_to_end':
        return None
    return Opaque('dict.' + name)
