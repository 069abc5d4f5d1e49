"""Loops: full unrolling for known trip counts, inductive summaries otherwise."""
import ast

from . import terms as tm
from .terms import T, num, TRUE, FALSE, ite, and_, or_, not_
from .values import *  # noqa
from .values import conc, canon_dim, same
from . import npcore as nc
from .interp import Dead, LoopFrame, State, Undecided, MISSING


def run_for(I, s):
    itv = I.ev(s.iter)
    I.at(s)
    I.split(itv, lambda v: for_over(I, s, v))


def for_over(I, s, v):
    it = I.iterate(v)
    if isinstance(it, list):
        for_list(I, s, it)
    elif isinstance(it, SymIter):
        for_sym(I, s, it)
    else:
        havoc(I, s, Opaque('iterable'))


def for_list(I, s, items):
    n0 = len(I.st.pc)
    breaks = []
    alive = True
    for x in items:
        lf = LoopFrame()
        fr = I.frames[-1]
        fr.loops.append(lf)
        n = len(I.st.pc)
        outs = []
        try:
            I.assign(s.target, x)
            I.block(s.body)
            outs.append((I.st, None))
        except Dead:
            pass
        finally:
            fr.loops.pop()
        outs = [(st, None) for st in lf.continues] + outs
        breaks += lf.breaks
        try:
            I.merge(outs, n)
        except Dead:
            alive = False
            break
    finish(I, s, breaks, alive, n0)


def finish(I, s, breaks, alive, n0):
    outs = [(st, None) for st in breaks]
    if alive:
        try:
            I.block(s.orelse)
            outs.append((I.st, None))
        except Dead:
            pass
    I.merge(outs, n0)


# ---------------------------------------------------------------- modified locations
def env_chain(I):
    return I.frames[-1].env


def diff_locs(s0, s1):
    """locations of s0 whose content differs in s1: (kind, heap id, key)"""
    out = []
    for i, o in s0.heap.items():
        o1 = s1.heap.get(i)
        if o1 is None or o1 is o:
            continue
        if isinstance(o, LEnv):
            for k in set(o.vars) | set(o1.vars):
                a, b = o.vars.get(k, MISSING), o1.vars.get(k, MISSING)
                if not same(a, b):
                    out.append(('env', i, k))
        elif isinstance(o, LObj):
            for k in set(o.attrs) | set(o1.attrs):
                a, b = o.attrs.get(k, MISSING), o1.attrs.get(k, MISSING)
                if not same(a, b):
                    out.append(('obj', i, k))
        elif isinstance(o, LDict):
            for k in set(o.d) | set(o1.d):
                a, b = o.d.get(k, MISSING), o1.d.get(k, MISSING)
                if not same(a, b):
                    out.append(('dict', i, k))
        elif isinstance(o, LList):
            if o.items != o1.items or o.kind != o1.kind:
                out.append(('list', i, None))
        elif isinstance(o, Buf):
            if any(o.cells.get(k) is not o1.cells.get(k) for k in set(o.cells) | set(o1.cells)):
                out.append(('buf', i, None))
    return sorted(out, key=lambda x: (x[1], str(x[2])))


def peek(st, loc):
    kind, i, k = loc
    o = st.heap[i]
    if kind == 'env':
        return o.vars.get(k, MISSING)
    if kind == 'obj':
        return o.attrs.get(k, MISSING)
    if kind == 'dict':
        return o.d.get(k, MISSING)
    return o


def poke(I, loc, v):
    kind, i, k = loc
    o = I.wr(i)
    if kind == 'env':
        if v is MISSING:
            o.vars.pop(k, None)
        else:
            o.vars[k] = v
    elif kind == 'obj':
        if v is MISSING:
            o.attrs.pop(k, None)
        else:
            o.attrs[k] = v
    elif kind == 'dict':
        if v is MISSING:
            o.d.pop(k, None)
        else:
            o.d[k] = v
    elif kind == 'list':
        o.items, o.kind = v.items, v.kind
    elif kind == 'buf':
        o.cells.clear()
        o.cells.update(v.cells)


class Quiet:
    def __init__(self, I):
        self.I = I

    def __enter__(self):
        I = self.I
        I.quiet += 1
        I.handlers.append([])
        self.rl, self.ll = len(I.rng_log), len(I.lib_log)
        fr = I.frames[-1]
        self.nret = [len(f.returns) for f in I.frames]
        self.nlf = [(lf, len(lf.breaks), len(lf.continues)) for f in I.frames for lf in f.loops]
        self.nloops = len(I.loops)

    def __exit__(self, *a):
        I = self.I
        I.quiet -= 1
        I.handlers.pop()
        del I.rng_log[self.rl:]
        del I.lib_log[self.ll:]
        for f, n in zip(I.frames, self.nret):
            del f.returns[n:]
        for lf, b, c in self.nlf:
            del lf.breaks[b:]
            del lf.continues[c:]
        del I.loops[self.nloops:]


def run_body(I, s, pre):
    """one abstract iteration from I.st; -> (breaks, alive)"""
    lf = LoopFrame()
    fr = I.frames[-1]
    fr.loops.append(lf)
    n = len(I.st.pc)
    outs = []
    try:
        pre()
        I.block(s.body)
        outs.append((I.st, None))
    except Dead:
        pass
    finally:
        fr.loops.pop()
    outs = [(st, None) for st in lf.continues] + outs
    if not outs:
        return lf.breaks, False
    I.merge(outs, n)
    return lf.breaks, True


def find_mod(I, s, pre, base, widen=None):
    """locations the body may modify, and the strongest assumption level about their loop values that the body preserves;
    -> (locs, level)"""
    locs, level = [], frozenset()
    for _ in range(14):
        I.st = base.fork()
        phis = set_phi(I, base, locs, level)
        if widen:
            widen(I, base, phis)
        start = I.st
        I.st = start.fork()
        with Quiet(I):
            try:
                breaks, alive = run_body(I, s, pre)
            except Dead:
                breaks, alive = [], False
            end = ([I.st] if alive else []) + breaks
        new = []
        for e in end:
            for l in diff_locs(start, e):
                if l not in locs and l not in new and l[1] in base.heap:
                    new.append(l)
        if new:
            locs += new
            continue
        drop = [d for e in end for d in check_guess(I, base, phis, e)]
        if drop:
            level = level | frozenset(drop)
            continue
        break
    return locs, level


PHI = [0]


def fresh_phi(hint, info=None):
    PHI[0] += 1
    n = f'phi_{hint}_{PHI[0]}'
    if tm.SYM.get(n, {}) != (info or {}):
        tm.SYM[n] = dict(info or {})
        tm.bump()
    return n


def guess_info(v, loc, drop):
    """optimistic facts about a scalar loop variable (integer, sign), less those its loop does not preserve"""
    t = v if isinstance(v, T) else num(v)
    info = {}
    if tm.isint(t) and (loc, 'int') not in drop:
        info['int'] = True
    if tm.nonneg(t) and (loc, 'sign') not in drop:
        info['lo'] = 0
    return info


def set_phi(I, base, locs, level=frozenset()):
    """install phi values for the modified locations; -> {loc: phi value}"""
    phis = {}
    for loc in locs:
        v = peek(base, loc)
        kind, i, k = loc
        if kind == 'buf':
            nm = fresh_phi('buf')
            info = {'int': True} if v.dtype == 'i' else {}
            if info:
                tm.SYM[nm] = info
                tm.bump()
            cells = {}
            for c in v.cells:
                idx = nc.full_index(v.shape, c)
                cells[c] = tm.sym(nm, *idx) if v.dtype != 'b' else tm.mk('bsym', nm, tuple(num(x) for x in idx))
            if v.dtype == 'o':
                cells = {c: Opaque('loop') for c in v.cells}
            phis[loc] = (nm, Buf(v.shape, cells, v.dtype, v.owner, v.wr))
            poke(I, loc, phis[loc][1])
        elif kind == 'list':
            phis[loc] = (None, v)
        elif isinstance(v, bool) or isinstance(v, T) and tm.isbool(v):
            nm = fresh_phi(str(k))
            phis[loc] = (nm, tm.mk('bsym', nm, ()))
            poke(I, loc, phis[loc][1])
        elif isnumeric(v):
            nm = fresh_phi(str(k), guess_info(v, loc, level))
            phis[loc] = (nm, tm.sym(nm))
            poke(I, loc, phis[loc][1])
        elif isinstance(v, Arr) and v.dtype in 'fi':
            nm = fresh_phi(str(k))
            a = nc.build(I, v.shape, lambda idx: tm.sym(nm, *idx), v.dtype)
            if isinstance(a, Arr):
                phis[loc] = (nm, a)
                poke(I, loc, a)
            else:
                phis[loc] = (None, v)
        else:
            phis[loc] = (None, v)      # assumed loop invariant; checked afterwards
    return phis


def mentions(v, names):
    if isinstance(v, T):
        return any(tm.find(v, lambda t: t.op in ('sym', 'bsym') and t.args[0] == n) for n in names)
    if isinstance(v, Choice):
        return mentions(v.cond, names) or mentions(v.a, names) or mentions(v.b, names)
    if isinstance(v, tuple):
        return any(mentions(x, names) for x in v)
    return False


# ---------------------------------------------------------------- symbolic for
def for_sym(I, s, it):
    n = num(it.dim)
    base = I.st
    n0 = len(base.pc)
    iv = tm.fresh('L', n)
    tgt = []

    def pre():
        I.assign(s.target, it.elem(iv))
    I.loopvars.append(iv)
    try:
        I.st = base
        c = I.decide(tm.le(n, tm.ZERO))
        if c is TRUE:
            I.block(s.orelse)
            return
        with tm_range(iv, n):
            locs, level = find_mod(I, s, pre, base)
            tnames = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            I.st = base.fork()
            phis = set_phi(I, base, locs, level)
            I.st = State(I.st.heap, I.st.pc, I.st.own)
            nret = [len(f.returns) for f in I.frames]
            nh = len(I.handlers[-1])
            breaks, alive = run_body(I, s, pre)
            end = I.st
        names = [p[0] for p in phis.values() if p[0]]
        # paths that leave the loop by raise or return: their conditions hold for some iteration
        for k in range(nh, len(I.handlers[-1])):
            st, e = I.handlers[-1][k]
            st.pc = tuple(lift_pc(st.pc, iv, n, names, 'any'))
            st._facts = None
        early = []
        for f, m in zip(I.frames, nret):
            for k in range(m, len(f.returns)):
                st, v = f.returns[k]
                st.pc = tuple(lift_pc(st.pc, iv, n, names, 'any'))
                st._facts = None
                if mentions_var(v, iv) or mentions(v, names) or isinstance(v, (Arr, Ref)):
                    f.returns[k] = (st, Opaque('value returned from a loop'))
                early.append(st)
        if breaks or not alive or early:
            I.st = base.fork()
            for loc in locs:
                poke(I, loc, clobber(peek(base, loc), loc))
            for nme in tnames:
                I.setvar(nme, Opaque('loop'))
            if early:
                extra = [x for st in early for x in st.pc[n0:]]
                for x in extra:
                    if not mentions_var(x, iv):
                        I.st.assume(not_(x)) if len(extra) == 1 else None
            if s.orelse and not breaks:
                I.block(s.orelse)
            return
        # facts gathered on the normal path hold for every iteration
        facts = lift_pc(end.pc[n0:], iv, n, names, 'all')
        final = solve(I, base, phis, end, iv, n, names)
        I.st = base.fork()
        for f in facts:
            I.st.assume(f)
        # new heap objects created by the body stay reachable through last values
        for i, o in end.heap.items():
            if i not in I.st.heap:
                I.st.heap[i] = o
        for loc, v in final.items():
            poke(I, loc, v)
    finally:
        I.loopvars.pop()
    if s.orelse:
        I.block(s.orelse)


class tm_range:
    def __init__(self, iv, n):
        self.r = nc.ranges({iv.args[0]: n})

    def __enter__(self):
        self.r.__enter__()

    def __exit__(self, *a):
        self.r.__exit__(*a)


def mentions_var(v, iv):
    if isinstance(v, T):
        return iv.args[0] in v.fv
    if isinstance(v, Choice):
        return mentions_var(v.cond, iv) or mentions_var(v.a, iv) or mentions_var(v.b, iv)
    if isinstance(v, tuple):
        return any(mentions_var(x, iv) for x in v)
    return False


def lift_pc(pc, iv, n, names, kind):
    out = []
    for c in pc:
        if mentions(c, names):
            if kind == 'all':
                continue
            PHI[0] += 1
            out.append(tm.mk('bsym', f'loopcond{PHI[0]}', ()))
            continue
        if mentions_var(c, iv):
            c = tm.bind(kind, [iv], [n], c)
        if c is not TRUE:
            out.append(c)
    return out


def clobber(v, loc):
    kind = loc[0]
    if kind == 'buf':
        return Buf(v.shape, {c: Opaque('loop') for c in v.cells}, v.dtype, v.owner, v.wr)
    if kind == 'list':
        return LList([Opaque('loop')], v.owner, 'varlen')
    return Opaque('loop')


def check_guess(I, base, phis, end):
    """guessed facts about loop variables that an iteration does not preserve"""
    bad = []
    for loc, (nm, ph) in phis.items():
        if nm is None or not isinstance(ph, T) or ph.op != 'sym':
            continue
        info = tm.SYM.get(nm, {})
        out = peek(end, loc)
        if not isnumeric(out):
            continue
        t = tm.tonum(I.T(out))
        if info.get('int') and not tm.isint(t):
            bad.append((loc, 'int'))
        if 'lo' in info and not tm.nonneg(t):
            bad.append((loc, 'sign'))
    return bad


def subst_deep(I, v, m):
    """substitute in a value; arrays are copied"""
    if isinstance(v, Arr):
        b = I.get(v)
        if all(not isinstance(x, T) or not (set(x.fv) & {k.args[0] for k in m}) for x in b.cells.values()) and \
                all(not (set(x.fv) & {k.args[0] for k in m}) for x in v.maps):
            return v
        if any(isinstance(d, T) and d.fv & {k.args[0] for k in m} for d in v.shape):
            return Opaque('array of varying shape')
        return nc.build(I, v.shape, lambda idx: nc.subst_val(nc.read(I, v, idx), m), v.dtype)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, LList):
            it = tuple(subst_deep(I, x, m) for x in o.items)
            if it == o.items:
                return v
            return I.newlist(it, kind=o.kind)
        return v
    return nc.subst_val(v, m)


def solve(I, base, phis, end, iv, n, names):
    final = {}
    last = {iv: tm.sub(n, tm.ONE)}
    pos = I.decide(tm.lt(tm.ZERO, n))
    pend = []
    for loc, (nm, ph) in phis.items():
        init, out = peek(base, loc), peek(end, loc)
        kind = loc[0]
        if kind == 'buf':
            final[loc] = solve_buf(I, nm, init, out, iv, n, names)
            continue
        if kind == 'list':
            final[loc] = solve_list(I, init, out, iv, n, names, end)
            continue
        if out is MISSING:
            final[loc] = Opaque('loop')
            continue
        if nm is None:
            if same(init, out):
                final[loc] = init
                continue
        if isinstance(ph, Arr) and isinstance(out, Arr):
            if same(ph, out):
                final[loc] = init
                continue
            I.st = State(dict(end.heap), base.pc)
            if out.shape == init.shape:
                cells = {}
                fake_i = Buf(init.shape, {}, init.dtype)
                for c in nc.combos(init.shape):
                    idx = nc.full_index(init.shape, c)
                    cells[c] = solve_scalar(I, tm.sym(nm, *idx), nc.read(I, init, idx), nc.read(I, out, idx), iv, n, names)
                b = I.alloc(Buf(init.shape, cells, out.dtype))
                end.heap[b] = I.st.heap[b]
                final[loc] = Arr(b, init.shape, nc.ident(len(init.shape)), out.dtype)
                continue
            final[loc] = Opaque('array updated in a loop')
            continue
        if isnumeric(out) and nm is not None and isnumeric(init):
            final[loc] = solve_scalar(I, ph, init, out, iv, n, names)
            continue
        # last value
        if mentions(out, names):
            final[loc] = Opaque('loop')
            continue
        I.st = State(dict(end.heap), base.pc)
        if isinstance(out, Arr) and any(mentions(x, names) for x in I.get(out).cells.values()):
            final[loc] = Opaque('loop')
            continue
        v = subst_deep(I, out, last)
        for i2, o2 in I.st.heap.items():
            end.heap.setdefault(i2, o2)
        if init is MISSING:
            final[loc] = v
        elif pos is TRUE:
            final[loc] = v
        else:
            I.st = State(dict(end.heap), base.pc)
            final[loc] = I.join_val(tm.lt(tm.ZERO, n), v, init)
    return final


def total(kind, iv, n, g):
    return tm.bind(kind, [iv], [n], g)


def diff(out, ph):
    """out - ph when independent of ph in every gated branch, as (list of (cond, g)); ph may be indexed"""
    if out.op == 'ite':
        c, a, b = out.args
        pa = ph
        m = {}
        for q in (c.args[0] if c.op == 'and' and isinstance(c.args[0], tuple) else c.args if c.op == 'and' else (c,)):
            r = var_eq(q)
            if r:
                m[r[0]] = r[1]
        da = diff(a, tm.subst(ph, m) if m else ph)
        db = diff(b, ph)
        if da is None or db is None:
            if da is None and m:
                da = diff(a, ph)
            if da is None or db is None:
                return None
        return ite(c, da, db)
    return tm.sub(tm.tonum(out), ph)


def var_eq(q):
    """q is `a_k == t` for a canonical index variable: -> (a_k, t)"""
    if q.op != 'cmp' or q.args[0] != '==':
        return None
    p = q.args[1]
    for m, c in tm._poly(p).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and m[0][0].args[0].startswith('a') and m[0][0].args[0][1:].isdigit() and abs(c) == 1:
            v = m[0][0]
            rest = tm.sub(p, tm.mul(num(c), v))
            t = tm.mul(num(-c), rest)
            if v.args[0] not in t.fv:
                return v, t
    return None


def solve_scalar(I, ph, init, out, iv, n, names):
    if not isnumeric(out) or not isnumeric(init):
        return init if same(init, out) else Opaque('loop value')
    out, init = I.T(out), I.T(init)
    if out is ph:
        return init
    if tm.isbool(ph):
        if not mentions(out, names):
            return last_value(I, out, init, iv, n)
        for kind, op in (('any', 'or'), ('all', 'and')):
            parts = parts_of(out, op)
            if ph in parts:
                rest = [p for p in parts if p is not ph]
                if not any(mentions(p, names) for p in rest):
                    g = (or_ if op == 'or' else and_)(*rest)
                    return (or_ if op == 'or' else and_)(init, total(kind, iv, n, g))
        # gated form: ite(ph, x, y)
        t = tm.subst_node(out, ph, TRUE)
        f = tm.subst_node(out, ph, FALSE)
        if not mentions(t, names) and not mentions(f, names):
            if t is TRUE:
                return or_(init, total('any', iv, n, f))
            if f is FALSE:
                return and_(init, total('all', iv, n, t))
        return Opaque('loop flag')
    d = diff(out, ph)
    if d is not None and not mentions(d, names):
        return tm.add(tm.tonum(init), total('sum', iv, n, tm.tonum(d)))
    if not mentions(out, names):
        return last_value(I, out, init, iv, n)
    for kind in ('max', 'min'):
        g = minmax_rest(out, ph, kind)
        if g is not None and not mentions(g, names):
            return tm.minmax_(kind, init, total(kind, iv, n, g))
    q = tm.div(out, ph)
    if not mentions(q, names):
        return tm.mul(init, total('prod', iv, n, q))
    return Opaque('loop recurrence')


def parts_of(t, op):
    if t.op == op:
        r = []
        for a in t.args:
            for x in (a if isinstance(a, tuple) else (a,)):
                r.append(x)
        return r
    return [t]


def minmax_rest(out, ph, kind):
    if out.op in ('max', 'min') and out.op == kind:
        parts = parts_of(out, kind)
        if ph in parts:
            rest = [p for p in parts if p is not ph]
            return tm.minmax_(kind, *rest) if rest else None
    if out.op == 'ite':
        # if g > ph: ph = g
        c, a, b = out.args
        for x, y, flip in ((a, b, False), (b, a, True)):
            if y is ph and not tm.contains(x, ph):
                if out is tm.ite(tm.lt(ph, x), x, ph) or out is tm.ite(tm.le(ph, x), x, ph):
                    return x if kind == 'max' else None
                if out is tm.ite(tm.lt(x, ph), x, ph) or out is tm.ite(tm.le(x, ph), x, ph):
                    return x if kind == 'min' else None
    return None


def last_value(I, out, init, iv, n):
    v = tm.subst(out, {iv: tm.sub(n, tm.ONE)})
    c = I.decide(tm.lt(tm.ZERO, n))
    return v if c is TRUE else ite(c, v, init)


def solve_buf(I, nm, init, out, iv, n, names):
    cells = {}
    others = [x for x in names if x != nm]
    for c, v in out.cells.items():
        idx = nc.full_index(init.shape, c)
        ph = tm.sym(nm, *idx) if init.dtype != 'b' else tm.mk('bsym', nm, tuple(num(x) for x in idx))
        iv0 = init.cells[c]
        if same(v, ph):
            cells[c] = iv0
            continue
        if not isnumeric(v) or not isnumeric(iv0):
            cells[c] = Opaque('loop store')
            continue
        rng = {f'a{k}': num(d) for k, d in enumerate(init.shape) if not conc(d)}
        with nc.ranges(rng):
            r = solve_scatter(I, nm, ph, I.T(iv0), I.T(v), iv, n, names, init)
            if r is None:
                r = solve_scalar(I, ph, iv0, v, iv, n, names)
        cells[c] = r
    return Buf(init.shape, cells, init.dtype, init.owner, init.wr)


def solve_scatter(I, nm, ph, init, out, iv, n, names, buf):
    """element written when some index equals the loop variable: out = ite(a_k == f(i), E, phi)"""
    if out.op != 'ite' and not mentions_var(out, iv):
        return None
    conds = []
    r = split_scatter(out, ph, iv)
    if r is None:
        return None
    c, E = r
    # which canonical variable equals an invertible function of the loop variable
    sub = None
    for q in parts_of(c, 'and'):
        if q.op == 'cmp' and q.args[0] == '==' and iv.args[0] in q.fv:
            p = q.args[1]
            for m, k in tm._poly(p).items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0] is iv and abs(k) == 1:
                    sol = tm.mul(num(-1 / k) if abs(k) != 1 else num(-k), tm.sub(p, tm.mul(num(k), iv)))
                    if iv.args[0] not in sol.fv and tm.isint(sol):
                        sub = (q, sol)
    if sub is None:
        return None
    q, sol = sub
    rest = [x for x in parts_of(c, 'and') if x is not q]
    m = {iv: sol}
    cond = and_(tm.le(tm.ZERO, sol), tm.lt(sol, n), *[tm.subst(x, m) for x in rest])
    E2 = tm.subst(E, m)
    # phi of this element is still the initial value when it is written
    E2 = tm.subst_node(E2, ph, init)
    if mentions(E2, names) or mentions(cond, names):
        return None
    cond = I.decide(cond)
    return ite(cond, E2, init)


def split_scatter(out, ph, iv):
    if out.op == 'ite':
        c, a, b = out.args
        if b is ph:
            return c, a
        if a is ph:
            return not_(c), b
        r = split_scatter(b, ph, iv)
        if r is not None and a is not ph:
            # ite(c, a, ite(c2, E, ph)): both write
            return or_(c, r[0]) if False else None
    return None


def solve_list(I, init, out, iv, n, names, end):
    k = len(init.items)
    if init.kind == 'list' and out.kind == 'list' and len(out.items) == k + 1 and k == 0 and all(same(x, y) for x, y in zip(init.items, out.items)):
        x = out.items[-1]
        if not mentions(x, names):
            if isnumeric(x) or isinstance(x, str) or x is None or (isinstance(x, tuple) and all(isnumeric(y) for y in x)):
                return LList([SymIter(n, lambda i: nc.subst_val(x, {iv: num(i)}))], init.owner, 'symlist')
            if isinstance(x, Arr):
                heap = end.heap

                def elem(i):
                    if x.buf not in I.st.heap:
                        I.st.heap[x.buf] = heap[x.buf]
                    return subst_deep(I, x, {iv: num(i)})
                if not any(mentions(y, names) for y in heap[x.buf].cells.values()):
                    return LList([SymIter(n, elem)], init.owner, 'symlist')
    if init.items == out.items:
        return init
    return LList([Opaque('loop')], init.owner, 'varlen')


def havoc(I, s, target):
    """iteration over something unknown: everything the body may modify becomes unknown"""
    base = I.st
    I.loopvars.append(tm.fresh('U'))
    try:
        locs, _ = find_mod(I, s, lambda: I.assign(s.target, target) if isinstance(s, ast.For) else None, base)
        I.st = base.fork()
        for loc in locs:
            poke(I, loc, clobber(peek(base, loc), loc))
        start = I.st
        I.st = start.fork()
        try:
            run_body(I, s, lambda: I.assign(s.target, target) if isinstance(s, ast.For) else I.ev(s.test))
        except Dead:
            pass
        I.st = start
        I._nid += 1
    finally:
        I.loopvars.pop()


# ---------------------------------------------------------------- while
def run_while(I, s):
    n0 = len(I.st.pc)
    # concrete trip count first
    base = I.st
    for k in range(65):
        with_c = I.truth(I.ev(s.test))
        c = I.decide(with_c)
        if c is FALSE:
            I.block(s.orelse)
            return
        if c is not TRUE:
            break
        if k == 0:
            snap = I.st.fork()
            ev = (len(I.events), len(I.handlers[-1]), len(I.rng_log), len(I.lib_log), [len(f.returns) for f in I.frames])
            ok = try_concrete(I, s)
            if ok:
                return
            I.st = snap
            del I.events[ev[0]:]
            del I.handlers[-1][ev[1]:]
            del I.rng_log[ev[2]:]
            del I.lib_log[ev[3]:]
            for f, m in zip(I.frames, ev[4]):
                del f.returns[m:]
        break
    while_sym(I, s)


def try_concrete(I, s):
    for k in range(24):
        c = I.decide(I.truth(I.ev(s.test)))
        if c is FALSE:
            return True
        if c is not TRUE:
            return False
        try:
            br, alive = run_body(I, s, lambda: None)
        except Dead:
            return False
        if br or not alive:
            return False
    return False


def while_sym(I, s):
    base = I.st
    n0 = len(base.pc)
    it = tm.fresh('W')
    I.loopvars.append(it)
    try:
        def pre():
            c = I.truth(I.ev(s.test))
            c = I.decide(c)
            if c is FALSE:
                raise Dead()
            if c is not TRUE:
                I.st.assume(c)
        locs, level = find_mod(I, s, pre, base, widen_lists)
        I.st = base.fork()
        phis = set_phi(I, base, locs, level)
        widen_lists(I, base, phis)
        start = I.st
        I.st = start.fork()
        nh = len(I.handlers[-1])
        nret = len(I.frames[-1].returns)
        names = [p[0] for p in phis.values() if p[0]]
        try:
            breaks, alive = run_body(I, s, pre)
        except Dead:
            breaks, alive = [], False
        end = I.st
        rec = dict(loc=(I.frames[-1].module, s.lineno), base=base, phis=phis, start=start, end=end if alive else None, breaks=breaks, names=names, phase=I.phase, var=it.args[0])
        # exit: the loop state with the condition false
        I.st = start.fork()
        for loc, (nm, ph) in phis.items():
            v = peek(base, loc)
            if nm is None and loc[0] not in ('buf', 'list'):
                out = peek(end, loc) if alive else v
                if not same(v, out):
                    poke(I, loc, Opaque('loop'))
        c = I.truth(I.ev(s.test))
        c = I.decide(c)
        rec['exit'] = not_(c)
        if not I.quiet:
            I.loops.append(rec)
        outs = []
        if c is not TRUE:
            if c is not FALSE:
                I.st.assume(not_(c))
            try:
                I.block(s.orelse)
                outs = [(I.st, None)]
            except Dead:
                pass
        for st, _ in I.frames[-1].returns[nret:]:
            rec['exit'] = or_(rec['exit'], and_(*st.pc[len(start.pc):]))
        if breaks:
            # a break leaves the loop from inside of an iteration
            for st in breaks:
                rec['exit'] = or_(rec['exit'], and_(*st.pc[len(start.pc):]))
                for loc, (nm, ph) in phis.items():
                    if nm is None and not same(peek(base, loc), peek(st, loc)):
                        I.st = st
                        poke(I, loc, clobber(peek(st, loc), loc))
            outs += [(st, None) for st in breaks]
        I.merge(outs, n0)
    finally:
        I.loopvars.pop()


def widen_lists(I, base, phis):
    for loc in phis:
        if loc[0] == 'list':
            o = peek(base, loc)
            poke(I, loc, LList([Opaque('loop')], o.owner, 'varlen'))


# ---------------------------------------------------------------- comprehensions
def run_comp(I, e, kind):
    gens = e.generators
    fr = I.frames[-1]
    env = I.alloc(LEnv({}, fr.env, I.get(fr.env).globals))
    from .interp import Frame
    f2 = Frame(env, fr.func, fr.module, fr.cls, fr.selfv)
    f2.exc = fr.exc
    items = None
    I.frames.append(f2)
    try:
        out = comp_gen(I, e, gens, 0, kind)
    finally:
        I.frames.pop()
    if isinstance(out, Opaque) or isinstance(out, SymIter):
        return out
    if out is None:
        return I.newlist([Opaque('comprehension')], kind='varlen')
    if any(isinstance(x, Maybe) for x in out):
        return alternatives(I, out, 'set' if kind == 'set' else 'list')
    if kind == 'dict':
        return I.newdict({I.key(k): v for k, v in out})
    if kind == 'set':
        return I.newlist(out, kind='set')
    return I.newlist(out)


def comp_gen(I, e, gens, k, kind):
    """list of values, SymIter, or None"""
    g = gens[k]
    v = I.ev(g.iter)
    v = I.resolve(v)
    if isinstance(v, Choice):
        return comp_split(I, e, gens, k, kind, v)
    return comp_over(I, e, gens, k, kind, v)


class Maybe:
    """an item of a filtered list, present when the condition holds"""

    def __init__(self, cond, v):
        self.cond, self.v = cond, v


def alternatives(I, out, kind):
    for j, x in enumerate(out):
        if isinstance(x, Maybe):
            return I.fork(x.cond, lambda: alternatives(I, out[:j] + [x.v] + out[j + 1:], kind), lambda: alternatives(I, out[:j] + out[j + 1:], kind))
    return I.newlist(out, kind=kind)


def comp_split(I, e, gens, k, kind, v):
    r = I.split(v, lambda x: (lambda q: tuple(q) if isinstance(q, list) else q)(comp_over(I, e, gens, k, kind, x)))
    r = I.resolve(r)
    if isinstance(r, tuple):
        return list(r)
    if isinstance(r, Choice):
        return None
    return r


def comp_over(I, e, gens, k, kind, v):
    g = gens[k]
    it = I.iterate(v)
    if isinstance(it, list):
        out = []
        for x in it:
            I.assign(g.target, x)
            keep = TRUE
            for c in g.ifs:
                keep = and_(keep, I.truth(I.ev(c)))
            keep = I.decide(keep)
            if keep is FALSE:
                continue
            if keep is not TRUE:
                if k + 1 < len(gens) or kind == 'dict' or sum(isinstance(y, Maybe) for y in out) >= 3:
                    return None
                got = []
                I.fork(keep, lambda: got.append(elt(I, e, kind)), lambda: None)
                if got:
                    out.append(Maybe(keep, got[0]))
                continue
            if k + 1 < len(gens):
                r = comp_gen(I, e, gens, k + 1, kind)
                if not isinstance(r, list):
                    return None
                out += r
            else:
                out.append(elt(I, e, kind))
        return out
    if isinstance(it, SymIter):
        if g.ifs or k + 1 < len(gens) or kind != 'list':
            return None
        n = num(it.dim)
        iv = tm.fresh('C', n)
        I.loopvars.append(iv)
        nh = len(I.handlers[-1])
        n0 = len(I.st.pc)
        try:
            with tm_range(iv, n):
                I.assign(g.target, it.elem(iv))
                x = elt(I, e, kind)
        finally:
            I.loopvars.pop()
        for j in range(nh, len(I.handlers[-1])):
            st, ex = I.handlers[-1][j]
            st.pc = tuple(lift_pc(st.pc, iv, n, [], 'any'))
            st._facts = None
        I.st.pc = I.st.pc[:n0] + tuple(lift_pc(I.st.pc[n0:], iv, n, [], 'all'))
        I.st._facts = None
        if isinstance(x, (Opaque, Choice)):
            return Opaque('comprehension')
        return SymIter(n, lambda i: subst_deep(I, x, {iv: num(i)}))
    if isinstance(v, Opaque) or isinstance(v, Ext) or it is None:
        # evaluate once for effects
        I.assign(g.target, Opaque('item'))
        elt(I, e, kind)
        return None
    return None


def elt(I, e, kind):
    if kind == 'dict':
        return (I.ev(e.key), I.ev(e.value))
    return I.ev(e.elt)
