"""P02: a call's result does not depend on the calls made before it.

Two-run non-interference: the abstract result of a call in a fresh process is compared with its abstract result after another
call, made with unrelated inputs, has left its marks in the module state, default arguments, class attributes and memo
tables; and, on one object, the result of a query with its result after other queries."""
import time

from .common import *  # noqa
from . import corpus

R_DEF = 'no write into a default argument value, which every later call shares'
R_TWO = 'value numbers of a call fresh and after an unrelated call are equal (drawn items included)'
R_OBJ = 'value numbers of a query fresh and after another query of the same object are equal'


def run(ck):
    w = ck.world()
    for key, tags, build in corpus.entries(ck):
        ck.case(key, R_TWO, two, w, build, tags)
    for D, wt, refl in ((1, False, 0), (1, True, 0), (1, True, 1), (2, True, 0), (2, True, 1)):
        qs = [b for b in QUERIES if not ('keeping' in b and (D == 1 or refl)) and not (D == 2 and refl and b in HEAVY and not ck.thorough)]
        qs.sort(key=lambda b: 'resample with reflect' == b or b == 'resample' and refl)
        n = 3
        for j in range(n):
            ck.case(f'KDE D={D} weights={wt} reflect={refl}: queries after other queries, part {j}', R_OBJ, pairs, w, D, wt, refl, qs[j::n])
    for D in (1, 2):
        for interp in (True, False):
            ck.case(f'Sample_Grid D={D} interpolate={interp}: sample after sample', R_OBJ, sgrid, w, D, interp)


# ------------------------------------------------------------------ comparable images of drawn items
def plain(I, v, depth=0):
    """a value with external objects and functions replaced by their names"""
    v = I.resolve(v)
    if depth > 6:
        return '...'
    if isinstance(v, Ext):
        return f'<{v.kind} {sorted((k, str(x)) for k, x in v.info.items() if k in ("panel", "method"))}>'
    if isinstance(v, (Func, Bound, Builtin, Cls, Method, ModuleV)):
        return f'<{type(v).__name__} {getattr(v, "name", "")}>'
    if isinstance(v, Opaque):
        return f'<unknown {v.why}>'
    if isinstance(v, Choice):
        return v
    if isinstance(v, tuple):
        return tuple(plain(I, x, depth + 1) for x in v)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, LList) and o.kind not in ('varlen', 'symlist'):
            return tuple(plain(I, x, depth + 1) for x in o.items)
        if isinstance(o, LDict) and not o.open:
            return tuple((k, plain(I, x, depth + 1)) for k, x in sorted(o.d.items(), key=lambda kv: str(kv[0])))
        return f'<{type(o).__name__}>'
    return v


def drawn(o):
    out = []
    for e in o.events:
        if e['kind'] == 'ext':
            out.append(e)
        elif e['kind'] == 'rng':
            kw = {k: tuple(v) if isinstance(v, list) else v for k, v in e.items() if k in ('n', 'p', 'replace', 'low', 'high', 'loc', 'scale', 'mean', 'cov', 'lam', 'size')}
            out.append(dict(e, obj=None, method='random ' + str(e['name']), args=[], kw=kw))
    return out


def drawn_sig(I, e):
    m = e['method']
    return (plain(I, e['obj']) if e.get('obj') is not None else '', m, len(e['args']), tuple(sorted(map(str, e['kw']))))


# ------------------------------------------------------------------ two runs
def two(ck, key, w, build, tags):
    s = w.scenario()
    I = s.I
    go = build(s)
    base = I.st
    oy = s.run(go)
    rng = oy.rng
    if oy.undecided:
        return ck.add(key, UNDECIDED, R_TWO, oy.undecided)
    bad = [e for e in oy.events if e['kind'] == 'write' and str(e.get('owner') or '').startswith('default:')]
    if bad:
        tabs = ck.tables(s.inputs, base.pc, 8, rng)
        for e in bad:
            hit, unk = ck.feasible(e['pc'][len(base.pc):], tabs)
            if hit or unk:
                return ck.add(key, VIOLATED, R_DEF, f'{e["what"]} writes into the default value {e["owner"][8:]}', e['loc'])
    if not oy.ok:
        return ck.add(key, UNDECIDED, R_TWO, 'no path returns')
    # an unrelated call first
    s2 = w.scenario()
    s2.prefix = 'X_'
    fresh(I, 1000)
    gox = build(s2)
    ox = s2.run(gox)
    if not ox.ok:
        return ck.add(key, UNDECIDED, R_TWO, 'the earlier call does not return')
    s2.prefix = ''
    nophi(I)
    fresh(I, 0)
    goy = build(s2)
    b2 = I.st
    o2 = s2.run(goy)
    o2.rng = list(I.rng_log)
    if o2.undecided or not o2.ok:
        return ck.add(key, UNDECIDED, R_TWO, str(o2.undecided or 'the later call does not return'))
    names = s.inputs | s2.inputs
    # drawn items, in order
    ea, eb = drawn(oy), drawn(o2)
    n0 = len(ck.obs)
    if [drawn_sig(I, e) for e in ea] != [drawn_sig(I, e) for e in eb]:
        ia = [drawn_sig(I, e) for e in ea]
        ib = [drawn_sig(I, e) for e in eb]
        j = next((k for k in range(min(len(ia), len(ib))) if ia[k] != ib[k]), min(len(ia), len(ib)))
        what = f'fresh: {ia[j] if j < len(ia) else "nothing"}; after another call: {ib[j] if j < len(ib) else "nothing"}'
        e = eb[j] if j < len(eb) else ea[j]
        return ck.add(key, VIOLATED, R_TWO, f'item {j} drawn differs, {what}'[:400], e['loc'])
    for a, b in zip(ea, eb):
        d = differ(ck, w, s, oy, a, b2, o2, b, names)
        if d:
            return ck.add(key, VIOLATED, R_TWO, f'{a["method"]} receives other values after an earlier call: {d}', b['loc'])
    if oy.value is None and o2.value is None:
        return ck.add(key, HOLDS, R_TWO, how=f'{len(ea)} drawn items are equal')
    n = len(ck.obs)
    judge2(ck, key, s, base, oy, b2, o2, names, R_TWO)
    if ea and ck.obs[n:] and ck.obs[n].verdict == UNDECIDED:
        from .. import compare as cp
        if cp.skeleton(cp.V(I, oy.st, oy.value)) == cp.skeleton(cp.V(I, o2.st, o2.value)):
            del ck.obs[n:]
            ck.add(key, HOLDS, R_TWO, how=f'{len(ea)} drawn items are equal, and the known parts of the returned value')


def judge2(ck, key, s, base, oy, b2, o2, names, rule):
    """o2 (in the history b2) must equal oy"""
    s.inputs |= names
    n = len(ck.obs)
    I = s.I
    va = img(I, oy.st, oy.value)
    vb = img(I, o2.st, o2.value)
    oy.value, o2.value = va, vb
    ck.judge(key, s, b2, o2, oy, names, rule, raises=False)
    for o in ck.obs[n:]:
        if o.verdict == VIOLATED and o.loc is None and o2.events:
            g = [e for e in o2.events if e['kind'] in ('memo', 'global', 'setattr')]
            o.loc = g[0]['loc'] if g else None


def img(I, st, v):
    """objects are compared by their attributes, external objects by their names"""
    save, I.st = I.st, st
    try:
        v = I.resolve(v)
        if isinstance(v, Ref) and isinstance(I.get(v), LObj):
            ob = I.get(v)
            return tuple((k, plain(I, x)) for k, x in sorted(ob.attrs.items()) if not hidden(I, x))
        if isinstance(v, Ref) or isinstance(v, (tuple, Ext)):
            return plain(I, v)
        return v
    finally:
        I.st = save


def hidden(I, x):
    x = I.resolve(x)
    return isinstance(x, (Opaque, Ext, Func, Bound)) or isinstance(x, Ref) and isinstance(I.get(x), LObj)


def differ(ck, w, s, o1, a, b2, o2, b, names):
    """description of a difference between the arguments of two drawn items"""
    from .. import compare as cp
    from ..compare import V, Unknown
    I = s.I

    def args(o, e):
        save, I.st = I.st, o.st
        try:
            return tuple(plain(I, x) for x in e['args']) + tuple(plain(I, e['kw'][k]) for k in sorted(e['kw'], key=str))
        finally:
            I.st = save
    xa, xb = args(o1, a), args(o2, b)
    for x, y in zip(xa, xb):
        if x is y or isinstance(x, str) and x == y:
            continue
        va, vb = V(I, o1.st, x), V(I, o2.st, y)
        try:
            sa_, sb = cp.skeleton(va), cp.skeleton(vb)
        except Exception:                   # noqa
            continue
        if sa_ == sb:
            continue
        try:
            tabs = ck.tables(names, o2.st.pc, 4, o2.rng)
            d, n = ck.separate(vb, va, tabs, b['pc'], 1e-7, None)
        except Unknown:
            continue
        if d:
            return d
    return None


# ------------------------------------------------------------------ histories of one object
def q_density(s, k, o):
    return I_call(s, o, 'density', [k.points], {})


def q_density_prob(s, k, o):
    return I_call(s, o, 'density', [k.points], {'probability': True})


def q_pdf_auto(s, k, o):
    return I_call(s, o, 'pdf', [], {})


def q_density_reflect(s, k, o):
    r = s.list([s.num('rl', hi=-3), s.num('rh', lo=4)])
    if k.D > 1:
        r = s.list([None] * (k.D - 1) + [r])
    return I_call(s, o, 'density', [k.points], {'reflect': r})


def q_density_params(s, k, o):
    return I_call(s, o, 'density', [k.data2 if False else s.arr('pts1', (k.M,))], {'params': 0})


def q_density_grid(s, k, o):
    g = s.list([s.arr(f'gg{d}', (s.int(f'GG{d}', 3),), sorted=True) for d in range(k.D)])
    return I_call(s, o, 'density', [g], {'grid': True})


def q_points(s, k, o):
    return s.I.getattr(o, 'points')


def q_cdf(s, k, o):
    return I_call(s, o, 'cdf', [k.points], {})


def q_resample(s, k, o):
    return I_call(s, o, 'resample', [], {})


def q_resample_keep(s, k, o):
    return I_call(s, o, 'resample', [s.int('S', 2)], {'keep': 0})


def q_resample_reflect(s, k, o):
    r = s.list([s.num('rl', hi=-3), s.num('rh', lo=4)])
    return I_call(s, o, 'resample', [s.int('S', 2)], {'reflect': s.list([None] * (k.D - 1) + [r])})


def q_resample_free(s, k, o):
    return I_call(s, o, 'resample', [s.int('S', 2)], {'reflect': False, 'squeeze': False})


def q_marginal_reflect(s, k, o):
    return I_call(s, o, 'density', [s.arr('pts1', (k.M,))], {'params': 0, 'reflect': s.list([s.list([s.num('rl', hi=-3), None])])})


def q_neff(s, k, o):
    return s.I.getattr(o, 'neff')


def q_cov(s, k, o):
    return s.I.getattr(o, 'covariance')


QUERIES = {'density': q_density, 'probability density': q_density_prob, 'density at automatic points': q_pdf_auto, 'density with reflect': q_density_reflect,
           'marginal density': q_density_params, 'density on a grid': q_density_grid, 'points': q_points, 'cdf': q_cdf, 'resample': q_resample,
           'resample keeping a dimension': q_resample_keep, 'resample with reflect': q_resample_reflect,
           'resample without reflect': q_resample_free, 'marginal density with reflect': q_marginal_reflect, 'neff': q_neff, 'covariance': q_cov}


HEAVY = ('cdf', 'density on a grid', 'density at automatic points')


def history(D, refl, thorough):
    """the queries that come first; resampling with reflection, the slowest, last"""
    late = []
    for a in QUERIES:
        if a == 'resample without reflect' and not refl or 'marginal' in a and D == 1:
            continue
        if 'keeping' in a and (D == 1 or refl):
            continue
        if D == 2 and refl and a in HEAVY and not thorough:
            continue
        if a == 'resample with reflect' or a == 'resample' and refl:
            late.append(a)
        else:
            yield a
    yield from late[:None if thorough else 1]


def pairs(ck, key, w, D, wt, refl, qs):
    s = w.scenario()
    I = s.I
    k = Case(s, D, weights=wt, cov=None)
    kw = {}
    if refl:
        kw['reflect'] = s.list([s.list([s.num(f'r{d}lo', hi=-2), s.num(f'r{d}hi', lo=3)]) for d in range(D)])
    o = s.run(lambda: k.kde(**kw))
    if not o.ok:
        return ck.add(key, UNDECIDED, R_OBJ, str(o.undecided or 'the constructor does not return'))
    obj = o.value
    st0 = I.st
    first = {}
    for b in qs:
        I.st = st0.fork()
        fresh(I, 0)
        first[b] = s.run(lambda: QUERIES[b](s, k, obj))
    I.st = st0.fork()
    I.memo = {}
    done = []
    for a in history(D, refl, ck.thorough):
        fresh(I, 1000 * (len(done) + 1))
        st1 = I.st
        ox = s.run(lambda: QUERIES[a](s, k, obj))
        if ox.ok:
            done.append(a)
        else:
            I.st = st1
    nophi(I)
    st2 = I.st
    for b in qs:
        t0 = time.time()
        n = len(ck.obs)
        I.st = st2.fork()
        query(ck, f'KDE D={D} weights={wt} reflect={refl}: {b} after other queries', s, k, obj, st0, I.st, first[b], b, done)
        for x in ck.obs[n:]:
            x.wall = time.time() - t0


def query(ck, key, s, k, obj, st0, b2, oy, b, done):
    I = s.I
    if not oy.ok:
        return ck.add(key, UNDECIDED, R_OBJ, str(oy.undecided or f'{b}: no path returns'))
    fresh(I, 0)
    o2 = s.run(lambda: QUERIES[b](s, k, obj))
    if o2.undecided:
        return ck.add(key, UNDECIDED, R_OBJ, o2.undecided)
    hist = ', '.join(done)
    if not o2.ok:
        return ck.add(key, VIOLATED, R_OBJ, f'{b} raises after {hist}: ' + '; '.join(f'{e.cls} {e.msg}' for _, e in o2.raises[:2]), o2.raises[0][1].loc if o2.raises else None)
    tabs = None
    for st, ex in o2.raises:
        if any(ex.loc == e.loc for _, e in oy.raises):
            continue
        tabs = tabs or ck.tables(s.inputs, b2.pc, 5, o2.rng)
        hit, unk = ck.feasible(st.pc[len(b2.pc):], tabs)
        if hit:
            return ck.add(key, VIOLATED, R_OBJ, f'{b} after {hist} reaches {ex.cls} ({ex.msg})' + ck.witness(hit), ex.loc)
    judge2(ck, key, s, st0, oy, b2, o2, set(s.inputs), R_OBJ)


def nophi(I):
    """forget path facts about loops of earlier calls"""
    I.st.pc = tuple(c for c in I.st.pc if not tm.find(c, lambda t: t.op in ('sym', 'bsym') and str(t.args[0]).startswith('phi_')))
    I.st._facts = None


def fresh(I, n):
    I.rng_log, I.lib_log = [dict(name='-')] * n, [None] * n
    I.phi0 = 10 * n


def sgrid(ck, key, w, D, interp):
    s = w.scenario()
    I = s.I
    e = corpus.edges_(s, D)
    d = corpus.dens_(s, D)
    o = s.run(lambda: I.call(s.get('kalepy.sample.Sample_Grid'), [e, d], {}))
    if not o.ok:
        return ck.add(key, UNDECIDED, R_OBJ, str(o.undecided or 'the constructor does not return'))
    obj = o.value
    n, m = s.int('S', 2), s.int('S2', 2)
    st0 = I.st
    I.st = st0.fork()
    fresh(I, 0)
    oy = s.run(lambda: I_call(s, obj, 'sample', [n], {'interpolate': interp}))
    I.st = st0.fork()
    fresh(I, 1000)
    s.run(lambda: I_call(s, obj, 'sample', [m], {'interpolate': not interp}))
    b2 = I.st
    fresh(I, 0)
    o2 = s.run(lambda: I_call(s, obj, 'sample', [n], {'interpolate': interp}))
    if not (oy.ok and o2.ok):
        return ck.add(key, UNDECIDED, R_OBJ, str(oy.undecided or o2.undecided or 'no path returns'))
    judge2(ck, key, s, st0, oy, b2, o2, set(s.inputs), R_OBJ)
