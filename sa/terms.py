"""Hash-consed value numbers.

A value number (class `T`) denotes a number or truth value as a function of input symbols and index variables.
Constructors normalise: sums of products with exact rational coefficients over atoms, rational powers, gates (`ite`),
comparisons as sign conditions of a normalised difference, reductions (`bind`) with canonical bound variables.
"""
from fractions import Fraction
import math

_TAB = {}
_NEXT = [0]
LOC = [None]            # current source location, set by the interpreter


class T:
    __slots__ = ('op', 'args', 'id', 'h', 'fv', 'loc', 'size', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def _kids(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _kids(a)


def mk(op, *args):
    key = (op, args)
    t = _TAB.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args = op, args
    t.id = _NEXT[0]
    _NEXT[0] += 1
    t.loc = LOC[0]
    h, fv, size = 0, frozenset(), 1
    for k in _kids(args):
        if k.h > h:
            h = k.h
        if k.fv:
            fv = fv | k.fv
        size += k.size
    if op == 'var':
        fv = frozenset([args[0]])
    elif op == 'bv':
        fv = frozenset([('b', args[0])])
    elif op == 'bind':
        # args: kind, levels, dims, body, extra
        h = max([h] + list(args[1]))
        fv = frozenset().union(*[d.fv for d in args[2]], *[e.fv for e in _kids((args[4],))],
                               args[3].fv - {('b', l) for l in args[1]})
    t.h, t.fv, t.size = h, fv, min(size, 10**9)
    _TAB[key] = t
    return t


# ------------------------------------------------------------------ numbers
def num(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return INF if x > 0 else NINF
        r = repr(x)
        x = Fraction(r)
        if x.denominator > 10**7 and len(r) > 14:
            # a long decimal: recognise simple exact constants
            f = Fraction(float(r)).limit_denominator(5000)
            if abs(float(f) - float(r)) <= 4e-16 * max(1.0, abs(float(r))):
                x = f
    return mk('num', Fraction(x))


ZERO = mk('num', Fraction(0))
ONE = mk('num', Fraction(1))
INF = mk('inf')
NAN = mk('nan')
TRUE = mk('true')
FALSE = mk('false')
PI = mk('pi')


def isnum(t):
    return t.op == 'num'


def isbool(t):
    return t.op in ('true', 'false', 'cmp', 'and', 'or', 'not', 'bsym') or \
        (t.op == 'bind' and t.args[0] in ('any', 'all')) or \
        (t.op == 'ite' and isbool(t.args[1]) and isbool(t.args[2])) or (t.op == 'fn' and t.args[0] in BOOL_FN)


BOOL_FN = {'isfinite', 'isnan', 'isinf', 'shape_eq', 'bool_opaque'}


def tonum(t):
    """Truth values used as numbers."""
    if isbool(t):
        return ite(t, ONE, ZERO)
    return t


# ------------------------------------------------------------------ symbols
SYM = {}     # name -> info dict


def sym(name, *idx, **info):
    if info:
        SYM.setdefault(name, {}).update(info)
    return mk('sym', name, tuple(num(i) for i in idx))


_FRESH = [0]
VARDIM = {}


def fresh(prefix='i', dim=None):
    _FRESH[0] += 1
    n = f'{prefix}#{_FRESH[0]}'
    if dim is not None:
        VARDIM[n] = num(dim)
    return mk('var', n)


def var(name):
    return mk('var', name)


# ------------------------------------------------------------------ polynomials
LIMIT = 400


def _poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, Fraction(1)),): Fraction(1)}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def _mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda x: (_mono_key(x[0]), x[1]))
    return mk('poly', tuple(items))


def add(*ts):
    ts = [tonum(t) if isinstance(t, T) else num(t) for t in ts]
    if any(t is NAN for t in ts):
        return NAN
    infs = [t for t in ts if t is INF or t is NINF]
    if infs:
        if all(t is infs[0] for t in infs):
            return infs[0]
        return NAN
    d = {}
    for t in ts:
        for m, c in _poly(t).items():
            d[m] = d.get(m, 0) + c
    return _mkpoly(d)


_PRIMES = (2, 3, 5, 7, 11, 13)


def _num_pow(c, e):
    """c**e for rational c > 0 and rational e: -> (coef, mono)"""
    if e.denominator == 1:
        return c ** int(e), ()
    coef, mono = Fraction(1), []
    rest = c
    for p in _PRIMES:
        k = 0
        while rest.numerator % p == 0 and rest.numerator:
            rest /= p
            k += 1
        while rest.denominator % p == 0:
            rest *= p
            k -= 1
        if k:
            ee = k * e
            w = math.floor(ee)
            coef *= Fraction(p) ** w
            if ee != w:
                mono.append((num(p), ee - w))
    if rest != 1:
        for base, sgn in ((rest.numerator, 1), (rest.denominator, -1)):
            if base == 1:
                continue
            r = round(base ** (1.0 / e.denominator))
            if r ** e.denominator == base:
                coef *= Fraction(r) ** (e.numerator * sgn)
            else:
                ee = e * sgn
                w = math.floor(ee)
                coef *= Fraction(base) ** w
                mono.append((num(base), ee - w))
    return coef, tuple(mono)


def _mono_mul(m1, m2):
    """-> (coef, mono)"""
    if not m1:
        return Fraction(1), m2
    if not m2:
        return Fraction(1), m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    coef = Fraction(1)
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == 'num':
            c, mm = _num_pow(a.args[0], e)
            coef *= c
            out.extend(mm)
        elif a.op == 'ite' and e.denominator == 1 and e > 1 and set((a.args[1], a.args[2])) == {ONE, ZERO}:
            out.append((a, Fraction(1)))
        else:
            out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return coef, tuple(out)


def _normatom(p):
    """polynomial T (multi-term) -> (coef, mono, primitive poly T): p == coef*mono*prim, prim canonical"""
    items = list(p.args[0])
    # common atoms
    common = None
    for m, c in items:
        dm = dict(m)
        if common is None:
            common = dict(dm)
        else:
            for a in list(common):
                if a in dm and (common[a] > 0) == (dm[a] > 0):
                    common[a] = min(common[a], dm[a]) if common[a] > 0 else max(common[a], dm[a])
                else:
                    del common[a]
    mono = tuple(sorted(((a, e) for a, e in (common or {}).items()), key=lambda x: x[0].id))
    inv = tuple((a, -e) for a, e in mono)
    d = {}
    for m, c in items:
        cc, mm = _mono_mul(m, inv)
        d[mm] = d.get(mm, 0) + c * cc
    its = sorted(d.items(), key=lambda x: _mono_key(x[0]))
    lead = its[-1][1]
    coef = abs(lead)
    prim = _mkpoly({m: c / coef for m, c in its})
    return coef, mono, prim


def mul(*ts):
    ts = [tonum(t) if isinstance(t, T) else num(t) for t in ts]
    res = ONE
    for t in ts:
        res = _mul2(res, t)
    return res


def _mul2(p, q):
    if p is ONE:
        return q
    if q is ONE:
        return p
    if p is NAN or q is NAN:
        return NAN
    if p is ZERO or q is ZERO:
        if p in (INF, NINF) or q in (INF, NINF):
            return NAN
        return ZERO
    for a, b in ((p, q), (q, p)):
        if a is INF or a is NINF:
            if b.op == 'num':
                return a if b.args[0] > 0 else (NINF if a is INF else INF)
            if b in (INF, NINF):
                return INF if a is b else NINF
            s = sign(b)
            if s == '+':
                return a
            if s == '-':
                return NINF if a is INF else INF
            return mk('fn', 'mulinf', (a, b))
    P, Q = _poly(p), _poly(q)
    # cancel a polynomial against itself as an atom
    for A, B, a in ((P, Q, p), (Q, P, q)):
        if len(A) > 1:
            c, m, prim = _normatom(a)
            if prim.op == 'poly':
                if all(any(x is prim for x, e in mono) for mono in B):
                    one = {_mono_mul(m, ((prim, Fraction(1)),))[1]: c * _mono_mul(m, ((prim, Fraction(1)),))[0]}
                    out = _pmul(one, B)
                    # exponents may have become 1 or positive: re-expand
                    return _reexpand(out)
    if len(P) * len(Q) > LIMIT and len(P) > 1 and len(Q) > 1:
        d = {(): Fraction(1)}
        for a in (p, q):
            c, m, prim = _normatom(a)
            c2, m2 = _mono_mul(m, ((prim, Fraction(1)),))
            d = _pmul(d, {m2: c * c2})
        return _mkpoly(d)
    return _mkpoly(_pmul(P, Q))


def _reexpand(d):
    out = []
    for m, c in d.items():
        t = mk('num', c)
        simple = []
        polys = []
        for a, e in m:
            if a.op == 'poly' and e.denominator == 1 and e > 0:
                polys.append((a, int(e)))
            else:
                simple.append((a, e))
        t = _mkpoly({tuple(simple): c})
        for a, e in polys:
            for _ in range(e):
                t = _mul2(t, a)
        out.append(t)
    return add(*out)


def _pmul(P, Q):
    d = {}
    for m1, c1 in P.items():
        for m2, c2 in Q.items():
            c, m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2 * c
    return d


def neg(t):
    t = tonum(t)
    if t is INF:
        return NINF
    if t is NINF:
        return INF
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(num(b)))


def powr(t, e):
    """t ** e, e rational number or T"""
    t = tonum(num(t))
    if isinstance(e, T):
        e = tonum(e)
        if not isnum(e):
            if t is ONE:
                return ONE
            if t is PI or isnum(t) and t.args[0] > 0:
                return fn('exp', mul(e, fn('log', t)))
            return mk('fn', 'pow', (t, e))
        e = e.args[0]
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t is NAN:
        return NAN
    if t is INF:
        return INF if e > 0 else ZERO
    if t is NINF:
        return ZERO if e < 0 else mk('fn', 'pow', (t, mk('num', e)))
    if t.op == 'num':
        c = t.args[0]
        if c == 0:
            return ZERO if e > 0 else INF
        if c < 0:
            if e.denominator == 1:
                return mk('num', c ** int(e))
            return NAN
        cc, mm = _num_pow(c, e)
        return _mkpoly({mm: cc})
    if t.op == 'ite' and (isnum(t.args[1]) or isnum(t.args[2]) or t.args[1] in (INF, NINF, NAN)):
        return ite(t.args[0], powr(t.args[1], e), powr(t.args[2], e))
    if t.op != 'poly':
        if e.denominator != 1 and t.op == 'fn' and t.args[0] == 'exp':
            return fn('exp', mul(t.args[1][0], mk('num', e)))
        return _mkpoly({((t, e),): Fraction(1)})
    items = t.args[0]
    if len(items) == 1:
        m, c = items[0]
        if e.denominator == 1:
            d = {(): c ** int(e)}
            for a, ex in m:
                d = _pmul(d, _poly_pow_atom(a, ex * e))
            return _mkpoly(d)
        if c < 0:
            return _mkpoly({((t, e),): Fraction(1)})
        cc, mm = _num_pow(c, e)
        res = _mkpoly({mm: cc})
        rest = []
        for a, ex in m:
            if ex.denominator == 1 and int(ex) % 2 == 0:
                base = fn('abs', a)
                res = mul(res, _mkpoly(_poly_pow_atom(base, ex * e)) if base.op != 'poly' else powr(base, ex * e))
            elif ex.denominator != 1 or nonneg(a):
                res = mul(res, _mkpoly(_poly_pow_atom(a, ex * e)))
            else:
                rest.append((a, ex))
        if rest:
            r = _mkpoly({tuple(rest): Fraction(1)})
            res = mul(res, _mkpoly({((r, e),): Fraction(1)}))
        return res
    # multi-term
    if e.denominator == 1 and e > 0 and len(items) ** int(e) <= LIMIT:
        r = t
        for _ in range(int(e) - 1):
            r = _mul2(r, t)
        return r
    c, m, prim = _normatom(t)
    if e.denominator == 1:
        res = mk('num', c ** int(e))
    else:
        cc, mm = _num_pow(c, e)
        res = _mkpoly({mm: cc})
    if m:
        mt = _mkpoly({m: Fraction(1)})
        if e.denominator == 1 or nonneg(mt):
            res = mul(res, powr(mt, e))
        else:
            prim = _mul2(mt, prim)
    if prim.op != 'poly' or len(prim.args[0]) == 1:
        return mul(res, powr(prim, e))
    # orientation for integer powers: leading coefficient positive
    if e.denominator == 1 and prim.args[0][-1][1] < 0:
        prim = neg(prim)
        if int(e) % 2:
            res = neg(res)
    return _mkpoly(_pmul(_poly(res), {((prim, e),): Fraction(1)}))


def _poly_pow_atom(a, e):
    if a.op == 'num':
        c, m = _num_pow(a.args[0], e)
        return {m: c}
    if e == 0:
        return {(): Fraction(1)}
    return {((a, e),): Fraction(1)}


def div(a, b):
    return mul(a, powr(b, -1))


def sqrt(a):
    return powr(a, Fraction(1, 2))


NINF = mk('ninf')


def coeffs(t):
    """list of (coef, mono) of a numeric T"""
    return [(c, m) for m, c in _poly(t).items()]


def split_const(t):
    d = _poly(t)
    c = d.pop((), Fraction(0))
    return _mkpoly(d), c


# ------------------------------------------------------------------ booleans
def cmp_(rel, p):
    """rel in '<', '<=', '==' : p rel 0"""
    if p.op == 'num':
        c = p.args[0]
        return TRUE if (c < 0 if rel == '<' else c <= 0 if rel == '<=' else c == 0) else FALSE
    if p is NAN:
        return FALSE
    if p is INF:
        return FALSE
    if p is NINF:
        return FALSE if rel == '==' else TRUE
    if p.op == 'ite' and (_cmpconst(p.args[1]) or _cmpconst(p.args[2])):
        return ite(p.args[0], cmp_(rel, p.args[1]), cmp_(rel, p.args[2]))
    lo, lopen, hi, hopen = interval(p)
    if rel == '<':
        if hi < 0 or (hi == 0 and hopen):
            return TRUE
        if lo >= 0:
            return FALSE
    elif rel == '<=':
        if hi <= 0:
            return TRUE
        if lo > 0 or (lo == 0 and lopen):
            return FALSE
    else:
        if lo > 0 or hi < 0 or (lo == 0 and lopen) or (hi == 0 and hopen):
            return FALSE
        if lo == hi == 0:
            return TRUE
    # normalise by positive scale
    if p.op == 'poly':
        items = p.args[0]
        if len(items) == 1:
            m, c = items[0]
            keep = []
            sgn = 1 if c > 0 else -1
            for a, e in m:
                iv = interval(a)
                pos = iv[0] > 0 or (iv[0] == 0 and iv[1])
                if pos:
                    continue
                if rel == '==':
                    if e > 0:
                        keep.append((a, Fraction(1)))
                    continue
                keep.append((a, e))
            if rel == '==':
                sgn = 1
            p = _mkpoly({tuple(keep): Fraction(sgn)})
            if p.op == 'num':
                return cmp_(rel, p)
        else:
            c, m, prim = _normatom(p)
            pos = all(_pos(a) for a, e in m)
            if pos:
                p = prim
            else:
                p = _mkpoly({mm: cc / c for mm, cc in _poly(p).items()})
            if rel == '==' and p.op == 'poly' and p.args[0][-1][1] < 0:
                p = neg(p)
    return mk('cmp', rel, p)


def _cmpconst(t):
    return isnum(t) or t in (INF, NINF) or (t.op == 'ite' and (_cmpconst(t.args[1]) or _cmpconst(t.args[2])))


def _pos(a):
    iv = interval(a)
    return iv[0] > 0 or (iv[0] == 0 and iv[1])


def _infcmp(a, b):
    return a in (INF, NINF) or b in (INF, NINF)


def lt(a, b):
    a, b = tonum(num(a)), tonum(num(b))
    if _infcmp(a, b):
        if a is b:
            return FALSE
        if a is NINF or b is INF:
            return TRUE     # finite values assumed on the other side
        return FALSE
    if a is NAN or b is NAN:
        return FALSE
    a, b = _lift2(a, b)
    if a.op == 'ite' and _infside(a):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == 'ite' and _infside(b):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    return cmp_('<', sub(a, b))


def _lift2(a, b):
    return a, b


def _infside(t):
    return t.op == 'ite' and (t.args[1] in (INF, NINF, NAN) or t.args[2] in (INF, NINF, NAN) or _infside(t.args[1]) or _infside(t.args[2]))


def le(a, b):
    a, b = tonum(num(a)), tonum(num(b))
    if _infcmp(a, b):
        if a is b:
            return TRUE
        if a is NINF or b is INF:
            return TRUE
        return FALSE
    if a is NAN or b is NAN:
        return FALSE
    if a.op == 'ite' and _infside(a):
        return ite(a.args[0], le(a.args[1], b), le(a.args[2], b))
    if b.op == 'ite' and _infside(b):
        return ite(b.args[0], le(a, b.args[1]), le(a, b.args[2]))
    return cmp_('<=', sub(a, b))


def eq(a, b):
    a, b = num(a), num(b)
    if isbool(a) and isbool(b):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = tonum(a), tonum(b)
    if a is b:
        return TRUE if a is not NAN else FALSE
    if _infcmp(a, b) or a is NAN or b is NAN:
        return FALSE
    return cmp_('==', sub(a, b))


VER = [0]
_VERS = {}
_EPOCH = [0]
_MEMO = {}


def newver():
    k = (_EPOCH[0], tuple(sorted((n, x.id if isinstance(x, T) else x) for n, x in RANGES.items())))
    v = _VERS.get(k)
    if v is None:
        v = _VERS[k] = len(_VERS) + 1
    VER[0] = v


def bump():
    """the facts about symbols changed"""
    _EPOCH[0] += 1
    _MEMO.clear()
    newver()


def not_(b):
    k = ('n', VER[0], b.id)
    r = _MEMO.get(k)
    if r is None:
        r = _MEMO[k] = _not(b)
    return r


def _not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'cmp':
        if b.args[0] == '<':
            return cmp_('<=', neg(b.args[1]))
        if b.args[0] == '<=':
            return cmp_('<', neg(b.args[1]))
    if b.op == 'and':
        return or_(*[not_(x) for x in b.args])
    if b.op == 'or':
        return and_(*[not_(x) for x in b.args])
    if b.op == 'ite':
        return ite(b.args[0], not_(b.args[1]), not_(b.args[2]))
    if b.op == 'bind' and b.args[0] in ('any', 'all'):
        v, body = open_(b)
        return bind('all' if b.args[0] == 'any' else 'any', v, b.args[2], not_(body))
    return mk('not', b)


def truth(t):
    """numeric value used as a condition"""
    if isbool(t):
        return t
    return not_(eq(t, ZERO))


def and_(*bs):
    k = ('a', VER[0], tuple([b.id if isinstance(b, T) else b for b in bs]))
    r = _MEMO.get(k)
    if r is None:
        r = _MEMO[k] = _and(*bs)
    return r


def or_(*bs):
    k = ('o', VER[0], tuple([b.id if isinstance(b, T) else b for b in bs]))
    r = _MEMO.get(k)
    if r is None:
        r = _MEMO[k] = _or(*bs)
    return r


def _and(*bs):
    s = []
    for b in bs:
        b = truth(b)
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.op == 'and':
            s.extend(b.args)
        else:
            s.append(b)
    s = sorted(set(s), key=lambda x: x.id)
    ss = set(s)
    for b in s:
        if not_(b) in ss:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s = _subsume(s)
    if s is None:
        return FALSE
    # absorption: a and (a or b) -> a
    out = []
    ss = set(s)
    for b in s:
        if b.op == 'or' and any(x in ss for x in b.args):
            continue
        if b.op == 'or' and any(not_(x) in ss for x in b.args):
            b2 = or_(*[x for x in b.args if not_(x) not in ss])
            return and_(*[x for x in s if x is not b], b2)
        out.append(b)
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def _bound_form(b):
    r = _MEMO.get(('b', b.id))
    if r is None:
        r = _MEMO[('b', b.id)] = (_bound_form0(b),)
    return r[0]


def _bound_form0(b):
    """cmp -> (nonconst part, const, strict) meaning  nc + c < 0"""
    if b.op == 'cmp' and b.args[0] in ('<', '<='):
        nc, c = split_const(b.args[1])
        # scale so that comparable: divide by leading coef magnitude
        d = _poly(nc)
        if not d:
            return None
        lead = abs(sorted(d.items(), key=lambda x: _mono_key(x[0]))[-1][1])
        nc = _mkpoly({m: x / lead for m, x in d.items()})
        return nc, c / lead, b.args[0] == '<'
    return None


def _subsume(s):
    """conjunction of bounds: drop implied ones, detect contradiction"""
    best = {}
    rest = []
    for b in s:
        f = _bound_form(b)
        if f is None:
            rest.append(b)
            continue
        nc, c, strict = f
        if nc in best:
            c0, st0, b0 = best[nc]
            if (c, strict) > (c0, st0):
                best[nc] = (c, strict, b)
        else:
            best[nc] = (c, strict, b)
    for nc, (c, st, b) in best.items():
        o = best.get(neg(nc))
        if o is not None:
            # nc < -c and -nc < -c2  -> c2 < nc < -c
            tot = c + o[0]
            if tot > 0 or (tot == 0 and (st or o[1])):
                return None
    out = rest + [b for _, _, b in best.values()]
    return sorted(out, key=lambda x: x.id)


def _or(*bs):
    s = []
    for b in bs:
        b = truth(b)
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.op == 'or':
            s.extend(b.args)
        else:
            s.append(b)
    s = sorted(set(s), key=lambda x: x.id)
    ss = set(s)
    for b in s:
        if not_(b) in ss:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    ns = [not_(x) for x in s]
    ns2 = _subsume(ns)
    if ns2 is None:
        return TRUE
    if len(ns2) < len(s):
        s = sorted((not_(x) for x in ns2), key=lambda x: x.id)
        if len(s) == 1:
            return s[0]
    out = []
    ss = set(s)
    for b in s:
        if b.op == 'and' and any(x in ss for x in b.args):
            continue
        if b.op == 'and' and any(not_(x) in ss for x in b.args):
            b2 = and_(*[x for x in b.args if not_(x) not in ss])
            return or_(*[x for x in s if x is not b], b2)
        out.append(b)
    if len(out) == 1:
        return out[0]
    return mk('or', *out)


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'cmp' and c.args[0] == '<=':
        # canonical orientation: strict comparison
        return ite(cmp_('<', neg(c.args[1])), b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if isbool(a) and isbool(b):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    elif isbool(a) != isbool(b):
        a, b = tonum(a), tonum(b)
        if a is b:
            return a
    # max / min recognition
    if c.op == 'cmp' and c.args[0] == '<':
        d = c.args[1]
        if not isbool(a) and a not in (INF, NINF, NAN) and b not in (INF, NINF, NAN):
            df = sub(a, b)
            if df is d:
                return minmax_('min', a, b)
            if df is neg(d):
                return minmax_('max', a, b)
            # scaled comparison
            if not isnum(df) and cmp_('<', df) is c:
                return minmax_('min', a, b)
            if not isnum(df) and cmp_('<', neg(df)) is c:
                return minmax_('max', a, b)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and b.args[2] is a:
        return ite(and_(not_(c), b.args[0]), b.args[1], a)
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    return mk('ite', c, a, b)


def minmax_(kind, *ts):
    s = []
    for t in ts:
        t = tonum(num(t))
        if t.op == 'fn' and t.args[0] == kind:
            s.extend(t.args[1])
        else:
            s.append(t)
    s = sorted(set(s), key=lambda x: x.id)
    if any(t is NAN for t in s):
        return NAN
    top, bot = (INF, NINF) if kind == 'max' else (NINF, INF)
    if top in s:
        return top
    s = [t for t in s if t is not bot] or [bot]
    nums = [t for t in s if isnum(t)]
    if len(nums) > 1:
        best = (max if kind == 'max' else min)(nums, key=lambda t: t.args[0])
        s = [t for t in s if not isnum(t) or t is best]
    # drop dominated by difference
    out = []
    for i, t in enumerate(s):
        dom = False
        for j, u in enumerate(s):
            if i == j:
                continue
            lo, lop, hi, hop = interval(sub(u, t))
            if kind == 'max' and lo >= 0 and (lo > 0 or hi > 0 or j < i):
                dom = True
            if kind == 'min' and hi <= 0 and (hi < 0 or lo < 0 or j < i):
                dom = True
        if not dom:
            out.append(t)
    s = out or s[:1]
    if len(s) == 1:
        return s[0]
    if len(s) == 2 and s[0] is neg(s[1]):
        a = fn('abs', s[0])
        return a if kind == 'max' else neg(a)
    # pull out a positive common numeric factor
    return mk('fn', kind, tuple(s))


# ------------------------------------------------------------------ functions
def fn(name, *args):
    args = tuple(num(a) if not isinstance(a, T) else a for a in args)
    a = args[0] if args else None
    if name in ('max', 'min'):
        return minmax_(name, *args)
    if a is not None and a is NAN and name in ('exp', 'log', 'log10', 'log2', 'abs', 'floor', 'ceil', 'trunc', 'round'):
        return NAN
    if name == 'sqrt':
        return sqrt(a)
    if name == 'exp':
        a = tonum(a)
        if a is ZERO:
            return ONE
        if a is NINF:
            return ZERO
        if a is INF:
            return INF
        if a.op == 'fn' and a.args[0] == 'log':
            return a.args[1][0]
        return mk('fn', 'exp', (a,))
    if name in ('log', 'log10', 'log2'):
        a = tonum(a)
        if a is ONE:
            return ZERO
        if name == 'log' and a.op == 'fn' and a.args[0] == 'exp':
            return a.args[1][0]
        if name == 'log10':
            return div(fn('log', a), fn('log', num(10)))
        if name == 'log2':
            return div(fn('log', a), fn('log', num(2)))
        return mk('fn', 'log', (a,))
    if name == 'abs':
        a = tonum(a)
        if isnum(a):
            return num(abs(a.args[0]))
        if a in (INF, NINF):
            return INF
        iv = interval(a)
        if iv[0] >= 0:
            return a
        if iv[2] <= 0:
            return neg(a)
        if a.op == 'poly':
            items = a.args[0]
            if len(items) == 1:
                m, c = items[0]
                res = num(abs(c))
                rest = []
                for x, e in m:
                    if interval(x)[0] >= 0:
                        res = mul(res, powr(x, e))
                    elif e.denominator == 1 and int(e) % 2 == 0:
                        res = mul(res, powr(x, e))
                    else:
                        rest.append((x, e))
                if rest:
                    r = _mkpoly({tuple(rest): Fraction(1)})
                    res = mul(res, mk('fn', 'abs', (r,)))
                return res
            c, m, prim = _normatom(a)
            if prim.op == 'poly' and prim.args[0][-1][1] < 0:
                prim = neg(prim)
            res = num(c)
            if m:
                res = mul(res, fn('abs', _mkpoly({m: Fraction(1)})))
            return mul(res, mk('fn', 'abs', (prim,)) if interval(prim)[0] < 0 else prim)
        return mk('fn', 'abs', (a,))
    if name in ('floor', 'ceil', 'trunc', 'round'):
        a = tonum(a)
        if isnum(a):
            c = a.args[0]
            return num(math.floor(c) if name == 'floor' else math.ceil(c) if name == 'ceil' else
                       (math.floor(c) if c >= 0 else math.ceil(c)) if name == 'trunc' else round(c))
        if isint(a):
            return a
        if name == 'trunc' and interval(a)[0] >= 0:
            return fn('floor', a)
        return mk('fn', name, (a,))
    if name == 'gamma':
        a = tonum(a)
        if isnum(a):
            c = a.args[0]
            if c.denominator == 1 and 0 < c <= 40:
                return num(math.factorial(int(c) - 1))
            if c.denominator == 2 and 0 < c <= 40:
                # Gamma(n+1/2) = (2n)!/(4^n n!) sqrt(pi)
                n = int(c - Fraction(1, 2))
                return mul(num(Fraction(math.factorial(2 * n), 4 ** n * math.factorial(n))), sqrt(PI))
        return mk('fn', 'gamma', (a,))
    if name == 'beta':
        x, y = args
        return div(mul(fn('gamma', x), fn('gamma', y)), fn('gamma', add(x, y)))
    if name == 'floordiv':
        return floordiv(args[0], args[1])
    if name == 'mod':
        return mod(args[0], args[1])
    if name == 'sel' and args[2].op == 'fn' and args[2].args[0] == 'rank' and args[2].args[1][0] is args[0]:
        return args[2].args[1][2]
    if name == 'rank' and args[2].op == 'fn' and args[2].args[0] == 'sel' and args[2].args[1][0] is args[0]:
        return args[2].args[1][2]
    if name == 'selm' and args[2].op == 'fn' and args[2].args[0] == 'rankm' and args[2].args[1][0] is args[0]:
        return args[2].args[1][1 + int(args[1].args[0])]
    if name == 'isfinite':
        if a in (INF, NINF, NAN):
            return FALSE
        if finite(a):
            return TRUE
        return mk('fn', name, args)
    if name == 'isnan':
        if a is NAN:
            return TRUE
        if a in (INF, NINF) or finite(a):
            return FALSE
        return mk('fn', name, args)
    if name == 'cholU':
        # args: i, j, n, entries...
        i, j, n = (int(x.args[0]) for x in args[:3])
        if i > j:
            return ZERO
        ent = args[3:]
        if n == 1:
            return sqrt(ent[0])
        off = [ent[r * n + s] for r in range(n) for s in range(n) if r != s]
        if all(x is ZERO for x in off):
            return sqrt(ent[i * n + i]) if i == j else ZERO
        return mk('fn', name, args)
    if name == 'inv':
        i, j, n = (int(x.args[0]) for x in args[:3])
        ent = args[3:]
        if n == 1:
            return powr(ent[0], -1)
        off = [ent[r * n + s] for r in range(n) for s in range(n) if r != s]
        if all(x is ZERO for x in off):
            return powr(ent[i * n + i], -1) if i == j else ZERO
        if all(x.op == 'fn' and x.args[0] == 'inv' and x.args[1][3:] == ent[0].args[1][3:] and
               x.args[1][:3] == (num(r), num(s), num(n)) for r in range(n) for s in range(n)
               for x in [ent[r * n + s]]):
            return ent[0].args[1][3:][i * n + j]
        return mk('fn', name, args)
    if name == 'det':
        n = int(args[0].args[0])
        ent = args[1:]
        if n == 1:
            return ent[0]
        off = [ent[r * n + s] for r in range(n) for s in range(n) if r != s]
        if all(x is ZERO for x in off):
            return mul(*[ent[i * n + i] for i in range(n)])
        if all(x.op == 'fn' and x.args[0] == 'inv' and x.args[1][3:] == ent[0].args[1][3:] and
               x.args[1][:3] == (num(r), num(s), num(n)) for r in range(n) for s in range(n)
               for x in [ent[r * n + s]]):
            return powr(fn('det', num(n), *ent[0].args[1][3:]), -1)
        return mk('fn', name, args)
    return mk('fn', name, args)


def vrange(v):
    """known (lo, hi) of an index variable as T, or None"""
    d = RANGES.get(v.args[0]) if v.op == 'var' else None
    if d is None and v.op == 'var':
        d = VARDIM.get(v.args[0])
    return d


RANGES = {}      # variable name -> dim, valid during an operation


def _below(t, b):
    """0 <= t < b provable (index arithmetic)"""
    if t is ZERO:
        return True
    lo = interval(t)[0]
    if lo < 0:
        return False
    if t.op == 'var':
        d = vrange(t)
        if d is not None and (d is b or interval(sub(b, d))[0] >= 0):
            return True
    if t.op == 'fn' and t.args[0] == 'mod' and t.args[1][1] is b:
        return True
    return lt(t, b) is TRUE


def _split_mul(a, b):
    """a == q*b + r with r the terms not divisible by b -> (q, r)"""
    q, r = [], []
    for m, c in _poly(a).items():
        t = _mkpoly({m: c})
        if isnum(b):
            if c % b.args[0] == 0:
                q.append(_mkpoly({m: c / b.args[0]}))
                continue
            r.append(t)
            continue
        x = div(t, b)
        if all(e > 0 and e.denominator == 1 for mm in _poly(x) for _, e in mm) and all(
                cc.denominator == 1 for cc in _poly(x).values()):
            q.append(x)
        else:
            r.append(t)
    return add(*q) if q else ZERO, add(*r) if r else ZERO


def floordiv(a, b):
    a, b = tonum(num(a)), tonum(num(b))
    if isnum(a) and isnum(b) and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if b is ONE and isint(a):
        return a
    if isint(a) and isint(b):
        q, r = _split_mul(a, b)
        if _below(r, b):
            return q
        if q is not ZERO:
            return add(q, mk('fn', 'floordiv', (r, b)))
    return mk('fn', 'floordiv', (a, b))


def mod(a, b):
    a, b = tonum(num(a)), tonum(num(b))
    if isnum(a) and isnum(b) and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if b is ONE and isint(a):
        return ZERO
    if isint(a) and isint(b):
        q, r = _split_mul(a, b)
        if _below(r, b):
            return r
        if q is not ZERO:
            return mk('fn', 'mod', (r, b))
    return mk('fn', 'mod', (a, b))


# ------------------------------------------------------------------ binders
def subst(t, m):
    """m: dict T -> T (leaf nodes: var / sym / bv)"""
    if not m:
        return t
    names = frozenset(k.args[0] if k.op == 'var' else ('b', k.args[0]) if k.op == 'bv' else None for k in m)
    general = any(k.op not in ('var', 'bv') for k in m)
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        if not general and not (t.fv & names):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


def rebuild(t, f):
    op, a = t.op, t.args
    if op in ('num', 'var', 'bv', 'inf', 'ninf', 'nan', 'true', 'false', 'pi'):
        return t
    if op == 'sym':
        if not a[1]:
            return t
        return mk('sym', a[0], tuple(f(x) for x in a[1]))
    if op == 'bsym':
        return mk('bsym', a[0], tuple(f(x) for x in a[1]))
    if op == 'poly':
        out = []
        same = True
        cache = {}
        for m, c in a[0]:
            for x, e in m:
                if x not in cache:
                    cache[x] = f(x)
                    if cache[x] is not x:
                        same = False
        if same:
            return t
        for m, c in a[0]:
            out.append(mul(mk('num', c), *[powr(cache[x], e) if cache[x] is not x else _mkpoly({((x, e),): Fraction(1)})
                                           for x, e in m]))
        return add(*out)
    if op == 'cmp':
        p = f(a[1])
        return cmp_(a[0], p) if p is not a[1] else t
    if op == 'and':
        return and_(*[f(x) for x in a])
    if op == 'or':
        return or_(*[f(x) for x in a])
    if op == 'not':
        return not_(f(a[0]))
    if op == 'ite':
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if op == 'fn':
        return fn(a[0], *[f(x) for x in a[1]])
    if op == 'bind':
        vs, body = open_(t)
        return bind(a[0], vs, tuple(f(d) for d in a[2]), f(body), tuple(f(x) for x in a[4]))
    raise AssertionError(op)


def open_(t):
    kind, levels, dims, body, extra = t.args
    vs = tuple(fresh('o', d) for d in dims)
    return vs, subst(body, {mk('bv', l): v for l, v in zip(levels, vs)})


def _close(kind, vs, dims, body, extra=()):
    h = body.h
    levels = tuple(h + 1 + k for k in range(len(vs)))
    b = subst(body, {v: mk('bv', l) for v, l in zip(vs, levels)})
    return mk('bind', kind, levels, dims, b, tuple(extra))


def lam(vs, dims, body):
    return _close('lam', tuple(vs), tuple(num(d) for d in dims), body)


def apply_lam(l, idx):
    vs, body = open_(l)
    return subst(body, dict(zip(vs, (num(i) for i in idx))))


def contains(t, s):
    """does t contain sub-term s"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is s:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(_kids(x.args))
    return False


def find(t, pred):
    seen = set()
    st = [t]
    out = []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        st.extend(_kids(x.args))
    return out


def _index_cond(body, v):
    """find a comparison affine in v only (v - K < 0 form, K free of bound variables) usable for range splitting"""
    for x in find(body, lambda x: x.op == 'cmp' and v.args[0] in x.fv):
        if any(isinstance(n, tuple) for n in x.fv):
            continue
        p = x.args[1]
        d = _poly(p)
        lin = d.get(((v, Fraction(1)),))
        if lin is None or abs(lin) != 1:
            continue
        rest = _mkpoly({m: c for m, c in d.items() if m != ((v, Fraction(1)),)})
        if v.args[0] in rest.fv:
            continue
        if not isint(rest):
            continue
        return x, lin, rest
    return None


def bind(kind, vs, dims, body, extra=()):
    vs = tuple(vs)
    dims = tuple(num(d) for d in dims)
    if kind == 'lam':
        return _close('lam', vs, dims, body, extra)
    if len(vs) > 1:
        r = body
        for v, d in zip(reversed(vs), reversed(dims)):
            r = bind(kind, (v,), (d,), r, extra)
        return r
    v, dim = vs[0], dims[0]
    if v.op == 'var' and v.args[0] not in VARDIM:
        VARDIM[v.args[0]] = dim
    if kind in ('any', 'all'):
        body = truth(body)
        if body is TRUE or body is FALSE:
            return body
        if v.args[0] not in body.fv:
            return body
    else:
        body = tonum(body)
    if body is NAN:
        return NAN
    if kind == 'sum':
        if body in (INF, NINF):
            return body
        if v.args[0] not in body.fv:
            return mul(body, dim)
    elif kind in ('min', 'max'):
        if v.args[0] not in body.fv:
            return body
        if body is v:
            return ZERO if kind == 'min' else sub(dim, ONE)
    elif kind == 'prod' and v.args[0] not in body.fv:
        return powr(body, dim)
    if isnum(dim) and dim.args[0] <= 12:
        n = int(dim.args[0])
        parts = [subst(body, {v: num(k)}) for k in range(n)]
        if kind == 'sum':
            return add(*parts) if parts else ZERO
        if kind == 'prod':
            return mul(*parts) if parts else ONE
        if kind in ('min', 'max') and parts:
            return minmax_(kind, *parts)
        if kind == 'any':
            return or_(*parts)
        if kind == 'all':
            return and_(*parts)
    # split at index conditions
    ic = _index_cond(body, v)
    if ic is not None:
        c, lin, rest = ic
        strict = c.args[0] == '<'
        ceq = c.args[0] == '=='
        K = neg(rest) if lin == 1 else rest
        if ceq:
            # v == K
            other = subst_node(body, c, FALSE)
            at = subst(subst_node(body, c, TRUE), {v: K})
            inside = and_(le(ZERO, K), lt(K, dim))
            if kind == 'sum':
                base = bind('sum', vs, dims, other)
                return add(base, mul(tonum(inside), sub(at, subst(other, {v: K}))))
            if kind in ('any', 'all'):
                if kind == 'any':
                    if other is FALSE:
                        return and_(inside, at)
        else:
            # c true for v < K' (lin=1) or v > K' (lin=-1)
            if lin == 1:
                first, second = TRUE, FALSE
                Kp = K if strict else add(K, ONE)
            else:
                first, second = FALSE, TRUE
                Kp = add(K, ONE) if strict else K
            n1 = clampdim(Kp, dim)
            if n1 is not None:
                b1 = subst_node(body, c, first)
                b2 = subst(subst_node(body, c, second), {v: add(v, n1)})
                return combine(kind, _bind_nz(kind, v, n1, b1, extra), _bind_nz(kind, v, sub(dim, n1), b2, extra),
                               n1, sub(dim, n1))
    # selection / permutation index functions
    r = _reindex(kind, v, dim, body, extra)
    if r is not None:
        return r
    if kind == 'sum':
        d = {}
        if body.op == 'poly' or body.op not in ('poly',):
            out = []
            groups = {}
            for m, c in _poly(body).items():
                inner = tuple((a, e) for a, e in m if v.args[0] in a.fv)
                outer = tuple((a, e) for a, e in m if v.args[0] not in a.fv)
                groups.setdefault(inner, []).append((outer, c))
            for inner, lst in groups.items():
                o = add(*[_mkpoly({ou: c}) for ou, c in lst])
                if not inner:
                    out.append(mul(o, dim))
                    continue
                ib = _mkpoly({inner: Fraction(1)})
                if ib is v:
                    s = div(mul(dim, sub(dim, ONE)), num(2))
                else:
                    r = _reindex(kind, v, dim, ib, extra) if len(groups) > 1 or ib is not body else None
                    s = r if r is not None else _close('sum', (v,), (dim,), ib, extra)
                out.append(mul(o, s))
            return add(*out)
    if kind in ('min', 'max'):
        # pull out additive part independent of v, and positive factor
        d = _poly(body)
        inner = {m: c for m, c in d.items() if any(v.args[0] in a.fv for a, e in m)}
        outer = {m: c for m, c in d.items() if m not in inner}
        if outer and inner:
            return add(_mkpoly(outer), bind(kind, vs, dims, _mkpoly(inner), extra))
        if len(inner) == 1:
            (m, c), = inner.items()
            fi = tuple((a, e) for a, e in m if v.args[0] in a.fv)
            fo = tuple((a, e) for a, e in m if v.args[0] not in a.fv)
            f = _mkpoly({fo: c})
            if f is not ONE:
                s = sign(f)
                if s == '+':
                    return mul(f, bind(kind, vs, dims, _mkpoly({fi: Fraction(1)}), extra))
                if s == '-':
                    return mul(f, bind('min' if kind == 'max' else 'max', vs, dims, _mkpoly({fi: Fraction(1)}), extra))
            elif len(fi) == 1 and fi[0][1] > 0 and fi[0][1] != 1 and nonneg(fi[0][0]):
                return powr(bind(kind, vs, dims, fi[0][0], extra), fi[0][1])
        b = body
        if b.op == 'fn' and b.args[0] in ('exp', 'log', 'floor', 'ceil', 'trunc'):
            return fn(b.args[0], bind(kind, vs, dims, b.args[1][0], extra))
    if kind == 'any' and body.op == 'or':
        free = [x for x in body.args if v.args[0] not in x.fv]
        if free:
            return or_(*free, bind('any', vs, dims, or_(*[x for x in body.args if v.args[0] in x.fv])))
    if kind == 'all' and body.op == 'and':
        return and_(*[bind('all', vs, dims, x) for x in body.args])
    if kind == 'any' and body.op == 'or':
        return or_(*[bind('any', vs, dims, x) for x in body.args])
    return _close(kind, (v,), (dim,), body, extra)


def _bind_nz(kind, v, n, body, extra):
    if n is ZERO:
        return None
    w = fresh('s', n)
    return bind(kind, (w,), (n,), subst(body, {v: w}), extra)


def combine(kind, a, b, n1, n2):
    if a is None:
        return b
    if b is None:
        return a
    if kind == 'sum':
        return add(a, b)
    if kind == 'prod':
        return mul(a, b)
    if kind == 'any':
        return or_(a, b)
    if kind == 'all':
        return and_(a, b)
    r = minmax_(kind, a, b)
    return r


def clampdim(k, dim):
    """k clamped to [0, dim] when provable"""
    if le(k, ZERO) is TRUE:
        return ZERO
    if le(dim, k) is TRUE:
        return dim
    if le(ZERO, k) is TRUE and le(k, dim) is TRUE:
        return k
    return None


def subst_node(t, node, val):
    memo = {}

    def go(t):
        if t is node:
            return val
        r = memo.get(t)
        if r is None:
            r = rebuild(t, go)
            memo[t] = r
        return r
    # also resolve implied comparisons on the same difference
    if node.op == 'cmp' and node.args[0] != '==':
        facts = Facts([node if val is TRUE else not_(node)])

        def go(t):      # noqa
            if t.op == 'cmp':
                d = facts.decide(t)
                if d is not None:
                    return d
            r = memo.get(t)
            if r is None:
                if not t.fv & node.fv:
                    r = t
                else:
                    r = rebuild(t, go)
                memo[t] = r
            return r
    return go(t)


def _reindex(kind, v, dim, body, extra):
    """sums over a selection / permutation"""
    occ = find(body, lambda x: x.op == 'fn' and x.args[0] in ('sel', 'perm') and v in x.args[1])
    if not occ:
        return None
    o = occ[0]
    if any(x is not o for x in occ):
        return None
    # v must occur only inside o
    w = fresh('r')
    b2 = subst_node(body, o, w)
    if v.args[0] in b2.fv:
        return None
    if o.args[0] == 'perm':
        n = o.args[1][1]          # perm(lam, n, i)
        if n is dim:
            VARDIM[w.args[0]] = n
            return bind(kind, (w,), (n,), b2, extra)
        return None
    lamc, n = o.args[1][0], o.args[1][1]       # sel(lam cond, n, i)
    if dim is not count_lam(lamc, n):
        return None
    VARDIM[w.args[0]] = n
    c = apply_lam(lamc, (w,))
    if kind == 'sum':
        return bind('sum', (w,), (n,), ite(c, b2, ZERO), extra)
    if kind == 'any':
        return bind('any', (w,), (n,), and_(c, b2))
    if kind == 'all':
        return bind('all', (w,), (n,), or_(not_(c), b2))
    if kind in ('min', 'max'):
        return bind(kind, (w,), (n,), ite(c, b2, INF if kind == 'min' else NINF), extra)
    return None


def count_lam(lamc, n):
    w = fresh('c', n)
    return bind('sum', (w,), (n,), tonum(apply_lam(lamc, (w,))))


# ------------------------------------------------------------------ intervals and signs
_IV = {}
_OPENED = {}
NEGINF, POSINF = float('-inf'), float('inf')


def interval(t):
    """(lo, lo_open, hi, hi_open) with infinite float bounds"""
    if t.op == 'var':
        return _interval(t)
    k = (VER[0], t)         # ranges of index variables and facts about symbols change with the version
    r = _IV.get(k)
    if r is None:
        r = _IV[k] = _interval(t)
    return r


def _f(c):
    try:
        return float(c)
    except OverflowError:
        return POSINF if c > 0 else NEGINF


def _iv_mul(a, b):
    if a == (0, False, 0, False) or b == (0, False, 0, False):
        return (0.0, False, 0.0, False)
    c = []
    for x, xo in ((a[0], a[1]), (a[2], a[3])):
        for y, yo in ((b[0], b[1]), (b[2], b[3])):
            if x == 0 or y == 0:
                p = 0.0
                if x == 0 and y == 0:
                    o = xo and yo if False else (xo or yo)
                elif x == 0:
                    o = xo
                else:
                    o = yo
            else:
                p = x * y
                o = xo or yo
            c.append((p, o))
    lo = min(p for p, _ in c)
    hi = max(p for p, _ in c)
    lo_o = all(o for p, o in c if p == lo)
    hi_o = all(o for p, o in c if p == hi)
    return (lo, lo_o, hi, hi_o)


def _iv_pow(iv, e):
    lo, lop, hi, hop = iv
    if e.denominator == 1 and int(e) % 2 == 0 and e > 0:
        k = int(e)
        if lo >= 0:
            return (_p(lo, k), lop, _p(hi, k), hop)
        if hi <= 0:
            return (_p(-hi, k), hop, _p(-lo, k), lop)
        m = max(-lo, hi)
        return (0.0, False, _p(m, k), False)
    if e > 0 and (lo >= 0 or e.denominator % 2 == 1 and e.denominator == 1):
        if lo >= 0:
            return (_p(lo, e), lop, _p(hi, e), hop)
        if int(e) % 2 == 1:
            return (-_p(-lo, e) if lo < 0 else _p(lo, e), lop, _p(hi, e) if hi >= 0 else -_p(-hi, e), hop)
    if e < 0:
        if lo > 0 or (lo == 0 and lop):
            return (_p(hi, e) if hi != POSINF else 0.0, True if hi == POSINF else hop,
                    _p(lo, e) if lo > 0 else POSINF, lop if lo > 0 else False)
        if lo == 0:      # may divide by zero: result positive (or inf)
            return (_p(hi, e) if hi != POSINF else 0.0, hi == POSINF, POSINF, False)
        if e.denominator == 1 and int(e) % 2 == 0:
            return (0.0, True, POSINF, False)
        if (hi < 0 or hi == 0) and e.denominator == 1:
            return (NEGINF, False, 0.0, True)
    if e.denominator == 2:
        return (0.0, False, POSINF, False) if e > 0 else (0.0, True, POSINF, False)
    return (NEGINF, False, POSINF, False)


def _p(x, e):
    if x == POSINF:
        return POSINF if e > 0 else 0.0
    try:
        return float(x) ** float(e)
    except (OverflowError, ZeroDivisionError):
        return POSINF


def _iv_add(a, b):
    return (a[0] + b[0], a[1] or b[1], a[2] + b[2], a[3] or b[3])


FULL = (NEGINF, False, POSINF, False)
NN = (0.0, False, POSINF, False)
PP = (0.0, True, POSINF, False)


def _interval(t):
    op = t.op
    if op == 'num':
        f = _f(t.args[0])
        return (f, False, f, False)
    if op == 'pi':
        return (math.pi, False, math.pi, False)
    if op == 'inf':
        return (POSINF, False, POSINF, False)
    if op == 'ninf':
        return (NEGINF, False, NEGINF, False)
    if op == 'sym':
        i = SYM.get(t.args[0], {})
        return (float(i.get('lo', NEGINF)), i.get('lo_open', False), float(i.get('hi', POSINF)), i.get('hi_open', False))
    if op == 'var':
        d = vrange(t)
        if d is not None and isnum(d):
            return (0.0, False, _f(d.args[0]) - 1, False)
        if '#' in t.args[0] or d is not None or t.args[0].startswith('a'):
            return NN
        return FULL
    if op == 'bv':
        return NN
    if op == 'poly':
        tot = (0.0, False, 0.0, False)
        for m, c in t.args[0]:
            f = _f(c)
            iv = (f, False, f, False)
            for a, e in m:
                iv = _iv_mul(iv, _iv_pow(interval(a), e))
            tot = _iv_add(tot, iv)
        if any(x != x for x in (tot[0], tot[2])):
            return FULL
        if tot[0] < 0 < tot[2]:
            # index arithmetic: v - dim etc.
            r = _range_bound(t)
            if r is not None:
                return r
            r = _square(t)
            if r:
                return NN
        return tot
    if op == 'ite':
        a, b = interval(t.args[1]), interval(t.args[2])
        lo = min(a[0], b[0])
        hi = max(a[2], b[2])
        return (lo, all(o for l, o in ((a[0], a[1]), (b[0], b[1])) if l == lo), hi,
                all(o for l, o in ((a[2], a[3]), (b[2], b[3])) if l == hi))
    if op == 'fn':
        n, a = t.args
        if n == 'exp':
            iv = interval(a[0])
            return (0.0 if iv[0] == NEGINF else _exp(iv[0]), iv[0] == NEGINF or iv[1], _exp(iv[2]), iv[3])
        if n == 'abs':
            return NN
        if n in ('max', 'min'):
            ivs = [interval(x) for x in a]
            if n == 'max':
                lo = max(i[0] for i in ivs)
                hi = max(i[2] for i in ivs)
                return (lo, any(i[1] for i in ivs if i[0] == lo), hi, all(i[3] for i in ivs if i[2] == hi))
            lo = min(i[0] for i in ivs)
            hi = min(i[2] for i in ivs)
            return (lo, all(i[1] for i in ivs if i[0] == lo), hi, any(i[3] for i in ivs if i[2] == hi))
        if n in ('floor', 'ceil', 'trunc', 'round'):
            iv = interval(a[0])
            fl = math.floor
            lo = iv[0] if math.isinf(iv[0]) else fl(iv[0])
            hi = iv[2] if math.isinf(iv[2]) else math.ceil(iv[2])
            if n == 'ceil':
                lo = iv[0] if math.isinf(iv[0]) else (fl(iv[0]) + 1 if iv[1] and fl(iv[0]) == iv[0] else math.ceil(iv[0]))
            if n == 'trunc' and lo < 0 <= iv[0]:
                lo = 0
            return (lo, False, hi, False)
        if n == 'gamma':
            return PP
        if n == 'det':
            return PP
        if n == 'cholU':
            if a[0] is a[1]:
                return PP
            return FULL
        if n == 'inv':
            if a[0] is a[1]:
                return PP
            return FULL
        if n in ('sel', 'selm', 'rank', 'rankm', 'perm', 'mod', 'floordiv', 'count', 'choice', 'searchsorted', 'argmin', 'argmax'):
            return NN
        if n == 'log':
            iv = interval(a[0])
            if iv[0] >= 1:
                return (0.0, iv[0] == 1 and iv[1], POSINF, False)
            return FULL
        if n == 'pow':
            if interval(a[0])[0] >= 0:
                return PP if _pos(a[0]) else NN
            return FULL
        i = FN_INFO.get(n)
        if i:
            return i.get('iv', FULL)
        return FULL
    if op == 'bind':
        k = t.args[0]
        if k in ('min', 'max', 'sum', 'prod'):
            body = _OPENED.get(t)
            if body is None:
                body = _OPENED[t] = open_(t)[1]
            iv = interval(body)
            if k in ('min', 'max'):
                if iv == (POSINF, False, POSINF, False) or iv == (NEGINF, False, NEGINF, False):
                    return iv
                b = body
                if b.op == 'ite' and (b.args[2] in (INF, NINF) or b.args[1] in (INF, NINF)):
                    x = b.args[1] if b.args[2] in (INF, NINF) else b.args[2]
                    iv = interval(x)
                    return iv
                return iv
            d = t.args[2][0]
            if k == 'sum':
                div_ = interval(d)
                dpos = div_[0] > 0 or (div_[0] == 0 and div_[1])
                if iv[0] >= 0:
                    n0 = div_[0] if div_[0] > 0 else 0
                    return (iv[0] * n0 if iv[0] > 0 and n0 > 0 and not math.isinf(iv[0]) else 0.0,
                            (iv[1] and dpos) or False if iv[0] == 0 else False, POSINF if math.isinf(iv[2]) or math.isinf(div_[2]) else iv[2] * div_[2], False)
                if iv[2] <= 0:
                    return (NEGINF, False, 0.0, iv[3] and dpos and iv[2] == 0)
        return FULL
    return FULL


FN_INFO = {}


def _exp(x):
    if x == NEGINF:
        return 0.0
    try:
        return math.exp(x)
    except OverflowError:
        return POSINF


def _range_bound(t):
    """replace index variables by their upper end when they occur linearly: v <= dim-1"""
    d = _poly(t)
    m = {}
    for mono, c in d.items():
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'var':
            v = mono[0][0]
            dim = vrange(v)
            if dim is not None and sum(1 for mm in d for a, e in mm if a is v) == 1:
                m[v] = (c, dim)
    if not m:
        return None
    hi_m = {v: (sub(dim, ONE) if c > 0 else ZERO) for v, (c, dim) in m.items()}
    lo_m = {v: (ZERO if c > 0 else sub(dim, ONE)) for v, (c, dim) in m.items()}
    h = subst(t, hi_m)
    l = subst(t, lo_m)
    if h.op == 'poly' and h is t or l is t:
        return None
    ih, il = interval(h), interval(l)
    if ih[2] < POSINF or il[0] > NEGINF:
        return (il[0], False, ih[2], False)
    return None


def _square(t):
    """perfect squares  (a-b)^2 = a^2 - 2ab + b^2 and sums of variances: recognise simple 3-term squares"""
    d = _poly(t)
    if len(d) != 3:
        return False
    sq = [(m, c) for m, c in d.items() if all(e.denominator == 1 and int(e) % 2 == 0 for a, e in m) and c > 0]
    if len(sq) < 2:
        return False
    for (m1, c1), (m2, c2) in ((sq[0], sq[1]),):
        r1, r2 = _sqrt_frac(c1), _sqrt_frac(c2)
        if r1 is None or r2 is None:
            return False
        h1 = tuple((a, e / 2) for a, e in m1)
        h2 = tuple((a, e / 2) for a, e in m2)
        c, mm = _mono_mul(h1, h2)
        cc = d.get(mm)
        if cc is not None and abs(cc) == 2 * r1 * r2 * c:
            return True
    return False


def _sqrt_frac(c):
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def sign(t):
    lo, lop, hi, hop = interval(t)
    if lo > 0 or (lo == 0 and lop):
        return '+'
    if hi < 0 or (hi == 0 and hop):
        return '-'
    return None


def nonneg(t):
    return interval(t)[0] >= 0


def isint(t):
    op = t.op
    if op == 'num':
        return t.args[0].denominator == 1
    if op == 'sym':
        return bool(SYM.get(t.args[0], {}).get('int'))
    if op in ('var', 'bv'):
        return True
    if op == 'poly':
        if all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and isint(a) for a, e in m) for m, c in t.args[0]):
            return True
        return False
    if op == 'ite':
        return isint(t.args[1]) and isint(t.args[2])
    if op == 'fn':
        if t.args[0] in ('floor', 'ceil', 'trunc', 'round', 'sel', 'selm', 'rank', 'rankm', 'perm', 'floordiv', 'choice', 'searchsorted',
                         'argmin', 'argmax', 'count'):
            return True
        if t.args[0] == 'mod':
            return all(isint(x) for x in t.args[1])
        if t.args[0] in ('max', 'min'):
            return all(isint(x) for x in t.args[1])
        return bool(FN_INFO.get(t.args[0], {}).get('int'))
    if op == 'bind':
        if t.args[0] in ('sum', 'min', 'max'):
            return isint(t.args[3])
    return False


def finite(t):
    """provably a finite number (inputs are assumed finite unless declared otherwise)"""
    if t.op in ('inf', 'ninf', 'nan'):
        return False
    if t.op == 'sym':
        return SYM.get(t.args[0], {}).get('finite', True)
    if t.op in ('num', 'pi', 'var', 'bv'):
        return True
    if t.op == 'bind':
        if t.args[0] == 'lam':
            return True
        return finite(t.args[3])
    if t.op == 'ite':
        return finite(t.args[1]) and finite(t.args[2])
    return all(finite(k) for k in _kids(t.args) if not isbool(k))


# ------------------------------------------------------------------ facts
class Facts:
    """A conjunction of conditions assumed to hold; decides implied comparisons (difference bounds)."""

    def __init__(self, conds=()):
        self.conds = []
        self.known = set()
        self.bounds = {}
        for c in conds:
            self.add(c)

    def add(self, c):
        c = truth(c)
        if c is TRUE or c in self.known:
            return
        if c.op == 'and':
            for x in c.args:
                self.add(x)
            return
        self.conds.append(c)
        self.known.add(c)
        f = _bound_form(c)
        if f is not None:
            nc, k, st = f
            o = self.bounds.get(nc)
            if o is None or (k, st) > o:
                self.bounds[nc] = (k, st)
        elif c.op == 'cmp' and c.args[0] == '==':
            for p in (c.args[1], neg(c.args[1])):
                f = _bound_form(mk('cmp', '<=', p))
                if f:
                    o = self.bounds.get(f[0])
                    if o is None or (f[1], f[2]) > o:
                        self.bounds[f[0]] = (f[1], f[2])

    def decide(self, c):
        """TRUE / FALSE / None"""
        if c is TRUE or c is FALSE:
            return c
        if not self.known:
            return None
        if c in self.known:
            return TRUE
        n = not_(c)
        if n in self.known:
            return FALSE
        if c.op == 'cmp' and c.args[0] in ('<', '<='):
            if self._implied(c):
                return TRUE
            if self._implied(n):
                return FALSE
        elif c.op == 'cmp':
            if self._implied(mk('cmp', '<', c.args[1])) or self._implied(mk('cmp', '<', neg(c.args[1]))):
                return FALSE
            if self._implied(mk('cmp', '<=', c.args[1])) and self._implied(mk('cmp', '<=', neg(c.args[1]))):
                return TRUE
        elif c.op == 'and':
            ds = [self.decide(x) for x in c.args]
            if any(d is FALSE for d in ds):
                return FALSE
            if all(d is TRUE for d in ds):
                return TRUE
        elif c.op == 'or':
            ds = [self.decide(x) for x in c.args]
            if any(d is TRUE for d in ds):
                return TRUE
            if all(d is FALSE for d in ds):
                return FALSE
        elif c.op == 'not':
            d = self.decide(c.args[0])
            return None if d is None else not_(d)
        if c.op == 'cmp':
            for k in self.known:
                # resolve disjunctions with a single undecided branch
                pass
        return None

    def _implied(self, c):
        f = _bound_form(c)
        if f is None:
            return c in self.known
        nc, k, st = f
        o = self.bounds.get(nc)
        if o is not None and (o[0] > k or (o[0] == k and (o[1] or not st))):
            return True
        if isint(nc):
            # integers: x < a  <=>  x <= a-1
            if o is not None and o[1] and not st and o[0] + 1 >= k:
                return True
            if o is not None and o[1] and st and o[0] >= k:
                return True
            if o is not None and not o[1] and st and o[0] > k:
                return True
        # one bound plus interval of the difference
        for bnc, (bk, bst) in self.bounds.items():
            d = sub(add(nc, num(k)), add(bnc, num(bk)))
            lo, lop, hi, hop = interval(d)
            if hi < 0 or (hi == 0 and (bst or hop or not st)):
                return True
        return False

    def simplify(self, t):
        """rewrite conditions decided by the facts"""
        if not self.known:
            return t
        memo = {}

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if isbool(t):
                d = self.decide(t)
                if d is not None:
                    memo[t] = d
                    return d
            r = rebuild(t, go)
            memo[t] = r
            return r
        return go(t)


# ------------------------------------------------------------------ display
def show(t, depth=0):
    if depth > 14:
        return '…'
    d = depth + 1
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0])
    if op in ('inf', 'ninf', 'nan', 'true', 'false', 'pi'):
        return {'ninf': '-inf'}.get(op, op)
    if op in ('sym', 'bsym'):
        return a[0] + ('[' + ','.join(show(x, d) for x in a[1]) + ']' if a[1] else '')
    if op == 'var':
        return a[0]
    if op == 'bv':
        return f'b{a[0]}'
    if op == 'poly':
        parts = []
        its = a[0]
        for m, c in its[:12]:
            fs = []
            for x, e in m:
                s = show(x, d)
                if x.op in ('poly', 'num'):
                    s = '(' + s + ')'
                fs.append(s if e == 1 else f'{s}^{e}' if e.denominator == 1 and e > 0 else f'{s}^({e})')
            body = '*'.join(fs)
            if not body:
                parts.append(str(c))
            elif c == 1:
                parts.append(body)
            elif c == -1:
                parts.append('-' + body)
            else:
                parts.append(f'{c}*{body}')
        if len(its) > 12:
            parts.append('…')
        return ' + '.join(parts)
    if op == 'cmp':
        return f'({show(a[1], d)} {a[0]} 0)'
    if op in ('and', 'or'):
        return '(' + f' {op} '.join(show(x, d) for x in a) + ')'
    if op == 'not':
        return f'!{show(a[0], d)}'
    if op == 'ite':
        return f'({show(a[0], d)} ? {show(a[1], d)} : {show(a[2], d)})'
    if op == 'fn':
        if a[0] in ('inv', 'cholU'):
            return f'{a[0]}[{show(a[1][0])},{show(a[1][1])}]({", ".join(show(x, d) for x in a[1][3:])})'
        return f'{a[0]}(' + ', '.join(show(x, d) for x in a[1]) + ')'
    if op == 'bind':
        return f'{a[0]}[{",".join("b%d<%s" % (l, show(n, d)) for l, n in zip(a[1], a[2]))}]({show(a[3], d)}' + \
            (('; ' + ', '.join(show(x, d) for x in a[4])) if a[4] else '') + ')'
    return op
