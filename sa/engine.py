"""Obligations, verdicts, evidence and findings of the checks."""
import ast
import json
import os
import pickle
import resource
import selectors
import signal
import sys
import time
import traceback

from . import terms as tm
from . import interp as ip
from . import compare as cp
from .compare import V, Unknown
from .rint import Table
from .scen import World, Scn, Missing, Outcome
from .terms import T, TRUE, FALSE

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = ip.REPO
HOLDS, VIOLATED, UNDECIDED = 'discharged', 'violated', 'undecided'


def locstr(loc):
    """(module, line) -> path:line (function)"""
    if not loc:
        return 'unknown location'
    mod, line = loc
    rel = mod.replace('.', '/')
    path = os.path.join(REPO, rel + '.py')
    if not os.path.exists(path):
        path = os.path.join(REPO, rel, '__init__.py')
        rel = rel + '/__init__'
    fn = func_at(path, line)
    return f'{rel}.py:{line}' + (f' ({fn})' if fn else '')


_FN = {}


def func_at(path, line):
    if path not in _FN:
        out = []
        try:
            tree = ip.parse_module(path)
        except (OSError, SyntaxError):
            _FN[path] = []
            return None

        def go(n, pre):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    q = pre + c.name
                    if isinstance(c, ast.FunctionDef):
                        out.append((c.lineno, c.end_lineno, q))
                    go(c, q + '.')
                else:
                    go(c, pre)
        go(tree, '')
        _FN[path] = out
    best = None
    for a, b, q in _FN[path]:
        if a <= line <= b and (best is None or a >= best[0]):
            best = (a, b, q)
    return best[2] if best else None


class Ob:
    def __init__(self, key, verdict, rule, detail='', loc=None, how='', wall=0.0):
        self.key, self.verdict, self.rule, self.detail, self.loc, self.how, self.wall = key, verdict, rule, detail, loc, how, wall


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []
        self.worlds = []
        self.t0 = time.time()
        self.notes = []
        self.queue = []
        self.calls = {}
        self.lines = set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def world(self, **kw):
        w = World(**kw)
        w.I.load_file('spec', os.path.join(VERIF, 'sa', 'spec', 'ref.py'))
        w.base = w.I.st
        self.worlds.append(w)
        return w

    def add(self, key, verdict, rule, detail='', loc=None, how='', wall=0.0):
        self.obs.append(Ob(key, verdict, rule, detail, loc, how, wall))

    # ------------------------------------------------------------ guarded scenario
    def case(self, key, rule, f, *args, limit=None):
        """queue one obligation function f(check, key, *args); each runs in a process of its own from the same start"""
        self.queue.append((key, rule, f, args, limit))

    def run_case(self, key, rule, f, args):
        """limits of the analysis make an obligation undecided"""
        t0 = time.time()
        n = len(self.obs)
        try:
            f(self, key, *args)
        except Missing as e:
            self.add(key, UNDECIDED, rule, f'public name not found: {e}')
        except Unknown as e:
            self.add(key, UNDECIDED, rule, f'unknown: {e}')
        except ip.Undecided as e:
            self.add(key, UNDECIDED, rule, str(e))
        except ip.Dead:
            self.add(key, UNDECIDED, rule, 'no normal path in the scenario set-up')
        except RecursionError:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            self.add(key, UNDECIDED, rule, 'recursion limit of the analysis')
        except MemoryError:
            self.add(key, UNDECIDED, rule, 'memory limit of the analysis')
        except Exception as e:                      # noqa: limits of the analysis
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.add(key, UNDECIDED, rule, f'analysis limit {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})')
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        for o in self.obs[n:]:
            o.wall = o.wall or time.time() - t0
        return self.obs[n:]

    def flush(self):
        """run the queued cases, several at a time"""
        limit = 600 if self.thorough else 150
        deadline = self.t0 + (3000 if self.thorough else 780)
        only = os.environ.get('SA_ONLY')
        todo = list(enumerate(self.queue))
        if only:
            todo = [(i, q) for i, q in todo if only in q[0]]
        self.queue = []
        results = {}
        running = {}
        sel = selectors.DefaultSelector()
        nproc = max(1, min(8, os.cpu_count() or 1))
        sys.stdout.flush()
        while todo or running:
            while todo and len(running) < nproc and time.time() < deadline:
                i, (key, rule, f, args, lim) = todo.pop(0)
                r, wfd = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                        obs = self.run_case(key, rule, f, args)
                        calls, lines = {}, set()
                        for w in self.worlds:
                            for k, n in w.I.calls.items():
                                calls[k] = calls.get(k, 0) + n
                            lines |= w.I.visited
                        with os.fdopen(wfd, 'wb') as fh:
                            pickle.dump(([(o.key, o.verdict, o.rule, o.detail, o.loc, o.how, o.wall) for o in obs], calls, lines), fh)
                    except BaseException:           # noqa
                        code = 3
                    os._exit(code)
                os.close(wfd)
                os.set_blocking(r, False)
                running[r] = [pid, i, key, rule, time.time() + min(lim or limit, limit), []]
                sel.register(r, selectors.EVENT_READ)
            if not running:
                for i, (key, rule, f, args, lim) in todo:
                    results[i] = [Ob(key, UNDECIDED, rule, 'time limit of the check')]
                todo = []
                break
            for k, _ in sel.select(timeout=1.0):
                r = k.fd
                chunk = os.read(r, 1 << 20)
                if chunk:
                    running[r][5].append(chunk)
                    continue
                pid, i, key, rule, end, buf = running.pop(r)
                sel.unregister(r)
                os.close(r)
                os.waitpid(pid, 0)
                results[i] = self.collect(key, rule, b''.join(buf))
            now = time.time()
            for r in [r for r in running if running[r][4] < now]:
                pid, i, key, rule, end, buf = running.pop(r)
                sel.unregister(r)
                os.close(r)
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                results[i] = [Ob(key, UNDECIDED, rule, 'time limit of the obligation')]
        for i in sorted(results):
            for o in results[i]:
                self.obs.append(o)
                if os.environ.get('SA_VERBOSE'):
                    print(f'{o.wall:6.2f}s {o.verdict:10s} {o.key}  {o.how} {o.detail[:300]} {locstr(o.loc) if o.loc else ""}')

    def collect(self, key, rule, data):
        try:
            obs, calls, lines = pickle.loads(data)
        except Exception:                           # noqa
            return [Ob(key, UNDECIDED, rule, 'the analysis of this obligation did not finish')]
        for k, n in calls.items():
            self.calls[k] = self.calls.get(k, 0) + n
        self.lines |= lines
        return [Ob(*o) for o in obs]

    # ------------------------------------------------------------ tables
    def tables(self, names, pc, n, rng=(), over=None, tries=60):
        """valuations of the inputs that satisfy the scenario's assumptions"""
        out = []
        unk = None
        for k in range(tries):
            tb = Table(f'{k}', names, rng, over)
            try:
                if all(tb.truth(c) for c in pc):
                    out.append(tb)
            except Unknown as e:
                unk = e
            if len(out) >= n:
                break
        if not out and unk is not None:
            raise unk
        return out

    # ------------------------------------------------------------ conformance to a specification
    def conform(self, key, scn, code, spec, names, rule, ntab=6, over=None, result=None, rel=1e-7, raises=True, perms=True):
        """the abstract value of `code` must be the value number of `spec`

        code, spec: functions run from the same abstract state; names: input symbols of the scenario"""
        I = scn.I
        base = I.st
        I.rng_log = []
        oc = scn.run(code)
        if oc.undecided:
            return self.add(key, UNDECIDED, rule, oc.undecided)
        I.st = base.fork()
        I.rng_log = []
        os_ = scn.run(spec)
        if os_.undecided or not os_.ok:
            return self.add(key, UNDECIDED, rule, 'specification: ' + str(os_.undecided or [(e[1].cls, e[1].msg, e[1].loc) for e in os_.raises][:2]))
        return self.judge(key, scn, base, oc, os_, names, rule, ntab, over, rel, raises)

    def judge(self, key, scn, base, oc, os_, names, rule, ntab=6, over=None, rel=1e-7, raises=True, perms=True):
        I = scn.I
        rng = oc.rng if len(oc.rng) >= len(os_.rng) else os_.rng
        names = set(names) | scn.inputs
        tabs = None
        # paths that leave with an exception although the input is valid
        if raises or not oc.ok:
            for st, ex in oc.raises:
                if tabs is None:
                    tabs = self.tables(names, base.pc, ntab, rng, over)
                hit = self.reachable(st.pc[len(base.pc):], base.pc, tabs)
                if hit:
                    return self.add(key, VIOLATED, rule, f'valid input reaches {ex.cls} ({ex.msg})' + self.witness(hit), ex.loc)
        if not oc.ok:
            return self.add(key, UNDECIDED, rule, 'every abstract path raises: ' + '; '.join(f'{e.cls} {e.msg} at {locstr(e.loc)}' for _, e in oc.raises[:2]))
        vc, vs = V(I, oc.st, oc.value), V(I, os_.st, os_.value)
        sc, ss = cp.skeleton(vc), cp.skeleton(vs)
        if sc == ss and not cp.hasunknown(sc):
            return self.add(key, HOLDS, rule, how='value numbers are identical')
        if tabs is None or len(tabs) < ntab * 2:
            tabs = self.tables(names, base.pc, ntab * 2, rng, over)
        if not tabs:
            return self.add(key, UNDECIDED, rule, 'no valuation satisfies the scenario')
        perm_list = rng_perms(oc.rng, os_.rng)
        nseen = 0
        res = None
        for pm in perm_list:
            res, nseen = self.separate(vc, vs, tabs, oc.st.pc[len(base.pc):], rel, pm)
            if res is None:
                if nseen:
                    extra = directed(code_conds(sc, ss, oc.st.pc[len(base.pc):]), tabs, base.pc)
                    if extra:
                        res, n2 = self.separate(vc, vs, extra, oc.st.pc[len(base.pc):], rel, pm)
                        nseen += n2
                if res is None:
                    break
        if res is None:
            if nseen == 0:
                return self.add(key, UNDECIDED, rule, 'the analysis does not know the result')
            return self.add(key, HOLDS, rule, how=f'value graphs agree on {nseen} valuations')
        d = res
        if cp.hasunknown(sc) and d == '?':
            return self.add(key, UNDECIDED, rule, 'part of the result is unknown to the analysis')
        if not same_kinds(oc.rng, os_.rng) and any(getattr(t, 'variates', False) for t in tabs):
            return self.add(key, UNDECIDED, rule, 'random variates of another kind than the specification')
        locs = self.blame(vc, vs, sc, ss)
        return self.add(key, VIOLATED, rule, d, locs[0] if locs else None)

    def valid_raises(self, key, scn, base, oc, names, rule, ntab=6, over=None):
        """a valid input must not leave with an exception; True when an obligation was recorded"""
        if oc.undecided:
            self.add(key, UNDECIDED, rule, oc.undecided)
            return True
        names = set(names) | scn.inputs
        if oc.raises:
            tabs = self.tables(names, base.pc, ntab, oc.rng, over)
            for st, ex in oc.raises:
                hit = self.reachable(st.pc[len(base.pc):], base.pc, tabs)
                if hit:
                    self.add(key, VIOLATED, rule, f'valid input reaches {ex.cls} ({ex.msg})' + self.witness(hit), ex.loc)
                    return True
        if not oc.ok:
            self.add(key, UNDECIDED, rule, 'every abstract path raises')
            return True
        return False

    def prove(self, key, scn, base, oc, cond, names, rule, detail='', ntab=12, over=None, loc=None):
        """the condition holds for every input of the scenario"""
        I = scn.I
        I.st = oc.st
        names = set(names) | scn.inputs
        c = I.decide(tm.truth(cond))
        if c is TRUE:
            return self.add(key, HOLDS, rule, how='implied (intervals, signs and path facts)')
        parts = c.args if c.op == 'and' else (c,)
        n = 0
        for tb in self.tables(names, base.pc, ntab, oc.rng, over):
            try:
                if not all(tb.truth(x) for x in oc.st.pc[len(base.pc):]):
                    continue
                for p in parts:
                    if not tb.truth(p):
                        hp = Table(tb.seed, tb.names, tb.rng, tb.over)
                        hp.hp = True
                        if hp.truth(p):
                            continue
                        ls = [x.loc for x in tm.find(p, lambda x: True) if x.loc and str(x.loc[0]).startswith('kalepy')]
                        return self.add(key, VIOLATED, rule, detail + f': {tm.show(p)[:200]} fails' + self.witness(tb), loc or (ls[0] if ls else None))
                n += 1
            except Unknown:
                continue
        if n:
            return self.add(key, HOLDS, rule, how=f'no counterexample on {n} valuations of the value graph')
        return self.add(key, UNDECIDED, rule, 'the condition is not known to the analysis')

    def reachable(self, pc, base, tabs):
        hit, unk = self.feasible(pc, tabs)
        if not hit:
            hit, unk = self.feasible(pc, directed(conds_of(pc), tabs, base))
        return hit

    def feasible(self, pc, tabs):
        unk = False
        for tb in tabs:
            try:
                if all(tb.truth(c) for c in pc):
                    return tb, unk
            except Unknown:
                unk = True
        return None, unk

    def separate(self, vc, vs, tabs, pc, rel, pm):
        """description of a difference on some valuation, or None"""
        n = 0
        for tb in tabs:
            tb2 = tb
            try:
                b = cp.concrete(vs, tb)
            except Unknown:
                continue
            if pm:
                tb2 = Table(tb.seed, tb.names, tb.rng, tb.over)
                tb2.draw = permuted(tb2, pm)
            try:
                if pc and not all(tb2.truth(c) for c in pc):
                    continue
                a = cp.concrete(vc, tb2)
            except Unknown:
                continue
            n += 1
            d = cp.diff(a, b, 'result', rel)
            if d:
                d = self.confirm(vc, vs, tb, pm, pc, rel)
            if d:
                return d + self.witness(tb), n
        return None, n

    def confirm(self, vc, vs, tb, pm, pc, rel):
        """the same valuation in 50 digit arithmetic: rounding must not look like a difference"""
        ta = Table(tb.seed, tb.names, tb.rng, tb.over)
        ta.hp = True
        tc = Table(tb.seed, tb.names, tb.rng, tb.over)
        tc.hp = True
        if pm:
            tc.draw = permuted(tc, pm)
        try:
            if pc and not all(tc.truth(c) for c in pc):
                return None
            return cp.diff(cp.concrete(vc, tc), cp.concrete(vs, ta), 'result', rel, 1e-25)
        except Unknown:
            return None

    def witness(self, tb):
        w = []
        for (nm, ix), v in list(tb.vals.items()):
            if not ix and not isinstance(v, bool):
                w.append(f'{nm}={v:.4g}' if isinstance(v, float) else f'{nm}={v}')
        return (' for ' + ', '.join(sorted(w)[:8])) if w else ''

    def blame(self, vc, vs, sc, ss):
        """source lines of value-graph nodes that the specification does not have"""
        tc, ts = leaves(sc), leaves(ss)
        spec = set()
        for t in ts:
            spec.update(tm.find(t, lambda x: True))
        cnt = {}
        for t in tc:
            for x in tm.find(t, lambda x: x not in spec):
                if x.loc and isinstance(x.loc, tuple) and str(x.loc[0]).startswith('kalepy'):
                    cnt[x.loc] = cnt.get(x.loc, 0) + 1
        return sorted(cnt, key=lambda k: -cnt[k])

    # ------------------------------------------------------------ results
    def finish(self):
        self.flush()
        known = load_known(self.pid)
        viol = [o for o in self.obs if o.verdict == VIOLATED]
        und = [o for o in self.obs if o.verdict == UNDECIDED]
        ok = [o for o in self.obs if o.verdict == HOLDS]
        new, old = [], []
        for o in viol:
            (old if o.key in known else new).append(o)
        funcs, lines = self.calls, self.lines
        funcs = {k: v for k, v in funcs.items() if k.startswith('kalepy')}
        nlines = len([x for x in lines if x[0].startswith('kalepy')])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'abstract interpretation of the current source of kalepy from its public entry points (value numbering with '
                               'joins at merge points and loop summaries, effect events); each obligation names the rule that decided it',
                'obligations': len(self.obs), 'discharged': len(ok), 'undecided': len(und), 'violated': len(viol), 'known': len(old),
                'identical_value_numbers': sum(1 for o in ok if 'identical' in o.how),
                'functions_analysed': len(funcs), 'abstract_calls': sum(funcs.values()), 'statements_analysed': nlines,
                'functions': sorted(funcs)[:80],
                'rules': sorted({o.rule for o in self.obs}),
                'items': [{'obligation': o.key, 'verdict': o.verdict, 'how': o.how, 'detail': o.detail[:400],
                           'where': locstr(o.loc) if o.loc else ''} for o in self.obs],
            },
            'wall_s': round(time.time() - self.t0, 3),
        }
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for o in old:
            print(f'KNOWN-FINDING: property={self.pid} {o.key}: {o.detail[:200]}')
        if new:
            path = os.path.join(VERIF, 'evidence', self.pid + '.replay.txt')
            with open(path, 'w') as f:
                for o in new:
                    f.write(f'{o.key}\n  rule: {o.rule}\n  at: {locstr(o.loc) if o.loc else "?"}\n  {o.detail}\n')
            for o in new[:20]:
                print(f'{o.key}: {o.detail[:500]} [{locstr(o.loc) if o.loc else "?"}]')
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        print(f'{self.pid}: {len(ok)} obligations discharged, {len(und)} undecided, {len(old)} known findings, {len(funcs)} functions, '
              f'{nlines} statements analysed, {ev["wall_s"]} s')
        return 0


def conds_of(ts):
    """comparisons occurring in the terms"""
    out = []
    for t in ts:
        if isinstance(t, tm.T):
            for x in tm.find(t, lambda x: x.op == 'cmp' or (x.op == 'bsym' and x.args[0] == 'isclose')):
                if x not in out:
                    out.append(x)
    return out


def code_conds(sc, ss, pc):
    """comparisons on which the code depends and its specification does not"""
    spec = set(conds_of(leaves(ss)))
    return [c for c in conds_of(list(leaves(sc)) + list(pc)) if c not in spec]


def directed(conds, tabs, base, limit=14, budget=12.0):
    """valuations on and next to the boundary of the given comparisons: a random valuation never satisfies x == 0"""
    t0 = time.time()
    out, roots = [], {}
    for c in conds:
        if len(out) >= 3 * limit or time.time() - t0 > budget:
            break
        p = c.args[1] if c.op == 'cmp' else None
        for tb in tabs[:2]:
            got = False
            for name, idx, isint, root in solve(c, p, tb):
                got = True
                vals = [root] if c.op != 'cmp' or c.args[0] == '==' else \
                    [root, root - 1, root + 1] if isint else [root, root - 0.3 - 0.1 * abs(root), root + 0.3 + 0.1 * abs(root)]
                for v in vals:
                    tn = pinned(tb, {(name, idx): v})
                    if holds(tn, base):
                        out.append(tn)
                if c.op != 'cmp' or c.args[0] == '==':
                    roots.setdefault((name, idx), root)
                break
            if got:
                break
    if len(roots) > 1 and tabs:
        tn = pinned(tabs[0], roots)
        if holds(tn, base):
            out.append(tn)
    return out


def holds(tb, pc):
    try:
        return all(tb.truth(c) for c in pc)
    except Unknown:
        return False


def pinned(tb, at):
    over = dict(tb.over)
    for nm in {k[0] for k in at}:
        over[nm] = pin(nm, {k[1]: v for k, v in at.items() if k[0] == nm}, tb.over.get(nm))
    return Table(tb.seed, tb.names, tb.rng, over)


def pin(name, at, old):
    def g(tb, idx):
        if idx in at:
            v = at[idx]
            return v
        o = old if old is not None else tm.SYM.get(name, {}).get('gen')
        return o(tb, idx) if callable(o) else o
    return g


def solve(c, p, tb):
    """(symbol, index, integer?, value) making the two sides of the comparison equal"""
    env = {}
    for x in tm.find(c, lambda x: x.op in ('var', 'bv')):
        env[x.args[0] if x.op == 'var' else ('b', x.args[0])] = 0

    def f(t):
        if p is not None:
            return t.ev(p, env)
        x, y = (t.ev(i, env) for i in c.args[1][:2])
        return x - y
    cands = []
    for x in tm.find(c, lambda x: x.op == 'sym' and x.args[0] in tb.names):
        try:
            idx = tuple(int(round(float(tb.ev(i, env)))) for i in x.args[1])
        except Exception:                           # noqa
            continue
        if (x.args[0], idx) not in cands:
            cands.append((x.args[0], idx))
    for name, idx in cands[:6]:
        info = tm.SYM.get(name, {})
        try:
            v0 = tb.draw(name, idx, False)
            f0 = f(pinned(tb, {(name, idx): v0}))
            v1 = v0 + 1
            f1 = f(pinned(tb, {(name, idx): v1}))
            if not (abs(f1 - f0) > 1e-12) or f1 != f1:
                continue
            r = v0 - f0 * (v1 - v0) / (f1 - f0)
            isint = bool(info.get('int')) or isinstance(v0, int)
            if isint:
                r = int(round(r))
                if abs(r) > 60:
                    continue
            else:
                r = float(r)
                if abs(r - round(r, 6)) < 1e-9 * max(1, abs(r)):
                    r = round(r, 6)
                if abs(f(pinned(tb, {(name, idx): r}))) > 1e-9 * max(1.0, abs(f0), abs(f1)):
                    continue
            lo, hi = info.get('lo'), info.get('hi')
            if lo is not None and (r < lo or (r == lo and info.get('lo_open'))) or hi is not None and (r > hi or (r == hi and info.get('hi_open'))):
                continue
            yield name, idx, isint, r
        except Exception:                           # noqa
            continue


def leaves(s):
    if isinstance(s, T):
        return [s]
    if isinstance(s, tuple):
        return [y for x in s for y in leaves(x)]
    return []


def kinds(log):
    d = {}
    for e in log:
        d[e['name']] = d.get(e['name'], 0) + 1
    return d


def same_kinds(a, b):
    return kinds(a) == kinds(b)


def rng_perms(a, b):
    """renamings of the variate blocks of a to those of b of the same kind"""
    import itertools
    yield None
    if not a or not same_kinds(a, b):
        return
    ka, kb = {}, {}
    for log, d in ((a, ka), (b, kb)):
        for i, e in enumerate(log):
            d.setdefault(e['name'], []).append(i)
    n = 0
    for combo in itertools.product(*[list(itertools.permutations(kb[k])) for k in ka]):
        m = {}
        for k, p in zip(ka, combo):
            for x, y in zip(ka[k], p):
                m[f'rng_{k}_{x}'] = f'rng_{k}_{y}'
        if all(x == y for x, y in m.items()):
            continue
        yield m
        n += 1
        if n > 30:
            return


def permuted(tb, pm):
    orig = Table.draw

    def draw(name, idx, isbool):
        return orig(tb, pm.get(name, name), idx, isbool)
    return draw


def load_known(pid):
    """obligation keys of recorded findings of this property"""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f'finding: property={pid} '):
                key = line.split('key=', 1)[1].split(' :: ')[0].strip()
                out.append(key)
    return out
