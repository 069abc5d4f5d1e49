"""P01: no call modifies the arrays, lists or dicts its caller passed in."""
from .common import *  # noqa
from . import corpus

RULE = 'no write through any alias of an object reachable from a caller argument'


def run(ck):
    w = ck.world()
    for key, tags, build in corpus.entries(ck):
        ck.case(key, RULE, one, w, build)


def one(ck, key, w, build):
    s = w.scenario()
    go = build(s)
    base = s.I.st
    o = s.run(go)
    bad = [e for e in o.events if e['kind'] == 'write' and str(e.get('owner') or '').startswith('arg:')]
    if not bad:
        if o.undecided:
            return ck.add(key, UNDECIDED, RULE, o.undecided)
        if not o.ok:
            return ck.add(key, UNDECIDED, RULE, 'no path returns: ' + '; '.join(f'{x.cls} {x.msg} {x.loc}' for _, x in o.raises[:2]))
        if o.unmodelled:
            return ck.add(key, UNDECIDED, RULE, 'calls the analysis does not know: ' + ', '.join(sorted(map(str, o.unmodelled)))[:200])
        return ck.add(key, HOLDS, RULE, how=f'no aliasing write among {sum(1 for e in o.events if e["kind"] == "write")} writes')
    tabs = ck.tables(s.inputs, base.pc, 10, o.rng)
    for e in bad:
        hit, unk = ck.feasible(e['pc'][len(base.pc):], tabs)
        if hit or unk:
            return ck.add(key, VIOLATED, RULE, f'{e["what"]} writes into the caller\'s {e["owner"][4:]} (call path {" > ".join(map(str, e["stack"][-4:]))})', e['loc'])
    ck.add(key, UNDECIDED, RULE, 'writes only on paths no valuation reaches')
