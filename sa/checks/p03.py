"""P03: random numbers come from numpy's global generator only, and only where the interface says so."""
from .common import *  # noqa
from . import corpus

RULE = 'no path seeds or replaces numpy\'s global generator, uses another source of randomness, or draws in a deterministic call'
BAD = {'seed': 'touches the state of numpy\'s global generator', 'rng_other': 'uses a generator that is not numpy\'s global one'}


def run(ck):
    w = ck.world()
    ld = [e for e in w.load_events if e['kind'] in ('seed', 'rng', 'rng_other')]
    if ld:
        ck.add('import', VIOLATED, RULE, f'importing the package {BAD.get(ld[0]["kind"], "draws random numbers")}', ld[0]['loc'])
    else:
        ck.add('import', HOLDS, RULE, how=f'no generator use among {len(w.load_events)} effects of the import')
    for key, tags, build in corpus.entries(ck):
        ck.case(key, RULE, one, w, build, tags)


def one(ck, key, w, build, tags):
    draws = 'rng' in tags
    s = w.scenario()
    go = build(s)
    base = s.I.st
    o = s.run(go)
    bad = [e for e in o.events if e['kind'] in BAD or e['kind'] == 'rng' and not draws]
    tabs = ck.tables(s.inputs, base.pc, 10, o.rng) if bad else []
    for e in bad:
        hit, unk = ck.feasible(e['pc'][len(base.pc):], tabs)
        if hit or unk:
            return ck.add(key, VIOLATED, RULE, f'{e.get("name")}: {BAD.get(e["kind"], "draws random numbers in a deterministic call")} '
                          f'(call path {" > ".join(map(str, e["stack"][-4:]))})', e['loc'])
    if o.undecided:
        return ck.add(key, UNDECIDED, RULE, o.undecided)
    if not o.ok:
        return ck.add(key, UNDECIDED, RULE, 'no path returns')
    if o.unmodelled:
        return ck.add(key, UNDECIDED, RULE, 'calls the analysis does not know: ' + ', '.join(sorted(map(str, o.unmodelled)))[:200])
    n = sum(1 for e in o.events if e['kind'] == 'rng')
    if draws and not n and 'plot' not in tags:
        # a sampler that never draws returns the same values for every state of the generator
        return ck.add(key, VIOLATED, RULE, 'the call is documented to draw random values but never uses numpy\'s global generator')
    ck.add(key, HOLDS, RULE, how=f'{n} draws, all from the global generator' if n else 'no draw')
