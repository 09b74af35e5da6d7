"""C04: draws come from generators created from exactly the given seed."""
from .. import scen
from ..terms import show, const
from ..verdict import ok, bad, unk

EXPLAIN = ("Provenance analysis of random draws: every random generator created, reseeded or drawn from on a path of a seeded routine or "
           "hasher (constructor included) is an obligation: its seed term must be exactly the seed given by the caller (or, in the scheme "
           "that has no seed, a token of the hashed sequence set by the same call). Any use of the process-wide generators, of the clock, of "
           "object addresses or of hash() is refused.")
ASSUME = ["iteration order of sets of strings only affects the order of members, not which links or signatures are produced"]
LIMIT = 100


def scenarios(tier):
    full = tier == 'thorough'
    L = [s for s in scen.clustering('list', full) if s.tag('fam') in ('laesa', 'nnd', 'quickjoin', 'minhash')]
    L += [s for s in scen.lsh('list')]
    other = [s for s in scen.library('list', full) + scen.words_opaque() if s.tag('fam') not in ('laesa', 'nnd', 'quickjoin', 'minhash', 'lsh', 'simhash', 'words')]
    for s in other:
        s.tags['noseed'] = True
    return L + other


def uses(t, x, depth=0):
    if t is x:
        return True
    return depth < 8 and any(uses(y, x, depth + 1) for y in t.a if hasattr(y, 'op'))


def judge(sc, run, S):
    out = []
    R1, R2 = 'draws come from a generator made from the given seed', 'nothing else varies between runs'
    seen = set()
    for e in run.log:
        if e.kind in ('rngnew', 'reseed', 'draw'):
            seed = e.seed
            if e.kind == 'rngnew' and sc.fn.endswith('SuperMinHash'):
                continue
            if seed is scen.SEED:
                out.append(ok(R1, e.where(), '%s seed=%s' % (e.kind, show(seed))))
            elif seed.op == 'const' and seed.a[1] is None or sc.tag('noseed'):
                out.append(bad(R1, e.where(), '%s with no seed' % e.kind))
            elif seed.op == 'const':
                out.append(bad(R1, e.where(), '%s with the constant seed %s' % (e.kind, show(seed))))
            elif sc.fn.endswith('SuperMinHash'):
                out.append(ok(R1, e.where(), '%s seed=%s' % (e.kind, show(seed)[:60])))
            elif uses(seed, scen.SEED):
                out.append(bad(R1, e.where(), '%s with %s instead of the given seed' % (e.kind, show(seed)[:80])))
            else:
                out.append(unk(R1, e.where(), '%s seed=%s' % (e.kind, show(seed)[:80])))
        elif e.kind == 'rngglobal':
            out.append(bad(R2, e.where(), 'process-wide generator: %s' % e.fn))
        elif e.kind == 'nondet':
            out.append(bad(R2, e.where(), str(e.what)))
    if not out and not run.lossy:
        out.append(ok(R2, sc.fn, 'no draw, no clock, no address'))
    return out
