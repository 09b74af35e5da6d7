"""C02: no write event reaches shared state; nothing is printed."""
from .. import scen
from .effects import root, writes, show, ok, bad, unk

EXPLAIN = ("Abstract interpretation of every public function and method on symbolic arguments. Obligations: every in-place operation "
           "must write to an object created by the call itself (not a module-level object, class attribute, default-argument object or "
           "attribute of the receiving instance), no module variable is rebound, nothing is printed, and an instance's generator is "
           "only drawn from after having been reseeded by the same call.")
ASSUME = ["functions given by the caller have no side effect on the package"]
LIMIT = 100


def scenarios(tier):
    L = scen.library('list', full=tier == 'thorough') + scen.words_opaque()
    return [s for s in L if s.tag('fam') not in ('mean', 'words')]


def judge(sc, run, S):
    I = S.I
    out = []
    rule = 'no trace in shared state'
    for n, e in enumerate(run.log):
        making = n < run.built
        if making and e.kind not in ('mut', 'ins', 'inc', 'del', 'setattr', 'globalset', 'rngglobal'):
            continue
        if e.kind in ('mut', 'ins', 'inc', 'del', 'setattr'):
            if e.get('op') == 'init':
                continue
            r = root(e.target, e.st, I)
            if making and r[0] not in ('global', 'default'):
                continue
            if r[0] in ('global', 'default', 'self'):
                out.append(bad(rule, e.where(), '%s %s on %s object %s' % (e.kind, e.get('op') or e.get('attr') or '', r[0], r[1])))
            elif r[0] == '?':
                out.append(unk(rule, e.where(), '%s on %s' % (e.kind, show(e.target)[:100])))
            else:
                out.append(ok(rule, e.where(), '%s on %s object' % (e.kind, r[0])))
        elif e.kind == 'globalset':
            out.append(bad(rule, e.where(), 'module variable %s.%s is rebound' % (e.mod, e.name)))
        elif e.kind == 'print':
            f = e.kw.get('file')
            out.append(bad('nothing is printed', e.where(), 'print'))
        elif e.kind in ('draw', 'reseed') and e.rng.op == 'obj':
            r = root(e.rng, e.st, I)
            if e.kind == 'draw' and r[0] in ('self', 'global', 'default'):
                init = run.seeds.get(e.rng) if hasattr(run, 'seeds') else None
                if e.seed is init or e.seed.op == 'const' and e.seed.a[1] is None:
                    out.append(bad(rule, e.where(), 'draws from a generator of the instance without reseeding it first'))
                else:
                    out.append(ok(rule, e.where(), 'generator reseeded by the call'))
            elif e.kind == 'reseed' and r[0] in ('global', 'default'):
                out.append(bad(rule, e.where(), 'reseeds a shared generator'))
        elif e.kind == 'rngglobal':
            out.append(bad(rule, e.where(), 'uses the process-wide generator: %s' % e.fn))
    if not run.lossy and not out:
        out.append(ok(rule, sc.fn, 'no write at all'))
    return out
