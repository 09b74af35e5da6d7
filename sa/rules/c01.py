"""C01: no write event of a public call reaches an object of its caller."""
from .. import scen
from .effects import root, writes, show, ok, bad, unk

EXPLAIN = ("Abstract interpretation of every public function on symbolic arguments (every option scenario). Each in-place "
           "operation met on a path (append, item assignment, deletion, sort, attribute store, graph mutation, ...) is an "
           "obligation: the object it writes to must not be an argument of the call nor a member of one.")
ASSUME = ["functions given by the caller and library functions outside the package do not modify their arguments, except the modelled mutators"]
LIMIT = 100


def scenarios(tier):
    L = scen.library('list', full=tier == 'thorough') + scen.words_opaque()
    return [s for s in L if s.tag('fam') != 'words']


def judge(sc, run, S):
    I = S.I
    out = []
    for e in writes(run):
        r = root(e.target, e.st, I)
        rule = 'no write to an object of the caller'
        if r[0] == 'arg':
            if sc.tag('remove') and e.kind == 'mut' and str(e.get('op')).startswith('remove_edge'):
                out.append(ok(rule, e.where(), 'edge removal was requested'))
                continue
            if sc.tag('remove') and e.kind == 'ins' and str(e.get('op')).startswith('remove_edge'):
                continue
            out.append(bad(rule, e.where(), '%s %s on %s (argument %s)' % (e.kind, e.get('op') or e.get('attr') or '', show(e.target)[:120], r[1])))
        elif r[0] == '?':
            out.append(unk(rule, e.where(), '%s on %s' % (e.kind, show(e.target)[:100])))
        else:
            out.append(ok(rule, e.where(), '%s on %s object' % (e.kind, r[0])))
    if not run.lossy and not out:
        out.append(ok('no write to an object of the caller', sc.fn, 'no write at all'))
    return out
