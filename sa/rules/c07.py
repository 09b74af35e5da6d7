"""C07: links rest on the criterion."""
import itertools
from fractions import Fraction as F
from .. import scen
from ..terms import T, mk, show, subterms, symbols, kind, cmp_lit, entails, mentions, lit_not, const, num, is_num_const
from ..model import Model, Unknown, Undef, feasible
from ..verdict import ok, bad, unk
from . import links as K

EXPLAIN = ("Every construct that links two items (union of two positions, insertion of an item among the neighbours of another, insertion into a cluster that is "
           "produced directly, insertion into a bucket) is collected from the abstract interpretation, with the path condition under which it is reached; where the "
           "ends were read back from containers, the conditions under which the containers were filled are joined. Obligation: these conditions contain the "
           "acceptance of these two very items (or their keys) by the criterion at the radius. For the built-in criteria the bucket key must be derived from the "
           "item, and the guard of the link is compared with the documented measure in a family of small token sets.")
ASSUME = ["the vantage-point tree of phylactery reports items whose distance to the query is at most the radius"]
LIMIT = 100
R1 = 'a link is reached only when the criterion accepts the two items'
R2 = 'an item is only put in the buckets of its own usable keys'
R4 = 'a cluster is only built from the neighbours of its own members'
R3 = 'a link is reached only when the token-set measure reaches the radius'


def scenarios(tier):
    L = [s for s in scen.clustering('list', True) if tier == 'thorough' or not s.tag('slow')]
    return [s for s in L if s.tag('crit') or s.tag('fam') in ('keycol', 'ii', 'minhash')]


def criterion(t):
    return t.op == 'app' and t.a[0].op == 'sym' and t.a[0].a[0] in ('similarity', 'distance')


def tainted(run):
    """run-local containers whose filling depends on the criterion (they may carry its answers)"""
    bad_ = set()
    recs = []
    for e in run.log:
        if e.kind in ('ins', 'inc', 'del', 'mut') and e.target.op == 'obj':
            recs.append((K.nsite(e.target.a[0]), e))
    n = -1
    while n != len(bad_):
        n = len(bad_)
        for s, e in recs:
            if s in bad_:
                continue
            ts = list(e.facts) + [x for x in (e.get('val'), e.get('key')) if isinstance(x, T)]
            for t in ts:
                if any(criterion(x) or x.op == 'obj' and K.nsite(x.a[0]) in bad_ for x in subterms(t)):
                    bad_.add(s)
                    break
    return bad_


def opaque(f, taint):
    """a path condition that might stand for an acceptance the analysis does not recognise"""
    for x in subterms(f):
        if x.op == 'obj' and K.nsite(x.a[0]) in taint and f.op not in ('le', 'lt', 'eq0'):
            g = f.a[0] if f.op == 'not' else f
            # having or not having been seen before says nothing about this pair when the key is a single item
            if g.op == 'in' and K.itemlike(g.a[0]) and g.a[0].op != 'tuple':
                continue
            return True
        if x.op in ('at', 'cnt') and x.a[0].op == 'obj' and K.nsite(x.a[0].a[0]) in taint:
            return True
        if x.op == 'top' or x.op == 'lib':
            return True
        if x.op == 'lv' and kind(x) not in ('int', 'list', 'set', 'dict') and f.op != 'is':
            return True
        if x.op == 'app' and x.a[0].op == 'sym' and not criterion(x) and x.a[0].a[0] not in ('key', 'keys', 'block', 'blocks'):
            return True
        if x.op == 'app' and x.a[0].op != 'sym':
            return True
    return False


def judge(sc, run, S):
    if run.lossy:
        return [unk(R1, sc.fn, 'not fully analysed: %s' % run.lossy)]
    fam = sc.tag('fam')
    if fam == 'keycol':
        return keycol(sc, run, S)
    if fam in ('ii', 'minhash'):
        return tokens(sc, run, S)
    return crit(sc, run, S)


def crit(sc, run, S):
    R = K.Records(run, S.I)
    acc = K.Acc(sc, S, R)
    taint = tainted(run)
    out = []
    seen = set()
    for a, b, facts, e in direct(run, R, S) if sc.tag('leader') or sc.tag('fam') == 'vptree' else K.links(run):
        if not (K.itemlike(a) or K.readof(a) is not None):
            continue
        for v, d in (single(acc, b, facts) if a is b else K.evidence(R, acc, a, b, facts)):
            if v is True:
                o = ok(R1, e.where(), d)
            elif v is None:
                o = unk(R1, e.where(), str(d)[:160])
            else:
                x, y, fs = d
                why = [f for f in fs if opaque(f, taint)]
                if why or not (readable(x) and readable(y)):
                    o = unk(R1, e.where(), '%s ~ %s: not recognised among %s' % (show(x)[:80], show(y)[:80], '; '.join(show(f)[:80] for f in why)[:200]))
                else:
                    got = [show(f)[:120] for f in fs if any(criterion(z) for z in subterms(f))]
                    o = bad(R1, e.where(), '%s and %s are linked %s' % (show(x)[:80], show(y)[:80],
                            'although the path only guarantees ' + '; '.join(got)[:300] if got else 'without any test of the criterion'))
            if str(o) not in seen:
                seen.add(str(o))
                out.append(o)
    for e, W, v in K.leftovers(run, R, S.I):
        if v:
            out.append(ok(R4, e.where(), 'worklist %s is empty' % show(W)[:40]))
        elif v is None:
            out.append(unk(R4, e.where(), 'worklist %s' % show(W)[:40]))
        else:
            out.append(bad(R4, e.where(), 'a cluster may start with items left over in %s by the previous one, whose traversal can be cut short' % show(W)[:40]))
    if not out:
        out.append(unk(R1, sc.fn, 'no link found'))
    return out


def readable(t):
    return K.is_item(t) or kind(t) == 'int' or K.itemlike(t)


def single(acc, b, facts):
    """membership of a directly produced cluster: some accepted comparison involves the item"""
    for app in acc.mentioned(facts):
        for X in acc.reps(b):
            for i in (1, 2):
                if K.same(app.a[i], X, facts):
                    for l in acc.lits(app.a[1], app.a[2]):
                        if l in facts or entails(facts, l):
                            return [(True, show(l)[:140])]
    return [(False, (b, b, facts))]


def direct(run, R, S):
    """members of clusters that are produced without a graph of links"""
    res = [e for e in run.log if e.kind == 'result']
    sites = {}
    for e in res:
        if e.val.op == 'obj':
            sites[K.nsite(e.val.a[0])] = e
    groups = {}
    for s in sites:
        for e in R.by.get(s, ()):
            if e.kind == 'ins' and e.val is not None and e.val.op != 'splat':
                if e.op == 'init':
                    groups.setdefault((s, id(e.node), frozenset(e.facts)), []).append(e)
                else:
                    yield e.val, e.val, e.facts, e
    for g in groups.values():
        if len(g) > 1:
            for e in g[1:]:
                yield g[0].val, e.val, e.facts, e


# --- key collision --------------------------------------------------------------------------------------------------------
def keycol(sc, run, S):
    out = []
    seen = set()

    def put(o):
        if str(o) not in seen:
            seen.add(str(o))
            out.append(o)
    R = K.Records(run, S.I)
    buckets = set()
    for e in run.log:
        if e.kind == 'ins' and K.ismem(e.target) and K.is_item(e.val):
            k, v = e.target.a[1][0], e.val
            buckets.add(K.nsite(e.target.a[0]))
            own = False
            x = k
            if sc.tag('multi'):
                x = K.bare(k.a[0]) if k.op == 'item' else None
                own = x is not None and x.op == 'app' and x.a[0] is scen.KEYS and x.a[1] is v
            else:
                own = k.op == 'app' and k.a[0] is scen.KEY and k.a[1] is v
            if not own:
                if any(y.op == 'app' and y.a[0] in (scen.KEY, scen.KEYS) for y in subterms(k)) and not any(y.op == 'lv' for y in subterms(k)) and pure(k):
                    put(bad(R2, e.where(), '%s is put in the bucket of %s' % (show(v)[:60], show(k)[:80])))
                elif k is v or not any(y.op == 'app' for y in subterms(k)) and pure(k):
                    put(bad(R2, e.where(), '%s is put in the bucket of %s' % (show(v)[:60], show(k)[:80])))
                else:
                    put(unk(R2, e.where(), '%s in the bucket of %s' % (show(v)[:60], show(k)[:80])))
                continue
            if mk('truthy', k) in e.facts or entails(e.facts, mk('truthy', k)):
                put(ok(R2, e.where(), 'truthy(%s)' % show(k)[:80]))
            elif any(mentions(f, k) and f.op != 'in' and not (f.op in ('le', 'lt', 'eq0')) for f in e.facts if f is not None and not (f.op == 'truthy' and f.a[0] is x and x is not k)):
                rel = [f for f in e.facts if mentions(f, k) and f.op != 'in']
                none = lit_not(mk('isnone', k))
                if none in e.facts and all(f is none or f.op in ('le', 'lt') for f in rel):
                    put(bad(R2, e.where(), 'a key that is merely not None (0, the empty string...) makes a bucket: %s' % show(k)[:80]))
                else:
                    put(unk(R2, e.where(), '; '.join(show(f)[:80] for f in rel)))
            else:
                put(bad(R2, e.where(), 'unusable keys are not left out: %s' % show(k)[:80]))
    for a, b, facts, e in K.links(run):
        if K.ismem(e.target) and K.nsite(e.target.a[0]) in buckets:
            continue
        ra, rb = K.readof(a), K.readof(b)
        if ra is None or rb is None:
            if K.is_item(a) and K.is_item(b) and a is not b:
                put(unk(R2, e.where(), 'direct link of %s and %s' % (show(a)[:60], show(b)[:60])))
            continue
        if K.ismem(ra.a[0]) and K.ismem(rb.a[0]):
            if ra.a[0] is rb.a[0]:
                put(ok(R2, e.where(), 'both ends come from the bucket %s' % show(ra.a[0])[:80]))
            elif K.nsite(ra.a[0].a[0]) == K.nsite(rb.a[0].a[0]) and K.nsite(ra.a[0].a[0]) in buckets:
                put(bad(R2, e.where(), 'the ends come from different buckets %s and %s' % (show(ra.a[0])[:60], show(rb.a[0])[:60])))
            else:
                put(unk(R2, e.where(), 'ends %s and %s' % (show(ra)[:60], show(rb)[:60])))
    if not buckets and not sc.tag('nokey'):
        put(unk(R2, sc.fn, 'no bucket found'))
    if not out:
        put(ok(R2, sc.fn, 'no bucket is filled'))
    return out


def pure(t):
    return not any(x.op in ('lib', 'top', 'lv', 'obj') or x.op == 'app' and x.a[0].op != 'sym' for x in subterms(t))


# --- token-set measures -----------------------------------------------------------------------------------------------------
TOK = ('x', 'y', 'z')
SETS = [list(c) for n in range(4) for c in itertools.combinations(TOK, n)] + [['x', 'x'], ['x', 'y', 'x'], ['x', 'y', 'y', 'z'], ['z', 'z', 'z', 'x']]
BIG = [['x', 'y', 'z', 'u', 'v'], ['x', 'u', 'w', 'q'], ['x', 'y', 'z', 'u', 'v', 'w', 'q', 'r']]
RADII = [F(0), F(1, 5), F(1, 4), F(1, 3), F(1, 2), F(3, 5), F(2, 3), F(3, 4), F(4, 5), F(1), F(5, 4)]


def measure(name, a, b):
    a, b = set(a), set(b)
    if not a and not b:
        return None
    if not a or not b:
        return F(0)
    i = len(a & b)
    return F(i, len(a | b)) if name == 'jaccard' else F(i, min(len(a), len(b)))


def tokens(sc, run, S):
    met = sc.tag('metric') or 'jaccard'
    KT = sc.kw.get('key')
    D = sc.tag('data')
    R = K.Records(run, S.I)
    out, seen = [], set()
    buckets = set(K.nsite(e.target.a[0]) for e in run.log if e.kind == 'ins' and K.ismem(e.target) and not same_kind_link(e))
    cntok = {}
    for a, b, facts, e in K.links(run):
        if K.ismem(e.target) and K.nsite(e.target.a[0]) in buckets and e.kind == 'ins':
            continue
        if not (K.itemlike(a) or K.readof(a) is not None):
            continue
        o = link(sc, run, S, R, met, KT, D, a, b, facts, e)
        if str(o) not in seen:
            seen.add(str(o))
            out.append(o)
    if not out:
        out.append(unk(R3, sc.fn, 'no link found'))
    return out


def same_kind_link(e):
    """an insertion among the neighbours of an item, rather than into a bucket"""
    k = e.target.a[1][0]
    return K.readof(k) is not None and K.readof(e.val) is not None or kind(k) == 'int' or K.is_item(k) and K.is_item(e.val)


def keyterm(KT, D, x):
    it = mk('item', D, x) if kind(x) == 'int' or x.op == 'dkey' else x
    return mk('app', KT, it) if KT is not None else it


def link(sc, run, S, R, met, KT, D, a, b, facts, e):
    ka, kb = keyterm(KT, D, a), keyterm(KT, D, b)
    I = S.I
    pat = counting(run, R, KT, D) if sc.tag('fam') == 'ii' else None
    undec = {}
    n = 0

    def mkhook(A, B):
        val = {a: A, b: B}

        def toks(x):
            """tokens of the item standing at x"""
            for y, v in val.items():
                if x is y:
                    return v
            return None

        def h(t, m):
            if t.op == 'is' and ka in t.a and kb in t.a:
                return False
            if t.op == 'isinst' and t.a[0] in (ka, kb):
                return False
            if pat is None:
                return None
            if t.op == 'cnt' and t.a[0].op == 'obj' and K.nsite(t.a[0].a[0]) == pat['cnt']:
                x, y = toks(t.a[0].a[1][0]), toks(t.a[1])
                if x is None or y is None:
                    return None
                sx, sy = pat['view'](x), pat['view'](y)
                return F(sum(sy.count(z) for z in sx))
            if t.op == 'item' and t.a[0].op == 'obj' and K.nsite(t.a[0].a[0]) in pat['sizes']:
                x = toks(t.a[1])
                return None if x is None else F(len(pat['sizes'][K.nsite(t.a[0].a[0])](x)))
            if t.op == 'at' and t.a[0].op == 'obj' and K.nsite(t.a[0].a[0]) == pat['cnt'] and K.ismem(t.a[0]):
                x, y = toks(t.a[0].a[1][0]), toks(t.a[1])
                if x is None or y is None:
                    return None
                sx, sy = pat['view'](x), pat['view'](y)
                return F(sum(sy.count(z) for z in sx))
            return None
        return h
    fs = sorted(facts, key=lambda f: f.n)
    hits = 0
    for A in SETS + BIG:
        for B in SETS + BIG:
            w = measure(met, A, B)
            if w is None or sc.tag('fam') == 'ii' and not set(A) & set(B):
                continue
            for r in RADII + [w + F(1, 300), w + F(1, 30)]:
                env = {ka: A, kb: B, scen.RAD: r}
                m = Model(env, I, e.st, mkhook(A, B))
                f, u = feasible(m, fs)
                if f is False:
                    continue
                n += 1
                for x in u:
                    undec[x] = 1
                if w < r:
                    rel = [x for x in u if any(y in (ka, kb, scen.RAD) or y.op in ('cnt', 'top', 'lib') or y.op == 'lv' and kind(y) == 'num' for y in subterms(x)) and not seenbefore(x)]
                    if rel:
                        return unk(R3, e.where(), 'guard not evaluated: ' + '; '.join(show(x)[:100] for x in rel)[:240])
                    if pat is None and sc.tag('fam') == 'ii':
                        return unk(R3, e.where(), 'counting of shared tokens not recognised')
                    return bad(R3, e.where(), 'token sets %s and %s are linked at radius %s (measure %s) under %s' % (
                        sorted(set(A)), sorted(set(B)), r, w, '; '.join(show(x)[:100] for x in fs if x not in u and scen.RAD in symbols(x))[:240]))
    return ok(R3, e.where(), '%d structures on path [%s]' % (n, '; '.join(show(x)[:100] for x in fs if scen.RAD in symbols(x))[:200]))


def seenbefore(f):
    g = f.a[0] if f.op == 'not' else f
    return g.op == 'in'


def counting(run, R, KT, D):
    """the incremental count of shared tokens: where it is kept, over which view of the tokens it runs, and the arrays of sizes"""
    cnt, view = None, None
    for e in run.log:
        if e.kind == 'inc' and K.ismem(e.target):
            if not (is_num_const(e.delta) and num(e.delta) == 1):
                return None
            i = e.target.a[1][0]
            k = e.get('key')
            r = K.readof(k) if k is not None else None
            if r is None or r.op != 'item' or not K.ismem(r.a[0]):
                return None
            tok = r.a[0].a[1][0]
            v = viewof(tok, i, KT, D)
            if v is None:
                return None
            # the bucket read holds positions put there under one of their own tokens
            for x in R.by.get(K.nsite(r.a[0].a[0]), ()):
                if x.kind != 'ins' or x.op not in ('append', 'add'):
                    return None
                v2 = viewof(x.target.a[1][0], x.val, KT, D)
                if v2 is None or v2 is not v:
                    return None
            s = K.nsite(e.target.a[0])
            if cnt not in (None, s) or view not in (None, v):
                return None
            cnt, view = s, v
    if cnt is None:
        return None
    sizes = {}
    for e in run.log:
        if e.kind == 'ins' and e.target.op == 'obj' and e.op in ('setitem', 'append'):
            k = e.get('key') if e.op == 'setitem' else R.posof(e)
            v = e.val
            if k is not None and v is not None and v.op == 'len':
                w = seqview(v.a[0], k, KT, D)
                s = K.nsite(e.target.a[0])
                if w is not None and sizes.get(s, w) is w:
                    sizes[s] = w
    return dict(cnt=cnt, view=view, sizes=sizes)


def dedup(x):
    return sorted(set(x))


def seqview(t, i, KT, D):
    if t is keyterm(KT, D, i):
        return list
    if t.op == 'setof' and t.a[0] is keyterm(KT, D, i):
        return dedup
    return None


def viewof(tok, i, KT, D):
    if tok.op == 'item':
        return seqview(tok.a[0], i, KT, D)
    return None
