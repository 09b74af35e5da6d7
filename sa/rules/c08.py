"""C08: exhaustive routines decide every pair."""
from fractions import Fraction as F
from .. import scen
from ..terms import T, mk, show, subterms, symbols, kind, cmp_lit, entails, mentions, lit_not, const, num, is_num_const, eq0, sub
from ..model import Model, feasible
from ..verdict import ok, bad, unk
from . import links as K
from . import c07
from .cover import Cover, End, endof, base, full, CRIT

EXPLAIN = ("For each routine, the loops that surround the comparison are summarised by the abstract interpretation: bounds, and for every path through one iteration its "
           "condition and what happens on it. (1) For every small size of the collection (and window, chunk size) and every pair of positions that has to be decided, "
           "some iteration must compare the pair on every feasible path that is not an admissible skip (already connected, already among the neighbours, already "
           "absorbed by a leader), and no exit may come first. (2) On every path of the comparison the outcome is either a refusal or the pair is handed on. (3) Loops "
           "that carry pairs, buckets and neighbours further run over the whole container and drop nothing. The intersection index is decided on the same small "
           "token sets as its acceptance condition; the hash join on the conditions of its results.")
ASSUME = ["sorted neighborhood: every pair of positions closer than the window in the sorted order has to be decided",
          "phylactery's UnionFind reports the components of the unions made"]
LIMIT = 100
R1 = 'every pair that has to be compared is compared'
R2 = 'an accepted pair is handed on'
R3 = 'nothing is dropped between the comparison and the result'
R4 = 'every item with a usable key is put in its bucket'
R5 = 'every pair reaching the radius is linked'
R6 = 'every left/right combination is decided'
FAMS = ('pairwise', 'blocking', 'snm', 'keycol', 'ii', 'hashjoin')


def scenarios(tier):
    out = [s for s in scen.clustering('list', True) if s.tag('fam') in FAMS and not s.tag('par')]
    return out + [s for s in scen.joins() if s.tag('fam') == 'hashjoin' or s.name.startswith('hashjoin')]


def judge(sc, run, S):
    if run.lossy:
        return [unk(R1, sc.fn, 'not fully analysed: %s' % run.lossy)]
    fam = sc.tag('fam')
    if sc.name.startswith('hashjoin'):
        return hashjoin(sc, run, S)
    if fam == 'keycol':
        return keycol(sc, run, S)
    if fam == 'ii':
        return index(sc, run, S)
    return crit(sc, run, S)


class Out(object):
    def __init__(self):
        self.l, self.seen = [], set()

    def __call__(self, o):
        if (o.rule, o.verdict, o.where, o.detail) not in self.seen:
            self.seen.add((o.rule, o.verdict, o.where, o.detail))
            self.l.append(o)


def vague(t):
    """something about t is not known (what merely names a container or one of its elements does not count)"""
    if not isinstance(t, T):
        return isinstance(t, tuple) and any(vague(x) for x in t)
    if t.op in ('lv', 'top', 'lib', 'cnt', 'at'):
        return True
    if t.op in ('obj', 'dkey'):
        return False
    if t.op == 'len' and t.a[0].op == 'obj' and K.ismem(t.a[0]):
        return False
    if t.op == 'in':
        return vague(t.a[0])
    if t.op == 'item':
        return vague(t.a[0]) or vague(t.a[1])
    return any(vague(x) for x in t.a)


def trivial(f):
    """condition that says nothing about a particular item"""
    return f.op == 'is' or f.op == 'isinst' or f.op == 'not' and f.a[0].op in ('is', 'isinst')


def mode_of(f):
    return f.a[0] if f.op == 'not' else f


def justifier(sc):
    leader = sc.tag('leader')

    def j(p, ends):
        unsure = False
        for f in p.new:
            if f.op == 'connected':
                if any(a.match(f.a[1], p.facts) and b.match(f.a[2], p.facts) or a.match(f.a[2], p.facts) and b.match(f.a[1], p.facts) for a, b in ends):
                    return True
            if f.op == 'in':
                x, o = f.a[0], f.a[1]
                if o.op == 'obj' and K.ismem(o):
                    k = o.a[1][0]
                    if any(a.match(x, p.facts) and b.match(k, p.facts) or a.match(k, p.facts) and b.match(x, p.facts) for a, b in ends):
                        return True
                if x.op == 'tuple' and len(x.a) == 2:
                    return True
                if leader and o.op == 'obj' and any(a.match(x, p.facts) or b.match(x, p.facts) for a, b in ends):
                    return True
                if vague(x) or o.op != 'obj':
                    unsure = True
            elif leader and mentions(f, scen.MX) and (p.how or p.decided):
                return True
            elif mentions(f, scen.MN) and sc.tag('fam') == 'blocking' and not sc.tag('multi'):
                unsure = True
            elif vague(f):
                unsure = True
        return None if unsure else False
    return j


def crits(trace, facts):
    out = []
    for e in trace:
        if e.kind == 'app' and e.fn in CRIT and len(e.args) == 2:
            a, b = endof(e.args[0]), endof(e.args[1])
            if a is not None and b is not None:
                out.append((a, b))
    return out


def sizes(sc):
    """(n, parameters, pairs to decide)"""
    fam = sc.tag('fam')
    for n in range(2, 6):
        pairs = [(p, q) for p in range(n) for q in range(p + 1, n)]
        if fam == 'snm':
            for w in (1, 2, 3, 4, 6):
                yield n, {scen.WIN: w}, [(p, q) for p, q in pairs if q - p < w]
        elif sc.tag('par') and fam == 'pairwise':
            for c in (1, 2, 3, 4, 7):
                yield n, {scen.CHUNK: c}, pairs
        else:
            yield n, {}, pairs


def coverage(sc, run, S, put, decide, just):
    cov = Cover(run, S, decide, just)
    if not cov.carriers:
        put(unk(R1, sc.fn, 'no comparison of two elements of a collection found'))
        return cov
    D = sc.tag('data')
    good = True
    for (c1, c2), e in cov.carriers.items():
        for c in (c1, c2):
            b, why = base(c)
            if why:
                put(bad(R1, e.where(), 'the comparison runs over %s: %s' % (show(c)[:80], why)))
                good = False
            elif b is not D and not (b.op == 'obj' and sc.tag('fam') in ('blocking', 'keycol') and K.ismem(b)):
                put(unk(R1, e.where(), 'the comparison runs over %s' % show(c)[:80]))
                good = False
            if sc.tag('fam') in ('blocking', 'keycol') and b is D:
                pass
    if not good:
        return cov
    total, worst = 0, None
    big = []
    for c in sorted(cov.bigger)[:4]:
        n = c + 3
        big.append((n, {scen.WIN: n, scen.CHUNK: 50}, sorted(set([(0, 1), (0, c - 1), (0, c), (0, c + 1), (0, n - 1), (1, n - 1), (n - 2, n - 1), (n - 3, n - 1)]))))
    for n, params, want in list(sizes(sc)) + big:
        miss = cov.check(n, want, params)
        total += len(want)
        for pq, r, why in miss:
            if worst is None or r is False and worst[3] is None:
                worst = (n, params, pq, r, why)
    e = list(cov.carriers.values())[0]
    if worst is None:
        put(ok(R1, e.where(), '%d pairs decided over all sizes; %d loops, %d paths' % (total, len(cov.loops), sum(len(p) for l in cov.loops.values() for _, p in l.values()))))
    else:
        n, params, pq, r, why = worst
        txt = 'n=%d%s: positions %d and %d: %s' % (n, ''.join(' %s=%d' % (show(k), v) for k, v in params.items()), pq[0], pq[1], why)
        put((bad if r is False else unk)(R1, e.where(), txt))
    return cov


def deposit(trace, a, b, facts, leader=False):
    """True | False | 'one' | None for the pair being handed on along the trace"""
    fw = bw = False
    vag = False
    for e in trace:
        if e.kind == 'union':
            if a.match(e.a, facts) and b.match(e.b, facts) or a.match(e.b, facts) and b.match(e.a, facts):
                return True
            vag = True
        elif e.kind == 'ins':
            v = e.val
            if v is None:
                continue
            if v.op in ('tuple', 'set', 'frozenset') and len(v.a) == 2 and all(isinstance(x, T) for x in v.a):
                if a.match(v.a[0], facts) and b.match(v.a[1], facts) or a.match(v.a[1], facts) and b.match(v.a[0], facts):
                    return True
                vag = vag or not tied(v, a, b)
                continue
            if K.ismem(e.target):
                k = e.target.a[1][0]
                if a.match(k, facts) and b.match(v, facts):
                    fw = True
                elif b.match(k, facts) and a.match(v, facts):
                    bw = True
                elif not (tied(k, a, b) and tied(v, a, b)):
                    vag = True
            elif leader and (b.match(v, facts) or a.match(v, facts)) and kind(v) != 'int':
                fw = bw = True
            elif e.op not in ('add', 'append', 'init') or e.get('key') is not None:
                vag = True
        elif e.kind in ('result', 'write', 'poolmap', 'extmeth', 'inc'):
            vag = True
    if fw and bw:
        return True
    if fw or bw:
        return 'one'
    return None if vag else False


def tied(t, a, b):
    """a value made of positions and elements only"""
    return not vague(t)


def crit(sc, run, S):
    put = Out()
    R = K.Records(run, S.I)
    acc = K.Acc(sc, S, R)
    cov = coverage(sc, run, S, put, crits, justifier(sc))
    # outcome of each comparison
    sites = {}
    for lk, inv in cov.loops.items():
        for entry, paths in inv.values():
            for p in paths:
                for a, b in p.decided:
                    handed(acc, p, a, b, sc, put, sites)
    carriers(sc, run, S, R, cov, put, sites)
    if sc.tag('fam') == 'blocking':
        fill(sc, run, S, cov, put)
    return put.l


def handed(acc, p, a, b, sc, put, sites):
    fs = p.facts
    lits = acc.lits(a.raw, b.raw)
    if any(entails(fs, lit_not(l)) or lit_not(l) in fs for l in lits):
        put(ok(R2, p.ev.where(), 'refused: %s' % show(lit_not(lits[0]))[:120]))
        return
    yes = any(l in fs or entails(fs, l) for l in lits)
    d = deposit(p.trace, a, b, fs, sc.tag('leader'))
    if d is True:
        put(ok(R2, p.ev.where(), 'handed on%s' % (' when ' + show(lits[0])[:100] if yes else '')))
        for e in p.trace:
            if e.kind == 'ins' and e.val is not None and e.val.op == 'tuple' and e.target.op == 'obj' and not K.ismem(e.target):
                sites[K.nsite(e.target.a[0])] = e
        return
    about = [f for f in p.new if any(x.op == 'app' and x.a[0] in CRIT for x in subterms(f))]
    if d is None or not yes and any(vague(f) for f in about):
        put(unk(R2, p.ev.where(), 'what happens to the pair is not recognised'))
    elif sc.tag('leader') and any(mentions(f, scen.MX) for f in p.new):
        put(ok(R2, p.ev.where(), 'cluster given up for its size'))
    else:
        cond = '; '.join(show(f)[:110] for f in sorted(about, key=lambda f: f.n)) or 'any outcome'
        if d == 'one':
            put(bad(R2, p.ev.where(), 'the pair %s ~ %s is recorded in one direction only' % (show(a.raw)[:60], show(b.raw)[:60])))
        else:
            put(bad(R2, p.ev.where(), 'the pair %s ~ %s is dropped although the path allows an acceptance (%s)' % (show(a.raw)[:60], show(b.raw)[:60], cond)))


# --- what happens after the comparison ------------------------------------------------------------------------------------------
def reads(p, site):
    """elements of the container read on a path"""
    out = set()
    for e in p.trace:
        for v in [x for x in e.d.values() if isinstance(x, T)]:
            for t in subterms(v):
                if t.op in ('item', 'dkey') and t.a[0].op == 'obj' and K.nsite(t.a[0].a[0]) == site:
                    out.add(t)
    return out


def readers(cov, site, op):
    """(loop, entry, paths, element) of the loops running over the container"""
    for lk, inv in cov.loops.items():
        for eid, (entry, paths) in inv.items():
            b = cov.info[(lk, eid)][0]
            el = set(t for p in paths for t in reads(p, site) if t.op == op and t.a[1] is b)
            for p in paths:
                for f in p.new:
                    for t in subterms(f):
                        if t.op == op and t.a[0].op == 'obj' and K.nsite(t.a[0].a[0]) == site and t.a[1] is b:
                            el.add(t)
            if el:
                yield lk, eid, paths, sorted(el, key=lambda t: t.n)[0]


def whole(cov, lk, eid, paths, put, what):
    b, lo, hi, e = cov.info[(lk, eid)]
    f = full(lo, hi)
    if f is not True:
        put((bad if f is False else unk)(R3, e.where(), '%s: the loop runs from %s to %s' % (what, show(lo)[:40], show(hi)[:80] if hi is not None else '?')))
    for p in paths:
        if p.how:
            txt = '%s: the loop is left early under [%s]' % (what, '; '.join(show(f)[:80] for f in sorted(p.new, key=lambda f: f.n))[:240])
            put((unk if any(vague(f) for f in p.new) else bad)(R3, e.where(), txt))
            f = None
    return f is True


def carriers(sc, run, S, R, cov, put, sites):
    # lists of pairs
    for s, ev in sites.items():
        found = False
        for lk, eid, paths, el in readers(cov, s, 'item'):
            found = True
            if not whole(cov, lk, eid, paths, put, 'accepted pairs'):
                continue
            x, y = mk('item', el, const(0)), mk('item', el, const(1))
            for p in paths:
                d = pairdep(p, el)
                w = cov.info[(lk, eid)][3].where()
                if d is True:
                    put(ok(R3, w, 'accepted pairs become links'))
                elif d is None:
                    put(unk(R3, w, 'what becomes of accepted pairs is not recognised'))
                elif any(vague(f) for f in p.new if f.op != 'in'):
                    put(unk(R3, w, 'accepted pairs skipped under a condition not understood'))
                elif d == 'one':
                    put(bad(R3, w, 'accepted pairs are recorded in one direction only'))
                else:
                    put(bad(R3, w, 'accepted pairs are dropped under [%s]' % '; '.join(show(f)[:90] for f in sorted(p.new, key=lambda f: f.n))[:240]))
        if not found:
            put(unk(R3, ev.where(), 'no loop over the list of accepted pairs found'))
    graphs(sc, run, S, R, cov, put)


def pairdep(p, el):
    fw = bw = vag = False
    got = {}
    for e in p.trace:
        if e.kind == 'union':
            i = [ordinal(x, el) for x in (e.a, e.b)]
            if sorted(x for x in i if x is not None) == [0, 1]:
                return True
            vag = True
        elif e.kind == 'ins' and e.val is not None and K.ismem(e.target):
            i, j = ordinal(e.target.a[1][0], el), ordinal(e.val, el)
            if (i, j) == (0, 1):
                fw = True
            elif (i, j) == (1, 0):
                bw = True
            elif None in (i, j):
                vag = True
        elif e.kind == 'ins' and e.val is not None:
            vag = True
    if fw and bw:
        return True
    if vag:
        return None
    return 'one' if fw or bw else False


def ordinal(t, el):
    """0 or 1 when t is that component of the pair el"""
    if t.op in ('item', 'at', 'proj') and t.a[0] is el and len(t.a) > 1:
        k = t.a[1]
        if isinstance(k, int):
            return k
        if isinstance(k, T) and is_num_const(k):
            return int(num(k))
    return None


def graphs(sc, run, S, R, cov, put):
    """clusters drawn from the mapping of neighbours"""
    gs = {}
    for a, b, facts, e in K.links(run):
        if e.kind == 'ins' and not isbucket(sc, e):
            gs[K.nsite(e.target.a[0])[1]] = e
    for g in gs:
        n = 0
        for lk, eid, paths, el in readers(cov, g, 'dkey'):
            ins = [p for p in paths if any(e.kind in ('ins', 'result', 'ran') for e in p.trace)]
            if not ins:
                continue
            n += 1
            w = cov.info[(lk, eid)][3].where()
            if not whole(cov, lk, eid, paths, put, 'neighbours'):
                continue
            for p in paths:
                drop(sc, p, el, g, w, put)
            worklist(cov, lk, paths, g, w, put)
        if not n:
            put(unk(R3, gs[g].where(), 'no loop over the linked items found'))
    # slices of what carries links
    for e in run.log:
        if e.kind == 'slice' and e.target.op == 'obj' and K.ismem(e.target) and K.nsite(e.target.a[0])[1] in gs and partial(e):
            put(bad(R3, e.where(), 'only a part of the neighbours is used'))


def isbucket(sc, e):
    k = e.target.a[1][0]
    return any(x.op == 'app' and x.a[0].op == 'sym' and x.a[0].a[0] in ('key', 'keys', 'block', 'blocks') for x in subterms(k)) and (K.is_item(e.val) or kind(e.val) == 'int') or sc.tag('fam') == 'ii' and not c07.same_kind_link(e)


def drop(sc, p, el, g, w, put):
    """one path through the loop that starts a cluster at el"""
    unsure = False
    if any(e.kind == 'ins' and holds(e.val, el) for e in p.trace) or any(e.kind == 'result' for e in p.trace):
        init = [e for e in p.trace if e.kind == 'ins' and holds(e.val, el) and e.op in ('init', 'append', 'add')]
        nb = [e for e in p.trace if e.kind in ('iter', 'ins', 'concat') and any(t.op == 'obj' and K.ismem(t) and t.a[1][0] is el for v in e.d.values() for t in terms_of(v))]
        if init and nb:
            put(ok(R3, w, 'cluster made of an item and its neighbours'))
        elif not nb and not any(vague(f) for f in p.new):
            put(bad(R3, w, 'the neighbours of the item are not used on a path'))
        else:
            put(unk(R3, w, 'making of the cluster not recognised'))
        return
    for f in p.new:
        if f.op == 'in' and f.a[0] is el and f.a[1].op == 'obj' and K.nsite(f.a[1].a[0]) != g:
            return
        if mentions(f, scen.MN) or mentions(f, scen.MX):
            return
        if f.op == 'in' and f.a[1].op == 'obj' and K.nsite(f.a[1].a[0]) == g:
            continue
        if vague(f):
            unsure = True
    txt = 'linked items are passed over under [%s]' % '; '.join(show(f)[:90] for f in sorted(p.new, key=lambda f: f.n))[:240]
    put((unk if unsure else bad)(R3, w, txt))


def terms_of(v):
    if isinstance(v, T):
        return list(subterms(v))
    if isinstance(v, tuple):
        return [t for x in v for t in terms_of(x)]
    return []


def holds(v, el):
    return v is not None and (v is el or v.op == 'item' and len(v.a) > 1 and v.a[1] is el)


def worklist(cov, outer, paths, g, w, put):
    """traversal with a worklist: what is taken out and not seen yet goes into the cluster, its neighbours into the worklist"""
    inner = set(lk for p in paths for lk in p.ran)
    for lk in inner:
        for eid, (entry, ps) in cov.loops.get(lk, {}).items():
            for p in ps:
                pops = [e for e in p.trace if e.kind == 'mut' and e.get('op') in ('pop', 'popleft') and e.target.op == 'obj']
                if not pops:
                    continue
                W = pops[0].target
                e0 = cov.info[(lk, eid)][3]
                els = set(t for e in p.trace for v in e.d.values() for t in terms_of(v) if t.op == 'item' and t.a[0] is W)
                els |= set(t for f in p.new for t in subterms(f) if t.op == 'item' and t.a[0] is W)
                if len(els) != 1:
                    put(unk(R3, e0.where(), 'element taken from the worklist not recognised'))
                    continue
                x = list(els)[0]
                if any(f.op == 'in' and f.a[0] is x and f.a[1].op == 'obj' and K.nsite(f.a[1].a[0]) != g and pos(f, p) for f in p.new) and not any(e.kind == 'ins' for e in p.trace):
                    put(ok(R3, e0.where(), 'seen before'))
                    continue
                put_in = [e for e in p.trace if e.kind == 'ins' and e.val is x]
                more = [e for e in p.trace if e.kind == 'ins' and e.target is W and any(t.op == 'obj' and K.ismem(t) and t.a[1][0] is x and K.nsite(t.a[0])[1] == g for t in terms_of(e.get('src')) + list(terms_of(e.val)))]
                more += [e for e in p.trace if e.kind == 'ran']
                if len(put_in) >= 1 and more:
                    put(ok(R3, e0.where(), 'members and their neighbours are gathered'))
                elif any(vague(f) and not mentions(f, x) and f.op not in ('le', 'lt', 'eq0', 'not') for f in p.new):
                    put(unk(R3, e0.where(), 'step of the traversal not understood'))
                else:
                    put(bad(R3, e0.where(), 'an item taken from the worklist is %s under [%s]' % ('left out of the cluster' if not put_in else 'not followed to its neighbours', '; '.join(show(f)[:80] for f in sorted(p.new, key=lambda f: f.n))[:240])))
                if p.how:
                    put(unk(R3, e0.where(), 'traversal left early'))


def pos(f, p):
    return f in p.facts


# --- buckets ---------------------------------------------------------------------------------------------------------------------
def fill(sc, run, S, cov, put):
    """every item goes to its bucket(s)"""
    sites = set(K.nsite(e.target.a[0]) for e in run.log if e.kind == 'ins' and K.ismem(e.target) and isbucket(sc, e))
    if not sites:
        put(unk(R4, sc.fn, 'no bucket found'))
        return
    D = sc.tag('data')

    def fills(p):
        return any(e.kind == 'ins' and K.ismem(e.target) and K.nsite(e.target.a[0]) in sites for e in p.trace)
    loops = set(lk for lk, inv in cov.loops.items() for _, ps in inv.values() for p in ps if fills(p))
    grew = True
    while grew:
        grew = False
        for lk, inv in cov.loops.items():
            if lk not in loops and any(set(p.ran) & loops for _, ps in inv.values() for p in ps):
                loops.add(lk)
                grew = True
    for lk in loops:
        for eid, (entry, ps) in cov.loops[lk].items():
            b, lo, hi, e = cov.info[(lk, eid)]
            f = full(lo, hi)
            if f is not True:
                put((bad if f is False else unk)(R4, e.where(), 'the loop filling the buckets runs from %s to %s' % (show(lo)[:40], show(hi)[:80] if hi is not None else '?')))
                continue
            for p in ps:
                if p.how:
                    put((unk if any(vague(f) for f in p.new) else bad)(R4, e.where(), 'the loop filling the buckets is left early under [%s]' % '; '.join(show(f)[:80] for f in sorted(p.new, key=lambda f: f.n))[:240]))
                elif fills(p) or set(p.ran) & loops:
                    put(ok(R4, e.where(), 'put in the bucket'))
                else:
                    r = seen(sc, p, cov, fills) or unusable(sc, p)
                    if r is True:
                        put(ok(R4, e.where(), 'unusable key'))
                    else:
                        put((unk if r is None else bad)(R4, e.where(), 'an item is left out of the buckets under [%s]' % '; '.join(show(f)[:90] for f in sorted(p.new, key=lambda f: f.n))[:240]))
    # the items put there are all items
    for e in run.log:
        if e.kind == 'ins' and K.ismem(e.target) and K.nsite(e.target.a[0]) in sites:
            reach(e, D, put)


def reach(e, D, put):
    v = e.val
    t = v if kind(v) != 'int' else mk('item', D, v)
    if t.op != 'item' or base(t.a[0])[0] is not D:
        put(unk(R4, e.where(), 'the bucket receives %s' % show(v)[:80]))
        return
    if base(t.a[0])[1]:
        put(bad(R4, e.where(), '%s: %s' % (show(t.a[0])[:60], base(t.a[0])[1])))
        return
    idx = t.a[1]
    bs = [a for a in e.active if a[1].op == 'bnd' and a[1] in symbols(idx)]
    if len(bs) != 1:
        put(unk(R4, e.where(), 'position %s' % show(idx)[:80]))
        return
    lk, b, lo, hi, n_ = bs[0]
    for n in range(1, 5):
        def hook(t, m):
            return F(n) if t.op == 'len' and base(t.a[0])[0] is D else None
        m = Model({}, None, None, hook)
        try:
            L = int(m.num(lo))
            H = int(m.num(hi)) if hi is not None else L + n
            got = set(int(m.bind(b, F(x)).num(idx)) for x in range(L, H))
        except Exception:
            put(unk(R4, e.where(), 'positions %s with %s .. %s' % (show(idx)[:60], show(lo)[:40], show(hi)[:60] if hi is not None else '?')))
            return
        if set(range(n)) - got:
            put(bad(R4, e.where(), 'of %d items, position %d is never put in a bucket' % (n, min(set(range(n)) - got))))
            return
    put(ok(R4, e.where(), 'every position is reached'))


def partial(e):
    lo, hi = e.get('lo'), e.get('hi')
    none = lambda x: x is None or x.op == 'const' and x.a[1] is None
    return not (none(hi) and (none(lo) or is_num_const(lo) and num(lo) == 0))


def seen(sc, p, cov, fills):
    """the key was met before among the keys of this very item, and every path that records a key fills its bucket"""
    D = sc.tag('data')
    for f in p.new:
        if f.op != 'in' or f.a[1].op != 'obj' or K.ismem(f.a[1]):
            continue
        x, c = f.a[0], f.a[1]
        if x.op != 'item' or kind(x) == 'int':
            continue
        idx = set(t.a[1] for t in subterms(x) if t.op == 'item' and base(t.a[0])[0] is D)
        if len(idx) != 1 or list(idx)[0] not in terms_of(c.a) or D is x.a[0]:
            continue
        g = K.nsite(c.a[0])
        rec = [(q, e) for inv in cov.loops.values() for _, ps in inv.values() for q in ps for e in q.trace if e.kind == 'ins' and e.target.op == 'obj' and K.nsite(e.target.a[0]) == g]
        own = [(q, e) for q, e in rec if e.get('op') != 'init']
        if own and all(fills(q) and (e.val is x or e.get('key') is x) for q, e in own):
            return True
    return False


def unusable(sc, p):
    unsure = False
    for f in p.new:
        g = f.a[0] if f.op == 'not' else f
        neg_ = f.op == 'not'
        x = g.a[0] if g.a and isinstance(g.a[0], T) else None
        if x is not None and sc.tag('fam') == 'keycol':
            y = K.bare(x.a[0] if x.op == 'item' else x)
            if y.op == 'app' and y.a[0] in (scen.KEY, scen.KEYS) and (g.op == 'truthy' and neg_ or g.op == 'isnone' and not neg_):
                return True
            if y.op == 'app' and y.a[0] in (scen.KEY, scen.KEYS) and f.op in ('eq0', 'le') and 'len' in [t.op for t in subterms(f)]:
                return True
        if g.op == 'in' and not vague(g.a[0]):
            continue
        if vague(f):
            unsure = True
    for f in p.new:
        if f.op in ('eq0', 'le', 'eq') and sc.tag('fam') == 'keycol' and any(t.op == 'app' and t.a[0] in (scen.KEY, scen.KEYS) for t in subterms(f)):
            return None
    return None if unsure else False


def keycol(sc, run, S):
    put = Out()
    if sc.tag('nokey'):
        put(ok(R4, sc.fn, 'no key: nothing to group'))
        return put.l
    R = K.Records(run, S.I)
    merge = [1 for a, b, f, e in K.links(run) if e.kind == 'union' or not isbucket(sc, e)]

    def decide(trace, facts):
        if not merge:
            return []
        out = []
        ins = [e for e in trace if e.kind == 'ins' and K.ismem(e.target) and not isbucket(sc, e) and e.val.op != 'splat']
        for e in trace:
            if e.kind == 'union':
                a, b = endof(e.a), endof(e.b)
                if a and b:
                    out.append((a, b))
        for e in ins:
            a, b = endof(e.target.a[1][0]), endof(e.val)
            if a is None or b is None or not K.ismem(a.C):
                continue
            if any(x.target.a[1][0] is e.val and x.val is e.target.a[1][0] for x in ins):
                out.append((a, b))
        return out
    if merge:
        cov = coverage(sc, run, S, put, decide, lambda p, ends: justifier(sc)(p, ends))
        graphs(sc, run, S, R, cov, put)
    else:
        cov = Cover(run, S, decide, lambda p, e: False)
        # buckets are the clusters
        sites = set(K.nsite(e.target.a[0])[1] for e in run.log if e.kind == 'ins' and K.ismem(e.target) and isbucket(sc, e))
        n = 0
        for s in sites:
            for lk, eid, paths, el in list(readers(cov, s, 'dkey')) + list(memreaders(cov, s)):
                n += 1
                w = cov.info[(lk, eid)][3].where()
                if not whole(cov, lk, eid, paths, put, 'buckets'):
                    continue
                for p in paths:
                    if any(e.kind == 'result' for e in p.trace):
                        put(ok(R3, w, 'bucket produced'))
                    elif any(mentions(f, scen.MN) or mentions(f, scen.MX) for f in p.new):
                        put(ok(R3, w, 'size limits'))
                    else:
                        put((unk if any(vague(f) and f.op not in ('in', 'le', 'lt') for f in p.new) else bad)(R3, w, 'a bucket is passed over under [%s]' % '; '.join(show(f)[:90] for f in sorted(p.new, key=lambda f: f.n))[:240]))
        if not n:
            put(unk(R3, sc.fn, 'no loop over the buckets found'))
    fill(sc, run, S, cov, put)
    return put.l


def memreaders(cov, s):
    return ()


# --- intersection index ------------------------------------------------------------------------------------------------------------
def index(sc, run, S):
    put = Out()
    R = K.Records(run, S.I)
    KT, D = sc.kw.get('key'), sc.tag('data')
    cov = Cover(run, S, lambda t, f: [], lambda p, e: False)
    pat = c07.counting(run, R, KT, D)
    if pat is None:
        for e in run.log:
            if e.kind == 'slice' and e.target.op == 'obj' and K.ismem(e.target) and partial(e) and K.nsite(e.target.a[0]) in set(
                    K.nsite(x.target.a[0]) for x in run.log if x.kind == 'ins' and K.ismem(x.target) and c07.viewof(x.target.a[1][0], x.val, KT, D)):
                put(bad(R5, e.where(), 'only a part of the items sharing a token is counted'))
        if put.l:
            return put.l
        put(unk(R5, sc.fn, 'counting of shared tokens not recognised'))
        return put.l
    incs = [e for e in run.log if e.kind == 'inc' and K.ismem(e.target) and K.nsite(e.target.a[0]) == pat['cnt']]
    bsites = set(K.nsite(K.readof(e.key).a[0].a[0]) for e in incs)
    # every occurrence is counted and every token indexed
    def does(p):
        return any(e.kind == 'inc' and K.ismem(e.target) and K.nsite(e.target.a[0]) == pat['cnt'] for e in p.trace)

    def indexes(p):
        return any(e.kind == 'ins' and K.ismem(e.target) and K.nsite(e.target.a[0]) in bsites for e in p.trace)
    li = set(lk for lk, inv in cov.loops.items() for _, ps in inv.values() for p in ps if does(p))
    lb = set(lk for lk, inv in cov.loops.items() for _, ps in inv.values() for p in ps if indexes(p))
    ld = set(lk for lk, inv in cov.loops.items() for _, ps in inv.values() for p in ps if set(p.ran) & lb)
    for loops, test, what in ((li, does, 'shared tokens are counted'), (lb, indexes, 'every token is indexed'), (ld, lambda p: set(p.ran) & lb, 'every item is indexed')):
        for lk in loops:
            for eid, (entry, ps) in cov.loops[lk].items():
                b, lo, hi, e = cov.info[(lk, eid)]
                f = full(lo, hi)
                if f is not True:
                    put((bad if f is False else unk)(R5, e.where(), 'the loop runs from %s to %s' % (show(lo)[:40], show(hi)[:80] if hi is not None else '?')))
                for p in ps:
                    okp = test(p) and (what != 'every token is indexed' or set(p.ran) & li or not any(True for _ in ()) )
                    if what == 'every token is indexed' and test(p) and not (set(p.ran) & li):
                        put((unk if any(vague(f) and f.op not in ('in',) for f in p.new) else bad)(R5, e.where(), 'shared tokens are not counted under [%s]' % fmt(p)))
                    elif p.how:
                        put((unk if any(vague(f) for f in p.new) else bad)(R5, e.where(), 'the loop is left early under [%s]' % fmt(p)))
                    elif test(p):
                        put(ok(R5, e.where(), what))
                    else:
                        x = [f for f in p.new if f.op != 'in']
                        r = emptyset(x)
                        put((ok if r else unk if r is None and any(vague(f) for f in x) else bad)(R5, e.where(), 'passed over under [%s]' % fmt(p)))
    if not li or not lb or not ld:
        put(unk(R5, sc.fn, 'loops of the index not recognised'))
    # pairs below the radius only are left out
    n = 0
    for lk, inv in cov.loops.items():
        for eid, (entry, ps) in inv.items():
            link = [p for p in ps if any(e.kind == 'union' or e.kind == 'ins' and K.ismem(e.target) and c07.same_kind_link(e) and K.nsite(e.target.a[0]) not in bsites and e.val.op != 'splat' for e in p.trace)]
            pairs = set()
            for p in link:
                for e in p.trace:
                    if e.kind == 'ins' and K.ismem(e.target) and c07.same_kind_link(e) and K.nsite(e.target.a[0]) not in bsites and e.val.op != 'splat':
                        pairs.add((e.target.a[1][0], e.val))
                    elif e.kind == 'union':
                        pairs.add((e.a, e.b))
            if not pairs or lk in li | lb | ld:
                continue
            a, b = sorted(pairs, key=lambda x: (x[0].n, x[1].n))[0]
            w = cov.info[(lk, eid)][3]
            n += 1
            whole(cov, lk, eid, ps, put, 'counted pairs')
            for p in ps:
                if p in link:
                    if (a, b) in pairs and (b, a) not in pairs and not any(e.kind == 'union' for e in p.trace):
                        put(bad(R3, w.where(), 'linked pairs are recorded in one direction only'))
                    continue
                put(missed(sc, S, pat, KT, D, a, b, p, w))
            for lk2, inv2 in cov.loops.items():
                if any(lk in p.ran for _, ps2 in inv2.values() for p in ps2):
                    for eid2, (en2, ps2) in inv2.items():
                        whole(cov, lk2, eid2, ps2, put, 'counted items')
                        for p in ps2:
                            if lk not in p.ran:
                                x = [f for f in p.new if f.op != 'in']
                                put((unk if any(vague(f) for f in x) else bad)(R3, cov.info[(lk2, eid2)][3].where(), 'counted items are passed over under [%s]' % fmt(p)))
    if not n:
        put(unk(R5, sc.fn, 'no loop linking counted pairs found'))
    graphs(sc, run, S, R, cov, put)
    return put.l


def emptyset(fs):
    """the conditions hold only when the item has no token at all"""
    ks = set(t for f in fs for t in subterms(f) if t.op == 'app' and t.a[0].op == 'sym' and t.a[0].a[0] == 'key') or set(t for f in fs for t in subterms(f) if K.is_item(t))
    if len(ks) != 1:
        return None
    k = list(ks)[0]
    for A in c07.SETS:
        if not A:
            continue
        hold = True
        for f in fs:
            try:
                if not Model({k: A}).truth(f):
                    hold = False
            except Exception:
                pass
        if hold:
            return None
    return True


def fmt(p):
    return '; '.join(show(f)[:90] for f in sorted(p.new, key=lambda f: f.n))[:240]


def missed(sc, S, pat, KT, D, a, b, p, w):
    """a path that does not link: no pair reaching the radius may take it"""
    met = sc.tag('metric') or 'jaccard'
    ka, kb = c07.keyterm(KT, D, a), c07.keyterm(KT, D, b)

    def mkhook(A, B):
        val = {a: A, b: B}

        def h(t, m):
            if t.op == 'is' and ka in t.a and kb in t.a or t.op == 'isinst' and t.a[0] in (ka, kb):
                return False
            if t.op in ('cnt', 'at') and t.a[0].op == 'obj' and K.nsite(t.a[0].a[0]) == pat['cnt'] and K.ismem(t.a[0]):
                x, y = val.get(t.a[0].a[1][0]), val.get(t.a[1])
                if x is None or y is None:
                    return None
                sx, sy = pat['view'](x), pat['view'](y)
                return F(sum(sy.count(z) for z in sx))
            if t.op == 'item' and t.a[0].op == 'obj' and K.nsite(t.a[0].a[0]) in pat['sizes']:
                x = val.get(t.a[1])
                return None if x is None else F(len(pat['sizes'][K.nsite(t.a[0].a[0])](x)))
            return None
        return h
    fs = sorted(p.facts, key=lambda f: f.n)
    n = 0
    for A in c07.SETS + c07.BIG:
        for B in c07.SETS + c07.BIG:
            v = c07.measure(met, A, B)
            if v is None or not set(A) & set(B):
                continue
            for r in [x for x in c07.RADII if x <= v] + [v]:
                m = Model({ka: A, kb: B, scen.RAD: r}, S.I, w.st, mkhook(A, B))
                f, u = feasible(m, fs)
                n += 1
                if f is False:
                    continue
                rel = [x for x in u if x in p.new and x.op != 'in']
                if rel:
                    return unk(R5, w.where(), 'condition not evaluated: %s' % '; '.join(show(x)[:90] for x in rel)[:240])
                return bad(R5, w.where(), 'token sets %s and %s have measure %s but are not linked at radius %s under [%s]' % (sorted(set(A)), sorted(set(B)), v, r, fmt(p)))
    return ok(R5, w.where(), '%d structures: pairs that are not linked are below the radius' % n)


# --- hash join -----------------------------------------------------------------------------------------------------------------------
def hashjoin(sc, run, S):
    put = Out()
    res = [e for e in run.log if e.kind == 'result']
    if not res:
        put(unk(R6, sc.fn, 'no result found'))
        return put.l
    loops = {}
    for e in run.log:
        if e.kind in ('iterend', 'cut'):
            loops.setdefault(e.loop, []).append(e)
    for e in res:
        v = e.val
        if v.op != 'tuple' or len(v.a) != 2:
            put(unk(R6, e.where(), 'result %s' % show(v)[:80]))
            continue
        ends = [endof(x) for x in v.a]
        if None in ends or any(base(x.C)[0].op != 'sym' for x in ends):
            put(unk(R6, e.where(), 'result %s' % show(v)[:80]))
            continue
        acts = {a[1]: a for a in e.active if a[1].op == 'bnd'}
        good = True
        for x in ends:
            if base(x.C)[1]:
                put(bad(R6, e.where(), '%s: %s' % (show(x.C)[:60], base(x.C)[1])))
                good = False
                continue
            if x.idx not in acts:
                put(unk(R6, e.where(), 'position %s' % show(x.idx)[:60]))
                good = False
                continue
            lk, b, lo, hi, n = acts[x.idx]
            if not (is_num_const(lo) and num(lo) == 0 and hi is not None and hi.op == 'len' and base(hi.a[0])[0] is base(x.C)[0]):
                f = full(lo, hi)
                put((bad if f is False else unk)(R6, e.where(), '%s is read from %s to %s' % (show(x.C)[:40], show(lo)[:40], show(hi)[:60] if hi is not None else '?')))
                good = False
        if not good:
            continue
        for lk, b, lo, hi, n in e.active:
            for c in loops.get(lk, ()):
                if c.kind == 'cut' and c.how in ('brk', 'ret'):
                    put(bad(R6, c.where(), 'a loop over the collections is left early'))
        # the condition of the result is that the keys agree
        def keyed(t):
            return any(y.op == 'app' and y.a[0] in (scen.KEY, scen.KEYS) for y in subterms(t))
        cond = [f for f in e.facts if any(x.idx in symbols(f) for x in ends) and not (f.op in ('le', 'lt') and not keyed(f) and not any(mentions(f, x.item) for x in ends))]
        cond = [f for f in cond if not always(f, ends)]
        bits = [verdict(f, ends) for f in cond]
        if False in bits:
            f = cond[bits.index(False)]
            put(bad(R6, e.where(), 'a combination is produced only when %s' % show(f)[:120]))
        elif None in bits:
            f = cond[bits.index(None)]
            put(unk(R6, e.where(), 'condition of a result: %s' % show(f)[:120]))
        elif True not in bits:
            put(unk(R6, e.where(), 'no comparison of the keys recognised'))
        else:
            put(ok(R6, e.where(), 'all combinations; produced when %s' % '; '.join(show(f)[:80] for f in cond)[:200]))
    # loops over the collections without skips
    for lk, es in loops.items():
        inner = any(x.kind == 'result' for e in es for x in e.trace)
        outer = [e for e in es if e.kind == 'iterend']
        if inner:
            continue
        rl = set(k for k, xs in loops.items() if any(x.kind == 'result' for e in xs for x in e.trace))
        if any(x.kind == 'ran' and x.d['loop'] in rl for e in outer for x in e.trace):
            for e in outer:
                if not any(x.kind == 'ran' and x.d['loop'] in rl for x in e.trace):
                    new = set(e.facts) - set(e.head.facts)
                    put((unk if any(vague(f) for f in new) else bad)(R6, e.where(), 'an item is passed over under [%s]' % '; '.join(show(f)[:80] for f in new)[:200]))
    return put.l


def verdict(f, ends):
    """True: agreement of the keys; False: something else is asked; None: not understood"""
    a, b = ends
    if f.op in ('eq', 'is') and len(f.a) == 2:
        s = [[x.item for x in ends if mentions(t, x.item)] for t in f.a]
        if f.op == 'eq' and all(t.op == 'app' and t.a[0] is scen.KEY for t in f.a) and s[0] != s[1]:
            return True
    g = f.a[0] if f.op == 'not' else f
    if mentions(f, a.item) and mentions(f, b.item):
        if any(t.op == 'app' and t.a[0] is scen.KEYS for t in subterms(f)):
            return keysets(f, ends)
        return None
    if g.op in ('truthy', 'isnone') and g.a[0].op == 'app' and g.a[0].a[0] is scen.KEY:
        return None if vague(f) else False
    if g.op == 'in':
        return None
    return None if vague(f) or any(t.op == 'obj' for t in subterms(f)) else False


def always(f, ends):
    """holds whatever the keys are"""
    ks = [mk('app', scen.KEYS, x.item) for x in ends]
    try:
        return all(Model({ks[0]: A, ks[1]: B}).truth(f) for A in c07.SETS for B in c07.SETS)
    except Exception:
        return False


def keysets(f, ends):
    ks = [mk('app', scen.KEYS, x.item) for x in ends]
    n = 0
    for A in c07.SETS[:8]:
        for B in c07.SETS[:8]:
            try:
                v = Model({ks[0]: A, ks[1]: B}).truth(f)
            except Exception:
                return None
            if v and not set(A) & set(B):
                return None
            if not v and set(A) & set(B):
                return False
    return True
