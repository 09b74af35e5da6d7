"""C19: best-matching scores follow their definition."""
from fractions import Fraction as F
from .. import scen
from ..terms import T, mk, show, subterms, symbols, kind, entails, lit_not, mentions, const, sub, subst, div, eq0, cmp_lit, num, is_num_const
from ..model import Model, Unknown, Undef, feasible
from ..verdict import ok, bad, unk
from . import links as K

EXPLAIN = ("Abstract interpretation summarises the indexes built by the evaluation (items of the truth, cluster of every predicted item, sizes of the predicted "
           "clusters, number of items shared with every candidate), the values kept for the best candidate and the averages. Obligations: every insertion in an "
           "index is the documented one on every path of its loop; the values kept on an update are precision, recall and F1 as rational functions of the shared "
           "count and the two sizes (compared on points of the admissible region, where distinct low-degree rational functions differ); an update happens "
           "only when F1 does not decrease and is omitted only when it does not increase; the averages run over all truth clusters; and every refused kind of input "
           "leaves no path that goes on.")
ASSUME = ["running means behave as C24 states"]
LIMIT = 90
R1 = 'the scores kept are those of the definition'
R2 = 'the candidate kept maximises F1'
R3 = 'the scores are averaged over all truth clusters'
R4 = 'candidates are the predicted clusters of the items of the truth cluster'
R5 = 'sizes of predicted clusters count the items known to the truth'
R6 = 'inadmissible clusterings are refused'


def scenarios(tier):
    L = [s for s in scen.evaluation() if s.tag('fam') == 'bm']
    b = L[0]
    L.append(scen.Sc('best_matching/default', b.fn, list(b.args), {}, fam='bm', add=False))
    return L


def deltas(e):
    return '; '.join(show(f)[:80] for f in e.facts if f not in e.head.facts)[:200]


def judge(sc, run, S):
    if run.lossy:
        return [unk(R1, sc.fn, 'not fully analysed: %s' % run.lossy)]
    out = []
    seen = set()

    def put(o):
        if str(o) not in seen:
            seen.add(str(o))
            out.append(o)
    B = Bm(sc, run, S, put)
    B.indexes()
    B.scores()
    B.stops()
    return out


class Bm(object):
    def __init__(self, sc, run, S, put):
        self.sc, self.run, self.S, self.put = sc, run, S, put
        self.TR, self.PR = sc.args
        self.R = K.Records(run, S.I)
        self.loops = {}
        for e in run.log:
            if e.kind in ('iterend', 'cut'):
                self.loops.setdefault(e.loop, []).append(e)

    def member(self, t, D):
        """(cluster index, position) when t is D[i][j]"""
        if t.op == 'item' and t.a[0].op == 'item' and t.a[0].a[0] is D:
            return t.a[0].a[1], t.a[1]
        return None

    def whole(self, e, D):
        """(outer, inner) when the event is in a loop over all members of all clusters of D"""
        act = [a for a in e.active if a[1].op == 'bnd']
        for a in act:
            if a[3] is mk('len', D) and is_num_const(a[2]) and num(a[2]) == 0:
                for b in act:
                    if b[3] is mk('len', mk('item', D, a[1])) and is_num_const(b[2]) and num(b[2]) == 0:
                        return a, b
        return None

    # -- indexes -----------------------------------------------------------------------------------------------------
    def indexes(self):
        put, S = self.put, self.S
        TI, IDX, SZ = {}, {}, {}
        for e in self.run.log:
            if e.kind != 'ins' or e.target.op != 'obj' or e.val is None:
                continue
            o = e.target
            if e.op in ('add', 'append') and self.member(e.val, self.TR):
                TI.setdefault(o, []).append(e)
            elif e.val.op == 'splat' and e.val.a[0].op == 'item' and e.val.a[0].a[0] is self.TR:
                TI.setdefault(o, [])
            if e.op in ('setitem', 'setdefault') and self.member(e.key, self.PR):
                IDX.setdefault(o, []).append(e)
            if e.op in ('setitem', 'append') and kind(e.val) == 'int' and self.PR in symbols(e.val) and not self.member(e.key if e.key is not None else e.val, self.PR):
                SZ.setdefault(o, []).append(e)
        self.TI = set(TI)
        self.IDX = set(IDX)
        self.SZ = set()
        # items of the truth
        for o, es in TI.items():
            for lk, its in self.loops.items():
                for e in its:
                    if e.kind == 'iterend' and any(x.active and x.active[-1][0] == lk for x in es):
                        w = self.whole(e, self.TR)
                        if w is None:
                            put(unk(R6, e.where(), 'range of the loop over the truth'))
                        elif not any(x.kind == 'ins' and x.target is o and x.val is mk('item', mk('item', self.TR, w[0][1]), w[1][1]) for x in e.trace) and not any(f.op == 'in' and f.a[1] is o for f in e.facts):
                            put(bad(R6, e.where(), 'an item of the truth is not recorded when %s' % deltas(e)))
        # cluster of every predicted item
        n = 0
        for o, es in IDX.items():
            for lk, its in self.loops.items():
                if not any(x.active and x.active[-1][0] == lk for x in es):
                    continue
                for e in its:
                    if e.kind == 'cut':
                        if e.how == 'brk':
                            put(bad(R4, e.where(), 'items of a predicted cluster are left out'))
                        elif e.how == 'raise' and e.val[0] not in INTERNAL:
                            w = self.whole(e, self.PR)
                            item = mk('item', mk('item', self.PR, w[0][1]), w[1][1]) if w else None
                            if item is None or self.isin(e, item, {o}) or self.notin(e, item, self.TI) and not self.sc.tag('add'):
                                continue
                            if self.notin(e, item, self.TI):
                                put(bad(R6, e.where(), 'additional items are refused although they are allowed'))
                            elif self.isin(e, item, self.TI) and self.notin(e, item, {o}) and not self.opaque(e):
                                put(bad(R6, e.where(), 'an admissible clustering is refused when %s' % '; '.join(show(f)[:80] for f in e.facts if mentions(f, item))))
                            else:
                                put(unk(R6, e.where(), 'refusal'))
                        continue
                    w = self.whole(e, self.PR)
                    if w is None:
                        put(unk(R4, e.where(), 'range of the loop over the predicted clusters'))
                        continue
                    item = mk('item', mk('item', self.PR, w[0][1]), w[1][1])
                    ins = [x for x in e.trace if x.kind == 'ins' and x.target is o]
                    n += 1
                    if not ins:
                        if self.sc.tag('add') and self.notin(e, item, self.TI):
                            put(ok(R6, e.where(), 'additional items are ignored'))
                        elif self.notin(e, item, self.TI):
                            put(bad(R6, e.where(), 'additional items are ignored although they are not allowed'))
                        elif self.isin(e, item, {o}):
                            put(bad(R6, e.where(), 'an item found in several predicted clusters is accepted'))
                        else:
                            put(bad(R4, e.where(), 'a predicted item is not indexed when %s' % deltas(e)))
                        continue
                    x = ins[0]
                    if x.key is not item:
                        put(unk(R4, x.where(), 'key %s' % show(x.key)[:60]))
                        continue
                    if not (x.val is w[0][1] or kind(x.val) == 'int' and K.equal(x.val, w[0][1], x.facts)):
                        put(unk(R4, x.where(), 'indexed as %s' % show(x.val)[:60]))
                        continue
                    put(ok(R4, x.where(), '%s -> %s' % (show(item), show(w[0][1]))))
                    if self.TI:
                        if self.isin(x, item, self.TI):
                            put(ok(R6, x.where(), 'only items of the truth are indexed'))
                        else:
                            put(bad(R6, x.where(), 'additional items are %s' % ('counted' if self.sc.tag('add') else 'accepted')) if not self.opaque(x) else unk(R6, x.where(), 'additional items'))
                    if self.notin(x, item, {o}):
                        put(ok(R6, x.where(), 'an item is indexed once'))
                    else:
                        put(bad(R6, x.where(), 'an item found in several predicted clusters is accepted') if not self.opaque(x) else unk(R6, x.where(), 'duplicates'))
        if not n:
            put(unk(R4, self.sc.fn, 'no index of the predicted items'))
        # sizes
        for o, es in SZ.items():
            for e in es:
                i = [a[1] for a in e.active if a[3] is mk('len', self.PR)]
                k = e.key if e.op == 'setitem' else self.R.posof(e)
                if not i or k is None or not (k is i[0] or K.equal(k, i[0], e.facts)):
                    put(unk(R5, e.where(), 'size filed under %s' % (show(k)[:40] if k is not None else None)))
                    continue
                v = self.size(e.val, i[0], e)
                if v is True:
                    self.SZ.add(o)
                    put(ok(R5, e.where(), show(e.val)[:120]))
                elif v is False:
                    self.SZ.add(o)
                    put(bad(R5, e.where(), 'the size of a predicted cluster is taken to be %s' % show(e.val)[:120]))
                else:
                    put(unk(R5, e.where(), show(e.val)[:120]))
        # empty predicted clusters
        done, maybe = None, None
        for lk, its in self.loops.items():
            for e in its:
                if e.kind != 'iterend' or e.hi is not mk('len', self.PR):
                    continue
                one = mk('item', self.PR, e.binder)
                L = mk('len', one)
                if entails(e.facts, cmp_lit('<=', const(1), L)) or mk('truthy', one) in e.facts:
                    done = done or e
                elif entails(e.facts, eq0(L)) or lit_not(mk('truthy', one)) in e.facts:
                    put(bad(R6, e.where(), 'an empty predicted cluster is accepted'))
                elif any(x.kind == 'iter' and x.source is one for x in e.trace):
                    maybe = e
        if done:
            put(ok(R6, done.where(), 'empty predicted clusters are refused'))
        elif maybe:
            put(bad(R6, maybe.where(), 'an empty predicted cluster is accepted'))
        else:
            put(unk(R6, self.sc.fn, 'empty predicted clusters'))

    def opaque(self, e):
        return any(x.op in ('top', 'lib') or x.op == 'lv' and kind(x) not in ('int',) for f in e.facts for x in subterms(f))

    def isin(self, e, item, objs):
        return any(f.op == 'in' and f.a[0] is item and f.a[1] in objs for f in e.facts)

    def notin(self, e, item, objs):
        for f in e.facts:
            if f.op == 'not' and f.a[0].op == 'in' and f.a[0].a[0] is item and f.a[0].a[1] in objs:
                return True
            if f.op == 'isnone' and f.a[0].op == 'at' and f.a[0].a[1] is item and f.a[0].a[0] in objs:
                return True
        for o in objs:
            if o in e.st.ob and entails(e.facts, cmp_lit('<=', self.S.I.length(o, e.st), const(0))):
                return True
        return False

    def size(self, v, i, e):
        full = mk('len', mk('item', self.PR, i))
        if v is full:
            return not self.sc.tag('add')
        if v.op == 'sum' and v.a[2] is full and is_num_const(v.a[1]) and num(v.a[1]) == 0 and len(v.a[3]) == 1:
            gs, el = v.a[3][0]
            if not (is_num_const(el) and num(el) == 1):
                return None
            it = mk('item', mk('item', self.PR, i), v.a[0])
            rest = [g for g in gs if not (g.op == 'in' and g.a[0] is it and g.a[1] in self.TI) and not (g.op == 'not' and g.a[0].op == 'in' and g.a[0].a[0] is it and g.a[0].a[1] in self.IDX)]
            if rest:
                return None
            known = any(g.op == 'in' and g.a[1] in self.TI for g in gs)
            return True if known or not self.sc.tag('add') else None
        return None

    # -- scores ------------------------------------------------------------------------------------------------------
    def scores(self):
        put = self.put
        rets = [(st, v) for k, st, v in self.run.outs if k == 'ret']
        if not rets:
            put(unk(R3, self.sc.fn, 'no result'))
        for st, v in rets:
            if v.op != 'tuple' or len(v.a) != 3:
                put(unk(R3, self.sc.fn, 'result %s' % show(v)[:80]))
                continue
            cells = [self.average(n, t, st) for n, t in zip(('precision', 'recall', 'F1'), v.a)]
            if all(c is not None for c in cells):
                self.kept(cells)

    def average(self, n, t, st):
        """the loop cell averaged by t"""
        put = self.put
        sums = [s for s in subterms(t) if s.op == 'sum']
        vals = [s for s in sums if not all(is_num_const(el) for g, el in s.a[3])]
        ones = [s for s in sums if s not in vals]
        N = mk('len', self.TR)
        if len(vals) != 1:
            put(unk(R3, self.sc.fn, '%s: %s' % (n, show(t)[:100])))
            return None
        s = vals[0]
        if not (is_num_const(s.a[1]) and num(s.a[1]) == 0 and s.a[2] is N):
            put(unk(R3, self.sc.fn, '%s averaged over %s' % (n, show(s.a[2])[:60])))
            return None
        d = [o for o in ones if all(num(el) == 1 for g, el in o.a[3]) and o.a[1] is s.a[1] and o.a[2] is s.a[2] and set(g for g, el in o.a[3]) == set(g for g, el in s.a[3])]
        same = lambda a, b: eq0(sub(a, b)).op == 'const' and eq0(sub(a, b)).a[1]
        if not any(same(t, div(s, x)) for x in d + [N]):
            if not ones or same(t, s) or any(same(t, div(s, x)) for x in ones):
                put(bad(R3, self.sc.fn, '%s is %s' % (n, show(t)[:160])) if same(t, s) else unk(R3, self.sc.fn, '%s is %s' % (n, show(t)[:160])))
            else:
                put(unk(R3, self.sc.fn, '%s is %s' % (n, show(t)[:160])))
            return None
        els = set(el for g, el in s.a[3])
        if len(els) != 1:
            put(unk(R3, self.sc.fn, '%s is averaged from several values' % n))
            return None
        el, = els
        lvs = [y for y in symbols(el) if exitcell(y)]
        if not lvs or len(set(y.a[0] for y in lvs)) != 1:
            put(unk(R3, self.sc.fn, '%s is the average of %s' % (n, show(el)[:80])))
            return None
        # no truth cluster is left out
        src = lvs[0].a[0]
        lk = None
        for l, its in self.loops.items():
            for e in its:
                if e.hi is N and e.kind == 'iterend' and any(y.op == 'lv' and y.a[0] == src for y in self.stateterms(e.end)):
                    lk = l
        if lk is None:
            put(unk(R3, self.sc.fn, 'loop over the truth clusters not found'))
            return None
        for e in self.loops[lk]:
            if e.kind == 'cut':
                if e.how == 'brk':
                    put(bad(R3, e.where(), 'truth clusters are left out'))
                continue
            one = mk('item', self.TR, e.binder)
            L = mk('len', one)
            if entails(e.facts, cmp_lit('<=', const(1), L)) or mk('truthy', one) in e.facts:
                put(ok(R6, e.where(), 'empty truth clusters are refused'))
            elif entails(e.facts, eq0(L)) or lit_not(mk('truthy', one)) in e.facts:
                put(bad(R6, e.where(), 'an empty truth cluster is accepted'))
                continue
            else:
                put(unk(R6, e.where(), 'empty truth clusters'))
            x = subst(el, {s.a[0]: e.binder})
            grown = [1 for h, v in self.accumulators(e) if same(sub(v, h), x)]
            if not grown:
                if any(h is not v for h, v in self.accumulators(e)):
                    put(unk(R3, e.where(), 'contribution'))
                else:
                    put(bad(R3, e.where(), 'a truth cluster does not contribute to the %s when %s' % (n, deltas(e))))
        put(ok(R3, self.sc.fn, '%s averaged over the truth clusters' % n))
        return subst(el, {})

    def accumulators(self, e):
        """(head value, end value) of the numeric cells that live through the loop"""
        for fid, f in e.head.fr.items():
            g = e.end.fr.get(fid, {})
            for k, h in f.items():
                v = g.get(k)
                if isinstance(h, T) and isinstance(v, T) and kind(h) in ('num', 'int') and kind(v) in ('num', 'int'):
                    yield h, v
        for o, ob in e.head.ob.items():
            o2 = e.end.ob.get(o)
            if ob.kind == 'inst' and o2 is not None:
                for k, h in (ob.attrs or {}).items():
                    v = (o2.attrs or {}).get(k)
                    if isinstance(h, T) and isinstance(v, T) and kind(h) in ('num', 'int') and kind(v) in ('num', 'int'):
                        yield h, v

    def stateterms(self, st):
        for f in st.fr.values():
            for v in f.values():
                if isinstance(v, T):
                    for y in subterms(v):
                        yield y
        for o, ob in st.ob.items():
            if ob.kind == 'inst':
                for v in (ob.attrs or {}).values():
                    if isinstance(v, T):
                        for y in subterms(v):
                            yield y

    def cell(self, st, path):
        """value of a variable path in a state"""
        for f in st.fr.values():
            if path[0] in f:
                v = f[path[0]]
                for p in path[1:]:
                    if v.op != 'tuple' or not isinstance(p, int) or p >= len(v.a):
                        return v
                    v = v.a[p]
                return v
        return None

    def kept(self, cells):
        put = self.put
        lvs = sorted(set(y for c in cells for y in symbols(c) if exitcell(y)), key=lambda y: y.n)
        lk = lvs[0].a[0][1]
        if any(c.a[0] != lvs[0].a[0] for c in lvs) or lk not in self.loops:
            put(unk(R1, self.sc.fn, 'the three scores come from different loops'))
            return
        steps = []
        for e in self.loops[lk]:
            if e.kind == 'cut':
                continue
            out = [y for y in subterms(e.hi) if y.op == 'lib' and y.a[0] == 'most_common' and len(y.a) > 2] if e.hi is not None else []
            if out:
                put(bad(R2, e.where(), 'only %s are considered' % show(out[0])[:80]))
                return
            hm = dict((y, self.cell(e.head, y.a[1])) for y in lvs)
            em = dict((y, self.cell(e.end, y.a[1])) for y in lvs)
            if any(x is None for x in list(hm.values()) + list(em.values())):
                put(unk(R1, e.where(), 'values kept'))
                continue
            upd = [hm[y] is not em[y] for y in lvs]
            atoms = self.atoms(e)
            if atoms is None:
                put(unk(R4, e.where(), 'candidates not recognised'))
                continue
            tp, m, n = atoms
            if any(upd) and not all(upd):
                if all(num_like(x) for x in em.values()):
                    put(bad(R1, e.where(), 'only %s updated' % ', '.join(str(y.a[1]) for y, u in zip(lvs, upd) if u)))
                else:
                    put(unk(R1, e.where(), 'partial update'))
                continue
            # the truth size in the averaged term is that of the loop
            c = [a[1] for a in e.active if a[3] is mk('len', self.TR)]
            q = dict((y, c[0]) for x in cells for y in symbols(x) if y.op == 'bnd' and y.a[0][0] == 'q')
            em2 = dict(em)
            end = [subst(subst(x, em2), q) for x in cells]
            self.formulas(e, end, all(upd), tp, m, n)
            steps.append((e, tp, m, n))
        if steps:
            self.selection(cells, lvs, steps)

    def stops(self):
        """the search for the best candidate may only stop early at a perfect one"""
        put = self.put
        for lk, its in self.loops.items():
            for e in its:
                if e.kind != 'cut' or e.how != 'brk' or e.binder.op != 'bnd':
                    continue
                at = self.atoms(e)
                if at is None:
                    continue
                tp, m, n = at
                fs = sorted(e.facts, key=lambda f: f.n)
                for a, b, c in POINTS:
                    f = F(2 * a, b + c)
                    if f == 1:
                        continue
                    fe, u = feasible(Model({tp: F(a), m: F(b), n: F(c)}), fs)
                    if fe is False:
                        continue
                    rel = [x for x in u if x.op != 'in' and tp in set(subterms(x))]
                    put(unk(R2, e.where(), '; '.join(show(x)[:80] for x in rel)) if rel else bad(R2, e.where(), 'the search stops at a candidate with F1 %s' % f))
                    break
                else:
                    put(ok(R2, e.where(), 'the search only stops at a perfect candidate'))

    def atoms(self, e):
        """terms of the shared count, the predicted size and the truth size on an iteration over the candidates"""
        ts = set(y for x in e.trace if x.kind == 'div' for t in (x.den, x.num) for y in subterms(t))
        for f in e.st.fr.values():
            for v in f.values():
                if isinstance(v, T):
                    ts |= set(subterms(v))
        tps = [t for t in ts if t.op == 'cnt' and t.a[1].op == 'dkey' and t.a[1].a[0] is t.a[0] and t.a[1].a[1] is e.binder]
        if len(tps) != 1:
            return None
        tp = tps[0]
        c = [a[1] for a in e.active if a[3] is mk('len', self.TR)]
        if not c or not self.shared(tp.a[0], c[0]):
            return None
        ms = [t for t in ts if t.op in ('at', 'item') and t.a[0] in self.SZ and t.a[1] is tp.a[1]]
        if len(ms) != 1:
            return None
        return tp, ms[0], mk('len', mk('item', self.TR, c[0]))

    def shared(self, o, c):
        """o counts, for every item of the truth cluster c, the predicted cluster it is in"""
        put = self.put
        recs = [x for x in self.run.log if x.kind in ('inc', 'ins') and x.target.op == 'obj' and x.target is o]
        if not recs:
            return False
        lks = set(x.active[-1][0] for x in recs if x.active)
        if len(lks) != 1:
            return False
        lk, = lks
        good = True
        for e in self.loops.get(lk, ()):
            if e.kind == 'cut':
                if e.how == 'brk':
                    put(bad(R4, e.where(), 'items of the truth cluster are left out'))
                elif e.how == 'raise' and e.val[0] not in INTERNAL:
                    item = mk('item', mk('item', self.TR, c), e.binder)
                    if self.isin(e, item, self.IDX) and not self.notin(e, item, self.IDX):
                        fs = [f for f in e.facts if mentions(f, item) and f.op != 'in']
                        put(bad(R6, e.where(), 'an admissible clustering is refused when %s' % '; '.join(show(f)[:80] for f in fs)) if fs and all(f.op in ('eq0', 'not', 'le', 'lt') for f in fs) else unk(R6, e.where(), 'refusal'))
                continue
            item = mk('item', mk('item', self.TR, c), e.binder)
            if not (e.hi is mk('len', mk('item', self.TR, c)) and is_num_const(e.lo) and num(e.lo) == 0):
                put(unk(R4, e.where(), 'range'))
                return False
            xs = [x for x in e.trace if x.kind in ('inc', 'ins') and x.target is o]
            if not xs:
                if self.notin(e, item, self.IDX):
                    put(bad(R6, e.where(), 'an item of the truth that is in no predicted cluster is ignored'))
                else:
                    put(bad(R4, e.where(), 'an item of the truth cluster is not counted when %s' % deltas(e)))
                continue
            x = xs[0]
            if len(xs) > 1 or x.kind != 'inc' or not (is_num_const(x.delta) and num(x.delta) == 1):
                put(unk(R4, x.where(), 'count'))
                return False
            if not (x.key.op == 'at' and x.key.a[0] in self.IDX and x.key.a[1] is item):
                put(unk(R4, x.where(), 'counted under %s' % show(x.key)[:80]))
                return False
            put(ok(R4, x.where(), 'shared items are counted under %s' % show(x.key)[:80]))
            if self.notin(e, item, self.IDX):
                put(unk(R6, x.where(), 'items found in no predicted cluster'))
        return good

    def formulas(self, e, end, upd, tp, m, n):
        put = self.put
        if not upd:
            return
        for a, b, c in POINTS:
            p, r = F(a, b), F(a, c)
            f = 2 * p * r / (p + r)
            env = {tp: F(a), m: F(b), n: F(c)}
            for name, t, w in zip(('precision', 'recall', 'F1'), end, (p, r, f)):
                try:
                    v = Model(env)(t)
                except (Unknown, Undef) as x:
                    put(unk(R1, e.where(), '%s: %s' % (name, str(x)[:80])))
                    return
                if v != w and not (isinstance(v, float) and abs(v - float(w)) < 1e-9):
                    put(bad(R1, e.where(), '%s is taken to be %s, not %s, with %d shared items out of %d (predicted) and %d (truth)' % (name, v, w, a, b, c)))
                    return
        put(ok(R1, e.where(), 'precision %s, recall %s' % (show(end[0])[:100], show(end[1])[:60])))

    def selection(self, cells, lvs, steps):
        """meaning of the transfer relation of the loop over the candidates, for one and for two candidates"""
        put = self.put
        e0 = steps[0][0]
        init = {}
        for fid, fr in e0.entry.fr.items():
            for k, v in fr.items():
                x = value(v)
                if x is not NO:
                    init[(fid, k)] = x

        def move(state, cand, prev, n):
            res = []
            for e, tp, m, nn in steps:
                b = {e.binder: F(0 if prev is None else 1), tp: F(cand[0]), m: F(cand[1]), nn: F(n)}
                if prev is not None:
                    back = {e.binder: sub(e.binder, const(1))}
                    b[subst(tp, back)] = F(prev[0])
                    b[subst(m, back)] = F(prev[1])
                if not all(match(h, state.get((fid, k), NO), e.loop, b) for fid, fr in e.head.fr.items() for k, h in fr.items() if isinstance(h, T)):
                    continue
                fe, u = feasible(Model(b), sorted(e.facts, key=lambda f: f.n))
                if fe is False:
                    continue
                rel = [x for x in u if x.op != 'in' and (tp in set(subterms(x)) or any(y.op == 'lv' and y.a[0] == e.loop and y.a[1][0] not in ('ver', 'ln') for y in symbols(x)))]
                if rel:
                    return '; '.join(show(x)[:80] for x in rel)
                new = dict(state)
                for fid, fr in e.end.fr.items():
                    for k, v in fr.items():
                        try:
                            new[(fid, k)] = tup(v, Model(b))
                        except (Unknown, Undef):
                            new.pop((fid, k), None)
                res.append((new, e))
            if len(res) != 1:
                return '%d ways through an iteration' % len(res)
            return res[0]

        def result(state, n):
            b = {}
            for y in lvs:
                got = [v for (fid, k), v in state.items() if k == y.a[1][0]]
                if len(got) != 1:
                    return None
                v = got[0]
                for p in y.a[1][1:]:
                    v = v[p] if isinstance(v, tuple) and isinstance(p, int) and p < len(v) else None
                b[y] = v
            for x in cells:
                for y in subterms(x):
                    if y.op == 'len':
                        b[y] = F(n)
            try:
                return tuple(Model(b)(x) for x in cells)
            except (Unknown, Undef):
                return None
        sc = lambda c, n: (F(c[0], c[1]), F(c[0], n), F(2 * c[0], c[1] + n))
        cnt = 0
        for n in sorted(set(p[2] for p in POINTS)):
            cs = [(a, b) for a, b, c in POINTS if c == n]
            for c1 in cs:
                r = move(init, c1, None, n)
                if isinstance(r, str):
                    put(unk(R2, e0.where(), r))
                    return
                s1, e = r
                got = result(s1, n)
                if got is None:
                    put(unk(R2, e.where(), 'values kept'))
                    return
                if got != sc(c1, n):
                    put(bad(R2, e.where(), 'with one candidate sharing %d items (sizes %d and %d), %s is kept' % (c1[0], c1[1], n, tuple(map(str, got)))))
                    return
                cnt += 1
                for c2 in cs:
                    if c1[0] + c2[0] > n:
                        continue
                    r = move(s1, c2, c1, n)
                    if isinstance(r, str):
                        put(unk(R2, e0.where(), r))
                        return
                    s2, e = r
                    got = result(s2, n)
                    x, y = sc(c1, n), sc(c2, n)
                    best = [max(x, y, key=lambda t: t[2])] if x[2] != y[2] else [x, y]
                    if got is None:
                        put(unk(R2, e.where(), 'values kept'))
                        return
                    if got not in best:
                        put(bad(R2, e.where(), 'with two candidates sharing %d of %d and %d of %d items (truth cluster of %d), F1 %s is kept, not %s' % (c1 + c2 + (n, got[2], best[0][2]))))
                        return
                    cnt += 1
        put(ok(R2, e0.where(), 'transfer relation of %d paths, %d combinations of candidates' % (len(steps), cnt)))


NO = object()
INTERNAL = ('KeyError', 'IndexError', 'AssertionError', 'ZeroDivisionError', 'StatisticsError')


def value(v):
    """python value of a constant term"""
    if not isinstance(v, T):
        return NO
    if v.op == 'tuple':
        xs = tuple(value(x) for x in v.a)
        return NO if any(x is NO for x in xs) else xs
    if v.op == 'const':
        return F(num(v)) if is_num_const(v) and not isinstance(v.a[1], (bool, float)) else v.a[1] if not isinstance(v.a[1], float) else F(v.a[1]) if abs(v.a[1]) != float('inf') else v.a[1]
    return NO


def tup(v, m):
    if isinstance(v, T) and v.op == 'tuple':
        return tuple(tup(x, m) for x in v.a)
    if not isinstance(v, T):
        raise Unknown('')
    return m(v)


def match(h, v, lk, b):
    if h.op == 'lv' and h.a[0] == lk:
        if v is NO:
            return True
        if v is None or isinstance(v, tuple):
            return False
        if h in b and b[h] != v:
            return False
        b[h] = v
        return True
    if h.op == 'tuple':
        if v is NO:
            return True
        return isinstance(v, tuple) and len(v) == len(h.a) and all(match(x, y, lk, b) for x, y in zip(h.a, v))
    if h.op == 'const' and v is not NO:
        return value(h) == v
    return True


# shared items, predicted size, truth size
POINTS = [(a, b, c) for a in range(1, 5) for b in range(a, 6) for c in range(a, 6)] + [(1, 90, 90), (1, 90, 1), (1, 1, 90), (1, 2, 90), (2, 2, 90), (30, 90, 90), (30, 30, 90)]


def exitcell(y):
    return y.op == 'lv' and isinstance(y.a[0], tuple) and y.a[0][0] == 'x' and isinstance(y.a[1], tuple) and y.a[1][0] not in ('ver', 'ln', 'content') or \
        y.op == 'lv' and isinstance(y.a[0], tuple) and y.a[0][0] == 'x' and isinstance(y.a[1], str)


def num_like(t):
    return kind(t) in ('num', 'int') or t.op == 'lv'
