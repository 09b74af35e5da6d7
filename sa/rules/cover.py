"""Which pairs a nest of loops decides: every path through every loop, for every small size of the collection.

The loops around the comparison are known by their bounds and by the condition and the trace of every path through one
iteration.  For each size n (and window, chunk size) and each pair of positions, the pair is decided when some iteration
compares it on every feasible path that is not an admissible skip, and no feasible exit comes before that iteration."""
from fractions import Fraction as F
from .. import scen
from ..terms import T, mk, show, subterms, symbols, kind, cmp_lit, entails, mentions, lit_not, const, num, is_num_const, eq0, sub, subst
from ..model import Model, Unknown, Undef
from . import links as K

CRIT = (scen.SIM, scen.DIST, scen.SIMP, scen.DISTP)


class End(object):
    """one side of a comparison: position idx of carrier C"""
    __slots__ = ('raw', 'item', 'C', 'idx')

    def __init__(self, raw, item):
        self.raw, self.item, self.C, self.idx = raw, item, item.a[0], item.a[1]

    def match(self, t, facts):
        if t is self.raw or t is self.item or K.same(t, self.item, facts):
            return True
        return kind(t) == 'int' and K.equal(t, self.idx, facts)


def endof(t):
    x = t
    if x.op == 'app' and x.a[0] is scen.KEY and len(x.a) == 2:
        x = x.a[1]
    if x.op == 'item' and len(x.a) >= 2 and isinstance(x.a[0], T):
        return End(t, x)
    return None


def base(C):
    """(collection, why it is not the whole of it)"""
    while True:
        op = C.op
        if op in ('sorted', 'listof', 'rev', 'sorted_uniq', 'setof', 'slc'):
            if op in ('setof', 'sorted_uniq'):
                return C, 'duplicates are removed'
            if op == 'slc':
                return C, 'only a slice is kept'
            C = C.a[0]
        elif op == 'lib' and C.a[0] in ('sorted', 'listof', 'rev'):
            C = C.a[1]
        else:
            return C, None


class Path(object):
    __slots__ = ('ev', 'facts', 'trace', 'how', 'decided', 'ran', 'new')

    def __init__(self, ev, facts, trace, how, new):
        self.ev, self.facts, self.trace, self.how, self.new = ev, facts, trace, how, new
        self.decided = []
        self.ran = [x.d['loop'] for x in trace if x.kind == 'ran']


class Cover(object):
    def __init__(self, run, S, decide, justify):
        """decide(trace, facts) -> [(End, End)]; justify(path, ends) -> True (admissible skip) | False | None (not understood)"""
        self.run, self.I = run, S.I
        self.justify = justify
        self.loops = {}
        self.info = {}
        self.ends = {}
        self.chains = set()
        self.rel = set()
        self.carriers = {}
        for e in run.log:
            if e.kind in ('iterend', 'cut'):
                if e.kind == 'cut' and e.how not in ('brk', 'ret'):
                    continue
                head = e.get('head')
                new = set(e.facts) - (set(head.facts) if head is not None else set(e.entry.facts))
                p = Path(e, e.facts, e.trace, None if e.kind == 'iterend' else e.how, new)
                p.decided = decide(e.trace, e.facts)
                self.loops.setdefault(e.loop, {}).setdefault(id(e.entry), (e.entry, []))[1].append(p)
                self.info.setdefault((e.loop, id(e.entry)), (e.binder, e.lo, e.hi, e))
                for a, b in p.decided:
                    if not any(x.item is a.item and y.item is b.item for x, y in self.ends.get(e.loop, ())):
                        self.ends.setdefault(e.loop, []).append((a, b))
                    self.carriers.setdefault((a.C, b.C), e)
                    for act in e.active:
                        if act[0][0] != 'u':
                            self.chains.add(act[0])
        # loops whose index takes part in the positions
        todo = [s for l in self.ends.values() for a, b in l for s in symbols(a.idx) | symbols(b.idx) if s.op == 'bnd']
        bylk = {}
        cols = set(base(c)[0] for k in self.carriers for c in k)
        for (lk, _), (b, lo, hi, e) in self.info.items():
            bylk.setdefault(b, []).append((lk, lo, hi))
        while todo:
            b = todo.pop()
            if b in self.rel:
                continue
            self.rel.add(b)
            for lk, lo, hi in bylk.get(b, ()):
                for t in (lo, hi):
                    if t is not None:
                        z = {x: const(2) for x in subterms(t) if x.op == 'len' and base(x.a[0])[0] in cols}
                        todo += [s for s in symbols(subst(t, z)) if s.op == 'bnd']
        self.tops = []
        for k, st, v in run.outs:
            if k in ('done', 'ret', 'next'):
                p = Path(None, st.facts, st.trace, None, set(st.facts))
                p.decided = decide(st.trace, st.facts)
                self.tops.append(p)
        self.consts()

    def consts(self):
        """sizes beyond the small ones at which the loops may behave differently"""
        self.bigger = set()
        for lk in self.chains:
            for eid, (entry, ps) in self.loops[lk].items():
                b, lo, hi, e = self.info[(lk, eid)]
                for t in [x for x in (lo, hi) if x is not None] + [f for p in ps for f in p.new]:
                    if any(x.op == 'app' and x.a[0] in CRIT for x in subterms(t)):
                        continue
                    for x in subterms(t):
                        if x.op == 'poly':
                            for mono, c in x.a:
                                if not mono and 4 < abs(c) <= 128:
                                    self.bigger.add(int(abs(c)))
                        elif is_num_const(x) and isinstance(num(x), (int, F)) and 4 < num(x) <= 128:
                            self.bigger.add(int(num(x)))

    # ---------------------------------------------------------------- evaluation
    def model(self, env, n):
        def hook(t, m):
            if t.op == 'len':
                c, _ = base(t.a[0])
                if c in self.cols:
                    return F(n)
            return None
        m = Model(env, None, None, hook)
        m.n = n
        return m

    def holds(self, facts, m):
        """False when some fact is false in m; facts that say something else are ignored"""
        for f in facts:
            v = m.cache.get(f)
            if v is None:
                try:
                    v = bool(m.truth(f))
                except Undef:
                    v = False
                except Unknown:
                    v = 'u'
                m.cache[f] = v
            if v is False:
                return False
        return True

    def eval(self, t, m):
        try:
            v = m.num(t)
            return int(v) if v.denominator == 1 else None
        except (Unknown, Undef, AttributeError):
            return None

    # ---------------------------------------------------------------- coverage
    def check(self, n, want, params):
        """pairs of want that are not decided: [(p, q, why)], and True when something was not understood"""
        self.cols = set(base(c)[0] for k in self.carriers for c in k)
        env = {k: F(v) for k, v in params.items()}
        m = self.model(env, n)
        m.cache = {}
        out = []
        self.unsure = False
        self.memo = {}
        for pq in want:
            r, why = self.all_paths(self.tops, m, (), pq, None)
            if r is not True:
                out.append((pq, r, why))
        return out

    def all_paths(self, paths, m, val, pq, ends):
        """True / False / None with the reason"""
        res, why = True, None
        for p in paths:
            if not self.holds(p.facts, m):
                continue
            r, w = self.path(p, m, val, pq, ends)
            if r is False:
                return False, w
            if r is None:
                res, why = None, w
        return res, why

    def path(self, p, m, val, pq, ends):
        for a, b in p.decided:
            x, y = self.eval(a.idx, m), self.eval(b.idx, m)
            if x is None or y is None:
                if p.ran:
                    continue
                return None, 'positions %s, %s' % (show(a.idx)[:60], show(b.idx)[:60])
            if (x, y) == pq or (y, x) == pq:
                return True, None
        unsure, why = False, None
        went = False
        for lk in p.ran:
            if lk not in self.chains:
                continue
            went = True
            r, w = self.loop(lk, m, val, pq)
            if r is True:
                return True, None
            if r is None:
                unsure = True
            why = w or why
        j = self.justify(p, ends or [e for lk in self.chains for e in self.ends.get(lk, ())])
        if j is True:
            return True, None
        if unsure or j is None and not went:
            return None, why or 'skip not understood: ' + '; '.join(show(f)[:90] for f in sorted(p.new, key=lambda f: f.n))[:300]
        if why:
            return False, why
        return False, 'passed over under [%s]%s' % ('; '.join(show(f)[:90] for f in sorted(p.new, key=lambda f: f.n))[:300], ' at ' + p.ev.where() if p.ev is not None else '')

    def loop(self, lk, m, val, pq):
        key = (lk, val, pq)
        if key in self.memo:
            return self.memo[key]
        res, why = True, None
        n = 0
        for eid, (entry, paths) in self.loops.get(lk, {}).items():
            if not self.holds(entry.facts, m):
                continue
            n += 1
            r, w = self.invocation(lk, eid, paths, m, val, pq)
            if r is not True:
                why = w
                res = r
                if r is False:
                    break
        if not n:
            res, why = None, 'no iteration of %s' % (lk[1],)
        self.memo[key] = res, why
        return res, why

    def invocation(self, lk, eid, paths, m, val, pq):
        b, lo, hi, e = self.info[(lk, eid)]
        ends = self.ends.get(lk)
        if b not in self.rel:
            r = full(lo, hi)
            if r is not True:
                return r, 'the loop at %s runs from %s to %s' % (e.where(), show(lo)[:40], show(hi)[:80] if hi is not None else '?')
            live = [p for p in paths]
            cuts = [p for p in live if p.how]
            for c in cuts:
                if self.holds(c.facts, m):
                    j = self.justify(c, ends or ())
                    if j is not True:
                        return (None if j is None else False), 'the loop at %s is left early under [%s]' % (e.where(), '; '.join(show(f)[:80] for f in sorted(c.new, key=lambda f: f.n))[:240])
            return self.all_paths([p for p in live if not p.how], m, val, pq, ends)
        L = self.eval(lo, m)
        H = self.eval(hi, m) if hi is not None else None
        if L is None or hi is not None and H is None:
            return None, 'bounds of the loop at %s: %s .. %s' % (e.where(), show(lo)[:60], show(hi)[:60] if hi is not None else '?')
        if H is None:
            H = L + 2 * m.n + 3
        unsure, why = None, None
        for x in range(L, H):
            m2 = m.bind(b, F(x))
            m2.cache = {}
            m2.n = m.n
            feas = [p for p in paths if self.holds(p.facts, m2)]
            if not feas:
                continue
            # quick rejection: this iteration has nothing to do with the pair
            r, w = self.related(feas, m2, val + ((b, x),), pq, ends)
            if r is True:
                return True, None
            if r is None:
                unsure = w
            elif w and (why is None or why.startswith('no iteration')):
                why = w
            for c in feas:
                if c.how:
                    j = self.justify(c, ends or ())
                    if j is not True and (j is None or unsure):
                        return None, 'early exit not understood at %s' % e.where()
                    if j is not True:
                        return False, 'the loop at %s is left at %s=%d before the pair under [%s]' % (e.where(), show(b), x, '; '.join(show(f)[:80] for f in sorted(c.new, key=lambda f: f.n))[:240])
        if unsure:
            return None, unsure
        return False, why or 'no iteration of the loop at %s (from %s to %s) compares positions %d and %d' % (e.where(), show(lo)[:50], show(hi)[:80] if hi is not None else '?', pq[0], pq[1])

    def related(self, feas, m, val, pq, ends):
        """does the iteration decide the pair on every feasible path"""
        hit = False
        if ends and not any(lk in self.chains for p in feas for lk in p.ran):
            for a, b in ends:
                x, y = self.eval(a.idx, m), self.eval(b.idx, m)
                if x is None or y is None:
                    return None, 'positions %s, %s' % (show(a.idx)[:60], show(b.idx)[:60])
                if (x, y) == pq or (y, x) == pq:
                    hit = True
            if not hit:
                return False, None
            return self.all_paths([p for p in feas if not p.how or p.decided], m, val, pq, ends)
        # an enclosing loop: some inner loop must decide the pair
        res, why, some = True, None, False
        for p in feas:
            if p.how and not p.decided and not any(lk in self.chains for lk in p.ran):
                continue
            r, w = self.path(p, m, val, pq, ends)
            if any(lk in self.chains for lk in p.ran) or p.decided:
                some = some or r is True
            if r is not True:
                res = False if r is False or res is False else None
                if why is None or why.startswith('no iteration'):
                    why = w
        if res is True and not some:
            return False, None
        return res, why


def full(lo, hi):
    if not (is_num_const(lo) and num(lo) == 0):
        return False if is_num_const(lo) else None
    if hi is None:
        return True
    if hi.op in ('len', 'lv'):
        return True
    if hi.op == 'min' or hi.op == 'poly' and any(t.op == 'len' for t in subterms(hi)) and is_num_const(sub(hi, [t for t in subterms(hi) if t.op == 'len'][0])):
        return False
    return None
