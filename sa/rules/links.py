"""Link events: where a routine decides that two items belong together, and the evidence it had.

A link is a union of two positions, or the insertion of an item (or position) into the neighbours of another one.
When the two ends were read back from a container filled earlier, the evidence is looked for where the container
was filled (insertion records)."""
from ..terms import T, mk, const, show, subst, subterms, cmp_lit, lit_not, entails, kind, symbols, eq0, sub, add, neg, linear, mentions
from .. import scen

DSYM = ('data', 'records', 'left', 'right')
WRAP = ('sorted', 'listof', 'setof', 'rev', 'slc', 'sorted_uniq')


class Records(object):
    def __init__(self, run, I):
        self.I = I
        self.by = {}
        self.keys = {}
        for e in run.log:
            if e.kind in ('ins', 'inc') and e.target.op == 'obj':
                site = nsite(e.target.a[0])
                self.by.setdefault(site, []).append(e)
                if ismem(e.target):
                    self.keys.setdefault(site[1], []).append((e.target.a[1][0], e))
                elif e.key is not None:
                    self.keys.setdefault(site, []).append((e.key, e))
        self.cnt = 0
        self.foreign = {}
        for e in run.log:
            if e.kind == 'ins' and e.target.op == 'item' and e.target.a[0].op == 'obj':
                for r in self.by.get(nsite(e.target.a[0].a[0]), ()):
                    if r.kind == 'ins' and r.op == 'append' and r.val.op == 'obj':
                        self.foreign.setdefault(nsite(r.val.a[0]), {})[(e.id, r.id)] = (e, r)

    def posof(self, r):
        """position at which an append puts its value"""
        if r.op != 'append':
            return None
        p = self.I.length(r.target, r.st)
        if p.op == 'lv':
            for lk, b, lo, hi, n in reversed(r.active):
                for q in (b, sub(b, lo)):
                    l = eq0(sub(p, q))
                    if b.op == 'bnd' and l.op != 'const' and entails(r.facts, l):
                        return q
        return p

    def fresh(self, e, keep):
        """renaming of the loop indices of a record that are not shared with the reader"""
        self.cnt += 1
        m = {}
        loops = {}
        for lk, b, lo, hi, n in e.active:
            if b.op == 'bnd' and b not in keep:
                m[b] = mk('bnd', ('r', self.cnt, b.a[0]))
                loops[lk] = 1
        if loops:
            syms = set(symbols(e.val)) | set(symbols(e.target))
            for f in e.facts:
                syms |= symbols(f)
            for s in syms:
                if s.op == 'lv' and s.a[0] in loops:
                    m[s] = mk('lv', ('r', self.cnt, s.a[0]), *s.a[1:])
        return m

    def into(self, o, keep=(), index=None):
        """(value, facts, key equation, record) for every record that may be the element read from o"""
        out = []
        for e, r in self.foreign.get(nsite(o.a[0]), {}).values():
            m = self.fresh(e, ())
            facts = set(subst(f, m) for f in e.facts)
            m2 = {x: y for x, y in zip(r.val.a[1], o.a[1]) if isinstance(x, T) and x.op == 'bnd'}
            p = self.posof(r)
            m3 = self.fresh(r, set(m2))
            m3.update(m2)
            facts |= set(subst(f, m3) for f in r.facts)
            if p is not None:
                l = eq0(sub(subst(e.target.a[1], m), subst(p, m3)))
                if l.op != 'const':
                    facts.add(l)
            out.append((subst(e.val, m), frozenset(facts), [], e))
        for e in self.by.get(nsite(o.a[0]), ()):
            if e.kind != 'ins':
                continue
            k = set(keep)
            tie = {}
            if not ismem(o):
                for x, y in zip(e.target.a[1], o.a[1]):
                    if isinstance(x, T) and isinstance(y, T) and x.op == 'bnd':
                        tie[x] = y
                k |= set(x for x in tie if tie[x] is x)
            m = self.fresh(e, k)
            m.update((x, y) for x, y in tie.items() if x is not y)
            eq = [(subst(x, m), y) for x, y in zip(memkeys(e.target), memkeys(o))]
            v = subst(e.val, m)
            if v.op == 'splat':
                v = v.a[0]
                if v.op == 'snap' and v.a[0].op == 'obj':
                    if nsite(v.a[0].a[0]) == nsite(o.a[0]):
                        continue
                    v = mk('item', v.a[0], mk('bnd', ('s', self.cnt)), v.a[1])
                else:
                    v = mk('item', v, mk('bnd', ('s', self.cnt)))
            facts = set(subst(f, m) for f in e.facts)
            for x, y in eq:
                if x is not y and kind(x) == 'int' and kind(y) == 'int':
                    facts.add(eq0(sub(x, y)))
            if index is not None and e.op == 'append':
                p = self.posof(e)
                l = eq0(sub(index, subst(p, m))) if p is not None else None
                if l is not None and l.op != 'const':
                    facts.add(l)
            out.append((v, frozenset(facts), eq, e))
        return out

    def keysof(self, o):
        site = nsite(o.a[0])
        out = []
        for k, e in self.keys.get(site, ()):
            m = self.fresh(e, ())
            out.append((subst(k, m), frozenset(subst(f, m) for f in e.facts), e))
        return out


def nsite(site):
    """site of a container, the members of a mapping being one container whatever the key"""
    if isinstance(site, tuple) and len(site) == 3 and site[0] == 'mem':
        return ('mem', nsite(site[1]))
    return site


def memkeys(o):
    """keys through which a member container was reached, innermost first"""
    out = []
    site, idx = o.a[0], o.a[1]
    while isinstance(site, tuple) and len(site) == 3 and site[0] == 'mem':
        out.append(idx[0])
        site, idx = site[1], site[2]
    return out


def ismem(o):
    return o.op == 'obj' and isinstance(o.a[0], tuple) and len(o.a[0]) and o.a[0][0] == 'mem'


def is_data(t):
    while t.op in WRAP or t.op == 'lib' and t.a[0] in WRAP:
        t = t.a[0] if t.op in WRAP else t.a[1]
    return t.op == 'sym' and t.a[0] in DSYM


def is_item(t):
    return t.op == 'item' and is_data(t.a[0])


def bare(t):
    """a collection under what changes neither its elements nor, for a set, more than their repetitions"""
    while t.op in ('setof', 'listof', 'sorted', 'rev', 'sorted_uniq', 'tupleof') or t.op == 'lib' and t.a[0] in ('setof', 'listof', 'sorted', 'rev', 'sorted_uniq'):
        t = t.a[1] if t.op == 'lib' else t.a[0]
    return t


def readof(t):
    """innermost read of a run-local container on the way to t"""
    x = t
    while isinstance(x, T) and x.op in ('item', 'at', 'dkey'):
        if x.a[0].op == 'obj':
            return x
        x = x.a[0]
    return None


def itemlike(t):
    return kind(t) == 'int' or is_item(t)


def replace(t, r, v):
    return subst(t, {r: v})


class Acc(object):
    """acceptance criterion of a scenario"""

    def __init__(self, sc, S, R):
        self.sc, self.S, self.R = sc, S, R
        self.crit = sc.tag('crit')
        self.keyed = bool(sc.tag('key'))
        self.data = sc.tag('data')

    def reps(self, t):
        """terms standing for the compared object of an item or position"""
        out = []
        if not is_item(t) and kind(t) in ('int', 'any', 'num'):
            out.append(mk('item', self.data, t))
        if kind(t) != 'int' or is_item(t):
            out.append(t)
        if self.keyed:
            return [mk('app', scen.KEY, x) for x in out]
        return out

    def lit(self, X, Y):
        c = self.crit
        if c == 'sim+r':
            return cmp_lit('>=', mk('app', scen.SIM, X, Y), scen.RAD)
        if c == 'dist+r':
            return cmp_lit('<=', mk('app', scen.DIST, X, Y), scen.RAD)
        if c == 'sim':
            return mk('truthy', mk('app', scen.SIMP, X, Y))
        if c == 'dist':
            return lit_not(mk('truthy', mk('app', scen.DISTP, X, Y)))
        if c == 'dist+k':
            k = [a for a in self.sc.args if a.op == 'sym' and a.a[0] == 'k'][0]
            return cmp_lit('<=', mk('app', scen.DIST, X, Y), k)

    def lits(self, X, Y):
        """literals that each express the acceptance"""
        out = [self.lit(X, Y)]
        if self.crit == 'dist':
            out.append(eq0(mk('app', scen.DISTP, X, Y)))
        return out

    def kterm(self):
        return [x for x in self.sc.args if x.op == 'sym' and x.a[0] == 'k'][0]

    def accepted(self, facts, a, b):
        apps = self.mentioned(facts)
        for X in self.reps(a):
            for Y in self.reps(b):
                for P, Q in [(X, Y), (Y, X)] + [(x.a[1], x.a[2]) for x in apps if len(x.a) == 3]:
                    if not (same(P, X, facts) and same(Q, Y, facts) or same(P, Y, facts) and same(Q, X, facts)):
                        continue
                    for l in self.lits(P, Q):
                        if l in facts or entails(facts, l):
                            return l
                if self.crit == 'dist+k':
                    k = self.kterm()
                    if all(entails(facts, cmp_lit('<=', mk('len', z), k)) for z in (X, Y)):
                        return cmp_lit('<=', mk('len', X), k)
        return None

    def mentioned(self, facts):
        """criterion applications on the path"""
        out = set()
        for f in facts:
            for s in subterms(f):
                if s.op == 'app' and s.a[0].op == 'sym' and s.a[0].a[0] in ('similarity', 'distance'):
                    out.add(s)
        return out


_EQ = {}


def equalities(facts):
    """substitution solving the linear equalities among the facts"""
    k = frozenset(facts)
    if k in _EQ:
        return _EQ[k]
    le = set(f.a[0] for f in facts if f.op == 'le')
    eqs = [f.a[0] for f in facts if f.op == 'eq0']
    eqs += [p for p in le if neg(p) in le and p.n < neg(p).n]
    m = []
    for p in sorted(eqs, key=lambda p: p.n):
        for a, b in m:
            p = subst(p, {a: b})
        co, c0 = linear(p)
        pick = [a for a, c in co.items() if abs(c) == 1 and a.op in ('bnd', 'lv')]
        if not pick:
            continue
        a = max(pick, key=lambda a: a.n)
        rest = sub(a, p) if co[a] == 1 else add(a, p)
        if mentions(rest, a):
            continue
        m = [(x, subst(y, {a: rest})) for x, y in m] + [(a, rest)]
    if len(_EQ) > 5000:
        _EQ.clear()
    _EQ[k] = m
    return m


def equal(p, q, facts):
    d = sub(p, q)
    for a, b in equalities(facts):
        d = subst(d, {a: b})
    l = eq0(d)
    if l.op == 'const':
        return bool(l.a[1])
    return entails(facts, eq0(sub(p, q)))


def same(x, y, facts):
    """equal terms, or items at positions equal under the facts"""
    if x is y:
        return True
    if x.op == 'app' and y.op == 'app' and x.a[0] is y.a[0] and len(x.a) == len(y.a) == 2:
        return same(x.a[1], y.a[1], facts)
    if x.op == 'item' and y.op == 'item' and x.a[0] is y.a[0]:
        return equal(x.a[1], y.a[1], facts)
    return False


def links(run):
    """(a, b, facts, event)"""
    for e in run.log:
        if e.kind == 'union':
            yield e.a, e.b, e.facts, e
        elif e.kind == 'ins' and ismem(e.target):
            a, b = e.target.a[1][0], e.val
            if b.op == 'splat':
                continue
            yield a, b, e.facts, e


def evidence(R, acc, a, b, facts, depth=0, seen=(), test=None):
    """list of (verdict, detail): verdict True (accepted), False (no acceptance on this way), None (unknown)"""
    test = test or acc.accepted
    if a is b:
        return [(True, 'same item')]
    l = test(facts, a, b)
    if l is not None:
        return [(True, show(l)[:140])]
    if depth > 4:
        return [(None, 'deep')]
    r = readof(a) or readof(b)
    if r is None:
        return [(False, (a, b, facts))]
    o = r.a[0]
    if r in seen:
        return [(None, 'cyclic')]
    out = []
    if r.op == 'dkey':
        alts = [(k, f, None, e) for k, f, e in R.keysof(o)]
    elif r.op == 'at':
        return [(None, 'lookup ' + show(r)[:80])]
    else:
        alts = R.into(o, index=r.a[1] if kind(r.a[1]) == 'int' else None)
    if not alts:
        return [(None, 'unresolved ' + show(r)[:80])]
    for v, f, eq, e in alts:
        a2, b2 = replace(a, r, v), replace(b, r, v)
        f2 = frozenset(replace(x, r, v) for x in facts) | f
        out += evidence(R, acc, a2, b2, f2, depth + 1, seen + (r,), test)
    return out


def leftovers(run, R, I):
    """(event, worklist, True | False | None) for the clusters built from a worklist that outlives them: nothing may be left in it
    when the next cluster starts"""
    sites = set(K for K in (nsite(e.val.a[0]) for e in run.log if e.kind == 'result' and e.val.op == 'obj'))
    seen = {}
    for s in sites:
        recs = [e for e in R.by.get(s, ()) if e.kind == 'ins']
        inits = [e for e in recs if e.op == 'init']
        for e in recs:
            if e.op == 'init' or e.val is None:
                continue
            r = readof(e.val)
            if r is None or r.op != 'item' or ismem(r.a[0]):
                continue
            W = r.a[0]
            mine = set(x for x in e.target.a[1] if isinstance(x, T) and x.op == 'bnd')
            if not mine - set(x for x in W.a[1] if isinstance(x, T)):
                continue
            dels = [d for d in run.log if d.kind in ('del', 'mut') and d.target is W and any(a[1] in mine for a in d.active)]
            if not dels:
                continue
            for i in inits:
                if W not in i.st.ob or (i.id, W) in seen:
                    continue
                L = I.length(W, i.st)
                if entails(i.facts, cmp_lit('<=', L, const(0))):
                    seen[(i.id, W)] = (i, W, True)
                    continue
                inner = [a[0] for a in e.active if a[1] not in set(x for b in i.active for x in [b[1]])]
                cuts = [c for c in run.log if c.kind == 'cut' and any(a[0] in inner for a in c.active)]
                seen[(i.id, W)] = (i, W, False if cuts else None)
    return list(seen.values())
