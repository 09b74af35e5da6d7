"""C06: results are made of the caller's own items."""
from .. import scen
from ..terms import T, mk, show, kind, subterms, num, is_num_const
from ..verdict import ok, bad, unk
from . import links as K
from .c05 import last

EXPLAIN = ("Origin analysis. Abstract interpretation of every clustering routine and record join gives, for each produced cluster or pair, the terms of its members; "
           "members read back from containers built by the routine (lists, neighbour mappings, union-find, worklists) are traced to the values that were put into "
           "these containers, transitively. Obligation: every origin of a member is an element of the collection given by the caller, read as such; a position, a "
           "key, a token set or any other derived value is a violation. For the hash join the first member must originate from the first collection and the "
           "second from the second, on the paths that swap the two as well as on the others.")
ASSUME = ["containers are tracked by creation site and call path; what is put in one is assumed to be able to come out of it at any read",
          "UnionFind.components yields the values given to union or inserted, VPTree queries yield the inserted items"]
LIMIT = 100
R1 = 'members of a cluster are items of the dataset'
R2 = 'a pair is made of the original records, in the documented order'


def scenarios(tier):
    L = [s for s in scen.clustering('list', True) + scen.joins('list') if tier == 'thorough' or not s.tag('slow')]
    return [s for s in L if tier == 'thorough' or not s.name.startswith('ppjoin_plus')]


class Origins(object):
    def __init__(self, run, I):
        self.run, self.I = run, I
        self.R = K.Records(run, I)
        self.tab, self.todo, self.users, self.cur = {}, [], {}, None
        self.cont = {}
        self.upd = {}
        self.uni = {}
        self.ufins = {}
        for e in run.log:
            if e.kind == 'union':
                self.uni.setdefault(K.nsite(e.target.a[0]) if e.target.op == 'obj' else e.target, []).extend([e.a, e.b])
            if e.kind in ('iterend', 'cut') and e.get('entry') is not None:
                self.upd.setdefault(e.loop, []).append(e)
        seen = set()
        for e in run.log:
            if e.st is None or id(e.st.ob) in seen:
                continue
            seen.add(id(e.st.ob))
            for t, o in e.st.ob.items():
                c = o.content
                if c is not None and c.op != 'obj':
                    self.cont.setdefault(K.nsite(t.a[0]), {})[c] = 1

    # fixpoint -----------------------------------------------------------------------------------------------
    def get(self, *key):
        """current value of a node of the origin graph"""
        if key not in self.tab:
            self.tab[key] = frozenset()
            self.todo.append(key)
        if self.cur is not None:
            self.users.setdefault(key, set()).add(self.cur)
        return self.tab[key]

    def solve(self, *key):
        self.get(*key)
        while self.todo:
            k = self.todo.pop()
            self.cur = k
            v = getattr(self, '_' + k[0])(*k[1:])
            self.cur = None
            if not v <= self.tab[k]:
                self.tab[k] = self.tab[k] | v
                self.todo.extend(u for u in self.users.get(k, ()) if u not in self.todo)
        return self.tab[key]

    def vals(self, t):
        """terms that t may stand for, none of which reads a container of the routine; None in it: not understood"""
        if t.op not in ('ite', 'item', 'dkey', 'at', 'lv') or K.is_item(t):
            return frozenset([t])
        return self.get('vals', t)

    def elems(self, c, values=False):
        return self.get('elems', c, values)

    def keys(self, c):
        return self.get('keys', c)

    def var(self, t):
        return self.get('var', t)

    def obj(self, o, values):
        return self.get('obj', K.nsite(o.a[0]), values)

    def _vals(self, t):
        op = t.op
        out = set()
        if op == 'ite':
            return self.vals(t.a[1]) | self.vals(t.a[2])
        if op == 'item':
            if K.is_item(t):
                return frozenset([t])
            c, i = t.a[0], t.a[1]
            for s in self.seqs(c):
                if s is None:
                    out.add(None)
                elif isinstance(s, tuple):
                    # heterogeneous sequence
                    n = int(num(i)) if is_num_const(i) and num(i) == int(num(i)) else None
                    if n is not None:
                        if -len(s) <= n < len(s):
                            out |= self.vals(s[n])
                    else:
                        for x in s:
                            out |= self.vals(x)
                else:
                    out |= self.elems(s)
            return frozenset(out)
        if op == 'dkey':
            for s in self.seqs(t.a[0]):
                if s is None or isinstance(s, tuple):
                    out.add(None)
                else:
                    out |= self.keys(s)
            return frozenset(out)
        if op == 'at':
            for s in self.seqs(t.a[0]):
                if s is None or isinstance(s, tuple):
                    out.add(None)
                else:
                    out |= self.elems(s, True)
            return frozenset(out)
        if op == 'lv':
            return self.var(t)
        return frozenset([t])

    def _var(self, t):
        lk = t.a[0]
        if isinstance(lk, tuple) and lk and lk[0] in ('x', 'old') and len(lk) > 1:
            lk = lk[1]
        out = set()
        hit = False
        for e in self.upd.get(lk, ()):
            head = e.get('head')
            if head is None:
                continue
            for f, vs in head.fr.items():
                for v, h in vs.items():
                    if isinstance(h, T) and h.op == 'lv' and h.a[0] == lk and h.a[1] == t.a[1]:
                        hit = True
                        for st in (e.entry, e.get('end')):
                            if st is not None:
                                x = st.fr.get(f, {}).get(v)
                                if isinstance(x, T):
                                    out |= self.vals(x)
        if not hit:
            return frozenset([t]) if kind(t) in ('int', 'num', 'bool') else frozenset([None])
        return frozenset(out)

    # containers ---------------------------------------------------------------------------------------------
    def seqs(self, c):
        """containers c may stand for: objects, data collections, closed forms, tuples of terms"""
        out = []
        for x in ([c] if c.op in ('obj', 'gseq', 'gset', 'gdict', 'cat', 'lit', 'snap') or K.is_data(c) else self.vals(c)):
            if x is None:
                out.append(None)
            elif x.op in ('tuple', 'lit'):
                out.append(tuple(x.a))
            else:
                out.append(x)
        return out

    def _elems(self, c, values):
        """values of the elements of a container term (of a mapping: its values when asked, else its keys)"""
        op = c.op
        if K.is_data(c):
            return frozenset([mk('item', c, mk('bnd', ('any', 0)))])
        if op == 'obj':
            return self.obj(c, values)
        if op == 'snap' or op == 'splat':
            return self.elems(c.a[0], values)
        if op == 'const':
            return frozenset()
        if op in ('listof', 'sorted', 'setof', 'rev', 'sorted_uniq', 'slc', 'inter', 'diff'):
            return self.elems(c.a[0], values)
        if op in ('union', 'cat', 'symdiff'):
            out = frozenset()
            for x in c.a:
                out |= self.elems(x, values)
            return out
        if op in ('lit', 'setlit', 'tuple'):
            out = frozenset()
            for x in c.a:
                out |= self.vals(x)
            return out
        if op in ('gseq', 'gset', 'gdict'):
            out = frozenset()
            for guards, es in c.a[3]:
                if op == 'gdict':
                    es = es[1:] if values else es[:1]
                for x in es:
                    out |= self.elems(x.a[0], values) if x.op == 'splat' else self.vals(x)
            return out
        if op == 'sadd' or op == 'lput':
            out = self.elems(c.a[0], values)
            for x in c.a[1:]:
                if isinstance(x, T):
                    out |= self.vals(x)
            return out
        if op == 'lib':
            n = c.a[0]
            if n == 'component':
                out = frozenset()
                for x in self.uni.get(K.nsite(c.a[1].a[0]) if c.a[1].op == 'obj' else c.a[1], ()):
                    out |= self.vals(x)
                return out
            if n in ('listof', 'sorted', 'rev', 'setof', 'stepslice', 'slice'):
                return self.elems(c.a[1], values)
        if op == 'lv':
            p = c.a[1]
            if isinstance(p, tuple) and p and p[0] == 'content' and isinstance(p[1], T):
                return self.obj(p[1], values)
            out = frozenset()
            for x in self.var(c):
                out |= frozenset([None]) if x is None or x is c else self.elems(x, values)
            return out
        if op in ('item', 'at', 'ite'):
            out = frozenset()
            for x in self.vals(c):
                out |= frozenset([None]) if x is None or x is c else self.elems(x, values)
            return out
        if op == 'app' or op == 'sym':
            return frozenset([mk('item', c, mk('bnd', ('any', 0)))])
        return frozenset([None])

    def _keys(self, c):
        op = c.op
        if op == 'obj':
            s = K.nsite(c.a[0])
            out = frozenset()
            for k, e in self.R.keys.get(s, ()):
                out |= self.vals(k)
            for x in self.cont.get(s, {}):
                if x.op in ('gdict', 'gset', 'setof', 'snap'):
                    out |= self.elems(x, False)
            return out
        return self.elems(c, False)

    def _obj(self, s, values):
        out = frozenset()
        n = 0
        for e in self.R.by.get(s, ()):
            if e.kind != 'ins':
                continue
            n += 1
            v = e.val
            if v is None:
                continue
            if v.op == 'splat':
                out |= self.elems(v.a[0], values)
            else:
                out |= self.vals(v)
        for e, r in self.R.foreign.get(s, {}).values():
            n += 1
            out |= self.vals(e.val)
        for c in self.cont.get(s, {}):
            if c.op == 'lv' and isinstance(c.a[1], tuple) and c.a[1] and c.a[1][0] == 'content':
                continue
            n += 1
            if c.op in ('int', 'poly', 'const'):
                continue
            out |= self.elems(c, values)
        return out


def members(O, e):
    """origins of the members of a produced cluster"""
    v = e.val
    if v.op == 'obj':
        c = O.I.content(v, e.st)
        return O.solve('elems', c, False) if c is not v and not (c.op == 'lv') else O.solve('obj', K.nsite(v.a[0]), False)
    if v.op == 'tuple':
        return frozenset(x for y in v.a for x in O.solve('vals', y))
    return O.solve('elems', v, False)


def what(x, sc):
    """None when the origin is not understood, else a description of what is wrong with it ('' when fine)"""
    if x is None:
        return None
    if K.is_item(x):
        return ''
    if x.op == 'obj':
        return 'a collection built by the routine (%s)' % show(x)[:40]
    if x.op in ('sym', 'lv', 'top', 'bnd') and kind(x) not in ('int', 'num', 'str', 'bool'):
        return None
    if x.op == 'item' and not (x.a[0].op in ('app', 'item')):
        return None
    if x.op == 'app':
        return 'the result of %s' % show(x)[:60]
    if kind(x) in ('int', 'num', 'bool'):
        return 'the number %s' % show(x)[:60]
    if x.op == 'item':
        return 'a part of %s' % show(x.a[0])[:60]
    if x.op in ('tuple', 'const', 'fmt') or kind(x) == 'str':
        return 'the value %s' % show(x)[:60]
    if x.op in ('gseq', 'gset', 'lit', 'cat', 'sorted', 'setof', 'snap', 'listof'):
        return 'the collection %s' % show(x)[:60]
    if any(y.op == 'app' for y in subterms(x)):
        return 'the value %s' % show(x)[:60]
    return None


def side(t):
    while t.op in K.WRAP or t.op == 'lib':
        t = t.a[0] if t.op in K.WRAP else t.a[1]
    return t.a[0] if t.op == 'sym' else None


def judge(sc, run, S):
    if run.lossy:
        return [unk(R1, sc.fn, 'not fully analysed: %s' % run.lossy)]
    O = Origins(run, S.I)
    D = sc.tag('data')
    out = {}
    n = 0
    pairs = sc.name.split('/')[0] in ('hashjoin', 'ppjoin', 'all_pairs', 'ppjoin_plus')

    def put(o):
        out.setdefault((o.rule, o.where, o.detail, o.verdict), o)
    for e in run.log:
        if e.kind != 'result':
            continue
        n += 1
        w = last(e)
        if pairs:
            if e.val.op != 'tuple' or len(e.val.a) != 2:
                put(unk(R2, w, 'not a pair: %s' % show(e.val)[:80]))
                continue
            groups = [(R2, i, O.solve('vals', x)) for i, x in enumerate(e.val.a)]
        else:
            groups = [(R1, None, members(O, e))]
        for rule, i, vs in groups:
            fine = True
            for x in vs:
                m = what(x, sc)
                if m is None:
                    fine = False
                    put(unk(rule, w, 'origin not understood: %s' % (show(x)[:100] if x is not None else show(e.val)[:100])))
                elif m:
                    fine = False
                    put(bad(rule, w, 'a produced %s contains %s instead of an item of the dataset' % ('pair' if pairs else 'cluster', m)))
                elif sc.name.startswith('hashjoin') and side(x.a[0]) != ('left', 'right')[i]:
                    fine = False
                    put(bad(rule, w, 'the %s member of a pair comes from the %s collection' % (('first', 'second')[i], side(x.a[0]))))
            if fine and not vs:
                put(unk(rule, w, 'no origin found for %s' % show(e.val)[:80]))
            elif fine:
                put(ok(rule, w, 'origins: %s' % ', '.join(sorted(set(show(x.a[0])[:40] for x in vs)))))
    if not n and not sc.tag('nokey'):
        put(unk(R1, sc.fn, 'nothing is produced'))
    return list(out.values())
