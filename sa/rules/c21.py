"""C21: empty and single-item inputs."""
from .. import scen
from ..scen import Sc
from ..terms import T, mk, const, show, cmp_lit, entails, lit_not, subterms, num, is_num_const, kind, mentions, subst
from ..verdict import ok, bad, unk
from ..values import seqlen
from . import links as K
from .c06 import Origins
from .c05 import last

EXPLAIN = ("Abstract interpretation of every clustering routine and join on an empty and on a one-item collection (everything else symbolic, default size limits), and "
           "of every key, block, n-gram, metric and signature function on an empty string or collection. Obligations: no path raises; every partial operation met "
           "(index, pop, min/max of a sequence, division) has its precondition entailed by the path, or lies on a path that needs an element of a container that "
           "is never filled; and no cluster or pair is produced. Which containers can ever be filled is a least fixpoint over the insertions reached: an "
           "insertion counts only if every container its path reads from is itself inhabited, by as many elements as the path requires.")
ASSUME = ["UnionFind.components(min_size>=2) yields nothing when no two elements were united",
          "user-supplied functions accept the items they are given"]
LIMIT = 100
R1 = 'no cluster or pair out of %s'
R2 = 'no failure on %s'
DATA = ('data', 'records', 'left', 'right')
TEXT = ('string', 'tokens', 'A', 'B', 'sequence', 'labels', 'clusters', 'truth', 'predicted')


def few(d, n):
    return mk('lit', *[mk('item', d, const(i)) for i in range(n)])


def variant(sc, n, args, suffix, facts=(), **tags):
    kw = dict((k, v) for k, v in sc.kw.items() if k not in ('min_size', 'max_size'))
    t = dict(sc.tags, n=n, **tags)
    return Sc(sc.name + suffix, sc.fn, args, kw, inst=sc.inst, method=sc.method, facts=list(sc.facts) + list(facts), **t)


def empty(d):
    k = kind(d)
    if k == 'str':
        return const('')
    if k in ('list', 'iter', 'tuple', 'any'):
        return mk('lit')
    if k == 'set':
        return mk('setlit')
    if k == 'dict':
        return mk('dictlit')
    return None


def scenarios(tier):
    out = []
    for sc in scen.clustering('list', tier == 'thorough') + scen.joins('list'):
        if sc.tag('slow') or sc.name.startswith('ppjoin_plus') and tier != 'thorough':
            continue
        for n in (0, 1):
            idx = [i for i, a in enumerate(sc.args) if a.op == 'sym' and a.a[0] in DATA]
            if len(idx) == 2:
                for m in (0, 1):
                    if n + m < 2:
                        args = list(sc.args)
                        args[idx[0]], args[idx[1]] = few(args[idx[0]], n), few(args[idx[1]], m)
                        out.append(variant(sc, n, args, '/%d+%d items' % (n, m)))
                for w in idx:
                    if n == 0:
                        args = list(sc.args)
                        args[w] = few(args[w], 0)
                        out.append(variant(sc, n, args, '/empty %s' % sc.args[w].a[0]))
            else:
                args = [few(a, n) if i in idx else a for i, a in enumerate(sc.args)]
                out.append(variant(sc, n, args, '/%d items' % n))
    for sc in scen.keyers() + scen.metrics('list') + scen.metrics('set') + scen.wmetrics() + scen.lsh('list') + scen.fingerprints() + scen.words_opaque():
        if sc.name in ('minhash_similarity', 'lsb_minhash_similarity'):
            continue
        idx = [i for i, a in enumerate(sc.args) if a.op == 'sym' and a.a[0] in TEXT and empty(a) is not None]
        if not idx:
            continue
        pick = [idx] + ([[i] for i in idx] if len(idx) > 1 else [])
        for p in pick:
            # two empty collections are two objects: only the first one is written out
            args = [empty(a) if i == p[0] or i in p and kind(a) == 'str' else a for i, a in enumerate(sc.args)]
            fs = [cmp_lit('==', seqlen(sc.args[i]), const(0)) for i in p[1:] if args[i].op == 'sym']
            out.append(variant(sc, 0, args, '/empty' + ('' if p == idx else ' %s' % sc.args[p[0]].a[0]) + (' set' if sc.args[idx[0]].a[1] == 'set' else ''), text=True, facts=fs))
    return out


CLOSED = ('gseq', 'gset', 'gdict', 'sum', 'sorted', 'fn')


def reads(t, out):
    """reads of containers that happened for the term to exist"""
    if t.op in CLOSED:
        return
    if t.op in ('item', 'dkey'):
        out.add(t)
    for x in t.a:
        if isinstance(x, T):
            reads(x, out)
        elif isinstance(x, tuple):
            tup(x, out)


def tup(x, out):
    for y in x:
        if isinstance(y, T):
            reads(y, out)
        elif isinstance(y, tuple):
            tup(y, out)


class Alive(object):
    """which containers can be filled, and the events that can happen"""

    def __init__(self, run, I):
        self.run, self.I = run, I
        self.O = Origins(run, I)
        self.n = {}       # site -> number of elements it may hold (0, 1, ..., None: any)
        self.uf = set()
        self.rd = {}
        self.dead = {}
        self.comp = {}
        for e in run.log:
            if e.kind == 'components':
                self.comp.setdefault(K.nsite(e.target.a[0]) if e.target.op == 'obj' else e.target, []).append(e.mn)
        evs = [e for e in run.log if e.kind in ('ins', 'inc', 'union', 'mut')]
        for e in run.log:
            if e.kind in ('mut', 'concat') and e.get('target') is not None and e.target.op == 'obj':
                self.n[K.nsite(e.target.a[0])] = None
        for s, cs in self.O.cont.items():
            for c in cs:
                if c.op in ('gseq', 'gset', 'gdict', 'lib', 'sym', 'app', 'sorted', 'listof', 'setof', 'rev'):
                    self.n[s] = None
        done = set()
        while True:
            ch = False
            for e in evs:
                if e.id in done or not self.can(e):
                    continue
                done.add(e.id)
                ch = True
                if e.kind == 'union':
                    self.uf.add(K.nsite(e.target.a[0]) if e.target.op == 'obj' else e.target)
                elif e.kind in ('ins', 'inc') and e.target.op == 'obj':
                    s = K.nsite(e.target.a[0])
                    one = all(a[0][0] == 'u' for a in e.active) and (e.kind == 'inc' or e.val is None or e.val.op != 'splat')
                    self.up(s, 1 if one or K.ismem(e.target) and e.kind == 'ins' and injective(e) else None)
                    if K.ismem(e.target):
                        self.up(s[1], 1 if one else None)
                elif e.kind in ('ins', 'inc'):
                    for c in self.where(e.target):
                        if c is not None and c.op == 'obj':
                            self.up(K.nsite(c.a[0]), None)
            if not ch:
                break
            self.dead.clear()

    def up(self, s, k):
        cur = self.n.get(s, 0)
        self.n[s] = None if k is None or cur is None else cur + k

    def where(self, c):
        """containers a term may stand for; None in it: unknown"""
        if c.op == 'obj' or K.is_data(c) or c.op in ('lit', 'lib', 'app', 'sym', 'gseq', 'const'):
            return [c]
        self.O.solve('vals', c)
        return list(self.O.solve('vals', c))

    def size(self, c):
        """most elements a container may hold, None: any number"""
        if c.op == 'obj':
            s = K.nsite(c.a[0])
            k = self.n.get(s, 0)
            if s not in self.O.R.by and s not in self.O.R.keys and s not in self.O.cont:
                return None
            lits = [len(x.a) for x in self.O.cont.get(s, ()) if x.op == 'lit']
            if k is None:
                return None
            return k + (max(lits) if lits and s not in self.O.R.by else 0)
        if c.op in ('lit', 'tuple', 'setlit'):
            return len(c.a)
        if c.op == 'const' and c.a[1] is None:
            return 0
        if c.op == 'const' and isinstance(c.a[1], str):
            return len(c.a[1])
        if c.op == 'lib' and c.a[0] == 'component':
            s = K.nsite(c.a[1].a[0]) if c.a[1].op == 'obj' else c.a[1]
            if s not in self.uf and all(is_num_const(m) and num(m) >= 2 for m in self.comp.get(s, [const(0)])):
                return 0
        if c.op in ('sorted', 'listof', 'setof', 'rev', 'snap'):
            return self.size(c.a[0])
        return None

    def most(self, c):
        m = 0
        for x in self.where(c):
            if x is None:
                return None
            k = self.size(x)
            if k is None:
                return None
            m = max(m, k)
        return m

    def can(self, e):
        """False when the event needs an element of a container that is never filled"""
        if e.id in self.rd:
            rd, lens, facts = self.rd[e.id]
        else:
            rd, lens = set(), set()
            for f in e.facts:
                reads(f, rd)
            for x in e.d.values():
                if isinstance(x, T):
                    reads(x, rd)
            for a in e.active:
                for x in a[2:4]:
                    if isinstance(x, T):
                        reads(x, rd)
            facts = set(e.facts)
            for lk, b, lo, hi, n in e.active:
                if isinstance(hi, T) and isinstance(lo, T) and b.op == 'bnd':
                    facts |= {cmp_lit('<=', lo, b), cmp_lit('<', b, hi)}
            for f in facts:
                lens |= set(x for x in subterms(f) if x.op == 'len')
            self.rd[e.id] = rd, lens, facts
        for r in rd:
            v = self.dead.get(r.a[0], -1)
            if v == -1:
                v = self.dead[r.a[0]] = self.most(r.a[0])
            if v == 0:
                return False
        add = set()
        for l in lens:
            c = l.a[0]
            v = self.dead.get(c, -1)
            if v == -1:
                v = self.dead[c] = self.most(c)
            if v is not None:
                add.add(cmp_lit('<=', l, const(v)))
        if any(f.op == 'const' and not f.a[1] for f in add):
            return False
        facts = frozenset(f for f in facts | add if f.op != 'const')
        if any(f.op == 'const' and f.a[1] is False for f in self.rd[e.id][2]):
            return False
        if add and any(entails(facts - {f}, lit_not(f)) for f in facts if f.op in ('le', 'lt', 'eq0', 'not')):
            return False
        return True


def injective(e):
    """different iterations of the loops around the insertion put their value under different keys"""
    k = e.target.a[1][0]
    parts = k.a if k.op == 'tuple' else (k,)
    for lk, b, lo, hi, n in e.active:
        if lk[0] == 'u':
            continue
        if any(x.op == 'item' and x.a[1] is b and x.a[0].op in ('setof', 'gset', 'setlit', 'sorted_uniq') for x in parts):
            continue
        if not any(x.op == 'bnd' and x is b or x.op == 'poly' and any(len(m) and any(at is b for at, _ in m) for m, c in x.a) and
                   not any(y is not b and y.op == 'bnd' for y in subterms(x)) for x in parts):
            return False
    return e.val is None or e.val.op != 'splat'


def vague(t, known=()):
    """depends on what a loop or a container of the routine holds"""
    if t in known:
        return False
    if t.op in ('lv', 'obj', 'bnd', 'top'):
        return True
    return any(vague(x, known) for x in t.a if isinstance(x, T)) or any(vague(y, known) for x in t.a if isinstance(x, tuple) for y in flat(x))


def flat(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            for z in flat(y):
                yield z


def sure(e):
    """the path to the event only depends on parameters and user functions"""
    bs = set(a[1] for a in e.active)
    return not any(vague(f, bs) for f in e.facts) and all(a[0][0] == 'u' or a[3] is not None and not vague(a[2]) and not vague(a[3]) and
                                                          not entails(e.facts, cmp_lit('<=', a[3], a[2])) for a in e.active)


def counts(A, s):
    """(lower, upper) bounds the analysis can vouch for on the number of elements put under a site; upper None: as many as the caller's functions return"""
    lo, free = 0, False
    if any(e.kind in ('mut', 'del', 'concat') and e.get('target') is not None and e.target.op == 'obj' and K.nsite(e.target.a[0]) == s for e in A.run.log):
        return None
    ids = set()
    for e in A.run.log:
        if e.kind not in ('ins', 'inc') or e.target.op != 'obj':
            continue
        t = K.nsite(e.target.a[0])
        if t != s and not (K.ismem(e.target) and t[1] == s):
            continue
        if not given(e, A) or e.val is not None and e.val.op == 'splat':
            return None
        loops = [a for a in e.active if a[0][0] != 'u']
        if any(a[3] is None or vague(a[2]) or vague(a[3]) for a in loops):
            return None
        ids.add((e.where(), tuple(a[0] for a in e.active), tuple(show(a[1]) for a in e.active if a[0][0] == 'u')))
        if loops and (t != s or not injective(e)):
            free = True
    lo = len(set(ids))
    return lo, None if free else lo


def given(e, A):
    """the path to the event only depends on parameters and the loops around (seen in their first iteration), or on the key being there under which something is put"""
    bs = set(a[1] for a in e.active)
    fs = [f for f in e.facts if vague(f, bs) and not (f.op == 'in' and not vague(f.a[0], bs)) and not trivial(f)]
    if not fs:
        return True
    ts = A.F.terms(e, fs)
    if ts is None:
        return False
    ts = [measure(t) for t in ts]
    return not any(t.op == 'const' and t.a[1] is False for t in ts) and all(t.op == 'const' or not vague(t) or trivial(t) for t in ts)


def witnessed(e, A):
    """the result is read from containers the caller's data surely fill as the path requires"""
    facts = []
    for f in e.facts:
        if f.op == 'in' and f.a[1].op == 'obj':
            c = counts(A, K.nsite(f.a[1].a[0]))
            if c is None or c[0] == 0:
                return False
        elif vague(f):
            facts.append(f)
    m = {}
    for lk, b, lo, hi, n in e.active:
        if lk[0] == 'u':
            continue
        if hi is None or lo is None:
            return False
        m[b] = lo
        facts.append(cmp_lit('<', b, hi))
    free = set()
    lns = {x.ln: o for o, x in e.st.ob.items() if isinstance(x.ln, T) and x.ln.op == 'lv' and o.op == 'obj'}
    lns.update((x.ver, o) for o, x in e.st.ob.items() if isinstance(x.ver, T) and x.ver.op == 'lv' and o.op == 'obj' and x.ver not in lns)
    for f in facts:
        for x in subterms(f):
            if x.op == 'len' and x.a[0].op == 'obj' or x in lns:
                c = counts(A, K.nsite((lns[x] if x in lns else x.a[0]).a[0]))
                if c is None:
                    return False
                if c[1] is None:
                    free.add(x)
                else:
                    m[x] = const(c[1])
    for f in facts:
        g = subst(f, {x: const(10 ** 6) for x in free})
        g = measure(subst(g, m))
        if g.op == 'const' and g.a[1] is False or g.op != 'const' and vague(g) and not trivial(g):
            return False
    return True


class First(object):
    """what an event looks like in the first iteration of the loops around it"""

    def __init__(self, run, I):
        self.I, self.at = I, {}
        for e in run.log:
            if e.kind == 'iterend':
                self.at.setdefault(e.loop, {})[(e.head, id(e.entry))] = (e.head, e.entry)

    def env(self, lk):
        """value at the first entry of what changes from an iteration to the next; None: not the same at all entries"""
        m, objs = {}, {}
        for head, entry in self.at.get(lk, {}).values():
            if not hasattr(head, 'fr'):
                return None
            for f, vs in head.fr.items():
                for k, v in vs.items():
                    w = entry.fr.get(f, {}).get(k)
                    if isinstance(v, T) and v.op == 'lv' and w is not None and m.setdefault(v, w) is not w:
                        return None
            for o, x in head.ob.items():
                y = entry.ob.get(o)
                if y is None or y is x:
                    continue
                if isinstance(x.ln, T) and x.ln.op == 'lv' and isinstance(y.ln, T) and m.setdefault(x.ln, y.ln) is not y.ln:
                    return None
                if isinstance(x.ver, T) and x.ver.op == 'lv' and isinstance(y.ver, T) and m.setdefault(x.ver, y.ver) is not y.ver:
                    return None
                c = y.content
                if isinstance(c, T) and c.op == 'lit' and len(c.a) == 1:
                    if objs.setdefault(o, c.a[0]) is not c.a[0]:
                        return None
        return m, objs

    def terms(self, e, ts):
        """the terms in the first iteration, None: not known"""
        for lk, b, lo, hi, n in reversed(e.active):
            if lk[0] == 'u':
                continue
            v = self.env(lk)
            if v is None or lo is None:
                return None
            m, objs = v
            m = dict(m)
            m[b] = lo
            for t in ts:
                for x in subterms(t):
                    if x.op == 'item' and x.a[0] in objs:
                        m[x] = objs[x.a[0]]
            ts = [subst(t, m) for t in ts]
        return ts

    def sees(self, e, A):
        """event as seen in the first iteration, None when it may not be reached there"""
        keys = sorted(k for k, x in e.d.items() if isinstance(x, T))
        fs = list(e.facts)
        for lk, b, lo, hi, n in e.active:
            if lk[0] != 'u' and hi is not None:
                fs.append(cmp_lit('<', b, hi))
        ts = self.terms(e, fs + [e.d[k] for k in keys])
        if ts is None:
            return None
        facts = [measure(f) for f in ts[:len(fs)]]
        if any(f.op == 'const' and f.a[1] is False for f in facts):
            return None
        facts = frozenset(f for f in facts if f.op != 'const')
        if any(vague(f) and not trivial(f) for f in facts) or any(entails(facts - {f}, lit_not(f)) for f in facts if f.op in ('le', 'lt', 'eq0', 'not')):
            return None
        r = View()
        r.kind, r.facts, r.d = e.kind, facts, dict(e.d)
        r.d.update((k, measure(t)) for k, t in zip(keys, ts[len(fs):]))
        return r


class View(object):
    def __getattr__(self, k):
        return self.__dict__['d'].get(k)

    def get(self, k):
        return self.d.get(k)


def trivial(f):
    """an unknown count is not negative"""
    return any(entails(frozenset([cmp_lit('<=', const(0), x)]), f) for x in subterms(f) if x.op == 'lv')


def measure(t):
    """lengths and none-ness of literals worked out"""
    m = {}
    for x in subterms(t):
        if x.op == 'len' and x.a[0].op in ('lit', 'tuple', 'setlit'):
            m[x] = const(len(x.a[0].a))
        elif x.op == 'isnone' and x.a[0].op in ('lit', 'tuple', 'const', 'setlit', 'dictlit'):
            m[x] = const(x.a[0].op == 'const' and x.a[0].a[1] is None)
    t = subst(t, m) if m else t
    if t.op == 'not' and t.a[0].op == 'const':
        return const(not t.a[0].a[1])
    if t.op in ('at', 'item') and t.a[0].op in ('lit', 'tuple') and is_num_const(t.a[1]) and 0 <= num(t.a[1]) < len(t.a[0].a):
        return t.a[0].a[int(num(t.a[1]))]
    return t


def judge(sc, run, S):
    what = 'an empty input' if sc.tag('n') == 0 else 'a single item'
    r1, r2 = R1 % what, R2 % what
    if run.lossy:
        return [unk(r2, sc.fn, 'not fully analysed: %s' % run.lossy)]
    A = Alive(run, S.I)
    F = A.F = First(run, S.I)
    out = {}

    def put(o):
        out.setdefault((o.rule, o.where, o.detail, o.verdict), o)
    for e in run.log:
        k = e.kind
        if k == 'result' and not sc.tag('text'):
            if not A.can(e):
                put(ok(r1, last(e), 'needs an element of a container that is never filled'))
            elif sure(e) or witnessed(e, A):
                put(bad(r1, last(e), '%s is produced under [%s]' % (show(e.val)[:60], '; '.join(sorted(show(f)[:60] for f in e.facts))[:200])))
            else:
                put(unk(r1, last(e), '%s under [%s]' % (show(e.val)[:60], '; '.join(sorted(show(f)[:60] for f in e.facts))[:300])))
        elif k in ('index', 'needs', 'div', 'fail', 'badlen', 'noattr', 'badcall', 'log', 'vptree', 'draw') and (k != 'draw' or e.method in ('randint', 'randrange', 'choice')):
            d, v = precondition(e)
            if v is True or e.get('caught') or e.get('default') is True:
                put(ok(r2, e.where(), d))
            elif not A.can(e):
                put(ok(r2, e.where(), d + ': never reached'))
            elif v is False and sure(e):
                put(bad(r2, e.where(), '%s under [%s]' % (d, '; '.join(sorted(show(f)[:60] for f in e.facts))[:200])))
            elif any(a[0][0] != 'u' for a in e.active) and refuted(F.sees(e, A)):
                put(bad(r2, e.where(), '%s in the first iteration' % d))
            else:
                put(unk(r2, e.where(), '%s under [%s]' % (d, '; '.join(sorted(show(f)[:60] for f in e.facts))[:300])))
    # an option refused while the instance was built concerns no input
    for k, st, v in run.outs[run.refused:]:
        if k in ('raise', 'esc'):
            if not any(vague(f) for f in st.facts):
                put(bad(r2, where(v, sc), 'an exception escapes (%s) under [%s]' % (show(v)[:60] if isinstance(v, T) else str(v[:1]), '; '.join(sorted(show(f)[:60] for f in st.facts))[:200])))
            else:
                put(unk(r2, where(v, sc), 'an exception may escape (%s)' % (show(v)[:60] if isinstance(v, T) else str(v[:1]))))
    if any(k not in ('raise', 'esc') for k, _, _ in run.outs):
        put(ok(r2, sc.fn, 'finishes on %d path(s)' % len(run.outs)))
    elif not run.outs:
        put(bad(r2, sc.fn, 'no path through the function finishes'))
    return list(out.values())


def refuted(v):
    return v is not None and precondition(v)[1] is False


def where(v, sc):
    return sc.fn


def precondition(e):
    """(description, True: holds, False: fails, None: unknown)"""
    if e.kind == 'index':
        k, ln = e.key, e.ln
        d = '%s[%s]' % (show(e.target)[:50], show(k)[:50])
        if ln is None:
            return d, None
        if is_num_const(ln) and num(ln) == 0:
            return d + ' out of 0', False
        if entails(e.facts, cmp_lit('<', k, ln)) and (entails(e.facts, cmp_lit('<=', const(0), k)) or entails(e.facts, cmp_lit('<=', mk_neg(ln), k))):
            return d, True
        if is_num_const(ln) and is_num_const(k):
            return d + ' out of %s' % show(ln), -num(ln) <= num(k) < num(ln)
        return d + ' of length %s' % show(ln)[:60], None
    if e.kind == 'needs':
        d = '%s of an empty sequence' % e.what
        if e.ln is None:
            return d, None
        if entails(e.facts, cmp_lit('<', const(0), e.ln)) or lit_not(cmp_lit('==', e.ln, const(0))) in e.facts:
            return d, True
        if is_num_const(e.ln):
            return d, num(e.ln) > 0
        return d + ' (length %s)' % show(e.ln)[:60], None
    if e.kind == 'div':
        d = 'division by %s' % show(e.den)[:60]
        if entails(e.facts, lit_not(cmp_lit('==', e.den, const(0)))) or entails(e.facts, cmp_lit('<', const(0), e.den)):
            return d, True
        if is_num_const(e.den):
            return d, num(e.den) != 0
        if entails(e.facts, cmp_lit('<=', e.den, const(0))) and e.den.op == 'len':
            return d, False
        return d, None
    if e.kind == 'log':
        d = 'logarithm of %s' % show(e.arg)[:60]
        if entails(e.facts, cmp_lit('<', const(0), e.arg)):
            return d, True
        return d, num(e.arg) > 0 if is_num_const(e.arg) else None
    if e.kind == 'vptree':
        d = 'vantage point tree of %s item(s)' % (show(e.ln)[:40] if e.ln is not None else '?')
        if e.ln is None:
            return d, None
        if entails(e.facts, cmp_lit('<=', const(2), e.ln)):
            return d, True
        return d, num(e.ln) >= 2 if is_num_const(e.ln) else None
    if e.kind == 'draw':
        a = e.args
        d = '%s(%s)' % (e.method, ', '.join(show(x)[:40] for x in a))
        if e.method == 'choice':
            return d, None
        lo, hi = (a[0], a[1]) if len(a) > 1 else (const(0), a[0])
        c = cmp_lit('<=' if e.method == 'randint' else '<', lo, hi)
        if entails(e.facts, c):
            return d, True
        return d, False if entails(e.facts, lit_not(c)) else None
    return '%s %s' % (e.kind, show(e.get('what')) if isinstance(e.get('what'), T) else (e.get('what'),)), False


def mk_neg(t):
    from ..terms import neg
    return neg(t)
