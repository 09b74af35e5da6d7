"""C11: monopartite projections."""
import itertools
from fractions import Fraction as F
from .. import scen
from ..terms import show, mk, T, subterms, symbols, const
from ..model import Model, Unknown, Undef, equalv, powr, times, cmpv
from ..verdict import ok, bad, unk
from .c10 import isa

EXPLAIN = ("Abstract interpretation of the projection over a symbolic bipartite graph, for every metric, strategy and with or without a threshold, gives "
           "the insertions into the returned graph (nodes, edges, weights) with the loops and the path condition under which each happens, and likewise "
           "for the intermediate containers. These summaries denote a graph: the set of all insertions whose condition holds for some loop indices. That "
           "graph is compared, in every structure of a family of small bipartite graphs (all graphs over two projected and two other nodes with several "
           "weightings, a sample over three and three, a few thresholds), with the projection the definition asks for. A missing, superfluous or "
           "differently weighted edge, a missing or superfluous node, or a lookup of an absent key is a violation; conditions the summary leaves open "
           "make the edge a possible one and decide nothing.")
ASSUME = ["nodes of the projected part are mutually comparable", "the family of small graphs separates different projections of these shapes", "real arithmetic instead of floating point"]
LIMIT = 100
R_NODE = 'exactly the nodes of the requested part, with their attributes'
R_EDGE = 'exactly the edges of the definition, with the weight of the metric'
R_KEY = 'no lookup of a node that has no entry'
R_CHK = 'a bipartite graph is accepted'
N_ = None


def scenarios(tier):
    out = [s for s in scen.graphs() if s.tag('fam') in ('projection', 'projcheck')]
    for s in list(out):
        if s.tag('fam') == 'projection' and not s.tag('th'):
            kw = dict(s.kw)
            kw.update(weight=const('count'), part=const('kind'))
            t = dict(s.tags)
            t.update(part='kind', weight='count')
            out.append(scen.Sc(s.name + '/names', s.fn, s.args, kw, **t))
    for s in out:
        s.tags['tier'] = tier
    return out


def ths(metric, g, tier):
    if tier == 'thorough':
        return [F(1, 3), F(1, 2), F(3, 5), F(1), F(3, 2), F(2)]
    return [F(1), F(2)] if metric is None else [F(1, 2), F(1, 3) if len(g.left) > 2 else F(1)]


class Graph(object):
    """a small bipartite graph: left nodes 1.., right nodes 11.., given by {(l, r): weight or None}"""

    def __init__(self, left, right, edges, order=None, part='bipartite', weight='weight'):
        self.nodes = order or (left + right)
        self.left = left
        self.weight = weight
        self.attr = {}
        for n in left:
            self.attr[n] = {'bipartite': 'X', part: 'L', 'extra': 'x%d' % n}
            self.attr[n][part] = 'L'
        for n in right:
            self.attr[n] = {'bipartite': 'L', 'extra': 'x%d' % n}
            self.attr[n][part] = 'R'
        self.adj = {n: {} for n in self.nodes}
        for (l, r), w in edges.items():
            d = {} if weight == 'weight' else {'weight': F(7)}
            if w is not None:
                d[weight] = w
            self.adj[l][r] = d
            self.adj[r][l] = d

    def edges(self):
        seen, out = set(), []
        for u in self.nodes:
            for v in self.adj[u]:
                if (v, u) not in seen:
                    seen.add((u, v))
                    out.append((u, v))
        return out

    def __repr__(self):
        return ', '.join('%s-%s%s' % (u, v, ':%s' % d[self.weight] if self.weight in d else '') for u in self.left for v, d in self.adj[u].items()) or 'no edge'


def family(metric, part='bipartite', weight='weight'):
    out = []

    def add(*a, **k):
        out.append(Graph(*a, part=part, weight=weight, **k))
    n = lambda *a: [F(x) for x in a]
    L, R = n(1, 2), n(11, 12)
    cells = [(l, r) for l in L for r in R]
    ws = [None, F(2)] if metric == 'cosine' else [None]
    for pick in itertools.product([False] + ws if False else [0] + list(range(1, len(ws) + 1)), repeat=4):
        add(L, R, {c: ws[p - 1] for c, p in zip(cells, pick) if p})
    if metric == 'cosine':
        for w in ((F(1), F(-1), F(1), F(1)), (F(1), F(-2), F(1), F(1)), (F(0), F(1), F(1), F(1)), (F(0), F(0), F(1), F(1)), (F(1), F(1), F(0), F(0)), (F(3), F(4), F(4), F(3))):
            add(L, R, dict(zip(cells, w)))
    L, R = n(1, 2, 3), n(11, 12, 13)
    cells = [(l, r) for l in L for r in R]
    for bits in (0b111111111, 0b110011101, 0b100010001, 0b110110011, 0b111001001, 0b011110101, 0b101010111, 0b001011110, 0b111100010, 0b000111110):
        e = {c: (F(1 + i % 3) if metric == 'cosine' else None) for i, c in enumerate(cells) if bits >> i & 1}
        add(L, R, e)
        add(L, R, e, order=n(12, 3, 1, 11, 13, 2))
    L, R = n(1, 2, 3), n(*range(11, 17))
    for k in (2, 5):
        e = {}
        for i, r in enumerate(R):
            for l in L:
                if (i * 7 + int(l) * 3) % k:
                    e[(l, r)] = F(1 + (i + int(l)) % 4) if metric == 'cosine' else F(i + 1)
        add(L, R, e)
    return out


def want(g, metric, th):
    out = {}
    for i, a in enumerate(g.left):
        for b in g.left[i + 1:]:
            na, nb = g.adj[a], g.adj[b]
            k = len(set(na) & set(nb))
            if metric == 'cosine':
                wa = {x: d.get(g.weight, F(1)) for x, d in na.items()}
                wb = {x: d.get(g.weight, F(1)) for x, d in nb.items()}
                dot = sum((wa[x] * wb[x] for x in wa if x in wb), F(0))
                w = F(0) if dot == 0 else times(dot, powr(sum(x * x for x in wa.values()) * sum(x * x for x in wb.values()), F(-1, 2)))
            elif k == 0:
                w = F(0)
            elif metric == 'jaccard':
                w = F(k, len(na) + len(nb) - k)
            elif metric == 'dice':
                w = F(2 * k, len(na) + len(nb))
            elif metric == 'overlap':
                w = F(k, min(len(na), len(nb)))
            elif metric == 'binary_cosine':
                w = times(F(k), powr(F(len(na) * len(nb)), F(-1, 2)))
            else:
                w = F(k)
            if cmpv(w, 0) == 0 or th is not None and cmpv(w, th) < 0:
                continue
            out[frozenset((a, b))] = w
    return out


class Structure(object):
    """the meaning of the containers of a run in one bipartite graph"""

    def __init__(self, sc, run, S, g, env):
        self.sc, self.run, self.I, self.g = sc, run, S.I, g
        self.G = sc.args[0]
        self.env = env
        self.cache = {}
        self.busy = set()
        self.frees = run.__dict__.setdefault('_frees', {})
        self.res, self.never = None, None
        self.sites = index(run)
        self.iter_memo = {}

    def model(self, e, binding):
        env = dict(self.env)
        env.update(binding)
        m = Model(env, self.I, e.st, self.hook)
        m.active = set(a[0] for a in e.active)
        return m

    # ------------------------------------------------------------ atoms
    def graph(self, t):
        if t is self.G:
            return self.g
        raise Unknown('graph ' + show(t)[:60])

    def hook(self, t, m):
        op = t.op
        if op == 'lib':
            f, a = t.a[0], t.a[1:]
            if f == 'nodes':
                if a[0] is self.G:
                    return list(self.g.nodes)
                return [k for k, _ in self.made(a[0], m, 'nodes')]
            if f == 'nodedata':
                if a[0] is self.G:
                    return self.get(self.g.attr, m(a[1]))
                raise Unknown('attributes')
            if f == 'neighof':
                return list(self.get(self.graph(a[0]).adj, m(a[1])))
            if f == 'edges':
                g = self.graph(a[0])
                if len(a) == 1:
                    return g.edges()
                u = m(a[1])
                return [(u, v) for v in self.get(g.adj, u)]
            if f == 'src':
                return m(a[0])[0]
            if f == 'dst':
                return m(a[0])[1]
            if f == 'edgedata':
                return self.get(self.get(self.graph(a[0]).adj, m(a[1])), m(a[2]))
            if f == 'dict.get':
                d = m(a[0])
                if not isinstance(d, dict):
                    raise Unknown('get')
                k = m(a[1])
                return d[k] if k in d else m(a[2]) if len(a) > 2 else N_
            return None
        if op == 'item' and t.a[0] is self.G:
            return dict(self.get(self.g.adj, m(t.a[1])))
        if op == 'isinst':
            v = m(t.a[0])
            if isinstance(v, set):
                v = frozenset(v)
            if isinstance(v, (list, frozenset, str, dict)):
                return isa(v, t.a[1:])
            raise Unknown('type')
        if op == 'is':
            if t.a[0] is t.a[1]:
                return True
            a, b = m(t.a[0]), m(t.a[1])
            if isinstance(a, (set, dict)) or isinstance(b, (set, dict)):
                return a is b
            return None
        if op == 'hasedge' and t.a[0] is self.res and self.never is not None:
            if frozenset((m(t.a[1]), m(t.a[2]))) in self.never:
                return False
            raise Unknown('edge')
        if op == 'lv' and t not in m.env:
            return self.size(t, m)
        if op in ('obj', 'snap'):
            x = t if op == 'obj' else t.a[0]
            return self.container(x, m, t.a[1] if op == 'snap' and len(t.a) > 1 else None)
        if op in ('at', 'item', 'dkey', 'in', 'cnt') and isinstance(t.a[1 if op == 'in' else 0], T) and t.a[1 if op == 'in' else 0].op == 'obj':
            x = t.a[1 if op == 'in' else 0]
            v = self.container(x, m, t.a[2] if len(t.a) > 2 else None)
            if v is None:
                return None
            if op == 'in':
                k = m(t.a[0])
                return any(equalv(k, y) for y in v)
            i = m(t.a[1])
            if op == 'at':
                if not isinstance(v, dict):
                    raise Unknown('lookup')
                if i not in v:
                    raise Undef('key')
                return v[i]
            if op == 'cnt':
                return v.get(i, F(0))
            v = list(v)
            i = m.int(t.a[1])
            if not -len(v) <= i < len(v):
                raise Undef('index')
            return v[i]
        if op == 'len' and t.a[0].op == 'obj':
            v = self.container(t.a[0], m)
            return None if v is None else F(len(v))
        return None

    def get(self, d, k):
        if k not in d:
            raise Undef('node')
        return d[k]

    def size(self, t, m):
        """the length of a container: a symbol introduced for it"""
        for st in (m.st,):
            for x, o in st.ob.items():
                if o.ln is t:
                    v = self.container(x, m)
                    if v is not None:
                        return F(len(v))
        return None

    def container(self, x, m, ver=None):
        """the value of an object: its closed content, or all that is inserted into it"""
        o = m.st.ob.get(x) or self.I.base_ob.get(x)
        if o is not None and o.content is not None and o.content.op not in ('lv', 'obj') and o.content is not x:
            if ver is not None and o.ver is not ver:
                raise Unknown('version of ' + show(x)[:40])
            bs = self.frees.get(o.content)
            if bs is None:
                bs = self.frees[o.content] = [b for b in symbols(o.content) if b.op == 'bnd']
            key = (o.content, id(m.st), tuple(m.env.get(b) for b in bs))
            if key not in self.cache:
                try:
                    v = m(o.content)
                    self.cache[key] = set(v) if isinstance(v, frozenset) else v
                except Unknown:
                    self.cache[key] = None
            if self.cache[key] is not None:
                return self.cache[key]
        if x.a[0] not in self.sites:
            return None
        return self.made(x, m, 'content')

    def made(self, x, m, what):
        site = x.a[0]
        idx = tuple(m(i) for i in x.a[1])
        key = (site, idx, what)
        if key in self.cache:
            v = self.cache[key]
            if v is None:
                raise Unknown('container ' + show(x)[:40])
            return v
        if key in self.busy:
            raise Unknown('container defined by itself')
        evs = self.sites.get(site)
        if not evs:
            raise Unknown('container ' + show(x)[:40])
        own = set(b.a[0] for b in x.a[1] if b.op == 'bnd')
        for e in evs:
            if e.kind == 'ins' and any(a[0] in m.active and a[0] not in own for a in e.active):
                raise Unknown('container that is still growing')
        self.busy.add(key)
        try:
            v = self.build(site, idx, evs, m, what, own)
            self.cache[key] = v
            return v
        except Unknown:
            self.cache[key] = None
            raise
        finally:
            self.busy.discard(key)

    def build(self, site, idx, evs, m, what, own):
        items = []
        shape = None
        for e in evs:
            if e.kind in ('del', 'inc') or e.kind == 'mut' and e.op in ('pop', 'clear', 'remove', 'discard', 'popitem', 'remove_edge', 'remove_node', 'update'):
                raise Unknown('container that shrinks')
            if e.kind != 'ins' or e.op == 'init':
                continue
            k = {'add_node': 'nodes', 'add_edge': 'edges', 'setitem': 'content', 'add': 'content', 'append': 'content'}.get(e.op)
            if k is None:
                raise Unknown('insertion ' + str(e.op))
            if what == 'nodes' and k == 'edges':
                continue    # an edge between nodes that are there; checked apart
            if k != what:
                continue
            shape = e.op
            for b, pos in self.bindings(e, dict((t, v) for t, v in m.env.items() if t.op == 'bnd' and t.a[0] in own)):
                mm = self.model(e, b)
                if tuple(mm(i) for i in e.target.a[1]) != idx:
                    continue
                if e.op == 'setitem' or e.op == 'add_node':
                    items.append((pos, mm(e.key), mm(e.val) if e.op == 'setitem' else e))
                else:
                    items.append((pos, mm(e.val), None))
        items.sort(key=lambda i: i[0])
        if what == 'nodes':
            d = {}
            for p, k, v in items:
                d.setdefault(k, v)
            return list(d.items())
        if shape == 'setitem':
            d = {}
            for p, k, v in items:
                d[k] = v
            return d
        if shape == 'append':
            return [k for p, k, v in items]
        if shape == 'add':
            return set(k for p, k, v in items)
        raise Unknown('empty container')

    # ------------------------------------------------------------ loops
    def bindings(self, e, fixed=(), maybe=False, cuts=True):
        """index assignments under which the event happens; with maybe=True also those that are only possible (flagged)"""
        fixed = dict(fixed)
        facts = sorted(e.facts, key=lambda f: f.n)
        loops = [a for a in e.active if a[0][0] != 'u']
        left = self.cuts(loops) if cuts else []
        out = []

        def rec(i, b, pos):
            if i == len(loops):
                u = False
                m = self.model(e, b)
                for f in facts:
                    try:
                        if not m.truth(f):
                            return
                    except Undef:
                        return
                    except Unknown:
                        if not harmless(f):
                            u = True
                for c, sure in left:
                    d = c.d['binder']
                    if all(b.get(k, v) == v for k, v in sure[0].items() if k is not d) and sure[0][d] < b[d]:
                        if not sure[1]:
                            return      # the loop was left before this index
                        u = True
                if u and not maybe:
                    raise Unknown('condition of an insertion')
                out.append((b, pos, u) if maybe else (b, pos))
                return
            lk, bv, lo, hi, node = loops[i]
            if bv in fixed:
                rng = [fixed[bv]]
            else:
                m = self.model(e, b)
                lo_ = m.int(lo)
                if hi is None:
                    raise Unknown('open loop')
                rng = [F(x) for x in range(lo_, m.int(hi))]
            for x in rng:
                bb = dict(b)
                bb[bv] = x
                rec(i + 1, bb, pos + (int(x),))
        rec(0, {}, ())
        return out

    def cuts(self, loops):
        """the places where one of the loops is left early: (event, (indices, only possible))"""
        out = []
        for c in self.run.log:
            if c.kind != 'cut' or c.how == 'raise' or not any(a[0] == c.d['loop'] for a in loops):
                continue
            if c not in self.iter_memo:
                self.iter_memo[c] = [(x[0], x[2]) for x in self.bindings(c, maybe=True, cuts=False)]
            out += [(c, x) for x in self.iter_memo[c]]
        return out


def harmless(f):
    """conditions on sizes and versions only"""
    if f.op == 'in':
        return len(f.a) > 2
    if f.op not in ('le', 'lt', 'eq0'):
        return False
    p = f.a[0]
    atoms = [x for mono, c in p.a for x, e in mono] if p.op == 'poly' else [p]
    return any(x.op == 'lv' or x.op == 'len' and x.a[0].op == 'obj' for x in atoms)


def index(run):
    c = getattr(run, '_c11', None)
    if c is None:
        c = {}
        for e in run.log:
            if e.kind in ('ins', 'mut', 'del', 'inc') and e.target.op == 'obj':
                c.setdefault(e.target.a[0], []).append(e)
        run._c11 = c
    return c


def judge(sc, run, S):
    fn = sc.fn
    if run.lossy:
        return [unk(R_EDGE, fn, 'not fully analysed: %s' % run.lossy)]
    rets = [o for o in run.outs if o[0] == 'ret']
    graphs = set(o[2] for o in rets if isinstance(o[2], T))
    if len(graphs) != 1 or list(graphs)[0].op != 'obj':
        return [unk(R_EDGE, fn, 'no single returned graph')]
    res = graphs.pop()
    metric = sc.tag('metric')
    evs = index(run).get(res.a[0], [])
    if any(e.kind == 'mut' and not e.op.startswith('add') for e in evs):
        return [unk(R_EDGE, fn, 'the result is modified otherwise')]
    nodes = [e for e in evs if e.kind == 'ins' and e.op == 'add_node']
    edges = [e for e in evs if e.kind == 'ins' and e.op == 'add_edge']
    other = [e for e in evs if e.kind == 'ins' and e.op not in ('add_node', 'add_edge')]
    lookups = [e for e in run.log if e.kind == 'lookup' and e.target.op == 'obj' and e.target.a[0] in index(run)]
    G = sc.args[0]
    P = sc.args[1]
    TH = [v for k, v in sc.kw.items() if k == 'threshold']
    probs = {}
    open_ = {}
    n = 0
    note = lambda d, r, w, x: d.setdefault((r, w), x)
    for g in family(metric, sc.tag('part') or 'bipartite', sc.tag('weight') or 'weight'):
        for th in (ths(metric, g, sc.tag('tier')) if TH else [None]):
            env = {P: 'L'}
            if TH:
                env[TH[0]] = th
            s = Structure(sc, run, S, g, env)
            n += 1
            # nodes
            have, poss = {}, {}
            for e in nodes:
                try:
                    for b, pos, u in s.bindings(e, maybe=True):
                        m = s.model(e, b)
                        k = m(e.key)
                        (poss if u else have).setdefault(k, []).append((e, m))
                except Unknown as x:
                    note(open_, R_NODE, e.where(), str(x))
                    poss = dict((k, []) for k in g.nodes)
            for k in have:
                if k not in g.left:
                    note(probs, R_NODE, have[k][0][0].where(), 'a node of the other part is added (graph %r)' % g)
            for k in g.left:
                if k not in have and k not in poss:
                    note(probs, R_NODE, nodes[0].where() if nodes else fn, 'a node of the requested part is not added (graph %r)' % g)
                for e, m in have.get(k, []):
                    d, o = {}, False
                    try:
                        for a, v in e.kw.items():
                            if a == '**':
                                d.update(m(v))
                            else:
                                d[a] = m(v)
                    except Unknown as x:
                        note(open_, R_NODE, e.where(), str(x))
                        continue
                    if d != g.attr[k]:
                        note(probs, R_NODE, e.where(), 'the node gets the attributes %r instead of %r' % (d, g.attr[k]))
            # edges
            exp = want(g, metric, th)
            have, poss = {}, set()
            allp = bool(other)
            for e in edges:
                try:
                    for b, pos, u in s.bindings(with_edges(e, s, res), maybe=True):
                        m = s.model(e, b)
                        try:
                            a, c = m(e.args[0]), m(e.args[1])
                        except Undef:
                            continue
                        k = frozenset((a, c))
                        if u:
                            poss.add(k)
                            continue
                        try:
                            d = {}
                            for x, v in e.kw.items():
                                d.update(m(v) if x == '**' else {x: m(v)})
                            have.setdefault(k, []).append((e, d.get(g.weight)))
                        except Undef:
                            note(probs, R_EDGE, e.where(), 'the weight is not defined (graph %r)' % g)
                        except Unknown as x:
                            note(open_, R_EDGE, e.where(), str(x))
                            poss.add(k)
                except Unknown as x:
                    note(open_, R_EDGE, e.where(), str(x))
                    allp = True
            for k, l in have.items():
                for e, w in l:
                    if k not in exp:
                        note(probs, R_EDGE, e.where(), 'superfluous edge %s (weight %s) in the projection of [%r]%s' % (pk(k), w, g, pt(th)))
                    elif not (isinstance(w, (F, float)) and equalv(w, exp[k])):
                        note(probs, R_EDGE, e.where(), 'edge %s has weight %s instead of %s in the projection of [%r]%s' % (pk(k), w, exp[k], g, pt(th)))
            for k in exp:
                if k not in have and k not in poss and not allp:
                    note(probs, R_EDGE, edges[0].where() if edges else fn, 'edge %s (weight %s) is missing in the projection of [%r]%s' % (pk(k), exp[k], g, pt(th)))
                elif k not in have:
                    note(open_, R_EDGE, fn, 'edge possible only')
            # lookups; an edge that is never added is not there
            s.res = res
            s.never = None if allp else set(frozenset(p) for p in itertools.combinations(g.nodes, 2)) - set(have) - poss
            for e in lookups:
                try:
                    for b, pos, u in s.bindings(e, maybe=True):
                        if u:
                            continue
                        m = s.model(e, b)
                        k = m(e.key)
                        c = s.container(e.target, m)
                        if isinstance(c, dict) and k not in c:
                            note(probs, R_KEY, e.where(), 'key %s has no entry (graph %r)' % (k, g))
                except (Unknown, Undef) as x:
                    note(open_, R_KEY, e.where(), str(x))
            # acceptance
            for c in run.log:
                if c.kind == 'cut' and c.how == 'raise' or c.kind == 'raise' and not c.active:
                    try:
                        for b, pos, u in s.bindings(c, maybe=True):
                            if not u:
                                note(probs, R_CHK, c.where(), 'raised for the bipartite graph %r' % g)
                    except Unknown as x:
                        pass
    out = []
    rules = [R_NODE, R_EDGE] + ([R_KEY] if lookups else []) + ([R_CHK] if sc.tag('fam') == 'projcheck' else [])
    for r in rules:
        ps = [(w, d) for (q, w), d in probs.items() if q == r]
        if ps:
            out += [bad(r, w, d) for w, d in ps[:3]]
        elif any(q == r for q, w in open_):
            out.append(unk(r, fn, [d for (q, w), d in open_.items() if q == r][0]))
        else:
            out.append(ok(r, fn, '%d insertion sites of nodes, %d of edges, %d structures' % (len(set(e.where() for e in nodes)), len(edges), n)))
    return out


def with_edges(e, s, res):
    """the event without the condition that the very edge is absent: adding it again would change nothing"""
    drop = [f for f in e.facts if f.op == 'not' and f.a[0].op == 'hasedge' and f.a[0].a[0] is res and set(f.a[0].a[1:3]) == set(e.args[:2])]
    if not drop:
        return e
    return View(e, [f for f in e.facts if f not in drop])


class View(object):
    def __init__(self, e, facts):
        self.e, self.facts = e, facts

    def __getattr__(self, k):
        return getattr(self.e, k)


def pk(k):
    return '-'.join(map(str, sorted(k)))


def pt(th):
    return '' if th is None else ' with threshold %s' % th
