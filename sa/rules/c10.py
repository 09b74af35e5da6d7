"""C10: similarity metrics compute their definition."""
import itertools
from fractions import Fraction as F
from .. import scen
from ..drive import sym
from ..terms import show, mk
from ..model import Model, Unknown, Undef, decide, equalv, thresholds, powr, times
from ..verdict import ok, bad, unk

EXPLAIN = ("Abstract interpretation of every similarity function with symbolic collections A and B gives, per path, a closed form of the returned "
           "value (sums over the symbolic collections, set sizes, powers) and the path condition. Each summary is compared with the textbook formula: "
           "both are given their meaning in every structure of a small family (all lists with up to three tokens out of three, repetitions included, "
           "all weight vectors over three keys with a few weights; A and B the same object or not). A path condition that holds in a structure where "
           "the closed form and the formula differ, or where the closed form divides by zero, is a violation; summaries that are not closed are undecided.")
ASSUME = ["the small family of structures separates different formulas of these shapes (sums, sizes, products and roots over two collections)",
          "real arithmetic instead of floating point"]
LIMIT = 60
RULE = 'the returned value equals the textbook formula'
DICTS = ('dict',)
A_, B_ = 'A', 'B'


def scenarios(tier):
    out = []
    for dk in ('list', 'set', 'iter', 'str', 'dict'):
        for s in scen.metrics(dk):
            if dk == 'dict' and s.tag('measure') == 'cosine_similarity':
                continue
            if s.tag('measure') == 'intersection_size' and dk != 'set':
                continue
            s.name += '/' + dk
            s.tags['dk'] = dk
            out.append(s)
    for dk, dk2 in (('list', 'set'), ('set', 'list')):
        A, B = sym('A', dk), sym('B', dk2)
        for f in ('jaccard_similarity', 'dice_coefficient', 'overlap_coefficient', 'binary_cosine_similarity', 'cosine_similarity'):
            out.append(scen.Sc('%s/%s-%s' % (f, dk, dk2), 'fog.metrics.' + f, [A, B], {}, fam='metric', measure=f, dk=dk, dk2=dk2))
    for s in scen.wmetrics():
        s.tags['dk'] = 'set' if s.tag('measure') == 'binary' else 'dict'
        out.append(s)
    for a, b in (('list', 'dict'), ('dict', 'list')):
        A = sym('A', a, None, 'num' if a == 'dict' else None)
        B = sym('B', b, None, 'num' if b == 'dict' else None)
        out.append(scen.Sc('cosine_similarity/%s-%s' % (a, b), 'fog.metrics.cosine_similarity', [A, B], {}, fam='metric', measure='cosine_similarity', dk=a, dk2=b))
    return out


TOK = 'xyz'


def big(dk, c, shift):
    t = [chr(0x100 + i + shift) for i in range(c)]
    return ''.join(t) if dk == 'str' else frozenset(t) if dk == 'set' else {x: F(1 + i % 3) for i, x in enumerate(t)} if dk == 'dict' else t



def values(dk, tier_big=False):
    if dk in ('list', 'iter'):
        return [list(p) for n in range(4) for p in itertools.product(TOK, repeat=n)]
    if dk == 'str':
        return [''.join(p) for n in range(4) for p in itertools.product(TOK, repeat=n)]
    if dk == 'set':
        return [frozenset(c) for n in range(4) for c in itertools.combinations(TOK, n)]
    W = (F(1), F(2), F(0), F(5, 2))
    out = []
    for n in range(4):
        for c in itertools.combinations(TOK, n):
            for w in itertools.product(W[:2] if n == 3 else W, repeat=n):
                out.append(dict(zip(c, w)))
    return out


def weights(v):
    if isinstance(v, dict):
        return v
    d = {}
    for x in v:
        d[x] = d.get(x, F(0)) + 1
    return d


def root(v):
    return powr(F(v), F(1, 2))


SKIP = object()


def textbook(me, a, b, same):
    if me == 'sparse_norm':
        return root(sum(x * x for x in a.values()))
    if me == 'sparse_normalize':
        n = root(sum(x * x for x in a.values()))
        return {} if n == 0 else {k: times(x, powr(n, F(-1))) for k, x in a.items()}
    sa, sb = set(a), set(b)
    i = len(sa & sb)
    if me == 'intersection_size':
        return F(i)
    if me == 'sparse_dot_product':
        return sum((a[k] * b[k] for k in a if k in b), F(0))
    if not sa and not sb:
        return SKIP
    if same:
        return F(1)
    if not sa or not sb:
        return F(0)
    if me == 'jaccard_similarity':
        return F(i, len(sa | sb))
    if me == 'dice_coefficient':
        return F(2 * i, len(sa) + len(sb))
    if me == 'overlap_coefficient':
        return F(i, min(len(sa), len(sb)))
    if me in ('binary_cosine_similarity', 'binary'):
        return times(F(i), powr(F(len(sa) * len(sb)), F(-1, 2)))
    wa, wb = weights(a), weights(b)
    if me in ('cosine_similarity', 'sparse_cosine_similarity'):
        d = sum((wa[k] * wb[k] for k in wa if k in wb), F(0))
        return times(d, powr(sum(x * x for x in wa.values()) * sum(x * x for x in wb.values()), F(-1, 2)))
    if me == 'weighted_jaccard_similarity':
        ks = set(wa) | set(wb)
        return sum(min(wa.get(k, 0), wb.get(k, 0)) for k in ks) / F(sum(max(wa.get(k, F(0)), wb.get(k, F(0))) for k in ks))
    return SKIP


def hook(A, B, same, va, vb):
    def h(t, m):
        if t.op == 'is':
            if A in t.a and B in t.a:
                return same
            # a copy or a derived object is never the other argument
            if any(x.op == 'obj' for x in t.a):
                return t.a[0] is t.a[1]
        if t.op == 'isinst' and t.a[0] in (A, B):
            v = va if t.a[0] is A else vb
            return isa(v, t.a[1:])
        return None
    return h


def isa(v, cl):
    names = set()
    for c in cl:
        for x in (c.a if c.op in ('tuple', 'lit') else (c,)):
            names.add(str(x.a[0]).split('.')[-1])
    mine = {list: {'list', 'Sequence', 'Iterable', 'Collection'}, frozenset: {'set', 'frozenset', 'Set', 'Iterable', 'Collection'}, str: {'str', 'Sequence', 'Iterable', 'Collection'},
            dict: {'dict', 'Counter', 'Mapping', 'Iterable', 'Collection'}}[type(v)]
    return bool(names & mine)


def judge(sc, run, S):
    me = sc.tag('measure')
    where = sc.fn
    if run.lossy:
        return [unk(RULE, where, 'not fully analysed: %s' % run.lossy)]
    A = sc.args[0]
    B = sc.args[1] if len(sc.args) > 1 else None
    va = values(sc.tag('dk'))
    vb = values(sc.tag('dk2') or sc.tag('dk')) if B is not None else [None]
    if len(va) * len(vb) > 1600:
        va = va[:30] + va[30::3]
        vb = vb[:30] + vb[31::3]
    for c in sorted(set(t + d for t in thresholds(run.outs, 2, 80) for d in (0, 3, 4)) - set(range(4)))[:10]:
        va += [big(sc.tag('dk'), c, 0), big(sc.tag('dk'), c, 2)]
        vb += [big(sc.tag('dk2') or sc.tag('dk'), c, 1)] if B is not None else []
    n = u = 0
    worst = None
    for a in va:
        for b in vb:
            for same in ((False, True) if B is not None and a == b and type(a) is type(b) and sc.tag('dk') != 'iter' else (False,)):
                try:
                    want = textbook(me, a, b, same)
                except (Undef, ZeroDivisionError):
                    continue
                if want is SKIP:
                    continue
                env = {A: a}
                if B is not None:
                    env[B] = b
                h = hook(A, B, same, a, b)

                def check(k, m, v):
                    if k == 'undef' or k == 'raise':
                        return False
                    if not isinstance(v, type(A)):
                        return None
                    x = m(v)
                    if isinstance(x, (F, float, int)) and isinstance(want, (F, float)):
                        return equalv(x, want)
                    if isinstance(x, dict) and isinstance(want, dict):
                        return equalv(x, want)
                    return False
                r, o = decide(run.outs, lambda st: Model(env, S.I, st, h), check)
                n += 1
                if r == 'bad' and worst is None:
                    worst = (a, b, same, want, o)
                elif r in ('unk', 'none'):
                    u += 1
    if worst:
        a, b, same, want, o = worst
        val = show(o[2])[:160] if hasattr(o[2], 'op') else str(o[2])[:80]
        return [bad(RULE, where, 'outcome %s %s under [%s] is not the formula (e.g. A=%s B=%s%s: expected %s)' % (
            o[0], val, '; '.join(sorted(show(f)[:60] for f in o[1].facts))[:240], pr(a), pr(b), ' same object' if same else '', pr(want)))]
    if u:
        return [unk(RULE, where, '%d of %d structures undecided' % (u, n))]
    return [ok(RULE, where, '%d paths, %d structures: %s' % (len(run.outs), n, '; '.join(sorted(set(show(o[2])[:120] for o in run.outs if hasattr(o[2], 'op'))))[:400]))]


def pr(v):
    if isinstance(v, F):
        return str(v)
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s: %s' % (k, pr(x)) for k, x in sorted(v.items()))
    if isinstance(v, frozenset):
        return '{%s}' % ', '.join(sorted(map(str, v)))
    return str(v)
