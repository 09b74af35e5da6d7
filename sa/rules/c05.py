"""C05: cluster size limits."""
from .. import scen
from ..terms import show, mk, const, cmp_lit, entails, lit_not, symbols, linear
from ..verdict import ok, bad, unk

EXPLAIN = ("Abstract interpretation of every clustering routine with symbolic min_size and max_size. At each produced cluster the length term "
           "of the cluster is computed; obligations: the path facts entail min_size <= length and length <= max_size (the limits are honoured), "
           "and every comparison with a limit made on the way is implied by min_size <= length <= max_size (no group within the limits is "
           "withheld because of its size). The limits requested from the union-find must not exclude components within the limits.")
ASSUME = ["UnionFind.components(min_size, max_size) of phylactery yields exactly the components within the limits, inclusive",
          "lengths are counted in list members, as produced"]
LIMIT = 100
MN, MX = scen.MN, scen.MX
R1 = 'produced clusters lie within the limits'
R2 = 'groups within the limits are produced'


def scenarios(tier):
    return [s for s in scen.clustering('list', full=tier == 'thorough') if s.tag('fam') != 'minhash']


def limited(l):
    s = symbols(l)
    return MN in s or MX in s


def refuted(facts, l, L):
    """the path tells nothing about the limit at all, or contradicts it"""
    return None


def judge(sc, run, S):
    I = S.I
    out = []
    for e in run.log:
        if e.kind == 'components':
            for n, t, want in (('min_size', e.mn, MN), ('max_size', e.mx, MX)):
                # the limits of the produced clusters are examined where they are produced; here, only what is withheld
                L = mk('sym', 'size of a component', 'int')
                size = {cmp_lit('<=', MN, L), cmp_lit('<=', L, MX), cmp_lit('<=', const(1), L)}
                if t is want or t.op == 'const' and t.a[1] == (1 if n == 'min_size' else float('inf')) \
                        or entails(size, cmp_lit('<=', t, L) if n == 'min_size' else cmp_lit('<=', L, t)):
                    out.append(ok(R2, e.where(), 'components(%s=%s)' % (n, show(t)[:60])))
                elif symbols(t) <= {MN, MX}:
                    out.append(bad(R2, e.where(), 'components requested with %s=%s' % (n, show(t)[:60])))
                else:
                    out.append(unk(R2, e.where(), 'components requested with %s=%s' % (n, show(t)[:60])))
        if e.kind == 'fail' and not e.caught:
            out.append(bad(R2, e.where(), 'the routine fails: %s' % e.what))
        if e.kind != 'result':
            continue
        where = last(e)
        L = I.length(e.val, e.st)
        lo, hi = cmp_lit('<=', MN, L), cmp_lit('<=', L, MX)
        for n, l, s in (('min_size', lo, MN), ('max_size', hi, MX)):
            if entails(e.facts, l):
                out.append(ok(R1, where, '%s: %s' % (n, show(l)[:120])))
                continue
            rel = [f for f in e.facts if s in symbols(f)]
            # nothing on the path compares the length of this cluster with the limit
            if not rel:
                out.append(bad(R1, where, 'a cluster of length %s is produced without regard to %s' % (show(L)[:100], n)))
            elif any(set(linear(f.a[0])[0]) - {s} and not (set(linear(f.a[0])[0]) - {s}) ^ set(linear(L)[0]) for f in rel if f.op in ('le', 'lt')):
                out.append(bad(R1, where, 'the length %s is only bounded by %s' % (show(L)[:100], '; '.join(show(f)[:80] for f in rel))))
            else:
                out.append(unk(R1, where, '%s against length %s: %s' % (n, show(L)[:100], '; '.join(show(f)[:80] for f in rel))))
        rest = frozenset(f for f in e.facts if not limited(f))
        want = rest | {x for x in (lo, hi) if x.op != 'const'}
        for f in sorted((f for f in e.facts if limited(f)), key=lambda f: f.n):
            if entails(want, f):
                out.append(ok(R2, where, show(f)[:120]))
            elif linear_in(f, L):
                out.append(bad(R2, where, 'a cluster of length %s within the limits is withheld unless %s' % (show(L)[:80], show(f)[:120])))
            else:
                out.append(unk(R2, where, show(f)[:160]))
    return out


def linear_in(f, L):
    """f compares a limit with exactly this length (plus a constant), or with nothing but constants"""
    if f.op == 'not':
        f = f.a[0]
    if f.op not in ('le', 'lt', 'eq0'):
        return True if f.op in ('truthy', 'isinst') else False
    co = dict(linear(f.a[0])[0])
    co.pop(MN, None)
    co.pop(MX, None)
    lc = linear(L)[0]
    return set(co) == set(lc) and bool(lc)


def last(e):
    """construct that produced the result"""
    for c in reversed(e.ctx):
        if isinstance(c, tuple) and c and c[0] == 'y':
            return '%s:%s' % (str(c[1]).replace('.', '/') + '.py', c[2])
    return e.where()
