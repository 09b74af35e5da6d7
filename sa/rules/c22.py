"""C22: windows and segments cover their sequence."""
import itertools
from fractions import Fraction as F
from .. import scen
from ..drive import sym
from ..terms import show, const, cmp_lit, ONE, ZERO
from ..model import Model, Unknown, Undef, decide, equalv, thresholds
from ..verdict import ok, bad, unk

EXPLAIN = ("Abstract interpretation gives, per path, a closed form of the produced sequence: a comprehension over symbolic indices whose elements are slices "
           "of the symbolic sequence with symbolic bounds. The bounds of the slices are compared with the definition of the windows, and the segments / blocks are "
           "checked to be adjacent, disjoint and covering, for every length up to 9 (and window size or threshold up to 4): the slice bounds are piecewise linear "
           "in the length, its quotient and its remainder, all pieces of which occur in that range.")
ASSUME = ["slice bounds are piecewise linear with the periods that occur in the code (2, 3 and k + 1), so lengths up to 9 exercise every piece"]
LIMIT = 60
R1 = 'the n-grams are exactly the contiguous windows'
R2 = 'segments are adjacent, disjoint, covering and k + 1 in number'
R3 = 'blocks of a complete set cut the string at common positions'
PJ = 'fog.clustering.passjoin.'


def scenarios(tier):
    out = []
    N, K, L = sym('n', 'int'), sym('k', 'int'), sym('l', 'int')
    nf, kf, lf = [cmp_lit('>=', N, ONE)], [cmp_lit('>=', K, ZERO)], [cmp_lit('>=', L, ZERO)]
    for k in ('str', 'list', 'tuple'):
        X = sym('tokens', k)
        out.append(scen.Sc('ngrams/' + k, 'fog.tokenizers.ngrams', [N, X], {}, facts=nf, consume='list', what='ngrams', n=N, x=X))
        for i, f in ((2, 'bigrams'), (3, 'trigrams'), (4, 'quadrigrams')):
            out.append(scen.Sc('%s/%s' % (f, k), 'fog.tokenizers.' + f, [X], {}, consume='list', what='ngrams', n=i, x=X))
    S = sym('string', 'str')
    out.append(scen.Sc('passjoin.partition', PJ + 'partition', [K, L], {}, facts=kf + lf, consume='list', what='partition', k=K, l=L))
    out.append(scen.Sc('passjoin.segments', PJ + 'segments', [K, S], {}, facts=kf, consume='list', what='segments', k=K, x=S))
    for f in ('levenshtein_1d_blocks', 'damerau_levenshtein_1d_blocks', 'levenshtein_2d_blocks', 'damerau_levenshtein_2d_blocks'):
        out.append(scen.Sc(f, 'fog.key.' + f, [S], {}, consume='list', what='blocks', x=S, tr=f.startswith('dam')))
    return out


ABC = ''.join(map(chr, range(97, 97 + 400)))


def seqs(k, top=9, more=()):
    for l in list(range(top + 1)) + [m for m in more if m > top]:
        s = ABC[:l]
        yield s if k == 'str' else list(s) if k == 'list' else tuple(s)


def cases(sc, more):
    w = sc.tag('what')
    if w == 'ngrams':
        for x in seqs(sc.tag('x').a[1], 6, more):
            for n in (range(1, 5) if not isinstance(sc.tag('n'), int) else (sc.tag('n'),)):
                env = {sc.tag('x'): x}
                if not isinstance(sc.tag('n'), int):
                    env[sc.tag('n')] = F(n)
                yield env, (x, n)
    elif w == 'partition':
        for k in range(5):
            for l in list(range(10)) + [m for m in more if m > 9]:
                yield {sc.tag('k'): F(k), sc.tag('l'): F(l)}, (k, l)
    elif w == 'segments':
        for k in range(5):
            for x in seqs('str', 9, more):
                yield {sc.tag('k'): F(k), sc.tag('x'): x}, (k, x)
    else:
        for x in seqs('str', 9, more):
            yield {sc.tag('x'): x}, (x,)


def norm(v):
    return v if isinstance(v, str) else list(v)


def good(sc, c, v):
    w = sc.tag('what')
    if not isinstance(v, (list, tuple)):
        return False
    if w == 'ngrams':
        x, n = c
        want = [x] if len(x) < n else [x[i:i + n] for i in range(len(x) - n + 1)]
        return [norm(y) if isinstance(y, (str, list, tuple)) else y for y in v] == [norm(y) for y in want]
    if w == 'partition':
        k, l = c
        if len(v) != k + 1:
            return False
        p = 0
        for i, t in enumerate(v):
            if not isinstance(t, tuple) or len(t) != 3 or t[0] != i or t[1] != p or t[2] < 0:
                return False
            p += t[2]
        return p == l
    if w == 'segments':
        k, x = c
        return len(v) == k + 1 and all(isinstance(t, tuple) and len(t) == 2 and t[0] == i and isinstance(t[1], str) for i, t in enumerate(v)) and ''.join(t[1] for t in v) == x
    x, = c
    return blocks(x, v, sc.tag('tr'), '2d' in sc.name)


def blocks(x, v, tr, three):
    if not all(isinstance(b, str) for b in v):
        return False
    if three:
        parts = [[b[1:] for b in v if b[:1] == f] for f in '\x00\x01\x02']
        if sum(map(len, parts)) != len(v):
            return False
    else:
        parts = [[b[1:] for b in v if b[:1] == '\x00'], [b[:-1] for b in v if b[-1:] == '\x00']]
        if any(b[:1] != '\x00' and b[-1:] != '\x00' for b in v):
            return False
    used = [set() for p in parts]
    for c in itertools.product(*parts):
        if ''.join(c) == x:
            for u, y in zip(used, c):
                u.add(y)
    if not all(used):
        return False
    for p, u in zip(parts, used):
        for y in p:
            if y not in u and not (tr and (y not in x or len(y) <= 1)):
                return False
    return True


def judge(sc, run, S):
    R = {'ngrams': R1, 'blocks': R3}.get(sc.tag('what'), R2)
    where = sc.fn
    if run.lossy:
        return [unk(R, where, 'not fully analysed: %s' % run.lossy)]
    n = u = 0
    worst = None
    more = thresholds(run.outs, 2, 90, S.I, mult=(1, 2, 3, 4))
    for env, c in cases(sc, more):
        def check(k, m, v):
            if k in ('raise', 'undef'):
                return False
            return good(sc, c, m(v))
        r, o = decide(run.outs, lambda st: Model(env, S.I, st), check, top=9)
        n += 1
        if r == 'bad' and worst is None:
            worst = (c, o)
        elif r in ('unk', 'none'):
            u += 1
    if worst:
        c, o = worst
        v = o[2]
        t = show(S.I.content(v, o[1]))[:300] if hasattr(v, 'op') else str(v)[:80]
        return [bad(R, where, 'outcome %s %s under [%s] breaks the definition (e.g. %s)' % (o[0], t, '; '.join(sorted(show(f)[:60] for f in o[1].facts))[:200], c))]
    if u:
        return [unk(R, where, '%d of %d cases undecided' % (u, n))]
    return [ok(R, where, '%d paths, %d cases: %s' % (len(run.outs), n, '; '.join(show(S.I.content(o[2], o[1]))[:120] for o in run.outs if hasattr(o[2], 'op'))[:400]))]
