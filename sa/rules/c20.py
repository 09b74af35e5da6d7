"""C20: signatures depend only on the set of tokens."""
from fractions import Fraction as F
from .. import scen
from ..terms import mk, show, subterms, kind, mentions, entails, cmp_lit, num, is_num_const, lit_not
from ..model import Model, Unknown, Undef, decide, equalv, thresholds
from ..verdict import ok, bad, unk
from . import effects as fx

EXPLAIN = ("Dataflow over the abstract loops that read the sequence or its tokens: every value taken from it must be a function of one single element (no position, no "
           "neighbour, no running hash), every loop must run over all of them, and a variable carried from one token to the next must be updated by an operation that "
           "ignores order and repetition (minimum, maximum, union, bitwise or/and). Draws made while hashing must come from a generator reseeded with the token at hand "
           "in the same iteration; the hasher's own attributes are not written. The length of the returned signature is derived as a term and compared with the announced one on "
           "every path. The closed forms of the signature similarities are compared with their values under exchange of the arguments and under a change at each position.")
ASSUME = ["SuperMinHash: that its per-token updates commute is a theorem about the algorithm; the draws feeding them are checked"]
LIMIT = 90
R1 = 'each token is hashed on its own'
R2 = 'tokens are combined by operations that ignore order and repetition'
R3 = 'draws made while hashing depend only on the token'
R4 = 'hashing leaves the hasher as it was'
R5 = 'the signature has the announced length'
R6 = 'similarities compare every position, symmetrically'


def scenarios(tier):
    L = [s for s in scen.lsh('list') if s.tag('fam') in ('lsh', 'lshsim')]
    for s in scen.lsh('str') + scen.lsh('iter') + (scen.lsh('set') + scen.lsh('tuple') if tier == 'thorough' else []):
        if s.tag('fam') == 'lsh':
            s.name += '/' + s.args[0].a[1]
            L.append(s)
    return L


def judge(sc, run, S):
    if run.lossy:
        return [unk(R1, sc.fn, 'not fully analysed: %s' % run.lossy)]
    out, seen = [], set()

    def put(o):
        k = (o.rule, o.verdict, o.where, o.detail)
        if k not in seen:
            seen.add(k)
            out.append(o)
    if sc.tag('fam') == 'lshsim':
        return similarity(sc, run, S)
    Q = sc.args[0]
    super_ = any(e.kind == 'reseed' for e in run.log)
    loops(sc, run, S, Q, put, super_)
    draws(sc, run, Q, put)
    writes(sc, run, S, put)
    lengths(sc, run, S, put)
    return out


def reads(t, Q):
    return [x for x in subterms(t) if x.op == 'item' and x.a[0] is Q]


def raw(t, b, Q):
    """is the position b used other than to read the element"""
    if t is b:
        return True
    if t.op == 'item' and (t.a[0] is Q or t.a[0].op in ('gset', 'gseq', 'obj') or mentions(t.a[0], Q)) and t.a[1] is b:
        return False
    return any(raw(x, b, Q) if hasattr(x, 'op') else tup(x, b, Q) for x in t.a)


def tup(x, b, Q):
    return isinstance(x, tuple) and any(raw(y, b, Q) if hasattr(y, 'op') else tup(y, b, Q) for y in x)


def outside(t, Q):
    """is the sequence used other than to read elements"""
    if t is Q:
        return True
    if t.op in ('gset', 'gseq', 'gdict', 'lv', 'bnd', 'obj', 'sum'):
        return False
    return any(anyout(x, Q) for x in (t.a[1:] if t.op == 'item' and t.a[0] is Q else t.a))


def anyout(x, Q):
    return outside(x, Q) if hasattr(x, 'op') else isinstance(x, tuple) and any(anyout(y, Q) for y in x)


def tokenloops(e, Q):
    """the active loops over the sequence or over containers of its tokens"""
    return [a for a in e.active if a[1].op == 'bnd' and a[3] is not None and mentions(a[3], Q)]


def newfacts(e):
    h = set(e.head.facts) if e.kind == 'iterend' else set()
    return [f for f in e.facts if f not in h]


def loops(sc, run, S, Q, put, super_):
    n = 0
    inv = {}
    for e in run.log:
        if e.kind == 'iterend':
            inv.setdefault(e.loop, set()).update(e.head.facts)
    for e in run.log:
        if e.kind not in ('iterend', 'cut'):
            continue
        act = tokenloops(e, Q)
        mine = [a for a in act if a[0] == e.loop]
        if not mine:
            continue
        lk, b, lo, hi, node = mine[0]
        # the whole sequence is read
        if hi is mk('len', Q) or hi.op == 'len' and hi.a[0].op in ('gset', 'gseq', 'obj'):
            if is_num_const(lo) and num(lo) == 0:
                n += 1
            elif is_num_const(lo) and hi is mk('len', Q):
                put(bad(R2, e.where(), 'the tokens before position %s are left out' % show(lo)))
        elif hi.op in ('min', 'max') and mk('len', Q) in hi.a or hi.op in ('add',) and mk('len', Q) in hi.a:
            put(bad(R2, e.where(), 'only the tokens up to position %s are read' % show(hi)[:80]))
        if e.kind == 'cut':
            if e.how not in ('brk', 'ret'):
                continue
            fs = [f for f in e.facts if (raw(f, b, Q) or any(x.op == 'lv' and x.a[0] == lk and x.a[1] and x.a[1][0] == 'ln' for x in subterms(f))) and f.op in ('le', 'lt', 'eq0', 'eq', 'not')]
            fs = [f for f in fs if not trivial(f, b, lo, hi) and f not in inv.get(lk, ())]
            if fs:
                put(bad(R2, e.where(), 'the remaining tokens are left out when %s' % show(fs[0])[:100]))
            else:
                put(unk(R2, e.where(), 'leaves the loop over the tokens'))
            continue
        # values
        for x in e.trace:
            if x.kind in ('ins', 'inc', 'mut', 'reseed'):
                vals = [v for v in (x.get('val'), x.get('key'), x.get('seed')) if hasattr(v, 'op')] + [v for v in (x.get('args') or ()) if hasattr(v, 'op')]
                for v in vals:
                    rs = reads(v, Q)
                    if any(r.a[1] is not b and not (r.a[1].op == 'bnd' and mentions_bound(v, r.a[1])) for r in rs) and any(raw(r.a[1], b, Q) and r.a[1] is not b for r in rs):
                        put(bad(R1, x.where(), 'a neighbouring token enters %s' % show(v)[:100]))
                    elif rs and raw(v, b, Q):
                        put(bad(R1, x.where(), 'the position of the token enters %s' % show(v)[:100]))
                    elif outside(v, Q):
                        put(bad(R1, x.where(), 'more than the token enters %s' % show(v)[:100]))
                    elif rs and any(y.op == 'lv' and y.a[0] == lk and y.a[1] and y.a[1][0] not in ('content', 'ver', 'ln') for y in subterms(v)):
                        put(bad(R1, x.where(), 'the hash of a token depends on the tokens before it: %s' % show(v)[:100]))
                    elif rs:
                        put(ok(R1, x.where(), show(v)[:100]))
        # carried variables
        heads = {}
        for f, vs in e.head.fr.items():
            for v, t in vs.items():
                if hasattr(t, 'op') and t.op == 'lv' and t.a[0] == lk:
                    heads[(f, v)] = t
        hs = set(heads.values())
        for (f, v), h in heads.items():
            t = e.end.fr.get(f, {}).get(v)
            if t is None or t is h or not hasattr(t, 'op'):
                continue
            r = update(t, h, hs, e, b, Q)
            if not usedafter(run, e, lk, v):
                continue
            if r is True:
                put(ok(R2, e.where(), '%s: %s' % (v, show(t)[:80])))
            elif r is False and not super_:
                put(bad(R2, e.where(), 'the value kept in %s is that of the last token (%s)' % (v, show(t)[:80])))
            elif r == 'sum' and nosets(run):
                put(bad(R2, e.where(), '%s counts repeated tokens (%s)' % (v, show(t)[:80])))
            elif r == 'pos' and not super_:
                put(bad(R1, e.where(), 'the position of the token enters %s = %s' % (v, show(t)[:80])))
            elif r == 'chain':
                put(bad(R1, e.where(), 'the hash of a token depends on the tokens before it: %s' % show(t)[:100]))
            else:
                put(unk(R2, e.where(), '%s -> %s' % (v, show(t)[:80])))
    if n:
        put(ok(R2, sc.fn, '%d loops over the whole token set' % n))
    # containers measured or indexed by position
    for e in run.log:
        if e.kind == 'inc' and e.target.op == 'obj' and e.key is not None and reads(e.key, Q):
            put(unk(R2, e.where(), 'tokens are counted'))
    for k, s, v in run.outs:
        if k != 'ret' or not hasattr(v, 'op'):
            continue
        ts = [v]
        if v.op == 'obj':
            o = S.I.getobj(s, v)
            if o.content is not None:
                ts.append(o.content)
        for t in ts:
            for x in subterms(t):
                if x.op == 'item' and x.a[0] is Q and is_num_const(x.a[1]) or x is mk('len', Q) and t.op not in ('gset', 'gseq', 'gdict') and rawlen(t, x):
                    put(bad(R1, sc.fn, 'the signature depends on %s' % show(x)))


def rawlen(t, x, depth=0):
    """len(sequence) used as a value, not as the range of an enumeration"""
    if t is x:
        return True
    if t.op in ('gset', 'gseq', 'gdict', 'sum', 'lv', 'len'):
        return False
    return any(rawlen(y, x) for y in t.a if hasattr(y, 'op'))


def trivial(f, b, lo, hi):
    return f in (cmp_lit('>=', b, lo), cmp_lit('<', b, hi)) or entails([cmp_lit('>=', b, lo), cmp_lit('<', b, hi)], f)


def mentions_bound(v, q):
    return any(x.op in ('gset', 'gseq', 'sum', 'gdict') and x.a[0] is q for x in subterms(v))


def nosets(run):
    return not any(e.kind == 'ins' and e.op == 'add' for e in run.log)


def usedafter(run, e, lk, v):
    """does the value left by the loop reach anything"""
    for k, s, val in run.outs:
        for t in ([val] if hasattr(val, 'op') else []):
            if has(t, lk, v):
                return True
    for x in run.log:
        if x is e:
            continue
        for t in list(x.d.values()):
            for y in (t if isinstance(t, tuple) else (t,)):
                if hasattr(y, 'op') and has(y, lk, v):
                    return True
        for y in x.facts:
            if has(y, lk, v):
                return True
        if x.kind == 'iterend' and x.loop != lk:
            for f, vs in x.end.fr.items():
                for y in vs.values():
                    if hasattr(y, 'op') and y.op != 'lv' and has(y, lk, v):
                        return True
    return False


def has(t, lk, v):
    return any(x.op == 'lv' and x.a[0] == ('x', lk) and x.a[1] and (x.a[1] == v or x.a[1][0] == v) for x in subterms(t))


def update(t, h, hs, e, b, Q):
    """True: min/max/or/and; False: last one wins; 'sum', 'pos', 'chain' or None"""
    others = [x for x in hs if mentions(t, x)]
    if not others:
        if raw(t, b, Q) and reads(t, Q):
            return 'pos'
        nf = newfacts(e)
        lt = cmp_lit('<', t, h)
        gt = cmp_lit('>', t, h)
        le, ge = cmp_lit('<=', t, h), cmp_lit('>=', t, h)
        if any(entails(list(e.facts), x) is True for x in (lt, gt, le, ge)):
            return True
        if any(mentions(f, h) for f in nf):
            return None
        if reads(t, Q) or any(x.op == 'item' and x.a[1] is b for x in subterms(t)):
            return False
        return None
    if t.op in ('min', 'max') and h in t.a and not any(mentions(x, h) for x in t.a if x is not h):
        return True
    if t.op == 'bitop' and t.a[0] in ('|', '&') and h in t.a[1:]:
        return True
    if t.op == 'add' and h in t.a and others == [h]:
        return 'sum'
    if any(x.op in ('app', 'ext') or x.op == 'bitop' or 'crc32' in str(x.op) for x in subterms(t)) and others == [h] and any(
            x.op not in ('add', 'mul', 'min', 'max', 'bitop', 'lv', 'ite') and mentions(x, h) and reads(x, Q) for x in subterms(t)):
        return 'chain'
    return None


def draws(sc, run, Q, put):
    created = set(e.rng for e in run.log[run.built:] if e.kind == 'rngnew' and not tokenloops(e, Q))
    for e in run.log[run.built:]:
        if e.kind == 'draw':
            act = tokenloops(e, Q)
            if not act:
                if e.rng not in created:
                    put(bad(R3, e.where(), 'a generator kept by the hasher is drawn from without being reseeded'))
                continue
            seed = e.seed
            if not hasattr(seed, 'op') or seed.op == 'const':
                put(bad(R3, e.where(), 'the generator continues from token to token'))
                continue
            bs = [a[1] for a in act]
            toks = [x for x in subterms(seed) if x.op == 'item' and x.a[1] in bs]
            if any(raw(seed, b, Q) for b in bs):
                put(bad(R3, e.where(), 'the draw depends on the position of the token: %s' % show(seed)[:80]))
            elif toks:
                put(ok(R3, e.where(), 'seeded with %s' % show(seed)[:80]))
            elif seed.op == 'lv':
                put(unk(R3, e.where(), show(seed)[:80]))
            else:
                put(bad(R3, e.where(), 'the generator is not reseeded with the token but with %s' % show(seed)[:80]))


def writes(sc, run, S, put):
    n = 0
    for e in fx.writes(run):
        if not hasattr(e.target, 'op'):
            continue
        n += 1
        r = fx.root(e.target, e.st, S.I)
        if r[0] in ('self', 'global', 'default'):
            put(bad(R4, e.where(), '%s of an object that outlives the call (%s)' % (e.kind, r[0])))
    put(ok(R4, sc.fn, '%d modifications of containers, all made by the call itself' % n))


def lengths(sc, run, S, put):
    want = sc.tag('length')
    for k, s, v in run.outs:
        if k == 'raise':
            put(bad(R5, sc.fn, 'hashing fails with %s when %s' % (v[0] if isinstance(v, tuple) else v, '; '.join(show(f)[:60] for f in s.facts)[:160])))
            continue
        if k != 'ret' or not hasattr(v, 'op'):
            continue
        if sc.tag('numpy'):
            r = nplen(run, S, s, v, want)
        else:
            ln = S.I.length(v, s) if v.op in ('obj', 'lit', 'gseq', 'cat', 'tuple') or kind(v) in ('list', 'tuple') else None
            if ln is None:
                r = None
            elif entails(list(s.facts), cmp_lit('==', ln, want)) is True:
                r = True
            elif any(x.op in ('lv',) for x in subterms(ln)):
                r = None
            else:
                r = concrete(ln, want, s, S)
        d = 'length %s when %s' % (show(S.I.length(v, s))[:60] if v.op == 'obj' else show(v)[:80], '; '.join(sorted(show(f)[:60] for f in s.facts if not show(f).startswith('(-')))[:200])
        put(ok(R5, sc.fn, d[:80]) if r is True else bad(R5, sc.fn, d) if r is False else unk(R5, sc.fn, d))


def concrete(ln, want, s, S):
    """False when the derived length differs from the announced one for some size"""
    syms = [x for x in subterms(ln) if x.op == 'sym']
    if any(x is not want for x in syms) and not mentions(ln, want):
        return False
    for h in (1, 2, 3, 5):
        try:
            if Model({want: h}, S.I, s)(ln) != h:
                return False
        except (Unknown, Undef):
            return None
    return True


def nplen(run, S, s, v, want):
    if v.op == 'obj':
        o = S.I.getobj(s, v)
        if o.kind == 'nparray' and o.x and o.x[0] is not None:
            t = o.x[0]
            if t.op == 'lib' and len(t.a) > 1 and t.a[0].split('.')[-1] in ('zeros', 'ones', 'empty', 'full'):
                return True if t.a[1] is want else False if is_num_const(t.a[1]) else None
        if o.kind == 'list':
            ln = S.I.length(v, s)
            return True if entails(list(s.facts), cmp_lit('==', ln, want)) is True else None
        return None
    for e in run.log:
        if e.kind == 'extmeth' and e.name in ('min', 'max'):
            ax = (e.get('kw') or {}).get('axis')
            if ax is None and not e.args:
                return False
            if ax is None:
                ax = e.args[0]
            shape = [x for x in run.log if x.kind == 'setattr' and x.attr == 'shape']
            if is_num_const(ax) and shape and shape[-1].val.op == 'tuple' and len(shape[-1].val.a) == 2:
                return shape[-1].val.a[1 if num(ax) == 0 else 0] is want
    return None


# -- similarities ----------------------------------------------------------------------------------------------------
def similarity(sc, run, S):
    A, B = sc.args
    where = sc.fn

    def value(a, b):
        got = []

        def check(k, m, v):
            if k != 'ret' or not hasattr(v, 'op'):
                return False
            got.append(m(v))
            return True
        r, o = decide(run.outs, lambda st: Model({A: a, B: b}, S.I, st), check, max(4, len(a)))
        return (r, got[0] if r == 'ok' and got else None, o)

    n = u = 0
    lsb = 'lsb' in sc.name
    cases = []
    big = thresholds(run.outs, 5, 80)
    for h in [1, 2, 3, 4, 5] + sorted(set(c + 1 for c in big[-4:])):
        base = tuple((i * 7 + 3) % 5 + (1 << 33) * (i % 2) for i in range(h))
        far = tuple(x ^ ((1 << 64) - 1) for x in base)
        near = tuple(x + 1 for x in base)
        cases += [(base, base, None), (base, far, 0), (base, near, 0), (base, far[:-1] + base[-1:], 0), (base, base[:1] + near[1:], 0), (base, near[:h // 2] + base[h // 2:], 0)]
        for i in range(h) if h < 6 else (0, h // 2, h - 1):
            for d in (1, -2, 5) if h < 6 else (1,):
                other = list(base)
                other[i] += d
                cases.append((base, tuple(max(0, x) for x in other), i))
    for a, b, i in cases:
        r, x, o = value(a, b)
        r2, y, o2 = value(b, a)
        n += 1
        if r in ('unk', 'none') or r2 in ('unk', 'none'):
            u += 1
            continue
        if r == 'bad' or r2 == 'bad':
            return [bad(R6, where, 'fails for signatures of length %d' % len(a))]
        if not equalv(x, y):
            return [bad(R6, where, 'not symmetric: %s for %s, %s but %s the other way' % (x, a, b, y))]
        if i is None and not equalv(x, F(1)):
            return [bad(R6, where, 'equal signatures of length %d give %s' % (len(a), x))]
        if i is not None and a != b:
            want = 1 - F(2 * sum(bin(x_ ^ y_).count('1') for x_, y_ in zip(a, b)), 64 * len(a)) if lsb else 1 - F(sum(x_ != y_ for x_, y_ in zip(a, b)), len(a))
            if equalv(x, F(1)):
                return [bad(R6, where, 'a difference at position %d of %d is not seen' % (i, len(a)))]
            if not equalv(x, want):
                return [bad(R6, where, 'signatures %s and %s give %s instead of %s' % (str(a)[:60], str(b)[:60], x, want))]
    if u:
        return [unk(R6, where, '%d of %d pairs of signatures undecided' % (u, n))]
    return [ok(R6, where, '%d pairs: %s' % (n, '; '.join(sorted(set(show(o[2])[:120] for o in run.outs if hasattr(o[2], 'op'))))))]
