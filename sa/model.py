"""Meaning of closed terms in a small finite structure.

The interpreter summarises a function by terms (values, guards).  To compare such a summary with a specification that is
written differently, both are given their meaning in every structure of a small family (sets over three tokens, strings up
to a few letters...).  A difference refutes the equality of the two formulas; the code itself is never executed.
Anything the terms leave open makes the evaluation raise Unknown."""
import itertools, math
from fractions import Fraction as F
from .terms import T, cval, show, kind, const, symbols, subterms


class Unknown(Exception):
    pass


class Undef(Exception):
    """the term has no value in this structure (division by zero, index out of range...)"""


class Model(object):
    """env: term -> python value; hook(term, model) -> value or None for other atoms"""

    def __init__(self, env, I=None, st=None, hook=None):
        self.env = dict(env)
        self.I, self.st, self.hook = I, st, hook
        self.memo = {}
        self.active = ()

    def bind(self, b, v):
        m = Model.__new__(Model)
        m.env = dict(self.env)
        m.env[b] = v
        m.I, m.st, m.hook, m.memo = self.I, self.st, self.hook, {}
        m.active = self.active
        return m

    def __call__(self, t):
        if not isinstance(t, T):
            return t
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        v = self.hook(t, self) if self.hook else None
        if v is None:
            f = getattr(self, 'o_' + t.op, None)
            if f is None:
                raise Unknown(show(t)[:120])
            v = f(t)
        self.memo[t] = v
        return v

    def num(self, t):
        v = self(t)
        if isinstance(v, bool):
            return F(int(v))
        if isinstance(v, int):
            return F(v)
        if isinstance(v, (F, float)):
            return v
        raise Unknown('number ' + show(t)[:80])

    def int(self, t):
        v = self.num(t)
        if isinstance(v, float) or v.denominator != 1:
            raise Unknown('integer ' + show(t)[:80])
        return int(v)

    def seq(self, t):
        v = self(t)
        if isinstance(v, str):
            return v
        if isinstance(v, (list, tuple)):
            return v
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=order)
        if isinstance(v, dict):
            return list(v)
        raise Unknown('sequence ' + show(t)[:80])

    # -------------------------------------------------------------- numbers
    def o_const(self, t):
        v = t.a[1]
        if t.a[0] == 'bool':
            return bool(v)
        if isinstance(v, F):
            return v
        return cval(t)

    def o_poly(self, t):
        s = F(0)
        for m, c in t.a:
            p = c
            for a, e in m:
                p = times(p, powr(self.num(a), e))
            s = plus(s, p)
        return s

    def o_len(self, t):
        return F(len(self.seq(t.a[0])))

    def o_isize(self, t):
        return F(len(set(self.seq(t.a[0])) & set(self.seq(t.a[1]))))

    def o_min(self, t):
        return min(self.num(x) for x in t.a)

    def o_max(self, t):
        return max(self.num(x) for x in t.a)

    def o_abs(self, t):
        return abs(self.num(t.a[0]))

    def o_floordiv(self, t):
        b = self.num(t.a[1])
        if b == 0:
            raise Undef('division')
        return F(self.num(t.a[0]) // b)

    def o_mod(self, t):
        b = self.num(t.a[1])
        if b == 0:
            raise Undef('division')
        return F(self.num(t.a[0]) % b)

    def o_ceil(self, t):
        return F(math.ceil(self.num(t.a[0])))

    def o_floor(self, t):
        return F(math.floor(self.num(t.a[0])))

    def o_int(self, t):
        v = self(t.a[0])
        if isinstance(v, str):
            raise Unknown('int of text')
        return F(int(v))

    def o_float(self, t):
        v = self(t.a[0])
        if isinstance(v, str):
            raise Unknown('float of text')
        return v

    def o_sqrt(self, t):
        return powr(self.num(t.a[0]), F(1, 2))

    def o_pow(self, t):
        a, b = self.num(t.a[0]), self.num(t.a[1])
        try:
            return a ** b
        except (ZeroDivisionError, OverflowError):
            raise Undef('power')

    def o_bitop(self, t):
        if t.a[0] == '~':
            return F(~self.int(t.a[1]))
        a, b = self.int(t.a[1]), self.int(t.a[2])
        try:
            return F({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if 0 <= b < 4096 else None, '>>': a >> b if b >= 0 else None}[t.a[0]])
        except (KeyError, TypeError):
            raise Unknown('bit operation')

    def o_popcount(self, t):
        return F(bin(self.int(t.a[0])).count('1'))

    def o_ord(self, t):
        v = self(t.a[0])
        if isinstance(v, str) and len(v) == 1:
            return F(ord(v))
        raise Undef('ord')

    def alts(self, t, num=False):
        """elements of a comprehension-like term"""
        q, lo, hi, parts = t.a
        out = []
        for i in range(self.int(lo), self.int(hi)):
            m = self.bind(q, F(i))
            for guards, elem in parts:
                if all(m.truth(g) for g in guards):
                    if num:
                        out.append(m.num(elem))
                    else:
                        out += [x for e in elem for x in m.elem(e)]
        return out

    def elem(self, e):
        if e.op == 'splat':
            return list(self.seq(e.a[0]))
        if e.op == 'pair':
            return [(self(e.a[0]), self(e.a[1]))]
        return [self(e)]

    def o_sum(self, t):
        s = F(0)
        for v in self.alts(t, True):
            s = plus(s, v)
        return s

    def o_gseq(self, t):
        return self.alts(t)

    def o_gset(self, t):
        return frozenset(map(hashable, self.alts(t)))

    def o_gdict(self, t):
        return dict((hashable(k), v) for k, v in self.alts(t))

    # -------------------------------------------------------------- containers
    def o_setof(self, t):
        return frozenset(map(hashable, self.seq(t.a[0])))

    def o_listof(self, t):
        return list(self.seq(t.a[0]))

    def o_tupleof(self, t):
        return tuple(self.seq(t.a[0]))

    def o_tuple(self, t):
        return tuple(x for e in t.a for x in self.elem(e))

    def o_lit(self, t):
        return [x for e in t.a for x in self.elem(e)]

    def o_setlit(self, t):
        return frozenset(hashable(x) for e in t.a for x in self.elem(e))

    def o_dictlit(self, t):
        d = {}
        for p in t.a:
            if p.op == 'pair':
                d[hashable(self(p.a[0]))] = self(p.a[1])
            else:
                raise Unknown('dict')
        return d

    def o_dput(self, t):
        d = dict(self(t.a[0]))
        d[hashable(self(t.a[1]))] = self(t.a[2])
        return d

    def o_dmerge(self, t):
        d = dict(self(t.a[0]))
        d.update(self(t.a[1]))
        return d

    def o_sadd(self, t):
        return frozenset(self.seq(t.a[0])) | {hashable(self(t.a[1]))}

    def o_lput(self, t):
        c = list(self.seq(t.a[0]))
        i = self.int(t.a[1])
        if not -len(c) <= i < len(c):
            raise Undef('index')
        c[i] = self(t.a[2])
        return c

    def o_linsert(self, t):
        c = list(self.seq(t.a[0]))
        c.insert(self.int(t.a[1]), self(t.a[2]))
        return c

    def o_union(self, t):
        return frozenset().union(*[frozenset(map(hashable, self.seq(x))) for x in t.a])

    def o_inter(self, t):
        return frozenset(map(hashable, self.seq(t.a[0]))) & frozenset(map(hashable, self.seq(t.a[1])))

    def o_diff(self, t):
        return frozenset(map(hashable, self.seq(t.a[0]))) - frozenset(map(hashable, self.seq(t.a[1])))

    def o_symdiff(self, t):
        return frozenset(map(hashable, self.seq(t.a[0]))) ^ frozenset(map(hashable, self.seq(t.a[1])))

    def o_rev(self, t):
        return self.seq(t.a[0])[::-1]

    def o_rep(self, t):
        v = self.seq(t.a[0])
        return v * max(0, self.int(t.a[1]))

    def o_sorted(self, t):
        if len(t.a) > 1 and any(isinstance(x, T) and not (x.op == 'const') for x in t.a[1:]):
            raise Unknown('sorted')
        return sorted(self.seq(t.a[0]), key=order)

    def o_slc(self, t):
        v = self.seq(t.a[0])
        lo = None if t.a[1] is None or self(t.a[1]) is None else self.int(t.a[1])
        hi = None if t.a[2] is None or self(t.a[2]) is None else self.int(t.a[2])
        return v[lo:hi]

    def o_concat(self, t):
        vs = [self.seq(x) for x in t.a]
        if all(isinstance(v, str) for v in vs):
            return ''.join(vs)
        if any(isinstance(v, str) for v in vs):
            raise Unknown('concat')
        tup = all(isinstance(v, tuple) for v in vs)
        r = [x for v in vs for x in v]
        return tuple(r) if tup else r

    def o_cat(self, t):
        return self.o_concat(t)

    def o_snap(self, t):
        return self.o_obj(t.a[0], t.a[1] if len(t.a) > 1 else None)

    def o_obj(self, t, ver=None):
        if self.I is None:
            raise Unknown('object')
        o = self.st.ob.get(t) or self.I.base_ob.get(t)
        if o is None or o.content is None or o.content is t:
            return self.family(t)
        if ver is not None and o.ver is not ver:
            raise Unknown('version of ' + show(t)[:60])
        return self(o.content)

    def family(self, t):
        """an object allocated in a loop and left alone afterwards: its content at the allocation, for the given indices"""
        al = self.I.sitealloc.get(t.a[0])
        if al is None or al[0] is None or al[1].content is None or al[1].content.op == 'lv' or len(al[0].a[1]) != len(t.a[1]):
            raise Unknown('object ' + show(t)[:60])
        if t.a[0] in touched(self.I):
            raise Unknown('object changed after its creation')
        m = self
        for x, y in zip(al[0].a[1], t.a[1]):
            if x is not y:
                m = m.bind(x, self(y))
        if m is self:
            m = self.bind(None, None)
        m.st = al[2]
        return m(al[1].content)

    def src(self, t, i):
        x = t.a[0]
        if x in self.env or x.op != 'obj':
            return self(x)
        return self.o_obj(x, t.a[i] if len(t.a) > i else None)

    def o_item(self, t):
        v = self.src(t, 2)
        if isinstance(v, (set, frozenset)):
            v = sorted(v, key=order)
        if isinstance(v, dict):
            v = list(v)
        i = self.int(t.a[1])
        if not isinstance(v, (str, list, tuple)):
            raise Unknown('item')
        if not -len(v) <= i < len(v):
            raise Undef('index')
        return v[i]

    def o_dkey(self, t):
        return self.o_item(t)

    def o_at(self, t):
        v = self.src(t, 2)
        k = hashable(self(t.a[1]))
        if not isinstance(v, dict):
            raise Unknown('lookup')
        if k not in v:
            raise Undef('key')
        return v[k]

    def o_cnt(self, t):
        v = self.src(t, 2)
        k = hashable(self(t.a[1]))
        if not isinstance(v, dict):
            raise Unknown('lookup')
        return v.get(k, F(0))

    def o_counterof(self, t):
        d = {}
        for x in self.seq(t.a[0]):
            x = hashable(x)
            d[x] = d.get(x, F(0)) + 1
        return d

    def o_count(self, t):
        v, x = self.seq(t.a[0]), self(t.a[1])
        return F(v.count(x))

    def o_lib(self, t):
        f = t.a[0]
        a = t.a[1:]
        if f == 'str.join':
            return self(a[0]).join(self.seq(a[1]))
        if f == 'sorted_uniq':
            return sorted(set(self.seq(a[0])), key=order)
        if f in ('str.lower', 'str.upper', 'str.strip') and len(a) == 1:
            return getattr(self(a[0]), f[4:])()
        if f == 'str' and len(a) == 1:
            v = self(a[0])
            if isinstance(v, str):
                return v
            if isinstance(v, F) and v.denominator == 1:
                return str(int(v))
        if f == 'bin':
            return bin(self.int(a[0]))
        raise Unknown('lib ' + str(f))

    # -------------------------------------------------------------- literals
    def truth(self, t):
        v = self(t)
        if isinstance(v, (bool, int, F, float)):
            return bool(v)
        if isinstance(v, (str, list, tuple, dict, set, frozenset)):
            return bool(v)
        if v is None:
            return False
        raise Unknown('truth of ' + show(t)[:80])

    def o_le(self, t):
        return cmpv(self.num(t.a[0]), 0) <= 0

    def o_lt(self, t):
        return cmpv(self.num(t.a[0]), 0) < 0

    def o_eq0(self, t):
        return cmpv(self.num(t.a[0]), 0) == 0

    def o_eq(self, t):
        a, b = self(t.a[0]), self(t.a[1])
        return equalv(a, b)

    def o_not(self, t):
        return not self.truth(t.a[0])

    def o_truthy(self, t):
        return self.truth(t.a[0])

    def o_isnone(self, t):
        return self(t.a[0]) is None

    def o_in(self, t):
        x = hashable(self(t.a[0]))
        v = self.src2(t)
        if isinstance(v, str):
            return isinstance(x, str) and x in v
        return any(equalv(x, y) for y in v)

    def src2(self, t):
        x = t.a[1]
        if x in self.env or x.op != 'obj':
            return self(x)
        return self.o_obj(x, t.a[2] if len(t.a) > 2 else None)

    def o_is(self, t):
        a, b = t.a[0], t.a[1]
        if a is b:
            return True
        va, vb = self(a), self(b)
        if va is None or vb is None:
            return va is vb
        raise Unknown('identity')


INF = float('inf')


def powr(v, e):
    if e == 1:
        return v
    if e.denominator == 1:
        if v == 0 and e < 0:
            raise Undef('division by zero')
        if isinstance(v, float) and math.isinf(v) and e < 0:
            return F(0)
        return v ** int(e)
    if v < 0:
        raise Undef('root of a negative number')
    if v == 0:
        if e < 0:
            raise Undef('division by zero')
        return F(0)
    if isinstance(v, F) and e.denominator == 2:
        p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if p * p == v.numerator and q * q == v.denominator:
            r = F(p, q)
            n = int(e * 2)
            return r ** n
    return float(v) ** float(e)


def times(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a) * float(b)
    return a * b


def plus(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a) + float(b)
    return a + b


def cmpv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        if math.isinf(a) or math.isinf(b):
            return (a > b) - (a < b)
        if abs(a - b) < 1e-9 * max(1.0, abs(a), abs(b)):
            return 0
    return (a > b) - (a < b)


def equalv(a, b):
    if isinstance(a, (F, float, int)) and isinstance(b, (F, float, int)):
        return cmpv(a, b) == 0
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equalv(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equalv(a[k], b[k]) for k in a)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    return type(a) is type(b) and a == b


def hashable(v):
    if isinstance(v, list):
        return tuple(map(hashable, v))
    if isinstance(v, tuple):
        return tuple(map(hashable, v))
    if isinstance(v, (set, dict)):
        raise Unknown('unhashable')
    return v


def order(v):
    if isinstance(v, (F, int, float)):
        return (0, float(v), '')
    if isinstance(v, str):
        return (1, 0, v)
    if isinstance(v, tuple):
        return (2, len(v), str(v))
    return (3, 0, str(v))


def feasible(m, facts):
    """True: all facts hold; False: one fails; None: none fails but some could not be evaluated; second value: the unknown ones"""
    unk = []
    for f in sorted(facts, key=lambda f: f.n):
        try:
            if not m.truth(f):
                return False, []
        except Undef:
            return False, []
        except Unknown:
            unk.append(f)
    return (True, []) if not unk else (None, unk)


def free(terms):
    """indices at which a loop was left early: existentially quantified"""
    out = set()
    for t in terms:
        for x in symbols(t):
            if x.op == 'lv' and isinstance(x.a[0], tuple) and x.a[0][0] == 'x' and x.a[1] == 'b':
                out.add(x)
            elif x.op == 'bnd' and x.a[0][0] != 'q':
                out.add(x)
    return sorted(out, key=lambda x: x.n)


def decide(outs, mk_model, check, top=4):
    """Judge the outcomes of a function in one structure.
    outs: (kind, state, value); mk_model(state) -> Model; check(kind, model, value) -> True/False/None.
    The path conditions partition the inputs, so the outcome whose condition holds is the one that happens; a path that leaves
    a loop early (at the least index satisfying its condition) comes before the paths that complete the loop.
    -> ('ok'|'bad'|'unk'|'none', outcome)"""
    sure, maybe, cut, mcut = [], [], [], []
    for o in outs:
        m = mk_model(o[1])
        fr = free(o[1].facts) if not isinstance(o[2], T) else free(list(o[1].facts) + [o[2]])
        if not fr:
            f, u = feasible(m, o[1].facts)
            if f is True:
                sure.append((o, m))
            elif f is None:
                maybe.append((o, m))
            continue
        if len(fr) > 3:
            mcut.append((o, m, None))
            continue
        for v in itertools.product(range(top + 1), repeat=len(fr)):
            m2 = m
            for b, x in zip(fr, v):
                m2 = m2.bind(b, F(x))
            f, u = feasible(m2, o[1].facts)
            if f is True:
                cut.append((v, (o, m2)))
                break
            if f is None:
                mcut.append((o, m2, v))
                break
    if cut and not mcut:
        lo = min(v for v, c in cut)
        cand = [c for v, c in cut if v == lo or len(v) != len(lo)]
    elif cut or mcut:
        cand = [c for v, c in cut] + [(o, m) for o, m, v in mcut] + sure + maybe
    else:
        cand = sure or maybe
    if not cand:
        return 'none', None
    res = []
    for o, m in cand:
        try:
            r = check(o[0], m, o[2])
        except Undef as e:
            r = check('undef', m, o[2])
        except Unknown as e:
            r = None
        res.append((r, o))
    if all(r is True for r, o in res):
        return 'ok', res[0][1]
    if all(r is False for r, o in res):
        return 'bad', res[0][1]
    return 'unk', res[0][1]


def touched(I):
    """allocation sites of the containers changed after their creation"""
    c = getattr(I, '_touched', None)
    if c is None or c[0] is not I.log or c[1] != len(I.log):
        s = set()
        for e in I.log:
            if e.kind in ('ins', 'mut', 'del', 'inc') and e.target.op == 'obj' and e.get('op') != 'init':
                s.add(e.target.a[0])
        c = I._touched = (I.log, len(I.log), s)
    return c[2]


def thresholds(outs, lo, hi=300, I=None, mult=(1,)):
    """integer constants the paths compare with: sizes around them belong to the family of structures"""
    out = set()
    for k, st, v in outs:
        ts = list(st.facts) + ([v] if isinstance(v, T) else [])
        if I is not None and isinstance(v, T) and v.op == 'obj':
            ts.append(I.content(v, st))
        for f in ts:
            for x in subterms(f):
                if x.op == 'poly':
                    for m, c in x.a:
                        if m == () and c.denominator == 1 and lo <= abs(c) <= hi:
                            out.add(int(abs(c)))
                elif x.op == 'const' and x.a[0] == 'int' and lo <= abs(x.a[1]) <= hi:
                    out.add(int(abs(x.a[1])))
    return sorted(set(d for j in mult for c in out for d in (j * c - 1, j * c, j * c + 1)))[:12 * len(mult)]
