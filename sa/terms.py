"""Hash-consed value terms, numeric normal forms, literals and entailment.

Terms are immutable and interned, so equality is identity.  Numeric terms are kept in a
polynomial normal form (with fractional/negative exponents on atoms), which makes equal
arithmetic written differently the same term.
"""
from fractions import Fraction as F
import math
from math import gcd

_TABLE = {}
_COUNT = [0]


class T(object):
    __slots__ = ('op', 'a', 'n', '_syms')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.n < other.n


def mk(op, *a):
    k = (op, a)
    # 1 == 1.0 == True would collide in the table: constants carry their type name
    t = _TABLE.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = _COUNT[0]
        t._syms = None
        _COUNT[0] += 1
        _TABLE[k] = t
    return t


def reset():
    _TABLE.clear()
    _COUNT[0] = 0


def const(v):
    if isinstance(v, float) and not math.isinf(v) and not math.isnan(v):
        return mk('const', 'float', F(repr(v)))
    if isinstance(v, bool):
        return mk('const', 'bool', v)
    if isinstance(v, int):
        return mk('const', 'int', F(v))
    if isinstance(v, F):
        return mk('const', 'int' if v.denominator == 1 else 'float', v)
    return mk('const', type(v).__name__, v)


def is_const(t, v=None):
    return t.op == 'const'


def cval(t):
    """Python value of a constant term."""
    ty, v = t.a
    if ty == 'int':
        return int(v)
    if ty == 'float' and isinstance(v, F):
        return float(v)
    return v


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def init():
    """(Re)create the module level constants after reset()."""
    global NONE, TRUE, FALSE, ZERO, ONE
    NONE = const(None)
    TRUE = const(True)
    FALSE = const(False)
    ZERO = const(0)
    ONE = const(1)


def is_num_const(t):
    return t.op == 'const' and t.a[0] in ('int', 'float', 'bool') and isinstance(t.a[1], (F, bool))


def num(t):
    v = t.a[1]
    return F(int(v)) if isinstance(v, bool) else v


# ---------------------------------------------------------------------------------------------
# kinds

NUM_OPS = {'poly', 'len', 'sum', 'min', 'max', 'abs', 'floordiv', 'mod', 'ceil', 'floor', 'int', 'round',
           'bnd', 'isize', 'ord', 'log', 'log2', 'sqrt', 'pow', 'float', 'bitop', 'lvn', 'popcount', 'count', 'gsum',
           'neglected'}
INT_OPS = {'len', 'floordiv_i', 'ceil', 'floor', 'int', 'bnd', 'isize', 'ord', 'popcount', 'count'}
STR_LIB = {'str.lower', 'str.upper', 'str.strip', 'str.replace', 'str.join', 're.sub', 'unidecode', 'str.format',
           'str', 'html.escape', 'str.encode', 'str.lstrip', 'str.rstrip', 'str.casefold', 'str.title', 'str.translate', 'unescape'}


def kind(t):
    """Coarse static type: int, num, bool, str, none, list, set, dict, tuple, fn, any."""
    op = t.op
    if op == 'const':
        ty = t.a[0]
        return {'int': 'int', 'float': 'num', 'bool': 'bool', 'str': 'str', 'NoneType': 'none'}.get(ty, 'any')
    if op == 'sym':
        return t.a[1]
    if op == 'lv':
        return t.a[-1]
    if op in INT_OPS:
        return 'int'
    if op == 'poly':
        for m, c in t.a:
            if c.denominator != 1:
                return 'num'
            for at, e in m:
                if e.denominator != 1 or e < 0 or kind(at) != 'int':
                    return 'num'
        return 'int'
    if op in ('min', 'max'):
        return 'int' if all(kind(x) in ('int', 'bool') for x in t.a) else 'num'
    if op == 'sum':
        return 'int' if all(kind(x[1]) == 'int' for x in t.a[3]) else 'num'
    if op in ('floordiv', 'mod'):
        return 'int' if kind(t.a[0]) in ('int', 'bool') and kind(t.a[1]) in ('int', 'bool') else 'num'
    if op == 'abs':
        return kind(t.a[0])
    if op == 'bitop':
        return 'int'
    if op in NUM_OPS:
        return 'num'
    if op == 'app':
        f = t.a[0]
        if f.op == 'sym' and len(f.a) > 2:
            return f.a[2]
        return 'any'
    if op == 'tuple':
        return 'tuple'
    if op == 'at' and t.a[0].op == 'sym' and len(t.a[0].a) > 3 and t.a[0].a[3] in ('num', 'int'):
        return t.a[0].a[3]
    if op in ('item', 'slc'):
        k = kind(t.a[0])
        if k == 'str':
            return 'str'
        if op == 'slc':
            return k
        if t.a[0].op == 'sym' and len(t.a[0].a) > 3 and t.a[0].a[3]:
            return t.a[0].a[3]
        if t.a[0].op in ('sorted', 'setof', 'listof', 'rev'):
            return kind(mk('item', t.a[0].a[0], t.a[1]))
        return 'any'
    if op == 'lib':
        n = t.a[0]
        if n in STR_LIB:
            return 'str'
        if n in ('crc32', 'hash', 'id', 'str.count', 'str.index', 'str.find', 'str.rfind'):
            return 'int'
        if n in ('component', 'str.split', 're.split', 're.findall', 'stepslice', 'sorted_uniq', 'str.splitlines'):
            return 'list'
        if n in ('fmt', 'fmtnum', 'strrev', 'str.*', 'str.%', 'repr', 'chr', 'hexdigest', 'isoformat'):
            return 'str'
        return 'any'
    if op in ('cmp', 'isinst', 'not', 'and', 'or', 'truthy', 'in'):
        return 'bool'
    if op in ('sorted', 'listof', 'mapseq', 'rep', 'gseq', 'lit', 'cat', 'rev', 'lput'):
        return 'list'
    if op in ('setof', 'inter', 'union', 'diff', 'symdiff', 'setlit', 'gset', 'sadd'):
        return 'set'
    if op in ('dictlit', 'dput', 'gdict', 'dmerge', 'counterof'):
        return 'dict'
    if op == 'cnt':
        return 'num'
    if op == 'concat':
        return kind(t.a[0])
    if op == 'proj':
        return 'any'
    if op == 'ite':
        a, b = kind(t.a[1]), kind(t.a[2])
        if a == b:
            return a
        if a in ('int', 'num') and b in ('int', 'num'):
            return 'num'
        return 'any'
    return 'any'


def is_numeric(t):
    return kind(t) in ('int', 'num', 'bool')


# ---------------------------------------------------------------------------------------------
# polynomials

def to_poly(t):
    """{monomial: coeff}; monomial = tuple of (atom, exponent) sorted by atom number."""
    if t.op == 'poly':
        return dict(t.a)
    if is_num_const(t):
        v = num(t)
        return {(): v} if v != 0 else {}
    return {((t, F(1)),): F(1)}


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return const(0)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: (len(mc[0]), tuple((a.n, e) for a, e in mc[0])))
    return mk('poly', *[(m, c) for m, c in items])


def add(a, b, sign=1):
    d = dict(to_poly(a))
    for m, c in to_poly(b).items():
        d[m] = d.get(m, F(0)) + sign * c
    return from_poly(d)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def mul_mono(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, F(0)) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].n))


def mul(a, b):
    d = {}
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 64:
        return mk('mulbig', a, b)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mul_mono(m1, m2)
            d[m] = d.get(m, F(0)) + c1 * c2
    return _refold(d)


def _refold(d):
    """Expand integer positive powers of poly atoms that appeared (p^-1 * p = 1 handled by mul_mono)."""
    out = {}
    for m, c in d.items():
        big = [(a, e) for a, e in m if a.op == 'poly' and e.denominator == 1 and e > 0]
        if not big:
            out[m] = out.get(m, F(0)) + c
            continue
        rest = tuple((a, e) for a, e in m if not (a.op == 'poly' and e.denominator == 1 and e > 0))
        acc = {rest: c}
        for a, e in big:
            for _ in range(int(e)):
                nxt = {}
                for m1, c1 in acc.items():
                    for m2, c2 in to_poly(a).items():
                        mm = mul_mono(m1, m2)
                        nxt[mm] = nxt.get(mm, F(0)) + c1 * c2
                acc = nxt
        for mm, cc in acc.items():
            out[mm] = out.get(mm, F(0)) + cc
    return from_poly(out)


def power(a, e):
    e = F(e)
    if e == 1:
        return a
    if e == 0:
        return const(1)
    if is_num_const(a):
        v = num(a)
        if e.denominator == 1 and (v != 0 or e > 0):
            return const(v ** int(e))
        r = None
        if v == 0 and e > 0:
            return const(0)
        if v > 0 and e == F(1, 2):
            p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if p * p == v.numerator and q * q == v.denominator:
                r = F(p, q)
        if r is not None:
            return const(r)
        return from_poly({((a, e),): F(1)}) if v != 1 else const(1)
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        mm = tuple((at, ex * e) for at, ex in m)
        cc = const(c)
        if c == 1:
            return from_poly({mm: F(1)})
        if e.denominator == 1:
            return from_poly({mm: c ** int(e)})
        pc = power(cc, e)
        return mul(pc, from_poly({mm: F(1)}))
    if e.denominator == 1 and e > 0 and e <= 4:
        r = a
        for _ in range(int(e) - 1):
            r = mul(r, a)
        return r
    # sum: normalise by the leading coefficient so that proportional sums share an atom
    lead = _lead(p)
    if lead != 1 and (lead > 0 or e.denominator == 1):
        scaled = from_poly({m: c / lead for m, c in p.items()})
        return mul(power(const(lead), e), from_poly({((scaled, e),): F(1)}))
    return from_poly({((a, e),): F(1)})


def _lead(p):
    items = sorted(p.items(), key=lambda mc: (len(mc[0]), tuple((a.n, e) for a, e in mc[0])))
    return items[-1][1]


def div(a, b):
    return mul(a, power(b, -1))


def linear(t):
    """(coeffs {atom_term: F}, const) where non linear monomials are atoms of their own."""
    co, k = {}, F(0)
    for m, c in to_poly(t).items():
        if m == ():
            k += c
        elif len(m) == 1 and m[0][1] == 1:
            co[m[0][0]] = co.get(m[0][0], F(0)) + c
        else:
            at = from_poly({m: F(1)})
            co[at] = co.get(at, F(0)) + c
    return co, k


# ---------------------------------------------------------------------------------------------
# literals.  A literal is a term: le(p): p<=0 ; lt(p): p<0 ; eq0(p) ; ne0(p); ('lit', sign, atom)

def scale(p, keep_sign=True):
    d = to_poly(p)
    if not d:
        return p
    den = 1
    for c in d.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in d.values():
        g = math.gcd(g, int(c * den))
    f = F(den, g)
    if not keep_sign:
        if _lead(d) < 0:
            f = -f
    return from_poly({m: c * f for m, c in d.items()})


def _tighten(p):
    """integer tightening of p <= 0 : scale coefficients to coprime and floor the constant."""
    d = to_poly(p)
    g = 0
    for m, c in d.items():
        if m != ():
            if c.denominator != 1:
                return scale(p)
            g = math.gcd(g, int(c))
    if g <= 1:
        return p
    k = d.get((), F(0))
    out = {m: c / g for m, c in d.items() if m != ()}
    # p<=0  <=>  sum + k <= 0  <=> sum/g <= floor(-k/g)
    out[()] = F(-((-k) // g))
    return from_poly(out)


def le0(p):
    if is_num_const(p):
        return TRUE if num(p) <= 0 else FALSE
    inf = _inf_sign(p)
    if inf is not None:
        return TRUE if inf < 0 else FALSE
    if kind(p) == 'int':
        return mk('le', _tighten(p))
    return mk('le', scale(p))


def lt0(p):
    if is_num_const(p):
        return TRUE if num(p) < 0 else FALSE
    inf = _inf_sign(p)
    if inf is not None:
        return TRUE if inf < 0 else FALSE
    if kind(p) == 'int':
        return mk('le', _tighten(add(p, const(1))))
    return mk('lt', scale(p))


def _inf_sign(p):
    """sign of a term dominated by an infinite constant atom, else None"""
    s = None
    for m, c in to_poly(p).items():
        for a, e in m:
            if a.op == 'const' and a.a[0] == 'float' and not isinstance(a.a[1], F):
                v = a.a[1]
                if len(m) != 1 or e != 1 or math.isnan(v):
                    return None
                sg = 1 if (v > 0) == (c > 0) else -1
                if s is not None and s != sg:
                    return None
                s = sg
    return s


def eq0(p):
    if is_num_const(p):
        return TRUE if num(p) == 0 else FALSE
    if _inf_sign(p) is not None:
        return FALSE
    return mk('eq0', scale(p, False))


def lit_not(l):
    op = l.op
    if op == 'const':
        return FALSE if l.a[1] else TRUE
    if op == 'le':
        return lt0(neg(l.a[0]))
    if op == 'lt':
        return le0(neg(l.a[0]))
    if op == 'not':
        return l.a[0]
    return mk('not', l)


def cmp_lit(op, a, b):
    """literal for a <op> b on numeric terms"""
    d = sub(a, b)
    if op == '<':
        return lt0(d)
    if op == '<=':
        return le0(d)
    if op == '>':
        return lt0(neg(d))
    if op == '>=':
        return le0(neg(d))
    if op == '==':
        return eq0(d)
    if op == '!=':
        return lit_not(eq0(d))
    raise ValueError(op)


def eq_lit(a, b):
    if a is b:
        return TRUE
    if is_numeric(a) and is_numeric(b):
        return eq0(sub(a, b))
    if a.op == 'const' and b.op == 'const':
        try:
            return TRUE if cval(a) == cval(b) else FALSE
        except Exception:
            return FALSE
    if a.op == 'tuple' and b.op == 'tuple' and len(a.a) != len(b.a):
        return FALSE
    ka, kb = kind(a), kind(b)
    if ('none' in (ka, kb)) and ka != kb and 'any' not in (ka, kb):
        return FALSE
    if a.op == 'const' and b.op in ('obj', 'fn', 'tuple') or b.op == 'const' and a.op in ('obj', 'fn', 'tuple'):
        return FALSE
    if b.n < a.n:
        a, b = b, a
    return mk('eq', a, b)


# ---------------------------------------------------------------------------------------------
# substitution and traversal

def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in _flat(x):
                yield y


def _flat(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            for z in _flat(y):
                yield z


def symbols(t):
    """set of all sub terms of t that are leaves of interest (sym, bnd, lv, obj)"""
    if t._syms is not None:
        return t._syms
    s = set()
    if t.op in ('sym', 'bnd', 'lv', 'obj', 'top'):
        s.add(t)
    for c in children(t):
        s |= symbols(c)
    t._syms = frozenset(s)
    return t._syms


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for c in children(t):
        for s in subterms(c, seen):
            yield s


def mentions(t, x):
    if x.op in ('sym', 'bnd', 'lv', 'obj', 'top'):
        return x in symbols(t)
    return any(s is x for s in subterms(t))


_LEAFOPS = frozenset(('sym', 'bnd', 'lv', 'obj', 'top'))
REBUILD = {}   # op -> function(args) used when arguments change (set by other modules too)


def subst(t, m, memo=None):
    """replace terms (keys of m) in t, rebuilding normal forms"""
    if not m:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    leaf = memo.get('leaf')
    if leaf is None:
        leaf = memo['leaf'] = all(k.op in _LEAFOPS for k in m)
    if leaf and symbols(t).isdisjoint(m):
        return t
    if t in m:
        memo[t] = m[t]
        return m[t]
    if not t.a or t.op in ('const', 'sym'):
        memo[t] = t
        return t
    changed = False
    args = []
    for x in t.a:
        y = _sub_arg(x, m, memo)
        if y is not x:
            changed = True
        args.append(y)
    if not changed:
        memo[t] = t
        return t
    r = rebuild(t.op, args)
    memo[t] = r
    return r


def _sub_arg(x, m, memo):
    if isinstance(x, T):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        y = tuple(_sub_arg(z, m, memo) for z in x)
        return x if all(p is q for p, q in zip(x, y)) else y
    return x


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def _rb_poly(*items):
    acc = const(0)
    for m, c in items:
        term = const(c)
        for a, e in m:
            term = mul(term, power(a, e))
        acc = add(acc, term)
    return acc


REBUILD['poly'] = _rb_poly
REBUILD['le'] = le0
REBUILD['lt'] = lt0
REBUILD['eq0'] = eq0
REBUILD['eq'] = eq_lit
REBUILD['not'] = lit_not


# ---------------------------------------------------------------------------------------------
# linear entailment (Fourier-Motzkin over the rationals on a small relevant subset)

_LC = {}


def _intco(co, k):
    """integer coefficients (scaled by a positive factor)"""
    den = k.denominator if isinstance(k, F) else 1
    for c in co.values():
        if isinstance(c, F):
            d = c.denominator
            den = den * d // gcd(den, d)
    r = {a: int(c * den) for a, c in co.items()}
    return r, int(k * den)


def _lcons(l):
    r = _LC.get(l)
    if r is None:
        co, k = linear(l.a[0])
        co, k = _intco(co, k)
        r = _LC[l] = (co, k, l.op)
    return r


def _constraints(lits):
    """list of (coefs, const, strict?) meaning sum + const <= 0 (or < 0); equalities have strict = None"""
    out = []
    for l in lits:
        if l.op == 'le' or l.op == 'lt':
            co, k, op = _lcons(l)
            out.append((co, k, op == 'lt'))
        elif l.op == 'eq0':
            co, k, op = _lcons(l)
            out.append((co, k, None))
    return out


def _implicit(atoms):
    out = []
    for a in atoms:
        if a.op in ('len', 'isize', 'ord', 'popcount', 'count'):
            out.append(({a: -1}, 0, False))
            if a.op == 'isize':
                for x in a.a:
                    out.append(({a: 1, lenof(x): -1}, 0, False))
        elif a.op == 'min':
            for x in a.a:
                co, k = linear(sub(a, x))
                out.append((co, k, False))
        elif a.op == 'max':
            for x in a.a:
                co, k = linear(sub(x, a))
                out.append((co, k, False))
        elif a.op == 'mod' and is_num_const(a.a[1]) and num(a.a[1]) > 0:
            out.append(({a: -1}, 0, False))
            out.append(({a: 1}, 1 - num(a.a[1]), False))
        elif a.op == 'floordiv' and kind(a) == 'int' and is_num_const(a.a[1]) and num(a.a[1]) > 0:
            n = num(a.a[1])
            # n*q <= x <= n*q + n-1
            co, k = linear(sub(mul(const(n), a), a.a[0]))
            out.append((co, k, False))
            co, k = linear(sub(sub(a.a[0], mul(const(n), a)), const(n - 1)))
            out.append((co, k, False))
        elif a.op == 'abs':
            out.append(({a: -1}, 0, False))
    return out


def lenof(x):
    return mk('len', x)


def _norm(co, k):
    g = 0
    for v in co.values():
        g = gcd(g, v)
        if g == 1:
            return co, k
    if g > 1:
        g = gcd(g, k)
        if g > 1:
            return {a: v // g for a, v in co.items()}, k // g
    return co, k


def infeasible(cons, limit=400):
    """Gauss on the equalities, then Fourier-Motzkin: True if there is no rational solution."""
    ineq = []
    eqs = []
    for co, k, s in cons:
        if any(isinstance(v, F) for v in co.values()) or isinstance(k, F):
            co, k = _intco(co, k)
        (eqs if s is None else ineq).append((co, k, s))
    while eqs:
        co, k, _ = eqs.pop()
        co = {a: c for a, c in co.items() if c}
        if not co:
            if k != 0:
                return True
            continue
        a = min(co, key=lambda x: (abs(co[x]), x.n))
        c = co[a]

        def elim(t):
            co2, k2, s2 = t
            d = co2.get(a, 0)
            if not d:
                return t
            # multiply by |c| (positive) and subtract
            m = abs(c)
            f = d if c > 0 else -d
            r = {}
            for x, v in co2.items():
                r[x] = v * m
            for x, v in co.items():
                r[x] = r.get(x, 0) - v * f
            r = {x: v for x, v in r.items() if v}
            kk = k2 * m - k * f
            r, kk = _norm(r, kk)
            return r, kk, s2
        eqs = [elim(t) for t in eqs]
        ineq = [elim(t) for t in ineq]
    best = {}
    for co, k, s in ineq:
        if not co:
            if k > 0 or (s and k == 0):
                return True
            continue
        co, k = _norm(co, k)
        key = frozenset(co.items())
        o = best.get(key)
        if o is None or (k, bool(s)) > (o[1], bool(o[2])):
            best[key] = (co, k, s)
    cons = list(best.values())
    while cons:
        atoms = {}
        for co, k, s in cons:
            for a, c in co.items():
                p, n = atoms.get(a, (0, 0))
                atoms[a] = (p + 1, n) if c > 0 else (p, n + 1)
        a = min(atoms, key=lambda x: (atoms[x][0] * atoms[x][1] - atoms[x][0] - atoms[x][1], x.n))
        pos, ng, rest = [], [], []
        for t in cons:
            c = t[0].get(a, 0)
            (pos if c > 0 else ng if c < 0 else rest).append(t)
        if not pos or not ng:
            cons = rest
            continue
        if len(rest) + len(pos) * len(ng) > limit:
            return False
        best = {}
        for t in rest:
            best[frozenset(t[0].items())] = t
        for c1, k1, s1 in pos:
            f2 = c1[a]
            for c2, k2, s2 in ng:
                f1 = -c2[a]
                co = {x: v * f1 for x, v in c1.items()}
                for x, v in c2.items():
                    w = co.get(x, 0) + v * f2
                    if w:
                        co[x] = w
                    else:
                        co.pop(x, None)
                k = k1 * f1 + k2 * f2
                s = s1 or s2
                if not co:
                    if k > 0 or (s and k == 0):
                        return True
                    continue
                co, k = _norm(co, k)
                key = frozenset(co.items())
                o = best.get(key)
                if o is None or (k, bool(s)) > (o[1], bool(o[2])):
                    best[key] = (co, k, s)
        cons = list(best.values())
    return False


_AT = {}


def _atoms(f):
    r = _AT.get(f)
    if r is None:
        r = _AT[f] = frozenset(_lcons(f)[0])
    return r


def _relevant(facts, goal_atoms, depth=3, cap=40):
    atoms = set(goal_atoms)
    chosen = []
    pool = [f for f in facts if f.op in ('le', 'lt', 'eq0')]
    info = [(f, _atoms(f)) for f in pool]
    used = set()
    for _ in range(depth):
        new = set()
        for f, at in info:
            if f in used:
                continue
            if at & atoms:
                used.add(f)
                chosen.append(f)
                new |= at
        # arguments of min/max/floordiv atoms also matter
        for a in list(new | atoms):
            if a.op in ('min', 'max', 'floordiv', 'isize'):
                for x in a.a:
                    if isinstance(x, T):
                        new |= set(linear(x)[0]) if is_numeric(x) else {lenof(x)}
        if new <= atoms:
            break
        atoms |= new
    return chosen[:cap], atoms


_ENT = {}


def entails(facts, lit):
    """True when facts (set of literals) imply lit; False means 'not proved'."""
    if lit.op == 'const':
        return bool(lit.a[1])
    if lit in facts:
        return True
    if lit.op in ('le', 'lt'):
        key = (facts if isinstance(facts, frozenset) else frozenset(facts), lit)
        r = _ENT.get(key)
        if r is None:
            neg_l = lit_not(lit)
            cons = _constraints([neg_l])
            goal = set()
            for co, k, s in cons:
                goal |= set(co)
            ch, atoms = _relevant(facts, goal)
            allatoms = set(atoms)
            for co, k, s in _constraints(ch):
                allatoms |= set(co)
            extra = _implicit(allatoms)
            r = infeasible(cons + _constraints(ch) + extra)
            if len(_ENT) > 200000:
                _ENT.clear()
            _ENT[key] = r
        return r
    if lit.op == 'eq0':
        p = lit.a[0]
        return entails(facts, le0(p)) and entails(facts, le0(neg(p)))
    if lit.op == 'not':
        x = lit.a[0]
        if x.op == 'eq0':
            return entails(facts, lt0(x.a[0])) or entails(facts, lt0(neg(x.a[0])))
        if x.op == 'eq':
            # a==c1 known and c1 != c2 constants
            a, b = x.a
            for f in facts:
                if f.op == 'eq':
                    o = None
                    if a in f.a:
                        o = f.a[1] if f.a[0] is a else f.a[0]
                        if o.op == 'const' and b.op == 'const' and o is not b:
                            return True
                    if b in f.a:
                        o = f.a[1] if f.a[0] is b else f.a[0]
                        if o.op == 'const' and a.op == 'const' and o is not a:
                            return True
    return False


def consistent(facts):
    """cheap check: no fact contradicted directly"""
    for f in facts:
        if lit_not(f) in facts:
            return False
    cons = _constraints(facts)
    atoms = set()
    for co, k, s in cons:
        atoms |= set(co)
    if len(cons) > 60:
        return True
    return not infeasible(cons + _implicit(atoms), limit=300)


# ---------------------------------------------------------------------------------------------
# printing

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 8:
        return '...'
    op = t.op
    if op == 'const':
        v = cval(t)
        return repr(v)
    if op == 'sym':
        return str(t.a[0])
    if op == 'bnd':
        k = t.a[0]
        while isinstance(k, tuple) and k and isinstance(k[-1], tuple):
            k = k[-1]
        return '#%s' % ('q%s' % k[1] if k[0] == 'q' else k[1] if len(k) > 1 else k,)
    if op == 'lv':
        k = t.a[0]
        tag = ''
        if isinstance(k, tuple) and k and isinstance(k[0], str):
            tag = k[0]
            k = k[1] if len(k) > 1 else k
        while isinstance(k, tuple) and k and isinstance(k[-1], tuple):
            k = k[-1]
        return '~%s%s.%s' % (tag, k[1] if isinstance(k, tuple) and len(k) > 1 else '', t.a[1] if not isinstance(t.a[1], tuple) else 'c')
    if op == 'poly':
        out = []
        for m, c in t.a:
            ms = '*'.join(show(a, d + 1) + ('^%s' % e if e != 1 else '') for a, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append('%s*%s' % (c, ms))
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')'
    if op == 'le':
        return '%s <= 0' % show(t.a[0], d + 1)
    if op == 'lt':
        return '%s < 0' % show(t.a[0], d + 1)
    if op == 'eq0':
        return '%s == 0' % show(t.a[0], d + 1)
    if op == 'eq':
        return '%s == %s' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if op == 'not':
        return 'not(%s)' % show(t.a[0], d + 1)
    if op == 'item':
        return '%s[%s]' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if op == 'app':
        return '%s(%s)' % (show(t.a[0], d + 1), ', '.join(show(x, d + 1) for x in t.a[1:]))
    if op == 'lib':
        return '%s(%s)' % (t.a[0], ', '.join(show(x, d + 1) for x in t.a[1:]))
    if op == 'tuple':
        return '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'
    if op == 'obj':
        k = t.a[0]
        if k[0] == 'mem':
            return '<mem %s>' % show(t.a[1], d + 1)
        return '<o%s%s>' % (k[1][1] if len(k) > 1 and isinstance(k[1], tuple) and len(k[1]) > 1 else '?', show(t.a[1], d + 1) if t.a[1] else '')
    if op == 'top':
        return '?%s' % (t.a[0] if isinstance(t.a[0], str) else '')
    return '%s(%s)' % (op, ', '.join(show(x, d + 1) for x in t.a))
