"""Linear integer inequalities: entailment by Fourier-Motzkin elimination with integer tightening."""
from math import gcd


class Lin(object):
    """const + sum of coef * symbol; integers"""
    __slots__ = ('c', 'm', 'h')

    def __init__(self, c=0, m=()):
        self.c = c
        self.m = dict((k, v) for k, v in (m.items() if isinstance(m, dict) else m) if v)
        self.h = None

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Lin(self.c + o.c, m)

    def __sub__(self, o):
        return self + o.times(-1)

    def times(self, n):
        return Lin(self.c * n, {k: v * n for k, v in self.m.items()})

    def plus(self, n):
        return Lin(self.c + n, self.m)

    @property
    def const(self):
        return not self.m

    def key(self):
        if self.h is None:
            self.h = (self.c, tuple(sorted(self.m.items())))
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = ''
        for k, v in sorted(self.m.items()):
            s += (' + ' if v > 0 else ' - ') + ('' if abs(v) == 1 else '%d*' % abs(v)) + str(k)
        if self.c or not s:
            s += (' + ' if self.c >= 0 else ' - ') + str(abs(self.c))
        return s[3:] if s.startswith(' + ') else '-' + s[3:]


def sym(n):
    return Lin(0, {n: 1})


def tight(l):
    """l <= 0 over the integers"""
    g = 0
    for v in l.m.values():
        g = gcd(g, abs(v))
    if g > 1:
        c = -((-l.c) // g)      # ceil(c / g)
        return Lin(c, {k: v // g for k, v in l.m.items()})
    return l


CACHE = {}


def infeasible(cons, cap=1500):
    """no integer point satisfies all of `l <= 0`; False when undecided"""
    key = frozenset(c.key() for c in cons)
    if key in CACHE:
        return CACHE[key]
    r = _inf(cons, cap)
    if len(CACHE) > 200000:
        CACHE.clear()
    CACHE[key] = r
    return r


def _inf(cons, cap):
    best = {}

    def put(d, l):
        l = tight(l)
        if not l.m:
            return l.c > 0
        k = tuple(sorted(l.m.items()))
        if k not in d or d[k].c < l.c:
            d[k] = l
        return False
    for l in cons:
        if put(best, l):
            return True
    while best:
        # equalities first: substitute a symbol with a unit coefficient
        eq = None
        for k, l in best.items():
            o = best.get(tuple((x, -v) for x, v in k))
            if o is not None and o.c == -l.c:
                u = [x for x, v in k if abs(v) == 1]
                if u:
                    eq = (l, u[0])
                    break
        if eq is not None:
            l, x = eq
            a = l.m[x]
            nxt = {}
            for q in best.values():
                c = q.m.get(x, 0)
                if put(nxt, q if c == 0 else q + l.times(-c * a)):
                    return True
            best = nxt
            continue
        n = {}
        for l in best.values():
            for k, v in l.m.items():
                p = n.setdefault(k, [0, 0])
                p[v > 0] += 1
        v = min(n, key=lambda k: (n[k][0] * n[k][1] - n[k][0] - n[k][1], str(k)))
        nxt = {}
        pos, neg = [], []
        for l in best.values():
            c = l.m.get(v, 0)
            if c == 0:
                if put(nxt, l):
                    return True
            else:
                (pos if c > 0 else neg).append(l)
        for p in pos:
            for q in neg:
                a, b = p.m[v], -q.m[v]
                if put(nxt, p.times(b) + q.times(a)):
                    return True
        if len(nxt) > cap:
            return False
        best = nxt
    return False


def relevant(cons, goal):
    """constraints connected with the symbols of the goal"""
    syms = set(goal.m)
    left = list(cons)
    out = []
    while True:
        more = [c for c in left if syms & set(c.m)]
        if not more:
            return out + [c for c in left if not c.m]
        out += more
        ids = set(map(id, more))
        left = [c for c in left if id(c) not in ids]
        for c in more:
            syms |= set(c.m)


def entails(cons, goal):
    """cons |= goal <= 0"""
    if goal.const:
        return goal.c <= 0 or infeasible(cons)
    for c in cons:
        if c.m == goal.m and goal.c <= c.c:
            return True
    neg = goal.times(-1).plus(1)
    return infeasible(relevant(cons, goal) + [neg])
