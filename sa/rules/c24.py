"""C24: running means."""
import itertools
from fractions import Fraction as F
from .. import scen
from ..clients import client
from ..drive import sym
from ..terms import show, const, cmp_lit, mk, ONE, sub, add, mul, T, symbols
from ..model import Model, Unknown, Undef, decide, equalv, thresholds
from ..interp import Obj
from ..verdict import ok, bad, unk, Static

EXPLAIN = ("Inductive argument over the symbolic state of the object. Small client programs are interpreted abstractly together with the class: for every state "
           "(attributes symbolic, the count at least one) an addition, removal or merge must change the reported count and count * mean exactly as the multiset of "
           "values changes; from a fresh object every sequence of up to three operations with symbolic values must report the mean of the values held, and a mean "
           "without values must be refused. Values are compared in rational normal form and, where the normal forms differ, at several rational points.")
ASSUME = ["real arithmetic instead of floating point"]
LIMIT = 60
R1 = 'from a fresh object, the mean of the values held'
R2 = 'each operation changes count and sum as it changes the values held'
R3 = 'combining leaves the operands alone'

X = ('a', 'b', 'c')


def sequences():
    """operation sequences and the values they leave"""
    out = []
    for n in range(4):
        for ops in itertools.product(('add', 'sub'), repeat=n):
            held, src, ok_ = [], [], True
            for i, o in enumerate(ops):
                if o == 'add':
                    held.append(X[i])
                    src.append('m.add(%s)' % X[i])
                elif held:
                    src.append('m.subtract(%s)' % held.pop(0))
                else:
                    ok_ = False
            if ok_:
                out.append((src, held))
    return out


SEQ = sequences()
BODY = ['from fog.utils import OnlineMean\n']
for i, (src, held) in enumerate(SEQ):
    for w, e in (('mean', 'm.peek()'), ('float', 'float(m)'), ('len', 'len(m)')):
        BODY.append('def seq%d_%s(a, b, c):\n    m = OnlineMean()\n%s    return %s\n' % (i, w, ''.join('    %s\n' % s for s in src), e))
MERGE = [([], ['a']), (['a'], []), (['a'], ['b']), (['a', 'b'], ['c']), (['a'], ['b', 'c'])]
for i, (l, r) in enumerate(MERGE):
    pre = '    m = OnlineMean()\n    o = OnlineMean()\n' + ''.join('    m.add(%s)\n' % x for x in l) + ''.join('    o.add(%s)\n' % x for x in r)
    for w, e in (('mean', '.peek()'), ('len', '.__len__()')):
        BODY.append('def plus%d_%s(a, b, c):\n%s    s = m + o\n    return s%s\n' % (i, w, pre, e))
        BODY.append('def iadd%d_%s(a, b, c):\n%s    m += o\n    return m%s\n' % (i, w, pre, e))
        if l:
            BODY.append('def left%d_%s(a, b, c):\n%s    s = m + o\n    return m%s\n' % (i, w, pre, e))
            BODY.append('def leftmut%d_%s(a, b, c):\n%s    s = m + o\n    s.add(c)\n    return m%s\n' % (i, w, pre, e))
        if r:
            BODY.append('def right%d_%s(a, b, c):\n%s    s = m + o\n    s.add(c)\n    return o%s\n' % (i, w, pre, e))
            BODY.append('def iright%d_%s(a, b, c):\n%s    m += o\n    return o%s\n' % (i, w, pre, e))
client('client_mean', '\n'.join(BODY))


def scenarios(tier):
    A, B, C = [sym(x, 'num') for x in X]
    out = []

    def add(f, held, what, rule):
        out.append(scen.Sc(f, 'client_mean.' + f, [A, B, C], {}, held=held, what=what, rule=rule))
    for i, (src, held) in enumerate(SEQ):
        for w in ('mean', 'float', 'len'):
            add('seq%d_%s' % (i, w), held, w, R1)
    for i, (l, r) in enumerate(MERGE):
        for w in ('mean', 'len'):
            add('plus%d_%s' % (i, w), l + r, w, R1)
            add('iadd%d_%s' % (i, w), l + r, w, R1)
            if l:
                add('left%d_%s' % (i, w), l, w, R3)
                add('leftmut%d_%s' % (i, w), l, w, R3)
            if r:
                add('right%d_%s' % (i, w), r, w, R3)
                add('iright%d_%s' % (i, w), r, w, R3)
    out.append(Static('induction', induction))
    return out


POINTS = [dict(zip(X, p)) for p in ((F(1), F(2), F(4)), (F(3, 7), F(-5), F(11)), (F(0), F(0), F(9)), (F(-2), F(13, 3), F(1, 5)))]


def judge(sc, run, S):
    R = sc.tag('rule')
    where = 'fog.utils.OnlineMean (%s)' % describe(sc)
    if run.lossy:
        return [unk(R, where, 'not fully analysed: %s' % run.lossy)]
    held = sc.tag('held')
    u = 0
    for p in POINTS:
        env = {a: p[a.a[0]] for a in sc.args}

        def check(k, m, v):
            if sc.tag('what') != 'len' and not held:
                return k == 'raise'
            if k != 'ret':
                return False
            x = m(v)
            want = F(len(held)) if sc.tag('what') == 'len' else sum(p[h] for h in held) / len(held)
            return isinstance(x, (F, float)) and equalv(x, want)
        r, o = decide(run.outs, lambda st: Model(env, S.I, st), check)
        if r == 'bad':
            v = o[2]
            return [bad(R, where, 'reports %s instead of %s of %s' % (show(v)[:120] if hasattr(v, 'op') else o[0] + ' ' + str(v)[:60],
                                                                      'the count' if sc.tag('what') == 'len' else 'the mean', held))]
        u += r != 'ok'
    if u:
        return [unk(R, where, 'undecided')]
    return [ok(R, where, '; '.join(show(o[2])[:80] if hasattr(o[2], 'op') else o[0] for o in run.outs))]


def describe(sc):
    n = sc.name.split('_')[0]
    if n.startswith('seq'):
        return '; '.join(SEQ[int(n[3:])][0]) or 'fresh'
    k = n.rstrip('0123456789')
    l, r = MERGE[int(n[len(k):])]
    return '%s of %s and %s' % (k, l, r)


def induction(S):
    """the step of the induction, on an object whose attributes are arbitrary"""
    I = S.I
    where = 'fog.utils.OnlineMean'
    out = []
    cls = S.get('fog.utils.OnlineMean')
    x = sym('x', 'num')
    r0 = S.run(cls, [], {})
    if r0.lossy or len(r0.outs) != 1 or r0.outs[0][2].op != 'obj':
        return [unk(R2, where, 'constructor not analysed')]
    st, v = r0.outs[0][1], r0.outs[0][2]
    attrs = dict(I.getobj(st, v).attrs)
    if len(attrs) != 2 or not all(t.op == 'const' for t in attrs.values()):
        return [unk(R2, where, 'state is not made of two numbers: %s' % sorted(attrs))]

    def state(tag):
        return {a: sym('%s.%s' % (tag, a), 'num') for a in attrs}

    def call(st, v, m, args):
        """outcomes of a method call"""
        res = []
        I.pending = []
        for f, s in I.getattr(v, m, st, NODE):
            for y, s2 in I.call(f, args, {}, s, NODE):
                res.append(('ret', s2, y))
        res += I.pending
        I.pending = []
        return res
    from ..drive import TOP as NODE
    a0 = state('self')
    s0 = st.setobj(v, I.getobj(st, v).rep(attrs=a0))
    from ..interp import Lossy
    try:
        for op, args, dn, ds in (('add', [x], 1, 1), ('subtract', [x], -1, -1), ('iadd', None, None, None)):
            before = (call(s0, v, '__len__', []), call(s0, v, 'peek', []))
            if op == 'iadd':
                w = mk('obj', ('other-mean',), ())
                a1 = state('other')
                s1 = s0.setobj(w, I.getobj(st, v).rep(attrs=a1))
                after = call(s1, v, '__iadd__', [w])
                other = (call(s1, w, '__len__', []), call(s1, w, 'peek', []))
            else:
                a1, other = {}, None
                after = call(s0, v, op, args)
            syms = list(a0.values()) + list(a1.values()) + [x]
            pts = 0
            th = [t for t in thresholds(after, 2, 10 ** 6)] if after else []
            vals = [F(1), F(2), F(3), F(7), F(5, 2)] + [F(t) for t in th[:4]]
            for p in itertools.islice(itertools.product(vals, repeat=len(syms)), 0, 4000, 7):
                env = dict(zip(syms, p))
                n0, m0 = val(before[0], env, I), val(before[1], env, I)
                if n0 is None or m0 is None or n0.denominator != 1 or n0 < 2:
                    continue
                if other:
                    n1, m1 = val(other[0], env, I), val(other[1], env, I)
                    if n1 is None or m1 is None or n1.denominator != 1 or n1 < 1:
                        continue
                hits = []
                for k, s2, y in after:
                    md = Model(env, I, s2)
                    from ..model import feasible
                    f, un = feasible(md, s2.facts)
                    if f is False:
                        continue
                    if k != 'ret':
                        hits.append((False, 'raises'))
                        continue
                    n2 = val(call(s2, v, '__len__', []), env, I)
                    m2 = val(call(s2, v, 'peek', []), env, I)
                    if n2 is None or m2 is None:
                        hits.append((None, ''))
                        continue
                    wn = n0 + (n1 if other else dn)
                    ws = n0 * m0 + (n1 * m1 if other else ds * env[x])
                    hits.append((n2 == wn and equalv(n2 * m2, ws), 'count %s -> %s, sum %s -> %s' % (n0, n2, n0 * m0, n2 * m2)))
                pts += 1
                if hits and all(h is False for h, d in hits):
                    return [bad(R2, where + '.' + op, '%s on a state %s: %s' % (op, {a.a[0]: str(env[a]) for a in syms}, hits[0][1]))]
                if not hits or any(h is not True for h, d in hits):
                    out.append(unk(R2, where + '.' + op, 'undecided'))
                    break
            else:
                out.append(ok(R2, where + '.' + op, '%d states' % pts) if pts else unk(R2, where + '.' + op, 'no state'))
    except Lossy as e:
        out.append(unk(R2, where, 'not fully analysed: %s' % e))
    return out


def val(outs, env, I):
    from ..model import feasible
    got = []
    for k, s, v in outs:
        m = Model(env, I, s)
        f, u = feasible(m, s.facts)
        if f is False:
            continue
        if f is None or k != 'ret':
            return None
        try:
            got.append(m.num(v))
        except (Unknown, Undef):
            return None
    return got[0] if len(got) == 1 else None
