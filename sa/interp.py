"""Path-sensitive abstract interpreter for the analysed package.

Values are terms (terms.py); loops are summarised by an iteration binder plus generalised
loop-carried cells (no unrolling of unbounded loops, nothing is executed).  The result of a run is
an event log (calls of caller-supplied functions, container insertions, mutations, yields, draws...)
where each event carries the path facts under which it happens.
"""
import ast, time
from . import terms as tm
from .terms import (mk, const, cval, add, sub, mul, div, power, neg, is_num_const, num, kind, is_numeric,
                    le0, lt0, eq0, cmp_lit, eq_lit, lit_not, entails, F, T, to_poly, linear, symbols, subst)
from . import values as V
from .values import cat, lit, seqlen, mk_item, mk_slc, mk_in, mk_at, mk_setof, nonneg, mk_min, mk_max
from .project import resolve_relative

tm.lenof = seqlen

NONE, TRUE, FALSE, ZERO, ONE = tm.NONE, tm.TRUE, tm.FALSE, tm.ZERO, tm.ONE


class Lossy(Exception):
    """analysis gave up (undecided)"""


class Obj(object):
    __slots__ = ('kind', 'content', 'ln', 'attrs', 'x', 'ver', 'origin')

    def __init__(self, kind, content=None, ln=None, attrs=None, x=None, ver=ZERO, origin='fresh'):
        self.kind = kind
        self.content = content
        self.ln = ln
        self.attrs = attrs or {}
        self.x = x
        self.ver = ver
        self.origin = origin

    def rep(self, **kw):
        o = Obj(self.kind, self.content, self.ln, self.attrs, self.x, self.ver, self.origin)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def same(self, o):
        return self is o or (self.kind == o.kind and self.content is o.content and self.ln is o.ln and
                             self.attrs == o.attrs and self.x == o.x and self.ver is o.ver)

    def terms(self):
        for t in (self.content, self.ln, self.ver):
            if t is not None:
                yield t
        for t in self.attrs.values():
            yield t
        if self.x is not None:
            for t in tm._flat(self.x if isinstance(self.x, tuple) else (self.x,)):
                yield t


class St(object):
    __slots__ = ('fr', 'ob', 'facts', 'trace', 'cons')

    def __init__(self, fr, ob, facts, trace, cons):
        self.fr = fr
        self.ob = ob
        self.facts = facts
        self.trace = trace
        self.cons = cons

    def copy(self):
        return St(self.fr, self.ob, self.facts, self.trace, self.cons)

    def setvar(self, fid, name, val):
        s = self.copy()
        f = dict(s.fr.get(fid) or {})
        f[name] = val
        s.fr = dict(s.fr)
        s.fr[fid] = f
        return s

    def delvar(self, fid, name):
        s = self.copy()
        f = dict(s.fr.get(fid) or {})
        f.pop(name, None)
        s.fr = dict(s.fr)
        s.fr[fid] = f
        return s

    def setframe(self, fid, d):
        s = self.copy()
        s.fr = dict(s.fr)
        if d is None:
            s.fr.pop(fid, None)
        else:
            s.fr[fid] = d
        return s

    def setobj(self, t, o):
        s = self.copy()
        s.ob = dict(s.ob)
        s.ob[t] = o
        return s

    def same(self, o):
        if self.facts != o.facts or self.cons != o.cons:
            return False
        return self.same_cells(o)

    def same_cells(self, o):
        if self.fr is not o.fr and self.fr != o.fr:
            return False
        if self.ob is not o.ob:
            if self.ob.keys() != o.ob.keys():
                return False
            for k, v in self.ob.items():
                if not v.same(o.ob[k]):
                    return False
        return True

    def subst(self, m):
        if not m:
            return self
        memo = {}

        def f(t):
            return subst(t, m, memo)
        fr = {}
        for fid, d in self.fr.items():
            nd = {n: f(v) for n, v in d.items()}
            fr[fid] = nd if nd != d else d
        ob = {}
        for k, o in self.ob.items():
            nk = f(k)
            no = Obj(o.kind, None if o.content is None else f(o.content), None if o.ln is None else f(o.ln),
                     {n: f(v) for n, v in o.attrs.items()},
                     o.x if o.x is None else tm._sub_arg(o.x, m, memo) if isinstance(o.x, (tuple, T)) else o.x,
                     f(o.ver), o.origin)
            ob[nk] = no
        facts = set()
        for l in self.facts:
            g = f(l)
            if g is TRUE:
                continue
            facts.add(g)
        return St(fr, ob, frozenset(facts), self.trace, frozenset(f(c) for c in self.cons))


class Ev(object):
    __slots__ = ('id', 'kind', 'd', 'facts', 'active', 'ctx', 'node', 'trace', 'st', 'fid')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __getattr__(self, n):
        try:
            return object.__getattribute__(self, 'd')[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def where(self):
        m = getattr(self.node, '_mod', None)
        return '%s:%s' % (m.path if m else '?', getattr(self.node, 'lineno', '?'))


class Handler(object):
    def __init__(self, body, outer, fid):
        self.body = body
        self.outer = outer
        self.fid = fid


BUILTINS = set('''len range enumerate zip sorted set list dict tuple frozenset sum min max abs any all map filter
isinstance type str int float bool print callable iter next reversed round ord chr bin hash id super object repr
hasattr getattr setattr eval exec open input TypeError ValueError KeyError IndexError AssertionError Exception
StopIteration RuntimeError NotImplementedError bytes divmod pow slice vars globals locals AttributeError
ZeroDivisionError UnicodeError DeprecationWarning UserWarning Warning issubclass property staticmethod classmethod
NotImplemented Ellipsis'''.split())


def pos(n):
    m = getattr(n, '_mod', None)
    return (m.name if m else '?', getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))


class Interp(object):
    MAXSTATES = 1500
    MAXPASS = 14

    opaque_call = None

    def __init__(self, project, lib):
        self.parsed = None     # values of the parsed command line options, when a check fixes them
        self.project = project
        self.lib = lib
        self.fns = {}
        self.classes = {}
        self.base_fr = {}
        self.base_ob = {}
        self.loaded = {}
        self.fparent = {}
        self.fnode = {}
        self.memproto = {}
        self.sitekind = {}
        self.sitealloc = {}
        self.stats = {'functions': set(), 'loops': 0, 'paths': 0, 'calls': 0}
        self.reset_run()

    def reset_run(self):
        self.sitealloc = {}
        self.log = []
        self.evid = 0
        self.active = []
        self.ctx = ()
        self.fid = None
        self.fstack = []
        self.handler = None
        self.pending = []
        self.tries = []
        self.temps = []
        self.callstack = []
        self.floops = {}
        self.accum = {}
        self.lossy = []
        self.steps = 0
        self.warm = {}
        self.marks = {}
        self.deadline = None
        self.headpath = []

    # ------------------------------------------------------------------ modules
    def load(self, name):
        """abstractly evaluate a module body once; returns its frame id"""
        fid = ('mod', name)
        if name in self.loaded:
            return fid
        m = self.project.module(name)
        if m is None:
            return None
        self.loaded[name] = True
        saved = self.__dict__.copy()
        self.reset_run()
        self.fid = fid
        self.fstack = [fid]
        self.fparent[fid] = None
        self.modload = True
        st = St({fid: {'__name__': const(name)}}, {}, frozenset(), (), frozenset())
        self.mod_stack = getattr(self, 'mod_stack', [])
        self.mod_stack.append(name)
        try:
            for s in m.tree.body:
                try:
                    outs = self.ex(s, st)
                except (Lossy, RecursionError):
                    outs = [('next', st, None)]
                nx = [o for o in outs if o[0] == 'next']
                if nx:
                    st = nx[0][1]
                # imports of other modules may have happened: publish what exists so far
                self.base_fr[fid] = st.fr.get(fid, {})
        finally:
            self.mod_stack.pop()
        for f, d in st.fr.items():
            self.base_fr[f] = d
        for t, o in st.ob.items():
            self.base_ob[t] = o.rep(origin='global' if o.origin == 'fresh' else o.origin)
        keep = ('fns', 'classes', 'base_fr', 'base_ob', 'loaded', 'fparent', 'fnode', 'memproto', 'sitekind', 'sitealloc', 'stats')
        cur = {k: getattr(self, k) for k in keep}
        self.__dict__.clear()
        self.__dict__.update(saved)
        for k, v in cur.items():
            setattr(self, k, v)
        return fid

    def modvar(self, modname, name):
        fid = self.load(modname)
        if fid is None:
            return mk('ext', modname + '.' + name)
        v = self.base_fr.get(fid, {}).get(name)
        if v is not None:
            return v
        if self.project.find(modname + '.' + name):
            self.load(modname + '.' + name)
            return mk('module', modname + '.' + name)
        return None

    # ------------------------------------------------------------------ state helpers
    def step(self):
        self.steps += 1
        if self.steps > 400000:
            raise Lossy('step budget')
        if self.deadline and not self.steps & 63 and time.time() > self.deadline:
            raise Lossy('time budget')

    def getobj(self, st, t):
        o = st.ob.get(t)
        if o is None:
            o = self.base_ob.get(t)
        if o is None and t.op == 'obj':
            k = self.sitekind.get(t.a[0])
            if k is not None:
                # a member of a family whose precise state is not tracked any more
                o = k.rep(content=None, ln=mk('len', t, mk('fver', t.a[0])), ver=mk('fver', t.a[0]), origin='summary')
        return o

    def idx(self):
        return tuple(a[1] for a in self.active)

    def alloc(self, st, node, o, tag=''):
        site = (self.ctx, pos(node), tag)
        t = mk('obj', site, self.idx())
        # another live precise member of the same site with other index stays valid (different object)
        self.sitekind[site] = o
        al = self.sitealloc.get(site)
        self.sitealloc[site] = (t, o, st) if al is None or al[0] is t and al[1].content is o.content else (None, None, None)
        return t, st.setobj(t, o)

    def emit(self, st, _kind, node, **d):
        if _kind == 'consume':
            src = d['source']
            if src.op != 'obj' and d.get('how') != 'next':
                d['again'] = src in st.cons
                st = st.copy()
                st.cons = st.cons | {src}
        e = Ev(id=self.evid, kind=_kind, d=d, facts=st.facts, active=tuple(self.active), ctx=self.ctx, node=node,
               trace=st.trace, st=st, fid=self.fid)
        self.evid += 1
        self.log.append(e)
        s = st.copy()
        s.trace = st.trace + (e,)
        return s

    def assume(self, st, l):
        """add a literal; None when the path is infeasible"""
        if l.op == 'const':
            return st if l.a[1] else None
        if l in st.facts:
            return st
        n = lit_not(l)
        if n in st.facts or entails(st.facts, n):
            return None
        if l.op == 'in' and len(l.a) == 2 and l.a[1].op in ('lit', 'setlit', 'tuple', 'dictlit'):
            ks = [k for k, _ in l.a[1].a] if l.a[1].op == 'dictlit' else l.a[1].a
            if all(k.op == 'const' and lit_not(eq_lit(l.a[0], k)) in st.facts for k in ks):
                return None
        extra = {l}
        if l.op == 'eq' and l.a[0].op == 'tuple' and l.a[1].op == 'tuple' and len(l.a[0].a) == len(l.a[1].a):
            for x, y in zip(l.a[0].a, l.a[1].a):
                e = eq_lit(x, y)
                if e is FALSE:
                    return None
                if e is not TRUE:
                    extra.add(e)
        s = st.copy()
        s.facts = st.facts | extra
        return s

    def branch(self, val, st):
        """[(bool, state)] for the truth of val"""
        l = self.truth(val, st)
        if l.op == 'const':
            return [(bool(l.a[1]), st)]
        if entails(st.facts, l):
            return [(True, st)]
        nl = lit_not(l)
        if entails(st.facts, nl):
            return [(False, st)]
        out = []
        a = self.assume(st, l)
        if a is not None:
            out.append((True, a))
        b = self.assume(st, nl)
        if b is not None:
            out.append((False, b))
        return out

    LITOPS = ('le', 'lt', 'eq0', 'eq', 'not', 'in', 'is', 'isnone', 'isinst', 'truthy', 'connected', 'callable', 'pred', 'hasedge')

    def truth(self, t, st):
        if t.op in self.LITOPS:
            return t
        if t.op == 'const':
            v = t.a[1]
            return TRUE if v else FALSE
        k = kind(t)
        if t.op == 'obj':
            o = self.getobj(st, t)
            if o is not None and o.kind in ('list', 'set', 'dict', 'ddict', 'counter', 'tuple', 'str'):
                return le0(sub(ONE, self.length(t, st)))
            if o is not None and o.kind == 'inst':
                if self.find_method(o.x[0], '__len__'):
                    return mk('truthy', t)
            return TRUE
        if t.op in ('fn', 'cls', 'ext', 'module', 'meth', 'bound', 'partial', 'it'):
            return TRUE
        if t.op == 'tuple':
            return TRUE if t.a else FALSE
        if k in ('int', 'num'):
            return lit_not(eq0(t))
        if k in ('str', 'list', 'set', 'dict', 'tuple'):
            return le0(sub(ONE, seqlen(t)))
        if k in ('fn', 'graph', 'inst'):
            return TRUE
        if k == 'none':
            return FALSE
        return mk('truthy', t)

    def length(self, t, st):
        if t.op == 'obj':
            o = self.getobj(st, t)
            if o is not None and o.ln is not None:
                return o.ln
            if o is not None and o.content is not None:
                return seqlen(o.content)
            return mk('len', t, o.ver if o is not None else ZERO)
        return seqlen(t)

    def isnone(self, t, st):
        if t is NONE:
            return TRUE
        k = kind(t)
        if t.op in ('const', 'obj', 'fn', 'cls', 'ext', 'module', 'meth', 'bound', 'partial', 'tuple', 'it') or \
                k in ('int', 'num', 'str', 'list', 'set', 'dict', 'tuple', 'fn', 'bool', 'iter', 'graph', 'inst'):
            return FALSE
        if t.op == 'sym' and k != 'opt':
            return FALSE
        return mk('isnone', t)

    def content(self, t, st):
        """pure sequence/set/dict term for a container value (or the value itself)"""
        if t.op == 'obj':
            o = self.getobj(st, t)
            if o is not None and o.content is not None:
                return o.content
            return t
        return t

    def vkind(self, t, st):
        if t.op == 'obj':
            o = self.getobj(st, t)
            return o.kind if o is not None else 'any'
        return kind(t)

    # ------------------------------------------------------------------ names
    def lookup(self, name, st, node=None):
        f = self.fid
        while f is not None:
            d = st.fr.get(f)
            if d is None:
                d = self.base_fr.get(f)
            if d is not None and name in d:
                return d[name]
            f = self.fparent.get(f)
        if name in BUILTINS:
            return mk('ext', name)
        return None

    def owner(self, name, st):
        """frame in which assignment to name goes"""
        fn = self.fnode.get(self.fid)
        if fn is not None:
            nl, gl = scope_decl(fn)
            if name in nl:
                f = self.fparent.get(self.fid)
                while f is not None:
                    d = st.fr.get(f) or self.base_fr.get(f)
                    if d is not None and name in d:
                        return f
                    f = self.fparent.get(f)
            if name in gl:
                f = self.fid
                while self.fparent.get(f) is not None:
                    f = self.fparent[f]
                return f
        return self.fid

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        self.step()
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            return [(mk('top', 'expr:%s' % type(n).__name__), st)]
        return m(n, st)

    def evs(self, nodes, st):
        res = [((), st)]
        for n in nodes:
            nxt = []
            for vals, s in res:
                if vals:
                    self.temps.append(vals)
                if isinstance(n, ast.Starred):
                    for v, s2 in self.ev(n.value, s):
                        c = self.content(v, s2)
                        if c.op in ('lit', 'tuple'):
                            nxt.append((vals + c.a, s2))
                        else:
                            nxt.append((vals + (mk('splat', c),), s2))
                else:
                    for v, s2 in self.ev(n, s):
                        nxt.append((vals + (v,), s2))
                if vals:
                    self.temps.pop()
            res = nxt
        return res

    def ev_Constant(self, n, st):
        return [(const(n.value), st)]

    def ev_Name(self, n, st):
        v = self.lookup(n.id, st, n)
        if v is None:
            v = mk('top', 'name:' + n.id)
        return [(v, st)]

    def ev_Tuple(self, n, st):
        return [(mk('tuple', *vals), s) for vals, s in self.evs(n.elts, st)]

    def ev_List(self, n, st):
        out = []
        for vals, s in self.evs(n.elts, st):
            parts = []
            for v in vals:
                parts.append(v.a[0] if v.op == 'splat' else lit(v))
            c = cat(*parts)
            t, s = self.alloc(s, n, Obj('list', content=c, ln=seqlen(c)))
            for v in vals:
                s = self.emit(s, 'ins', n, target=t, op='init', key=None, val=v)
            out.append((t, s))
        return out

    def ev_Set(self, n, st):
        out = []
        for vals, s in self.evs(n.elts, st):
            c = mk('setlit', *vals)
            ln = const(len(set(vals))) if all(v.op == 'const' for v in vals) or len(vals) == 1 else mk('len', c)
            t, s = self.alloc(s, n, Obj('set', content=c, ln=ln))
            for v in vals:
                s = self.emit(s, 'ins', n, target=t, op='init', key=None, val=v)
            out.append((t, s))
        return out

    def ev_Dict(self, n, st):
        res = [((), st)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for pairs, s in res:
                if k is None:
                    for vv, s2 in self.ev(v, s):
                        c = self.content(vv, s2)
                        nxt.append((pairs + (c.a if c.op == 'dictlit' else ((mk('splat', c), mk('splat', c)),)), s2))
                    continue
                for kk, s2 in self.ev(k, s):
                    for vv, s3 in self.ev(v, s2):
                        nxt.append((pairs + ((kk, vv),), s3))
            res = nxt
        out = []
        for pairs, s in res:
            c = mk('dictlit', *pairs)
            t, s = self.alloc(s, n, Obj('dict', content=c, ln=const(len(pairs))))
            for k, v in pairs:
                s = self.emit(s, 'ins', n, target=t, op='init', key=k, val=v)
            out.append((t, s))
        return out

    def ev_Lambda(self, n, st):
        return self.make_fn(n, st)

    def make_fn(self, n, st, cls=None):
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        res = []
        dn = list(a.defaults)
        kd = [d for d in a.kw_defaults if d is not None]
        key = (pos(n), self.fid)
        t = mk('fn', key)
        for vals, s in self.evs(dn + kd, st):
            for v in vals:
                if v.op == 'obj' and v in s.ob and s.ob[v].origin == 'fresh':
                    s = s.setobj(v, s.ob[v].rep(origin='default'))
            d = dict(zip(names[len(names) - len(dn):], vals[:len(dn)]))
            i = len(dn)
            for x, dd in zip(a.kwonlyargs, a.kw_defaults):
                if dd is not None:
                    d[x.arg] = vals[i]
                    i += 1
            self.fns[t] = (n, self.fid, d, cls)
            res.append((t, s))
        return res

    def ev_Starred(self, n, st):
        return [(mk('splat', self.content(v, s)), s) for v, s in self.ev(n.value, st)]

    def ev_NamedExpr(self, n, st):
        return [(v, s.setvar(self.fid, n.target.id, v)) for v, s in self.ev(n.value, st)]

    def ev_IfExp(self, n, st):
        out = []
        for v, s in self.ev(n.test, st):
            for b, s2 in self.branch(v, s):
                out += self.ev(n.body if b else n.orelse, s2)
        return out

    def ev_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        cur = [(None, st)]
        out = []
        for i, x in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for _, s in cur:
                for v, s2 in self.ev(x, s):
                    if last:
                        out.append((v, s2))
                        continue
                    for b, s3 in self.branch(v, s2):
                        if b == is_and:
                            nxt.append((v, s3))
                        else:
                            if kind(v) == 'bool' or v.op in self.LITOPS:
                                v2 = const(b)
                            else:
                                v2 = v
                            out.append((v2, s3))
            cur = nxt
        return out

    def ev_UnaryOp(self, n, st):
        out = []
        for v, s in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                l = self.truth(v, s)
                out.append((lit_not(l), s))
            elif isinstance(n.op, ast.USub):
                out.append((neg(v), s))
            elif isinstance(n.op, ast.UAdd):
                out.append((v, s))
            else:
                out.append((mk('bitop', '~', v), s))
        return out

    def ev_Compare(self, n, st):
        res = []
        cur = [(v, s) for v, s in self.ev(n.left, st)]
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            nxt = []
            last = i == len(n.ops) - 1
            for lv, s in cur:
                for rv, s2 in self.ev(rn, s):
                    for c, s3 in self.compare(op, lv, rv, s2, n):
                        if last:
                            res.append((c, s3))
                        else:
                            for b, s4 in self.branch(c, s3):
                                if b:
                                    nxt.append((rv, s4))
                                else:
                                    res.append((FALSE, s4))
            cur = nxt
        return res

    def compare(self, op, a, b, st, n):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            l = self.is_lit(a, b, st)
            return [(lit_not(l) if o == 'IsNot' else l, st)]
        if o in ('In', 'NotIn'):
            out = []
            for l, s in self.contains(a, b, st, n):
                out.append((lit_not(l) if o == 'NotIn' else l, s))
            return out
        if o in ('Eq', 'NotEq'):
            l = self.eq_val(a, b, st)
            return [(lit_not(l) if o == 'NotEq' else l, st)]
        sym = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[o]
        if a is NONE or b is NONE:
            return self.fail(st, n, 'None is ordered')
        if a.op == 'const' and b.op == 'const' and not (is_num_const(a) and is_num_const(b)):
            try:
                x, y = cval(a), cval(b)
                r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[sym]
                return [(const(r), st)]
            except TypeError:
                pass
        if self.vkind(a, st) == 'set' or self.vkind(b, st) == 'set':
            return [(mk('pred', 'subset' + sym, self.content(a, st), self.content(b, st)), st)]
        return [(cmp_lit(sym, a, b), st)]

    def eq_val(self, a, b, st):
        if a.op == 'obj' and b.op == 'obj' and a is not b:
            ca, cb = self.content(a, st), self.content(b, st)
            if ca is cb:
                return TRUE
            return mk('eq', *sorted((ca, cb), key=lambda x: x.n))
        for x, y in ((a, b), (b, a)):
            if x.op == 'typeof':
                return self.isexact(x.a[0], y, st)
        if a.op == 'obj' or b.op == 'obj':
            o, c = (a, b) if a.op == 'obj' else (b, a)
            if c.op == 'const' or c.op == 'tuple':
                return FALSE
            return mk('eq', *sorted((self.content(o, st), c), key=lambda x: x.n))
        ka, kb = kind(a), kind(b)
        if a.op == 'const' and b.op == 'const':
            return const(bool(cval(a) == cval(b)))
        if ka == 'none' or kb == 'none':
            return self.isnone(b if ka == 'none' else a, st)
        if ka in ('int', 'num', 'bool') or kb in ('int', 'num', 'bool'):
            if ka == 'str' or kb == 'str':
                return FALSE
            return eq0(sub(a, b))
        if a.op == 'ext' and b.op == 'ext':
            return const(a is b)
        return eq_lit(a, b)

    def isexact(self, x, ty, st):
        r = self.lib.type_test(self, x, ty, st, True)
        return r

    def is_lit(self, a, b, st):
        if a is NONE:
            return self.isnone(b, st)
        if b is NONE:
            return self.isnone(a, st)
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x.op == 'typeof':
                return self.isexact(x.a[0], y, st)
        if a.op == 'obj' and b.op == 'obj':
            if a.a[0] != b.a[0]:
                return FALSE
        if a.op in ('ext', 'cls', 'fn') and b.op in ('ext', 'cls', 'fn'):
            return const(a is b)
        if 'const' in (a.op, b.op):
            if a.op == b.op:
                return const(a is b)
            return eq_lit(a, b)
        if ('obj' in (a.op, b.op)) and ('sym' in (a.op, b.op)):
            return FALSE
        x, y = sorted((a, b), key=lambda t: t.n)
        return mk('is', x, y)

    def contains(self, x, c, st, n):
        if c.op == 'obj':
            o = self.getobj(st, c)
            if o is not None and o.kind == 'inst':
                return [(mk('top', 'in-inst'), st)]
            if o is not None and o.kind == 'gen':
                s = self.emit(st, 'consume', n, source=c, how='in')
                return [(mk('in', x, c), s)]
            if o is not None and o.content is not None and o.content.op != 'lv' and not self.mentions_lv(o.content):
                l = mk_in(x, o.content)
                if l.op != 'const' and o.content.op in ('sadd', 'dput', 'cat', 'gset', 'gseq'):
                    return [(mk_in(x, c, o.ver), st)]
                return [(l, st)]
            return [(mk_in(x, c, o.ver if o is not None else ZERO), st)]
        k = kind(c)
        if k == 'iter' or c.op == 'it':
            st = self.emit(st, 'consume', n, source=c, how='in')
        return [(mk_in(x, c), st)]

    def mentions_lv(self, t):
        return any(s.op == 'lv' for s in symbols(t))

    def ev_BinOp(self, n, st):
        out = []
        for (a, b), s in self.evs([n.left, n.right], st):
            out += self.binop(type(n.op).__name__, a, b, s, n)
        return out

    def binop(self, op, a, b, st, n):
        if a is NONE or b is NONE and not (op == 'Mod' and self.vkind(a, st) == 'str'):
            return self.fail(st, n, 'arithmetic on None')
        ka, kb = self.vkind(a, st), self.vkind(b, st)
        if op == 'Add':
            if a.op == 'obj' or b.op == 'obj' or ka == 'list' or kb == 'list':
                if ka == 'inst' or kb == 'inst':
                    r = self.inst_op('__add__', a, b, st, n)
                    if r is not None:
                        return r
                ca, cb = self.content(a, st), self.content(b, st)
                ln = None
                if ca.op == 'obj' or cb.op == 'obj':
                    ln = add(self.length(a, st), self.length(b, st))
                    ca = mk('snap', ca, self.getobj(st, ca).ver) if ca.op == 'obj' and self.getobj(st, ca) is not None else ca
                    cb = mk('snap', cb, self.getobj(st, cb).ver) if cb.op == 'obj' and self.getobj(st, cb) is not None else cb
                c = cat(ca, cb)
                t, s = self.alloc(st, n, Obj('list', content=c, ln=ln if ln is not None else seqlen(c)))
                s = self.emit(s, 'concat', n, target=t, parts=(a, b))
                return [(t, s)]
            if ka == 'str' or kb == 'str':
                return [(strcat(a, b), st)]
            if a.op == 'tuple' and b.op == 'tuple':
                return [(mk('tuple', *(a.a + b.a)), st)]
            if ka == 'tuple' or kb == 'tuple':
                return [(mk('lib', 'tuplecat', a, b), st)]
            return [(add(a, b), st)]
        if op == 'Sub':
            if ka in ('set', 'dict') and kb in ('set', 'dict'):
                return self.newset(st, n, mk('diff', self.content(a, st), self.content(b, st)))
            return [(sub(a, b), st)]
        if op == 'Mult':
            for x, y, kx in ((a, b, ka), (b, a, kb)):
                if kx == 'list':
                    c = mk('rep', self.content(x, st), y)
                    t, s = self.alloc(st, n, Obj('list', content=c, ln=seqlen(c)))
                    return [(t, s)]
                if kx == 'str':
                    return [(mk('lib', 'str.*', x, y), st)]
            return [(mul(a, b), st)]
        if op == 'Div':
            st = self.divcheck(st, a, b, n)
            if st is None:
                return []
            return [(div(a, b), st)]
        if op == 'FloorDiv':
            st = self.divcheck(st, a, b, n)
            if st is None:
                return []
            if is_num_const(a) and is_num_const(b) and num(b) != 0:
                return [(const(F(num(a) // num(b))), st)]
            if is_num_const(b) and num(b) == 1 and kind(a) == 'int':
                return [(a, st)]
            return [(mk('floordiv', a, b), st)]
        if op == 'Mod':
            if ka == 'str':
                args = b.a if b.op == 'tuple' else (b,)
                return [(strformat(a, args), st)]
            st = self.divcheck(st, a, b, n)
            if st is None:
                return []
            if is_num_const(a) and is_num_const(b) and num(b) != 0:
                return [(const(F(num(a) % num(b))), st)]
            return [(mk('mod', a, b), st)]
        if op == 'Pow':
            if is_num_const(b):
                if is_num_const(a) and num(b).denominator == 1:
                    return [(const(num(a) ** int(num(b))) if num(a) != 0 or num(b) > 0 else mk('top', 'pow'), st)]
                return [(power(a, num(b)), st)]
            return [(mk('pow', a, b), st)]
        sym = {'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'LShift': '<<', 'RShift': '>>'}.get(op)
        if sym is None:
            return [(mk('top', 'binop'), st)]
        if ka in ('set', 'dict', 'counter') or kb in ('set', 'dict', 'counter'):
            ca, cb = self.content(a, st), self.content(b, st)
            if sym == '&':
                x, y = sorted((ca, cb), key=lambda t: t.n)
                return self.newset(st, n, mk('inter', x, y))
            if sym == '|':
                x, y = sorted((ca, cb), key=lambda t: t.n)
                return self.newset(st, n, mk('union', x, y))
            return self.newset(st, n, mk('symdiff', ca, cb))
        if is_num_const(a) and is_num_const(b):
            x, y = int(num(a)), int(num(b))
            try:
                return [(const({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if y < 4096 else 0, '>>': x >> y if y >= 0 else 0}[sym]), st)]
            except Exception:
                pass
        if sym in '&|^' and b.n < a.n:
            a, b = b, a
        return [(mk('bitop', sym, a, b), st)]

    def divcheck(self, st, a, b, n):
        st = self.emit(st, 'div', n, den=b, num=a)
        if is_num_const(b):
            if num(b) == 0:
                self.fail(st, n, 'division by zero', 'ZeroDivisionError')
                return None
            return st
        if self.catches('ZeroDivisionError') and is_numeric(b):
            s = self.assume(st, eq0(b))
            if s is not None:
                self.pending.append(('raise', s, ('ZeroDivisionError', n)))
            return self.assume(st, lit_not(eq0(b)))
        return st

    def newset(self, st, n, c):
        t, s = self.alloc(st, n, Obj('set', content=c, ln=seqlen(c)))
        return [(t, s)]

    def inst_op(self, name, a, b, st, n):
        for x, y in ((a, b),):
            if x.op == 'obj':
                o = self.getobj(st, x)
                if o is not None and o.kind == 'inst':
                    m = self.find_method(o.x[0], name)
                    if m is not None:
                        return self.call_fn(m, [x, y], {}, st, n)
        return None

    def ev_JoinedStr(self, n, st):
        res = [((), st)]
        for v in n.values:
            nxt = []
            for parts, s in res:
                if isinstance(v, ast.Constant):
                    nxt.append((parts + (const(v.value),), s))
                else:
                    for t, s2 in self.ev(v.value, s):
                        conv = v.conversion
                        spec = None
                        if v.format_spec is not None:
                            spec = ast.unparse(v.format_spec)
                        if conv == -1 and spec is None:
                            x = t if kind(t) == 'str' else mk('lib', 'str', self.content(t, s2))
                        else:
                            x = mk('lib', 'fmt', const(str(conv) + ':' + str(spec)), self.content(t, s2))
                        nxt.append((parts + (x,), s2))
            res = nxt
        out = []
        for parts, s in res:
            r = const('')
            for p in parts:
                r = strcat(r, p)
            out.append((r, s))
        return out

    def ev_Attribute(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            out += self.getattr(v, n.attr, s, n)
        return out

    def fail(self, st, n, what, exc='TypeError'):
        """an operation that is certain to raise"""
        st = self.emit(st, 'fail', n, what=what, exc=exc, caught=self.catches(exc))
        self.pending.append(('raise', st, (exc, n)))
        return []

    def getattr(self, v, name, st, n):
        if v is NONE and not name.startswith('__'):
            return self.fail(st, n, 'attribute %s of None' % name, 'AttributeError')
        if v.op == 'module':
            r = self.modvar(v.a[0], name)
            return [(r if r is not None else mk('top', 'modattr'), st)]
        if self.parsed is not None and v.op == 'lib' and v.a[0] == 'm.parse_args' and not name.startswith('_'):
            return [(self.parsed.get(name, mk('attr', v, name)), st)]
        if v.op == 'ext':
            return [(mk('ext', v.a[0] + '.' + name), st)]
        if v.op == 'cls':
            m = self.find_method(v, name)
            if m is not None:
                return [(m, st)]
            if name == '__name__':
                return [(const(self.classes[v][0].name), st)]
            a = self.class_attr(v, name)
            return [(a if a is not None else mk('meth', v, name), st)]
        if v.op == 'super':
            m = None
            for b in self.mro(v.a[0])[1:]:
                m = self.classes[b][1].get(name)
                if m is not None:
                    break
            if m is not None:
                return [(mk('bound', m, v.a[1]), st)]
            return [(mk('meth', v, name), st)]
        if v.op == 'obj':
            o = self.getobj(st, v)
            if o is not None and o.kind == 'inst':
                if name in o.attrs:
                    return [(o.attrs[name], st)]
                if name == '__class__':
                    return [(o.x[0], st)]
                m = self.find_method(o.x[0], name)
                if m is not None:
                    node = self.fns.get(m, (None,))[0]
                    decs = [d.id for d in getattr(node, 'decorator_list', []) if isinstance(d, ast.Name)]
                    if 'property' in decs:
                        return self.call_fn(m, [v], {}, st, n)
                    if 'staticmethod' in decs:
                        return [(m, st)]
                    return [(mk('bound', m, v), st)]
                a = self.class_attr(o.x[0], name)
                if a is not None:
                    return [(a, st)]
                st = self.emit(st, 'noattr', n, target=v, attr=name)
                return [(mk('attr', v, name), st)]
        r = self.lib.get_attr(self, v, name, st, n)
        if r is not None:
            return r
        return [(mk('meth', v, name), st)]

    def mro(self, c):
        out = [c]
        for b in self.classes[c][2]:
            if b.op == 'cls':
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    def find_method(self, c, name):
        for x in self.mro(c):
            m = self.classes[x][1].get(name)
            if m is not None and m.op == 'fn':
                return m
        return None

    def class_attr(self, c, name):
        for x in self.mro(c):
            m = self.classes[x][1].get(name)
            if m is not None:
                return m
        return None

    def ev_Subscript(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            if isinstance(n.slice, ast.Slice):
                lo, hi, stp = n.slice.lower, n.slice.upper, n.slice.step
                nodes = [x for x in (lo, hi, stp) if x is not None]
                for vals, s2 in self.evs(nodes, s):
                    it = iter(vals)
                    l = next(it) if lo is not None else NONE
                    h = next(it) if hi is not None else NONE
                    p = next(it) if stp is not None else NONE
                    out += self.slice(v, l, h, p, s2, n)
            else:
                for i, s2 in self.ev(n.slice, s):
                    out += self.index(v, i, s2, n)
        return out

    def slice(self, v, lo, hi, stp, st, n):
        if v is NONE:
            return self.fail(st, n, 'None is sliced')
        c = self.content(v, st)
        k = self.vkind(v, st)
        if v.op == 'obj' and self.getobj(st, v).content is None:
            c = mk('snap', v, self.getobj(st, v).ver)
        if k == 'iter':
            st = self.emit(st, 'consume', n, source=v, how='slice')
        if stp is not NONE and not (is_num_const(stp) and num(stp) == 1):
            if is_num_const(stp) and num(stp) == -1 and lo is NONE and hi is NONE:
                if k == 'str':
                    return [(mk('lib', 'strrev', c), st)]
                r = mk('rev', c)
            else:
                r = mk('lib', 'stepslice', c, lo, hi, stp)
        else:
            # normalise -len+... : x[:-1] style handled by mk_slc via constants
            if c.op in ('tuple',):
                r = mk_slc(c, lo, hi)
                return [(r, st)]
            r = mk_slc(c, lo, hi)
        st = self.emit(st, 'slice', n, target=v, lo=lo, hi=hi)
        if k in ('str',) or kind(c) == 'str':
            return [(r, st)]
        if k in ('list',):
            ln = seqlen(r)
            t, s = self.alloc(st, n, Obj('list', content=r, ln=ln))
            s = self.emit(s, 'concat', n, target=t, parts=(v,))
            return [(t, s)]
        return [(r, st)]

    def index(self, v, i, st, n):
        """v[i] as an rvalue"""
        if v is NONE:
            return self.fail(st, n, 'None is indexed')
        if v.op == 'obj':
            o = self.getobj(st, v)
            if o is None:
                return [(mk('item', v, i), st)]
            if o.kind in ('ddict', 'counter'):
                return self.dd_get(v, o, i, st, n)
            if o.kind == 'dict':
                st = self.emit(st, 'lookup', n, target=v, key=i)
                st = self.keycheck(st, v, i, n)
                if st is None:
                    return []
                c = o.content
                if c is not None and not self.mentions_lv(c):
                    if c.op == 'dictlit' and i.op != 'const' and len(c.a) <= 12 and c.a and not any(k.op == 'splat' for k, x in c.a):
                        out = []
                        for k, x in c.a:
                            s = self.assume(st, eq_lit(i, k))
                            if s is not None:
                                out.append((x, s))
                        if not out and all(k.op == 'const' for k, x in c.a):
                            return self.fail(st, n, 'no such key', 'KeyError')
                        return out or [(mk_at(c, i), st)]
                    if c.op == 'dictlit' and i.op == 'const' and all(k.op == 'const' and k is not i and cval(k) != cval(i) for k, x in c.a):
                        return self.fail(st, n, 'no key %r' % (cval(i),), 'KeyError')
                    return [(mk_at(c, i), st)]
                return [(mk('at', v, i, o.ver), st)]
            if o.kind == 'inst':
                m = self.find_method(o.x[0], '__getitem__')
                if m is not None:
                    return self.call_fn(m, [v, i], {}, st, n)
            if o.kind in ('list', 'tuple'):
                ln = self.length(v, st)
                st = self.emit(st, 'index', n, target=v, key=i, ln=ln)
                st = self.idxcheck(st, i, ln, n)
                if st is None:
                    return []
                c = o.content
                if c is not None and not (c.op == 'lv'):
                    return [(self.elem(c, i, st), st)]
                return [(mk('item', v, i, o.ver), st)]
            return [(mk('item', v, i, o.ver), st)]
        r = self.lib.get_item(self, v, i, st, n)
        if r is not None:
            return r
        k = kind(v)
        if v.op in ('tuple', 'lit') or k in ('list', 'str', 'tuple', 'iter') or (k == 'any' and kind(i) in ('int',)):
            st = self.emit(st, 'index', n, target=v, key=i, ln=seqlen(v))
            st = self.idxcheck(st, i, seqlen(v), n)
            if st is None:
                return []
            return [(self.elem(v, i, st), st)]
        if k == 'dict':
            st = self.emit(st, 'lookup', n, target=v, key=i)
            st = self.keycheck(st, v, i, n)
            if st is None:
                return []
            return [(mk_at(v, i), st)]
        return [(mk_at(v, i), st)]

    def keycheck(self, st, v, i, n):
        """inside a try statement catching KeyError, the absent key raises"""
        if not self.catches('KeyError'):
            return st
        for l, s in self.contains(i, v, st, n):
            s2 = self.assume(s, lit_not(l))
            if s2 is not None:
                self.pending.append(('raise', s2, ('KeyError', n)))
            return self.assume(s, l)
        return st

    def idxcheck(self, st, i, ln, n):
        """inside a try statement catching IndexError, a position past the end raises"""
        if not self.catches('IndexError') or not is_numeric(i) or not is_numeric(ln):
            return st
        s = self.assume(st, cmp_lit('>=', i, ln))
        if s is not None:
            self.pending.append(('raise', s, ('IndexError', n)))
        return self.assume(st, cmp_lit('<', i, ln))

    def elem(self, c, i, st):
        """element i of content c using the path facts to resolve concatenations"""
        if c.op == 'cat' and not is_num_const(i):
            off = ZERO
            for p in c.a:
                n = seqlen(p)
                rel = sub(i, off)
                if entails(st.facts, cmp_lit('<', rel, n)) and entails(st.facts, cmp_lit('>=', rel, ZERO)):
                    return mk_item(p, rel)
                if not entails(st.facts, cmp_lit('>=', rel, n)):
                    break
                off = add(off, n)
        return mk_item(c, i)

    def proto_of(self, v, o, st, n):
        """prototype object made by the factory of a defaultdict (None: a plain value)"""
        if o.x is None:
            return None
        f = o.x[0]
        key = (v.a[0], f)
        if key not in self.memproto:
            proto = None
            if f.op == 'ext' and f.a[0] in ('list', 'set', 'dict'):
                proto = Obj(f.a[0], content=None)
            elif f.op == 'ext' and f.a[0] == 'collections.Counter':
                proto = Obj('counter', content=None)
            elif f.op == 'ext' and f.a[0] in ('int', 'float'):
                proto = None
            else:
                mark = len(self.log)
                rs = self.call(f, [], {}, st, n)
                del self.log[mark:]
                if rs and rs[0][0].op == 'obj':
                    o2 = self.getobj(rs[0][1], rs[0][0])
                    proto = o2.rep(content=None)
            self.memproto[key] = proto
        return self.memproto[key]

    def member(self, v, o, k, st, n):
        """(member object, state) for key k of a mapping whose values are containers, or None"""
        proto = self.proto_of(v, o, st, n) if o.kind == 'ddict' else o.x[0] if o.kind == 'dict' and o.x else None
        if proto is None:
            return None
        msite = ('mem', v.a[0], v.a[1])
        m = mk('obj', msite, (k,))
        if m not in st.ob:
            ver = mk('mver', m, o.ver)
            attrs = {a: mk('attr', m, a, ver) for a in proto.attrs}
            self.sitekind[msite] = proto
            st = st.setobj(m, Obj(proto.kind, None, mk('len', m, ver), attrs, proto.x, ver, o.origin if o.origin in ('global', 'default', 'arg') else 'member'))
        return m, st

    def dd_get(self, v, o, k, st, n):
        if o.kind == 'ddict':
            st = self.emit(st, 'ddread', n, target=v, key=k)
            r = self.member(v, o, k, st, n)
            if r is not None:
                m, st = r
                l = mk_in(k, v, o.ver)
                if not entails(st.facts, l) and o.content is not None and o.content.op == 'dictlit' and not o.content.a:
                    # a mapping known to be empty: the member is fresh
                    pass
                nv = o.ver if entails(st.facts, l) else self.bump(o)
                if nv is not o.ver:
                    st = st.setobj(v, o.rep(content=None, ln=mk('len', v, nv), ver=nv))
                    st = self.assume(st, mk_in(k, v, nv)) or st
                return [(m, st)]
        return [(mk('cnt', v, k, o.ver), st)]

    # comprehension ------------------------------------------------------------
    def ev_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def ev_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def ev_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def ev_GeneratorExp(self, n, st):
        # lazily evaluated generator: source of the first for is evaluated now
        out = []
        for src, s in self.ev(n.generators[0].iter, st):
            site = (self.ctx, pos(n), 'genexp')
            fid = ('ge', self.ctx, pos(n))
            self.fparent[fid] = self.fid
            self.fnode[fid] = n
            t = mk('obj', site, self.idx())
            s = s.setframe(fid, {'$src': src})
            s = s.setobj(t, Obj('gen', x=('genexp', fid)))
            self.sitekind[site] = s.ob[t]
            self.genexps = getattr(self, 'genexps', {})
            self.genexps[fid] = n
            out.append((t, s))
        return out

    def comp(self, n, st, what):
        """eager comprehension: build a container through the generic loop machinery"""
        fid = ('comp', self.ctx, pos(n))
        self.fparent[fid] = self.fid
        self.fnode[fid] = n
        t, st = self.alloc(st, n, Obj(what, content=empty_of(what), ln=ZERO), 'comp')
        saved = self.fid
        outs = []
        self.fid = fid
        self.fstack.append(fid)
        st = st.setframe(fid, {'$acc': t})

        def leaf(s):
            res = []
            if what == 'dict':
                for (k, v), s2 in self.evs([n.key, n.value], s):
                    res.append(('next', self.put(t, k, v, s2, n), None))
            else:
                for v, s2 in self.ev(n.elt, s):
                    res.append(('next', self.push(t, v, s2, n, 'append' if what == 'list' else 'add'), None))
            return res
        outs = self.comp_loops(n.generators, 0, st, leaf, n)
        self.fid = saved
        self.fstack.pop()
        res = []
        for k, s, v in outs:
            if k == 'next':
                s = s.setframe(fid, None)
                res.append((t, s))
            else:
                self.pending.append((k, s, v))
        return res

    def comp_loops(self, gens, i, st, leaf, n, src=None):
        if i == len(gens):
            return leaf(st)
        g = gens[i]
        outs = []
        if src is not None:
            srcs = [(src, st)]
        else:
            srcs = self.ev(g.iter, st)
        names = set(x.id for x in ast.walk(g.target) if isinstance(x, ast.Name))

        def forget(s, fid):
            d = s.fr.get(fid)
            if d and any(x in d for x in names):
                s = s.setframe(fid, {k: v for k, v in d.items() if k not in names})
            return s
        for sv, s in srcs:
            def body(elem, s2):
                res = []
                fid = self.fid
                for s3 in self.assign(g.target, elem, s2, n):
                    conds = [s3]
                    skip = []
                    for c in g.ifs:
                        nxt = []
                        for s4 in conds:
                            for v, s5 in self.ev(c, s4):
                                for b, s6 in self.branch(v, s5):
                                    (nxt if b else skip).append(s6)
                        conds = nxt
                    res += [('next', s4, None) for s4 in skip]
                    for s4 in conds:
                        res += self.comp_loops(gens, i + 1, s4, leaf, n)
                return [(k, forget(s4, fid) if k == 'next' else s4, v) for k, s4, v in res]
            outs += self.iterate(sv, s, body, g.iter, g)
        return outs

    # yields ---------------------------------------------------------------------
    def ev_Yield(self, n, st):
        if n.value is None:
            vals = [(NONE, st)]
        else:
            vals = self.ev(n.value, st)
        out = []
        for v, s in vals:
            out += self.do_yield(v, s, n)
        return out

    def do_yield(self, v, st, n):
        h = self.handler
        if h is None:
            s = self.emit(st, 'yield', n, val=v)
            return [(NONE, s)]
        saved = (self.handler, self.fid, self.ctx, list(self.callstack))
        self.handler = h.outer
        self.fid = h.fid
        self.ctx = self.ctx + (('y',) + pos(n),)
        sp = self.pending
        self.pending = []
        outs = h.body(v, st)
        outs = outs + self.pending
        self.pending = sp
        self.handler, self.fid, self.ctx, self.callstack = saved
        res = []
        for k, s, val in outs:
            if k in ('next', 'cont'):
                res.append((NONE, s))
            else:
                self.pending.append(('esc', s, (h, (k, val))))
        return res

    def ev_YieldFrom(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            def body(elem, s2):
                return [('next', s3, None) for _, s3 in self.do_yield(elem, s2, n)]
            for k, s2, val in self.iterate(v, s, body, n, n):
                if k == 'next':
                    out.append((NONE, s2))
                else:
                    self.pending.append((k, s2, val))
        return out

    # calls ------------------------------------------------------------------------
    def ev_Call(self, n, st):
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            c, me = self.current_class(st)
            if c is not None:
                return [(mk('super', c, me), st)]
        for f, s in self.ev(n.func, st):
            kwn = [k for k in n.keywords]
            self.temps.append((f,))
            pre = []
            for vals, s2 in self.evs(list(n.args), s):
                self.temps.append(vals)
                for kvals, s3 in self.evs([k.value for k in kwn], s2):
                    pre.append((vals, kvals, s3))
                self.temps.pop()
            self.temps.pop()
            for vals, kvals, s3 in pre:
                if True:
                    kw = {}
                    for k, v in zip(kwn, kvals):
                        if k.arg is None:
                            c = self.content(v, s3)
                            if c.op == 'dictlit':
                                for kk, vv in c.a:
                                    kw[cval(kk) if kk.op == 'const' else ('**', kk)] = vv
                            else:
                                kw['**'] = v
                        else:
                            kw[k.arg] = v
                    out += self.call(f, list(vals), kw, s3, n)
        return out

    def current_class(self, st):
        fn = None
        f = self.fid
        while f is not None:
            t = self.fcls.get(f) if hasattr(self, 'fcls') else None
            if t is not None:
                d = st.fr.get(f)
                node = self.fnode[f]
                return t, d[node.args.args[0].arg]
            f = self.fparent.get(f)
        return None, None

    def call(self, f, args, kw, st, n):
        self.step()
        op = f.op
        if f is NONE:
            return self.fail(st, n, 'None is called')
        if op == 'fn':
            return self.call_fn(f, args, kw, st, n)
        if op == 'bound':
            return self.call_fn(f.a[0], [f.a[1]] + args, kw, st, n)
        if op == 'partial':
            k2 = dict(f.a[2])
            k2.update(kw)
            return self.call(f.a[0], list(f.a[1]) + args, k2, st, n)
        if op == 'cls':
            return self.instantiate(f, args, kw, st, n)
        if op == 'ext':
            return self.lib.call_ext(self, f.a[0], args, kw, st, n)
        if op == 'meth':
            return self.lib.call_method(self, f.a[0], f.a[1], args, kw, st, n)
        if op == 'obj':
            o = self.getobj(st, f)
            if o is not None and o.kind == 'inst':
                m = self.find_method(o.x[0], '__call__')
                if m is not None:
                    return self.call_fn(m, [f] + args, kw, st, n)
        if kw:
            args = args + [mk('kw', k if isinstance(k, str) else '?', v) for k, v in sorted(kw.items(), key=str)]
        return self.opaque(f, args, st, n)

    def opaque(self, f, args, st, n):
        r = mk('app', f, *[self.content(a, st) if a.op == 'obj' else a for a in args])
        st = self.emit(st, 'app', n, fn=f, args=tuple(args), val=r)
        if r in st.cons:
            # every call returns a new iterable
            st = st.copy()
            st.cons = st.cons - {r}
        return [(r, st)]

    def instantiate(self, c, args, kw, st, n):
        t, st = self.alloc(st, n, Obj('inst', x=(c,), attrs={}), 'new')
        init = self.find_method(c, '__init__')
        if init is None:
            return [(t, st)]
        return [(t, s) for _, s in self.call_fn(init, [t] + args, kw, st, n)]

    def bind(self, f, args, kw, st, n):
        node, parent, defaults, cls = self.fns[f]
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        extra = []
        for i, v in enumerate(args):
            if v.op == 'splat':
                extra.append(v)
            elif i < len(names):
                d[names[i]] = v
            else:
                extra.append(v)
        kw2 = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                d[k] = v
            else:
                kw2[k] = v
        for k, v in defaults.items():
            if k not in d:
                d[k] = v
        missing = [x for x in names + [y.arg for y in a.kwonlyargs] if x not in d]
        if missing:
            if extra or '**' in kw:
                for m in missing:
                    d[m] = mk('top', 'arg:' + m)
            else:
                st = self.emit(st, 'badcall', n, fn=f, missing=tuple(missing))
                for m in missing:
                    d[m] = mk('top', 'arg:' + m)
        elif extra and not a.vararg or (set(kw2) - {'**'}) and not a.kwarg:
            st = self.emit(st, 'badcall', n, fn=f, missing=(), extra=tuple(str(k) for k in kw2))
        if a.vararg:
            d[a.vararg.arg] = mk('tuple', *extra)
        if a.kwarg:
            pairs = tuple((const(k), v) for k, v in kw2.items() if isinstance(k, str) and k != '**')
            t, st = self.alloc(st, n, Obj('dict', content=mk('dictlit', *pairs), ln=const(len(pairs))), 'kw')
            d[a.kwarg.arg] = t
        return d, st

    def call_fn(self, f, args, kw, st, n):
        node, parent, defaults, cls = self.fns[f]
        self.stats['calls'] += 1
        self.stats['functions'].add(pos(node) + (getattr(node, 'name', '<lambda>'),))
        if self.callstack.count(node) >= 2 or len(self.callstack) > 40:
            st = self.emit(st, 'recursion', n, fn=f)
            return [(mk('app', f, *args), st)]
        if self.opaque_call is not None:
            r = self.opaque_call(self, node, cls, args, kw)
            if r is not None:
                return [(r, st)]
        d, st = self.bind(f, args, kw, st, n)
        fid = ('call', self.ctx, pos(n), pos(node))
        self.fparent[fid] = parent
        self.fnode[fid] = node
        if cls is not None:
            self.fcls = getattr(self, 'fcls', {})
            self.fcls[fid] = cls
        st = st.setframe(fid, d)
        if is_generator(node):
            site = (self.ctx, pos(n), pos(node), 'gen')
            t = mk('obj', site, self.idx())
            st = st.setobj(t, Obj('gen', x=('fn', fid)))
            self.sitekind[site] = st.ob[t]
            return [(t, st)]
        saved = (self.fid, self.ctx)
        self.fid = fid
        self.ctx = self.ctx + (pos(n),)
        self.fstack.append(fid)
        self.callstack.append(node)
        sh = self.handler
        self.handler = None   # a plain function cannot yield to our consumer
        if isinstance(node, ast.Lambda):
            outs = [('ret', s, v) for v, s in self.ev(node.body, st)]
        else:
            outs = self.block(node.body, st)
        self.handler = sh
        self.callstack.pop()
        self.fstack.pop()
        self.fid, self.ctx = saved
        res = []
        drop = not has_closures(node)
        for k, s, v in outs:
            if k in ('next', 'ret'):
                if drop:
                    s = s.setframe(fid, None)
                res.append((v if k == 'ret' else NONE, s))
            else:
                self.pending.append((k, s, v))
        return self.dedupe_vals(res)

    def dedupe_vals(self, res):
        if len(res) < 2:
            return res
        out = []
        for v, s in res:
            for i, (v2, s2) in enumerate(out):
                if v2 is v:
                    m = self.merge(s2, s)
                    if m is not None:
                        out[i] = (v, m)
                        break
            else:
                out.append((v, s))
        if len(out) > self.MAXSTATES:
            raise Lossy('too many results')
        return out

    # ------------------------------------------------------------------ containers
    def bump(self, o):
        v = o.ver
        return add(v, ONE) if v.op in ('const', 'lv', 'poly', 'mver', 'fver', 'len') or True else v

    def push(self, t, v, st, n, op='append'):
        """append/add an element to a container value"""
        st = self.emit(st, 'ins', n, target=t, op=op, key=None, val=v)
        if t.op != 'obj':
            return st
        o = self.getobj(st, t)
        if o is None:
            return st
        st = self.touch_aliases(st, t)
        if o.kind == 'list':
            c = cat(o.content, lit(v)) if o.content is not None else None
            return st.setobj(t, o.rep(content=c, ln=add(o.ln, ONE) if o.ln is not None else None, ver=self.bump(o)))
        if o.kind == 'set':
            c = o.content
            ln = o.ln
            l = mk_in(v, c) if c is not None and not self.mentions_lv(c) else mk_in(v, t, o.ver)
            known_in = l is TRUE or entails(st.facts, l)
            known_out = l is FALSE or entails(st.facts, lit_not(l))
            if known_in:
                return st
            if c is not None:
                if c.op == 'setlit' and all(x.op == 'const' for x in c.a) and v.op == 'const':
                    nc = mk('setlit', *(c.a + (v,)))
                else:
                    nc = mk('sadd', c, v)
            else:
                nc = None
            if known_out:
                nl = add(ln, ONE) if ln is not None else None
            elif ln is not None and is_num_const(ln) and num(ln) == 0:
                nl = ONE
            else:
                nl = mk('len', t, self.bump(o))
                if ln is not None:
                    st = self.assume(st, cmp_lit('<=', ln, nl)) or st
                    st = self.assume(st, cmp_lit('<=', nl, add(ln, ONE))) or st
            st = st.setobj(t, o.rep(content=nc, ln=nl, ver=self.bump(o)))
            s2 = self.assume(st, mk_in(v, t, self.bump(o)))
            return s2 or st
        return st.setobj(t, o.rep(content=None, ln=mk('len', t, self.bump(o)), ver=self.bump(o)))

    def touch_aliases(self, st, t):
        """other tracked members of the same family with another index may be the same object"""
        site = t.a[0]
        if not (isinstance(site, tuple) and site and site[0] == 'mem'):
            return st
        for k in list(st.ob):
            if k is not t and k.op == 'obj' and k.a[0] == site:
                o = st.ob[k]
                st = st.setobj(k, o.rep(content=None, ln=mk('len', k, self.bump(o)), ver=self.bump(o)))
        # the parent mapping sees the change too
        return st

    def put(self, t, k, v, st, n):
        """t[k] = v"""
        st = self.emit(st, 'ins', n, target=t, op='setitem', key=k, val=v)
        if t.op != 'obj':
            return st
        o = self.getobj(st, t)
        if o is None:
            return st
        st = self.touch_aliases(st, t)
        if o.kind == 'list':
            c = o.content
            if c is not None and c.op == 'lit' and is_num_const(k) and -len(c.a) <= int(num(k)) < len(c.a):
                a = list(c.a)
                a[int(num(k))] = v
                return st.setobj(t, o.rep(content=lit(*a), ver=self.bump(o)))
            c = mk('lput', c, k, v) if c is not None else None
            return st.setobj(t, o.rep(content=c, ver=self.bump(o)))
        if o.kind in ('dict', 'ddict', 'counter'):
            c = o.content
            l = mk_in(k, c) if c is not None and not self.mentions_lv(c) else mk_in(k, t, o.ver)
            if c is not None:
                if c.op == 'dictlit' and all(kk.op == 'const' for kk, vv in c.a) and k.op == 'const':
                    pairs = tuple((kk, v if kk is k else vv) for kk, vv in c.a)
                    if not any(kk is k for kk, vv in c.a):
                        pairs = pairs + ((k, v),)
                    c = mk('dictlit', *pairs)
                else:
                    c = mk('dput', c, k, v)
            if l is TRUE or entails(st.facts, l):
                nl = o.ln
            elif l is FALSE or entails(st.facts, lit_not(l)):
                nl = add(o.ln, ONE) if o.ln is not None else None
            else:
                nl = mk('len', t, self.bump(o))
                if o.ln is not None:
                    st = self.assume(st, cmp_lit('<=', o.ln, nl)) or st
                    st = self.assume(st, cmp_lit('<=', nl, add(o.ln, ONE))) or st
            st = st.setobj(t, o.rep(content=c, ln=nl, ver=self.bump(o)))
            return self.assume(st, mk_in(k, t, self.bump(o))) or st
        return st.setobj(t, o.rep(content=None, ver=self.bump(o)))

    def havoc(self, t, st, n, op, grow=None):
        """unknown in-place change of container t"""
        st = self.emit(st, 'mut', n, target=t, op=op)
        if t.op != 'obj':
            return st
        o = self.getobj(st, t)
        if o is None:
            return st
        st = self.touch_aliases(st, t)
        nv = self.bump(o)
        nl = mk('len', t, nv)
        if grow == 'same':
            nl = o.ln
        st = st.setobj(t, o.rep(content=None, ln=nl, ver=nv))
        return st

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        cur = [st]
        res = []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.ex(s, c):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        res.append(o)
            cur = self.dedupe(nxt)
            if not cur:
                break
        return res + [('next', c, None) for c in cur]

    def merge(self, a, b):
        """lossless merge of two states, or None"""
        if a.facts == b.facts:
            if a.cons == b.cons and a.same_cells(b):
                if a.trace == b.trace or set(a.trace) == set(b.trace):
                    return a
                if len(a.trace) <= len(b.trace) and all(e in b.trace for e in a.trace):
                    if not any(self.essential(e) for e in b.trace if e not in a.trace):
                        return a
                if all(e in a.trace for e in b.trace):
                    if not any(self.essential(e) for e in a.trace if e not in b.trace):
                        return b
            return None
        d1 = a.facts - b.facts
        d2 = b.facts - a.facts
        if len(d1) == 1 and len(d2) == 1:
            x, = d1
            y, = d2
            if lit_not(x) is y and a.cons == b.cons and a.same_cells(b):
                ta = [e for e in a.trace if self.essential(e)]
                tb = [e for e in b.trace if self.essential(e)]
                if ta == tb:
                    s = a.copy()
                    s.facts = a.facts & b.facts
                    return s
        return None

    def essential(self, e):
        return e.kind in ('app', 'ins', 'yield', 'mut', 'draw', 'union', 'print', 'write', 'consume', 'inc', 'edge', 'ran')

    def dedupe(self, sts):
        if len(sts) < 2:
            return sts
        if len(sts) > self.MAXSTATES:
            raise Lossy('too many states')
        if len(sts) > 60:
            out = []
            for s in sts:
                for i in range(max(0, len(out) - 8), len(out)):
                    m = self.merge(out[i], s)
                    if m is not None:
                        out[i] = m
                        break
                else:
                    out.append(s)
            return out
        out = []
        for s in sts:
            while True:
                for i, o in enumerate(out):
                    m = self.merge(o, s)
                    if m is not None:
                        del out[i]
                        s = m
                        break
                else:
                    out.append(s)
                    break
        return out

    def ex(self, n, st):
        self.step()
        sp = self.pending
        self.pending = []
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            outs = [('next', st, None)]
        else:
            outs = m(n, st)
        outs = outs + self.pending
        self.pending = sp
        return outs

    def ex_Expr(self, n, st):
        return [('next', s, None) for v, s in self.ev(n.value, st)]

    def ex_Pass(self, n, st):
        return [('next', st, None)]

    def ex_Return(self, n, st):
        if n.value is None:
            return [('ret', st, NONE)]
        return [('ret', s, v) for v, s in self.ev(n.value, st)]

    def ex_Break(self, n, st):
        return [('brk', st, None)]

    def ex_Continue(self, n, st):
        return [('cont', st, None)]

    def ex_Global(self, n, st):
        return [('next', st, None)]

    ex_Nonlocal = ex_Global

    def ex_Assert(self, n, st):
        out = []
        for v, s in self.ev(n.test, st):
            for b, s2 in self.branch(v, s):
                if b:
                    out.append(('next', s2, None))
                else:
                    s3 = self.emit(s2, 'raise', n, exc='AssertionError')
                    out.append(('raise', s3, ('AssertionError', n)))
        return out

    def ex_Raise(self, n, st):
        name = 'Exception'
        e = n.exc
        if e is not None:
            f = e.func if isinstance(e, ast.Call) else e
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else 'Exception'
            if isinstance(e, ast.Call):
                rs = self.ev(e, st)
                if rs:
                    st = rs[0][1]
        s = self.emit(st, 'raise', n, exc=name)
        return [('raise', s, (name, n))]

    def ex_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            cur = [s]
            for t in n.targets:
                cur = [s3 for s2 in cur for s3 in self.assign(t, v, s2, n)]
            out += [('next', c, None) for c in cur]
        return out

    def ex_AnnAssign(self, n, st):
        if n.value is None:
            return [('next', st, None)]
        out = []
        for v, s in self.ev(n.value, st):
            out += [('next', c, None) for c in self.assign(n.target, v, s, n)]
        return out

    def ex_AugAssign(self, n, st):
        out = []
        t = n.target
        opn = type(n.op).__name__
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            for base, s in self.ev(t.value, st):
                for i, s2 in self.ev(t.slice, s):
                    for v, s3 in self.ev(n.value, s2):
                        if base.op == 'obj':
                            o = self.getobj(s3, base)
                            if o is not None and (o.kind == 'counter' or (o.kind == 'ddict' and o.x and o.x[0].op == 'ext' and o.x[0].a[0] in ('int', 'float'))):
                                s3 = self.emit(s3, 'inc', n, target=base, key=i, delta=v if opn == 'Add' else neg(v))
                                s3 = self.touch_aliases(s3, base)
                                nv = self.bump(o)
                                s3 = s3.setobj(base, o.rep(content=None, ln=mk('len', base, nv), ver=nv))
                                out.append(('next', s3, None))
                                continue
                        for old, s4 in self.index(base, i, s3, n):
                            for nv, s5 in self.binop(opn, old, v, s4, n):
                                out.append(('next', self.put_any(base, i, nv, s5, n), None))
            return out
        for old, s in self.ev(ast.copy_location(_load(t), t), st):
            for v, s2 in self.ev(n.value, s):
                if opn == 'Add' and self.vkind(old, s2) == 'list':
                    # in-place extend
                    for s3 in self.lib.extend(self, old, v, s2, n):
                        out += [('next', c, None) for c in self.assign(t, old, s3, n, aug=True)]
                    continue
                if old.op == 'obj':
                    o = self.getobj(s2, old)
                    if o is not None and o.kind == 'set':
                        s3 = self.havoc(old, s2, n, 'aug' + opn)
                        out.append(('next', s3, None))
                        continue
                    if o is not None and o.kind == 'inst':
                        m = self.find_method(o.x[0], '__i%s__' % opn.lower())
                        if m is not None:
                            for r, s3 in self.call_fn(m, [old, v], {}, s2, n):
                                out += [('next', c, None) for c in self.assign(t, r, s3, n)]
                            continue
                if self.vkind(old, s2) in ('set', 'dict') and old.op != 'obj':
                    s2 = self.emit(s2, 'mut', n, target=old, op='aug' + opn)
                for nv, s3 in self.binop(opn, old, v, s2, n):
                    out += [('next', c, None) for c in self.assign(t, nv, s3, n, aug=True)]
        return out

    def ex_Delete(self, n, st):
        outs = [st]
        for t in n.targets:
            nxt = []
            for s in outs:
                if isinstance(t, ast.Name):
                    nxt.append(s.delvar(self.fid, t.id))
                elif isinstance(t, ast.Subscript):
                    for b, s2 in self.ev(t.value, s):
                        if isinstance(t.slice, ast.Slice):
                            nxt.append(self.havoc(b, s2, n, 'del'))
                            continue
                        for k, s3 in self.ev(t.slice, s2):
                            s4 = self.emit(s3, 'del', n, target=b, key=k)
                            nxt.append(self.havoc(b, s4, n, 'del'))
                elif isinstance(t, ast.Attribute):
                    for b, s2 in self.ev(t.value, s):
                        nxt.append(self.emit(s2, 'mut', n, target=b, op='delattr'))
            outs = nxt
        return [('next', s, None) for s in outs]

    def put_any(self, base, i, v, st, n):
        if base.op == 'obj':
            o = self.getobj(st, base)
            if o is not None and o.kind == 'inst':
                m = self.find_method(o.x[0], '__setitem__')
                if m is not None:
                    rs = self.call_fn(m, [base, i, v], {}, st, n)
                    return rs[0][1] if rs else st
            if o is not None and o.kind == 'list':
                st = self.emit(st, 'index', n, target=base, key=i, ln=self.length(base, st), store=True)
        return self.put(base, i, v, st, n)

    def assign(self, t, v, st, n, aug=False):
        if isinstance(t, ast.Name):
            f = self.owner(t.id, st)
            if f[0] == 'mod' and f != self.fid:
                st = self.emit(st, 'globalset', n, name=t.id, mod=f[1], val=v)
            return [st.setvar(f, t.id, v)]
        if isinstance(t, (ast.Tuple, ast.List)):
            c = self.content(v, st)
            k = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                j = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = k - j - 1
                cur = [st]
                for q, e in enumerate(t.elts):
                    nxt = []
                    for s in cur:
                        if q < j:
                            nxt += self.assign(e, mk_item(c, const(q)), s, n)
                        elif q == j:
                            r = mk_slc(c, const(j), const(-after) if after else NONE)
                            tt, s2 = self.alloc(s, e, Obj('list', content=r, ln=seqlen(r)))
                            nxt += self.assign(e.value, tt, s2, n)
                        else:
                            nxt += self.assign(e, mk_item(c, const(q - k)), s, n)
                    cur = nxt
                return cur
            if v.op == 'obj' and self.getobj(st, v) is not None and self.getobj(st, v).kind in ('inst', 'gen'):
                # unpack through iteration: opaque projections
                o = self.getobj(st, v)
                parts = None
                if o.kind == 'inst':
                    m = self.find_method(o.x[0], '__iter__')
                    parts = self.collect_iter(m, v, st, n) if m is not None else None
                if parts is not None and len(parts) == k:
                    cur = [st]
                    for e, p in zip(t.elts, parts):
                        cur = [s2 for s in cur for s2 in self.assign(e, p, s, n)]
                    return cur
            if v.op == 'it' or kind(v) == 'iter':
                st = self.emit(st, 'consume', n, source=v, how='unpack')
            cur = [st]
            for q, e in enumerate(t.elts):
                x = mk_item(c, const(q))
                cur = [s2 for s in cur for s2 in self.assign(e, x, s, n)]
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for b, s in self.ev(t.value, st):
                s = self.emit(s, 'setattr', n, target=b, attr=t.attr, val=v)
                if b.op == 'obj':
                    o = self.getobj(s, b)
                    if o is not None:
                        a = dict(o.attrs)
                        a[t.attr] = v
                        s = s.setobj(b, o.rep(attrs=a))
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, s in self.ev(t.value, st):
                if isinstance(t.slice, ast.Slice):
                    out.append(self.havoc(b, s, n, 'slice-assign'))
                    continue
                for i, s2 in self.ev(t.slice, s):
                    out.append(self.put_any(b, i, v, s2, n))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, n)
        return [st]

    def collect_iter(self, m, v, st, n):
        """values yielded by a straight-line __iter__"""
        try:
            rs = self.call_fn(m, [v], {}, st, n)
            got = []

            def body(e, s):
                got.append(e)
                return [('next', s, None)]
            if rs and rs[0][0].op == 'obj':
                self.iterate(rs[0][0], rs[0][1], body, n, n)
                return got
        except Lossy:
            pass
        return None

    def ex_If(self, n, st):
        out = []
        for v, s in self.ev(n.test, st):
            for b, s2 in self.branch(v, s):
                out += self.block(n.body if b else n.orelse, s2)
        self.stats['paths'] += len(out)
        return out

    def ex_FunctionDef(self, n, st):
        out = []
        for f, s in self.make_fn(n, st):
            decs = [d for d in n.decorator_list]
            v = f
            if decs and not all(isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod') for d in decs):
                names = []
                for d in decs:
                    x = d.func if isinstance(d, ast.Call) else d
                    names.append(x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else '?')
                s = self.emit(s, 'decorated', n, fn=f, decorators=tuple(names))
            out.append(('next', s.setvar(self.owner(n.name, s), n.name, v), None))
        return out

    ex_AsyncFunctionDef = ex_FunctionDef

    def ex_ClassDef(self, n, st):
        out = []
        for bases, s in self.evs(n.bases, st):
            c = mk('cls', (pos(n), self.fid))
            members = {}
            fid = ('class', pos(n), self.fid)
            self.fparent[fid] = self.fid
            saved = self.fid
            s = s.setframe(fid, {})
            self.classes[c] = (n, members, bases)
            for b in n.body:
                if isinstance(b, ast.FunctionDef):
                    # methods see the module scope, not the class scope
                    for f, s in self.make_fn(b, s, cls=c):
                        members[b.name] = f
                else:
                    self.fid = fid
                    outs = self.ex(b, s)
                    self.fid = saved
                    if outs:
                        s = outs[0][1]
                    for k, v in (s.fr.get(fid) or {}).items():
                        members.setdefault(k, v)
            s = s.setframe(fid, None)
            out.append(('next', s.setvar(self.fid, n.name, c), None))
        return out

    def ex_Import(self, n, st):
        for a in n.names:
            top = a.name if a.asname else a.name.split('.')[0]
            if self.project.find(a.name):
                self.load(a.name)
                v = mk('module', top)
                self.load(top)
            else:
                v = mk('ext', top)
            st = st.setvar(self.fid, a.asname or top, v)
        return [('next', st, None)]

    def ex_ImportFrom(self, n, st):
        fid = self.fid
        m = resolve_relative(n._mod, n.level, n.module)
        for a in n.names:
            if self.project.find(m):
                if a.name == '*':
                    self.load(m)
                    for k, v in self.base_fr.get(('mod', m), {}).items():
                        st = st.setvar(fid, k, v)
                    continue
                v = self.modvar(m, a.name)
                if v is None:
                    v = mk('top', 'import:' + a.name)
            else:
                v = mk('ext', m + '.' + a.name)
            st = st.setvar(fid, a.asname or a.name, v)
        return [('next', st, None)]

    def catches(self, name):
        for names in self.tries:
            if names is None or name in names or 'Exception' in names or 'BaseException' in names or exc_sub(name, names):
                return True
        return False

    def ex_Try(self, n, st):
        names = []
        for h in n.handlers:
            if h.type is None:
                names = None
                break
            for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                names.append(x.id if isinstance(x, ast.Name) else getattr(x, 'attr', '?'))
        self.tries.append(names)
        try:
            outs = self.block(n.body, st)
        finally:
            self.tries.pop()
        res = []
        for k, s, v in outs:
            if k == 'raise' and n.handlers:
                done = False
                for h in n.handlers:
                    names = []
                    if h.type is None:
                        names = None
                    else:
                        for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                            names.append(x.id if isinstance(x, ast.Name) else getattr(x, 'attr', '?'))
                    if names is None or v[0] in names or 'Exception' in names or 'BaseException' in names or exc_sub(v[0], names):
                        s2 = s
                        if h.name:
                            s2 = s.setvar(self.fid, h.name, mk('top', 'exc'))
                        res += self.block(h.body, s2)
                        done = True
                        break
                if not done:
                    res.append((k, s, v))
            elif k == 'next' and n.orelse:
                res += self.block(n.orelse, s)
            else:
                res.append((k, s, v))
        if n.finalbody:
            out2 = []
            for k, s, v in res:
                for k2, s2, v2 in self.block(n.finalbody, s):
                    out2.append((k, s2, v) if k2 == 'next' else (k2, s2, v2))
            res = out2
        return res

    def ex_With(self, n, st):
        cur = [st]
        for it in n.items:
            nxt = []
            for s in cur:
                for v, s2 in self.ev(it.context_expr, s):
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, s2, n)
                    else:
                        nxt.append(s2)
            cur = nxt
        out = []
        for s in cur:
            out += self.block(n.body, s)
        return out

    def ex_For(self, n, st):
        out = []
        for src, s in self.ev(n.iter, st):
            fid = self.fid

            def body(elem, s2):
                res = []
                for s3 in self.assign(n.target, elem, s2, n):
                    for k, s4, v in self.block(n.body, s3):
                        res.append(('next' if k == 'cont' else k, s4, v))
                return res
            self.floops.setdefault(fid, []).append(n)
            outs = self.iterate(src, s, body, n, n)
            self.floops[fid].pop()
            for k, s2, v in outs:
                if k == 'brk':
                    out.append(('next', s2, None))
                elif k == 'next' and n.orelse:
                    out += self.block(n.orelse, s2)
                else:
                    out.append((k, s2, v))
        return self.dedupe_outs(out)

    def dedupe_outs(self, outs):
        nx = self.dedupe([s for k, s, v in outs if k == 'next'])
        return [o for o in outs if o[0] != 'next'] + [('next', s, None) for s in nx]

    def ex_While(self, n, st):
        fid = self.fid
        self.floops.setdefault(fid, []).append(n)

        def step(s, b):
            sp = self.pending
            self.pending = []
            res = []
            for v, s2 in self.ev(n.test, s):
                for t, s3 in self.branch(v, s2):
                    if not t:
                        res.append(('exit', s3, None))
                    else:
                        for k, s4, val in self.block(n.body, s3):
                            res.append(('next' if k == 'cont' else k, s4, val))
            res += self.pending
            self.pending = sp
            return res
        outs = self.run_loop(st, n, ZERO, None, step, n)
        self.floops[fid].pop()
        out = []
        for k, s2, v in outs:
            if k == 'brk':
                out.append(('next', s2, None))
            elif k == 'next' and n.orelse:
                out += self.block(n.orelse, s2)
            else:
                out.append((k, s2, v))
        return self.dedupe_outs(out)

    # ------------------------------------------------------------------ iteration
    def iterate(self, src, st, body, node, keynode):
        """run body(elem, state) for every element of src; outcomes: next(exhausted)/brk/ret/raise/esc"""
        self.step()
        if src is NONE:
            self.fail(st, node, 'None is iterated')
            return []
        if src.op == 'obj':
            o = self.getobj(st, src)
            if o is None:
                return self.loop_seq(src, st, body, node, keynode)
            if o.kind == 'gen':
                return self.run_gen(src, o, st, body, node)
            if o.kind == 'inst':
                m = self.find_method(o.x[0], '__iter__')
                if m is not None:
                    outs = []
                    for g, s in self.call_fn(m, [src], {}, st, node):
                        outs += self.iterate(g, s, body, node, keynode)
                    return outs
            st = self.emit(st, 'iter', node, source=src)
            if o.kind in ('list', 'tuple', 'set', 'dict', 'ddict', 'counter', 'str') and o.content is not None and not self.mentions_lv(o.content):
                c = o.content
                if o.kind in ('dict', 'ddict', 'counter') and c.op == 'dictlit':
                    c = lit(*[k for k, v in c.a])
                if c.op == 'setlit':
                    c = lit(*dict.fromkeys(c.a))
                return self.loop_content(c, src, o, st, body, node, keynode)
            return self.loop_obj(src, o, st, body, node, keynode)
        if src.op == 'it':
            return self.lib.iterate_it(self, src, st, body, node, keynode)
        if src.op in ('lit', 'tuple'):
            return self.unroll(src.a, st, body, node, keynode)
        if src.op == 'const' and isinstance(src.a[1], str):
            return self.unroll([const(c) for c in src.a[1]], st, body, node, keynode)
        r = self.lib.iterate_value(self, src, st, body, node, keynode)
        if r is not None:
            return r
        k = kind(src)
        if src.op == 'sym' and src.a[0] == 'csvrows':
            inner = body

            def body(v, s):
                # every row is a list of its own
                t, s = self.alloc(s, node, Obj('list', content=v, ln=V.seqlen(v)), 'csvrow')
                return inner(t, s)
        if k == 'iter':
            st = self.emit(st, 'consume', node, source=src, how='for')
        else:
            st = self.emit(st, 'iter', node, source=src)
        return self.loop_seq(src, st, body, node, keynode)

    def unroll(self, vals, st, body, node, keynode):
        if len(vals) > 64:
            return self.loop_seq(lit(*vals), st, body, node, keynode)
        cur = [st]
        res = []
        for i, v in enumerate(vals):
            self.active.append((('u', self.ctx, pos(keynode)), const(i), None, None, keynode))
            nxt = []
            for s in cur:
                for o in body(v, s):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        res.append(o)
            self.active.pop()
            cur = self.dedupe(nxt)
            if len(vals) > 8 and len(cur) > 24:
                # too many combinations: summarise the loop over the literal instead
                return self.loop_seq(lit(*vals), st, body, node, keynode)
        return res + [('next', s, None) for s in cur]

    def loop_content(self, c, src, o, st, body, node, keynode):
        if c.op in ('lit', 'tuple'):
            return self.unroll(c.a, st, body, node, keynode)
        if c.op == 'const' and isinstance(c.a[1], str):
            return self.unroll([const(x) for x in c.a[1]], st, body, node, keynode)
        if c.op == 'cat':
            cur = [st]
            res = []
            for q, p in enumerate(c.a):
                nxt = []
                self.active.append((('u', self.ctx, pos(keynode)), const(q), None, None, keynode))
                for s in cur:
                    for out in self.loop_content(p, src, o, s, body, node, keynode):
                        (nxt if out[0] == 'next' else res).append(out[1] if out[0] == 'next' else out)
                self.active.pop()
                cur = nxt
            return res + [('next', s, None) for s in cur]
        if c.op in ('gseq', 'gset'):
            b0, lo, hi, opts = c.a
            if len(opts) == 1 and not opts[0][0] and len(opts[0][1]) == 1 and opts[0][1][0].op != 'splat' and c.op == 'gseq':
                return self.loop_seq(c, st, body, node, keynode, lo=lo, hi=hi,
                                     elem=lambda b: subst(opts[0][1][0], {b0: b}))
            if len(opts) >= 1 and all(len(op[1]) == 1 and op[1][0].op != 'splat' for op in opts):
                # guarded comprehension: one loop over the same range, guards assumed
                def gbody(b, s):
                    res = []
                    for guards, elems in opts:
                        s2 = s
                        for g in guards:
                            s2 = self.assume(s2, subst(g, {b0: b}))
                            if s2 is None:
                                break
                        if s2 is None:
                            continue
                        res += body(subst(elems[0], {b0: b}), s2)
                    # iterations that produced nothing
                    res.append(('next', s, None))
                    return res
                return self.loop_seq(c, st, gbody, node, keynode, lo=lo, hi=hi, elem=lambda b: b)
            return self.loop_obj(src, o, st, body, node, keynode)
        if c.op in ('sadd', 'dput', 'lput', 'lv'):
            return self.loop_obj(src, o, st, body, node, keynode)
        return self.loop_seq(c, st, body, node, keynode)

    def loop_obj(self, src, o, st, body, node, keynode):
        """container whose content is only known through insertion records"""
        n = o.ln if o.ln is not None else mk('len', src, o.ver)
        op = 'dkey' if o.kind in ('dict', 'ddict', 'counter') else 'item'
        return self.loop_seq(src, st, body, node, keynode, lo=ZERO, hi=n,
                             elem=lambda b: mk(op, src, b, o.ver))

    def loop_seq(self, seq, st, body, node, keynode, lo=None, hi=None, elem=None):
        lo = ZERO if lo is None else lo
        if hi is None:
            hi = self.length(seq, st) if seq.op == 'obj' else seqlen(seq)
        if elem is None:
            def elem(b):
                return mk_item(seq, b)

        def step(s, b):
            return body(elem(b), s)
        return self.run_loop(st, keynode, lo, hi, step, node)

    def run_gen(self, t, o, st, body, node):
        st = self.emit(st, 'consume', node, source=t, how='for')
        typ, fid = o.x
        again = t in st.cons
        st = st.copy()
        st.cons = st.cons | {t}
        if again:
            return [('next', st, None)]
        h = Handler(body, self.handler, self.fid)
        saved = (self.handler, self.fid, self.ctx)
        self.handler = h
        self.fid = fid
        self.ctx = self.ctx + (pos(node) + ('g',),)
        self.fstack.append(fid)
        if fid not in st.fr:
            raise Lossy('generator frame lost')
        if typ == 'genexp':
            n = self.genexps[fid]
            src = st.fr[fid]['$src']

            def leaf(s):
                res = []
                for v, s2 in self.ev(n.elt, s):
                    res += [('next', s3, None) for _, s3 in self.do_yield(v, s2, n)]
                res += self.pending
                self.pending = []
                return res
            sp = self.pending
            self.pending = []
            outs = self.comp_loops(n.generators, 0, st, leaf, n, src=src)
            outs += self.pending
            self.pending = sp
        else:
            fn = self.fnode[fid]
            self.callstack.append(fn)
            if len(self.callstack) > 60:
                raise Lossy('depth')
            outs = self.block(fn.body, st)
            self.callstack.pop()
        self.fstack.pop()
        self.handler, self.fid, self.ctx = saved
        res = []
        for k, s, v in outs:
            if k in ('next', 'ret'):
                res.append(('next', s, None))
            elif k == 'esc' and v[0] is h:
                ik, iv = v[1]
                res.append((ik, s, iv))
            else:
                res.append((k, s, v))
        return res

    # ------------------------------------------------------------------ loops
    def run_loop(self, st0, keynode, lo, hi, step, node):
        self.stats['loops'] += 1
        lk = (self.ctx, pos(keynode))
        b = mk('bnd', lk)
        inits = [st0]
        if hi is not None:
            # statically empty / feasible at all?
            if entails(st0.facts, cmp_lit('>=', lo, hi)):
                return [('next', self.ran(st0, lk, keynode), None)]
        if len([a for a in self.active if a[0] == lk]) > 0:
            lk = lk + (len(self.active),)
            b = mk('bnd', lk)
        heads = None
        self.loopinfo = getattr(self, 'loopinfo', {})
        gen = Generaliser(self, lk, b, lo, hi, st0)
        wkey = (lk, tuple(self.headpath))
        heads = gen.warm(self.warm.get(wkey)) or gen.initial()
        outs = []
        for p in range(self.MAXPASS):
            mark = len(self.log)
            outs = []
            pairs = []
            exits = []
            for hx, h in enumerate(heads):
                s = h
                if hi is not None:
                    s = self.assume(s, cmp_lit('<', b, hi))
                    if s is None:
                        continue
                hs = s
                base = len(s.trace)
                self.active.append((lk, b, lo, hi, keynode))
                self.headpath.append(hx)
                rs = step(s, b)
                self.headpath.pop()
                self.active.pop()
                for k, s2, v in rs:
                    if k == 'next':
                        pairs.append((hs, s2))
                    elif k == 'exit':
                        exits.append((h, s2))
                    else:
                        outs.append((k, s2, v, hs))
            if len(pairs) > self.MAXSTATES:
                raise Lossy('loop paths')
            new = gen.generalise(heads, pairs, p)
            if gen.stable(heads, new):
                break
            del self.log[mark:]
            heads = new
        else:
            self.lossy.append(('loop', pos(keynode)))
            raise Lossy('loop does not stabilise at %s' % (pos(keynode),))
        self.warm[wkey] = (gen.st0, heads)
        for h, s2 in pairs:
            e = Ev(id=self.evid, kind='iterend', d={'loop': lk, 'binder': b, 'lo': lo, 'hi': hi, 'head': h, 'end': s2, 'entry': gen.st0},
                   facts=s2.facts, active=tuple(self.active) + ((lk, b, lo, hi, keynode),), ctx=self.ctx, node=keynode,
                   trace=s2.trace, st=s2, fid=self.fid)
            self.evid += 1
            self.log.append(e)
        res = []
        # truncations
        cm = gen.cutting(heads, pairs) if outs else {}
        for k, s2, v, hs in outs:
            e = Ev(id=self.evid, kind='cut', d={'loop': lk, 'binder': b, 'lo': lo, 'hi': hi, 'how': k, 'val': v, 'entry': gen.st0, 'head': hs},
                   facts=s2.facts, active=tuple(self.active) + ((lk, b, lo, hi, keynode),), ctx=self.ctx, node=keynode,
                   trace=s2.trace, st=s2, fid=self.fid)
            self.evid += 1
            self.log.append(e)
            if cm:
                s2 = s2.subst(cm)
                if isinstance(v, T):
                    v = subst(v, cm)
            if k == 'brk':
                s2 = gen.leave(s2)
            res.append((k, s2, v))
        if hi is not None:
            for s in gen.exhausted(heads, pairs):
                res.append(('next', s, None))
        else:
            for h, s2 in exits:
                s3 = gen.while_exit(s2, pairs)
                if s3 is not None:
                    res.append(('next', s3, None))
        nx = self.dedupe([s for k, s, v in res if k == 'next'])
        return [(o[0], self.ran(o[1], lk, keynode), o[2]) for o in res if o[0] != 'next'] + [('next', self.ran(s, lk, keynode), None) for s in nx]

    def ran(self, st, lk, node):
        """note in the history of a state that a loop was gone through"""
        e = self.marks.get(lk)
        if e is None:
            e = self.marks[lk] = Ev(id=0, kind='ran', d={'loop': lk}, facts=frozenset(), active=(), ctx=self.ctx, node=node, trace=(), st=None, fid=self.fid)
        if e in st.trace:
            return st
        s = st.copy()
        s.trace = st.trace + (e,)
        return s

    def live(self, fid, name):
        """may the variable be read before being written at the head of the loop active in its frame?"""
        if name.startswith('$'):
            return True
        fn = self.fnode.get(fid)
        if fn is None:
            return True
        loops = self.floops.get(fid) or []
        if not loops:
            return True
        return loop_live(fn, loops[-1], name)

    def gc(self, st):
        """drop frames and objects unreachable from the executing frames"""
        keepf = set()
        keepo = set()
        work = []
        seen = set()

        def addterm(t):
            if t not in seen:
                seen.add(t)
                work.append(t)
        fq = [f for f in self.fstack]
        for vs in self.temps:
            for v in vs:
                if hasattr(v, 'op'):
                    addterm(v)
        h = self.handler
        while h is not None:
            fq.append(h.fid)
            h = h.outer
        fq.append(self.fid)
        while fq or work:
            while fq:
                f = fq.pop()
                if f in keepf or f is None:
                    continue
                keepf.add(f)
                d = st.fr.get(f)
                if d:
                    for v in d.values():
                        addterm(v)
                fq.append(self.fparent.get(f))
            while work:
                t = work.pop()
                for x in leaves(t):
                    if x.op == 'obj':
                        if x in keepo:
                            continue
                        keepo.add(x)
                        o = st.ob.get(x)
                        if o is not None:
                            for y in o.terms():
                                addterm(y)
                            if o.kind == 'gen':
                                fq.append(o.x[1])
                    elif x.op == 'fn':
                        fq.append(x.a[0][1])
        if all(f in keepf for f in st.fr) and all(t in keepo for t in st.ob):
            return st
        s = st.copy()
        s.fr = {f: d for f, d in st.fr.items() if f in keepf}
        s.ob = {t: o for t, o in st.ob.items() if t in keepo}
        return s


_LEAVES = {}


def leaves(t):
    r = _LEAVES.get(t)
    if r is None:
        r = set()
        if t.op in ('obj', 'fn'):
            r.add(t)
        for c in tm.children(t):
            r |= leaves(c)
        r = frozenset(r)
        _LEAVES[t] = r
    return r


def empty_of(what):
    return {'list': lit(), 'set': mk('setlit'), 'dict': mk('dictlit')}[what]


def strcat(a, b):
    parts = []
    for x in (a, b):
        parts.extend(x.a if x.op == 'concat' else (x,))
    res = []
    for p in parts:
        if p.op == 'const' and p.a[1] == '':
            continue
        if res and p.op == 'const' and res[-1].op == 'const' and isinstance(p.a[1], str) and isinstance(res[-1].a[1], str):
            res[-1] = const(res[-1].a[1] + p.a[1])
        else:
            res.append(p)
    if not res:
        return const('')
    if len(res) == 1:
        if kind(res[0]) == 'str':
            return res[0]
    return mk('concat', *res)


tm.REBUILD['concat'] = lambda *a: _recat(a)


def _recat(a):
    r = const('')
    for x in a:
        r = strcat(r, x)
    return r


def strformat(fmt, args):
    """'%' formatting into a concatenation when every directive is %s / %i / %d"""
    import re as _re
    if fmt.op != 'const':
        return mk('lib', 'str.%', fmt, *args)
    s = fmt.a[1]
    pieces = _re.split(r'(%(?:[-+ #0]*\d*(?:\.\d+)?[sdifr%]))', s)
    r = const('')
    i = 0
    for p in pieces:
        if p == '%%':
            r = strcat(r, const('%'))
        elif p.startswith('%') and len(p) > 1 and p[-1] in 'sdifr':
            if i >= len(args):
                return mk('lib', 'str.%', fmt, *args)
            x = args[i]
            i += 1
            if p == '%s':
                if x.op == 'const':
                    y = const(str(cval(x)))
                elif kind(x) == 'str':
                    y = x
                else:
                    y = mk('lib', 'str', x)
            elif p[-1] in 'dif' and True:
                y = mk('lib', 'fmtnum', const(p), x)
            else:
                y = mk('lib', 'fmt', const(p), x)
            r = strcat(r, y)
        elif p:
            if '%' in p:
                return mk('lib', 'str.%', fmt, *args)
            r = strcat(r, const(p))
    if i != len(args):
        return mk('lib', 'str.%', fmt, *args)
    return r


def exc_sub(name, names):
    sup = {'KeyError': ('LookupError',), 'IndexError': ('LookupError',), 'ZeroDivisionError': ('ArithmeticError',)}
    return any(x in names for x in sup.get(name, ()))


def _load(t):
    import copy
    c = copy.copy(t)
    c.ctx = ast.Load()
    return c


_GEN = {}


def is_generator(node):
    r = _GEN.get(node)
    if r is None:
        r = False
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                    continue
                stack.extend(ast.iter_child_nodes(x))
        _GEN[node] = r
    return r


_CLO = {}


def has_closures(node):
    r = _CLO.get(node)
    if r is None:
        r = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) and x is not node for x in ast.walk(node))
        _CLO[node] = r
    return r


_SC = {}


def scope_decl(fn):
    r = _SC.get(fn)
    if r is None:
        nl, gl = set(), set()
        if not isinstance(fn, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            for x in ast.walk(fn):
                if isinstance(x, ast.Nonlocal):
                    nl |= set(x.names)
                elif isinstance(x, ast.Global):
                    gl |= set(x.names)
        r = _SC[fn] = (nl, gl)
    return r


from .liveness import loop_live  # noqa
from .loops import Generaliser  # noqa
