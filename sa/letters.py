"""abstract interpreter of text functions: strings are abstracted by the characters they may hold, collections by the number of
occurrences (none, one, several) of one tracked letter and by the join of their elements; loops are taken to a fixpoint"""
import ast
from .chars import Ops, Str, Unclear, U, ANY, N012, NONE, plus, down, up

MAXSTATES = 4000
MAXDEPTH = 12
STEPS = 400000


class Re(object):
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags

    def __eq__(self, o):
        return isinstance(o, Re) and (self.pattern, self.flags) == (o.pattern, o.flags)

    def __hash__(self):
        return hash((self.pattern, self.flags))


class Const(object):
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash(repr(self.v))


class Int(object):
    """an unknown integer; cur: (name of the string, character at that index); z: (its value, True), (its least value, False) or None"""

    def __init__(self, cur=None, z=None):
        self.cur, self.z = cur, z

    def __eq__(self, o):
        return isinstance(o, Int) and self.cur == o.cur and self.z == o.z

    def __hash__(self):
        return hash(self.cur)


class Len(object):
    """the length of a string or collection named by a variable"""

    def __init__(self, of, off=0):
        self.of, self.off = of, off

    def __eq__(self, o):
        return isinstance(o, Len) and (self.of, self.off) == (o.of, o.off)

    def __hash__(self):
        return hash((self.of, self.off))


class Tup(object):
    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(self.items)


class Range(object):
    """range(lo, len(of) + off)"""

    def __init__(self, of, lo, off):
        self.of, self.lo, self.off = of, lo, off

    def __eq__(self, o):
        return isinstance(o, Range) and (self.of, self.lo, self.off) == (o.of, o.lo, o.off)

    def __hash__(self):
        return hash((self.of, self.lo, self.off))


class Enum(object):
    def __init__(self, src, name, start):
        self.src, self.name, self.start = src, name, start

    def __eq__(self, o):
        return isinstance(o, Enum) and (self.src, self.name) == (o.src, o.name)

    def __hash__(self):
        return hash((self.src, self.name))


class Ref(object):
    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Ref) and self.i == o.i

    def __hash__(self):
        return hash(self.i)


class Fn(object):
    def __init__(self, node, mod):
        self.node, self.mod = node, mod


class Ext(object):
    def __init__(self, name):
        self.name = name


class Meth(object):
    def __init__(self, obj, name, src):
        self.obj, self.name, self.src = obj, name, src


class Top(object):
    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 7


class Cont(object):
    """kind, element (join) or None, ne: surely not empty / me: may be empty, occurrences of the tracked letter over all elements"""
    __slots__ = ('kind', 'elem', 'ne', 'cnt', 'exact')

    def __init__(self, kind, elem=None, ne=False, cnt=NONE, exact=()):
        self.kind, self.elem, self.ne, self.cnt, self.exact = kind, elem, ne, cnt, exact

    def key(self):
        return (self.kind, self.elem, self.ne, self.cnt, self.exact)

    def __eq__(self, o):
        return isinstance(o, Cont) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class State(object):
    __slots__ = ('env', 'heap', 'seen', 'lossy')

    def __init__(self, env=None, heap=None, seen=frozenset(), lossy=None):
        self.env, self.heap, self.seen, self.lossy = env or {}, heap or {}, seen, lossy

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.seen, self.lossy)

    def bind(self, name, v):
        s = self.copy()
        s.env[name] = v
        return s

    def put(self, ref, c):
        s = self.copy()
        s.heap[ref.i] = c
        return s


class Stop(Exception):
    """cannot be decided here"""


class Letters(object):
    def __init__(self, project, track=None, force=()):
        self.p = project
        self.vague, self.force = set(), dict(force)
        self.coarse = False
        self.o = Ops(track)
        self.n = 0
        self.steps = 0
        self.mods = {}
        self.problems = []
        self.depth = 0

    # modules ------------------------------------------------------------------------------------------
    def glob(self, mod, name):
        key = (mod.name, name)
        if key in self.mods:
            r = self.mods[key]
            if r is None:
                raise Stop('recursive definition of %s' % name)
            return r
        self.mods[key] = None
        r = self._glob(mod, name)
        self.mods[key] = r
        return r

    def _glob(self, mod, name):
        found = None
        count = 0
        for s in mod.tree.body:
            if isinstance(s, (ast.FunctionDef,)) and s.name == name:
                found, count = Fn(s, mod), count + 1
            elif isinstance(s, ast.ClassDef) and s.name == name:
                found, count = Top(), count + 1
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    if (a.asname or a.name.split('.')[0]) != name:
                        continue
                    count += 1
                    if isinstance(s, ast.Import):
                        found = Ext(a.name)
                    else:
                        full = '%s.%s' % (s.module, a.name)
                        if s.module and s.module.split('.')[0] in ('fog',):
                            m = self.p.module(s.module)
                            if m is None:
                                raise Stop('module %s' % s.module)
                            found = self.glob(m, a.name)
                        else:
                            found = Ext(full)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == name for t in (s.targets if isinstance(s, ast.Assign) else [s.target])):
                # the last assignment wins; earlier ones are visible to its own right-hand side
                count += 1
                prev = found
                self.mods[(mod.name, name)] = prev
                found = self.frozen(s.value, mod)
                self.mods[(mod.name, name)] = None
        if count == 0:
            import builtins
            if hasattr(builtins, name):
                return Ext('builtins.' + name)
            raise Stop('unknown name %s' % name)
        return found

    def frozen(self, node, mod):
        r = self.ev(node, State({'__mod__': mod}))
        if len(r) != 1:
            raise Stop('module constant')
        v, st = r[0]
        return self.const(self.raw(v, st))

    def raw(self, v, st):
        """python constant of an abstract value"""
        if isinstance(v, Str) and v.consts is not None and len(v.consts) == 1:
            return list(v.consts)[0]
        if isinstance(v, Const):
            return v.v
        if isinstance(v, Re):
            return v
        if isinstance(v, Tup):
            return tuple(self.raw(x, st) for x in v.items)
        if isinstance(v, Ref):
            c = st.heap[v.i]
            if c.exact is not None:
                l = [self.raw(x, st) for x in c.exact]
                return l if c.kind == 'list' else tuple(l) if c.kind == 'tuple' else frozenset(l)
        raise Stop('not a constant')

    def const(self, v):
        if isinstance(v, str):
            return self.o.const(v)
        if isinstance(v, Re):
            return v
        return Const(v)

    # states -------------------------------------------------------------------------------------------
    def sig(self, v, st):
        if isinstance(v, Str):
            t = self.o.track
            if v.consts is not None and len(v.consts) == 1 and t in v.consts:
                a = 'X'
            else:
                a = '?' if self.o.counts(v.chars) else 'o'
            return ('s', a, v.ne, v.cnt)
        if isinstance(v, Const):
            return ('c', repr(v.v) if v.v is None or isinstance(v.v, bool) else 0)
        if isinstance(v, Ref):
            c = st.heap[v.i]
            return ('r', v.i, c.cnt, c.ne)
        if isinstance(v, Tup):
            return ('t',) + tuple(self.sig(x, st) for x in v.items)
        return (type(v).__name__,)

    def ssig(self, st):
        return (tuple(sorted((k, self.sig(v, st)) for k, v in st.env.items() if k != '__mod__')), tuple(sorted((k, c.cnt, c.ne) for k, c in st.heap.items())), st.seen, st.lossy)

    def joinv(self, a, b):
        if a is b or a == b:
            return a
        if isinstance(a, Str) and isinstance(b, Str):
            return self.o.join(a, b)
        if isinstance(a, (Const, Int, Len)) and isinstance(b, (Const, Int, Len)):
            if all(not isinstance(x, Const) or (isinstance(x.v, int) and not isinstance(x.v, bool)) for x in (a, b)):
                return Int()
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.joinv(x, y) for x, y in zip(a.items, b.items)])
        if a is None:
            return b
        if b is None:
            return a
        return Top()

    def joinc(self, a, b):
        if a == b:
            return a
        return Cont(a.kind, self.joinv(a.elem, b.elem), a.ne and b.ne, a.cnt | b.cnt, None)

    def merge(self, a, b):
        env = {}
        for k in a.env:
            if k in b.env:
                env[k] = self.joinv(a.env[k], b.env[k]) if k != '__mod__' else a.env[k]
        heap = {}
        for k in set(a.heap) | set(b.heap):
            heap[k] = self.joinc(a.heap[k], b.heap[k]) if k in a.heap and k in b.heap else a.heap.get(k) or b.heap.get(k)
        return State(env, heap, a.seen, a.lossy or b.lossy)

    def compact(self, states):
        d = {}
        for s in states:
            k = self.ssig(s)
            d[k] = self.merge(d[k], s) if k in d else s
        return list(d.values())

    def lose(self, st, why):
        s = st.copy()
        s.lossy = s.lossy or why
        return s

    def alloc(self, st, c, node):
        i = (self.depth, node.lineno, node.col_offset)
        s = st.copy()
        s.heap[i] = c
        return Ref(i), s

    # expressions --------------------------------------------------------------------------------------
    def evs(self, nodes, st):
        out = [((), st)]
        for n in nodes:
            out = [(vs + (v,), s2) for vs, s in out for v, s2 in self.ev(n, s)]
        return out

    def ev(self, n, st):
        self.steps += 1
        if self.steps > STEPS:
            raise Stop('too many states')
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Stop('expression %s' % type(n).__name__)
        return m(n, st)

    def ev_Constant(self, n, st):
        return [(self.const(n.value), st)]

    def ev_Name(self, n, st):
        if n.id in st.env:
            return [(st.env[n.id], st)]
        return [(self.glob(st.env['__mod__'], n.id), st)]

    def ev_JoinedStr(self, n, st):
        out = [(self.o.const(''), st)]
        for v in n.values:
            if isinstance(v, ast.FormattedValue) and v.format_spec is None and v.conversion == -1:
                v = v.value
            nxt = []
            for acc, s in out:
                for x, s2 in self.ev(v, s):
                    if not isinstance(x, Str):
                        raise Stop('formatted value')
                    nxt.append((self.o.concat(acc, x), s2))
            out = nxt
        return out

    def ev_Tuple(self, n, st):
        return [(Tup(vs), s) for vs, s in self.evs(n.elts, st)]

    def display(self, kind, vs, st, node):
        elem, cnt = None, NONE
        exact = True
        for v in vs:
            elem = self.joinv(elem, v) if elem is not None else v
            cnt = plus(cnt, self.vcnt(v))
            if not (isinstance(v, Str) and v.consts is not None and len(v.consts) == 1) and not isinstance(v, Const) and not isinstance(v, (Tup, Re)):
                exact = False
        return self.alloc(st, Cont(kind, elem, bool(vs), cnt, tuple(vs) if exact else None), node)

    def vcnt(self, v):
        if isinstance(v, Str):
            return v.cnt
        if isinstance(v, (Const, Int, Len, Re)):
            return NONE
        if isinstance(v, Tup):
            r = NONE
            for x in v.items:
                r = plus(r, self.vcnt(x))
            return r
        return N012

    def ev_List(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            raise Stop('starred')
        return [self.display('list', vs, s, n) for vs, s in self.evs(n.elts, st)]

    def ev_Set(self, n, st):
        return [self.display('set', vs, s, n) for vs, s in self.evs(n.elts, st)]

    def ev_Dict(self, n, st):
        if not n.keys:
            return [self.display('set', (), st, n)]
        out = []
        for ks, s in self.evs(n.keys, st):
            for vs, s2 in self.evs(n.values, s):
                out.append((Const(dict((self.raw(k, s2), self.raw(v, s2)) for k, v in zip(ks, vs))), s2))
        return out

    def ev_IfExp(self, n, st):
        out = []
        for b, s in self.cond(n.test, st):
            out.extend(self.ev(n.body if b else n.orelse, s))
        return out

    def ev_BoolOp(self, n, st):
        return self.boolean(n, st)

    def ev_Compare(self, n, st):
        return self.boolean(n, st)

    def boolean(self, n, st):
        if isinstance(n, ast.BoolOp):
            # the value may be used: only truth values are handled
            out = [(None, st)]
            for i, v in enumerate(n.values):
                nxt = []
                for val, s in out:
                    if val is not None:
                        nxt.append((val, s))
                        continue
                    for x, s2 in self.ev(v, s):
                        last = i == len(n.values) - 1
                        if last:
                            nxt.append((x, s2))
                            continue
                        for b, s3 in self.truth(x, v, s2):
                            stop = b != isinstance(n.op, ast.And)
                            nxt.append((x if stop else None, s3))
                out = nxt
            return out
        return [(Const(b), s) for b, s in self.cond(n, st)]

    def ev_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return [(Const(b), s) for b, s in self.cond(n, st)]
        out = []
        for v, s in self.ev(n.operand, st):
            if isinstance(n.op, ast.USub) and isinstance(v, Const):
                out.append((Const(-v.v), s))
            else:
                out.append((Int(), s))
        return out

    def ev_BinOp(self, n, st):
        out = []
        for (a, b), s in self.evs([n.left, n.right], st):
            out.append(self.binop(n, a, b, s))
        return out

    def binop(self, n, a, b, s):
        num = (Const, Int, Len)
        if isinstance(n.op, ast.Add) and isinstance(a, Str) and isinstance(b, Str):
            return self.o.concat(a, b), s
        if isinstance(n.op, ast.Add) and isinstance(a, Ref) and isinstance(b, Ref):
            x, y = s.heap[a.i], s.heap[b.i]
            ex = x.exact + y.exact if x.exact is not None and y.exact is not None else None
            return self.alloc(s, Cont('list', self.joinv(x.elem, y.elem), x.ne or y.ne, plus(x.cnt, y.cnt), ex), n)
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, int) and isinstance(b.v, int):
            f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y}.get(type(n.op))
            return (Const(f(a.v, b.v)), s) if f else (Int(), s)
        if isinstance(a, Len) and isinstance(b, Const) and isinstance(n.op, (ast.Add, ast.Sub)):
            return Len(a.of, a.off + (b.v if isinstance(n.op, ast.Add) else -b.v)), s
        if isinstance(a, num) and isinstance(b, num):
            return Int(), s
        if isinstance(n.op, ast.Mod) and isinstance(a, Str) and a.consts is not None and len(a.consts) == 1:
            try:
                return self.o.const(list(a.consts)[0] % self.raw(b, s)), s
            except Stop:
                pass
        if isinstance(n.op, (ast.Sub, ast.BitOr, ast.BitAnd)) and isinstance(a, (Ref, Const)) and isinstance(b, (Ref, Const)):
            return self.setop(n, a, b, s)
        raise Stop('operation')

    def setop(self, n, a, b, s):
        try:
            x, y = self.raw(a, s), self.raw(b, s)
            r = {ast.Sub: lambda: set(x) - set(y), ast.BitOr: lambda: set(x) | set(y), ast.BitAnd: lambda: set(x) & set(y)}[type(n.op)]()
            return Const(frozenset(r)), s
        except Stop:
            pass
        raise Stop('set operation')

    def ev_Attribute(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            if isinstance(v, Ext):
                if v.name == 're' and n.attr in ('I', 'IGNORECASE', 'S', 'DOTALL', 'U', 'UNICODE', 'M', 'A'):
                    import re
                    out.append((Const(int(getattr(re, n.attr))), s))
                else:
                    out.append((Ext(v.name + '.' + n.attr), s))
            else:
                out.append((Meth(v, n.attr, n.value), s))
        return out

    def ev_Subscript(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            if isinstance(n.slice, ast.Slice):
                sl = n.slice
                for bs, s2 in self.evs([x for x in (sl.lower, sl.upper, sl.step) if x is not None], s):
                    out.append(self.sliced(n, v, sl, bs, s2))
                continue
            for i, s2 in self.ev(n.slice, s):
                out.extend(self.item(n, v, i, s2))
        return out

    def sliced(self, n, v, sl, bs, s):
        one = sl.upper is None and sl.step is None and len(bs) == 1 and bs[0] == Const(1)
        if isinstance(v, Str):
            if v.consts is not None and all(isinstance(b, Const) for b in bs):
                it = iter(b.v for b in bs)
                k = slice(*[next(it) if x is not None else None for x in (sl.lower, sl.upper, sl.step)])
                return self.o.each(v, lambda x: x[k]), s
            if one:
                return self.o.tail(v), s
            if sl.lower is None and sl.upper is None and sl.step is not None and bs[0] == Const(-1):
                return Str(v.chars, v.chars, v.ne, v.cnt), s
            if sl.lower is None and sl.step is None and bs and bs[0] == Const(1):
                return Str(v.first, (), v.ne, down(v.cnt)), s
            return self.o.part(v), s
        if isinstance(v, Ref):
            c = s.heap[v.i]
            if sl.lower is None and sl.upper is None:
                return self.alloc(s, Cont(c.kind, c.elem, c.ne, c.cnt, None), n)
            return self.alloc(s, Cont(c.kind, c.elem, False, down(c.cnt), None), n)
        raise Stop('slice')

    def item(self, n, v, i, s):
        if isinstance(v, Tup) and isinstance(i, Const):
            return [(v.items[i.v], s)]
        if isinstance(v, Const) and isinstance(v.v, dict):
            return [(x, s2) for x, s2 in self.lookup(n, v.v, i, n.slice, s) if x is not None]
        if isinstance(v, Const) and isinstance(i, Const):
            return [(self.const(v.v[i.v]), s)]
        if isinstance(v, Str):
            name = n.value.id if isinstance(n.value, ast.Name) else None
            if isinstance(i, Int) and i.cur is not None and name == i.cur[0]:
                return [(i.cur[1], s)]
            if isinstance(i, Const) and i.v == 0:
                out = []
                for c in self.split(v.first):
                    s2 = s
                    if name is not None and v.consts is None:
                        s2 = s.bind(name, Str(c.chars, v.rest, True, v.cnt))
                    out.append((c, s2))
                return out
            if v.empty:
                return []
            return [(c, s) for c in self.split(v.chars)]
        if isinstance(v, Ref):
            c = s.heap[v.i]
            if c.elem is None:
                return []
            return [(c.elem, s)]
        raise Stop('subscript')

    def split(self, cs):
        """one character: the tracked letter, or another one"""
        t = frozenset(c for c in cs if self.o.T(c))
        out = [self.o.const(c) for c in sorted(t)]
        plain = frozenset(c for c in cs - t if c != U)
        if plain:
            out.append(self.o.onechar(plain))
        if U in cs:
            out.append(self.o.onechar([U]))
        return out

    def lookup(self, n, d, k, knode, s, default=None):
        """(value or None when the key is missing, state)"""
        if isinstance(k, Const):
            return [(self.const(d[k.v]), s)] if k.v in d else [(default, s)]
        if not isinstance(k, Str):
            raise Stop('lookup')
        out = []
        if k.consts is not None:
            groups = {}
            for c in k.consts:
                v = self.const(d[c]) if c in d else default
                groups.setdefault((c in d, v), []).append(c)
            for (has, v), cs in groups.items():
                s2 = s.bind(knode.id, self.o.const(*cs)) if isinstance(knode, ast.Name) and knode.id in s.env else s
                out.append((v, s2))
            return out
        for v in d.values():
            out.append((self.const(v), s))
        out.append((default, s))
        return out

    # calls --------------------------------------------------------------------------------------------
    def ev_Call(self, n, st):
        out = []
        for f, s in self.ev(n.func, st):
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                raise Stop('starred call')
            if len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
                pairs = [((v,), s2) for v, s2 in self.comp(n.args[0], s, 'list')]
            else:
                pairs = self.evs(n.args, s)
            for args, s2 in pairs:
                for kv, s3 in self.evs([k.value for k in n.keywords], s2):
                    kw = dict((k.arg, v) for k, v in zip(n.keywords, kv))
                    out.extend(self.call(n, f, list(args), kw, s3))
        return out

    def call(self, n, f, args, kw, s):
        if isinstance(f, Fn):
            return self.apply(n, f, args, kw, s)
        if isinstance(f, Ext):
            return self.ext(n, f.name, args, kw, s)
        if isinstance(f, Meth):
            return self.method(n, f, args, kw, s)
        raise Stop('call')

    def apply(self, n, f, args, kw, s):
        if self.depth >= MAXDEPTH:
            raise Stop('recursion')
        a = f.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Stop('signature')
        if f.node.decorator_list:
            raise Stop('decorator')
        env = {'__mod__': f.mod}
        names = [x.arg for x in a.args]
        for k, v in zip(names, args):
            env[k] = v
        env.update(kw)
        for k, v in list(env.items()):
            if isinstance(v, (Len, Int)):
                env[k] = Int()
            elif isinstance(v, (Range, Enum)):
                raise Stop('range argument')
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dflt.update((x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
        for k, d in dflt.items():
            if k not in env:
                env[k] = self.frozen(d, f.mod)
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
        self.depth += 1
        try:
            st = State(env, dict(s.heap), s.seen, s.lossy)
            if gen:
                ref, st = self.alloc(st, Cont('list'), f.node)
                st = st.bind('__yield__', ref)
            out = []
            for kind, s2, v in self.block(f.node.body, [st]):
                if kind in ('next', 'ret'):
                    r = s2.env['__yield__'] if gen else (v if kind == 'ret' else Const(None))
                    if isinstance(r, (Len, Int)):
                        r = Int()
                    elif isinstance(r, (Range, Enum)):
                        raise Stop('range result')
                    out.append((r, State(s.env, s2.heap, s.seen, s2.lossy)))
                elif kind == 'raise':
                    pass
                else:
                    raise Stop('control flow')
        finally:
            self.depth -= 1
        return self.compactv(out)

    def compactv(self, out):
        d = {}
        for v, s in out:
            k = (self.sig(v, s), self.ssig(s))
            if k in d:
                d[k] = (self.joinv(d[k][0], v), self.merge(d[k][1], s))
            else:
                d[k] = (v, s)
        return list(d.values())

    def ext(self, n, name, args, kw, s):
        b = name[9:] if name.startswith('builtins.') else None
        if name in ('unidecode.unidecode', 'unidecode.unidecode_expect_ascii', 'unidecode.unidecode_expect_nonascii'):
            return [(self.o.deburr(self.text(args[0])), s)]
        if name == 're.compile':
            fl = args[1] if len(args) > 1 else kw.get('flags')
            return [(Re(self.raw(args[0], s), fl.v if fl is not None else 0), s)]
        if name == 're.sub':
            return self.sub(n, args[0], args[1], args[2], s, kw.get('flags'), args[3:] or [k for k in kw if k != 'flags'])
        if name == 're.split' and len(args) == 2:
            p = self.pattern(args[0], s)
            x = self.text(args[1])
            return [self.alloc(s, Cont('list', self.o.pieces(x, p.pattern, p.flags), True, down(x.cnt), None), n)]
        if name in ('re.match', 're.search', 're.fullmatch'):
            return self.match(n, name[3:], args[0], args[1], n.args[1], s)
        if name in ('string.ascii_uppercase', 'string.ascii_lowercase', 'string.ascii_letters', 'string.digits'):
            raise Stop('call')
        if b == 'len':
            return self.length(n, args[0], s)
        if b in ('set', 'frozenset', 'list', 'tuple', 'sorted', 'reversed', 'iter'):
            kind = {'frozenset': 'set', 'tuple': 'list', 'sorted': 'list', 'reversed': 'list', 'iter': 'list'}.get(b, b)
            if not args:
                return [self.alloc(s, Cont(kind), n)]
            c = self.collection(args[0], s)
            if c is None:
                raise Stop(b)
            cnt, exact = c.cnt, c.exact
            if kind == 'set':
                cnt = frozenset(min(1, k) for k in cnt) if self.singles(c) else (cnt | frozenset(min(1, k) for k in cnt))
                exact = tuple(dict.fromkeys(exact)) if exact is not None else None
            if b == 'sorted' and (kw or exact is not None):
                exact = None
            if b == 'reversed' and exact is not None:
                exact = exact[::-1]
            return [self.alloc(s, Cont(kind, c.elem, c.ne, cnt, exact), n)]
        if b == 'enumerate':
            nm = n.args[0].id if isinstance(n.args[0], ast.Name) else None
            return [(Enum(args[0], nm, args[1:] or kw), s)]
        if b == 'range':
            if len(args) == 1 and isinstance(args[0], Len):
                return [(Range(args[0].of, 0, args[0].off), s)]
            if len(args) == 2 and isinstance(args[0], Const) and isinstance(args[1], Len):
                return [(Range(args[1].of, args[0].v, args[1].off), s)]
            return [(Range(None, 0, 0), s)]
        if b == 'str' and isinstance(args[0], Str):
            return [(args[0], s)]
        if b == 'bool':
            return [(Const(t), s2) for t, s2 in self.truth(args[0], n.args[0], s)]
        if b in ('min', 'max', 'int', 'abs', 'ord', 'sum'):
            return [(Int(), s)]
        if b in ('any', 'all'):
            return [(Const(t), s2) for t, s2 in self.unsure(n, s)]
        if name in ('collections.OrderedDict.fromkeys', 'builtins.dict.fromkeys') and len(args) == 1:
            return self.ext(n, 'builtins.set', args, {}, s)
        raise Stop('call of %s' % name)

    def text(self, v):
        if not isinstance(v, Str):
            raise Stop('a string is expected')
        return v

    def pattern(self, v, s):
        if isinstance(v, Re):
            return v
        if isinstance(v, Str):
            return Re(self.raw(v, s), 0)
        raise Stop('pattern')

    def sub(self, n, p, r, x, s, flags, extra):
        if extra:
            raise Stop('re.sub with a count')
        p = self.pattern(p, s)
        fl = p.flags | (flags.v if flags is not None else 0)
        if isinstance(r, Str):
            try:
                return [(self.o.resub(self.text(x), p.pattern, fl, self.raw(r, s)), s)]
            except Unclear as e:
                raise Stop(str(e))
        raise Stop('replacement function')

    def match(self, n, how, p, x, xnode, s):
        p = self.pattern(p, s)
        x = self.text(x)
        if x.consts is not None:
            import re
            f = getattr(re, how)
            yes = [c for c in x.consts if f(p.pattern, c, p.flags)]
            no = [c for c in x.consts if c not in yes]
            out = []
            for cs, v in ((yes, Const(True)), (no, Const(None))):
                if cs:
                    s2 = s.bind(xnode.id, self.o.const(*cs)) if isinstance(xnode, ast.Name) and xnode.id in s.env else s
                    out.append((v, s2))
            return out
        return [(Const(True), s), (Const(None), s)]

    def length(self, n, v, s):
        if isinstance(v, Str) and v.consts is not None and len(set(len(c) for c in v.consts)) == 1:
            return [(Const(len(list(v.consts)[0])), s)]
        if isinstance(v, Const):
            return [(Const(len(v.v)), s)]
        if isinstance(n.args[0], ast.Name):
            return [(Len(n.args[0].id), s)]
        return [(Int(), s)]

    def singles(self, c):
        return c.elem is None or (isinstance(c.elem, Str) and c.elem.ne and not c.elem.rest)

    def collection(self, v, s):
        """abstract collection of the elements of a value"""
        if isinstance(v, Ref):
            return s.heap[v.i]
        if isinstance(v, Str):
            if v.consts is not None and len(v.consts) == 1:
                t = list(v.consts)[0]
                return Cont('list', self.o.onechar(t) if t else None, bool(t), v.cnt, tuple(self.o.const(c) for c in t))
            return Cont('list', self.o.onechar(v.chars) if v.chars else None, v.ne, v.cnt, None)
        if isinstance(v, Const) and isinstance(v.v, (list, tuple, frozenset, set, dict)):
            l = [self.const(x) for x in v.v]
            e, cnt = None, NONE
            for x in l:
                e = self.joinv(e, x) if e is not None else x
                cnt = plus(cnt, self.vcnt(x))
            return Cont('list', e, bool(l), cnt, tuple(l))
        if isinstance(v, Tup):
            e, cnt = None, NONE
            for x in v.items:
                e = self.joinv(e, x) if e is not None else x
                cnt = plus(cnt, self.vcnt(x))
            return Cont('list', e, bool(v.items), cnt, v.items)
        return None

    def method(self, n, f, args, kw, s):
        v, m = f.obj, f.name
        if isinstance(v, Re):
            if m == 'sub':
                return self.sub(n, v, args[0], args[1], s, None, args[2:])
            if m == 'split' and len(args) == 1:
                return self.ext(n, 're.split', [v] + args, {}, s)
            if m in ('match', 'search', 'fullmatch'):
                return self.match(n, m, v, args[0], n.args[0], s)
            raise Stop('pattern method %s' % m)
        if isinstance(v, Str):
            return self.strmeth(n, v, m, args, s, f.src)
        if isinstance(v, Const) and isinstance(v.v, dict):
            if m == 'get':
                d = args[1] if len(args) > 1 else Const(None)
                return self.lookup(n, v.v, args[0], n.args[0], s, d)
            if m in ('keys',):
                return [(Const(tuple(v.v)), s)]
            if m == 'items':
                return [(Const(tuple(v.v.items())), s)]
            if m == 'values':
                return [(Const(tuple(v.v.values())), s)]
        if isinstance(v, Ref):
            return self.contmeth(n, v, m, args, s)
        raise Stop('method %s' % m)

    def contmeth(self, n, v, m, args, s):
        c = s.heap[v.i]
        none = Const(None)
        if m in ('append', 'add', 'insert', 'appendleft', 'setdefault'):
            x = args[1] if m == 'insert' else args[0]
            k = self.vcnt(x)
            if c.kind == 'set':
                if self.singles(c) and isinstance(x, Str) and x.ne and not x.rest:
                    cnt = frozenset(max(a, b) for a in c.cnt for b in k)
                else:
                    cnt = c.cnt | plus(c.cnt, k)
            else:
                cnt = plus(c.cnt, k)
            ex = None
            if m == 'append' and c.exact is not None and isinstance(x, (Str, Const, Tup)) and (not isinstance(x, Str) or (x.consts is not None and len(x.consts) == 1)):
                ex = c.exact + (x,) if len(c.exact) < 40 else None
            return [(none, s.put(v, Cont(c.kind, self.joinv(c.elem, x) if c.elem is not None else x, True, cnt, ex)))]
        if m in ('extend', 'update'):
            d = self.collection(args[0], s)
            if d is None:
                raise Stop(m)
            if c.kind == 'set':
                cnt = frozenset(max(a, min(1, b)) for a in c.cnt for b in d.cnt) if self.singles(c) and self.singles(d) else N012
            else:
                cnt = plus(c.cnt, d.cnt)
            return [(none, s.put(v, Cont(c.kind, self.joinv(c.elem, d.elem), c.ne or d.ne, cnt, None)))]
        if m in ('sort', 'reverse'):
            return [(none, s.put(v, Cont(c.kind, c.elem, c.ne, c.cnt, None)))]
        if m in ('remove', 'discard', 'pop', 'popleft'):
            return [(c.elem if m.startswith('pop') and c.elem is not None else none, s.put(v, Cont(c.kind, c.elem, False, down(c.cnt), None)))]
        if m == 'clear':
            return [(none, s.put(v, Cont(c.kind)))]
        if m == 'copy':
            return [self.alloc(s, Cont(c.kind, c.elem, c.ne, c.cnt, c.exact), n)]
        if m in ('index', 'count'):
            return [(Int(), s)]
        raise Stop('method %s' % m)

    def strmeth(self, n, v, m, args, s, src):
        o = self.o
        try:
            if m in ('upper', 'lower', 'casefold', 'swapcase', 'title', 'capitalize'):
                return [(o.case(v, m), s)]
            if m == 'replace' and len(args) == 3 and isinstance(args[2], Const) and isinstance(args[2].v, int) and args[2].v > 0:
                if v.consts is not None or n.keywords:
                    raise Stop('replacement')
                return [(o.join(x, v), s2) for x, s2 in self.strmeth(n, v, m, args[:2], s, src)]
            if m == 'replace' and len(args) == 2:
                ps, rs = self.text(args[0]), self.text(args[1])
                if ps.consts is None or rs.consts is None or len(ps.consts) != 1 or len(rs.consts) != 1:
                    raise Stop('replacement')
                return [(o.replace(v, list(ps.consts)[0], list(rs.consts)[0]), s)]
            if m in ('strip', 'lstrip', 'rstrip'):
                return [(o.strip(v, self.raw(args[0], s) if args else None, m != 'rstrip', m != 'lstrip'), s)]
            if m == 'join':
                return [(self.joined(v, args[0], s), s)]
            if m == 'split':
                p = self.raw(args[0], s) if args else None
                import re
                return [self.alloc(s, Cont('list', o.pieces(v, re.escape(p) if p is not None else r'\s+', 0), p is not None, down(v.cnt), None), n)]
            if m == 'translate' and isinstance(args[0], Const) and isinstance(args[0].v, dict):
                r = v
                for k, x in args[0].v.items():
                    k = chr(k) if isinstance(k, int) else k
                    r = o.replace(r, k, '' if x is None else chr(x) if isinstance(x, int) else x)
                return [(r, s)]
            if m == 'format':
                raise Stop('format')
            if m in ('isalpha', 'isdigit', 'isalnum', 'isspace', 'isupper', 'islower', 'isdecimal', 'isascii'):
                return self.refine(src, v, lambda c: getattr(c, m)(), s)
            if m in ('startswith', 'endswith'):
                return [(Const(True), s), (Const(False), s)]
            if m in ('find', 'index', 'count', 'rfind'):
                return [(Int(), s)]
        except Unclear as e:
            raise Stop(str(e))
        raise Stop('method %s' % m)

    def refine(self, node, v, pred, s):
        out = []
        if v.consts is not None:
            for b in (True, False):
                cs = [c for c in v.consts if bool(pred(c)) == b]
                if cs:
                    out.append((Const(b), s.bind(node.id, self.o.const(*cs)) if isinstance(node, ast.Name) and node.id in s.env else s))
            return out
        return [(Const(True), s), (Const(False), s)]

    def joined(self, sep, v, s):
        c = self.collection(v, s)
        if c is None:
            raise Stop('join')
        if c.elem is None:
            return self.o.const('')
        e = c.elem
        if not isinstance(e, Str):
            raise Stop('join')
        if c.exact is not None and sep.consts is not None and len(sep.consts) == 1:
            return self.o.const(list(sep.consts)[0].join(self.raw(x, s) for x in c.exact))
        first = e.first if e.ne else e.chars | sep.chars
        rest = e.chars | sep.chars
        return self.o.norm(first, rest, c.ne and e.ne, c.cnt if not self.o.counts(sep.chars) else N012)

    # comprehensions -----------------------------------------------------------------------------------
    def ev_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def ev_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def ev_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list')

    def comp(self, n, st, kind):
        """as a loop filling a collection"""
        ref, s = self.alloc(st, Cont(kind), n)
        hidden = '__comp%d_%d' % (n.lineno, n.col_offset)
        s = s.bind(hidden, ref)
        saved = dict(st.env)
        body = ast.Expr(ast.Call(ast.Attribute(ast.Name(hidden, ast.Load()), 'append' if kind == 'list' else 'add', ast.Load()), [n.elt], []))
        for g in reversed(n.generators):
            inner = [body]
            for t in reversed(g.ifs):
                inner = [ast.If(t, inner, [])]
            body = ast.For(g.target, g.iter, inner, [])
        ast.copy_location(body, n)
        for x in ast.walk(body):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, n)
        out = []
        for k, s2, _ in self.block([body], [s]):
            if k != 'next':
                raise Stop('comprehension')
            env = dict((a, s2.env.get(a, b)) for a, b in saved.items())
            out.append((ref, State(env, s2.heap, s2.seen, s2.lossy)))
        return out

    # conditions ---------------------------------------------------------------------------------------
    def cond(self, n, st):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(not b, s) for b, s in self.cond(n.operand, st)]
        if isinstance(n, ast.BoolOp):
            out = [(None, st)]
            for v in n.values:
                nxt = []
                for b, s in out:
                    if b is not None and b != isinstance(n.op, ast.And):
                        nxt.append((b, s))
                    else:
                        nxt.extend(self.cond(v, s))
                out = nxt
            return out
        if isinstance(n, ast.Compare):
            if len(n.ops) != 1:
                items = [n.left] + n.comparators
                return self.cond(ast.copy_location(ast.BoolOp(ast.And(), [ast.copy_location(ast.Compare(a, [o], [b]), n) for a, o, b in zip(items, n.ops, items[1:])]), n), st)
            out = []
            for (a, b), s in self.evs([n.left, n.comparators[0]], st):
                out.extend(self.compare(n, n.ops[0], a, b, s))
            return out
        out = []
        for v, s in self.ev(n, st):
            out.extend(self.truth(v, n, s))
        return out

    def truth(self, v, n, s):
        if isinstance(v, Const):
            return [(bool(v.v), s)]
        if isinstance(v, Str):
            return self.emptiness(v, n, s)
        if isinstance(v, Ref):
            return self.emptiness(v, n, s)
        if isinstance(v, Tup):
            return [(bool(v.items), s)]
        if isinstance(v, Re):
            return [(True, s)]
        if isinstance(v, Int) and v.z is not None and (v.z[1] or v.z[0] > 0):
            return [(bool(v.z[0]), s)]
        return self.unsure(n, s)

    def unsure(self, n, s):
        """a test that the analysis cannot decide for a reason other than the text: both answers, or the one under examination"""
        k = (n.lineno, n.col_offset)
        self.vague.add(k)
        return [(b, s) for b in (True, False) if self.force.get(k, b) == b]

    def emptiness(self, v, n, s):
        """[(not empty?, state)]"""
        out = []
        name = n.id if isinstance(n, ast.Name) and n.id in s.env else None
        if isinstance(v, Str):
            if v.consts is not None:
                return [(x.v, y) for x, y in self.refine(n, v, bool, s)]
            if not v.empty:
                out.append((True, s.bind(name, Str(v.first, v.rest, True, v.cnt)) if name else s))
            if not v.ne:
                out.append((False, s.bind(name, self.o.const('')) if name else s))
            return out
        c = s.heap[v.i]
        if c.elem is not None:
            out.append((True, s.put(v, Cont(c.kind, c.elem, True, c.cnt, c.exact))))
        if not c.ne and 0 in c.cnt:
            out.append((False, s.put(v, Cont(c.kind))))
        return out

    def compare(self, n, op, a, b, s):
        both = [(True, s), (False, s)]
        unsure = lambda: self.unsure(n, s)
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if isinstance(b, Const) and b.v is None:
                if isinstance(a, Const):
                    return [((a.v is None) != neg, s)]
                if isinstance(a, Top):
                    return unsure()
                return [(neg, s)]
            return unsure()
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            return [(t != neg, s2) for t, s2 in self.member(n.left, a, b, s)]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            return [(t != neg, s2) for t, s2 in self.equal(n, a, b, s)]
        if isinstance(a, Str) and isinstance(b, Str):
            f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
            for x, y, nx, g in ((a, b, n.left, f), (b, a, n.comparators[0], lambda p, q: f(q, p))):
                if y.consts is not None and len(y.consts) == 1:
                    t = list(y.consts)[0]
                    if x.consts is not None:
                        return [(r.v, s2) for r, s2 in self.refine(nx, x, lambda c: g(c, t), s)]
                    if x.ne and x.first == frozenset([U]) and all(ord(c) < 128 for c in t):
                        return [(g('\x80', t), s)]
        # orders: lengths against small constants
        if isinstance(a, Const) and isinstance(b, Const):
            f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
            return [(f(a.v, b.v), s)]
        if isinstance(b, (Len, Int)) and isinstance(a, Const):
            flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(op)]()
            return self.compare(n, flip, b, a, s)
        if isinstance(a, Int) and a.z is not None and isinstance(b, Const) and isinstance(b.v, int):
            f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
            r = f(a.z[0], b.v)
            if a.z[1] or isinstance(op, (ast.Gt, ast.GtE)) and r or isinstance(op, (ast.Lt, ast.LtE)) and not r:
                return [(r, s)]
        if isinstance(a, Len) and isinstance(b, Const) and a.of in s.env:
            k = b.v - a.off
            v = s.env[a.of]
            node = ast.copy_location(ast.Name(a.of, ast.Load()), n)
            if (isinstance(op, ast.Gt) and k == 0) or (isinstance(op, ast.GtE) and k == 1):
                return self.emptiness(v, node, s)
            if (isinstance(op, ast.Lt) and k == 1) or (isinstance(op, ast.LtE) and k == 0):
                return [(not t, s2) for t, s2 in self.emptiness(v, node, s)]
            if isinstance(op, (ast.Gt, ast.GtE)) and k > 0:
                return [(True, s2) for t, s2 in self.emptiness(v, node, s) if t] + [(False, s)]
            if isinstance(op, (ast.Lt, ast.LtE)) and k > 0:
                return [(False, s2) for t, s2 in self.emptiness(v, node, s) if t] + [(True, s)]
        return unsure()

    def equal(self, n, a, b, s):
        both = [(True, s), (False, s)]
        for x, y, nx in ((a, b, n.left), (b, a, n.comparators[0])):
            if isinstance(x, Str) and x.consts is not None and isinstance(y, Str) and y.consts is not None and len(y.consts) == 1:
                t = list(y.consts)[0]
                return [(r.v, s2) for r, s2 in self.refine(nx, x, lambda c: c == t, s)]
            if isinstance(x, Int) and x.z is not None and isinstance(y, Const) and isinstance(y.v, int):
                if x.z[1]:
                    return [(y.v == x.z[0], s)]
                if y.v < x.z[0]:
                    return [(False, s)]
            if isinstance(x, Len) and isinstance(y, Const) and y.v - x.off == 0 and x.of in s.env:
                return [(not t, s2) for t, s2 in self.emptiness(s.env[x.of], ast.copy_location(ast.Name(x.of, ast.Load()), n), s)]
            if isinstance(x, Str) and isinstance(y, Str) and y.consts == frozenset(['']):
                return [(not t, s2) for t, s2 in self.emptiness(x, nx, s)]
        if isinstance(a, Const) and isinstance(b, Const):
            return [(a.v == b.v, s)]
        if isinstance(a, Str) and isinstance(b, Str):
            if a.consts is not None and b.consts is not None and not (a.consts & b.consts):
                return [(False, s)]
            if a.ne and b.ne and not (a.first & b.first):
                return [(False, s)]
            if (a.ne and b.empty) or (b.ne and a.empty):
                return [(False, s)]
            if isinstance(n.left, ast.Name) and a.consts is not None and b.consts is not None:
                return [(True, s.bind(n.left.id, self.o.const(*(a.consts & b.consts)))), (False, s)]
        elif isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
            return [(False, s)]
        if not (isinstance(a, Str) and isinstance(b, Str)):
            return self.unsure(n, s)
        return both

    def member(self, xn, x, c, s):
        """[(x in c, state)]"""
        if isinstance(c, Const) or (isinstance(c, Ref) and s.heap[c.i].exact is not None) or isinstance(c, Tup):
            try:
                vals = self.raw(c, s)
            except Stop:
                vals = None
            if vals is not None and isinstance(x, Str):
                vals = list(vals)
                if x.consts is not None:
                    return [(r.v, s2) for r, s2 in self.refine(xn, x, lambda t: t in vals, s)]
                if not any(isinstance(v, str) and (not v and not x.ne or v and set(v) <= set(x.chars) | (set(v) - set(chr(i) for i in range(128)) if U in x.chars else set())) for v in vals):
                    return [(False, s)]
                return [(True, s), (False, s)]
        if isinstance(c, Str) and isinstance(x, Str):
            if c.consts is not None and len(c.consts) == 1:
                t = list(c.consts)[0]
                if x.consts is not None:
                    return [(r.v, s2) for r, s2 in self.refine(xn, x, lambda y: y in t, s)]
                if x.ne and x.first == frozenset([U]) and all(ord(c) < 128 for c in t):
                    return [(False, s)]
                return [(True, s), (False, s)]
            if x.consts is not None and len(x.consts) == 1 and len(list(x.consts)[0]) == 1 and self.o.T(list(x.consts)[0]):
                t = list(x.consts)[0]
                low = [y for y in c.chars if self.o.T(y)]
                if low == [t]:
                    return [(True, s)] * (max(c.cnt) > 0) + [(False, s)] * (0 in c.cnt)
            if x.consts is not None and not any(set(y) <= c.chars | frozenset() for y in x.consts) and U not in c.chars:
                return [(False, s)]
            return [(True, s), (False, s)]
        if isinstance(c, Ref) and isinstance(x, Str):
            k = s.heap[c.i]
            if k.elem is None:
                return [(False, s)]
            e = k.elem
            if x.consts is not None and len(x.consts) == 1 and self.singles(k):
                t = list(x.consts)[0]
                if len(t) == 1 and self.o.T(t) and [y for y in e.chars if self.o.T(y)] in ([t], []):
                    out = []
                    if max(k.cnt) > 0:
                        out.append((True, s.put(c, Cont(k.kind, k.elem, True, k.cnt - NONE, None))))
                    if 0 in k.cnt:
                        out.append((False, s.put(c, Cont(k.kind, k.elem, k.ne, NONE, None))))
                    return out
            if isinstance(e, Str) and x.ne and e.ne and not (x.first & e.first):
                return [(False, s)]
            return [(True, s), (False, s)]
        if isinstance(x, Const) and x.v is None and (isinstance(c, (Str, Const, Tup, Ref))):
            try:
                return [(None in self.raw(c, s), s)]
            except (Stop, TypeError):
                pass
            if isinstance(c, Ref) and isinstance(s.heap[c.i].elem, Str):
                return [(False, s)]
        return self.unsure(xn, s)

    # statements ---------------------------------------------------------------------------------------
    def block(self, body, states):
        out = []
        cur = list(states)
        for stmt in body:
            nxt = []
            for s in cur:
                for kind, s2, v in self.stmt(stmt, s):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        out.append((kind, s2, v))
            cur = self.compact(nxt)
            if len(cur) > MAXSTATES:
                raise Stop('too many states')
            if not cur:
                break
        return [('next', s, None) for s in cur] + self.squash(out)

    def squash(self, out):
        d = {}
        for k, s, v in out:
            key = (k, self.sig(v, s) if v is not None else None, self.ssig(s))
            if key in d:
                d[key] = (k, self.merge(d[key][1], s), self.joinv(d[key][2], v) if v is not None else None)
            else:
                d[key] = (k, s, v)
        return list(d.values())

    def stmt(self, n, st):
        if isinstance(n, ast.Expr):
            v = n.value
            if isinstance(v, ast.Constant):
                return [('next', st, None)]
            if isinstance(v, ast.Yield):
                out = []
                for x, s in self.ev(v.value, st):
                    _, s2 = self.contmeth(n, s.env['__yield__'], 'append', [x], s)[0]
                    out.append(('next', s2, None))
                return out
            if isinstance(v, ast.YieldFrom):
                return [('next', s2, None) for x, s in self.ev(v.value, st) for _, s2 in self.contmeth(n, s.env['__yield__'], 'extend', [x], s)]
            return [('next', s, None) for _, s in self.ev(v, st)]
        if isinstance(n, ast.Assign):
            out = []
            for v, s in self.ev(n.value, st):
                for t in n.targets:
                    s = self.assign(t, v, s)
                out.append(('next', s, None))
            return out
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return [('next', st, None)]
            return [('next', self.assign(n.target, v, s), None) for v, s in self.ev(n.value, st)]
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            out = []
            for (a, b), s in self.evs([ast.copy_location(ast.Name(n.target.id, ast.Load()), n), n.value], st):
                if isinstance(a, Ref) and isinstance(n.op, ast.Add):
                    for _, s2 in self.contmeth(n, a, 'extend', [b], s):
                        out.append(('next', s2, None))
                    continue
                v, s2 = self.binop(n, a, b, s)
                out.append(('next', self.assign(n.target, v, s2), None))
            return out
        if isinstance(n, ast.If):
            out = []
            branches = {True: [], False: []}
            for b, s in self.cond(n.test, st):
                branches[b].append(s)
            for b, body in ((True, n.body), (False, n.orelse)):
                if branches[b]:
                    out.extend(self.block(body, self.compact(branches[b])))
            return out
        if isinstance(n, ast.For):
            return self.loop(n, st)
        if isinstance(n, ast.Return):
            if n.value is None:
                return [('ret', st, Const(None))]
            return [('ret', s, v) for v, s in self.ev(n.value, st)]
        if isinstance(n, ast.Pass):
            return [('next', st, None)]
        if isinstance(n, ast.Continue):
            return [('cont', st, None)]
        if isinstance(n, ast.Break):
            return [('brk', st, None)]
        if isinstance(n, ast.Raise):
            return [('raise', st, None)]
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Global, ast.Assert)):
            return [('next', st, None)]
        if isinstance(n, ast.FunctionDef):
            return [('next', st.bind(n.name, Fn(n, st.env['__mod__'])), None)]
        raise Stop('statement %s' % type(n).__name__)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            s = s.copy()
            s.env[t.id] = v
            for k, x in list(s.env.items()):
                if isinstance(x, Len) and x.of == t.id and x is not v:
                    s.env[k] = Int()
                elif isinstance(x, Int) and x.cur is not None and x.cur[0] == t.id:
                    s.env[k] = Int()
            return s
        if isinstance(t, (ast.Tuple, ast.List)):
            items = None
            if isinstance(v, Tup):
                items = v.items
            elif isinstance(v, Const) and isinstance(v.v, (tuple, list)):
                items = [self.const(x) for x in v.v]
            if items is None or len(items) != len(t.elts):
                raise Stop('unpacking')
            for a, b in zip(t.elts, items):
                s = self.assign(a, b, s)
            return s
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            c = s.env.get(t.value.id)
            if isinstance(c, Ref):
                k = s.heap[c.i]
                if k.kind == 'set':
                    return self.contmeth(t, c, 'add', [self.ev(t.slice, s)[0][0]], s)[0][1]
                return s.put(c, Cont(k.kind, self.joinv(k.elem, v), k.ne, k.cnt | plus(k.cnt, self.vcnt(v)) | NONE, None))
        raise Stop('assignment')

    def loop(self, n, st):
        out = []
        for src, s in self.ev(n.iter, st):
            out.extend(self.loopover(n, src, s))
        return out

    def loopover(self, n, src, s):
        key = (self.depth, n.lineno, n.col_offset)
        items, ne, must, name, exact = None, False, False, None, None
        first = rest = None
        once = False
        wrap = lambda c, z=None: c
        base = src
        if isinstance(src, Enum):
            base, name = src.src, src.name
            wrap = lambda c, z=None: Tup((Int((name, c) if name and isinstance(c, Str) else None, (0, True) if z else (1, False) if z is False else None) if not src.start else Int(), c))
        if isinstance(base, Range):
            v = s.env.get(base.of) if base.of else None
            if isinstance(v, Str) and base.off == 0 and base.lo in (0, 1):
                cs = v.chars if base.lo == 0 else v.rest
                items = [Int((base.of, c), (base.lo, False)) for c in self.split(cs)] if cs else []
                first, rest = [[(Int((base.of, c), z), self.o.counts(c.chars)) for c in self.split(q)] if q else [] for q, z in ((v.first if base.lo == 0 else v.rest, (base.lo, True)), (v.rest, (base.lo + 1, False)))]
                flags = [self.o.counts(c.chars) for c in self.split(cs)] if cs else []
                ne = v.ne and base.lo == 0
                once = max(v.cnt) <= 1
                must = min(v.cnt) > 0 and (base.lo == 0 or not self.o.counts(v.first))
            else:
                items, flags = [Int()], [False]
        else:
            c = self.collection(base, s)
            if c is None:
                raise Stop('iteration')
            if c.exact is not None and not (isinstance(base, Str) and base.consts is None):
                exact = c.exact
            elif isinstance(base, Str) or self.singles(c):
                cs = c.elem.chars if c.elem is not None else frozenset()
                l = self.split(cs) if cs else []
                items, flags = [wrap(x) for x in l], [self.o.counts(x.chars) for x in l]
                a, b = (base.first, base.rest) if isinstance(base, Str) and base.consts is None else (cs, cs)
                first, rest = [[(wrap(x, z), self.o.counts(x.chars)) for x in self.split(q)] if q else [] for q, z in ((a, True), (b, False))]
                ne = c.ne
                must = min(c.cnt) > 0
                once = max(c.cnt) <= 1
            else:
                self.coarse = True
                items, flags, ne = [wrap(c.elem)] if c.elem is not None else [], [False], c.ne
        out = []
        if exact is not None:
            cur = [s]
            ends = []
            for k, x in enumerate(exact):
                nxt = []
                for s1 in cur:
                    for kind, s2, v in self.block(n.body, [self.assign(n.target, wrap(x, k == 0), s1)]):
                        if kind in ('next', 'cont'):
                            nxt.append(s2)
                        elif kind == 'brk':
                            ends.append(s2)
                        else:
                            out.append((kind, s2, v))
                cur = self.compact(nxt)
            for s1 in cur:
                out.extend(self.block(n.orelse, [s1]) if n.orelse else [('next', s1, None)])
            out.extend(('next', e, None) for e in ends)
            return out
        start = s.copy()
        start.seen = s.seen - frozenset([(key, 'ran'), (key, 'x')])
        heads = {self.ssig(start): start}
        work = [self.ssig(start)]
        ends, rounds = [], 0
        while work:
            rounds += 1
            if rounds > 3000:
                raise Stop('no fixpoint')
            h = heads[work.pop()]
            some = zip(items, flags)
            if first is not None:
                some = rest if (key, 'ran') in h.seen else first
            for x, isx in some:
                if isx and once and (key, 'x') in h.seen:
                    continue
                s1 = self.assign(n.target, x, h)
                s1.seen = s1.seen | frozenset([(key, 'ran')] + [(key, 'x')] * isx)
                for kind, s2, v in self.block(n.body, [s1]):
                    if kind in ('next', 'cont'):
                        s2 = s2.copy()
                        for t in ast.walk(n.target):
                            if isinstance(t, ast.Name):
                                s2.env.pop(t.id, None)
                        k = self.ssig(s2)
                        if k not in heads:
                            heads[k] = s2
                            work.append(k)
                        else:
                            m = self.merge(heads[k], s2)
                            if m.env != heads[k].env or m.heap != heads[k].heap:
                                heads[k] = m
                                if k not in work:
                                    work.append(k)
                    elif kind == 'brk':
                        ends.append(s2)
                    else:
                        out.append((kind, s2, v))
        for h in heads.values():
            if must and (key, 'x') not in h.seen:
                continue
            if ne and (key, 'ran') not in h.seen:
                continue
            h = h.copy()
            h.seen = h.seen - frozenset([(key, 'ran'), (key, 'x')])
            out.extend(self.block(n.orelse, [h]) if n.orelse else [('next', h, None)])
        for e in ends:
            e = e.copy()
            e.seen = e.seen - frozenset([(key, 'ran'), (key, 'x')])
            out.append(('next', e, None))
        return self.squash(out)

    # entry --------------------------------------------------------------------------------------------
    def run(self, fn, args):
        """[(value, state)] for a function value and abstract arguments"""
        node = fn.node
        return self.apply(node, fn, args, {}, State({'__mod__': fn.mod}))
