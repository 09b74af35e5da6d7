"""Abstract interpretation of Cython functions: linear inequalities over integer variables (loop invariants from templates),
typestate of heap buffers, widths of characters.  Events go to `report(rule, verdict, node, text)`."""
import ast, time
from . import pyx
from .linear import Lin, sym, entails, infeasible

ALLOC = {'malloc': 0, 'PyMem_Malloc': 0, 'PyMem_RawMalloc': 0, 'calloc': 1, 'PyMem_Calloc': 1, 'realloc': 2, 'PyMem_Realloc': 2}
FREE = {'free', 'PyMem_Free', 'PyMem_RawFree'}
FOLD = {'lower', 'upper', 'casefold', 'swapcase', 'title', 'capitalize', 'encode'}
R_B = 'every access stays within its bounds'
R_F = 'every buffer is released exactly once on every way out'
R_W = 'characters are compared at full width'
UNK = ('?',)
CHAR = ('c',)
MAXP = 400


class TooMany(Exception):
    pass


class State(object):
    __slots__ = ('env', 'ty', 'cons', 'ptr', 'lossy')

    def __init__(self, env, ty, cons, ptr, lossy=()):
        self.env, self.ty, self.cons, self.ptr, self.lossy = env, ty, cons, ptr, lossy

    def copy(self):
        return State(dict(self.env), dict(self.ty), list(self.cons), dict(self.ptr), self.lossy)

    def having(self, *ls):
        s = self.copy()
        for l in ls:
            if l not in s.cons:
                s.cons.append(l)
        return s

    def dead(self):
        return infeasible(self.cons)


class Interp(object):
    def __init__(self, tree, report):
        self.funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.report_ = report
        self.mute = 0
        self.end = time.time() + 240
        self.n = 0
        self.depth = 0
        self.unknown = set()     # symbols standing for values the analysis does not follow
        self.where = {}          # buffer -> allocation node
        self.stats = dict(paths=0, loops=0, invariants=0, accesses=set(), allocs=set(), frees=set(), chars=set())

    def fresh(self, name, unk=False):
        self.n += 1
        s = '%s#%d' % (name, self.n)
        if unk:
            self.unknown.add(s)
        return s

    def report(self, rule, verdict, node, text):
        if not self.mute:
            self.report_(rule, verdict, node, text)

    # ------------------------------------------------------------------ functions
    def entry(self, name):
        f = self.funcs[name]
        st = State({}, {}, [], {})
        for a in f.args.args:
            t = a.annotation.value if isinstance(a.annotation, ast.Constant) else None
            st.ty[a.arg] = t
            st.env[a.arg] = self.opaque(a.arg, t, st, unk=False)
        self.rel = self.relevance(f)
        self.cur = f
        for k, s, v in self.block(f.body, st):
            self.stats['paths'] += 1
            if k in ('next', 'ret', 'raise'):
                self.leaving(s, v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], ast.AST) else f, escaping=v[0] if isinstance(v, tuple) and len(v) == 2 and k == 'ret' else None)

    def leaving(self, s, node, escaping=None):
        for p, x in s.ptr.items():
            if x[0] == 'live' and escaping != ('p', p):
                self.report(R_F, 'bad', node, 'the buffer allocated on line %d is not released on this way out' % self.where[p].lineno)

    def opaque(self, name, t, st, unk=True):
        if t in ('str', 'unicode', 'bytes'):
            l = self.fresh('len(%s)' % name)
            st.cons.append(sym(l).times(-1))
            return ('s', l)
        if t in pyx.INTS:
            s = self.fresh(name, unk)
            if t in pyx.UNSIGNED:
                st.cons.append(sym(s).times(-1))
            return ('n', sym(s))
        return UNK

    def relevance(self, f):
        """variables that indices, sizes and loop conditions depend on"""
        rel = set()
        names = lambda n: set(x.id for x in ast.walk(n) if isinstance(x, ast.Name))
        fs = [f] + [self.funcs[c.func.id] for c in ast.walk(f) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in self.funcs]
        for g in fs:
            for n in ast.walk(g):
                if isinstance(n, ast.Subscript):
                    rel |= names(n.slice)
                elif isinstance(n, ast.While):
                    rel |= names(n.test)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and (n.func.id in ALLOC or n.func.id == 'range'):
                    for a in n.args:
                        rel |= names(a)
        while True:
            more = set()
            for g in fs:
                for n in ast.walk(g):
                    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for t in ts:
                            tn = names(t) if isinstance(t, (ast.Name, ast.Tuple)) else set()
                            if tn & rel:
                                more |= names(n.value)
                    elif isinstance(n, ast.If) and (names(n.test) & rel):
                        # a variable compared with a relevant one guards it
                        if isinstance(n.test, ast.Compare) and not any(isinstance(x, ast.Subscript) for x in ast.walk(n.test)):
                            more |= names(n.test)
                    elif isinstance(n, ast.If) and any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in rel for b in n.body for x in ast.walk(b)):
                        if isinstance(n.test, ast.Compare) and not any(isinstance(x, ast.Subscript) for x in ast.walk(n.test)):
                            more |= names(n.test)
            if more <= rel:
                # flags that decide whether a loop goes on
                return rel | set(n.targets[0].id for g in fs for n in ast.walk(g) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant))
            rel |= more

    # ------------------------------------------------------------------ statements
    def block(self, body, st):
        live = [st]
        out = []
        for n in body:
            nxt = []
            for s in live:
                for k, s2, v in self.stmt(n, s):
                    if k == 'next':
                        nxt.append(s2)
                    else:
                        out.append((k, s2, v))
            live = nxt
            if len(live) + len(out) > MAXP or time.time() > self.end:
                raise TooMany()
        return out + [('next', s, None) for s in live]

    def stmt(self, n, st):
        f = getattr(self, 's_' + type(n).__name__, None)
        if f is None:
            if isinstance(n, (ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.FunctionDef)):
                return [('next', st, None)]
            st = st.copy()
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    st.env[x.id] = UNK
            st.lossy = st.lossy + ('line %d' % n.lineno,)
            return [('next', st, None)]
        return f(n, st)

    def s_Pass(self, n, st):
        return [('next', st, None)]

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [('next', st, None)]
        return [('next', s, None) for v, s in self.ev(n.value, st)]

    def s_Return(self, n, st):
        if n.value is None:
            return [('ret', st, (None, n))]
        return [('ret', s, (v, n)) for v, s in self.ev(n.value, st)]

    def s_Raise(self, n, st):
        return [('raise', st, (None, n))]

    def s_Assert(self, n, st):
        return [('next', s, None) for s in self.assume(n.test, st, True)] + [('raise', s, (None, n)) for s in self.assume(n.test, st, False)]

    def s_Break(self, n, st):
        return [('brk', st, None)]

    def s_Continue(self, n, st):
        return [('cont', st, None)]

    def s_If(self, n, st):
        out = []
        for s in self.assume(n.test, st, True):
            out += self.block(n.body, s)
        for s in self.assume(n.test, st, False):
            out += self.block(n.orelse, s)
        return out

    def s_With(self, n, st):
        return self.block(n.body, st)

    def s_Try(self, n, st):
        out = []
        for k, s, v in self.block(n.body, st):
            if k == 'raise' and n.handlers:
                for h in n.handlers:
                    out += self.block(h.body, s)
            elif k == 'next':
                out += self.block(n.orelse, s)
            else:
                out.append((k, s, v))
        if not n.finalbody:
            return out
        res = []
        for k, s, v in out:
            for k2, s2, v2 in self.block(n.finalbody, s):
                res.append((k, s2, v) if k2 == 'next' else (k2, s2, v2))
        return res

    def s_AnnAssign(self, n, st):
        t = n.annotation.value if isinstance(n.annotation, ast.Constant) else None
        if not isinstance(n.target, ast.Name):
            return [('next', st, None)]
        name = n.target.id
        if n.value is None:
            s = st.copy()
            s.ty[name] = t
            s.env[name] = ('u',) if t and t.endswith('*') else self.opaque(name, t, s)
            return [('next', s, None)]
        out = []
        for v, s in self.ev(n.value, st):
            s = s.copy()
            s.ty[name] = t
            out += [('next', x, None) for x in self.assign(n.target, v, s, n)]
        return out

    def s_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            ss = [s]
            for t in n.targets:
                ss = [x for y in ss for x in self.assign(t, v, y, n)]
            out += [('next', x, None) for x in ss]
        return out

    def s_AugAssign(self, n, st):
        load = ast.copy_location(self.reload(n.target), n.target)
        b = ast.copy_location(ast.BinOp(load, n.op, n.value), n)
        return [('next', x, None) for v, s in self.ev(b, st) for x in self.assign(n.target, v, s, n)]

    def reload(self, t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def assign(self, t, v, s, node):
        if isinstance(t, ast.Name):
            s = s.copy()
            ty = s.ty.get(t.id)
            v = self.convert(v, ty, s, t.id, node)
            if isinstance(v, tuple) and v[0] == 'p' and ty and ty.endswith('*'):
                pass
            s.env[t.id] = v
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v[0] == 't' and len(v[1]) == len(t.elts) else [UNK] * len(t.elts)
            ss = [s]
            for a, b in zip(t.elts, vs):
                ss = [x for y in ss for x in self.assign(a, b, y, node)]
            return ss
        if isinstance(t, ast.Subscript):
            out = []
            for _, s2 in self.ev(ast.copy_location(self.reload(t), t), s):
                ty = self.elem_type(t.value, s2)
                if v == CHAR and ty:
                    self.width(ty, node)
                out.append(s2)
            return out
        return [s]

    def elem_type(self, n, st):
        if isinstance(n, ast.Name):
            ty = st.ty.get(n.id) or ''
            if ty.endswith('[]'):
                return ty[:-2]
            if ty.endswith('*'):
                return ty[:-1].strip()
        return None

    def width(self, ty, node):
        b = pyx.BITS.get(ty)
        self.stats['chars'].add((node.lineno, node.col_offset))
        if b is not None and b < 21 and ty != 'bint':
            self.report(R_W, 'bad', node, 'a character is stored in the %d bits of %s' % (b, ty))

    def convert(self, v, ty, s, name, node):
        """the value as stored in a variable of the C type"""
        if ty is None:
            return v
        if v == CHAR:
            self.width(ty, node)
            return v
        if ty in pyx.INTS and v[0] == 'n':
            if ty in pyx.UNSIGNED and not v[1].const and not entails(s.cons, v[1].times(-1)):
                # may wrap
                x = self.fresh(name, True)
                s.cons.append(sym(x).times(-1))
                return ('n', sym(x))
            return v
        if ty in pyx.INTS and v[0] in ('?', 'b'):
            return self.opaque(name, ty, s)
        if ty == 'bint' and v[0] == 'n':
            return v
        return v

    # ------------------------------------------------------------------ loops
    def modified(self, body):
        out = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
        return out

    def s_While(self, n, st):
        return self.loop(n, st, lambda s, p: self.assume(n.test, s, p), n.body, n.orelse, [n.test])

    def s_For(self, n, st):
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and 1 <= len(it.args) <= 3 and isinstance(n.target, ast.Name):
            out = []
            sts = [([], st)]
            for a in it.args:
                sts = [(vs + [v], s2) for vs, s in sts for v, s2 in self.ev(a, s)]
            for vs, s in sts:
                if any(v[0] != 'n' for v in vs):
                    out += self.blind(n, s)
                    continue
                ls = [v[1] for v in vs]
                lo, hi = (Lin(0), ls[0]) if len(ls) == 1 else ls[:2]
                step = ls[2] if len(ls) == 3 else Lin(1)
                if not step.const or step.c == 0:
                    out += self.blind(n, s)
                    continue
                # a hidden counter drives the loop
                c = '.%s@%d' % (n.target.id, n.lineno)
                s = s.copy()
                s.env[c] = ('n', lo)
                s.ty[c] = 'long'
                k = step.c

                def cond(x, pos, c=c, hi=hi, k=k):
                    v = x.env[c][1]
                    l = v - hi if k > 0 else hi - v        # < 0
                    x = x.having(l.plus(1) if pos else l.times(-1))
                    return [] if x.dead() else [x]
                pre = ast.copy_location(ast.Assign([ast.copy_location(ast.Name(n.target.id, ast.Store()), n)], ast.copy_location(ast.Name(c, ast.Load()), n)), n)
                post = ast.copy_location(ast.Assign([ast.copy_location(ast.Name(c, ast.Store()), n)], ast.copy_location(
                    ast.BinOp(ast.copy_location(ast.Name(c, ast.Load()), n), ast.Add(), ast.copy_location(ast.Constant(k), n)), n)), n)
                self.rel = self.rel | {c}
                out += self.loop(n, s, cond, [pre] + n.body, n.orelse, [], post=[post], bounds=[hi])
            return out
        return self.blind(n, st)

    def blind(self, n, st):
        """iteration over something else"""
        out = []
        for v, s in self.ev(n.iter, st):
            def cond(x, pos, v=v):
                x = x.copy()
                if pos:
                    tg = n.target
                    if v[0] == 's' and isinstance(tg, ast.Name):
                        x.env[tg.id] = CHAR
                    elif v[0] == 'enum' and isinstance(tg, ast.Tuple) and len(tg.elts) == 2 and all(isinstance(e, ast.Name) for e in tg.elts):
                        i = self.fresh(tg.elts[0].id)
                        x.cons += [sym(i).times(-1), (sym(i) - sym(v[1])).plus(1)]
                        x.env[tg.elts[0].id] = ('n', sym(i))
                        x.env[tg.elts[1].id] = CHAR
                        return [] if x.dead() else [x]
                    else:
                        for e in ast.walk(tg):
                            if isinstance(e, ast.Name):
                                x.env[e.id] = self.opaque(e.id, x.ty.get(e.id), x)
                return [x]
            out += self.loop(n, s, cond, n.body, n.orelse, [])
        return out

    def loop(self, n, st, cond, body, orelse, tests, post=(), bounds=()):
        mod = self.modified(list(body) + list(post) + [ast.Expr(t) for t in tests])
        entry = st
        # variables to follow
        follow = [v for v in sorted(mod) if v in self.rel and entry.env.get(v, UNK)[0] == 'n']
        head = entry.copy()
        hs = {}
        for v in mod:
            val = entry.env.get(v)
            ty = entry.ty.get(v)
            if val is None:
                continue
            if val[0] == 'n' and v in follow:
                x = self.fresh(v)
                hs[v] = sym(x)
                head.env[v] = ('n', sym(x))
                if ty in pyx.UNSIGNED:
                    head.cons.append(sym(x).times(-1))
            elif val[0] == 'n' or ty in pyx.INTS:
                head.env[v] = self.opaque(v, ty or 'long', head)
            elif val[0] == 's':
                head.env[v] = self.opaque(v, 'str', head)
                self.unknown.add(head.env[v][1])
            elif val[0] == 'p':
                pass
            elif val[0] in ('c', 'u'):
                pass
            else:
                head.env[v] = UNK
        cands = self.candidates(entry, hs, mod, tests, bounds)
        cands = [c for c, c0 in cands if entails(entry.cons, c0)]
        # an exact copy of entry facts is already in head (they are about entry symbols)
        self.mute += 1
        try:
            while True:
                h = head.having(*self.thin(cands, head.cons))
                drop = set()
                for s in self.iteration(h, cond, body, post):
                    sub = {list(hs[v].m)[0]: s.env[v][1] if s.env.get(v, UNK)[0] == 'n' else None for v in hs}
                    for c in cands:
                        if c in drop:
                            continue
                        c2 = self.subst(c, sub)
                        if c2 is None or not entails(s.cons, c2):
                            drop.add(c)
                if not drop:
                    break
                cands = [c for c in cands if c not in drop]
        finally:
            self.mute -= 1
        if not self.mute:
            self.stats['loops'] += 1
            self.stats['invariants'] += len(cands)
        cands = self.thin(cands, head.cons)
        h = head.having(*cands)
        out = []
        seen = []
        work = [h]
        rounds = 0
        while work and rounds < 6:
            hh = work.pop()
            rounds += 1
            seen.append(self.pstate(hh))
            for s in cond(hh, True):
                for k, s2, v in self.block(body, s):
                    if k in ('next', 'cont'):
                        for k3, s3, v3 in self.block(list(post), s2):
                            new = [p for p in s3.ptr if p not in hh.ptr and s3.ptr[p][0] == 'live']
                            for p in new:
                                self.report(R_F, 'bad', self.where[p], 'the buffer allocated in the loop is not released before the next iteration')
                            ps = self.pstate(s3, hh)
                            if ps not in seen and not new:
                                h2 = hh.copy()
                                h2.ptr.update({p: x for p, x in s3.ptr.items() if p in hh.ptr})
                                seen.append(ps)
                                work.append(h2)
                    elif k == 'brk':
                        out.append(('next', s2, None))
                    else:
                        out.append((k, s2, v))
            for s in cond(hh, False):
                out += self.block(orelse, s) if orelse else [('next', s, None)]
        return out

    def thin(self, cands, cons):
        """an equivalent, smaller set"""
        cands = sorted(cands, key=lambda c: (-len(c.m), repr(c)))
        keep = list(cands)
        for c in cands:
            rest = [x for x in keep if x is not c]
            if entails(cons + rest, c):
                keep = rest
        return keep

    def pstate(self, s, only=None):
        return tuple(sorted((p, x[0]) for p, x in s.ptr.items() if only is None or p in only.ptr))

    def iteration(self, h, cond, body, post):
        out = []
        for s in cond(h, True):
            for k, s2, v in self.block(body, s):
                if k in ('next', 'cont'):
                    out += [s3 for k3, s3, v3 in self.block(list(post), s2)]
        return out

    def subst(self, c, sub):
        r = Lin(c.c)
        for k, v in c.m.items():
            if k in sub:
                if sub[k] is None:
                    return None
                r = r + sub[k].times(v)
            else:
                r = r + Lin(0, {k: v})
        return r

    def candidates(self, entry, hs, mod, tests, bounds):
        """(inequality over head symbols, the same over the values at entry)"""
        out = []
        ent = {v: entry.env[v][1] for v in hs}
        exprs = [Lin(0)] + list(bounds)
        for v, val in entry.env.items():
            if v in mod or v not in self.rel and not v.startswith('.'):
                if val[0] == 's':
                    exprs.append(sym(val[1]))
                continue
            if val[0] == 'n':
                exprs.append(val[1])
            elif val[0] == 's':
                exprs.append(sym(val[1]))
        for x in entry.ptr.values():
            if x[1] is not None and x[2]:
                q = x[1]
                if all(k % x[2] == 0 for k in q.m.values()) and q.c % x[2] == 0:
                    exprs.append(Lin(q.c // x[2], {k: v // x[2] for k, v in q.m.items()}))
        uniq = []
        for e in exprs:
            if e not in uniq:
                uniq.append(e)
        exprs = uniq

        def both(l, l0):
            out.append((l, l0))
        vs = sorted(hs)
        for v in vs:
            s, e = hs[v], ent[v]
            for x in exprs + [e]:
                for d in (-1, 0, 1):
                    both((s - x).plus(d), (e - x).plus(d))
                    both((x - s).plus(d), (x - e).plus(d))
        for i, v in enumerate(vs):
            for w in vs:
                if v == w:
                    continue
                a, b = hs[v] - hs[w], ent[v] - ent[w]
                for d in (-1, 0, 1):
                    both(a.plus(d), b.plus(d))
                both(a - b, Lin(0))
                if v < w:
                    a, b = hs[v] + hs[w], ent[v] + ent[w]
                    both(a - b, Lin(0))
                    both(b - a, Lin(0))
                    for x in exprs:
                        both((a - x), (b - x))
                        both((a - x).plus(1), (b - x).plus(1))
                for x in exprs:
                    if not x.const:
                        # v <= w + x
                        a, b = hs[v] - hs[w] - x, ent[v] - ent[w] - x
                        both(a, b)
                        both(a.plus(1), b.plus(1))
                        both(a.times(-1), b.times(-1))
                for u in vs:
                    if u in (v, w) or u < w:
                        continue
                    a, b = hs[v] - hs[w] - hs[u], ent[v] - ent[w] - ent[u]
                    both(a - b, Lin(0))
                    both(b - a, Lin(0))
        seen, res = set(), []
        for a, b in out:
            if a not in seen and not a.const:
                seen.add(a)
                res.append((a, b))
        return res

    # ------------------------------------------------------------------ conditions
    def assume(self, t, st, pos):
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == pos
            if conj:
                ss = [st]
                for v in t.values:
                    ss = [y for x in ss for y in self.assume(v, x, pos)]
                return ss
            out, ss = [], [st]
            for v in t.values:
                out += [y for x in ss for y in self.assume(v, x, pos)]
                ss = [y for x in ss for y in self.assume(v, x, not pos)]
            return out
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, st, not pos)
        if isinstance(t, ast.Compare):
            if len(t.ops) > 1:
                parts = []
                l = t.left
                for o, r in zip(t.ops, t.comparators):
                    parts.append(ast.copy_location(ast.Compare(l, [o], [r]), t))
                    l = r
                return self.assume(ast.copy_location(ast.BoolOp(ast.And(), parts), t), st, pos)
            out = []
            for a, s in self.ev(t.left, st):
                for b, s2 in self.ev(t.comparators[0], s):
                    out += self.compare(t, t.ops[0], a, b, s2, pos)
            return out
        if isinstance(t, ast.Constant):
            return [st] if bool(t.value) == pos else []
        out = []
        for v, s in self.ev(t, st):
            if v[0] == 'n':
                out += self.compare(t, ast.NotEq(), v, ('n', Lin(0)), s, pos)
            elif v[0] == 'p':
                out += self.nullness(v, s, not pos)
            elif v[0] == 's':
                l = sym(v[1])
                s = s.having(l.times(-1).plus(1)) if pos else s.having(l)
                out += [] if s.dead() else [s]
            elif v[0] == 'b' and v[1] is not None:
                out += self.assume(v[1], s, pos) if v[2] is None else [x for x in self.facts(v, s, pos)]
            else:
                out.append(s)
        return out

    def facts(self, v, s, pos):
        out = []
        for alt in (v[2] if pos else v[3]):
            x = s.having(*alt)
            if not x.dead():
                out.append(x)
        return out

    def nullness(self, v, s, null):
        p = v[1]
        st = s.ptr.get(p)
        if st is None:
            return [s]
        if null:
            if st[0] != 'live' or st[3]:
                return []
            s = s.copy()
            s.ptr[p] = ('null',) + st[1:]
            return [s]
        if st[0] == 'null':
            return []
        s = s.copy()
        s.ptr[p] = st[:3] + (True,)
        return [s]

    def compare(self, node, op, a, b, s, pos):
        null = ('null',)
        if null in (a, b):
            o = b if a == null else a
            if o[0] == 'p':
                is_ = isinstance(op, (ast.Is, ast.Eq)) == pos
                return self.nullness(o, s, is_)
            return [s]
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a == CHAR and b == CHAR:
                self.report(R_W, 'bad', node, 'characters are compared by identity')
            return [s]
        if a[0] == 'n' and b[0] == 'n':
            l = a[1] - b[1]
            alts = {ast.Lt: [[l.plus(1)]], ast.LtE: [[l]], ast.Gt: [[l.times(-1).plus(1)]], ast.GtE: [[l.times(-1)]], ast.Eq: [[l, l.times(-1)]],
                    ast.NotEq: [[l.plus(1)], [l.times(-1).plus(1)]]}
            neg = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
            o = type(op)
            if o not in alts:
                return [s]
            out = []
            for alt in alts[o if pos else neg[o]]:
                x = s.having(*alt)
                if not x.dead():
                    out.append(x)
            return out
        if a == CHAR or b == CHAR:
            self.stats['chars'].add((node.lineno, node.col_offset))
        return [s]

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        f = getattr(self, 'e_' + type(n).__name__, None)
        if f is None:
            out = [(UNK, st)]
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    out = [(UNK, s2) for v, s in out for v2, s2 in self.ev(c, s)]
            return out
        return f(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool):
            return [(('n', Lin(int(v))), st)]
        if isinstance(v, int):
            return [(('n', Lin(v)), st)]
        if isinstance(v, str) and len(v) == 1:
            return [(CHAR, st)]
        return [(UNK, st)]

    def e_Name(self, n, st):
        if n.id == 'NULL':
            return [(('null',), st)]
        v = st.env.get(n.id, UNK)
        return [(v, st)]

    def e_Tuple(self, n, st):
        out = [([], st)]
        for e in n.elts:
            out = [(vs + [v], s2) for vs, s in out for v, s2 in self.ev(e, s)]
        return [(('t', vs), s) for vs, s in out]

    def e_IfExp(self, n, st):
        out = []
        for p, e in ((True, n.body), (False, n.orelse)):
            for s in self.assume(n.test, st, p):
                out += self.ev(e, s)
        return out

    def e_Compare(self, n, st):
        return self.boolean(n, st)

    def e_BoolOp(self, n, st):
        return self.boolean(n, st)

    def boolean(self, n, st):
        """a condition kept as a value: the linear facts it stands for, when it has no other content"""
        pos, neg = self.assume(n, st, True), self.assume(n, st, False)
        d = lambda ss: [[c for c in s.cons if c not in st.cons] for s in ss]
        lin = all(isinstance(x, (ast.Compare, ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.cmpop, ast.expr_context, ast.BoolOp, ast.boolop)) for x in ast.walk(n))
        if lin:
            return [(('b', n, d(pos), d(neg)), st)]
        return [(('b', None, None, None), s) for s in (pos + neg)[:1] or [st]]

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return self.boolean(n, st)
        out = []
        for v, s in self.ev(n.operand, st):
            if v[0] == 'n' and isinstance(n.op, ast.USub):
                out.append((('n', v[1].times(-1)), s))
            else:
                out.append((v if isinstance(n.op, ast.UAdd) else UNK, s))
        return out

    def e_BinOp(self, n, st):
        if isinstance(n.op, ast.MatMult):
            return self.cast(n, st)
        out = []
        for a, s in self.ev(n.left, st):
            for b, s2 in self.ev(n.right, s):
                out.append((self.arith(n, a, b, s2), s2))
        return out

    def arith(self, n, a, b, s):
        op = n.op
        if CHAR in (a, b) and isinstance(op, (ast.BitAnd, ast.Mod, ast.RShift, ast.FloorDiv)):
            o = b if a == CHAR else a
            if isinstance(op, ast.BitAnd) and o[0] == 'n' and o[1].const and o[1].c & 0x1fffff == 0x1fffff:
                return CHAR
            self.report(R_W, 'bad', n, 'a character loses bits before it is compared')
            return CHAR
        if a[0] == 'n' and b[0] == 'n':
            if isinstance(op, ast.Add):
                return ('n', a[1] + b[1])
            if isinstance(op, ast.Sub):
                return ('n', a[1] - b[1])
            if isinstance(op, ast.Mult) and (a[1].const or b[1].const):
                return ('n', a[1].times(b[1].c) if b[1].const else b[1].times(a[1].c))
            if isinstance(op, (ast.FloorDiv, ast.RShift)) and b[1].const and b[1].c > 0:
                k = b[1].c if isinstance(op, ast.FloorDiv) else 2 ** b[1].c
                x = sym(self.fresh('quotient'))
                # k*x <= a <= k*x + k - 1
                s.cons += [x.times(k) - a[1], (a[1] - x.times(k)).plus(-(k - 1))]
                return ('n', x)
        x = self.fresh('value', True)
        return ('n', sym(x)) if a[0] in 'n' and b[0] in 'n' else UNK

    def cast(self, n, st):
        l = n.left
        if not (isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == '__cast__'):
            return [(UNK, st)]
        ty = l.args[0].value
        out = []
        for v, s in self.ev(n.right, st):
            if v == CHAR:
                self.width(ty, n)
            elif v[0] == 'n' and ty in pyx.INTS:
                s = s.copy()
                v = self.convert(v, ty, s, 'cast', n)
            elif v[0] == 'p' and ty.endswith('*') and s.ptr.get(v[1]):
                s = s.copy()
                p = s.ptr[v[1]]
                s.ptr[v[1]] = (p[0], p[1], pyx.BITS.get(ty[:-1].strip(), 0) // 8, p[3])
            out.append((v, s))
        return out

    def e_Subscript(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            if isinstance(n.slice, ast.Slice):
                sts = [s]
                for b in (n.slice.lower, n.slice.upper, n.slice.step):
                    if b is not None:
                        sts = [y for x in sts for _, y in self.ev(b, x)]
                for x in sts:
                    if v[0] == 's':
                        x = x.copy()
                        l = self.fresh('len(slice)')
                        x.cons += [sym(l).times(-1), sym(l) - sym(v[1])]
                        out.append((self.slice(n.slice, v, l, x), x))
                    else:
                        out.append((UNK, x))
                continue
            for i, s2 in self.ev(n.slice, s):
                out.append((self.access(n, v, i, s2), s2))
        return out

    def slice(self, sl, v, l, x):
        # exact length when the bounds are known to be in order
        lo = self.ev(sl.lower, x)[0][0] if sl.lower is not None else ('n', Lin(0))
        hi = self.ev(sl.upper, x)[0][0] if sl.upper is not None else ('n', sym(v[1]))
        if lo[0] == hi[0] == 'n' and sl.step is None and entails(x.cons, lo[1].times(-1)) and entails(x.cons, lo[1] - hi[1]) and entails(x.cons, hi[1] - sym(v[1])):
            d = sym(l) - (hi[1] - lo[1])
            x.cons += [d, d.times(-1)]
        elif self.unknown & set(k for c in (lo, hi) if c[0] == 'n' for k in c[1].m):
            self.unknown.add(l)
        return ('s', l)

    def access(self, n, v, i, s):
        what = ast.unparse(n) if hasattr(ast, 'unparse') else 'access'
        if v[0] == 's':
            if i[0] != 'n':
                self.report(R_B, 'unk', n, '%s: index not followed' % what)
                return CHAR
            l = i[1]
            if l.const and l.c < 0:
                goals = [sym(v[1]).times(-1).plus(-l.c)]
            else:
                goals = [l.times(-1), (l - sym(v[1])).plus(1)]
            self.goal(n, what, goals, s, 'the length of the string')
            return CHAR
        if v[0] == 'p':
            p = s.ptr.get(v[1])
            if p is None:
                return UNK
            if p[0] == 'freed':
                self.report(R_F, 'bad', n, '%s is used after the buffer was released' % what)
            elif p[0] == 'null':
                self.report(R_B, 'bad', n, '%s: the buffer is NULL here' % what)
            ty = self.elem_type(n.value, s)
            size = pyx.BITS.get(ty, 0) // 8 or p[2]
            if p[1] is None or not size or i[0] != 'n':
                self.report(R_B, 'unk', n, '%s: size or index not followed' % what)
            else:
                self.goal(n, what, [i[1].times(-1), i[1].times(size).plus(size) - p[1]], s, 'the size of the buffer allocated on line %d' % self.where[v[1]].lineno)
            if ty in ('Py_UCS4', 'Py_UNICODE', 'wchar_t'):
                return CHAR
            x = self.fresh('element', True)
            if ty in pyx.UNSIGNED:
                s.cons.append(sym(x).times(-1))
            return ('n', sym(x))
        if v[0] == 'u':
            self.report(R_B, 'bad', n, '%s: the pointer was never set' % what)
        return UNK

    def goal(self, n, what, goals, s, of):
        if not self.mute:
            self.stats['accesses'].add((n.lineno, n.col_offset))
        for k, g in enumerate(goals):
            if entails(s.cons, g):
                continue
            if s.dead():
                continue
            vague = s.lossy or self.unknown & set(g.m)
            side = 'below 0' if k == 0 and len(goals) == 2 else 'beyond ' + of
            self.report(R_B, 'unk' if vague else 'bad', n, '%s can read %s (needs %r <= 0)' % (what, side, g))
            return
        self.report(R_B, 'ok', n, what)

    def e_Call(self, n, st):
        f = n.func
        name = f.id if isinstance(f, ast.Name) else None
        if isinstance(f, ast.Attribute):
            out = []
            for v, s in self.ev(f.value, st):
                if v[0] == 's' and f.attr in FOLD and self.whole(f.value, s):
                    self.report(R_W, 'bad', n, 'the strings are folded by %s() before they are compared' % f.attr)
                sts = [s]
                for a in n.args:
                    sts = [y for x in sts for _, y in self.ev(a, x)]
                for x in sts:
                    x = x.copy()
                    if v[0] == 's' and f.attr in ('lower', 'upper', 'casefold', 'strip', 'replace', 'encode'):
                        r = self.opaque('text', 'str', x)
                        self.unknown.add(r[1])
                        out.append((r, x))
                    else:
                        out.append((UNK, x))
            return out
        args = [([], st)]
        for a in n.args:
            if isinstance(a, ast.Starred):
                a = a.value
            args = [(vs + [v], s2) for vs, s in args for v, s2 in self.ev(a, s)]
        for k in n.keywords:
            args = [(vs, s2) for vs, s in args for v, s2 in self.ev(k.value, s)]
        out = []
        for vs, s in args:
            out += self.call(n, name, vs, s)
        return out

    def whole(self, n, s):
        return isinstance(n, ast.Name)

    def call(self, n, name, vs, s):
        if name == 'len' and len(vs) == 1:
            if vs[0][0] == 's':
                return [(('n', sym(vs[0][1])), s)]
            x = self.fresh('len', True)
            return [(('n', sym(x)), s.having(sym(x).times(-1)))]
        if name == 'ord' and len(vs) == 1:
            return [(CHAR if vs[0] == CHAR else UNK, s)]
        if name == 'sizeof' and n.args and isinstance(n.args[0], ast.Constant):
            ty = n.args[0].value
            b = 64 if ty.endswith('*') else pyx.BITS.get(ty)
            return [(('n', Lin(b // 8)) if b else UNK, s)]
        if name in ALLOC:
            return self.alloc(n, name, vs, s)
        if name == '__array__':
            s = s.copy()
            p = self.fresh('array')
            self.where[p] = n
            s.ptr[p] = ('stack', None, 0, True)
            return [(('p', p), s)]
        if name in FREE and len(vs) == 1:
            if not self.mute:
                self.stats['frees'].add((n.lineno, n.col_offset))
            v = vs[0]
            if v[0] == 'p' and v[1] in s.ptr:
                p = s.ptr[v[1]]
                if p[0] == 'freed':
                    self.report(R_F, 'bad', n, 'the buffer allocated on line %d is released twice' % self.where[v[1]].lineno)
                elif p[0] == 'live':
                    s = s.copy()
                    s.ptr[v[1]] = ('freed',) + p[1:]
                    self.report(R_F, 'ok', n, 'release of the buffer of line %d' % self.where[v[1]].lineno)
            elif v[0] == 'u':
                self.report(R_F, 'bad', n, 'a pointer that was never set is released')
            return [(UNK, s)]
        if name in ('min', 'max') and len(vs) == 2 and all(v[0] == 'n' for v in vs):
            a, b = vs[0][1], vs[1][1]
            out = []
            for x, c in ((a, a - b), (b, b - a)):
                s2 = s.having(c if name == 'min' else c.times(-1))
                if not s2.dead():
                    out.append((('n', x), s2))
            return out
        if name == 'enumerate' and len(vs) == 1 and vs[0][0] == 's':
            return [(('enum', vs[0][1]), s)]
        if name in self.funcs and self.depth < 4:
            return self.inline(n, self.funcs[name], vs, s)
        if any(v[0] == 'p' for v in vs):
            # a foreign function gets the buffer: it may release it
            s = s.copy()
            for v in vs:
                if v[0] == 'p' and v[1] in s.ptr and name not in ('memset', 'memcpy', 'memmove', 'print', 'bool'):
                    s.ptr.pop(v[1])
        return [(UNK, s)]

    def inline(self, n, f, vs, s):
        if len(vs) > len(f.args.args) or f is self.cur:
            return [(UNK, s)]
        fr = State({}, {}, list(s.cons), dict(s.ptr), s.lossy)
        d = len(f.args.args) - len(f.args.defaults)
        for i, a in enumerate(f.args.args):
            t = a.annotation.value if isinstance(a.annotation, ast.Constant) else None
            fr.ty[a.arg] = t
            if i < len(vs):
                fr.env[a.arg] = self.convert(vs[i], t, fr, a.arg, n)
            else:
                fr.env[a.arg] = self.ev(f.args.defaults[i - d], fr)[0][0] if i >= d else UNK
        self.depth += 1
        try:
            res = self.block(f.body, fr)
        finally:
            self.depth -= 1
        out = []
        for k, r, v in res:
            st = State(dict(s.env), dict(s.ty), r.cons, r.ptr, r.lossy)
            if k == 'ret':
                val = v[0] if isinstance(v, tuple) and v[0] is not None else UNK
                if f.returns is not None and isinstance(f.returns, ast.Constant):
                    val = self.convert(val, f.returns.value, st, f.name, n)
                out.append((val, st))
            elif k == 'next':
                out.append((UNK, st))
            elif k == 'raise':
                self.leaving(st, v[1])
        return out

    def alloc(self, n, name, vs, s):
        if not self.mute:
            self.stats['allocs'].add((n.lineno, n.col_offset))
        kind = ALLOC[name]
        size = None
        if kind == 0 and vs and vs[0][0] == 'n':
            size = vs[0][1]
        elif kind == 1 and len(vs) == 2 and all(v[0] == 'n' for v in vs) and (vs[0][1].const or vs[1][1].const):
            a, b = vs[0][1], vs[1][1]
            size = a.times(b.c) if b.const else b.times(a.c)
        elif kind == 2 and len(vs) == 2:
            if vs[0][0] == 'p' and vs[0][1] in s.ptr:
                s = s.copy()
                s.ptr.pop(vs[0][1])
            size = vs[1][1] if vs[1][0] == 'n' else None
        if size is not None and self.unknown & set(size.m):
            size = None
        s = s.copy()
        p = self.fresh('buffer')
        self.where[p] = n
        s.ptr[p] = ('live', size, 0, False)
        return [(('p', p), s)]
