"""Backward liveness of local variables over the syntax tree (live sets at loop heads)."""
import ast

_C = {}


def loop_live(fn, loop, name):
    r = _C.get(fn)
    if r is None:
        r = _C[fn] = Live(fn)
    if name in r.always:
        return True
    h = r.heads.get(loop)
    if h is None:
        return True
    return name in h


class Live(object):
    def __init__(self, fn):
        self.heads = {}
        self.always = set()
        for x in ast.walk(fn):
            if x is fn:
                continue
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                        self.always.add(y.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
        # lazily consumed generator expressions: captured unless passed straight to a call
        direct = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Call):
                for a in x.args:
                    if isinstance(a, ast.GeneratorExp) and isinstance(x.func, (ast.Name, ast.Attribute)):
                        nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr
                        if nm in ('sum', 'min', 'max', 'any', 'all', 'list', 'set', 'tuple', 'sorted', 'dict', 'Counter', 'join', 'frozenset'):
                            direct.add(a)
        for x in ast.walk(fn):
            if isinstance(x, ast.GeneratorExp) and x not in direct:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                        self.always.add(y.id)
        body = fn.body if isinstance(fn.body, list) else [ast.Expr(value=fn.body)]
        self.block(body, frozenset(), None, None, frozenset())

    def uses(self, n):
        return frozenset(y.id for y in ast.walk(n) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)) if n is not None else frozenset()

    def defs(self, t):
        """names surely rebound by an assignment target"""
        if isinstance(t, ast.Name):
            return frozenset([t.id])
        if isinstance(t, (ast.Tuple, ast.List)):
            r = frozenset()
            for e in t.elts:
                r |= self.defs(e)
            return r
        if isinstance(t, ast.Starred):
            return self.defs(t.value)
        return frozenset()

    def block(self, stmts, out, brk, cont, exc):
        for s in reversed(stmts):
            out = self.stmt(s, out, brk, cont, exc)
        return out

    def stmt(self, s, out, brk, cont, exc):
        if isinstance(s, ast.Assign):
            d = frozenset()
            u = self.uses(s.value)
            for t in s.targets:
                d |= self.defs(t)
                u |= self.uses(t)
            return (out - d) | u | exc
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            return (out - self.defs(s.target)) | self.uses(s.value) | self.uses(s.target) | exc
        if isinstance(s, ast.AugAssign):
            u = self.uses(s.value) | self.uses(s.target)
            if isinstance(s.target, ast.Name):
                u |= {s.target.id}
            return out | u | exc
        if isinstance(s, (ast.Return, ast.Raise)):
            u = frozenset()
            for c in ast.iter_child_nodes(s):
                u |= self.uses(c)
            return u | exc
        if isinstance(s, ast.Break):
            return brk if brk is not None else out
        if isinstance(s, ast.Continue):
            return cont if cont is not None else out
        if isinstance(s, ast.If):
            return self.uses(s.test) | self.block(s.body, out, brk, cont, exc) | self.block(s.orelse, out, brk, cont, exc) | exc
        if isinstance(s, (ast.For, ast.While)):
            after = self.block(s.orelse, out, brk, cont, exc)
            tu = self.uses(s.test) if isinstance(s, ast.While) else self.uses(s.target)
            d = self.defs(s.target) if isinstance(s, ast.For) else frozenset()
            head = after | tu
            while True:
                b = self.block(s.body, head, out, head, exc)
                n = after | tu | (b - d)
                if n == head:
                    break
                head = head | n
            self.heads[s] = self.heads.get(s, frozenset()) | head
            return head | (self.uses(s.iter) if isinstance(s, ast.For) else frozenset()) | exc
        if isinstance(s, ast.With):
            o = self.block(s.body, out, brk, cont, exc)
            for i in s.items:
                if i.optional_vars is not None:
                    o = o - self.defs(i.optional_vars)
                o = o | self.uses(i.context_expr)
            return o | exc
        if isinstance(s, ast.Try):
            f = self.block(s.finalbody, out, brk, cont, exc)
            fe = f | exc
            hs = frozenset()
            for h in s.handlers:
                hs |= self.block(h.body, f, brk, cont, fe)
            o = self.block(s.orelse, f, brk, cont, fe)
            return self.block(s.body, o, brk, cont, fe | hs) | hs
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return (out - {s.name}) | self.uses(s)
        if isinstance(s, ast.Delete):
            u = frozenset()
            for t in s.targets:
                u |= self.uses(t)
            return out | u
        u = frozenset()
        for c in ast.iter_child_nodes(s):
            u |= self.uses(c)
        return out | u | exc
