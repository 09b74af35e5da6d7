"""Abstract interpretation of a scanner over a text: positions are related by difference constraints (zones), characters are sets of
representatives of all the character classes the code can tell apart, flags are kept apart. Nothing is executed: every test
on an unknown character splits the states."""
import ast
import sys
from .verdict import ok, bad, unk

INF = float('inf')
MAXSTATES = 3000
MAXDEPTH = 6
STEPS = 1500000
ALPHABET = " \n\t\x01\xa0anthoeOAZElmsdrpv1082٣²½éÉ中ǅ@#$-_.,;:!?'’·()<>=^*/\\|[]{}&\"😀ªⅣ\ufe0f"
PREDICATES = ('isspace', 'isalnum', 'isalpha', 'isdigit', 'isnumeric', 'isdecimal', 'isupper', 'islower', 'istitle', 'isascii', 'isprintable', 'isidentifier')


class Unclear(Exception):
    pass


class Zone(object):
    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def copy(self):
        return Zone(dict(self.d))

    def get(self, x, y):
        return 0 if x == y else self.d.get((x, y), INF)

    def add(self, x, y, c):
        """x - y <= c; False when impossible"""
        if x == y:
            return c >= 0
        if self.get(x, y) <= c:
            return True
        if self.get(y, x) + c < 0:
            return False
        into = [(x, 0)] + [(u, v) for (u, w), v in self.d.items() if w == x and u != y]
        outof = [(y, 0)] + [(w, v) for (u, w), v in self.d.items() if u == y and w != x]
        for u, a in into:
            for v, b in outof:
                if u != v:
                    n = a + c + b
                    if n < self.d.get((u, v), INF):
                        self.d[(u, v)] = n
        return True

    def forget(self, v):
        for k in [k for k in self.d if k[0] == v or k[1] == v]:
            del self.d[k]

    def assign(self, v, w, off):
        if v == w:
            if off:
                for k in list(self.d):
                    if k[0] == v:
                        self.d[k] += off
                    elif k[1] == v:
                        self.d[k] -= off
            return
        self.forget(v)
        self.add(v, w, off)
        self.add(w, v, -off)

    def join(self, o):
        return Zone(dict((k, max(v, o.d[k])) for k, v in self.d.items() if k in o.d))

    def widen(self, o):
        return Zone(dict((k, v) for k, v in self.d.items() if o.d.get(k, INF) <= v))

    def within(self, o):
        return all(self.get(*k) <= v for k, v in o.d.items())


class St(object):
    def __init__(self, env, z, fuzzy=False):
        self.env, self.z, self.fuzzy = env, z, fuzzy

    def copy(self):
        return St(dict(self.env), self.z.copy(), self.fuzzy)

    def sig(self):
        return (frozenset(self.env.items()), self.fuzzy)


UNKNOWN = ('?',)


def lin(v, off=0):
    return ('i', v, off)


class Scan(object):
    def __init__(self, mod, cls, fn, types):
        self.mod, self.cls, self.types = mod, cls, types
        self.fn = fn
        self.funcs = dict((n.name, n) for n in mod.tree.body if isinstance(n, ast.FunctionDef))
        self.methods = dict((n.name, n) for n in cls.body if isinstance(n, ast.FunctionDef)) if cls is not None else {}
        self.consts = {}
        for n in mod.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = self.fold(n.value)
                if v is not None:
                    self.consts[n.targets[0].id] = v
        letters = set(ALPHABET)
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) == 1:
                letters.add(n.value)
                letters.add(chr(min(ord(n.value) + 1, 0x10ffff)))
        self.letters = frozenset(letters)
        self.obs = {}
        self.steps = 0
        self.tmp = 0
        self.frames = 0
        self.depth = 0
        self.scopes = {}
        self.running = [fn]
        self.notes = set()
        self.loops = 0
        self.paths = 0

    # constants of the module
    def fold(self, n):
        if isinstance(n, ast.Constant):
            return ('c', n.value)
        if isinstance(n, (ast.List, ast.Set, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in n.elts):
            return ('set', tuple(x.value for x in n.elts))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('set', 'frozenset', 'list', 'tuple') and len(n.args) == 1:
            v = self.fold(n.args[0])
            return v if v and v[0] == 'set' else None
        if isinstance(n, ast.Dict) and all(isinstance(x, ast.Constant) for x in n.keys):
            return ('set', tuple(x.value for x in n.keys))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            a, b = self.fold(n.left), self.fold(n.right)
            if a and b and a[0] == b[0] == 'c' and isinstance(a[1], str):
                try:
                    return ('c', a[1] % b[1])
                except Exception:
                    return None
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = self.fold(n.left), self.fold(n.right)
            if a and b and a[0] == b[0] == 'c' and isinstance(a[1], str) and isinstance(b[1], str):
                return ('c', a[1] + b[1])
        if isinstance(n, ast.Name):
            return self.consts.get(n.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'compile' and isinstance(n.func.value, ast.Name) and n.func.value.id == 're' and n.args:
            v = self.fold(n.args[0])
            return ('re', v[1] if v and v[0] == 'c' else None)
        if isinstance(n, ast.Call):
            return ('re', None) if isinstance(n.func, ast.Name) and 'regex' in n.func.id else None
        return None

    def width(self, p):
        if p is None:
            return 0
        try:
            import re._parser as sp
        except ImportError:
            import sre_parse as sp
        try:
            return sp.parse(p).getwidth()[0]
        except Exception:
            return 0

    # bookkeeping
    def note(self, rule, node, verdict, detail):
        k = (rule, node.lineno, node.col_offset)
        rank = {'ok': 0, 'unk': 1, 'bad': 2}
        cur = self.obs.get(k)
        if cur is None or rank[verdict] > rank[cur[0]]:
            self.obs[k] = (verdict, detail)

    def fresh(self, hint='t'):
        self.tmp += 1
        return '$%s%d' % (hint, self.tmp)

    def name(self, fr, n):
        return '%s.%s' % (fr, n)

    def clean(self, states):
        """forget the temporaries"""
        for st in states:
            for k in list(st.z.d):
                if k in st.z.d and (k[0][0] == '$' or k[1][0] == '$'):
                    del st.z.d[k]
        return states

    def drop(self, st, prefix):
        for k in [k for k in st.env if k.startswith(prefix)]:
            del st.env[k]
        for k in [k for k in st.z.d if k[0].startswith(prefix) or k[1].startswith(prefix)]:
            del st.z.d[k]

    def merge(self, states):
        out = {}
        for st in states:
            s = st.sig()
            if s in out:
                out[s].z = out[s].z.join(st.z)
            else:
                out[s] = st
        if len(out) > MAXSTATES:
            out2 = {}
            for st in out.values():  # forget what is known of characters
                for k, v in list(st.env.items()):
                    if v[0] == 'ch':
                        if '@' in k:
                            del st.env[k]
                        else:
                            st.env[k] = ('ch', self.letters, k)
                st.fuzzy = True
                s = st.sig()
                if s in out2:
                    out2[s].z = out2[s].z.join(st.z)
                else:
                    out2[s] = st
            out = out2
            if len(out) > MAXSTATES:
                raise Unclear('too many cases')
        self.paths = max(self.paths, len(out))
        return list(out.values())

    # values
    def bounds(self, v, st):
        if v[0] == 'i':
            return -st.z.get('0', v[1]) + v[2], st.z.get(v[1], '0') + v[2]
        if v[0] == 'c' and isinstance(v[1], int) and not isinstance(v[1], bool):
            return v[1], v[1]
        return -INF, INF

    def diff(self, a, b, st):
        """largest value of a - b"""
        return st.z.get(a[1], b[1]) + a[2] - b[2]

    def asint(self, v):
        if v[0] == 'i':
            return v
        if v[0] == 'c' and isinstance(v[1], int):
            return lin('0', int(v[1]))
        return None

    def asstr(self, v, st):
        """(lo, hi) of a string"""
        if v[0] == 's':
            return v[1], v[2]
        if v[0] == 'c' and isinstance(v[1], str):
            return lin('0'), lin('0', len(v[1]))
        return None

    def newstr(self, st, lo=0, hi=INF):
        t = self.fresh('s')
        st.z.add('0', t, -lo)
        if hi < INF:
            st.z.add(t, '0', hi)
        return ('s', lin('0'), lin(t))

    def put(self, st, nm, v):
        """bind a variable"""
        if v[0] == 'c' and isinstance(v[1], int) and not isinstance(v[1], bool):
            v = lin('0', v[1])
        if v[0] == 'i':
            st.z.assign(nm, v[1], v[2])
            for suffix in ('<lo', '<hi', '<pos'):
                st.z.forget(nm + suffix)
            st.env[nm] = ('int',) + tuple(v[3:])
        elif v[0] == 's':
            a, b = v[1], v[2]
            t1, t2 = self.fresh(), self.fresh()
            st.z.assign(t1, a[1], a[2])
            st.z.assign(t2, b[1], b[2])
            st.z.forget(nm)
            st.z.forget(nm + '<pos')
            st.z.assign(nm + '<lo', t1, 0)
            st.z.assign(nm + '<hi', t2, 0)
            st.env[nm] = ('str',)
        elif v[0] == 'ch':
            p = v[2] + '<pos' if v[2] else None
            if p and v[2] != nm:
                z = st.z
                if any(p in k for k in z.d):
                    z.assign(nm + '<pos', p, 0)
                else:
                    z.forget(nm + '<pos')
            st.env[nm] = ('ch', v[1], nm)
        else:
            st.z.forget(nm)
            for suffix in ('<lo', '<hi', '<pos'):
                st.z.forget(nm + suffix)
            st.env[nm] = v
        for k, x in list(st.env.items()):
            if x[0] == 'int' and len(x) > 1 and x[1] == nm and k != nm:
                st.env[k] = ('int',)
            if x[0] == 'split' and x[1] == nm:
                st.env[k] = UNKNOWN

    def load(self, st, nm):
        v = st.env.get(nm)
        if v is None:
            return None
        if v[0] == 'int':
            return ('i', nm, 0) + tuple(v[1:])
        if v[0] == 'str':
            return ('s', lin(nm + '<lo'), lin(nm + '<hi'), nm)
        return v

    def char_at(self, st, pos, key):
        """the character of the text at a position"""
        found = []
        for k, v in st.env.items():
            if v[0] == 'ch':
                p = k + '<pos'
                if st.z.get(p, pos[1]) - pos[2] == 0 and st.z.get(pos[1], p) + pos[2] == 0:
                    found.append(k)
        if found:
            sub = self.letters
            for k in found:
                sub = sub & st.env[k][1]
            return ('ch', sub, found[0])
        st.env[key] = ('ch', self.letters, key)
        st.z.assign(key + '<pos', pos[1], pos[2])
        return ('ch', self.letters, key)

    def refine(self, st, v, sub):
        """copy of the state where the character is in sub, or None"""
        if not sub:
            return None
        st = st.copy()
        if v[2]:
            p = v[2] + '<pos'
            for k, x in list(st.env.items()):
                if x[0] == 'ch' and (k == v[2] or (st.z.get(k + '<pos', p) == 0 and st.z.get(p, k + '<pos') == 0)):
                    n = x[1] & sub
                    if not n:
                        return None
                    st.env[k] = ('ch', n, k)
        return st

    # expressions
    def ev(self, n, st, fr):
        """list of (value, state)"""
        self.steps += 1
        if self.steps > STEPS:
            raise Unclear('too long')
        if isinstance(n, ast.Constant):
            return [(('c', n.value), st)]
        if isinstance(n, ast.Name):
            v = self.load(st, self.name(fr, n.id))
            if v is None:
                v = self.consts.get(n.id)
            if v is None and n.id in self.funcs:
                v = ('fn', n.id)
            return [(v or UNKNOWN, st)]
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == 'str':
                return [(('strm', n.attr), st)]
            if isinstance(n.value, ast.Name) and self.load(st, self.name(fr, n.value.id)) == ('self',):
                k = 'self.' + n.attr
                return [(st.env.get(k) or ('opt', k), st)]
            return [(UNKNOWN, x) for v, x in self.ev(n.value, st, fr)]
        if isinstance(n, (ast.BoolOp, ast.Compare)) or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.branch(n, st, fr)
            return [(('c', True), x) for x in t] + [(('c', False), x) for x in f]
        if isinstance(n, ast.IfExp):
            t, f = self.branch(n.test, st, fr)
            return [y for x in t for y in self.ev(n.body, x, fr)] + [y for x in f for y in self.ev(n.orelse, x, fr)]
        if isinstance(n, ast.Tuple):
            return [(('tup', tuple(vs)), x) for vs, x in self.evs(n.elts, st, fr)]
        if isinstance(n, (ast.List, ast.Set)):
            v = self.fold(n)
            return [(v, st)] if v else [(UNKNOWN, x) for vs, x in self.evs(n.elts, st, fr)]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out = []
            for v, x in self.ev(n.operand, st, fr):
                out.append((('c', -v[1]) if v[0] == 'c' and isinstance(v[1], int) else UNKNOWN, x))
            return out
        if isinstance(n, ast.BinOp):
            return [(self.arith(n.op, a, b, x), x) for (a, b), x in self.evs([n.left, n.right], st, fr)]
        if isinstance(n, ast.Subscript):
            return self.subscript(n, st, fr)
        if isinstance(n, ast.Call):
            return self.call(n, st, fr)
        if isinstance(n, ast.NamedExpr):
            out = []
            for v, x in self.ev(n.value, st, fr):
                x = x.copy()
                self.put(x, self.name(fr, n.target.id), v)
                out.append((self.load(x, self.name(fr, n.target.id)), x))
            return out
        if isinstance(n, ast.Yield):
            out = []
            for v, x in (self.ev(n.value, st, fr) if n.value is not None else [(('c', None), st)]):
                self.emit(n, v, x)
                out.append((UNKNOWN, x))
            return out
        if isinstance(n, ast.YieldFrom):
            out = []
            for v, x in self.ev(n.value, st, fr):
                if v[0] == 'stream':
                    self.emitted |= v[1]
                else:
                    self.emit(n, UNKNOWN, x)
                out.append((UNKNOWN, x))
            return out
        if isinstance(n, ast.JoinedStr):
            st = st.copy()
            return [(self.newstr(st), st)]
        return [(UNKNOWN, st)]

    def evs(self, ns, st, fr):
        out = [([], st)]
        for n in ns:
            if isinstance(n, ast.Starred):
                n = n.value
            out = [(vs + [v], y) for vs, x in out for v, y in self.ev(n, x, fr)]
        return out

    def emit(self, n, v, st):
        ts = None
        if v[0] == 'tup' and v[1]:
            t = v[1][0]
            ts = [t[1]] if t[0] == 'c' else sorted(t[1]) if t[0] == 'oneof' else None
        elif v[0] == 'item':
            ts = sorted(v[1])
        if ts is None:
            self.emitted.add('?')
            self.note('types', n, 'unk', 'the type of the token is not followed')
            return
        for t in ts:
            self.emitted.add(t)
            if t == '?':
                self.note('types', n, 'unk', 'the type of the token is not followed')
            else:
                self.note('types', n, 'ok' if t in self.types else 'unk' if st.fuzzy else 'bad', 'a token of type %r is emitted' % (t,))

    def arith(self, op, a, b, st):
        x, y = self.asint(a), self.asint(b)
        if x and y and a[1] is not True and b[1] is not True:
            if isinstance(op, (ast.Add, ast.Sub)):
                s = 1 if isinstance(op, ast.Add) else -1
                if y[1] == '0':
                    return lin(x[1], x[2] + s * y[2])
                if x[1] == '0' and s == 1:
                    return lin(y[1], y[2] + x[2])
                t = self.fresh()
                lo, hi = self.bounds(y, st)
                if s == -1:
                    lo, hi = -hi, -lo
                    d = self.diff(x, y, st)
                    if d < INF:
                        st.z.add(t, '0', d)
                    d = self.diff(y, x, st)
                    if d < INF:
                        st.z.add('0', t, d)
                if hi < INF:
                    st.z.add(t, x[1], hi + x[2])
                if lo > -INF:
                    st.z.add(x[1], t, -lo - x[2])
                if s == 1:
                    lo, hi = self.bounds(x, st)
                    if hi < INF:
                        st.z.add(t, y[1], hi + y[2])
                    if lo > -INF:
                        st.z.add(y[1], t, -lo - y[2])
                return lin(t)
            return lin(self.fresh())
        p, q = self.asstr(a, st), self.asstr(b, st)
        if isinstance(op, ast.Add) and (p or a[0] == 'ch') and (q or b[0] == 'ch'):
            la = 1 if a[0] == 'ch' else -self.diff(p[0], p[1], st)
            lb = 1 if b[0] == 'ch' else -self.diff(q[0], q[1], st)
            return self.newstr(st, max(0, la if la > -INF else 0) + max(0, lb if lb > -INF else 0))
        if isinstance(op, ast.Mod) and a[0] == 'c' and isinstance(a[1], str):
            return self.newstr(st)
        return UNKNOWN

    def subscript(self, n, st, fr):
        out = []
        if isinstance(n.slice, ast.Slice):
            parts = [n.value] + [x for x in (n.slice.lower, n.slice.upper) if x is not None]
            for vs, x in self.evs(parts, st, fr):
                x = x.copy()
                base = self.asstr(vs[0], x)
                vs = vs[1:]
                lo = vs.pop(0) if n.slice.lower is not None else ('c', 0)
                hi = vs.pop(0) if n.slice.upper is not None else ('c', None)
                if base is None:
                    out.append((UNKNOWN if vs or True else None, x))
                    continue
                out.append((self.slice(base, lo, hi, x) if n.slice.step is None else self.newstr(x), x))
            return out
        for (b, i), x in self.evs([n.value, n.slice], st, fr):
            x = x.copy()
            if b[0] == 'tup' and i[0] == 'c' and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
                out.append((b[1][i[1]], x))
                continue
            if b[0] == 'item' and i == ('c', 0):
                out.append((('oneof', b[1]), x))
                continue
            if b[0] == 'item' and i == ('c', 1):
                out.append((self.newstr(x), x))
                continue
            s, k = self.asstr(b, x), self.asint(i)
            if s is None or k is None:
                out.append((UNKNOWN, x))
                continue
            lo, hi = s
            if k[1] == '0' and k[2] < 0:
                pos = lin(hi[1], hi[2] + k[2])
                d = self.diff(lo, pos, x)
            elif k[1] == '0':
                pos = lin(lo[1], lo[2] + k[2])
                d = self.diff(pos, hi, x) + 1
            elif lo == lin('0') or lo[1] == '0':
                pos = lin(k[1], k[2] + lo[2])
                d = self.diff(pos, hi, x) + 1
            elif x.z.get(lo[1], '0') + lo[2] == 0 and x.z.get('0', lo[1]) - lo[2] == 0:
                pos = lin(k[1], k[2])
                d = self.diff(pos, hi, x) + 1
            else:
                self.note('range', n, 'unk', '%s is not followed' % ast.unparse(n))
                c = self.fresh('@')
                out.append((('ch', self.letters, None), x))
                continue
            # d: by how much the subscript may exceed the last valid one
            if d <= 0:
                self.note('range', n, 'ok', ast.unparse(n))
            elif d < INF and not x.fuzzy:
                self.note('range', n, 'bad', '%s may be read %d beyond the last character' % (ast.unparse(n), d))
            else:
                self.note('range', n, 'unk', '%s is not shown to lie within the text' % ast.unparse(n))
            feasible = x.z.add(lo[1], pos[1], pos[2] - lo[2]) if k[1] == '0' and k[2] < 0 else x.z.add(pos[1], hi[1], hi[2] - pos[2] - 1)
            if not feasible:
                continue
            for y in self.apart(x, pos):
                out.append((self.char_at(y, pos, '%s.@%s' % (fr, ast.unparse(n))), y))
        return out

    def apart(self, st, pos):
        """split the state on whether the position is the one of a known character next to it"""
        for k, v in st.env.items():
            if v[0] == 'ch' and '@' not in k and len(v[1]) < len(self.letters):
                p = k + '<pos'
                up, down = st.z.get(p, pos[1]) - pos[2], st.z.get(pos[1], p) + pos[2]
                if (up == 0) != (down == 0):
                    a, b = st.copy(), st.copy()
                    out = []
                    if a.z.add(p, pos[1], pos[2]) and a.z.add(pos[1], p, -pos[2]):
                        out.append(a)
                    if b.z.add(p, pos[1], pos[2] - 1) if up == 0 else b.z.add(pos[1], p, -pos[2] - 1):
                        out.append(b)
                    return out
        return [st]

    def slice(self, base, lo, hi, st):
        blo, bhi = base
        l = self.asint(lo)
        h = self.asint(hi) if hi != ('c', None) else None
        if l is None or (h is None and hi != ('c', None)):
            return self.newstr(st)
        # start
        if l[1] == '0' and l[2] >= 0:
            a = lin(blo[1], blo[2] + l[2])
        elif l[1] == '0':
            return self.newstr(st)
        elif st.z.get(blo[1], '0') + blo[2] == 0 and st.z.get('0', blo[1]) - blo[2] == 0 and -st.z.get('0', l[1]) + l[2] >= 0:
            a = l
        else:
            return self.newstr(st)
        if self.diff(a, bhi, st) > 0:
            if l[1] == '0' and hi == ('c', None):
                # s[k:] of a string that may be shorter: empty then
                t = self.fresh('s')
                d = self.diff(bhi, a, st)
                if d < INF:
                    st.z.add(t, '0', max(d, 0))
                d = self.diff(a, bhi, st)
                st.z.add('0', t, min(d, 0) if d < INF else 0)
                st.z.add('0', t, 0)
                return ('s', lin('0'), lin(t))
            if h is None:
                return self.newstr(st)
        # end
        if h is None:
            return ('s', a, bhi)
        if h[1] == '0' and h[2] < 0:
            b = lin(bhi[1], bhi[2] + h[2])
        elif h[1] == '0':
            b = lin(blo[1], blo[2] + h[2])
        elif st.z.get(blo[1], '0') + blo[2] == 0 and st.z.get('0', blo[1]) - blo[2] == 0:
            b = h
        else:
            return self.newstr(st)
        if self.diff(a, b, st) <= 0 and self.diff(b, bhi, st) <= 0:
            return ('s', a, b)
        if self.diff(a, bhi, st) <= 0 and self.diff(a, b, st) <= 0:
            t = self.fresh('e')
            st.z.add(t, b[1], b[2])
            st.z.add(t, bhi[1], bhi[2])
            least = max(0, min(-self.diff(a, b, st), -self.diff(a, bhi, st)))
            st.z.add(a[1], t, -a[2] - least)
            return ('s', a, lin(t))
        return self.newstr(st)

    def call(self, n, st, fr):
        f = n.func
        if n.keywords and any(k.arg is None for k in n.keywords):
            return [(UNKNOWN, x) for vs, x in self.evs([k.value for k in n.keywords], st, fr)]
        # generators and comprehensions given to all, any, ...
        if isinstance(f, ast.Name) and f.id in ('all', 'any') and self.load(st, self.name(fr, f.id)) is None:
            return [(('bool',), st)]
        if isinstance(f, ast.Name):
            fv = self.ev(f, st, fr)[0][0]
            if fv[0] == 'fn':
                return self.inline(n, self.funcs[fv[1]], None, st, fr)
            out = []
            for vs, x in self.evs(n.args, st, fr):
                x = x.copy()
                out += self.builtin(n, f.id, fv, vs, x)
            return out
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and (self.load(st, self.name(fr, f.value.id)) == ('self',) or (self.cls is not None and f.value.id == self.cls.name)):
                m = self.methods.get(f.attr)
                if m is not None:
                    return self.inline(n, m, ('self',), st, fr)
                return [(UNKNOWN, x) for vs, x in self.evs(n.args, st, fr)]
            if isinstance(f.value, ast.Name) and f.value.id == 'str' and n.args:
                out = []
                for vs, x in self.evs(n.args, st, fr):
                    out += self.method(n, f.attr, vs[0], vs[1:], x.copy())
                return out
            out = []
            for vs, x in self.evs([f.value] + n.args, st, fr):
                x = x.copy()
                out += self.method(n, f.attr, vs[0], vs[1:], x)
            return out
        return [(UNKNOWN, st)]

    def builtin(self, n, name, fv, vs, st):
        if fv[0] == 'strm' and vs:
            return self.method(n, fv[1], vs[0], vs[1:], st)
        if fv != UNKNOWN:
            st.fuzzy = True
            return [(UNKNOWN, st)]
        if name == 'len' and len(vs) == 1:
            s = self.asstr(vs[0], st)
            if vs[0][0] == 'ch':
                return [(('c', 1), st)]
            if s is None:
                t = self.fresh()
                st.z.add('0', t, 0)
                return [(lin(t), st)]
            lo, hi = s
            if lo[1] == '0' or (st.z.get(lo[1], '0') + lo[2] == 0 and st.z.get('0', lo[1]) - lo[2] == 0):
                return [(lin(hi[1], hi[2] - (lo[2] if lo[1] == '0' else 0)), st)]
            return [(self.arith(ast.Sub(), hi, lo, st), st)]
        if name == 'bool' and len(vs) == 1:
            t, f = self.truth(vs[0], st)
            return [(('c', True), x) for x in t] + [(('c', False), x) for x in f]
        if name in ('min', 'max') and len(vs) == 2 and all(self.asint(v) for v in vs):
            a, b = map(self.asint, vs)
            t = self.fresh()
            for v in (a, b):
                if name == 'min':
                    st.z.add(t, v[1], v[2])
                else:
                    st.z.add(v[1], t, -v[2])
            d1, d2 = self.diff(a, b, st), self.diff(b, a, st)
            lo1, hi1 = self.bounds(a, st)
            lo2, hi2 = self.bounds(b, st)
            if name == 'min':
                if d1 < INF:
                    st.z.add(a[1], t, -a[2] + max(d1, 0))
                if d2 < INF:
                    st.z.add(b[1], t, -b[2] + max(d2, 0))
            else:
                if d1 < INF:
                    st.z.add(t, b[1], b[2] + max(d1, 0))
                if d2 < INF:
                    st.z.add(t, a[1], a[2] + max(d2, 0))
            return [(lin(t), st)]
        if name in ('isinstance', 'callable', 'hasattr'):
            return [(('bool',), st)]
        if name == 'range' and all(self.asint(v) for v in vs) and 1 <= len(vs) <= 2:
            vs = list(map(self.asint, vs))
            lo, hi = (lin('0'), vs[0]) if len(vs) == 1 else vs
            a, b = self.fresh('keep'), self.fresh('keep')
            st.z.assign(a, lo[1], lo[2])
            st.z.assign(b, hi[1], hi[2])
            return [(('range', lin(a), lin(b)), st)]
        if name == 'enumerate' and len(vs) == 1 and vs[0][0] == 's':
            return [(('enum', vs[0]), st)]
        if name == 'iter' and len(vs) == 1:
            return [(vs[0], st)]
        if vs and vs[0][0] == 'stream':
            if name == 'with_next':
                return [(('pairs', vs[0][1]), st)]
            if name in ('list', 'tuple', 'iter'):
                return [(vs[0], st)]
            return [(UNKNOWN, st)]
        if name in ('str',):
            return [(self.newstr(st), st)]
        return [(UNKNOWN, st)]

    def method(self, n, name, o, vs, st):
        if o[0] == 're':
            if name in ('match', 'search', 'fullmatch'):
                return [(('m?', self.width(o[1])) + self.subject(vs, st), st)]
            if name == 'finditer':
                return [(('matches', self.width(o[1])) + self.subject(vs, st), st)]
            return [(UNKNOWN, st)]
        if o[0] in ('m', 'm?'):
            if name in ('end', 'start'):
                t = self.fresh()
                st.z.add('0', t, -o[1] if name == 'end' else 0)
                if len(o) > 2:
                    st.z.add(t, o[2][1], o[2][2] - (0 if name == 'end' else o[1]))
                return [(lin(t), st)]
            if name == 'group':
                return [(self.newstr(st, o[1]), st)]
            return [(UNKNOWN, st)]
        if name in PREDICATES:
            if o[0] == 'ch':
                t, f = self.split(st, o, lambda c: getattr(c, name)())
                return [(('c', True), x) for x in t] + [(('c', False), x) for x in f]
            if o[0] == 'c' and isinstance(o[1], str):
                return [(('c', getattr(o[1], name)()), st)]
            return [(('bool',), st)]
        if name in ('startswith', 'endswith'):
            s = self.asstr(o, st)
            if o[0] == 'ch' and len(vs) == 1 and vs[0][0] == 'c' and isinstance(vs[0][1], str):
                t, f = self.split(st, o, lambda c: getattr(c, name)(vs[0][1]))
                return [(('c', True), x) for x in t] + [(('c', False), x) for x in f]
            if s is not None and len(vs) == 1 and vs[0][0] == 'c' and isinstance(vs[0][1], str):
                y = st.copy()
                good = y.z.add(s[0][1], s[1][1], s[1][2] - s[0][2] - len(vs[0][1]))
                return ([(('c', True), y)] if good else []) + [(('c', False), st)]
            return [(('bool',), st)]
        if name in ('lower', 'upper', 'casefold', 'strip', 'rstrip', 'lstrip', 'title', 'capitalize', 'replace', 'join', 'format'):
            if o[0] == 'c' and isinstance(o[1], str) and not vs and name != 'format':
                return [(('c', getattr(o[1], name)()), st)]
            s = self.asstr(o, st)
            least = 0
            if name in ('lower', 'upper', 'casefold', 'title', 'capitalize'):
                least = 1 if o[0] == 'ch' else 0
                if s is not None:
                    d = -self.diff(s[0], s[1], st)
                    least = 1 if 0 < d < INF else 0
            return [(self.newstr(st, least), st)]
        if name == 'count':
            t = self.fresh()
            st.z.add('0', t, 0)
            v = lin(t)
            if o[0] == 's' and len(o) > 3 and vs and vs[0][0] == 'c':
                v = v + (o[3], vs[0][1])
            return [(v, st)]
        if name == 'split':
            if o[0] == 's' and len(o) > 3 and vs and vs[0][0] == 'c':
                return [(('split', o[3], vs[0][1]), st)]
            return [(UNKNOWN, st)]
        if name in ('find', 'index', 'rfind'):
            t = self.fresh()
            st.z.add('0', t, 1 if 'find' in name else 0)
            return [(lin(t), st)]
        return [(UNKNOWN, st)]

    def subject(self, vs, st):
        """the end of the text searched when it starts at zero"""
        s = self.asstr(vs[0], st) if len(vs) == 1 else None
        if s is None or len(vs[0]) < 4 and vs[0][0] == 's' and s[1][1] != 'L':
            return ()
        lo, hi = s
        if st.z.get(lo[1], '0') + lo[2] == 0 and st.z.get('0', lo[1]) - lo[2] == 0:
            return (hi,)
        return ()

    def split(self, st, o, p):
        yes = frozenset(c for c in o[1] if p(c))
        t, f = self.refine(st, o, yes), self.refine(st, o, o[1] - yes)
        return [t] if t is not None else [], [f] if f is not None else []

    def inline(self, n, node, me, st, fr):
        if self.depth >= MAXDEPTH or node.args.vararg or node.args.kwarg:
            return [(UNKNOWN, st)]
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
        params = [a.arg for a in node.args.args]
        out = []
        names = [k.arg for k in n.keywords]
        for vs, x in self.evs(n.args + [k.value for k in n.keywords], st, fr):
            x = x.copy()
            pos = vs[:len(n.args)]
            if me is not None and not static:
                pos = [me] + pos
            self.frames += 1
            f2 = 'f%d' % self.frames
            bind = dict(zip(params, pos))
            bind.update(zip(names, vs[len(n.args):]))
            nd = len(node.args.defaults)
            for p, d in zip(params[len(params) - nd:], node.args.defaults):
                if p not in bind:
                    bind[p] = self.fold(d) or UNKNOWN
            gen = any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(node))
            for p in params:
                v = bind.get(p, UNKNOWN)
                if gen and v[0] == 's':
                    v = self.rebase(v, x)
                self.put(x, self.name(f2, p), v)
            self.depth += 1
            saved = self.emitted
            self.emitted = set()
            rets = []
            try:
                self.running.append(node)
                end = self.block(node.body, [x], f2, [], [], rets)
            finally:
                self.running.pop()
                self.depth -= 1
                types = frozenset(self.emitted)
                self.emitted = saved
            rets += [(('c', None), y) for y in end]
            if gen:
                # the body runs while the stream is read; the state of the caller does not depend on it
                y = st.copy()
                out.append((('stream', types), x0(vs, y)))
                continue
            res = {}
            for v, y in rets:
                y = y.copy()
                v = self.hoist(v, y)
                self.drop(y, f2 + '.')
                k = (v, y.sig())
                if k in res:
                    res[k][1].z = res[k][1].z.join(y.z)
                else:
                    res[k] = (v, y)
            out += list(res.values())
        return out

    def rebase(self, v, st):
        """the same string, counted from its first character"""
        lo, hi = v[1], v[2]
        if lo[1] == '0' or (st.z.get(lo[1], '0') + lo[2] == 0 and st.z.get('0', lo[1]) - lo[2] == 0):
            return v
        a, b = -self.diff(lo, hi, st), self.diff(hi, lo, st)
        return self.newstr(st, max(0, a if a > -INF else 0), b)

    def hoist(self, v, st, i=0):
        """name the parts of a value that depend on the frame"""
        def keep(l, j):
            t = '$r%d_%d' % (self.depth, j)
            if l[1] == '0' or l[1] == 'L':
                return l
            z = '$w'
            st.z.assign(z, l[1], l[2])
            st.z.assign(t, z, 0)
            st.z.forget(z)
            return lin(t)
        if v[0] == 'i':
            return keep(v, i)
        if v[0] == 's':
            return ('s', keep(v[1], i), keep(v[2], i + 100))
        if v[0] == 'ch':
            return ('ch', v[1], None)
        if v[0] == 'tup':
            return ('tup', tuple(self.hoist(x, st, i + 1 + j) for j, x in enumerate(v[1])))
        if v[0] in ('split', 'range', 'enum'):
            return UNKNOWN
        return v

    # tests
    def truth(self, v, st):
        if v[0] == 'c':
            return ([st], []) if v[1] else ([], [st])
        if v[0] == 'ch' or v[0] in ('m', 'fn', 'self'):
            return [st], []
        if v[0] == 'opt':
            a, b = st.copy(), st.copy()
            a.env[v[1]] = ('c', True)
            b.env[v[1]] = ('c', False)
            return [a], [b]
        if v[0] == 'i':
            f = st.copy()
            if not (f.z.add(v[1], '0', -v[2]) and f.z.add('0', v[1], v[2])):
                return [st], []
            lo, hi = self.bounds(v, st)
            t = st.copy()
            good = True
            if lo >= 0:
                good = t.z.add('0', v[1], v[2] - 1)
            return ([t] if good else []), [f]
        if v[0] == 's':
            a, b = st.copy(), st.copy()
            lo, hi = v[1], v[2]
            ga = a.z.add(lo[1], hi[1], hi[2] - lo[2] - 1)
            gb = b.z.add(hi[1], lo[1], lo[2] - hi[2])
            return ([a] if ga else []), ([b] if gb else [])
        if v[0] in ('bool', 'm?'):
            return [st.copy()], [st.copy()]
        a, b = st.copy(), st.copy()
        a.fuzzy = b.fuzzy = True
        return [a], [b]

    def branch(self, n, st, fr):
        if isinstance(n, ast.BoolOp):
            conj = isinstance(n.op, ast.And)
            live, t, f = [st], [], []
            for v in n.values:
                nxt = []
                for x in live:
                    a, b = self.branch(v, x, fr)
                    if conj:
                        nxt += a
                        f += b
                    else:
                        nxt += b
                        t += a
                live = self.merge(nxt)
            return (live, self.merge(f)) if conj else (self.merge(t), live)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = self.branch(n.operand, st, fr)
            return b, a
        if isinstance(n, ast.Compare):
            if len(n.ops) > 1:
                parts = []
                left = n.left
                for o, r in zip(n.ops, n.comparators):
                    c = ast.Compare(left, [o], [r])
                    parts.append(ast.copy_location(c, n))
                    left = r
                return self.branch(ast.copy_location(ast.BoolOp(ast.And(), parts), n), st, fr)
            t, f = [], []
            for (a, b), x in self.evs([n.left, n.comparators[0]], st, fr):
                p, q = self.compare(n.ops[0], a, b, x, n, fr)
                t += p
                f += q
            return self.merge(t), self.merge(f)
        t, f = [], []
        for v, x in self.ev(n, st, fr):
            p, q = self.truth(v, x)
            if isinstance(n, ast.Name) and v[0] == 'm?':
                for y in p:
                    y.env[self.name(fr, n.id)] = ('m',) + v[1:]
                for y in q:
                    y.env[self.name(fr, n.id)] = ('c', None)
            if isinstance(n, ast.Name) and v[0] == 'bool':
                for y in p:
                    y.env[self.name(fr, n.id)] = ('c', True)
                for y in q:
                    y.env[self.name(fr, n.id)] = ('c', False)
            t += p
            f += q
        return self.merge(t), self.merge(f)

    def compare(self, op, a, b, st, n, fr):
        if b[0] == 'tup' and all(x[0] == 'c' for x in b[1]):
            b = ('set', tuple(x[1] for x in b[1]))
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and b == ('c', None):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if a[0] == 'm?':
                y, z = st.copy(), st.copy()
                if isinstance(n.left, ast.Name):
                    y.env[self.name(fr, n.left.id)] = ('c', None)
                    z.env[self.name(fr, n.left.id)] = ('m',) + a[1:]
                r = [y], [z]
            elif a[0] == 'c':
                r = ([st], []) if a[1] is None else ([], [st])
            elif a[0] in ('?', 'opt', 'bool', 'oneof'):
                r = [st.copy()], [st.copy()]
            else:
                r = [], [st]
            return r[::-1] if neg else r
        if isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot)):
            p, q = self.compare({ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}[type(op)](), a, b, st, n, fr)
            return q, p
        if isinstance(op, ast.Is):
            op = ast.Eq()
        # constants
        if a[0] == 'c' and b[0] == 'c' and not isinstance(op, ast.In):
            try:
                r = {ast.Eq: lambda x, y: x == y, ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)](a[1], b[1])
                return ([st], []) if r else ([], [st])
            except Exception:
                pass
        if isinstance(op, ast.In) and a[0] == 'c' and (b[0] == 'set' or b[0] == 'c' and isinstance(b[1], str) and isinstance(a[1], str)):
            return ([st], []) if a[1] in b[1] else ([], [st])
        if a[0] == 'oneof' and b[0] == 'c' and isinstance(op, ast.Eq):
            return ([st.copy()] if b[1] in a[1] else []), [st.copy()]
        # characters
        if a[0] == 'ch' and b[0] == 'c' and isinstance(b[1], str) and type(op) in (ast.Eq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.In):
            k = b[1]
            p = {ast.Eq: lambda c: c == k, ast.Lt: lambda c: c < k, ast.LtE: lambda c: c <= k, ast.Gt: lambda c: c > k, ast.GtE: lambda c: c >= k, ast.In: lambda c: c in k}[type(op)]
            return self.split(st, a, p)
        if b[0] == 'ch' and a[0] == 'c' and isinstance(a[1], str) and type(op) in (ast.Eq, ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            k = a[1]
            p = {ast.Eq: lambda c: c == k, ast.Lt: lambda c: k < c, ast.LtE: lambda c: k <= c, ast.Gt: lambda c: k > c, ast.GtE: lambda c: k >= c}[type(op)]
            return self.split(st, b, p)
        if a[0] == 'ch' and b[0] == 'set' and isinstance(op, ast.In):
            s = set(x for x in b[1] if isinstance(x, str))
            return self.split(st, a, lambda c: c in s)
        # strings: what the length tells
        if a[0] == 's' and isinstance(op, (ast.Eq, ast.In)):
            ls = [len(b[1])] if isinstance(op, ast.Eq) and b[0] == 'c' and isinstance(b[1], str) else [len(x) for x in b[1] if isinstance(x, str)] if b[0] == 'set' else None
            t, f = st.copy(), st.copy()
            if ls:
                lo, hi = a[1], a[2]
                good = t.z.add(hi[1], lo[1], max(ls) + lo[2] - hi[2]) and t.z.add(lo[1], hi[1], hi[2] - lo[2] - min(ls))
                one = None
                if good and max(ls) == min(ls) == 1:
                    # a string of one character: that character is known
                    cs = set([b[1]] if b[0] == 'c' else b[1])
                    c = self.char_at(t, lo, '%s.@%s' % (fr, ast.unparse(n.left)))
                    t = self.refine(t, c, frozenset(x for x in c[1] if x in cs))
                    good = t is not None
                    y = f.copy()
                    d1 = self.diff(hi, lo, f)
                    d2 = self.diff(lo, hi, f)
                    if d1 == 1 and d2 == -1:
                        c = self.char_at(f, lo, '%s.@%s' % (fr, ast.unparse(n.left)))
                        f = self.refine(f, c, frozenset(x for x in c[1] if x not in cs))
                return ([t] if good else []), ([f] if f is not None else [])
            return [t], [f]
        # positions
        x, y = self.asint(a), self.asint(b)
        if x and y and not isinstance(op, ast.In):
            return self.ints(op, x, y, st)
        p, q = st.copy(), st.copy()
        if any(v[0] in ('ch', 'i', '?') for v in (a, b)):
            p.fuzzy = q.fuzzy = True
        return [p], [q]

    def ints(self, op, x, y, st):
        def le(s, p, q, k):  # p - q <= k
            s = s.copy()
            return [s] if s.z.add(p[1], q[1], k - p[2] + q[2]) else []
        if isinstance(op, ast.Lt):
            return le(st, x, y, -1), le(st, y, x, 0)
        if isinstance(op, ast.LtE):
            return le(st, x, y, 0), le(st, y, x, -1)
        if isinstance(op, ast.Gt):
            return le(st, y, x, -1), le(st, x, y, 0)
        if isinstance(op, ast.GtE):
            return le(st, y, x, 0), le(st, x, y, -1)
        t = [s2 for s in le(st, x, y, 0) for s2 in le(s, y, x, 0)]
        d1, d2 = self.diff(x, y, st), self.diff(y, x, st)
        if d1 <= 0:
            return t, le(st, x, y, -1)
        if d2 <= 0:
            return t, le(st, y, x, -1)
        return t, [st.copy()]

    # statements
    def block(self, body, states, fr, brk, cont, rets):
        for s in body:
            if not states:
                break
            states = self.merge(self.prune(s, self.clean(self.stmt(s, states, fr, brk, cont, rets)), fr))
        return states

    def scope(self, fn):
        if fn not in self.scopes:
            loads = {}
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    loads[x.id] = max(loads.get(x.id, 0), x.lineno)
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    loads[x.target.id] = max(loads.get(x.target.id, 0), x.lineno)
            loops = [(x.lineno, x.end_lineno, set(self.carried(x)) | self.fixed(x)) for x in ast.walk(fn) if isinstance(x, (ast.While, ast.For))]
            self.scopes[fn] = (loads, loops)
        return self.scopes[fn]

    def prune(self, s, states, fr, line=None):
        """forget variables that are not read any more"""
        fn = self.running[-1]
        loads, loops = self.scope(fn)
        line = line or s.end_lineno
        live = set(v for v, l in loads.items() if l > line)
        for a, b, c in loops:
            if a <= s.lineno and line <= b:
                live |= c
        for st in states:
            for k, v in list(st.env.items()):
                if k.startswith(fr + '.') and '@' not in k and k[len(fr) + 1:] not in live:
                    if v[0] == 'ch' and len(v[1]) < len(self.letters):
                        continue
                    del st.env[k]
                    for suffix in ('', '<lo', '<hi', '<pos'):
                        st.z.forget(k + suffix)
        return states

    def stmt(self, s, states, fr, brk, cont, rets):
        out = []
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Assert)):
            return states
        if isinstance(s, ast.Expr):
            for st in states:
                out += [x for v, x in self.ev(s.value, st, fr)]
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return states
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            for st in states:
                for v, x in self.ev(s.value, st, fr):
                    x = x.copy()
                    for t in targets:
                        self.bind(t, v, x, fr)
                    out.append(x)
            return out
        if isinstance(s, ast.AugAssign):
            if not isinstance(s.target, ast.Name):
                return states
            for st in states:
                for (a, b), x in self.evs([s.target, s.value], st, fr):
                    x = x.copy()
                    self.bind(s.target, self.arith(s.op, a, b, x), x, fr)
                    out.append(x)
            return out
        if isinstance(s, ast.If):
            t, f = [], []
            for st in states:
                a, b = self.branch(s.test, st, fr)
                t += a
                f += b
            t, f = self.merge(self.clean(t)), self.merge(self.clean(f))
            return self.block(s.body, t, fr, brk, cont, rets) + self.block(s.orelse, f, fr, brk, cont, rets)
        if isinstance(s, ast.Return):
            for st in states:
                for v, x in (self.ev(s.value, st, fr) if s.value is not None else [(('c', None), st)]):
                    rets.append((v, x))
            return []
        if isinstance(s, ast.Raise):
            return []
        if isinstance(s, ast.Break):
            brk += states
            return []
        if isinstance(s, ast.Continue):
            cont += states
            return []
        if isinstance(s, ast.While):
            return self.loop(s, states, fr, rets)
        if isinstance(s, ast.For):
            return self.loop(s, states, fr, rets)
        raise Unclear('statement %s at line %d' % (type(s).__name__, s.lineno))

    def bind(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.put(st, self.name(fr, t.id), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            if v[0] == 'tup' and len(v[1]) == k:
                vs = v[1]
            elif v[0] == 'item' and k == 2:
                vs = [('oneof', v[1]), self.newstr(st)]
            else:
                vs = [UNKNOWN] * k
                if v[0] == 'split' and not any(isinstance(x, ast.Starred) for x in t.elts):
                    self.unpack(t, v, st, k)
                    vs = [self.newstr(st) for _ in range(k)]
            # bind in one go
            held = [self.hoist(x, st, 500 + i) for i, x in enumerate(vs)]
            for x, y in zip(t.elts, held):
                self.bind(x, y, st, fr)

    def unpack(self, t, v, st, k):
        """a, b = s.split(x) when the occurrences of x in s have been counted"""
        for nm, x in st.env.items():
            if x[0] == 'int' and len(x) > 2 and x[1:3] == v[1:3]:
                lo, hi = -st.z.get('0', nm), st.z.get(nm, '0')
                if lo == hi == k - 1:
                    self.note('range', t, 'ok', 'as many parts as names')
                elif lo > -INF and not st.fuzzy and (hi < INF or lo > k - 1):
                    self.note('range', t, 'bad', '%s to %s occurrences of %r split in %d names' % (lo, hi, v[2], k))
                elif not st.fuzzy and lo >= 0:
                    self.note('range', t, 'bad', 'at least %s occurrences of %r split in %d names' % (lo, v[2], k))
                else:
                    self.note('range', t, 'unk', 'number of parts')
                return
        self.note('range', t, 'unk', 'number of parts')

    def loop(self, s, states, fr, rets):
        self.loops += 1
        lid = '^%d_%d' % (s.lineno, self.depth)
        stored = set(x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        carried = self.carried(s)
        measures = []
        if isinstance(s, ast.While):
            measures = sorted(set(x.id for x in ast.walk(s.test) if isinstance(x, ast.Name) and x.id in stored))
            endless = isinstance(s.test, ast.Constant)
            if endless:
                measures = sorted(set(x.id for x in ast.walk(s) if isinstance(x, ast.Name) and x.id in stored and any(
                    isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) and y.target.id == x.id for y in ast.walk(s))))
        source = {}
        exits = []

        def once(states, first):
            """one turn: states back at the head"""
            ins = []
            if isinstance(s, ast.While):
                for st in states:
                    st = st.copy()
                    for m in measures + [c for c in carried if c not in measures]:
                        nm = self.name(fr, m)
                        if st.env.get(nm, ('',))[0] == 'int':
                            st.z.assign(m + lid, nm, 0)
                        elif m + lid in [k for p in st.z.d for k in p]:
                            st.z.forget(m + lid)
                    head = tuple(sorted((c, st.env.get(self.name(fr, c))) for c in carried if st.env.get(self.name(fr, c), ('int',))[0] != 'int'))
                    st.env[lid] = ('head', head)
                    a, b = self.branch(s.test, st, fr)
                    for x in b:
                        self.unmark(x, lid)
                        exits.append(x)
                    ins += a
            else:
                for v, x in (self.source(s, states, fr) if first else [(st.env.get(lid) or v, st) for st in states for v in ([None] if lid in st.env else [])] + self.source(s, [st for st in states if lid not in st.env], fr)):
                    y = x.copy()
                    if v[0] == 'range':
                        T, B = '~t' + lid, '~b' + lid
                        if first:
                            y.z.assign(T, v[1][1], v[1][2])
                            y.z.assign(B, v[2][1], v[2][2])
                            y.env[lid] = ('range',)
                        else:
                            y.z.assign(T, T, 1)
                        e = y.copy()
                        if e.z.add(B, T, 0):
                            self.unmark(e, lid)
                            exits.append(e)
                        if not y.z.add(T, B, -1):
                            continue
                        self.bind(s.target, lin(T), y, fr)
                        ins.append(y)
                        continue
                    elif v[0] == 'stream':
                        self.bind(s.target, ('item', v[1]), y, fr)
                    elif v[0] == 'pairs':
                        self.bind(s.target, ('tup', (('item', v[1]), UNKNOWN)), y, fr)
                    elif v[0] == 'matches':
                        self.bind(s.target, ('m',) + v[1:], y, fr)
                    elif v[0] == 's':
                        self.bind(s.target, ('ch', self.letters, None), y, fr)
                    elif v[0] == 'enum':
                        t = self.fresh()
                        y.z.add('0', t, 0)
                        a, b = v[1][1], v[1][2]
                        if a == lin('0'):
                            y.z.add(t, b[1], b[2] - 1)
                        self.bind(s.target, ('tup', (lin(t), ('ch', self.letters, None))), y, fr)
                    elif v[0] == 'set':
                        for c in v[1]:
                            w = x.copy()
                            self.bind(s.target, ('c', c), w, fr)
                            ins.append(w)
                        exits.append(x)
                        continue
                    else:
                        self.bind(s.target, UNKNOWN, y, fr)
                    exits.append(x)
                    ins.append(y)
            brk, cont = [], []
            end = self.block(s.body, self.merge(self.clean(ins)), fr, brk, cont, rets)
            for x in brk:
                self.unmark(x, lid)
                broken.append(x)
            back = self.merge(end + cont)
            if isinstance(s, ast.While):
                for x in back:
                    self.progress(s, x, measures, carried, lid, fr)
                    self.unmark(x, lid)
            # back at the head: what the next turn reads, and what is read after the loop
            loads, loops = self.scope(self.running[-1])
            live = set(carried) | set(v for v, l in loads.items() if l > s.end_lineno)
            live |= set(x.id for x in ast.walk(s.test if isinstance(s, ast.While) else s.iter) if isinstance(x, ast.Name))
            for a, b, c in loops:
                if a < s.lineno and s.end_lineno <= b:
                    live |= c
            for x in back:
                for k, v in list(x.env.items()):
                    if k.startswith(fr + '.') and (('@' in k) or (k[len(fr) + 1:] in stored and k[len(fr) + 1:] not in live)):
                        del x.env[k]
                        for suffix in ('', '<lo', '<hi', '<pos'):
                            x.z.forget(k + suffix)
            back = self.merge(back)
            return back

        broken = []
        states = self.merge([x.copy() for x in states])
        back = once(states, True)
        heads = {}
        rounds = 0
        work = back
        while work:
            rounds += 1
            if rounds > 60:
                raise Unclear('a loop at line %d does not settle' % s.lineno)
            todo = []
            for st in work:
                k = st.sig()
                if k not in heads:
                    heads[k] = st.copy()
                    todo.append(st)
                elif not st.z.within(heads[k].z):
                    j = heads[k].z.join(st.z)
                    if rounds > 3:
                        j = heads[k].z.widen(j)
                    heads[k].z = j
                    todo.append(heads[k].copy())
            if len(heads) > MAXSTATES:
                raise Unclear('too many cases in the loop at line %d' % s.lineno)
            work = once(todo, False) if todo else []
        normal = self.merge(self.clean(exits))
        if s.orelse:
            normal = self.block(s.orelse, normal, fr, [], [], rets)
        return self.merge(normal + self.clean(broken))

    def source(self, s, states, fr):
        return [y for st in states for y in self.ev(s.iter, st, fr)]

    def unmark(self, st, lid):
        st.env.pop(lid, None)
        for k in list(st.z.d):
            if k[0].endswith(lid) or k[1].endswith(lid):
                del st.z.d[k]

    def fixed(self, s):
        names = [x for x in ast.walk(s) if isinstance(x, ast.Name)]
        return set(x.id for x in names if isinstance(x.ctx, ast.Load)) - set(x.id for x in names if isinstance(x.ctx, ast.Store))

    def carried(self, s):
        """variables read by a turn of the loop before they are written in it"""
        first = {}
        nodes = ([s.test] if isinstance(s, ast.While) else []) + s.body
        inner = set(id(y) for b in nodes for x in ast.walk(b) if isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)) for y in ast.walk(x)
                    if isinstance(y, ast.Name) and y.id in set(z.id for g in x.generators for z in ast.walk(g.target) if isinstance(z, ast.Name)))
        for b in nodes:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and id(x) not in inner:
                    k = (x.lineno, x.col_offset)
                    rd = isinstance(x.ctx, ast.Load)
                    first.setdefault(x.id, []).append((k, rd))
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    first.setdefault(x.target.id, []).append(((x.lineno, -1), True))
        out = []
        stored = set(x.id for b in nodes for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        for v, l in first.items():
            if v not in stored:
                continue
            # values are computed before the names they are given to
            w = min([k for k, rd in l if not rd] or [(10 ** 9, 0)])
            if any(rd and (k[0] < w[0] or k[0] == w[0]) for k, rd in l):
                out.append(v)
        return sorted(out)

    def progress(self, s, st, measures, carried, lid, fr):
        text = ast.unparse(s.test)
        up = []
        for m in measures:
            nm = self.name(fr, m)
            a = st.z.get(m + lid, nm)   # head - now
            b = st.z.get(nm, m + lid)   # now - head
            up.append((m, -a, b))
        if any(lo >= 1 for m, lo, hi in up):
            self.note('advance', s, 'ok', 'while %s' % text)
            return
        head = st.env.get(lid)
        same = tuple(sorted((c, st.env.get(self.name(fr, c))) for c in carried if st.env.get(self.name(fr, c), ('int',))[0] != 'int'))
        ints = all(st.z.get(self.name(fr, c), c + lid) == 0 == st.z.get(c + lid, self.name(fr, c)) for c in carried if st.env.get(self.name(fr, c), ('',))[0] == 'int')
        if up and not st.fuzzy and ints and head is not None and head[1] == same and all(v[0] in ('c', 'ch', 'set', 're') for c, v in same if v is not None) and all(lo > -INF for m, lo, hi in up):
            self.note('advance', s, 'bad', 'a turn of the loop "while %s" may leave %s as it was' % (text, ', '.join(m for m, a, b in up)))
        else:
            self.note('advance', s, 'unk', 'progress of "while %s" is not shown' % text)

    def run(self):
        st = St({}, Zone())
        st.z.add('0', 'L', 0)
        params = [a.arg for a in self.fn.args.args]
        fr = 'm'
        if self.cls is not None and params:
            st.env[self.name(fr, params[0])] = ('self',)
            params = params[1:]
        self.emitted = set()
        for i, p in enumerate(params):
            self.put(st, self.name(fr, p), ('s', lin('0'), lin('L')) if i == 0 else UNKNOWN)
        self.block(self.fn.body, [st], fr, [], [], [])


def x0(vs, st):
    return st


def judge(S, TYPES, R3, R4, R5):
    v = S.get('fog.tokenizers.WordTokenizer')
    pos, scope = v.a[0]
    mod = S.project.module(pos[0])
    cls = [c for c in mod.tree.body if isinstance(c, ast.ClassDef) and c.lineno == pos[1]] or [c for c in mod.tree.body if isinstance(c, ast.ClassDef) and c.name == 'WordTokenizer']
    cls = cls[0] if cls else None

    def scanners(body):
        return [f for f in body if isinstance(f, ast.FunctionDef) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) and any(isinstance(x, ast.While) for x in ast.walk(f))]
    found = [(cls, f) for f in scanners(cls.body)] if cls is not None else []
    found = found or [(None, f) for f in scanners(mod.tree.body)]
    where = S.project.rel(mod.path)
    if len(found) != 1:
        return [unk(R3, where, 'the scanner is not recognised')]
    c, f = found[0]
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))
    a = Scan(mod, cls if c is not None else None, f, TYPES)
    rules = {'advance': R3, 'range': R4, 'types': R5}
    out = []
    try:
        a.run()
    except Unclear as e:
        out.append(unk(R3, '%s:%d' % (where, f.lineno), 'not fully analysed: %s' % e))
    for (k, line, col), (verdict, detail) in sorted(a.obs.items()):
        out.append({'ok': ok, 'bad': bad, 'unk': unk}[verdict](rules[k], '%s:%d' % (where, line), detail))
    if not any(k[0] == 'advance' for k in a.obs):
        out.append(unk(R3, where, 'no loop found'))
    return out
