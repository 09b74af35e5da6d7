"""C16: cluster reports."""
import html
import re
import string
from ..scen import sym
from ..terms import T, mk, const, show, subterms, subst, is_num_const, num, kind, is_numeric, FALSE, TRUE, entails, lit_not
from ..values import seqlen
from ..drive import Missing
from ..verdict import ok, bad, unk, Static
from . import cover

EXPLAIN = ("Taint and escaping analysis of what is printed: the command line entry point is interpreted for each report type on an unknown CSV file. Every text written to the "
           "output is decomposed into constants, numbers, dates and parts derived from the data; the position of a derived part (inside a quoted TOML string, in HTML text, in "
           "a tag) is read off the constants around it, and the chain of string operations applied to it is evaluated from its terms on every character up to U+02FF, on "
           "characters of the other planes and on all pairs of critical characters: the image must be valid at that position and decode to the original. The loops "
           "over clusters and values must run over all of them with every path printing the value; row counts must be those of the counter fed once per row.")
ASSUME = ["csv rows and cells are arbitrary strings", "html.escape and datetime formatting behave as documented"]
LIMIT = 100
MAIN = 'fog.cli.__main__.main'
R1 = 'data is escaped for the format of the report'
R2 = 'every value of every cluster is reported'
R3 = 'row counts are those of the values'
R4 = 'each row counts once'
ROWS = mk('sym', 'csvrows', 'iter', None, 'list')
MATCH = mk('sym', '$match', 'any')
LEAF = mk('sym', '$cell', 'str')
CRITICAL = '"\\\n\r\t\x00\x1f\x7f<>&\'a\u00e9'
CHARS = [chr(i) for i in range(0x300)] + ['\u2028', '\ufeff', '\U0001f600']
SAMPLES = CHARS + [a + b for a in CRITICAL for b in CRITICAL] + ['&amp;', '\\n', '\\u0041', '"""', '</li>', '%s', '{}', '\\"']


class Unclear(Exception):
    pass


def scenarios(tier):
    return [Static('report %s' % f, lambda S, f=f: decide(S, f)) for f in ('html', 'toml')]


# values of string terms --------------------------------------------------------------------------------
PIPE = ('str', 'str.replace', 're.sub', 're.subf', 'html.escape', 'str.translate', 'str.strip', 'str.lower', 'str.upper', 'html.unescape', 'str.lstrip', 'str.rstrip',
        'str.title', 'str.capitalize', 'str.join', 'fmt', 'repr', 'str.format', 'str.%', 'json.dumps', 'str.encode', 'str.decode', 'str.ljust', 'str.rjust', 'str.expandtabs')


class Value(object):
    """evaluates a chain of string operations for one cell content"""

    def __init__(self, I, e):
        self.I, self.e = I, e
        self.fns = {}

    def leaf(self, t):
        """the data a part is made from"""
        while True:
            if t.op == 'lib' and t.a[0] in PIPE:
                n = t.a[0]
                i = 3 if n in ('re.sub', 're.subf') else 2 if n in ('fmt', 'str.format', 'str.%', 'str.join') else 1
                if i >= len(t.a):
                    return t
                x = t.a[i]
                if n == 'str.join' and x.op == 'gseq':
                    h = x.a[2]
                    if h.op == 'len' and kind(h.a[0]) == 'str':
                        t = h.a[0]
                        continue
                    return t
                t = x
            elif t.op == 'concat':
                l = [x for x in t.a if x.op != 'const']
                if len(l) != 1:
                    return t
                t = l[0]
            else:
                return t

    def val(self, t, env):
        """python value of the term"""
        if t in env:
            return env[t]
        if t.op == 'const':
            return t.a[1]
        if is_num_const(t):
            return int(num(t))
        if t.op == 'concat':
            return ''.join(self.str(x, env) for x in t.a)
        if t.op == 'ord':
            s = self.str(t.a[0], env)
            if len(s) != 1:
                raise Unclear('ord of %r' % s)
            return ord(s)
        if t.op == 'len':
            return len(self.str(t.a[0], env))
        if t.op in ('item', 'at') and len(t.a) >= 2 and isinstance(t.a[1], T):
            if t.a[0].op == 'dictlit':
                k = self.val(t.a[1], env)
                d = dict((self.val(a, env), b) for a, b in t.a[0].a)
                if k in d:
                    return self.val(d[k], env)
            else:
                s, i = self.str(t.a[0], env), self.val(t.a[1], env)
                if isinstance(i, int) and -len(s) <= i < len(s):
                    return s[i]
            raise Unclear(show(t)[:60])
        if t.op == 'slc':
            s = self.str(t.a[0], env)
            return s[self.val(t.a[1], env):self.val(t.a[2], env)]
        if t.op == 'poly':
            r = 0
            for mono, c in t.a:
                p = c
                for x, k in mono:
                    p = p * self.val(x, env) ** k
                r += p
            return int(r)
        if t.op == 'lib':
            return self.lib(t, env)
        if t.op == 'ite' and len(t.a) == 3:
            return self.val(t.a[1] if self.truth(t.a[0], env) else t.a[2], env)
        raise Unclear(show(t)[:60])

    def str(self, t, env):
        v = self.val(t, env)
        if not isinstance(v, str):
            raise Unclear(show(t)[:60])
        return v

    def truth(self, l, env):
        if l.op == 'not':
            return not self.truth(l.a[0], env)
        if l.op == 'eq':
            return self.val(l.a[0], env) == self.val(l.a[1], env)
        if l.op == 'in':
            c = l.a[1]
            x = self.val(l.a[0], env)
            if c.op in ('lit', 'setlit', 'tuple'):
                return any(x == self.val(y, env) for y in c.a)
            if c.op == 'dictlit':
                return any(x == self.val(y, env) for y, _ in c.a)
            return x in self.str(c, env)
        if l.op in ('le', 'lt', 'eq0') and len(l.a) == 1:
            v = self.val(l.a[0], env)
            return v <= 0 if l.op == 'le' else v < 0 if l.op == 'lt' else v == 0
        if l is TRUE or l is FALSE:
            return l is TRUE
        raise Unclear(show(l)[:60])

    def regex(self, r):
        if r.op == 'lib' and r.a[0] == 're' and r.a[1].op == 'const' and r.a[1].a[1] != '<emoji>' and is_num_const(r.a[2]):
            return re.compile(r.a[1].a[1], int(num(r.a[2])))
        raise Unclear(show(r)[:60])

    def lib(self, t, env):
        n, a = t.a[0], t.a[1:]
        if n == 'str':
            v = self.val(a[0], env)
            return v if isinstance(v, str) else str(v)
        if n == 'str.replace':
            return self.str(a[0], env).replace(*[self.val(x, env) for x in a[1:]])
        if n in ('str.strip', 'str.lstrip', 'str.rstrip', 'str.lower', 'str.upper', 'str.title', 'str.capitalize', 'str.expandtabs', 'str.ljust', 'str.rjust'):
            return getattr(self.str(a[0], env), n[4:])(*[self.val(x, env) for x in a[1:]])
        if n == 'html.escape':
            return html.escape(self.str(a[0], env), bool(self.val(a[1], env)) if len(a) > 1 else True)
        if n == 'html.unescape':
            return html.unescape(self.str(a[0], env))
        if n == 're.sub' and len(a) == 3:
            return self.regex(a[0]).sub(self.str(a[1], env), self.str(a[2], env))
        if n == 're.subf' and len(a) == 3:
            body = self.body(a[1])
            rx = self.regex(a[0])
            return rx.sub(lambda m: self.pick(body, m, env), self.str(a[2], env))
        if n == 'str.translate' and a[1].op == 'dictlit':
            d = {}
            for k, v in a[1].a:
                k, v = self.val(k, env), self.val(v, env)
                d[ord(k) if isinstance(k, str) else k] = v
            return self.str(a[0], env).translate(d)
        if n in ('fmt', 'fmtnum'):
            return self.str(a[0], env) % (self.val(a[1], env),)
        if n == 'str.%':
            return self.str(a[0], env) % tuple(self.val(x, env) for x in a[1:])
        if n == 'str.format':
            return self.str(a[0], env).format(*[self.val(x, env) for x in a[1:]])
        if n in ('m.group', 'group') or n.endswith('.group'):
            if len(a) == 1 and a[0] in env or len(a) == 2 and is_num_const(a[1]) and num(a[1]) == 0:
                return env[a[0]]
        if n == 'str.join' and a[1].op == 'gseq':
            sep = self.str(a[0], env)
            q, lo, hi, cases = a[1].a
            out = []
            for i in range(int(self.val(lo, env)), int(self.val(hi, env))):
                e2 = dict(env)
                e2[q] = i
                for guards, elems in cases:
                    if all(self.truth(g, e2) for g in guards):
                        out += [self.str(x, e2) for x in elems]
            return sep.join(out)
        raise Unclear(show(t)[:60])

    def body(self, f):
        """results of a replacement function: [(facts, term)]"""
        if f not in self.fns:
            r = [(s.facts - self.e.st.facts, v) for v, s in self.I.call(f, [MATCH], {}, self.e.st, self.e.node)]
            self.fns[f] = r
        return self.fns[f]

    def pick(self, body, m, env):
        e2 = dict(env)
        e2[MATCH] = m.group()
        # m[0]
        for facts, v in body:
            if all(self.truth(f, e2) for f in facts):
                return self.str(v, e2)
        raise Unclear('replacement function')


# positions ----------------------------------------------------------------------------------------------
def trusted(t):
    """a part that cannot carry data of the file as text"""
    if t.op == 'const' or is_numeric(t) or kind(t) in ('int', 'num', 'bool'):
        return True
    if t.op == 'concat':
        return all(trusted(x) for x in t.a)
    if t.op == 'lib':
        n = t.a[0]
        if n in ('fmtnum', 'str.*'):
            return all(trusted(x) for x in t.a[1:] if isinstance(x, T)) or n == 'fmtnum'
        if n.startswith('datetime.') or n.startswith('m.isoformat') or n.startswith('m.strftime') or n.startswith('m.total_seconds') or n.startswith('timeit.') or n.startswith('time.'):
            return True
        return len(t.a) > 1 and all(trusted(x) for x in t.a[1:] if isinstance(x, T))
    if t.op in ('item', 'at', 'slc', 'lit', 'tuple', 'round'):
        return all(trusted(x) for x in t.a if isinstance(x, T))
    return False


def flat(t):
    if t.op == 'concat':
        return [y for x in t.a for y in flat(x)]
    if t.op == 'lib' and t.a[0] == 'str.format' and t.a[1].op == 'const':
        out, i = [], 0
        try:
            for txt, field, spec, conv in string.Formatter().parse(t.a[1].a[1]):
                if txt:
                    out.append(const(txt))
                if field is not None:
                    k = int(field) if field else i
                    i += 1
                    x = t.a[2 + k]
                    out.append(x if not spec and not conv else mk('lib', 'fmtnum', const(spec), x) if trusted(x) else mk('lib', 'fmt', const('?'), x))
            return out
        except Exception:
            return [t]
    return [t]


def toml_ok(s, want):
    """s, between double quotes, is a basic string meaning want"""
    out, i = '', 0
    while i < len(s):
        c = s[i]
        if c == '"' or (ord(c) < 0x20 and c != '\t') or c == '\x7f':
            return False
        if c == '\\':
            n = s[i + 1:i + 2]
            if n and n in 'btnfr"\\':
                out += dict(b='\b', t='\t', n='\n', f='\f', r='\r').get(n, n)
                i += 2
                continue
            k = {'u': 4, 'U': 8}.get(n)
            h = s[i + 2:i + 2 + k] if k else ''
            if not k or len(h) != k or not re.fullmatch('[0-9a-fA-F]+', h):
                return False
            out += chr(int(h, 16))
            i += 2 + k
            continue
        out += c
        i += 1
    return out == want


def html_ok(s, want, attr):
    if '<' in s or '>' in s:
        return False
    if attr and ('"' in s or "'" in s):
        return False
    if '&' in s and html.unescape(s).count('&') != want.count('&'):
        return False
    return html.unescape(s) == want


class Doc(object):
    """lexical state of the report across the texts printed"""

    def __init__(self, fmt):
        self.fmt = fmt
        self.quote = None
        self.tag = False

    def const(self, s):
        i = 0
        while i < len(s):
            c = s[i]
            if self.fmt == 'toml':
                if self.quote and self.quote == '"' and c == '\\':
                    i += 2
                    continue
                if c in '"\'':
                    if self.quote is None:
                        self.quote = c
                    elif self.quote == c:
                        self.quote = None
                elif c == '\n':
                    self.quote = None
            else:
                if self.tag:
                    if self.quote is None and c in '"\'':
                        self.quote = c
                    elif self.quote == c:
                        self.quote = None
                    elif self.quote is None and c == '>':
                        self.tag = False
                elif c == '<':
                    self.tag = True
            i += 1


# checks -----------------------------------------------------------------------------------------------
def texts(e):
    """terms written by an event"""
    if e.kind == 'print':
        return list(e.args)
    return [a for a in e.args]


def decide(S, fmt):
    name = 'report %s' % fmt
    out_f = sym('output', 'any')
    S.I.parsed = dict(action=const('cluster'), column=sym('column', 'str'), file=sym('file', 'any'), output=out_f, type=const(fmt), algorithm=const('fingerprint_collision'))
    try:
        run = S.run(MAIN, [], limit=60)
    except Missing as e:
        return [unk(R1, MAIN, 'no %s' % e)]
    finally:
        S.I.parsed = None
    if run.lossy:
        return [unk(R1, MAIN, run.lossy)]
    out = {}

    def put(o):
        out.setdefault((o.rule, o.where, o.verdict, o.detail), o)
    evs = [e for e in run.log if e.kind == 'print' or e.kind == 'extmeth' and e.name in ('write', 'writelines') and e.target is out_f]
    if not evs:
        return [unk(R1, MAIN, 'nothing is printed')]
    shown = []          # (event, part, leaf): data printed
    n = 0
    for e in evs:
        d = Doc(fmt)
        where = where_of(e)
        for t in texts(e):
            for p in flat(t):
                if p.op == 'const':
                    d.const(str(p.a[1]))
                    continue
                if trusted(p):
                    continue
                V = Value(S.I, e)
                leaf = V.leaf(p)
                if leaf.op not in ('item', 'at', 'dkey', 'min', 'max', 'sym'):
                    put(unk(R1, where, '%s: %s is not followed' % (name, show(leaf)[:80])))
                    continue
                shown.append((e, p, leaf))
                n += 1
                try:
                    b = escaped(V, p, leaf, d, fmt)
                except Unclear as u:
                    put(unk(R1, where, '%s: %s' % (name, u)))
                    continue
                if b is None:
                    put(ok(R1, where, '%s: %s, %d contents' % (name, show(leaf)[:60], len(SAMPLES))))
                else:
                    put(bad(R1, where, '%s: %s' % (name, b)))
    if not n:
        put(unk(R2, MAIN, '%s: no data is printed' % name))
        return list(out.values())
    loops = {}
    for e in run.log:
        if e.kind in ('iterend', 'cut'):
            loops.setdefault(e.loop, []).append(e)
    coverage(S, run, evs, shown, loops, fmt, name, put)
    counted(S, run, loops, name, put)
    return list(out.values())


def where_of(e):
    """the text printed, and the call it comes from"""
    try:
        m, l, c = e.ctx[-1]
        return '%s (called from %s:%d)' % (e.where(), m, l)
    except (TypeError, ValueError, IndexError):
        return e.where()


def escaped(V, p, leaf, d, fmt):
    """what is wrong with the way part p of a text is printed, or None"""
    if fmt == 'toml' and d.quote is None:
        # outside of any string
        return 'data is printed outside of a quoted string'
    if fmt == 'toml' and d.quote == "'":
        raise Unclear('literal string')
    if fmt == 'html' and d.tag and d.quote is None:
        return 'data is printed inside a tag'
    for s in SAMPLES:
        v = V.str(p, {leaf: s})
        if fmt == 'toml':
            if not toml_ok(v, s):
                return 'a cell holding %r is printed as "%s"' % (s, v.encode('unicode_escape').decode())
        elif not html_ok(v, s, d.tag):
            return 'a cell holding %r is printed as %r' % (s, v)
    return None


def content(S, st, t):
    """peel copies and reorderings"""
    for _ in range(12):
        if t.op == 'obj':
            o = S.I.getobj(st, t)
            if o is None or o.content is None:
                # nobody holds it any more: contents it was made with
                al = S.I.sitealloc.get(t.a[0])
                o = al[1] if al is not None and al[0] is not None and al[0].a[0] == t.a[0] and al[0] is t else None
                if o is None or o.content is None:
                    return t, None
            t = o.content
            continue
        c, why = cover.base(t)
        if why:
            return c, why
        if c is t:
            return t, None
        t = c
    return t, None


def same(S, st, a, b):
    return a is b or content(S, st, a)[0] is content(S, st, b)[0]


def binderloop(e, b):
    for a in e.active:
        if a[1] is b:
            return a
    return None


def coverage(S, run, evs, shown, loops, fmt, name, put):
    """the values printed one by one"""
    I = S.I
    listed = [(e, p, x) for e, p, x in shown if x.op in ('item', 'at') and isinstance(x.a[1], T) and x.a[1].op == 'bnd' and binderloop(e, x.a[1])]
    if not listed:
        return put(unk(R2, MAIN, '%s: the values are not printed in a loop' % name))
    # the loops printing them, seen from each cluster
    inner = set(binderloop(e, x.a[1])[0] for e, p, x in listed)
    outer = set()
    for lk in inner:
        es = [(e, x) for e, p, x in listed if binderloop(e, x.a[1])[0] == lk]
        e, x = es[0]
        act = [a for a in e.active if a[0] == lk][0]
        up = [a for a in e.active[:e.active.index(act)] if a[0][0] != 'u']
        c, why = content(S, e.st, x.a[0])
        if why:
            put(bad(R2, e.where(), '%s: %s of the values of a cluster' % (name, why)))
            continue
        if not up or not (c.op in ('item', 'at') and c.a[1] is up[-1][1]):
            put(unk(R2, e.where(), '%s: %s is not recognised as the values of a cluster' % (name, show(c)[:80])))
            continue
        outer.add(up[-1][0])
        full = all_of(y_bounds(loops[lk]), x.a[0], c, S, e.st)
        if full is not True:
            put((bad if full is False else unk)(R2, e.where(), '%s: the loop over the values of a cluster does not cover them' % name))
            continue
        for y in loops[lk]:
            if y.kind == 'cut':
                if y.how in ('brk', 'ret'):
                    put(bad(R2, y.where(), '%s: the loop over the values may stop early' % name))
            elif not any(any(z is e2 for z in y.trace) for e2, x2 in es):
                put(bad(R2, y.where(), '%s: a value may be left out, under [%s]' % (name, fmtfacts(y))))
            else:
                put(ok(R2, y.where(), '%s: each value of the cluster is printed' % name))
        if fmt == 'toml':
            for e2, x2 in es:
                cs = [p for t in texts(e2) for p in flat(t) if p.op == 'lib' and p.a[0] in ('fmtnum', 'str', 'fmt') and any(z.op == 'cnt' or is_numeric(z) for z in p.a[1:] if isinstance(z, T))]
                ck = [z for p in cs for z in subterms(p) if z.op in ('cnt', 'at', 'item') and len(z.a) > 1 and z.a[1] is x2]
                if ck:
                    put(ok(R3, e2.where(), '%s: printed with its number of rows' % name))
                elif not cs:
                    put(bad(R3, e2.where(), '%s: a value is printed without its number of rows' % name))
                else:
                    put(unk(R3, e2.where(), '%s: %s is not recognised as its number of rows' % (name, show(cs[-1])[:80])))
        # the clusters
        col = c.a[0]
        c2, why = content(S, e.st, col)
        if why:
            put(bad(R2, e.where(), '%s: %s of the clusters' % (name, why)))
            continue
        olk = up[-1][0]
        full = all_of(y_bounds(loops[olk]), col, c2, S, e.st)
        if full is not True:
            put((bad if full is False else unk)(R2, e.where(), '%s: the loop over the clusters does not cover them' % name))
            continue
        for y in loops[olk]:
            if y.kind == 'cut':
                if y.how in ('brk', 'ret'):
                    put(bad(R2, y.where(), '%s: the loop over the clusters may stop early' % name))
                continue
            if not any(z.kind == 'ran' and z.d['loop'] in inner for z in y.trace):
                if empty(S, y, c):
                    continue
                put(bad(R2, y.where(), '%s: the values of a cluster may be left out, under [%s]' % (name, fmtfacts(y))))
                continue
            put(ok(R2, y.where(), '%s: the values of each cluster are printed' % name))
            total(S, y, c, name, put)


def empty(S, y, c):
    return entails(y.facts, lit_not(S.I.truth(c, y.st)))


def total(S, y, c, name, put):
    """the cluster's number of rows"""
    sums = [(z, s) for z in y.trace if z.kind in ('print', 'extmeth') and 'args' in z.d for t in z.args for p in flat(t) for s in subterms(p) if s.op in ('sum', 'gsum')]
    if not sums:
        return
    for z, s in sums:
        if s.op != 'sum' or len(s.a) != 4 or len(s.a[3]) != 1:
            put(unk(R3, z.where(), '%s: %s' % (name, show(s)[:80])))
            continue
        q, lo, hi, ((guards, el),) = s.a
        hits = [u for u in subterms(el) if u.op in ('cnt', 'at', 'item') and len(u.a) > 1 and isinstance(u.a[1], T) and u.a[1].op in ('item', 'at') and u.a[1].a[1] is q]
        if guards or not (is_num_const(lo) and num(lo) == 0) or el.op == 'poly':
            put(bad(R3, z.where(), '%s: the rows of a cluster are not the sum of those of its values' % name))
        elif hits and content(S, z.st, hits[0].a[1].a[0])[0] is c and hi is seqlen(c) and el is hits[0]:
            put(ok(R3, z.where(), '%s: rows of the cluster' % name))
        else:
            put(unk(R3, z.where(), '%s: %s' % (name, show(s)[:80])))


def y_bounds(l):
    y = [x for x in l if x.kind == 'iterend']
    return (y[0].lo, y[0].hi) if y else (l[0].lo, l[0].hi)


def all_of(b, col, c, S, st):
    lo, hi = b
    if lo is None or hi is None:
        return None
    if is_num_const(lo) and num(lo) > 0:
        return False
    if not is_num_const(lo):
        return None
    for x in (col, c):
        if hi is seqlen(x) or hi is S.I.length(x, st):
            return True
    if hi.op == 'min':
        return False
    return None


def fmtfacts(y):
    h = y.get('head')
    return '; '.join(sorted(show(f)[:60] for f in set(y.facts) - (set(h.facts) if h is not None else set())))[:200]


def counted(S, run, loops, name, put):
    """the counter is fed once per row with the cell of the column"""
    for lk, l in loops.items():
        y0 = [y for y in l if y.kind == 'iterend' and y.hi is not None and y.hi.op == 'len' and y.hi.a[0] is ROWS]
        if not y0:
            continue
        for y in l:
            if y.kind == 'cut':
                if y.how in ('brk', 'ret'):
                    put(bad(R4, y.where(), '%s: the rows after this one are not read' % name))
                continue
            inc = [z for z in y.trace if z.kind == 'inc']
            if len(inc) == 1:
                k, dl = inc[0].key, inc[0].delta
                if not is_num_const(dl) or num(dl) != 1:
                    put(bad(R4, inc[0].where(), '%s: a row counts for %s' % (name, show(dl)[:40])))
                elif k.op in ('item', 'at') and k.a[0].op in ('item', 'at') and k.a[0].a[0] is ROWS:
                    put(ok(R4, inc[0].where(), '%s: the cell of each row is counted once' % name))
                else:
                    put(unk(R4, inc[0].where(), '%s: %s is counted' % (name, show(k)[:60])))
            elif not inc:
                if any(z.kind == 'ins' for z in y.trace):
                    put(unk(R4, y.where(), '%s: rows are gathered another way' % name))
                else:
                    put(bad(R4, y.where(), '%s: a row may not be counted, under [%s]' % (name, fmtfacts(y))))
            else:
                put(unk(R4, y.where(), '%s: several counters' % name))
