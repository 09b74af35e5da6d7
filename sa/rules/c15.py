"""C15: command-line CSV output."""
from ..scen import sym
from ..terms import cmp_lit, T, mk, const, show, subterms, subst, entails, lit_not, is_num_const, num, TRUE, FALSE
from ..drive import Missing
from ..values import seqlen
from ..verdict import ok, bad, unk, Static

EXPLAIN = ("Row-layout analysis: the command line entry point is interpreted with the options of split and transform fixed to every combination (column name, separator, "
           "target and new names stay symbols) and csv.reader replaced by an unknown sequence of equally long rows. Each writerow is reduced to a layout, the list of its "
           "cells in terms of the cells of the input row, evaluated for every small row width and column position (slices, insertions and in-place writes are linear in "
           "both). The header layout and every row layout must be the announced ones, each path through the loop over the rows must write the row (each piece of it once, "
           "for split), no path may leave that loop early and nothing else may be read from the input.")
ASSUME = ["the new column names given on the command line are not empty", "csv.reader yields rows of equal length, as many as the header has columns", "the target column is a column of the file"]
LIMIT = 100
MAIN = 'fog.cli.__main__.main'
R1 = 'the header announces the columns written'
R2 = 'each row has the cells its header announces'
R3 = 'every input row is written'
ROWS = mk('sym', 'csvrows', 'iter', None, 'list')
COL, TGT, NEW, SEP = sym('column', 'str'), sym('target_column', 'str'), sym('rename_column', 'str'), sym('separator', 'str')
NONE = const(None)


class Unclear(Exception):
    pass


def scenarios(tier):
    out = []
    for t in (NONE, TGT):
        for r in (NONE, NEW):
            out.append(task('split', dict(target_column=t, rename_column=r)))
        for a in (False, True):
            for e in (False, True):
                out.append(task('transform', dict(target_column=t, after=const(a), eval=const(e))))
    return out


def task(cmd, opts):
    name = '%s %s' % (cmd, ' '.join('%s=%s' % (k, 'given' if v.op == 'sym' else v.a[1]) for k, v in sorted(opts.items())))
    return Static(name, lambda S: decide(S, cmd, opts, name))


def row(t):
    return t.op in ('item', 'at') and t.a[0] is ROWS


class Varying(Exception):
    pass


class Layout(object):
    """cells of a list term for one width and position"""

    def __init__(self, W, P, run):
        self.W, self.P, self.run = W, P, run
        self.lv = {}
        self.memo = {}

    def sub(self, t, q=None):
        m = dict(q or {})
        for x in subterms(t):
            if x.op == 'len' and row(x.a[0]):
                m[x] = const(self.W)
            elif x.op == 'lib' and x.a[0] == 'str.index' and self.isheader(x.a[1]) and x.a[2] is COL:
                m[x] = const(self.P)
        return subst(t, m)

    def isheader(self, t):
        if row(t):
            return True
        return t.op == 'cat' and row(t.a[0])

    def int(self, t, q=None):
        if t is NONE:
            return None
        t = self.sub(t, q)
        if is_num_const(t):
            return int(num(t))
        raise Unclear(show(t)[:80])

    def feasible(self, facts):
        for f in facts:
            g = self.sub(f)
            if g is FALSE or entails(frozenset(), lit_not(g)):
                return False
        return True

    def cell(self, t, q=None):
        if q:
            t = subst(t, q)
        if t.op in ('item', 'at') and len(t.a) >= 2 and isinstance(t.a[0], T) and row(t.a[0]):
            try:
                i = self.int(t.a[1])
            except Unclear:
                return ('v', t)
            return ('in', t.a[0], i % self.W if -self.W <= i < self.W else i)
        return ('v', t)

    def cells(self, t):
        op = t.op
        if row(t):
            return [('in', t, j) for j in range(self.W)]
        if op == 'lit':
            return [self.cell(x) for x in t.a]
        if op == 'cat':
            return [c for x in t.a for c in self.cells(x)]
        if op == 'slc':
            return self.cells(t.a[0])[self.int(t.a[1]):self.int(t.a[2])]
        if op in ('listof', 'rev') and len(t.a) == 1:
            l = self.cells(t.a[0])
            return l[::-1] if op == 'rev' else l
        if op in ('lput', 'linsert'):
            l = list(self.cells(t.a[0]))
            k = self.int(t.a[1])
            if op == 'linsert':
                l.insert(k, self.cell(t.a[2]))
            else:
                if not -len(l) <= k < len(l):
                    raise Unclear('index out of the row')
                l[k] = self.cell(t.a[2])
            return l
        if op == 'gseq':
            q, lo, hi, cases = t.a
            out = []
            for i in range(self.int(lo), self.int(hi)):
                m = {q: const(i)}
                for guards, elems in cases:
                    gs = [self.sub(g, m) for g in guards]
                    if any(g is FALSE or entails(frozenset(), lit_not(g)) for g in gs):
                        continue
                    if not all(g is TRUE or entails(frozenset(), g) for g in gs):
                        raise Unclear(show(gs[0])[:80])
                    out += [self.cell(x, m) for x in elems]
            return out
        if op == 'lv':
            return self.changing(t)
        raise Unclear(show(t)[:80])

    def changing(self, t):
        """contents of a row changed by earlier iterations of a loop: positions written there hold anything"""
        if t in self.lv:
            return self.lv[t]
        ends = [e for e in self.run.log if e.kind == 'iterend' and e.loop == t.a[0]]
        if not ends or not (isinstance(t.a[1], tuple) and t.a[1][0] == 'content'):
            raise Unclear(show(t)[:80])
        o = t.a[1][1]
        cur = None
        for e in ends:
            x = e.entry.ob.get(o)
            if x is None or x.content is None:
                raise Unclear(show(t)[:80])
            cur = self.join(cur, self.cells(x.content))
        for _ in range(4):
            self.lv[t] = cur
            new = cur
            for e in ends:
                x = e.end.ob.get(o)
                if x is None or x.content is None:
                    raise Unclear(show(t)[:80])
                new = self.join(new, self.cells(x.content))
            if new == cur:
                return cur
            cur = new
        raise Unclear(show(t)[:80])

    def join(self, a, b):
        if a is None:
            return list(b)
        if len(a) != len(b):
            raise Varying()
        return [x if x == y else ('any',) for x, y in zip(a, b)]


def fmt(c):
    return '?' if c[0] == 'any' else show(c[1])[:40] if c[0] == 'v' else '%s[%d]' % ('header' if header(c[1]) else 'row', c[2])


def header(r):
    return r.a[1].op != 'bnd'


def decide(S, cmd, opts, name):
    p = dict(action=const(cmd), column=COL, file=sym('file', 'any'), output=sym('output', 'any'), separator=SEP, operations=const('lower,strip'))
    p.update(opts)
    S.I.parsed = p
    try:
        run = S.run(MAIN, [], limit=60, facts=[cmp_lit('>=', seqlen(x), const(1)) for x in (TGT, NEW, SEP)])
    except Missing as e:
        return [unk(R1, MAIN, 'no %s' % e)]
    finally:
        S.I.parsed = None
    if run.lossy:
        return [unk(R1, MAIN, run.lossy)]
    out = {}

    def put(o):
        out.setdefault((o.rule, o.where, o.verdict, o.detail), o)
    tops = [st for k, st, v in run.outs if k not in ('raise', 'esc')]
    if not tops:
        return [unk(R1, MAIN, 'no path ends normally')]
    loops = {}
    for e in run.log:
        if e.kind in ('iterend', 'cut'):
            loops.setdefault(e.loop, []).append(e)
    # loops over the rows: those whose binder selects a row of the input
    main = set(e.loop for l in loops.values() for e in l if e.kind == 'iterend' and e.hi is not None and e.hi.op == 'len' and e.hi.a[0] is ROWS)
    writes = [e for e in run.log if e.kind == 'write']
    if not writes or not main:
        return [unk(R1, MAIN, 'no row is read and written the way this rule follows')]
    for w in writes:
        o = S.I.getobj(w.st, w.target)
        if o is not None and o.x and o.x[0] is not p['output']:
            put(bad(R3, w.where(), '%s: written to %s instead of the output' % (name, show(o.x[0])[:60])))
    heads = [w for w in writes if not any(a[0] in main for a in w.active)]
    rows = [w for w in writes if any(a[0] in main for a in w.active)]
    # exactly one header, before the rows
    for st in tops:
        n = [x for x in st.trace if x.kind == 'write']
        ran = [i for i, x in enumerate(st.trace) if x.kind == 'ran' and x.d['loop'] in main]
        if len(n) != 1:
            put(bad(R1, n[1].where() if n else MAIN, '%s: %d rows are written outside the loop over the rows' % (name, len(n))))
        elif ran and st.trace.index(n[0]) > ran[0]:
            put(bad(R1, n[0].where(), '%s: the header is written after the rows' % name))
        reads = [x for x in st.trace if x.kind == 'consume' and x.source is ROWS]
        if len(reads) != 2:
            put(bad(R3, reads[-1].where(), '%s: the input is read %d times' % (name, len(reads))) if len(reads) > 2 else unk(R3, MAIN, 'the header is not read apart'))
    for w in heads:
        layout(w, run, lambda W, P: expected(W, P, opts, lambda j: ('in', None, j), opts.get('rename_column'), lambda c: c == ('v', TGT), cmd), R1, name, put)
    new = value(cmd, opts)
    for w in rows:
        layout(w, run, lambda W, P: expected(W, P, opts, lambda j: ('in', w, j), None, lambda c: new(c, w, P), cmd, True), R2, name, put)
    # every path writes
    for lk in main:
        for e in loops[lk]:
            if e.kind == 'cut':
                if e.how in ('brk', 'ret'):
                    put(bad(R3, e.where(), '%s: the rows after this one are not read' % name))
                continue
            c = count(e, loops, main)
            if c is None:
                put(unk(R3, e.where(), '%s: how many times a row is written is not decided' % name))
            elif c == 0:
                put(bad(R3, e.where(), '%s: a row may be left out, under [%s]' % (name, '; '.join(sorted(show(f)[:60] for f in set(e.facts) - set(e.head.facts))))))
            elif c == 1:
                put(ok(R3, e.where(), '%s: written once' % name))
            elif c == 'each':
                put(ok(R3, e.where(), '%s: written once for each piece' % name))
            elif c == 'some':
                put(bad(R3, e.where(), '%s: some pieces are not written' % name))
            else:
                put(bad(R3, e.where(), '%s: a row is written %s times' % (name, c)))
    return list(out.values())


def count(e, loops, main):
    n = sum(1 for x in e.trace if x.kind == 'write')
    inner = [x.d['loop'] for x in e.trace if x.kind == 'ran' and any(y.kind == 'iterend' and any(z.kind == 'write' for z in y.trace) or y.kind == 'iterend' and nest(y, loops) for y in loops.get(x.d['loop'], ()))]
    if not inner:
        return n
    if n or len(inner) > 1:
        return None
    for y in loops[inner[0]]:
        if y.kind == 'cut':
            if y.how in ('brk', 'ret'):
                return None
            continue
        if sum(1 for z in y.trace if z.kind == 'write') != 1:
            return 0 if not any(z.kind == 'write' for z in y.trace) and not nest(y, loops) else None
    y = [x for x in loops[inner[0]] if x.kind == 'iterend'][0]
    ps = pieces(y)
    if ps is None:
        return None
    return 'each' if ps else 'some'


def nest(y, loops):
    return any(x.kind == 'ran' and any(z.kind == 'write' for w in loops.get(x.d['loop'], ()) if w.kind == 'iterend' for z in w.trace) for x in y.trace)


def pieces(y):
    """the loop runs over all pieces of a split"""
    h = y.hi
    if h is None:
        return None
    if not (is_num_const(y.lo) and num(y.lo) == 0):
        return False if is_num_const(y.lo) and num(y.lo) > 0 else None
    if h.op == 'min' and any(is_num_const(x) for x in h.a) and any(x.op == 'len' and x.a[0].op == 'lib' and x.a[0].a[0] == 'str.split' for x in h.a):
        return False
    if h.op == 'len' and h.a[0].op == 'lib' and h.a[0].a[0] == 'str.split':
        return len(h.a[0].a) == 3 and h.a[0].a[2] is SEP
    return None


def value(cmd, opts):
    def split(c, w, P):
        if c[0] == 'in':
            return empty(w) and c[2] == P and not header(c[1])
        if c[0] != 'v':
            return None
        t = c[1]
        if t.op == 'const' and t.a[1] == '':
            return empty(w)
        s = [x for x in subterms(t) if x.op == 'lib' and x.a[0] == 'str.split']
        if t.op in ('item', 'at'):
            if s and (len(s[0].a) != 3 or s[0].a[2] is not SEP):
                return False
            return True if t.a[1].op == 'bnd' else None if not is_num_const(t.a[1]) else False
        return None

    def empty(w):
        """the cell is known to be empty here"""
        return any(f.op == 'eq0' and any(x.op == 'len' for x in subterms(f)) or f.op == 'not' and f.a[0].op in ('truthy',) or f.op == 'eq' and any(x.op == 'const' and x.a[1] == '' for x in f.a) for f in w.facts)

    def transform(c, w, P):
        if c[0] == 'in':
            return False
        if c[0] != 'v':
            return None
        t = c[1]
        src = [x for x in subterms(t) if x.op in ('item', 'at') and len(x.a) >= 2 and isinstance(x.a[0], T) and row(x.a[0])]
        if not src or any(header(x.a[0]) for x in src):
            return False
        if opts['eval'].a[1]:
            return True if t.op == 'eval' or any(x.op == 'lib' and x.a[0] == 'eval' for x in subterms(t)) or 'eval' in show(t)[:5] else None
        names = [x.a[0] for x in chain(t)]
        return names == ['str.strip', 'str.lower'] if all(n.startswith('str.') for n in names) else None
    return split if cmd == 'split' else transform


def chain(t):
    out = []
    while t.op == 'lib' and isinstance(t.a[0], str) and len(t.a) > 1 and isinstance(t.a[1], T):
        out.append(t)
        t = t.a[1]
    return out


def expected(W, P, opts, cell, rename, new, cmd, isrow=False):
    l = [cell(j) for j in range(W)]
    if rename is not None and rename.op == 'sym':
        l[P] = ('v', rename)
    if opts['target_column'].op == 'sym':
        at = P + 1 if cmd == 'transform' and opts['after'].a[1] else W
        l.insert(at, new)
    elif isrow:
        l[P] = new
    return l


def layout(w, run, want, rule, name, put):
    done = 0
    for W in range(1, 5):
        for P in range(W):
            L = Layout(W, P, run)
            if not L.feasible(w.facts):
                continue
            try:
                got = L.cells(w.row)
            except Unclear as e:
                return put(unk(rule, w.where(), '%s: %s' % (name, e)))
            except Varying:
                return put(bad(rule, w.where(), '%s: the row written changes its length from one iteration to the next' % name))
            exp = want(W, P)
            if len(got) != len(exp):
                return put(bad(rule, w.where(), '%s: %d cells are written instead of %d (row of %d cells, column %d)' % (name, len(got), len(exp), W, P)))
            for i, (g, x) in enumerate(zip(got, exp)):
                if callable(x):
                    r = x(g)
                    if r is None:
                        return put(unk(rule, w.where(), '%s: the new value %s is not understood' % (name, fmt(g))))
                elif x[0] == 'in':
                    r = g[0] == 'in' and g[2] == x[2] and header(g[1]) == (x[1] is None)
                    if g[0] == 'any' or g[0] == 'v' and not plain(g[1]):
                        return put(unk(rule, w.where(), '%s: cell %d is not understood: %s' % (name, i, fmt(g))))
                else:
                    r = g == x
                if not r:
                    return put(bad(rule, w.where(), '%s: cell %d is %s (row of %d cells, column %d)' % (name, i, fmt(g), W, P)))
            done += 1
    put(ok(rule, w.where(), '%s: %d width/position cases' % (name, done)))


def plain(t):
    """a value that cannot be an unchanged cell"""
    return t.op in ('sym', 'const', 'lib', 'eval') or t.op in ('item', 'at') and any(x.op == 'lib' and x.a[0] == 'str.split' for x in subterms(t))
