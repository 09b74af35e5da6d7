"""abstract strings: which characters may stand first, which may stand later, emptiness and occurrences of one tracked letter"""
import re
try:
    from re import _parser as sre, _constants as sc
except ImportError:                                                     # python < 3.11
    import sre_parse as sre
    import sre_constants as sc

U = '<U>'                               # any character outside ASCII
ASCII = frozenset(chr(i) for i in range(128))
ANY = ASCII | frozenset([U])
WS = frozenset(c for c in ASCII if c.isspace())
OUTSIDE = 'éÉßΩω北²٣\u2003\u00a0😀ʃʒÄñﬁſKİıǅ\ufe0fªº_'.replace('_', '')
N012 = frozenset([0, 1, 2])
NONE = frozenset([0])
MAXC = 140


class Unclear(Exception):
    pass


def up(cnt):
    """occurrences may have been added"""
    return frozenset(k for k in N012 if k >= min(cnt))


def down(cnt):
    return frozenset(k for k in N012 if k <= max(cnt))


def plus(a, b):
    return frozenset(min(2, x + y) for x in a for y in b)


class Str(object):
    __slots__ = ('first', 'rest', 'ne', 'cnt', 'consts')

    def __init__(self, first, rest, ne, cnt=N012, consts=None):
        self.first, self.rest, self.ne, self.cnt, self.consts = frozenset(first), frozenset(rest), ne, cnt, consts

    def key(self):
        return (self.first, self.rest, self.ne, self.cnt, self.consts)

    def __eq__(self, o):
        return isinstance(o, Str) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    @property
    def chars(self):
        return self.first | self.rest

    @property
    def empty(self):
        return not self.chars

    def __repr__(self):
        if self.consts is not None:
            return 'str%r' % sorted(self.consts)[:8]
        return 'str(first=%s rest=%s ne=%s cnt=%s)' % (''.join(sorted(self.first)), ''.join(sorted(self.rest)), self.ne, sorted(self.cnt))


class Ops(object):
    """operations on abstract strings; track is the letter whose occurrences (in either case) are counted"""

    def __init__(self, track=None):
        self.track = track

    def T(self, c):
        return self.track is not None and c != U and c.upper() == self.track

    def counts(self, cs):
        return any(self.T(c) for c in cs)

    def const(self, *ss):
        ss = frozenset(ss)
        first = frozenset(s[0] if ord(s[0]) < 128 else s[0] for s in ss if s)
        rest = frozenset(c for s in ss for c in s[1:])
        cnt = frozenset(min(2, sum(1 for c in s if self.T(c))) for s in ss)
        return Str(first, rest, all(ss), cnt, ss)

    def any(self):
        return Str(ANY, ANY, False)

    def over(self, chars, ne=False, cnt=None):
        chars = frozenset(chars)
        if cnt is None:
            cnt = N012 if self.counts(chars) else NONE
        return Str(chars, chars, ne or min(cnt) > 0, cnt)

    def norm(self, first, rest, ne, cnt):
        first, rest = frozenset(first), frozenset(rest)
        if not self.counts(first | rest):
            cnt = NONE
        if min(cnt) > 0:
            ne = True
        return Str(first, rest, ne, cnt)

    def join(self, a, b):
        if a is None:
            return b
        if b is None or a == b:
            return a
        if a.consts is not None and b.consts is not None and len(a.consts | b.consts) <= MAXC:
            return self.const(*(a.consts | b.consts))
        return Str(a.first | b.first, a.rest | b.rest, a.ne and b.ne, a.cnt | b.cnt)

    def concat(self, a, b):
        if a.consts is not None and b.consts is not None and len(a.consts) * len(b.consts) <= MAXC:
            return self.const(*[x + y for x in a.consts for y in b.consts])
        first = a.first if a.ne else a.first | b.first
        rest = a.rest | b.rest | (b.first if not a.empty else frozenset())
        return Str(first, rest, a.ne or b.ne, plus(a.cnt, b.cnt))

    def each(self, s, f):
        return self.const(*[f(x) for x in s.consts])

    def char(self, s):
        """one character at an unknown place"""
        return self.onechar(s.chars)

    def onechar(self, cs):
        cs = frozenset(cs)
        if U not in cs and len(cs) <= MAXC and cs:
            return self.const(*cs)
        return Str(cs, (), True, frozenset(c for c in N012 if (c == 1 and self.counts(cs)) or (c == 0 and any(not self.T(x) for x in cs))) or NONE)

    def part(self, s):
        """an unknown substring"""
        return self.norm(s.chars, s.chars, False, down(s.cnt))

    def tail(self, s, k=1):
        if s.consts is not None:
            return self.each(s, lambda x: x[k:])
        return self.norm(s.rest, s.rest, False, down(s.cnt) if self.counts(s.first) else s.cnt)

    def case(self, s, how):
        f = {'upper': str.upper, 'lower': str.lower, 'casefold': str.casefold, 'swapcase': str.swapcase, 'title': str.title, 'capitalize': str.capitalize}[how]
        if s.consts is not None:
            return self.each(s, f)

        def m(cs):
            out = set()
            for c in cs:
                if c == U:
                    out.add(U)
                    fs = (str.upper, str.lower) if how in ('swapcase', 'title', 'capitalize') else (f,)
                    for g in fs:
                        out |= set('ABCDEFGHIJKLMNOPQRSTUVWXYZ' if g is str.upper else 'abcdefghijklmnopqrstuvwxyz')
                elif how in ('swapcase', 'title', 'capitalize'):
                    out |= set(c.upper()) | set(c.lower())
                else:
                    out |= set(f(c))
            return out
        cnt = up(s.cnt) if U in s.chars else s.cnt
        return self.norm(m(s.first), m(s.rest) | (m(s.first) if U in s.first else set()), s.ne, cnt)

    def deburr(self, s):
        if not (s.chars - ASCII):
            return s
        if s.consts is not None:
            raise Unclear('transliteration of constants')

        def m(cs):
            return ASCII if cs - ASCII else cs
        rest = m(s.rest) | (ASCII if s.first - ASCII else frozenset())
        first = m(s.first) | (m(s.rest) if s.first - ASCII else frozenset())
        return self.norm(first, rest, False, up(s.cnt))

    def without(self, s, drop, repl=None):
        """every character of drop is removed, or replaced by a piece"""
        gone = s.chars & drop
        if not gone:
            return s
        add = repl if repl is not None else self.const('')
        first = (s.first - drop)
        rest = s.rest - drop
        if s.first & drop:
            first = first | add.first
            if not add.ne:
                first = first | rest
            rest = rest | add.rest
        if s.rest & drop:
            rest = rest | add.first | add.rest
            if s.first & drop and not add.ne:
                first = first | add.first
        if self.counts(add.chars):
            cnt = N012
        elif self.counts(gone):
            cnt = NONE if not self.counts(s.chars - gone) else down(s.cnt)
        else:
            cnt = s.cnt
        return self.norm(first, rest, (s.ne and add.ne), cnt)

    def maybe(self, s, repl, eats=True, ne=None):
        """some parts may be replaced by a piece"""
        first = s.first | repl.first | (s.rest if not repl.ne else frozenset())
        rest = s.rest | repl.chars
        cnt = N012 if self.counts(repl.chars) else (down(s.cnt) if eats else s.cnt)
        return self.norm(first, rest, s.ne and repl.ne if ne is None else ne, cnt)

    def replace(self, s, p, r):
        if s.consts is not None:
            return self.each(s, lambda x: x.replace(p, r))
        if not p:
            raise Unclear('replacement of the empty string')
        if any((c if ord(c) < 128 else U) not in s.chars and c not in s.chars for c in p):
            return s
        if len(p) == 1 and p in s.chars:
            return self.without(s, frozenset([p]), self.const(r))
        return self.maybe(s, self.const(r), eats=any(self.T(c) for c in p))

    def strip(self, s, chars=None, left=True, right=True):
        if s.consts is not None:
            f = str.strip if left and right else str.lstrip if left else str.rstrip
            return self.each(s, lambda x: f(x, chars))
        drop = frozenset(chars) if chars is not None else WS | (frozenset([U]) & s.chars)
        if not (s.chars & drop):
            return s
        first = s.first
        if left and s.first & drop:
            first = (s.first - (drop - frozenset([U]))) | (s.rest - (drop - frozenset([U])))
        return self.norm(first, s.rest, s.ne and not (s.chars - drop) == frozenset() and False, down(s.cnt) if self.counts(drop) else s.cnt)

    # regular expressions ------------------------------------------------------------------------------
    def one(self, node, flags):
        """predicate of a node matching exactly one character, or None"""
        op, av = node
        if op is sc.LITERAL:
            return lambda c: c == chr(av) or (flags & re.I and c.lower() == chr(av).lower())
        if op is sc.NOT_LITERAL:
            return lambda c: not (c == chr(av) or (flags & re.I and c.lower() == chr(av).lower()))
        if op is sc.ANY:
            return lambda c: c != '\n' or bool(flags & re.S)
        if op is sc.IN:
            neg = av and av[0][0] is sc.NEGATE

            def test(c):
                return any(self.inset(x, k, flags) for k in av for x in ((c, c.lower(), c.upper()) if flags & re.I else (c,)) if k[0] is not sc.NEGATE and len(x) == 1) != bool(neg)
            return test
        if op is sc.SUBPATTERN and len(av[-1]) == 1 and not (av[1] or av[2]):
            return self.one(av[-1][0], flags)
        return None

    def inset(self, c, item, flags):
        op, av = item
        if op is sc.LITERAL:
            return ord(c) == av
        if op is sc.RANGE:
            return av[0] <= ord(c) <= av[1]
        if op is sc.CATEGORY:
            n = str(av)
            r = c.isspace() if 'SPACE' in n else (c.isdigit() and c.isdecimal()) if 'DIGIT' in n else (c.isalnum() or c == '_')
            return r != ('NOT' in n)
        raise Unclear('regular expression')

    def members(self, pred, cs):
        """characters of cs that match for sure / that may match"""
        sure, may = set(), set()
        for c in cs:
            if c == U:
                l = [bool(pred(x)) for x in OUTSIDE]
                if all(l):
                    sure.add(U)
                if any(l):
                    may.add(U)
            elif pred(c):
                sure.add(c)
                may.add(c)
        return frozenset(sure), frozenset(may)

    def regex(self, pattern, flags):
        p = sre.parse(pattern, flags)
        flags = p.state.flags if hasattr(p, 'state') else p.pattern.flags
        branches = [list(p)]
        if len(p) == 1 and p[0][0] is sc.SUBPATTERN and not p[0][1][1] and not p[0][1][2]:
            branches = [list(p[0][1][-1])]
        out = []
        for b in branches:
            if len(b) == 1 and b[0][0] is sc.BRANCH:
                out.extend(list(x) for x in b[0][1][1])
            else:
                out.append(b)
        return out, flags

    def eaten(self, b, flags, cs):
        """characters a branch may consume, and whether it can match a string over cs"""
        may, possible = set(), True
        for node in b:
            op, av = node
            pred = self.one(node, flags)
            if pred is not None:
                m = self.members(pred, cs)[1]
                may |= m
                possible = possible and bool(m)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT':
                m, p = self.eaten(list(av[2]), flags, cs)
                may |= m
                if av[0] > 0:
                    possible = possible and p
            elif op is sc.SUBPATTERN:
                m, p = self.eaten(list(av[-1]), flags, cs)
                may |= m
                possible = possible and p
            elif op is sc.BRANCH:
                l = [self.eaten(list(x), flags, cs) for x in av[1]]
                for m, _ in l:
                    may |= m
                possible = possible and any(p for _, p in l)
            elif op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
                pass
            elif op is sc.GROUPREF:
                may |= set(cs)
            else:
                raise Unclear('regular expression')
        return may, possible

    def single(self, b, flags):
        """predicate of a branch that consumes any one character of a class wherever it stands"""
        if len(b) != 1:
            return None
        op, av = b[0]
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            if av[0] == 1 and len(av[2]) == 1:
                return self.one(av[2][0], flags)
            return None
        return self.one(b[0], flags)

    def resub(self, s, pattern, flags, repl):
        if s.consts is not None and len(s.consts) <= MAXC:
            return self.each(s, lambda x: re.sub(pattern, repl, x, flags=flags))
        branches, flags = self.regex(pattern, flags)
        may, total, live = set(), set(), False
        for b in branches:
            m, p = self.eaten(b, flags, s.chars)
            if not p:
                continue
            live = True
            may |= m
            pred = self.single(b, flags)
            if pred is not None:
                total |= self.members(pred, s.chars)[0]
        if not live:
            return s
        lit, refs = self.template(repl, pattern, flags)
        if refs:
            w = all(x > 0 for x in refs)
            first = s.first | s.rest | frozenset(lit)
            return self.norm(s.first if not lit and w else first, s.chars | frozenset(lit), s.ne and (w or bool(lit)),
                             N012 if self.counts(lit) else down(s.cnt) if not w else frozenset(k for k in N012 if k <= max(s.cnt) and (k or 0 in s.cnt)))
        piece = self.const(lit)
        out = s
        if total:
            out = self.without(out, frozenset(total), piece)
        if may - total:
            out = self.maybe(out, piece, eats=self.counts(may - total), ne=s.ne and bool(lit))
        return out

    def template(self, repl, pattern, flags):
        """literal text of a replacement and least widths of the groups it refers to"""
        if '\\' not in repl:
            return repl, []
        m = re.compile(pattern, flags)
        lit, refs, i = '', [], 0
        while i < len(repl):
            c = repl[i]
            if c != '\\':
                lit += c
                i += 1
                continue
            n = repl[i + 1:i + 2]
            if n.isdigit():
                refs.append(self.width(pattern, flags, int(n)))
                i += 2
            elif n == 'g' and re.match(r'\\g<\d+>', repl[i:]):
                k = re.match(r'\\g<(\d+)>', repl[i:])
                refs.append(self.width(pattern, flags, int(k.group(1))))
                i += k.end()
            elif n == '\\':
                lit += '\\'
                i += 2
            elif n == 'n':
                lit += '\n'
                i += 2
            else:
                raise Unclear('replacement %r' % repl)
        if m.groups == 0 and refs and any(r is None for r in refs):
            raise Unclear('replacement %r' % repl)
        return lit, refs

    def width(self, pattern, flags, g):
        p = sre.parse(pattern, flags)
        if g == 0:
            return p.getwidth()[0]

        def walk(l):
            for op, av in l:
                if op is sc.SUBPATTERN:
                    if av[0] == g:
                        return av[-1].getwidth()[0]
                    r = walk(av[-1])
                    if r is not None:
                        return r
                elif op is sc.BRANCH:
                    for x in av[1]:
                        if walk(x) is not None:
                            return 0
                elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                    r = walk(av[2])
                    if r is not None:
                        return r if av[0] else 0
            return None
        r = walk(p)
        return 0 if r is None else r

    def pieces(self, s, pattern, flags):
        """element of re.split"""
        branches, flags = self.regex(pattern, flags)
        total, may = set(), set()
        for b in branches:
            m, p = self.eaten(b, flags, s.chars)
            if p:
                may |= m
                pred = self.single(b, flags)
                if pred is not None:
                    total |= self.members(pred, s.chars)[0]
        cs = s.chars - frozenset(total)
        return self.norm(cs, cs, s.ne and not may, down(s.cnt))
