"""C13: alphabets of keys and phonetic codes."""
import itertools
import string
from .. import scen
from ..chars import Ops, Str, ASCII, U, ANY, N012
from ..chars import Unclear as Vague
from ..letters import Letters, Stop, Fn
from ..scen import sym
from ..strval import Text, Unclear, results, possible
from ..terms import T, mk, show, is_num_const, num, lit_not, cmp_lit, const
from ..drive import Missing
from ..verdict import ok, bad, unk, Static
from .c21 import precondition

EXPLAIN = ("Abstract interpretation of the source of the key and phonetic functions on an unknown text. A text is abstracted by the characters that may stand first and later, by whether it may be "
           "empty and by how often (never, once, several times) one tracked letter occurs; lists and sets by their elements and the occurrences of that letter; loops are taken to a fixpoint, and the "
           "analysis is repeated for each of the 26 letters. The characters of the result must lie in the alphabet of the code, no letter may occur twice in an omission or skeleton key, a letter of the "
           "text must occur in the key, and a Cologne code may be empty only for texts without letters other than H. Fingerprints are judged on the terms of their normalisation chain. Every "
           "subscript of a text is an obligation: its index must be implied to be in range by the conditions on the path.")
ASSUME = ["unidecode returns ASCII text, leaves ASCII text alone and may return anything, including nothing, for other characters", "tables at module level are not modified"]
LIMIT = 100
X = sym('string', 'str')
UPPER = frozenset(string.ascii_uppercase)
LOWER = frozenset(string.ascii_lowercase)
ALPHA = UPPER | LOWER
R1 = 'the result stays within its alphabet'
R2 = 'no letter occurs twice'
R3 = 'the letters of the text are those of the key'
R4 = 'every letter is encoded or dropped by a rule'
R5 = 'no text makes the function fail'
R6 = 'words are separated by single spaces'
TABLE = dict((l, d) for d, ls in (('0', 'AEIOUJY'), ('1', 'BP'), ('2', 'DT'), ('3', 'FVW'), ('4', 'GKQ'), ('5', 'L'), ('6', 'MN'), ('7', 'R'), ('8', 'SZC')) for l in ls)


def where(L, fn):
    return '%s:%d' % (L.p.rel(fn.mod.path), fn.node.lineno)


def scenarios(tier):
    out = [Static('omission_key', lambda S: keys(S, 'fog.key.omission', 'omission_key')), Static('skeleton_key', lambda S: keys(S, 'fog.key.skeleton', 'skeleton_key')),
           Static('cologne', cologne), Static('rusalka', rusalka)]
    out += [s for s in scen.fingerprints()]
    out += [s for s in scen.keyers() if s.name in ('omission_key', 'skeleton_key', 'cologne', 'rusalka')]
    return out


def start(S, mod, name, track=None, force=()):
    m = S.project.module(mod)
    if m is None:
        raise Missing(mod)
    L = Letters(S.project, track, force)
    f = L.glob(m, name)
    if not isinstance(f, Fn):
        raise Stop('%s is not a function' % name)
    return L, f


def outcomes(L, f, arg):
    r = L.run(f, [arg])
    out = []
    for v, s in r:
        if not isinstance(v, Str):
            raise Stop('the result is not a text')
        out.append((v, s))
    return out


class Ask(object):
    """abstract runs of one function; a fault counts when every way of answering the tests which the analysis cannot decide shows it"""

    def __init__(self, S, mod, name):
        self.S, self.mod, self.name = S, mod, name

    def one(self, arg, track, force=()):
        L, f = start(self.S, self.mod, self.name, track, force)
        return [v for v, _ in outcomes(L, f, arg(L.o))], L.vague, L.coarse

    def __call__(self, arg, fault, track=None):
        """(fault of the values or None, whether it is certain)"""
        vs, vague, coarse = self.one(arg, track)
        r = fault(vs)
        if r and coarse:
            return r, False
        if not r or not vague:
            return r, True
        vague = sorted(vague)
        ways = [dict(zip(vague, bs)) for bs in itertools.product((True, False), repeat=len(vague))] if len(vague) <= 4 else [dict.fromkeys(vague, True), dict.fromkeys(vague, False)] + [dict((w, w == v) for w in vague) for v in vague] + [dict((w, w != v) for w in vague) for v in vague]
        for force in ways:
            vs, _, _ = self.one(arg, track, force)
            if vs and not fault(vs):
                return r, False
        return r, True


def say(out, rule, w, r, good):
    fault, sure = r
    if not fault:
        out.append(ok(rule, w, good))
    elif sure:
        out.append(bad(rule, w, fault))
    else:
        out.append(unk(rule, w, 'not decided: %s' % fault))


def spell(cs):
    return ''.join(sorted(c if c != U else '(non-ASCII)' for c in cs))


def keys(S, mod, name):
    out = []
    w = name
    try:
        w = where(*start(S, mod, name))
        ask = Ask(S, mod, name)
        within(out, ask, w, name, UPPER, UPPER)
    except Stop as e:
        return [unk(R1, w, 'not analysed: %s' % e)]
    for x in sorted(UPPER):
        try:
            say(out, R2, w, ask(lambda o: o.any(), lambda vs: any(2 in v.cnt for v in vs) and '%s: the letter %s can occur twice' % (name, x), x), '%s: %s' % (name, x))
            r = ask(lambda o: o.over(ALPHA, cnt=frozenset([1, 2])), lambda vs: any(0 in v.cnt for v in vs) and '%s: the letter %s of a text can be missing from its key' % (name, x), x)
            if not r[0]:
                r = ask(lambda o: o.over(frozenset(c for c in ALPHA if c.upper() != x)), lambda vs: any(max(v.cnt) for v in vs) and '%s: the letter %s can occur in the key of a text without it' % (name, x), x)
            say(out, R3, w, r, '%s: %s' % (name, x))
        except Stop as e:
            out.append(unk(R2, w, 'not analysed: %s' % e))
    return out


def within(out, ask, w, name, first, rest):
    def fault(vs):
        a = frozenset(c for v in vs for c in v.first)
        b = frozenset(c for v in vs for c in v.rest)
        if callable(first):
            xa, xb = frozenset(c for c in a if not first(c)), frozenset(c for c in b if not rest(c))
        else:
            xa, xb = a - first, b - rest
        if xa or xb:
            return '%s: %s' % (name, '; '.join(t for t in ((xa and 'may start with %s' % spell(xa)[:60]), (xb and 'may contain %s' % spell(xb)[:60] + ('' if xb - first_of(first) else ' after its first position'))) if t))
        seen[:] = [spell(a)[:60], spell(b)[:60]]
    seen = ['', '']
    r = ask(lambda o: o.any(), fault)
    say(out, R1, w, r, '%s: starts with one of %s, goes on with %s' % (name, seen[0], seen[1]))


def first_of(f):
    return f if not callable(f) else frozenset()


def cologne(S):
    out = []
    w = 'cologne'
    try:
        w = where(*start(S, 'fog.phonetics.cologne', 'cologne'))
        ask = Ask(S, 'fog.phonetics.cologne', 'cologne')
        within(out, ask, w, 'cologne', frozenset('012345678'), frozenset('12345678'))
    except Stop as e:
        return [unk(R1, w, 'not analysed: %s' % e)]
    noh = frozenset(c for c in ALPHA if c.upper() != 'H')
    for x in sorted(UPPER):
        try:
            if x != 'H':
                say(out, R4, w, ask(lambda o: o.over(noh, cnt=frozenset([1, 2])), lambda vs: any(not v.ne for v in vs) and 'a text with the letter %s can be encoded as nothing' % x, x), '%s is encoded' % x)

            def fault(vs):
                got = frozenset(c for v in vs for c in v.first)
                want = frozenset(TABLE.get(x, '48' if x == 'X' else ''))
                if not (got <= want if x in 'HX' else got == want):
                    return '%s alone gives %s' % (x, spell(got) or 'nothing')
            say(out, R4, w, ask(lambda o: o.over([x, x.lower()], ne=True, cnt=frozenset([1, 2])), fault, x), '%s alone gives the digit of the table' % x)
        except Stop as e:
            out.append(unk(R4, w, 'not analysed: %s' % e))
    return out


def rusalka(S):
    w = 'rusalka'
    try:
        w = where(*start(S, 'fog.phonetics.rusalka', 'rusalka'))
        good = lambda c: c != U and c.isalpha() and c == c.lower()
        out = []
        within(out, Ask(S, 'fog.phonetics.rusalka', 'rusalka'), w, 'rusalka', good, good)
        return out
    except Stop as e:
        return [unk(R1, w, 'not analysed: %s' % e)]


# fingerprints: terms ------------------------------------------------------------------------------------
class Abs(object):
    """abstract text of a term"""

    def __init__(self, I, st):
        self.I, self.st, self.o = I, st, Ops()

    def text(self, t):
        if t == X:
            return self.o.any()
        if t.op == 'const' and isinstance(t.a[1], str):
            return self.o.const(t.a[1])
        if t.op == 'concat':
            r = self.o.const('')
            for x in t.a:
                r = self.o.concat(r, self.text(x))
            return r
        if t.op == 'slc':
            return self.o.part(self.text(t.a[0]))
        if t.op in ('item', 'at'):
            return self.o.char(self.text(t.a[0]))
        if t.op == 'lib':
            n, a = t.a[0], t.a[1:]
            if n.startswith('unidecode'):
                return self.o.deburr(self.text(a[0]))
            if n in ('str.lower', 'str.upper', 'str.casefold', 'str.title', 'str.capitalize', 'str.swapcase'):
                return self.o.case(self.text(a[0]), n[4:])
            if n in ('str.strip', 'str.lstrip', 'str.rstrip') and len(a) == 1:
                return self.o.strip(self.text(a[0]), None, n != 'str.rstrip', n != 'str.lstrip')
            if n == 'str.replace' and all(x.op == 'const' for x in a[1:]):
                return self.o.replace(self.text(a[0]), a[1].a[1], a[2].a[1])
            if n == 're.sub' and len(a) == 3 and a[1].op == 'const':
                r = a[0]
                s = self.text(a[2])
                if r.op == 'lib' and r.a[0] == 're' and r.a[1].op == 'const' and is_num_const(r.a[2]):
                    return self.o.resub(s, r.a[1].a[1], int(num(r.a[2])), a[1].a[1])
                if '\\' in a[1].a[1]:
                    raise Vague('replacement')
                return self.o.maybe(s, self.o.const(a[1].a[1]))
            if n == 'str.join':
                e = self.elems(a[1])
                s = self.text(a[0])
                return self.o.over(e.chars | s.chars)
        raise Vague(show(t)[:80])

    def elems(self, t):
        """join of the elements of a collection term"""
        if t.op == 'obj':
            c = self.I.content(t, self.st)
            if c is None or c is t:
                raise Vague(show(t)[:60])
            return self.elems(c)
        if t.op in ('sorted', 'rev', 'listof', 'setof'):
            return self.elems(t.a[0])
        if t.op in ('lit', 'setlit', 'tuple'):
            r = None
            for x in t.a:
                r = self.o.join(r, self.text(x))
            return r or self.o.const('')
        if t.op == 'sadd':
            r = self.elems(t.a[0])
            for x in t.a[1:]:
                r = self.o.join(r, self.text(x))
            return r
        if t.op == 'cat':
            r = None
            for x in t.a:
                r = self.o.join(r, self.elems(x))
            return r
        if t.op in ('gseq', 'gset'):
            r = None
            for g, es in t.a[3]:
                for x in es:
                    r = self.o.join(r, self.text(x))
            return r or self.o.const('')
        if t.op == 'lib' and t.a[0] == 're.split' and len(t.a) == 3:
            r = t.a[1]
            s = self.text(t.a[2])
            if r.op == 'lib' and r.a[0] == 're' and r.a[1].op == 'const' and is_num_const(r.a[2]):
                return self.o.pieces(s, r.a[1].a[1], int(num(r.a[2])))
        if t.op == 'lib' and t.a[0] == 'str.split' and len(t.a) == 2:
            return self.o.pieces(self.text(t.a[1]), r'\s+', 0)
        if t.op == 'lib' or t == X or t.op in ('slc', 'concat'):
            return self.o.char(self.text(t))
        raise Vague(show(t)[:80])


SAMPLES = (['', ' ', 'a', 'h', 'hh', 'ij', 'Ab c', 'a  b', ' a b ', 'a\tb\nc', 'the cat the hat', 'É\u00e9 n\u00f1', "o'neil - x, y", '12 a1 b22', 'aabb cc', '--', '- a', 'a -', 'A-B_C'] +
           ['a%sb' % chr(i) for i in range(128)] + [chr(i) for i in range(128)])


def envs(sc, samples):
    for s in samples:
        for n in ((1, 2) if sc.tag('ng') else (None,)):
            env = {X: s, scen.sym('stopwords', 'iter', None, 'str'): ['the', 'of'], scen.sym('split', 'list', None, 'str'): ['-', '_']}
            if n is not None:
                env[scen.sym('n', 'int')] = n
            yield env


def judge(sc, run, S):
    out = {}

    def put(o):
        out.setdefault((o.rule, o.where, o.detail, o.verdict), o)
    if run.lossy:
        return [unk(R1, sc.fn, 'not fully analysed: %s' % run.lossy)]
    if sc.tag('fam') == 'fp':
        alphabet(sc, run, S, put)
    samples = SAMPLES + [a + b for a in 'ahx' for b in 'hhc']
    for e in run.log:
        if e.kind in ('index', 'div', 'fail', 'needs', 'badlen', 'noattr', 'badcall'):
            d, v = precondition(e)
            if v is None and e.kind == 'index' and is_num_const(e.key) and num(e.key) in (0, -1) and lit_not(cmp_lit('==', e.ln, const(0))) in e.facts:
                v = True
            if v is True or e.get('caught'):
                put(ok(R5, e.where(), d))
                continue
            s = witness(e, sc, S.I, samples)
            if s is not None:
                put(bad(R5, e.where(), '%s fails for the text %r' % (d, s)))
            else:
                put(unk(R5, e.where(), d))
    for k, st, v in run.outs[run.refused:]:
        if k in ('raise', 'esc'):
            s = next((env[X] for env in envs(sc, samples) if possible(S.I, st, env)), None)
            if s is not None:
                put(bad(R5, sc.fn, 'an exception escapes for the text %r' % s))
            else:
                put(unk(R5, sc.fn, 'an exception may escape'))
    put(ok(R5, sc.fn, '%d path(s)' % len(run.outs)))
    return list(out.values())


def witness(e, sc, I, samples):
    """a text for which the operation fails"""
    if e.kind != 'index' or e.ln is None:
        return None
    for env in envs(sc, samples):
        ev = Text(I, e.st)
        free = [a[1] for a in e.active if a[1] not in env and a[1].op == 'bnd']
        if len(free) > 1:
            return None
        for i in (range(len(env[X]) + 1) if free else (0,)):
            env2 = dict(env)
            if free:
                env2[free[0]] = i
            try:
                if free:
                    a = [x for x in e.active if x[1] == free[0]][0]
                    if not (ev.val(a[2], env2) <= i < ev.val(a[3], env2)):
                        continue
                good = True
                for f in e.facts:
                    try:
                        if not ev.truth(f, env2):
                            good = False
                            break
                    except Unclear:
                        if any(x.op != 'lv' and not is_plain(x) for x in f_syms(f)):
                            good = False
                            break
                if not good:
                    continue
                k, ln = ev.val(e.key, env2), ev.val(e.ln, env2)
                if not -ln <= k < ln:
                    return env[X]
            except Exception:
                continue
    return None


def f_syms(f):
    from ..terms import subterms
    return [x for x in subterms(f) if x.op in ('lv', 'app', 'obj')]


def is_plain(x):
    return False


def alphabet(sc, run, S, put):
    allowed = LOWER | frozenset(string.digits) | (frozenset(' ') if sc.tag('meth') == 'key' or (sc.tag('meth') == '__call__' and 'Keyer' in sc.tag('cls')) else frozenset())
    joined = sc.tag('meth') == 'key' or (sc.tag('meth') == '__call__' and 'Keyer' in sc.tag('cls'))
    if sc.tag('ng'):
        allowed = allowed - frozenset(' ')
    over = None
    for k, st, v in run.outs:
        if k != 'ret':
            continue
        A = Abs(S.I, st)
        try:
            t = A.text(v) if joined else A.elems(v)
        except Vague as e:
            over = 'not analysed: %s' % e
            continue
        if t.chars - allowed:
            over = 'may contain %s' % spell(t.chars - allowed)[:60]
    w = sc.fn
    name = sc.name
    hit = blank = None
    for env in envs(sc, SAMPLES):
        try:
            v = results(run, S.I, env)
        except Unclear:
            continue
        if v is Unclear:
            continue
        txt = v if isinstance(v, str) else ''.join(v) if isinstance(v, (list, tuple)) and all(isinstance(x, str) for x in v) else None
        if txt is None:
            continue
        if set(txt) - allowed:
            hit = (env[X], v)
        if joined and not sc.tag('ng') and (txt != txt.strip() or '  ' in txt):
            blank = (env[X], v)
    if hit:
        put(bad(R1, w, '%s: %r for the text %r' % (name, hit[1], hit[0])))
    elif over:
        put(unk(R1, w, '%s: %s' % (name, over)))
    else:
        put(ok(R1, w, name))
    if joined and not sc.tag('ng'):
        if blank:
            put(bad(R6, w, '%s: %r for the text %r' % (name, blank[1], blank[0])))
        else:
            put(ok(R6, w, name) if trimmed(run, S.I) else unk(R6, w, '%s: empty words cannot be excluded' % name))


def trimmed(run, I):
    """words are cut by runs of blanks from a text without blanks at its ends, or by str.split"""
    from ..terms import subterms
    cuts = [x for k, st, v in run.outs if k == 'ret' for x in subterms(v) if x.op == 'lib' and x.a[0] in ('re.split', 'str.split')]
    if not cuts:
        return False
    for c in cuts:
        if c.a[0] == 'str.split':
            if len(c.a) != 2:
                return False
            continue
        if not (c.a[1].op == 'lib' and c.a[1].a[1].op == 'const' and c.a[1].a[1].a[1] in ('\\s+', ' +', '[ ]+')):
            return False
        t = c.a[2]
        while t.op == 'lib' and t.a[0] == 're.sub' and len(t.a) == 4 and t.a[2].op == 'const' and t.a[2].a[1] == '\\1':
            t = t.a[3]
        if not (t.op == 'lib' and t.a[0] == 'str.strip'):
            return False
    return True
