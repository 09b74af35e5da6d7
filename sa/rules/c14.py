"""C14: what fingerprints and keys depend on."""
import re
import string
from .. import scen
from ..scen import sym
from ..strval import Text, Unclear, results
from ..terms import T, mk, show, subterms, is_num_const, num
from ..verdict import ok, bad, unk, Static
from ..drive import Missing

EXPLAIN = ("The interpreter derives, for each combination of options, the term that a fingerprint tokenizer computes from an unknown text: a chain of substitutions, case folding, transliteration and "
           "trimming, cut into tokens, put in a set and sorted. The invariances are read off that chain: a sorted set on top, a case folding, transliteration and character filter inside the cut, "
           "only case-insensitive steps before the case folding, the same chain for plain and n-gram fingerprints, and the key as a join of the tokens. Where the chain has another form, or breaks "
           "one of these rules, the law is evaluated on the derived term for pairs of texts which differ only in what must not matter (case, accents, punctuation, order, repetition, blanks, stop "
           "words, separators, short words, digits); only such a pair counts as a violation. For omission and skeleton keys every use of the text must go through transliteration, case folding and "
           "the letter filter.")
ASSUME = ["unidecode maps a cased letter and its other case to texts that differ only by case", "separators given with `split` are not letters"]
LIMIT = 100
X = sym('string', 'str')
N = sym('n', 'int')
SW = sym('stopwords', 'iter', None, 'str')
SP = sym('split', 'list', None, 'str')
R1 = 'tokens are unique and sorted'
R2 = 'case is irrelevant'
R3 = 'accents are irrelevant'
R4 = 'punctuation is irrelevant'
R5 = 'order, repetition and blanks are irrelevant'
R6 = 'digits are kept unless told otherwise'
R7 = 'stop words are dropped in any case, as whole words'
R8 = 'separators act as blanks'
R9 = 'short words are dropped, long ones kept'
R10 = 'plain and n-gram fingerprints normalise alike'
R11 = 'a key is its tokens joined'
R12 = 'the key depends on the text only through its case-folded, deburred letters'
WORDS = ['banana apple', 'Zoe amelie Quentin', 'x1 y22 zebra9', 'the theme of others', 'foo-bar baz_qux', 'MIXED Case here', 'aabb ccdd Missis', 'one', '', 'alpha beta gamma delta alpha']
LONG = ' '.join('lorem' + a + b for a in string.ascii_lowercase for b in 'bcdf')
ORDERED = ['alpha anna zebra', 'lorem mark kappa'[:10], 'anna appel lorem mark', 'bar-foo', 'foo_zebra', 'Lorem THE theme']
OPTS = ('default', 'nodigits', 'squeeze', 'stopwords', 'split', 'mintoken', 'all')
STOP = (['the', 'of', 'with'], ['u.s', 'of', 'the', 'with'])
SPLIT = (['-', '_'], ['^', '-', '_'], [']', '-', '_', '\\'])


def scenarios(tier):
    return [Static('fingerprints/%s' % o, lambda S, o=o: judge_opt(S, o)) for o in OPTS] + [Static(k, lambda S, k=k: judge_key(S, k)) for k in ('omission_key', 'skeleton_key')]


class F(object):
    """the function of one scenario, on given texts"""

    def __init__(self, S, cls, meth, opt):
        self.sc = [s for s in scen.fingerprints() if s.name == '%s.%s/%s' % (cls, meth, opt)]
        self.sc = self.sc[0] if self.sc else None
        self.S, self.ng, self.opt = S, cls.startswith('Ngrams'), opt
        self.run = self.sc.run(S, limit=LIMIT) if self.sc else None
        self.cache = {}

    def __call__(self, s, n=2, stop=STOP[0], split=SPLIT[0]):
        key = (s, n, tuple(stop), tuple(split))
        if key not in self.cache:
            env = {X: s, SW: list(stop), SP: list(split)}
            if self.ng:
                env[N] = n
            try:
                if self.run.lossy:
                    raise Unclear('not fully analysed')
                r = results(self.run, self.S.I, env)
                if r is Unclear:
                    raise Unclear('failure')
                r = ('v', r)
            except Unclear as e:
                r = ('?', str(e))
            except Exception as e:
                r = ('?', repr(e))
            self.cache[key] = r
        k, v = self.cache[key]
        if k == '?':
            raise Unclear(v)
        return v


class Laws(object):
    def __init__(self):
        self.out = []

    def law(self, rule, w, name, pairs, proof=None, same=None):
        """pairs: thunks giving (what, left, right); a difference is a violation, no difference with a proof a discharge"""
        seen = vague = 0
        for p in pairs:
            try:
                what, a, b = p()
            except Unclear as e:
                vague = str(e)
                continue
            seen += 1
            if a != b:
                self.out.append(bad(rule, w, '%s: %s: %r against %r' % (name, what, a, b)))
                return
        if proof is not None and proof():
            self.out.append(ok(rule, w, name))
        elif proof is None and seen and not vague:
            self.out.append(ok(rule, w, '%s: %d pair(s) of texts on the derived term' % (name, seen)))
        else:
            self.out.append(unk(rule, w, '%s: %s' % (name, vague or 'the chain of steps has an unknown form')))


# the chain ------------------------------------------------------------------------------------------------
def texts(t):
    """steps of a text term, outermost first, down to the text itself; None for another form"""
    out = []
    while t != X:
        if t.op != 'lib':
            return None
        n, a = t.a[0], t.a[1:]
        if n in ('str.lower', 'str.upper', 'str.casefold', 'str.strip', 'str.lstrip', 'str.rstrip') or n.startswith('unidecode'):
            if len(a) != 1:
                return None
            out.append((n,))
            t = a[0]
        elif n == 're.sub' and len(a) == 3:
            out.append(('re.sub', a[0], a[1]))
            t = a[2]
        else:
            return None
    return out


def source(run, I):
    """[(shape, text term)] for each result"""
    out = []
    for k, st, v in run.outs:
        if k != 'ret':
            continue
        if v.op == 'obj':
            v = I.content(v, st)
        if v is None or v.op != 'sorted' or not (len(v.a) == 1 or all(x is None or (isinstance(x, T) and x.op == 'const' and x.a[1] in (None, False)) for x in v.a[1:])):
            return None
        v = v.a[0]
        if v.op == 'obj':
            v = I.content(v, st)
        if v is None:
            return None
        if v.op == 'setof':
            c = v.a[0]
            if c.op == 'obj':
                c = I.content(c, st)
            if c is None or c.op != 'lib' or c.a[0] not in ('re.split', 'str.split') or (c.a[0] == 'str.split' and len(c.a) != 2):
                return None
            if c.a[0] == 're.split' and not (len(c.a) == 3 and c.a[1].op == 'lib' and c.a[1].a[1].op == 'const' and c.a[1].a[1].a[1] == '\\s+'):
                return None
            out.append((st, 'cut', c.a[-1]))
        elif v.op == 'sadd' and len(v.a) == 2 and v.a[0].op == 'setlit' and not v.a[0].a:
            out.append((st, 'whole', v.a[1]))
        elif v.op == 'setlit' and len(v.a) == 1:
            out.append((st, 'whole', v.a[0]))
        elif v.op == 'gset':
            es = [e for g, es in v.a[3] for e in es]
            if len(es) != 1 or v.a[3][0][0] or es[0].op != 'slc':
                return None
            out.append((st, 'grams', es[0].a[0]))
        else:
            return None
    return out


def literal(r):
    """(pattern, flags) of a constant regex"""
    if r.op == 'lib' and r.a[0] == 're' and r.a[1].op == 'const':
        f = 0
        if len(r.a) > 2:
            if is_num_const(r.a[2]):
                f = int(num(r.a[2]))
            elif r.a[2].op == 'ext' and r.a[2].a[0] in ('re.I', 're.IGNORECASE'):
                f = int(re.I)
            else:
                return None
        return r.a[1].a[1], f
    return None


def caseless(r):
    """a substitution that does not look at case"""
    if r.op != 'lib' or r.a[0] != 're':
        return False
    if len(r.a) > 2 and r.a[2].op == 'ext' and r.a[2].a[0] in ('re.I', 're.IGNORECASE'):
        return True
    if len(r.a) > 2 and is_num_const(r.a[2]) and int(num(r.a[2])) & int(re.I):
        return True
    # constants of the pattern, without its escapes; what comes from `split` is assumed to have no case
    for x in subterms(r.a[1]):
        if x.op == 'const' and isinstance(x.a[1], str) and re.search('[A-Za-z]', re.sub(r'\\[a-zA-Z]', '', x.a[1])):
            return False
        if x == SW:
            return False
    return True


FOLD = ('str.lower', 'str.upper', 'str.casefold')


def case_proof(chain):
    i = [k for k, s in enumerate(chain) if s[0] in FOLD]
    return bool(i) and all(s[0] != 're.sub' or caseless(s[1]) for s in chain[i[0] + 1:])


def deburred(chain):
    """the transliteration comes before (inside) no step but those that cannot see accents: digits, separators, stop words, short words"""
    return any(s[0].startswith('unidecode') for s in chain)


def filtered(chain):
    """a filter leaves letters, digits and blanks"""
    for s in chain:
        l = literal(s[1]) if s[0] == 're.sub' else None
        if l and s[2].op == 'const' and s[2].a[1] == '':
            try:
                p = re.compile(l[0], l[1])
            except re.error:
                continue
            if all(p.fullmatch(c) for c in string.punctuation) and not any(p.search(c) for c in string.ascii_lowercase + ' '):
                return True
    return False


def all_chains(f, I):
    src = source(f.run, I) if f.run is not None and not f.run.lossy else None
    if not src:
        return None
    out = []
    for st, shape, t in src:
        if any(vacuous(x) for x in st.facts):
            continue
        c = texts(t)
        if c is None:
            return None
        out.append((st, shape, c))
    return out


def vacuous(l):
    """a compiled expression is neither None nor false"""
    if l.op == 'isnone':
        return l.a[0].op == 'lib' and l.a[0].a[0] == 're'
    return l.op == 'not' and l.a[0].op == 'truthy' and l.a[0].a[0].op == 'lib' and l.a[0].a[0].a[0] == 're'


def subs(chain):
    return [s for s in chain if s[0] == 're.sub']


def about(x, what):
    return any(y == what for y in subterms(x))


def keeps_digits(chain):
    for s in subs(chain):
        l = literal(s[1])
        if l is None:
            if not (about(s[1], SW) or about(s[1], SP)):
                return False
        elif s[2].op != 'const' or s[2].a[1] == '' and any(re.search(l[0], 'a%sb' % c, l[1]) for c in string.digits):
            return False
    return True


def drops_digits(chain):
    return any(literal(s[1]) and s[2].op == 'const' and s[2].a[1] == '' and all(re.fullmatch(literal(s[1])[0], c, literal(s[1])[1]) for c in string.digits) for s in subs(chain))


def drops_stops(chain):
    return any(about(s[1], SW) and caseless(s[1]) and s[2].op == 'const' and s[2].a[1] in ('', ' ') for s in subs(chain))


def cuts_at(chain):
    return any(about(s[1], SP) and s[2].op == 'const' and s[2].a[1] == ' ' for s in subs(chain))


def drops_short(chain):
    return any(s[1].op == 'lib' and any(y.op == 'lib' and y.a[0] == 'fmtnum' or y.op == 'fmtnum' for y in subterms(s[1])) and s[2].op == 'const' and s[2].a[1] == '' for s in subs(chain))


def joins(f, base, join, I):
    """the results of f are those of base, joined"""
    def shapes(run):
        r = set()
        for k, st, v in run.outs:
            if k == 'ret' and not any(vacuous(x) for x in st.facts):
                sep = None
                if v.op == 'lib' and v.a[0] == 'str.join' and v.a[1].op == 'const':
                    sep, v = v.a[1].a[1], v.a[2]
                if v.op == 'obj':
                    v = I.content(v, st)
                r.add((sep, v))
        return r
    if f.run.lossy or base.run.lossy:
        return False
    a, b = shapes(f.run), shapes(base.run)
    return a == set((join, v) for s, v in b if s is None) and len(a) == len(b)


def every(chains, test):
    return bool(chains) and all(test(c) for _, _, c in chains)


# laws -----------------------------------------------------------------------------------------------------
def swap(s):
    return ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(s))


def judge_opt(S, opt):
    L = Laws()
    I = S.I
    P = F(S, 'FingerprintTokenizer', 'tokenize', opt)
    G = F(S, 'NgramsFingerprintTokenizer', 'tokenize', opt)
    wp, wg = P.sc.fn, G.sc.fn
    stops = STOP if opt in ('stopwords', 'all') else STOP[:1]
    splits = SPLIT if opt in ('split', 'all') else SPLIT[:1]
    conf = [(a, b) for a in stops for b in splits]
    has = lambda *o: opt in o or opt == 'all'
    chains = {P: all_chains(P, I), G: all_chains(G, I)}
    for f, w, name in ((P, wp, 'FingerprintTokenizer/%s' % opt), (G, wg, 'NgramsFingerprintTokenizer/%s' % opt)):
        ns = (1, 2, 3) if f.ng else (2,)

        def all_pairs(gen):
            return [(lambda a=a, b=b, n=n, st=st, sp=sp: ('%r and %r%s' % (a, b, ' (n=%d)' % n if f.ng else ''), f(a, n, st, sp), f(b, n, st, sp))) for a, b in gen for n in ns for st, sp in conf]
        ch = chains[f]
        L.law(R1, w, name, [(lambda s=s, n=n, st=st, sp=sp: (repr(s), f(s, n, st, sp), sorted(set(f(s, n, st, sp))))) for s in WORDS for n in ns for st, sp in conf], lambda: bool(ch))
        L.law(R2, w, name, all_pairs([(s, g(s)) for s in WORDS + ['Éa Ñandú'] for g in (str.upper, str.lower, swap)]), lambda: every(ch, case_proof))
        L.law(R3, w, name, all_pairs([('café crème', 'cafe creme'), ('Éric NÚÑEZ', 'eric nunez'), ('naïve über façades', 'naive uber facades'), ('thè', 'the')][:4 if not has('stopwords') else 3]),
              lambda: every(ch, deburred))
        if not has('mintoken'):
            p = [('hello, world!', 'hello world'), ('(foo) bar?', 'foo bar'), ('"quoted" text.', 'quoted text'), ('* a', 'a'), ('a ; b', 'a b'), ('$ # % @', '')]
            if not has('stopwords', 'split'):
                p += [("o'neil", 'oneil'), ('a.b.c', 'abc'), ('foo-bar', 'foobar'), ('foo_bar', 'foobar'), ('a\\b', 'ab'), ('x^2[1]', 'x21')]
            if has('stopwords'):
                p += [('the, cat', 'the cat'), ('(the) cat', 'the cat')]
            L.law(R4, w, name, all_pairs(p), lambda: every(ch, filtered))
        b = [('a  b', 'a b'), (' zeta alpha ', 'zeta alpha'), ('one\ttwo\nthree', 'one two three'), ('words   there', 'words there'), (' ', '')]
        if not f.ng:
            b += [('banana apple', 'apple banana'), ('x y x', 'y x'), ('gamma beta alpha', 'alpha beta gamma'), ('dodo dodo dodo', 'dodo'), ('the cat the hat', 'hat the cat'), ('10 9 8 zebra', 'zebra 8 9 10 8'), (LONG, ' '.join(LONG.split()[::-1]))]
        L.law(R5, w, name, all_pairs(b), lambda: every(ch, blanks) and (f.ng or all(s == 'cut' for _, s, _ in ch)))
        if opt in ('default', 'squeeze', 'split', 'stopwords'):
            L.law(R6, w, name, [(lambda n=n: ('digits of %r' % 'x1 y28 2049', sorted(set(c for t in f('x1 y28 2049', n) for c in t if c.isdigit())), list('012489'))) for n in ns], lambda: every(ch, keeps_digits))
        if opt in ('nodigits', 'all'):
            L.law(R6, w, name, [(lambda s=s, n=n: ('digits of %r' % s, [t for t in f(s, n) if any(c.isdigit() for c in t)], [])) for s in WORDS + ['2049', 'b52s zebra', '1', 'a1b2c3d4e5f6g7h8j9k0'] for n in ns] +
                  all_pairs([('zebra9', 'zebra'), ('quin2tal', 'quintal'), ('1984 novel', 'novel')]), lambda: every(ch, drops_digits))
        if has('stopwords'):
            L.law(R7, w, name, all_pairs([('the theme of others', 'theme others'), ('THE Theme OF Others', 'theme others'), ('cats of the world', 'cats world'), ('THE', ''), ('The cats', 'cats'), ('world the', 'world')]) +
                  [(lambda n=n: ('%r kept' % s, f(s, n, STOP[1]) == f('zebras', n, STOP[1]), False)) for s in ('uxsx zebras', 'theme zebras', 'often zebras') for n in ns], lambda: every(ch, drops_stops))
            if opt == 'stopwords':
                L.law(R7, w, name, [(lambda n=n: ('%r and the stop word %r' % ('uxs', 'u.s'), f('uxs cat', n, STOP[1]), f('uxs cat', n, ['zzz']))) for n in ns])
        if has('split'):
            sep = [('%swords%sthere' % (c, c), 'words there', [sp]) for sp in splits for c in sp] + [('words%sthere' % c, 'words there', [sp]) for sp in splits for c in sp]
            L.law(R8, w, name, [(lambda n=n, sp=sp: ('letters of %r' % 'words there', sorted(set(c for t in f('words there', n, STOP[0], sp) for c in t)), list('dehorstw'))) for sp in splits for n in ns])
            L.law(R8, w, name, [(lambda a=a, b=b, n=n, sp=sp: ('%r and %r' % (a, b), f(a, n, STOP[0], sp), f(b, n, STOP[0], sp))) for a, b, sps in sep for sp in sps for n in ns], lambda: every(ch, cuts_at))
            if opt == 'split':
                L.law(R8, w, name, [(lambda a=a, b=b, n=n: ('%r and %r' % (a, b), f(a, n), f(b, n))) for a, b in (("words'there", 'wordsthere'), ('a.b', 'ab')) for n in ns])
        elif opt == 'default':
            L.law(R8, w, name, all_pairs([('words-there', 'wordsthere'), ('words_there', 'wordsthere')]))
        if has('mintoken'):
            L.law(R9, w, name, all_pairs([('a bb lorem ipsum', 'lorem ipsum'), ('lorem de ipsum x', 'lorem ipsum'), ('lorem ab', 'lorem')]) +
                  [(lambda n=n: ('long words of %r' % 'lorem dolor', f('lorem dolor', n), f('dolor lorem', n) if not f.ng else f('lorem  dolor', n))) for n in ns], lambda: every(ch, drops_short))
            if not f.ng:
                L.law(R9, w, name, [lambda: ('long words kept', f('lorem dolor abcd'), ['abcd', 'dolor', 'lorem'])])
        elif opt == 'default' and not f.ng:
            L.law(R9, w, name, [lambda: ('all words kept', f('a bb ccc dddd'), ['a', 'bb', 'ccc', 'dddd'])])
        if opt in ('squeeze', 'all'):
            L.law(R5, w, name + ' (repeated letters)', all_pairs([('aabbcc', 'abc'), ('Misssissippi', 'misisipi')][:2 if opt == 'squeeze' else 1] if opt == 'squeeze' else [('lorrem ippsum', 'lorem ipsum'), ('Misssissippi', 'misisipi')]))
        elif opt == 'default' and not f.ng:
            L.law(R5, w, name + ' (repeated letters)', [lambda: ('letters kept', f('aabb'), ['aabb'])])
    # same normalisation
    def alike():
        a, b = chains[P], chains[G]
        if not a or not b:
            return False
        cut = lambda c: tuple(s for s in c if not (s[0] == 're.sub' and literal(s[1]) == ('\\s+', 0)))
        return set(cut(c) for _, _, c in a) == set(cut(c) for _, _, c in b)
    pairs = []
    for s in WORDS + ['10 green bottles', 'THE end', "it's x-ray", 'café noir', 'aa bb cccc', 'lorem-ipsum', 'b52s zebra', 'the_cats sat', 'with_cats sat', 'THE-cats'] + ORDERED:
        for st, sp in conf:
            pairs.append(lambda s=s, st=st, sp=sp: ('letters of %r' % s, sorted(set(c for t in P(s, 1, st, sp) for c in t)), [t for t in G(s, 1, st, sp) if t]))
            if ' ' not in s.strip() or s in ORDERED:
                def two(s=s, st=st, sp=sp):
                    p = P(s, 2, st, sp)
                    if len(p) != 1 and s not in ORDERED or len(''.join(p)) < 2:
                        raise Unclear('several tokens')
                    p = ''.join(p)
                    return 'bigrams of %r' % s, G(s, 2, st, sp), sorted(set(p[i:i + 2] for i in range(len(p) - 1)))
                try:
                    two()
                    pairs.append(two)
                except Unclear:
                    pass
    L.law(R10, wg, opt, pairs, alike)
    # keys and calls
    if opt in ('default', 'all'):
        for cls, meth, base, join in (('FingerprintTokenizer', 'key', P, ' '), ('FingerprintTokenizer', '__call__', P, None), ('FingerprintingKeyer', 'tokenize', P, None), ('FingerprintingKeyer', 'key', P, ' '),
                                      ('FingerprintingKeyer', '__call__', P, ' '), ('NgramsFingerprintTokenizer', 'key', G, ''), ('NgramsFingerprintTokenizer', '__call__', G, None),
                                      ('NgramsFingerprintKeyer', 'tokenize', G, None), ('NgramsFingerprintKeyer', 'key', G, ''), ('NgramsFingerprintKeyer', '__call__', G, '')):
            try:
                f = F(S, cls, meth, opt)
            except Missing as e:
                L.out.append(unk(R11, cls, str(e)))
                continue
            L.law(R11, f.sc.fn, '%s.%s/%s' % (cls, meth, opt), [(lambda s=s, n=n: (repr(s), f(s, n), base(s, n) if join is None else join.join(base(s, n)))) for s in WORDS + [LONG] for n in ((1, 2, 3) if base.ng else (2,))],
                  lambda: joins(f, base, join, I))
    return L.out


def blanks(chain):
    """blanks at the ends are trimmed, or all of them dropped"""
    return any(s[0] == 'str.strip' for s in chain) or any(s[0] == 're.sub' and literal(s[1]) == ('\\s+', 0) for s in chain)


# keys -----------------------------------------------------------------------------------------------------
def judge_key(S, name):
    sc = [s for s in scen.keyers() if s.name == name][0]
    run = sc.run(S, limit=LIMIT)
    if run.lossy:
        return [unk(R12, sc.fn, 'not fully analysed: %s' % run.lossy)]
    out = []
    terms = set()
    for k, st, v in run.outs:
        if v is not None:
            terms.add(v)
        terms.update(st.facts)
    for e in run.log:
        terms.update(e.facts)
        for v in e.d.values():
            if isinstance(v, T):
                terms.add(v)
    roots = set()

    def walk(t):
        """uses of the text: the whole chain of text operations around it"""
        if t == X:
            roots.add(t)
            return
        if isinstance(t, T) and t.op == 'lib':
            c = texts(t)
            if c is not None:
                roots.add(t)
                return
        for x in (t.a if isinstance(t, T) else t):
            if isinstance(x, (T, tuple)):
                walk(x)
    for t in terms:
        walk(t)
    if not roots:
        return [unk(R12, sc.fn, 'the text is not used in a known way')]
    # a step of the chain alone may be used as the argument of the next one; only the longest chains are uses
    inner = set()
    for r in roots:
        for x in subterms(r):
            if x is not r and x != r and x in roots:
                inner.add(x)
    used = [r for r in roots if r not in inner]
    for r in sorted(used, key=show):
        c = texts(r) if r != X else []
        good = bool(c) and any(s[0] in FOLD for s in c) and any(s[0].startswith('unidecode') for s in c) and letters_only(c) and case_proof(c)
        if good:
            out.append(ok(R12, sc.fn, show(r)[:160]))
        else:
            out.append(unk(R12, sc.fn, 'the text is also used as %s' % show(r)[:120]))
    return out


def letters_only(c):
    for s in c:
        l = literal(s[1]) if s[0] == 're.sub' else None
        if l and s[2].op == 'const' and s[2].a[1] == '':
            try:
                p = re.compile(l[0], l[1])
            except re.error:
                continue
            if all(p.fullmatch(x) for x in string.punctuation + string.digits + ' \t\n'):
                return True
    return False
