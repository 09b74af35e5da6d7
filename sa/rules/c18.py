"""C18: the word tokenizer."""
import itertools
from .. import scen
from ..scen import sym, Sc
from ..strval import Text, Unclear, deburr
from ..terms import T, mk, show, const, subterms
from ..verdict import ok, bad, unk, Static
from ..drive import Missing
from .. import scan

EXPLAIN = ("Two analyses. The option pipeline is interpreted with the scanner replaced by an unknown stream of tokens, for every option and every pair of options and for all of them together: the "
           "conditions and the value of each emitted token are terms over an unknown token, compared with what the options ask for on tokens of every type (types, lengths, case, stop words that "
           "must or must not matter). The scanner itself is analysed with difference constraints between its positions and the length of the text, tests on characters and flow of flags: every way "
           "back to the head of a loop must advance the position that bounds it, every subscript must be implied to lie within the text, and the types of the tokens it yields must be documented ones.")
ASSUME = ["methods of str and regular expressions behave as documented", "subclasses do not redefine the scanner"]
LIMIT = 100
X = sym('string', 'str')
TYPES = frozenset(['word', 'number', 'punct', 'emoji', 'smiley', 'url', 'email', 'hashtag', 'mention'])
R1 = 'each option applies to every token it concerns'
R2 = 'the text given to the scanner is the one the options ask for'
R3 = 'each turn of a loop of the scanner advances'
R4 = 'the scanner stays within the text'
R5 = 'tokens have a documented type'
SL = sym('stoplist', 'iter', None, 'str')
SS = sym('stopset', 'set', None, 'str')
KP = sym('keep', 'iter', None, 'str')
DP = sym('drop', 'iter', None, 'str')
BOOL = scen.WORD_BOOL
OTHER = dict(min_word_length=const(3), max_word_length=const(6), stoplist=SL, keep=KP, drop=DP)
STOP = ['The', 'a', 'hello', '.', 'Été', 'yomgui', 'ete', '@foo']
KEEP = [['word', 'mention'], ['hashtag', 'punct']]
DROP = [['word', 'number'], ['mention'], ['hashtag', 'url']]
TOKENS = [('word', w) for w in ('Hello', 'hello', 'The', 'the', 'a', 'A', 'ab', 'Abc', 'abcdef', 'Elephants', 'Été')] + \
         [('mention', w) for w in ('@The', '@Yomgui', '@ab', '@Elephants', '@Foo', '@foo')] + [('hashtag', w) for w in ('#Été', '#The', '#the', '#Elephants', '#Foo', '#ab')] + \
         [('number', '12'), ('number', '1'), ('number', '12345678'), ('punct', '.'), ('punct', '!'), ('url', 'http://Lemonde.fr'), ('email', 'A@b.c'), ('emoji', '*'), ('smiley', ':D')]


def scenarios(tier):
    names = list(BOOL) + sorted(OTHER)
    combos = [()] + [(a,) for a in names] + [c for c in itertools.combinations(names, 2) if set(c) != {'keep', 'drop'}]
    combos += [tuple(x for x in names if x != 'keep'), tuple(x for x in names if x != 'drop')]
    if tier == 'thorough':
        combos += [c for c in itertools.combinations(names, 3) if not {'keep', 'drop'} <= set(c)]
    out = [Static('scanner', scanner)]
    combos = [(c, SL) for c in combos] + [(c, SS) for c in combos if 'stoplist' in c]
    for c, sl in combos:
        kw = dict((o, const(True) if o in BOOL else sl if o == 'stoplist' else OTHER[o]) for o in c)
        s = Sc('pipeline/' + ('+'.join(c) if len(c) < 6 else 'all but %s' % [x for x in names if x not in c][0] if c else '') or 'pipeline/', 'fog.tokenizers.WordTokenizer', [X], {}, inst=([], kw), method='tokenize',
               fam='wordpipe', opts=c)
        if sl is SS:
            s.name += ' as a set'
        if not c:
            s.name = 'pipeline/no option'
        s.tags['opaque'] = scen.opaque_scanner
        out.append(s)
    return out


def spec(token, o, stop, keep, drop):
    ty, v = token
    if 'keep' in o and ty not in keep or 'drop' in o and ty in drop:
        return None
    if ty == 'mention':
        if 'normalize_mentions' in o:
            v = v.lower()
        if 'mentions_as_words' in o:
            ty, v = 'word', v[1:]
    elif ty == 'hashtag':
        if 'normalize_hashtags' in o:
            v = deburr(v.lower())
        if 'hashtags_as_words' in o:
            ty, v = 'word', v[1:]
    if ty == 'word':
        if 'lower' in o:
            v = v.lower()
        if 'min_word_length' in o and len(v) < 3 or 'max_word_length' in o and len(v) > 6:
            return None
    if 'stoplist' in o and v in (set(x.lower() for x in stop) if 'lower' in o else stop):
        return None
    return ty, v


def tokens_of(run):
    """terms standing for the token of the stream"""
    out = set()
    for e in run.log:
        if e.kind == 'result':
            for t in [e.val] + list(e.facts):
                for x in subterms(t):
                    if x.op in ('item', 'at') and len(x.a) >= 2 and isinstance(x.a[0], T) and x.a[0].op == 'app' and x.a[0].a[0] == scen.SCAN:
                        out.add(x)
    return out


class Pipe(Text):
    def val(self, t, env):
        if t.op in ('item', 'at') and t in env:
            return env[t]
        if t.op == 'len' and t.a[0].op == 'app':
            return 1
        return Text.val(self, t, env)

    def lib(self, t, env):
        if t.a[0] == 'unescape':
            import html
            return html.unescape(self.str(t.a[1], env))
        return Text.lib(self, t, env)


def judge(sc, run, S):
    o = sc.tag('opts')
    name = '+'.join(o) or 'no option'
    w = sc.fn
    if run.lossy:
        return [unk(R1, w, 'not fully analysed: %s' % run.lossy)]
    out = []
    # the text scanned
    args = set(x.a[1] for e in run.log if e.kind in ('result', 'iter', 'ran', 'iterend') for t in [e.get('val'), e.get('source')] + list(e.facts) if isinstance(t, T) for x in subterms(t)
               if x.op == 'app' and x.a[0] == scen.SCAN and len(x.a) == 2)
    for a in args:
        r = text_law(S, a, o)
        out.append((ok if r is True else bad if r else unk)(R2, w, '%s: %s' % (name, show(a)[:80] if r is True else r or 'not evaluated: %s' % show(a)[:100])))
    ys = [e for e in run.log if e.kind == 'result']
    toks = tokens_of(run)
    if not args or (ys and len(set(x.a[0] for x in toks)) != 1):
        return out + [unk(R1, w, '%s: the stream of tokens is not recognised' % name)]
    env0 = {SL: list(STOP), SS: set(STOP), KP: list(KEEP[0]), DP: list(DROP[0]), X: 'text'}
    raised = [k for k, st, v in run.outs[run.refused:] if k in ('raise', 'esc') and not refusal(S, st, env0)]
    vague = None
    wrong = None
    for stop, keep, drop in itertools.product([STOP], KEEP if 'keep' in o else KEEP[:1], DROP if 'drop' in o else DROP[:1]):
        for tok in TOKENS:
            got, doubt = [], []
            try:
                for e in ys:
                    env = {SL: list(stop), SS: set(stop), KP: list(keep), DP: list(drop), X: 'text'}
                    for x in toks:
                        env[x] = tok
                        env[x.a[1]] = 0
                    for a in e.active:
                        env[a[1]] = 0
                    ev = Pipe(S.I, e.st)
                    if holds(ev, e.facts, env, toks, doubt):
                        v = ev.val(e.val, env)
                        got.append(tuple(v) if isinstance(v, (list, tuple)) else v)
            except Unclear as ex:
                vague = vague or str(ex)
                continue
            except Exception as ex:
                vague = vague or repr(ex)
                continue
            want = spec(tok, o, stop, keep, drop)
            if got != ([want] if want else []) and doubt:
                vague = vague or show(doubt[0])[:80]
            elif got != ([want] if want else []):
                wrong = wrong or (tok, got, want)
    if wrong:
        return out + [bad(R1, where(ys, run) or w, '%s: the token %r gives %s instead of %s' % (name, wrong[0], ', '.join(map(repr, wrong[1])) or 'nothing', wrong[2] or 'nothing'))]
    if vague or raised:
        return out + [unk(R1, w, '%s: %s' % (name, vague or 'an exception may escape'))]
    return out + [ok(R1, w, '%s: %d ways to emit a token' % (name, len(ys)))]


def holds(ev, facts, env, toks, doubt):
    loose = []
    for f in facts:
        try:
            if not ev.truth(f, env):
                return False
        except Unclear:
            if any(x in toks for x in subterms(f)):
                raise
            loose.append(f)
    doubt += loose
    return True


def refusal(S, st, env):
    """the path refuses one of the types of tokens to keep or drop"""
    for f in st.facts:
        for x in subterms(f):
            if x.op in ('item', 'at') and any(y in (KP, DP) for y in subterms(x)) and not any(y.op == 'app' for y in subterms(f)):
                return True
    return False


def where(ys, run):
    for e in ys + [e for e in run.log if e.kind in ('iter', 'iterend')]:
        w = e.where()
        if w and not w.startswith('?'):
            return w
    return None


def text_law(S, a, o):
    """True: the options' rewriting; a text: a difference; None: not evaluated"""
    import html
    import re
    for s in ('plain text', 'caf&eacute; &amp; Cie', 'Éléphant', 'looooooool &ccedil;a', 'aaaabbbbb', 'sooooooo nïïïïïïce', ''):
        want = s
        if 'decode_html_entities' in o:
            want = html.unescape(want)
        if 'unidecode' in o:
            want = deburr(want)
        if 'reduce_words' in o:
            want = re.sub(r'([^\W\d])\1{4,}', r'\1\1\1', want)
        try:
            got = Pipe(S.I, None).val(a, {X: s})
        except Unclear:
            return None
        except Exception:
            return None
        if got != want:
            return 'the text %r is scanned as %r instead of %r' % (s, got, want)
    return True


def scanner(S):
    return scan.judge(S, TYPES, R3, R4, R5)
