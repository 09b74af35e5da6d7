"""C03: an argument accepted as an arbitrary iterable is traversed at most once, and never measured or indexed."""
from .. import scen
from ..terms import kind, show, mk, lit_not
from ..verdict import ok, bad, unk

EXPLAIN = ("Typestate analysis (fresh -> consumed) of every iterable argument: each public function is interpreted on symbolic arguments "
           "whose iterables are one-shot; every traversal (for, list(), set(), sorted(), in, unpacking, update, zip, ...) met on a path is "
           "an obligation: no earlier traversal of the same iterable on that path; measuring or indexing it is refused.")
ASSUME = ["`type(x) is list` guards keep a list as it is, which is also analysed (C01 scenarios)"]
LIMIT = 100
RULE = 'a one-shot iterable is traversed once'


def scenarios(tier):
    L = scen.clustering('iter', full=tier == 'thorough') + scen.joins('iter') + [s for s in scen.metrics('iter') if s.name != 'intersection_size'] + scen.lsh('iter') + scen.evaluation('iter')
    L += [s for s in scen.fingerprints() if s.tag('opt') in ('stopwords', 'all')]
    L += [s for s in scen.words_opaque() if s.tag('opt') in ('stoplist', 'keep', 'drop', 'all+keep', 'all+drop')]
    if tier == 'thorough':
        return L
    return [s for s in L if not s.tag('slow')] + [s for s in L if s.tag('slow')][:1]


def source(t):
    """the argument a one-shot value comes from"""
    if t.op == 'sym':
        return t.a[0]
    if t.op == 'app' and t.a[0].op == 'sym':
        return 'value returned by %s' % t.a[0].a[0]
    return None


def sized(e):
    """the path has established that the source is a container, not an iterator"""
    x = e.source
    return lit_not(mk('truthy', x)) in e.facts or mk('truthy', mk('lib', 'sized', x)) in e.facts


def judge(sc, run, S):
    out = []
    for e in run.log:
        if e.kind == 'consume' and e.source.op != 'obj' and kind(e.source) == 'iter':
            s = source(e.source)
            if s is None:
                continue
            if e.get('again') and not sized(e):
                out.append(bad(RULE, e.where(), 'second traversal of %s (%s)' % (s, e.get('how'))))
            else:
                out.append(ok(RULE, e.where(), 'first traversal of %s' % s))
        elif e.kind == 'badlen' and source(e.source):
            out.append(bad(RULE, e.where(), 'len() of %s' % source(e.source)))
        elif e.kind == 'index' and kind(e.target) == 'iter' and source(e.target):
            out.append(bad(RULE, e.where(), 'indexing of %s' % source(e.target)))
    return out
