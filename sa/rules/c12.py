"""C12: option values."""
import re
from .. import scen
from ..scen import Sc, sym
from ..terms import T, mk, const, show, cmp_lit, entails, lit_not, subterms, kind, eq_lit
from ..values import seqlen
from ..drive import Missing
from ..verdict import ok, bad, unk, Static
from .c05 import last
from .c21 import vague

EXPLAIN = ("Option-value flow: every routine taking a mode, metric, token ordering or token type is interpreted with that option bound to a symbol constrained to differ from "
           "each documented value (so every other string at once), and without any similarity criterion; no path may produce a result or end normally, except on a collection "
           "with nothing to compare. The same routines are interpreted with each documented value as a constant: no path that only depends on the options may refuse it. The "
           "choices offered by each add_argument call of the command line are evaluated from the source and each one is followed through the action function.")
ASSUME = ["the documented values are those of the docstrings, listed in this rule"]
LIMIT = 100
MODES = ('fuzzy_clusters', 'connected_components')
TYPES = ('word', 'number', 'punct', 'emoji', 'smiley', 'url', 'email', 'hashtag', 'mention')
ORDERINGS = (None, 'freq', 'crc32')
JOIN = ('jaccard', 'dice', 'binary_cosine')
INDEX = ('jaccard', 'overlap')
GRAPH = (None, 'jaccard', 'overlap', 'dice', 'cosine', 'binary_cosine')
R1 = 'an unknown value is refused'
R2 = 'a documented value is accepted'
R3 = 'a missing criterion is refused'
R4 = 'contradictory options are refused'
R5 = 'every choice of the command line has an implementation'


def unknown(name, values):
    x = sym(name, 'str')
    return x, [lit_not(eq_lit(x, const(v))) for v in values if v is not None]


def routines():
    """one scenario per routine and option: (scenario, option, documented values)"""
    out, seen = [], set()

    def add(sc, opt, values):
        if (sc.fn, opt) not in seen:
            seen.add((sc.fn, opt))
            out.append((sc, opt, values))
    for sc in scen.clustering('list', True) + scen.joins('list') + scen.graphs():
        if sc.tag('slow'):
            continue
        f = sc.fn.split('.')[-1]
        if 'mode' in sc.kw:
            add(sc, 'mode', MODES + (('leader',) if f == 'pairwise' else ()))
        if f == 'intersection_index':
            add(sc, 'metric', INDEX)
        if f == 'ppjoin' and not sc.name.startswith('ppjoin_plus'):
            add(sc, 'metric', JOIN)
            add(sc, 'token_ordering', ORDERINGS)
        if f == 'monopartite_projection':
            add(sc, 'metric', GRAPH)
    return out


def opts(sc, drop=(), **kw):
    d = dict((k, v) for k, v in sc.kw.items() if k not in drop)
    d.update(kw)
    return d


def scenarios(tier):
    out = []
    for sc, o, values in routines():
        f = sc.fn.split('.')[-1]
        x, fs = unknown(o, values)
        out.append(Sc('%s/unknown %s' % (f, o), sc.fn, sc.args, opts(sc, **{o: x}), facts=list(sc.facts) + fs, what='unknown', opt=x, data=sc.args[0]))
        for v in values:
            out.append(Sc('%s/%s=%s' % (f, o, v), sc.fn, sc.args, opts(sc, **{o: const(v)}), facts=sc.facts, what='known', data=sc.args[0]))
    seen = set()
    for sc in scen.clustering('list', True):
        if sc.tag('slow') or sc.tag('crit') not in ('sim+r', 'sim') or 'similarity' not in sc.kw or sc.fn in seen:
            continue
        seen.add(sc.fn)
        out.append(Sc('%s/no criterion' % sc.fn.split('.')[-1], sc.fn, sc.args, opts(sc, ('similarity', 'distance')), facts=sc.facts, what='missing', data=sc.args[0]))
    W = 'fog.tokenizers.WordTokenizer'
    for o in ('keep', 'drop'):
        x, fs = unknown('token_type', TYPES)
        for i, l in enumerate(((x,), (const('word'), const('no such type')), (const('no such type'), const('word')))):
            out.append(Sc('WordTokenizer/%s unknown %d' % (o, i), W, [], {o: mk('lit', *l)}, facts=fs, what='unknown', opt=x, build=True))
        for v in TYPES:
            out.append(Sc('WordTokenizer/%s=%s' % (o, v), W, [], {o: mk('lit', const(v))}, what='known', build=True))
    K, D = mk('lit', const('word')), mk('lit', const('punct'))
    out.append(Sc('WordTokenizer/keep+drop', W, [], dict(keep=K, drop=D), what='contradiction', build=True))
    out.append(Sc('WordTokenizer/empty keep+drop', W, [], dict(keep=mk('lit'), drop=D), what='contradiction', build=True))
    lo, hi = sym('min_word_length', 'int'), sym('max_word_length', 'int')
    out.append(Sc('WordTokenizer/min>max', W, [], dict(min_word_length=lo, max_word_length=hi), facts=[cmp_lit('>', lo, hi)], what='contradiction', build=True))
    out.append(Sc('WordTokenizer/min<max', W, [], dict(min_word_length=lo, max_word_length=hi), facts=[cmp_lit('<', lo, hi)], what='known', build=True))
    out.append(Static('command line', commands))
    return out


def nothing(sc, facts):
    """fewer than two items"""
    d = sc.tag('data')
    return d is not None and entails(frozenset(facts), cmp_lit('<', seqlen(d), const(2)))


def fmt(facts):
    return '; '.join(sorted(show(f)[:70] for f in facts))[:220]


def judge(sc, run, S):
    w = sc.tag('what')
    rule = {'unknown': R1, 'known': R2, 'missing': R3, 'contradiction': R4}[w]
    if run.lossy:
        return [unk(rule, sc.fn, 'not fully analysed: %s' % run.lossy)]
    ends = [(k, st, v) for k, st, v in run.outs if k not in ('raise', 'esc')]
    stops = [(k, st, v) for k, st, v in run.outs if k in ('raise', 'esc')]
    if w == 'known':
        if not ends:
            return [bad(rule, sc.fn, 'no path accepts %s' % sc.name.split('/')[-1])]
        for k, st, v in stops:
            if not any(vague(f) for f in st.facts) and not any(data(f, sc) for f in st.facts):
                return [bad(rule, sc.fn, '%s is refused under [%s]' % (sc.name.split('/')[-1], fmt(st.facts)))]
        return [ok(rule, sc.fn, '%s: %d path(s) end normally' % (sc.name.split('/')[-1], len(ends)))]
    out = []
    for e in run.log:
        if e.kind == 'result':
            out.append(bad(rule, last(e), 'a result is produced under [%s]' % fmt(e.facts)))
            break
    for k, st, v in ends:
        # without a criterion, the comparison itself fails: a path through unknown loops may be one that compares nothing
        if not nothing(sc, st.facts) and not (w == 'missing' and any(vague(f) for f in st.facts)):
            if any(opaque(f, sc) for f in st.facts):
                out.append(unk(rule, sc.fn, 'a test of the option is not decided: [%s]' % fmt(st.facts)))
                break
            out.append(bad(rule, sc.fn, 'ends without any error under [%s]' % fmt(st.facts)))
            break
    if not out:
        out.append(ok(rule, sc.fn, '%d path(s), all refuse' % len(stops)) if stops else unk(rule, sc.fn, 'no path ends'))
    return out


def opaque(f, sc):
    """a fact counting the option's values in a set: not related to membership here"""
    x = sc.tag('opt')
    return x is not None and any(t.op in ('isize', 'len', 'diff', 'gsum', 'sum') and any(u is x for u in subterms(t)) for t in subterms(f))


def data(f, sc):
    d = sc.tag('data')
    return d is not None and any(x is d for x in subterms(f))


# command line --------------------------------------------------------------------------------------
MAIN = 'fog.cli.__main__.main'


def dest(e):
    """name of the option an add_argument call declares"""
    d = e.kw.get('dest')
    if d is not None and d.op == 'const':
        return d.a[1]
    names = [a.a[1] for a in e.args if a.op == 'const' and isinstance(a.a[1], str)]
    long = [n for n in names if n.startswith('--')] or names
    return long[0].lstrip('-').replace('-', '_') if long else None


def listed(S, e, t):
    """constants of a choices argument"""
    if t.op == 'obj':
        o = S.I.getobj(e.st, t)
        t = o.content if o is not None else None
    if t is not None and t.op == 'dictlit':
        return [k for k, _ in t.a]
    if t is not None and t.op in ('lit', 'tuple', 'setlit') and all(isinstance(x, T) and x.op == 'const' for x in t.a):
        return list(t.a)
    return None


def commands(S):
    try:
        run = S.run(MAIN, [], limit=60)
    except Missing as e:
        return [unk(R5, MAIN, 'no %s' % e)]
    if run.lossy:
        return [unk(R5, MAIN, run.lossy)]
    out, subs, act = {}, {}, None

    def put(o):
        out.setdefault((o.where, o.detail), o)
    for e in run.log:
        if e.kind != 'extmeth':
            continue
        if e.name == 'add_subparsers':
            d = e.kw.get('dest')
            act = d.a[1] if d is not None and d.op == 'const' else None
        elif e.name == 'add_parser' and e.args and e.args[0].op == 'const':
            subs.setdefault(e.args[0].a[1], {})
        elif e.name == 'add_argument' and e.target.op == 'lib' and e.target.a[0] == 'm.add_parser':
            subs.setdefault(e.target.a[2].a[1], {})[dest(e)] = e
    if act is None or not subs:
        return [unk(R5, MAIN, 'the command line is not built the way this rule reads it')]
    for name, args in sorted(subs.items()):
        base = {act: const(name)}
        for d, e in args.items():
            flag = e.kw.get('action')
            base[d] = sym(d, 'bool') if flag is not None else sym(d, 'str')
        todo = [(None, None, None)]
        for d, e in sorted(args.items()):
            c = e.kw.get('choices')
            vals = listed(S, e, c) if c is not None else None
            if c is not None and vals is None:
                put(unk(R5, e.where(), 'choices of %s %s are not constants' % (name, d)))
                continue
            if vals is None:
                # choices announced by the help text
                h = e.kw.get('help')
                if h is not None and h.op == 'const' and isinstance(h.a[1], str):
                    m = re.search(r'\{([\w,]+)\}', h.a[1])
                    if m:
                        vals = [const(x) for x in m.group(1).split(',')]
                        todo += [(d, const('no such value'), False)]
            for v in vals or ():
                todo.append((d, v, True))
            dv = e.kw.get('default')
            if c is not None and dv is not None and dv.op == 'const' and dv not in vals:
                put(bad(R5, e.where(), 'the default of %s %s is not one of its choices' % (name, d)))
        for d, v, wanted in todo:
            S.I.parsed = dict(base)
            if d is not None:
                S.I.parsed[d] = v
                for o, e in args.items():
                    if e.kw.get('action') is not None and wanted is False:
                        S.I.parsed[o] = const(False)
            try:
                r = S.run(MAIN, [], limit=60)
            finally:
                S.I.parsed = None
            what = 'fog %s' % name + ('' if d is None else ' %s=%s' % (d, show(v)))
            if r.lossy:
                put(unk(R5, MAIN, '%s: %s' % (what, r.lossy)))
                continue
            ends = [o for o in r.outs if o[0] not in ('raise', 'esc')]
            i = max([k for k, e in enumerate(r.log) if e.kind == 'extmeth' and e.name == 'parse_args'] or [-1])
            after = r.log[i + 1:]
            if wanted is False:
                w = [e for e in after if e.kind in ('write', 'print')]
                if w:
                    put(bad(R1, w[0].where(), '%s: something is written before it is refused' % what))
                elif ends:
                    put(bad(R1, MAIN, '%s: ends without any error' % what))
                else:
                    put(ok(R1, MAIN, '%s: refused' % what))
            elif not ends:
                put(bad(R5, MAIN, '%s: every path fails (%s)' % (what, ', '.join(sorted(set(str(x[2][0]) if isinstance(x[2], tuple) else show(x[2])[:60] for x in r.outs))))))
            elif not [e for e in after if e.kind not in ('index', 'len')]:
                put(bad(R5, MAIN, '%s: nothing happens' % what))
            else:
                b = [e for e in after if e.kind in ('fail', 'badcall', 'noattr') and not e.get('caught') and not any(vague(f) for f in e.facts) and d is not None and not e.facts]
                if b:
                    put(bad(R5, b[0].where(), '%s fails: %s' % (what, b[0].get('what'))))
                else:
                    put(ok(R5, MAIN, '%s: %d path(s) end normally' % (what, len(ends))))
    return list(out.values())
