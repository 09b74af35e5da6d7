"""C23: labels and clusters convert into each other without loss."""
from .. import scen
from ..terms import T, mk, show, subterms, symbols, kind, entails, lit_not, mentions, const, sub, eq0, cmp_lit, num, is_num_const
from ..verdict import ok, bad, unk
from . import links as K

EXPLAIN = ("The loops over the labels / over the members of the clusters are abstractly interpreted; for every path through one iteration the insertions made on "
           "that path are listed. Obligations: every path deposits the item exactly once, in the container filed under the label of that very item (or files the "
           "number of the cluster under the item or its key); no container is replaced while it holds items; no iteration is cut short; and the result is all the "
           "containers of the mapping in insertion order (the whole mapping, or the flat list of its values).")
ASSUME = ["mappings keep insertion order (Python 3.7+)"]
LIMIT = 60
R1 = 'every labelled item is deposited exactly once, under its own label'
R2 = 'all groups are returned, in order of first appearance'
R3 = 'every item is given the number of its cluster'
R4 = 'the flat form holds the label of every item'


def scenarios(tier):
    return [s for s in scen.evaluation() + scen.evaluation('iter') if s.tag('fam') == 'labels']


LOSSYFN = ('str', 'repr', 'len', 'hash', 'bool', 'int', 'lower', 'upper', 'strip', 'round', 'abs')


def pure(t, roots):
    return all(x in roots or x.op == 'bnd' or x.op == 'const' for x in symbols(t)) and not any(
        x.op in ('top', 'lv', 'obj', 'app') or x.op == 'lib' and x.a[0] not in LOSSYFN for x in subterms(t))


def deposits(tr):
    """insertions on a path: (container, key path or None, value, event)"""
    filed = {}
    for e in tr:
        if e.kind == 'ins' and e.op in ('setitem', 'setdefault') and e.val is not None and e.val.op == 'obj':
            filed[e.val] = (e.target, e.key)
    for e in tr:
        if e.kind == 'ins' and e.target.op == 'obj' and e.val is not None:
            if K.ismem(e.target):
                o = e.target.a[0]
                yield 'in', mk('obj', o[1], o[2]) if len(o) > 2 else None, K.memkeys(e.target)[0], e.val, e
            elif e.target in filed:
                yield 'in', filed[e.target][0], filed[e.target][1], e.val, e
            else:
                yield 'at', e.target, e.key, e.val, e
        elif e.kind == 'mut' and e.target.op == 'at' and e.get('op') in ('append', 'add'):
            yield 'in', e.target.a[0], e.target.a[1], e.get('args')[0], e
        elif e.kind == 'mut':
            yield '?', e.target, None, None, e


def judge(sc, run, S):
    if run.lossy:
        return [unk(R1, sc.fn, 'not fully analysed: %s' % run.lossy)]
    return to_clusters(sc, run, S) if sc.fn.endswith('labels_to_clusters') else to_labels(sc, run, S)


def full(e, hi):
    return e.lo is not None and is_num_const(e.lo) and num(e.lo) == 0 and e.hi is hi


def to_clusters(sc, run, S):
    L = sc.args[0]
    out = []
    put = lambda o: out.append(o) if str(o) not in set(map(str, out)) else None
    maps = set()
    n = 0
    for e in run.log:
        if e.kind not in ('iterend', 'cut') or e.hi is None or L not in symbols(e.hi):
            continue
        b = e.binder
        if sc.tag('form') == 'dict':
            item = mk('item', L, b)
            lab = mk('at', L, item)
        elif sc.tag('form') in ('list', 'tuple'):
            item, lab = b, mk('item', L, b)
        else:
            x = mk('item', L, b)
            item, lab = mk('item', x, const(0)), mk('item', x, const(1))
        if e.kind == 'cut':
            if e.how in ('brk', 'ret'):
                put(bad(R1, e.where(), 'the loop over the labels may stop before the end'))
            continue
        if not full(e, mk('len', L)):
            if e.hi is not None and e.lo is not None:
                put(bad(R1, e.where(), 'only positions %s to %s are read' % (show(e.lo), show(e.hi)[:60])) if symbols(e.hi) <= {L} and symbols(e.lo) <= {L} else unk(R1, e.where(), 'range'))
            continue
        if not any(mentions(t, item) or mentions(t, lab) for x in e.trace for t in x.d.values() if isinstance(t, T)) and not e.trace:
            # nothing is inserted on this path
            pass
        ds = list(deposits(e.trace))
        ours = [d for d in ds if d[0] == 'in' and d[3] is item]
        if any(d[0] == '?' for d in ds):
            put(unk(R1, e.where(), 'unknown effect'))
            continue
        n += 1
        if not ours:
            vals = [d for d in ds if d[0] == 'in']
            if vals and all(pure(d[3], {L}) for d in vals):
                put(bad(R1, vals[0][4].where(), '%s is deposited instead of the item %s' % (show(vals[0][3])[:60], show(item)[:60])))
            elif not ds or all(d[0] == 'at' and d[3].op == 'obj' for d in ds):
                put(bad(R1, e.where(), 'no container receives the item %s when %s' % (show(item), '; '.join(show(f)[:80] for f in e.facts if f not in e.head.facts))))
            else:
                put(unk(R1, e.where(), 'deposits %s' % '; '.join(show(d[3])[:60] for d in ds if d[3] is not None)))
            continue
        if len(ours) > 1:
            put(bad(R1, ours[1][4].where(), 'the item is deposited twice on one path'))
            continue
        _, M, key, v, ev = ours[0]
        if key is not lab:
            if pure(key, {L}) and not K.same(key, lab, ev.facts):
                put(bad(R1, ev.where(), 'the item %s is filed under %s, not under its label %s' % (show(item), show(key)[:80], show(lab))))
            else:
                put(unk(R1, ev.where(), 'filed under %s' % show(key)[:80]))
            continue
        lost = None
        for x in e.trace:
            if x.kind == 'ins' and x.op == 'setitem' and x.target is M and x.val.op == 'obj':
                absent = any(f.op == 'not' and f.a[0].op == 'in' and f.a[0].a[0] is key and f.a[0].a[1] is M for f in x.facts)
                empty = any(f.op == 'isnone' and f.a[0].op == 'at' and f.a[0].a[1] is key or f.op == 'not' and f.a[0].op == 'truthy' and f.a[0].a[0].op == 'at' and f.a[0].a[0].a[1] is key for f in x.facts)
                l = S.I.length(M, x.st) if M in x.st.ob else None
                if l is not None and entails(x.facts, cmp_lit('<=', l, const(0))):
                    absent = True
                if not absent and not empty:
                    there = any(f.op == 'in' and f.a[0] is key and f.a[1] is M for f in x.facts)
                    copied = any(y.kind == 'ins' and y.target is x.val and y.val is not None and y.val.op == 'splat' for y in e.trace)
                    if not copied:
                        lost = (x, there or not any(M in subterms(f) for f in x.facts))
        if lost:
            put(bad(R1, lost[0].where(), 'the group of a label already met is replaced') if lost[1] else unk(R1, lost[0].where(), 'replacement of a group'))
            continue
        maps.add(M)
        put(ok(R1, ev.where(), '%s under %s when %s' % (show(item), show(lab), '; '.join(show(f)[:60] for f in e.facts if f not in e.head.facts)[:160])))
    if not n:
        put(unk(R1, sc.fn, 'no loop over the labels'))
    for k, st, v in run.outs:
        if k != 'ret':
            continue
        if v.op != 'obj' or len(maps) != 1:
            put(unk(R2, sc.fn, 'result %s' % show(v)[:80]) if not wrapped(v) else bad(R2, sc.fn, 'the groups are reordered: %s' % show(v)[:80]))
            continue
        M, = maps
        put(values(S.I.content(v, st), M, sc.fn, R2, S, st))
    return out


def wrapped(v):
    return v.op in ('sorted', 'rev') or v.op == 'lib' and v.a[0] in ('sorted', 'rev', 'reversed')


def values(c, M, fn, R, S, st):
    """c is all the values of M, in order"""
    if c.op == 'gseq' and len(c.a[3]) == 1:
        q, lo, hi, ((gs, els),) = c.a[0], c.a[1], c.a[2], c.a[3]
        el = els[0] if len(els) == 1 else None
        rng = is_num_const(lo) and num(lo) == 0 and (entails(st.facts, eq0(sub(hi, S.I.length(M, st)))) or hi is S.I.length(M, st))
        keyq = [x for x in subterms(c) if x.op == 'dkey' and x.a[0] is M and x.a[1] is q]
        if el is not None and keyq and rng:
            g2 = [g for g in gs if not (g.op == 'in' and g.a[0] in keyq and g.a[1] is M)]
            if el.op == 'at' and el.a[0] is M and el.a[1] in keyq or K.ismem(el) and K.memkeys(el)[0] in keyq:
                if not g2:
                    return ok(R, fn, 'all values of %s' % show(M))
                if all(M in subterms(g) for g in g2) and not any(x.op in ('top', 'lib', 'app') for g in g2 for x in subterms(g)):
                    return bad(R, fn, 'groups are only returned when %s' % '; '.join(show(g)[:100] for g in g2))
            elif el in keyq and R == R2:
                return bad(R, fn, 'the labels are returned instead of the groups')
    if wrapped(c):
        return bad(R, fn, 'the groups are reordered: %s' % show(c)[:80])
    return unk(R, fn, 'result %s' % show(c)[:120])


def to_labels(sc, run, S):
    C = sc.args[0]
    out = []
    put = lambda o: out.append(o) if str(o) not in set(map(str, out)) else None
    maps = set()
    n = 0
    for e in run.log:
        if e.kind not in ('iterend', 'cut') or C not in symbols(e.hi if e.hi is not None else const(0)):
            continue
        outer = [a for a in e.active if a[3] is mk('len', C)]
        if e.kind == 'cut':
            if e.how in ('brk', 'ret'):
                put(bad(R3, e.where(), 'the loop over the clusters may stop before the end'))
            continue
        if e.hi is mk('len', C):
            inner = mk('item', C, e.binder)
            if full(e, e.hi) and not any(x.kind in ('iter', 'app', 'ins', 'mut', 'consume', 'lookup') for x in e.trace):
                L0 = mk('len', inner)
                put(ok(R3, e.where(), 'an empty cluster') if entails(e.facts, eq0(L0)) or lit_not(mk('truthy', inner)) in e.facts else
                    bad(R3, e.where(), 'the members of a cluster receive no label when %s' % '; '.join(show(f)[:80] for f in e.facts if f not in e.head.facts)))
            continue
        if not outer:
            if pure(e.hi, {C}) and e.lo is not None and pure(e.lo, {C}) and len(e.active) == 2 and len(e.active[0]) > 3:
                a = e.active[0]
                put(bad(R3, e.where(), 'only clusters %s to %s are read' % (show(a[2])[:40], show(a[3])[:60])) if a[3] is not None and C in symbols(a[3]) and pure(a[3], {C}) and not K.equal(a[3], mk('len', C), e.facts) else unk(R3, e.where(), 'range'))
            continue
        i = outer[0][1]
        b = e.binder
        item = mk('item', mk('item', C, i), b)
        if not full(e, mk('len', mk('item', C, i))):
            put(unk(R3, e.where(), 'range') if not (pure(e.hi, {C}) and pure(e.lo, {C})) else bad(R3, e.where(), 'only positions %s to %s of a cluster are read' % (show(e.lo)[:40], show(e.hi)[:40])))
            continue
        want = mk('app', scen.KEY, item) if sc.tag('key') else item
        n += 1
        ds = [x for x in e.trace if x.kind == 'ins' and x.op in ('setitem', 'setdefault') and x.target.op == 'obj']
        if any(x.kind == 'mut' for x in e.trace):
            put(unk(R3, e.where(), 'unknown effect'))
            continue
        if not ds:
            if any(f.op == 'in' and f.a[0] is want for f in e.facts):
                put(ok(R3, e.where(), 'the item already has a label'))
            else:
                put(bad(R3, e.where(), 'the item %s receives no label when %s' % (show(item), '; '.join(show(f)[:80] for f in e.facts if f not in e.head.facts))))
            continue
        for x in ds:
            if x.key is not want:
                if pure(x.key, {C}) or x.key.op == 'app' and x.key.a[0] is scen.KEY and len(x.key.a) == 2 and pure(x.key.a[1], {C}) or not sc.tag('key') and not any(y.op in ('lv', 'obj', 'top', 'lib') for y in subterms(x.key)):
                    put(bad(R3, x.where(), 'the label is filed under %s, not %s' % (show(x.key)[:60], show(want)[:60])))
                else:
                    put(unk(R3, x.where(), 'filed under %s' % show(x.key)[:60]))
            elif x.val is i or kind(x.val) == 'int' and K.equal(x.val, i, x.facts):
                maps.add(x.target)
                put(ok(R3, x.where(), '%s -> %s' % (show(want), show(i))))
            elif pure(x.val, {C}):
                put(bad(R3, x.where(), 'the item of cluster %s is given the label %s' % (show(i), show(x.val)[:60])))
            else:
                put(unk(R3, x.where(), 'label %s' % show(x.val)[:60]))
    if not n:
        put(unk(R3, sc.fn, 'no loop over the clusters'))
    for k, st, v in run.outs:
        if k != 'ret':
            continue
        if len(maps) != 1:
            put(unk(R4, sc.fn, 'result %s' % show(v)[:80]))
            continue
        M, = maps
        if not sc.tag('flat'):
            put(ok(R3, sc.fn, 'the mapping is returned') if v is M else unk(R3, sc.fn, 'result %s' % show(v)[:80]))
            continue
        flat(put, run, S, st, v, M, sc.fn)
    return out


def flat(put, run, S, st, v, M, fn):
    if v.op != 'obj':
        put(unk(R4, fn, 'result %s' % show(v)[:80]))
        return
    same = lambda a, b: a is b or entails(st.facts, eq0(sub(a, b)))
    if not same(S.I.length(v, st), S.I.length(M, st)) and not entails(st.facts, eq0(sub(S.I.length(v, st), S.I.length(M, st)))):
        l = S.I.length(v, st)
        if not (l.op == 'max' and any(same(x, S.I.length(M, st)) for x in l.a)):
            put(unk(R4, fn, 'length %s' % show(l)[:80]))
    n = 0
    for e in run.log:
        if e.kind == 'cut' and e.how in ('brk', 'ret') and any(x.op == 'dkey' and x.a[0] is M for f in e.facts for x in subterms(f)):
            put(bad(R4, e.where(), 'the loop over the labels may stop before the end'))
        if e.kind != 'iterend':
            continue
        ks = [x for f in e.facts for x in subterms(f) if x.op == 'dkey' and x.a[0] is M and x.a[1] is e.binder]
        ds = [x for x in e.trace if x.kind == 'ins' and x.target is v]
        if not ks and not ds:
            continue
        n += 1
        if not ds:
            put(bad(R4, e.where(), 'a label is left out when %s' % '; '.join(show(f)[:80] for f in e.facts if f not in e.head.facts)) if not e.trace else unk(R4, e.where(), 'no insertion'))
        for x in ds:
            if x.op == 'setitem' and x.key.op == 'dkey' and x.key.a[0] is M and x.val.op == 'at' and x.val.a[0] is M and x.val.a[1] is x.key:
                put(ok(R4, x.where(), '%s' % show(x.val)[:80]))
            elif x.op == 'append' and x.val.op == 'at' and x.val.a[0] is M and x.val.a[1] is e.binder:
                put(ok(R4, x.where(), '%s' % show(x.val)[:80]))
            elif x.op == 'append' and x.val.op == 'at' and x.val.a[0] is M and x.val.a[1].op == 'dkey':
                put(bad(R4, x.where(), 'labels are listed in order of insertion, not at the position of their item'))
            elif x.op == 'setitem' and x.val.op == 'dkey' and x.val.a[0] is M:
                put(bad(R4, x.where(), 'the item is stored in place of its label'))
            else:
                put(unk(R4, x.where(), '%s at %s' % (show(x.val)[:60], show(x.key)[:60] if x.key is not None else None)))
    if not n:
        put(unk(R4, fn, 'no loop over the labels'))
