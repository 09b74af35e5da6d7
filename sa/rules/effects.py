"""Who is changed by an event: shared by the effect rules (C01, C02, C03, C04)."""
from ..terms import show, kind
from ..verdict import ok, bad, unk

WRITE = ('mut', 'ins', 'inc', 'del', 'setattr')
CHAIN = ('item', 'at', 'attr', 'dkey', 'dval', 'elem')


def root(t, st, I, depth=0):
    """('arg', name) | ('global',..) | ('default',..) | ('self',..) | ('fresh',..) | ('?',..)"""
    if depth > 12:
        return ('?', 'deep')
    if t.op == 'sym':
        return ('arg', t.a[0])
    if t.op == 'obj':
        o = I.getobj(st, t)
        org = o.origin if o is not None else None
        if org in ('global', 'default', 'self'):
            return (org, str(t.a[0])[:80])
        return ('fresh', '')
    if t.op in CHAIN and t.a and hasattr(t.a[0], 'op'):
        if t.a[0].op == 'obj':
            o = I.getobj(st, t.a[0])
            if o is not None and o.origin in ('global', 'default', 'self'):
                return (o.origin, show(t.a[0])[:80])
            c = o.content if o is not None else None
            if c is not None and t.op == 'item':
                r = set(elem_roots(c, st, I, depth + 1))
                if len(r) == 1:
                    return r.pop()
            return ('?', 'member')
        if t.op in ('item', 'at') and t.a[0].op in ('gseq', 'gset', 'lit', 'cat'):
            r = set(elem_roots(t.a[0], st, I, depth + 1))
            bad_ = [x for x in r if x[0] in ('arg', 'global', 'default', 'self')]
            return bad_[0] if len(bad_) == len(r) == 1 else r.pop() if len(r) == 1 else ('?', 'several')
        return inner(t.a[0], st, I, depth + 1)
    if t.op == 'lib' and t.a and isinstance(t.a[0], str) and t.a[0] in ('m.get', 'm.pop', 'm.setdefault') and hasattr(t.a[1], 'op'):
        return root(t.a[1], st, I, depth + 1)
    if t.op in ('cls', 'fn', 'module'):
        return ('global', show(t)[:80])
    return ('?', t.op)


SEQ = ('sorted', 'listof', 'setof', 'rev', 'slc', 'sorted_uniq')


def inner(t, st, I, depth):
    """root of the elements of t"""
    if t.op in SEQ:
        return inner(t.a[0], st, I, depth + 1)
    return root(t, st, I, depth)


def elem_roots(c, st, I, depth):
    if depth > 12:
        return [('?', 'deep')]
    if c.op == 'lit':
        return [root(x, st, I, depth) for x in c.a]
    if c.op == 'cat':
        out = []
        for p in c.a:
            out += elem_roots(p, st, I, depth + 1)
        return out
    if c.op in SEQ:
        return elem_roots(c.a[0], st, I, depth + 1)
    if c.op == 'sym':
        return [root(c, st, I, depth)]
    if c.op in ('gseq', 'gset'):
        out = []
        for g, e in c.a[3:]:
            for x in (e if isinstance(e, tuple) else (e,)):
                out.append(root(x, st, I, depth) if hasattr(x, 'op') else ('?', ''))
        return out
    if c.op == 'obj':
        return [root(c, st, I, depth)]
    return [('?', c.op)]


def writes(run):
    for e in run.log[run.built:]:
        if e.kind in WRITE:
            yield e
