"""Pure constructors (simplifying) for sequence, set and mapping terms."""
from . import terms as tm
from .terms import (mk, const, cval, add, sub, mul, div, is_num_const, num, kind, is_numeric, le0, lt0, eq0,
                    cmp_lit, eq_lit, lit_not, entails, REBUILD, F, T, to_poly, neg)

EMPTY = frozenset()


def zero():
    return const(0)


def lit(*e):
    return mk('lit', *e)


def cat(*parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.a)
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == 'lit' and not p.a:
            continue
        if p.op == 'lit' and res and res[-1].op == 'lit':
            res[-1] = mk('lit', *(res[-1].a + p.a))
        else:
            res.append(p)
    if not res:
        return mk('lit')
    if len(res) == 1:
        return res[0]
    return mk('cat', *res)


def nonneg(t):
    """max(0, t), simplified when t is syntactically non negative"""
    if is_num_const(t):
        return t if num(t) >= 0 else const(0)
    d = to_poly(t)
    ok = True
    for m, c in d.items():
        if c < 0:
            ok = False
            break
        for a, e in m:
            if a.op not in ('len', 'isize', 'count', 'popcount') and not (a.op == 'max' and const(0) in a.a) and not _posmin(a):
                ok = False
    if ok:
        return t
    return mk_max(const(0), t)


def _posmin(a):
    return a.op == 'min' and all(nonneg(x) is x for x in a.a)


def mk_minmax(op, *args):
    flat = []
    for a in args:
        if a.op == op:
            flat.extend(a.a)
        else:
            flat.append(a)
    consts = [a for a in flat if is_num_const(a)]
    rest = []
    for a in flat:
        if not is_num_const(a) and a not in rest:
            rest.append(a)
    # infinities
    keep = []
    for a in rest:
        if a.op == 'const' and a.a[0] == 'float':
            v = a.a[1]
            if (op == 'min') == (v > 0):
                continue
            return a
        keep.append(a)
    rest = keep
    if consts:
        f = min if op == 'min' else max
        c = f(consts, key=num)
        if not rest:
            return c
        if op == 'max' and num(c) == 0 and any(x.op in ('len', 'isize', 'count') for x in rest):
            pass
        elif op == 'min' and num(c) <= 0 and all(x.op in ('len', 'isize', 'count') for x in rest):
            return c
        else:
            rest = rest + [c]
    # drop dominated: pairs with constant difference
    i = 0
    while i < len(rest):
        j = i + 1
        while j < len(rest):
            d = sub(rest[i], rest[j])
            if is_num_const(d):
                small_first = num(d) <= 0
                drop = j if (small_first == (op == 'min')) else i
                del rest[drop]
                j = i + 1
                if drop == i:
                    continue
                continue
            j += 1
        i += 1
    if len(rest) == 1:
        return rest[0]
    rest.sort(key=lambda x: x.n)
    return mk(op, *rest)


def mk_min(*a):
    return mk_minmax('min', *a)


def mk_max(*a):
    return mk_minmax('max', *a)


def seqlen(t):
    op = t.op
    if op == 'lit':
        return const(len(t.a))
    if op == 'tuple':
        return const(len(t.a))
    if op == 'const' and isinstance(t.a[1], str):
        return const(len(t.a[1]))
    if op == 'cat':
        r = const(0)
        for p in t.a:
            r = add(r, seqlen(p))
        return r
    if op == 'concat':
        r = const(0)
        for p in t.a:
            r = add(r, seqlen(p))
        return r
    if op == 'gseq':
        b, lo, hi, opts = t.a
        if len(opts) == 1 and not opts[0][0] and all(x.op != 'splat' for x in opts[0][1]):
            return mul(const(len(opts[0][1])), nonneg(sub(hi, lo)))
        return mk('len', t)
    if op == 'rep':
        return mul(seqlen(t.a[0]), nonneg(t.a[1]))
    if op == 'slc':
        s, lo, hi = t.a
        n = seqlen(s)
        if hi.op == 'const' and hi.a[1] is None:
            end = n
        else:
            end = _clip_hi(hi, n)
        if is_num_const(lo) and num(lo) < 0:
            lo = mk_max(const(0), add(n, lo))
        return nonneg(sub(end, lo)) if lo is not const(0) else end if is_num_const(end) or end.op in ('len', 'min') else nonneg(end)
    if op in ('sorted', 'rev', 'listof'):
        return seqlen(t.a[0])
    if op == 'counterof':
        return mk('len', mk_setof(t.a[0]))
    if op == 'inter' and len(t.a) == 2:
        return mk_isize(*t.a)
    if op == 'union' and len(t.a) == 2:
        return sub(add(seqlen(t.a[0]), seqlen(t.a[1])), mk_isize(*t.a))
    if op == 'diff' and len(t.a) == 2:
        return sub(seqlen(t.a[0]), mk_isize(*t.a))
    if op == 'setlit' and all(x.op == 'const' for x in t.a):
        return const(len(set(t.a)))
    if op == 'dictlit':
        return const(len(t.a))
    if op == 'lib' and t.a[0] in ('keysof', 'itemsof', 'valuesof'):
        return seqlen(t.a[1])
    return mk('len', t)


def _clip_hi(hi, n):
    if is_num_const(hi) and num(hi) < 0:
        return mk_max(const(0), add(n, hi))
    d = sub(hi, n)
    if is_num_const(d):
        return n if num(d) >= 0 else hi
    return mk_min(hi, n)


def mk_isize(a, b):
    if a is b:
        return seqlen(a)
    if a.op == b.op == 'setlit' and all(x.op == 'const' for x in a.a + b.a):
        return const(len(set(a.a) & set(b.a)))
    if b.n < a.n:
        a, b = b, a
    return mk('isize', a, b)


def mk_setof(t):
    if kind(t) in ('set', 'dict') or t.op in ('setof', 'setlit', 'inter', 'union', 'diff', 'gset', 'sadd'):
        return t if t.op != 'counterof' else mk_setof(t.a[0])
    if t.op == 'lit' and not t.a:
        return mk('setlit')
    if t.op in ('sorted', 'rev', 'listof'):
        return mk_setof(t.a[0])
    if t.op == 'gseq':
        return mk('gset', *t.a)
    return mk('setof', t)


def mk_slc(s, lo, hi):
    if lo.op == 'const' and lo.a[1] is None:
        lo = const(0)
    full_hi = hi.op == 'const' and hi.a[1] is None
    if full_hi and is_num_const(lo) and num(lo) == 0:
        return s
    if s.op in ('lit', 'tuple') and is_num_const(lo) and (full_hi or is_num_const(hi)):
        a = s.a[int(num(lo)):(None if full_hi else int(num(hi)))]
        return mk(s.op, *a)
    if s.op == 'const' and isinstance(s.a[1], str) and is_num_const(lo) and (full_hi or is_num_const(hi)):
        return const(s.a[1][int(num(lo)):(None if full_hi else int(num(hi)))])
    if s.op == 'slc' and not (is_num_const(lo) and num(lo) < 0):
        s0, lo0, hi0 = s.a
        if not (is_num_const(lo0) and num(lo0) < 0):
            nlo = add(lo0, lo)
            if full_hi:
                return mk_slc(s0, nlo, hi0)
            if not (is_num_const(hi) and num(hi) < 0):
                nhi = add(lo0, hi)
                if hi0.op == 'const' and hi0.a[1] is None:
                    return mk_slc(s0, nlo, nhi)
                return mk_slc(s0, nlo, mk_min(nhi, hi0))
    if not full_hi and hi is seqlen(s):
        hi = const(None)
        if is_num_const(lo) and num(lo) == 0:
            return s
    return mk('slc', s, lo, hi)


def mk_item(s, i, ver=None):
    """i-th element of a sequence term (i is an absolute non negative index unless constant)"""
    op = s.op
    if ver is not None:
        return mk('item', s, i, ver)
    ic = int(num(i)) if is_num_const(i) else None
    if op in ('lit', 'tuple') and ic is not None:
        if -len(s.a) <= ic < len(s.a):
            return s.a[ic]
    if op == 'const' and isinstance(s.a[1], str) and ic is not None:
        if -len(s.a[1]) <= ic < len(s.a[1]):
            return const(s.a[1][ic])
    if op == 'cat' and ic is not None and ic >= 0:
        off = 0
        for p in s.a:
            n = seqlen(p)
            if is_num_const(n):
                if ic < off + int(num(n)):
                    return mk_item(p, const(ic - off))
                off += int(num(n))
            else:
                if ic >= off and p.op != 'lit':
                    break
                break
    if op == 'cat' and ic is not None and ic < 0:
        last = s.a[-1]
        if last.op == 'lit' and -ic <= len(last.a):
            return last.a[ic]
    if op == 'rep' and s.a[0].op == 'lit' and len(s.a[0].a) == 1:
        return s.a[0].a[0]
    if op == 'slc' and not (ic is not None and ic < 0):
        s0, lo, hi = s.a
        if not (is_num_const(lo) and num(lo) < 0):
            return mk_item(s0, add(lo, i))
    if op == 'gseq' and not (ic is not None and ic < 0):
        b, lo, hi, opts = s.a
        if len(opts) == 1 and not opts[0][0] and len(opts[0][1]) == 1 and opts[0][1][0].op != 'splat':
            return tm.subst(opts[0][1][0], {b: add(lo, i)})
    if op == 'rev' and ic is None:
        return mk_item(s.a[0], sub(sub(seqlen(s.a[0]), const(1)), i))
    if op == 'listof':
        return mk_item(s.a[0], i)
    if ic is not None and ic < 0 and op in ('sym', 'sorted'):
        return mk('item', s, add(seqlen(s), i))
    return mk('item', s, i)


def mk_at(d, k, ver=None):
    """mapping lookup d[k]"""
    if ver is not None:
        return mk('at', d, k, ver)
    if d.op == 'dictlit':
        for kk, v in d.a:
            if kk is k:
                return v
    if d.op == 'dput':
        base, kk, v = d.a
        if kk is k:
            return v
        e = eq_lit(kk, k)
        if e.op == 'const' and not e.a[1]:
            return mk_at(base, k)
    return mk('at', d, k)


def mk_in(x, c, ver=None):
    if ver is not None:
        return mk('in', x, c, ver)
    if c.op in ('lit', 'tuple', 'setlit'):
        if not c.a:
            return const(False)
        if any(e is x for e in c.a):
            return const(True)
        if len(c.a) == 1:
            return eq_lit(x, c.a[0])
        if x.op == 'const' and all(e.op == 'const' for e in c.a):
            return const(any(tm.cval(e) == tm.cval(x) for e in c.a))
    if c.op == 'const' and isinstance(c.a[1], str) and x.op == 'const' and isinstance(x.a[1], str):
        return const(x.a[1] in c.a[1])
    if c.op == 'setof':
        return mk_in(x, c.a[0])
    if c.op in ('sorted', 'rev', 'listof', 'counterof'):
        return mk_in(x, c.a[0])
    if c.op == 'lib' and c.a[0] == 'keysof':
        return mk_in(x, c.a[1])
    if x.op == 'item' and len(x.a) == 2 and x.a[0] is c:
        return const(True)
    if c.op == 'sadd' and c.a[1] is x:
        return const(True)
    if c.op == 'dictlit':
        if not c.a:
            return const(False)
        if any(k is x for k, v in c.a):
            return const(True)
        if x.op == 'const' and all(k.op == 'const' for k, v in c.a):
            return const(False)
    if c.op == 'dput' and c.a[1] is x:
        return const(True)
    return mk('in', x, c)


REBUILD['item'] = mk_item
REBUILD['len'] = lambda s, *v: mk('len', s, *v) if v else seqlen(s)
REBUILD['slc'] = mk_slc
REBUILD['cat'] = cat
REBUILD['min'] = mk_min
REBUILD['max'] = mk_max
REBUILD['in'] = mk_in
REBUILD['at'] = mk_at
REBUILD['setof'] = mk_setof
REBUILD['isize'] = mk_isize
