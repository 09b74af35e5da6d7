"""Loop summaries: least-general generalisation of the loop-head states plus linear invariants.

The states arriving at a loop head (the initial one and every end-of-body state, re-expressed for the
next iteration index) are partitioned by the shape of the cells that change, and each class is
replaced by its anti-unification: cells that agree keep their term, numeric disagreements become
loop symbols ('lv') whose linear relations are kept when every member entails them.  A numeric cell
with a constant step is kept exactly (v0 + c*(b-lo)).  At the exit, accumulators whose update does
not depend on other loop symbols are closed into sums / comprehensions over the iteration binder.
"""
from . import terms as tm
from .terms import (mk, const, add, sub, mul, neg, is_num_const, num, kind, is_numeric, le0, lt0, eq0, cmp_lit, lit_not,
                    entails, F, T, linear, symbols, subst, from_poly, to_poly)
from . import values as V
from .values import cat, lit, seqlen, nonneg, mk_max

ZERO, ONE, NONE = tm.ZERO, tm.ONE, tm.NONE
UNDEF = mk('undef')
MAXGROUPS = 14


def haslv(t, lk):
    return any(s.op == 'lv' and s.a[0] == lk for s in symbols(t))


def shape(t, st, I):
    if t is UNDEF:
        return 'undef'
    if t.op == 'const':
        if t.a[0] in ('int', 'float'):
            return 'num'
        if t.a[0] in ('bool', 'NoneType'):
            return repr(t.a[1])
        return 'str' if t.a[0] == 'str' else 'const'
    if is_numeric(t) and kind(t) != 'bool':
        return 'num'
    if t.op == 'obj':
        o = I.getobj(st, t)
        if o is not None and o.kind == 'list' and o.content is not None and o.content.op == 'lit' and not o.content.a:
            pass
        return ('obj', str(t.a[0]))
    if t.op in ('fn', 'cls', 'ext', 'bound', 'partial'):
        return (t.op, t.n)
    if t.op == 'tuple':
        return ('tuple',) + tuple(shape(x, st, I) for x in t.a)
    if kind(t) == 'str':
        return 'str'
    return 'other'


def const_(x):
    x = F(x)
    return const(int(x)) if x.denominator == 1 else const(x)


class Generaliser(object):
    def __init__(self, interp, lk, b, lo, hi, st0):
        self.I = interp
        self.lk = lk
        self.b = b
        self.lo = lo
        self.hi = hi
        s = interp.gc(st0)
        self.trace0 = st0.trace
        s = s.copy()
        s.trace = ()
        self.st0 = s
        self.indelta = {}     # cell -> constant step, or None once refuted
        self.closed = None
        self.depth = len(interp.active)

    # ------------------------------------------------------------------
    def initial(self):
        s = self.st0.copy()
        s.facts = self.st0.facts | self.lits([cmp_lit('==', self.b, self.lo)])
        return [s]

    def warm(self, memo):
        """guess the heads from the previous visit of the same loop (any guess is re-verified)"""
        if memo is None:
            return None
        from .interp import St
        S0, heads = memo
        cur = self.st0
        out = []
        for h in heads:
            fr = {}
            for fid, d in cur.fr.items():
                h0, hd = S0.fr.get(fid, {}), h.fr.get(fid)
                if hd is None:
                    fr[fid] = d
                    continue
                nd = {}
                for n in set(d) | set(hd):
                    a, b = h0.get(n), hd.get(n)
                    if n in d and n not in h0 and b is None:
                        nd[n] = d[n]
                    elif a is b or (a is None and b is None):
                        if n in d:
                            nd[n] = d[n]
                    elif b is None:
                        continue
                    else:
                        nd[n] = b
                fr[fid] = nd
            ob = dict(cur.ob)
            for t, o in h.ob.items():
                o0 = S0.ob.get(t)
                if o0 is not None and t in cur.ob and o0.same(o):
                    continue
                if t in cur.ob or o0 is None:
                    ob[t] = o
            for t in S0.ob:
                if t not in h.ob and t in ob:
                    del ob[t]
            facts = (h.facts - S0.facts) | cur.facts
            out.append(St(fr, ob, facts, (), cur.cons))
        return out

    @staticmethod
    def lits(ls):
        return frozenset(l for l in ls if l.op != 'const')

    def stable(self, heads, new):
        if len(heads) != len(new):
            return False
        return all(a.same(b) for a, b in zip(heads, new))

    # ------------------------------------------------------------------ cells
    def cells(self, st):
        """frame variables"""
        out = {}
        for fid, d in st.fr.items():
            for n, v in d.items():
                out[(fid, n)] = v
        return out

    def generalise(self, heads, pairs, npass=0):
        I, b = self.I, self.b
        self.npass = npass
        self.prev = set()
        for h in heads:
            self.prev |= h.facts
        shift = {b: sub(b, ONE)}
        for s in set(x for h, n in pairs for c in self.cells(n).values() for x in symbols(c)):
            pass
        inc = [(self.initial()[0], None, None)]
        for h, n in pairs:
            n = I.gc(n)
            ren = {}
            m = dict(shift)
            syms = set()
            for d in n.fr.values():
                for v in d.values():
                    syms |= symbols(v)
            for k, o in n.ob.items():
                syms |= symbols(k)
                for t in o.terms():
                    syms |= symbols(t)
            for f in n.facts:
                syms |= symbols(f)
            for s in syms:
                if s.op == 'lv' and s.a[0] == self.lk:
                    m[s] = mk('lv', ('old', self.lk)) if False else mk('lv', ('old',) + (self.lk,), *s.a[1:])
            sh = n.subst(m)
            inc.append((sh, h, n))
        base = self.st0
        c0 = self.cells(base)
        names = set(c0)
        vals = []
        for sh, h, n in inc:
            c = self.cells(sh)
            vals.append(c)
            names |= set(c)
        # dead variables disappear; a variable equal everywhere is unchanged
        changed = []
        dead = set()
        for cell in sorted(names, key=repr):
            vs = [c.get(cell, UNDEF) for c in vals]
            if all(v is vs[0] for v in vs):
                continue
            if not I.live(cell[0], cell[1]):
                dead.add(cell)
                continue
            changed.append(cell)
        # constant steps
        for cell in changed:
            if self.indelta.get(cell, 0) is None:
                continue
            v0 = c0.get(cell)
            c = None
            ok = v0 is not None and is_numeric(v0) and kind(v0) != 'bool' and bool(pairs)
            if ok:
                for sh, h, n in inc[1:]:
                    hv = h.fr.get(cell[0], {}).get(cell[1])
                    nv = n.fr.get(cell[0], {}).get(cell[1])
                    if hv is None or nv is None or not is_numeric(nv):
                        ok = False
                        break
                    d = sub(nv, hv)
                    if b in symbols(d) or haslv(d, self.lk) or (c is not None and d is not c):
                        ok = False
                        break
                    c = d
            self.indelta[cell] = c if ok else None
        groups = {}
        for i, (sh, h, n) in enumerate(inc):
            key = []
            for cell in changed:
                if self.indelta.get(cell) is not None:
                    continue
                v = vals[i].get(cell, UNDEF)
                key.append(shape(v, sh, I))
            for t in self.attr_cells(inc):
                o = I.getobj(sh, t[0])
                v = o.attrs.get(t[1], UNDEF) if o is not None else UNDEF
                key.append(shape(v, sh, I))
            groups.setdefault(tuple(key), []).append(i)
        if len(groups) > MAXGROUPS:
            groups = {('all',): list(range(len(inc)))}
        out = []
        for key in sorted(groups, key=repr):
            members = groups[key]
            out.append(self.unify([inc[i][0] for i in members], [vals[i] for i in members], changed, dead, c0,
                                  0 in members, key))
        return out

    def attr_cells(self, inc):
        out = []
        seen = set()
        base = inc[0][0]
        for t, o in base.ob.items():
            for a in o.attrs:
                v = o.attrs[a]
                for sh, h, n in inc[1:]:
                    o2 = sh.ob.get(t)
                    if o2 is not None and o2.attrs.get(a) is not v:
                        if (t, a) not in seen:
                            seen.add((t, a))
                            out.append((t, a))
        return sorted(out, key=lambda x: (x[0].n, x[1]))

    # ------------------------------------------------------------------ least general generalisation
    def unify(self, sts, vals, changed, dead, c0, has_init, key):
        I, b, lk = self.I, self.b, self.lk
        U = Unifier(self, sts)
        fr = {}
        base = sts[0]
        fids = set()
        for s in sts:
            fids |= set(s.fr)
        exact = {}
        for fid in sorted(fids, key=repr):
            names = set()
            for s in sts:
                names |= set(s.fr.get(fid, {}))
            d = {}
            for n in sorted(names):
                cell = (fid, n)
                if cell in dead:
                    continue
                if cell in self.indelta and self.indelta[cell] is not None and cell in changed:
                    d[n] = add(c0[cell], mul(self.indelta[cell], sub(b, self.lo)))
                    continue
                tup = tuple(s.fr.get(fid, {}).get(n, UNDEF) for s in sts)
                if any(x is UNDEF for x in tup):
                    if all(x is UNDEF for x in tup):
                        continue
                    # only defined on some paths: unknown
                    d[n] = mk('top', 'maybe-undef', lk, n)
                    continue
                d[n] = U.term(tup, (n,) if fid == I.fid else (n, str(fid)[-40:]))
            fr[fid] = d
        ob = U.objects()
        # facts
        facts = self.facts(sts, U, has_init)
        cons = sts[0].cons
        for s in sts[1:]:
            cons = (cons & s.cons) | frozenset(x for x in cons | s.cons if x.op != 'obj')
        cons = frozenset(x for x in cons if not self.hasold(x) and b not in symbols(x))
        from .interp import St
        return St(fr, ob, facts, (), cons)

    def facts(self, sts, U, has_init):
        I, b, lo, hi = self.I, self.b, self.lo, self.hi
        E = []
        for k, s in enumerate(sts):
            fs = set(s.facts)
            for tup, sym in U.skol.items():
                if is_numeric(sym):
                    fs.add(cmp_lit('==', sym, tup[k]))
                    v = tup[k]
                elif sym.op == 'lv':
                    pass
            E.append(frozenset(f for f in fs if f.op != 'const'))
        cand = set()
        oldsub = []
        nums = [(tup, sym) for tup, sym in U.skol.items() if is_numeric(sym)]
        for k, s in enumerate(sts):
            m = {}
            ren = {}
            for tup, sym in nums:
                v = tup[k]
                for at, c in linear(v)[0].items():
                    if at.op == 'lv' and at.a[0] == ('old', self.lk) and c == 1:
                        m[at] = add(sym, sub(at, v))
                        break
                    if at is b and c == 1 and not is_num_const(v):
                        pass
            consts = [(num(tup[k]), sym) for tup, sym in nums if is_num_const(tup[k]) and num(tup[k]) != 0]
            for f in s.facts:
                if f.op in ('le', 'lt', 'eq0'):
                    if f.op == 'le' and consts and f not in self.st0.facts:
                        k0 = linear(f.a[0])[1]
                        for cv, sym in consts:
                            if k0 == cv:
                                g = le0(add(sub(f.a[0], const_(cv)), sym))
                            elif k0 == -cv:
                                g = le0(sub(add(f.a[0], const_(cv)), sym))
                            else:
                                continue
                            if g.op != 'const' and not self.hasold(g):
                                cand.add(g)
                    g = subst(f, m) if m else f
                    if g.op == 'const':
                        continue
                    if not self.hasold(g):
                        cand.add(g)
                    g2 = self.rename_back(f)
                    if g2 is not None and not self.hasold(g2) and g2.op != 'const':
                        cand.add(g2)
        for tup, sym in nums:
            for v in tup:
                if not self.hasold(v):
                    cand.add(cmp_lit('>=', sym, v))
                    cand.add(cmp_lit('<=', sym, v))
            cand.add(cmp_lit('>=', sym, ZERO))
            cand.add(cmp_lit('<', sym, b))
            cand.add(cmp_lit('<=', sym, b))
            cand.add(cmp_lit('>=', sym, self.lo))
            cand.add(cmp_lit('>=', sym, b))
            if self.lo is not ZERO:
                cand.add(cmp_lit('>=', sym, sub(b, self.lo)))
                cand.add(cmp_lit('<=', sym, sub(b, self.lo)))
            for tup2, sym2 in nums:
                if sym2 is not sym:
                    cand.add(cmp_lit('<=', sym, sym2))
                    cand.add(cmp_lit('<', sym, sym2))
        cand.add(cmp_lit('>=', b, lo))
        cand.add(cmp_lit('>=', b, add(lo, ONE)))
        if hi is not None:
            cand.add(cmp_lit('<=', b, hi))
        if self.npass >= 4:
            cand &= self.prev
        keep = set()
        base = self.st0.facts
        for f in base:
            keep.add(f)
        if has_init and len(sts) == 1:
            keep |= self.lits([cmp_lit('==', b, lo)])
            return frozenset(keep)
        for f in sorted(cand, key=lambda f: f.n):
            if f.op == 'const' or f in keep:
                continue
            if all(entails(e, f) for e in E):
                if not entails(frozenset(keep), f):
                    keep.add(f)
        # opaque facts shared by all the members
        common = None
        for k, s in enumerate(sts):
            fs = set()
            for f in s.facts:
                if f.op in ('le', 'lt', 'eq0') or f in base:
                    continue
                g = U.abstract(f, k)
                if not self.hasold(g):
                    fs.add(g)
            common = fs if common is None else common & fs
        for f in common or ():
            if self.npass < 2 or f in self.prev:
                keep.add(f)
        return frozenset(keep)

    def hasold(self, t):
        return any(s.op == 'lv' and s.a[0] == ('old', self.lk) for s in symbols(t))

    def rename_back(self, f):
        m = {}
        for s in symbols(f):
            if s.op == 'lv' and s.a[0] == ('old', self.lk):
                m[s] = mk('lv', self.lk, *s.a[1:])
        return subst(f, m) if m else f

    # ------------------------------------------------------------------ exits
    def exit_names(self, st, extra=None):
        """loop symbols keep no meaning after the loop: give them names of this activation"""
        idx = self.I.idx()
        m = dict(extra or {})
        syms = set()
        for d in st.fr.values():
            for v in d.values():
                syms |= symbols(v)
        for k, o in st.ob.items():
            syms |= symbols(k)
            for t in o.terms():
                syms |= symbols(t)
        for f in st.facts:
            syms |= symbols(f)
        for s in syms:
            if s.op == 'lv' and s.a[0] == self.lk and s not in m:
                m[s] = mk('lv', ('x', self.lk), s.a[1], idx, s.a[-1])
        if self.b in syms and self.b not in m:
            m[self.b] = mk('lv', ('x', self.lk), 'b', idx, 'int')
        # substitution images must not mention symbols being renamed
        if extra:
            ren = {k: v for k, v in m.items() if k not in extra}
            m2 = dict(ren)
            for k, v in extra.items():
                m2[k] = subst(v, ren) if not V_closed(v, self.b) else v
            m = m2
        s = st.subst(m)
        s = s.copy()
        s.trace = self.trace0 + tuple(e for e in st.trace if False)
        return s

    def leave(self, st):
        s = self.exit_names(st)
        s.trace = self.trace0 + st.trace
        return s

    def exhausted(self, heads, pairs):
        lo, hi, b = self.lo, self.hi, self.b
        res = []
        endv = hi
        if not entails(self.st0.facts, cmp_lit('>=', hi, lo)):
            endv = mk_max(lo, hi)
        for h in heads:
            only_init = cmp_lit('==', b, lo) in h.facts and not any(b in symbols(v) for d in h.fr.values() for v in d.values())
            if only_init and h.same_cells(self.st0) or (len(heads) > 1 and cmp_lit('==', b, lo) in h.facts):
                s = self.st0.copy()
                s.facts = self.st0.facts
                s2 = self.I.assume(s, cmp_lit('>=', lo, hi))
                if s2 is not None:
                    s2 = s2.copy()
                    s2.trace = self.trace0
                    res.append(s2)
                continue
            s = self.close(h, heads, pairs, endv)
            s = self.exit_names(s, {b: endv})
            if any(f.op == 'const' and not f.a[1] for f in s.facts):
                continue
            if not tm.consistent(s.facts):
                continue
            res.append(s)
        return res

    def while_exit(self, st, pairs):
        b = self.b
        sol = None
        for f in st.facts:
            if f.op not in ('le', 'eq0'):
                continue
            co, k = linear(f.a[0])
            if b in co and abs(co[b]) == 1 and not any(b in symbols(a) for a in co if a is not b):
                if f.op == 'eq0' or entails(st.facts, le0(neg(f.a[0]))):
                    rest = add(f.a[0], mul(const(co[b]), b), -1)
                    v = neg(rest) if co[b] == 1 else rest
                    if not haslv(v, self.lk):
                        sol = v
                        break
        if sol is not None:
            s = self.close(st, None, pairs, sol)
            s = self.exit_names(s, {b: sol})
        else:
            s = self.exit_names(st)
        s.trace = self.trace0 + tuple(e for e in st.trace if e.kind == 'app')
        if any(f.op == 'const' and not f.a[1] for f in s.facts):
            return None
        return s

    def close(self, h, heads, pairs, endv):
        """replace accumulators by closed forms over lo..endv"""
        m, upd = self.closing(h, heads, pairs, endv)
        if not m and not upd:
            return h
        # closed forms contain the binder as a bound variable: protect it from the exit substitution
        s = h.subst(m) if m else h.copy()
        for t, (nc, ln) in upd.items():
            o = s.ob.get(t)
            if o is not None:
                l = ln if ln is not None else o.ln
                old = o.ln
                s = s.setobj(t, o.rep(content=nc, ln=l))
                if ln is not None and old is not None and old.op == 'lv' and old.a[0] == self.lk:
                    s = s.subst({old: ln})
        return s

    def cutting(self, heads, pairs):
        """values of the accumulators when the loop is left in the middle of the iteration of index b"""
        later = [x for x in heads if not (cmp_lit('==', self.b, self.lo) in x.facts)]
        if len(later) != 1:
            return {}
        h = later[0]
        m, upd = self.closing(h, heads, pairs, self.b)
        m = dict(m)
        for t, (nc, ln) in upd.items():
            o = h.ob[t]
            m[o.content] = nc
            if ln is not None and o.ln is not None and o.ln.op == 'lv' and o.ln.a[0] == self.lk:
                m[o.ln] = ln
        return m

    def closing(self, h, heads, pairs, endv):
        if heads is not None and len(heads) > 1:
            later = [x for x in heads if not (cmp_lit('==', self.b, self.lo) in x.facts)]
            if len(later) > 1:
                return {}, {}
        b, lo, lk = self.b, self.lo, self.lk
        if not pairs:
            return {}, {}
        m = {}
        upd = {}
        cells = []
        for fid, d in h.fr.items():
            for n, v in d.items():
                if v.op == 'lv' and v.a[0] == lk and is_numeric(v):
                    v0 = self.st0.fr.get(fid, {}).get(n)
                    if v0 is None or not is_numeric(v0):
                        continue
                    cells.append((v, v0, lambda s, fid=fid, n=n: s.fr.get(fid, {}).get(n)))
        for t, o in h.ob.items():
            o0 = self.st0.ob.get(t)
            if o0 is None:
                continue
            for a, v in o.attrs.items():
                if v.op == 'lv' and v.a[0] == lk and is_numeric(v) and a in o0.attrs and is_numeric(o0.attrs[a]):
                    cells.append((v, o0.attrs[a], lambda s, t=t, a=a: s.ob[t].attrs.get(a) if t in s.ob else None))
        for v, v0, get in cells:
            opts, init = [], []
            ok = True
            for ph, pn in pairs:
                nv = get(pn)
                hv = get(ph)
                if nv is None or hv is None or not is_numeric(nv) or hv is not v and not is_num_const(hv):
                    ok = False
                    break
                d = sub(nv, hv)
                if haslv(d, lk):
                    ok = False
                    break
                (opts if hv is v else init).append((frozenset(f for f in pn.facts - ph.facts if f.op != 'const'), d))
            # the first iteration was analysed apart: it must make the same update as the others
            ok = ok and self.sameform(init, opts)
            opts = self.guards(opts, lambda d: is_num_const(d) and num(d) == 0) if ok else None
            if opts:
                m[v] = add(v0, mk_sum(b, lo, endv, merge_opts(opts)))
        for t, o in h.ob.items():
            c = o.content
            if c is None or c.op != 'lv' or c.a[0] != lk:
                continue
            o0 = self.st0.ob.get(t)
            if o0 is None or o0.content is None:
                continue
            opts, init = [], []
            ok = True
            for ph, pn in pairs:
                po = ph.ob.get(t)
                no = pn.ob.get(t)
                if no is None or no.content is None or po is None:
                    ok = False
                    break
                segs = strip_head(no.content, po.content, o.kind)
                if segs is None or any(haslv(x, lk) for x in segs):
                    ok = False
                    break
                (opts if po.content is c else init).append((frozenset(f for f in pn.facts - ph.facts if f.op != 'const'), tuple(segs)))
            ok = ok and self.sameform(init, opts)
            opts = self.guards(opts, lambda d: not d) if ok else None
            if opts is not None:
                opts = merge_opts(opts)
                if o.kind == 'list':
                    nc = cat(o0.content, mk_g('gseq', b, lo, endv, opts)) if opts else o0.content
                    upd[t] = (nc, seqlen(nc))
                elif o.kind == 'set':
                    gs = mk_g('gset', b, lo, endv, opts)
                    nc = gs if o0.content.op == 'setlit' and not o0.content.a else mk('union', *sorted((o0.content, gs), key=lambda x: x.n))
                    upd[t] = (nc, None)
                elif o.kind in ('dict', 'ddict', 'counter'):
                    gs = mk_g('gdict', b, lo, endv, opts)
                    nc = gs if o0.content.op == 'dictlit' and not o0.content.a else mk('dmerge', o0.content, gs)
                    upd[t] = (nc, None)
        return m, upd

    def sameform(self, init, opts):
        if not init:
            return True
        def norm(xs):
            out = {}
            for g, d in xs:
                g = frozenset(subst(f, {self.b: self.lo}) for f in g if not haslv(f, self.lk))
                d = tuple(subst(x, {self.b: self.lo}) for x in d) if isinstance(d, tuple) else subst(d, {self.b: self.lo})
                if any(f.op == 'const' and not f.a[1] for f in g):
                    continue
                out.setdefault(d, set()).add(frozenset(f for f in g if f.op != 'const'))
            return out
        return norm(init) == norm(opts)

    def guards(self, opts, null):
        """guarded updates in terms of the iteration only; facts about the running state may be left out as long as updates that
        differ keep contradictory guards.  None when they do not."""
        res, dropped = [], False
        for g, d in opts:
            h = frozenset(f for f in g if not haslv(f, self.lk))
            dropped |= h != g
            res.append((self.clean(h), d))
        if dropped:
            for i, (g, d) in enumerate(res):
                for h, e in res[:i]:
                    if d is not e and d != e and not any(lit_not(f) in h for f in g) and tm.consistent(g | h):
                        return None
        return [(g, d) for g, d in res if not null(d)]

    def clean(self, g):
        """guards of an update: only those facts that speak about this iteration"""
        out = []
        for f in g:
            if haslv(f, self.lk):
                return None
            if f.op in ('le', 'lt', 'eq0'):
                co, k = linear(f.a[0])
                if set(co) <= {self.b} | set(symbols(self.lo)) | (set(linear(self.hi)[0]) if self.hi is not None else set()) and self.b in co:
                    # range facts
                    if self.hi is not None and entails(frozenset(self.lits([cmp_lit('>=', self.b, self.lo), cmp_lit('<', self.b, self.hi)])), f):
                        continue
            out.append(f)
        return frozenset(out)


def V_closed(v, b):
    return True


def merge_opts(opts):
    """guarded alternatives; drop complementary guards that lead to the same update"""
    by = {}
    for g, d in opts:
        by.setdefault(d, []).append(g)
    out = []
    for d, gs in by.items():
        gs = simplify_dnf(gs)
        for g in gs:
            out.append((tuple(sorted(g, key=lambda f: f.n)), d))
    out.sort(key=lambda x: repr(x))
    return tuple(out)


def simplify_dnf(gs):
    gs = list(dict.fromkeys(gs))
    ch = True
    while ch:
        ch = False
        for i in range(len(gs)):
            for j in range(i + 1, len(gs)):
                a, b = gs[i], gs[j]
                if a <= b:
                    del gs[j]
                    ch = True
                    break
                if b <= a:
                    del gs[i]
                    ch = True
                    break
                d1, d2 = a - b, b - a
                if len(d1) == 1 and len(d2) == 1:
                    x, = d1
                    y, = d2
                    if lit_not(x) is y:
                        del gs[j]
                        gs[i] = a & b
                        ch = True
                        break
            if ch:
                break
    return gs


def qbinder(b, opts):
    """canonical bound variable for a closed form: alpha-equal forms are the same term"""
    d = 0
    ts = list(tm._flat(opts))
    for t in ts:
        for s in symbols(t):
            if s.op == 'bnd' and isinstance(s.a[0], tuple) and len(s.a[0]) == 2 and s.a[0][0] == 'q':
                d = max(d, s.a[0][1] + 1)
    q = mk('bnd', ('q', d))
    memo = {}
    return q, tuple((tuple(sorted((subst(g, {b: q}, memo) for g in gs), key=lambda f: f.n)), tm._sub_arg(e, {b: q}, memo))
                    for gs, e in opts)


def mk_g(op, b, lo, hi, opts):
    q, opts = qbinder(b, opts)
    return mk(op, q, lo, hi, opts)


def mk_sum(b, lo, hi, opts):
    """sum over lo <= b < hi of the guarded increments"""
    if len(opts) == 1 and not opts[0][0]:
        d = opts[0][1]
        if b not in symbols(d):
            return mul(d, nonneg(sub(hi, lo)))
    if len(opts) == 1 and len(opts[0][0]) == 1 and opts[0][1] is ONE:
        g = opts[0][0][0]
        if g.op == 'in' and len(g.a) == 2 and lo is ZERO:
            x, B = g.a
            if x.op == 'item' and len(x.a) == 2 and x.a[1] is b and hi is seqlen(x.a[0]):
                A = x.a[0]
                if setlike(A):
                    return V.mk_isize(V.mk_setof(A), V.mk_setof(B))
    return mk_g('sum', b, lo, hi, tuple(opts))


def setlike(a):
    return kind(a) in ('set', 'dict') or a.op in ('setof', 'setlit', 'inter', 'union', 'diff', 'gset', 'sadd')


def _bound_subst(op):
    def f(b, lo, hi, opts):
        return mk(op, b, lo, hi, opts)
    return f


def strip_head(c, head, k):
    """the elements added to head (in order) or None"""
    if c is head:
        return []
    if c.op == head.op and c.op in ('lit', 'setlit', 'dictlit') and c.a[:len(head.a)] == head.a:
        return list(c.a[len(head.a):])
    if k == 'list':
        if c.op == 'cat' and c.a[0] is head:
            out = []
            for p in c.a[1:]:
                if p.op == 'lit':
                    out.extend(p.a)
                else:
                    out.append(mk('splat', p))
            return out
        return None
    if k == 'set':
        if c.op == 'sadd':
            r = strip_head(c.a[0], head, k)
            return None if r is None else r + [c.a[1]]
        if c.op == 'union' and head in c.a:
            o = [x for x in c.a if x is not head]
            return [mk('splat', x) for x in o]
        return None
    if c.op == 'dput':
        r = strip_head(c.a[0], head, k)
        return None if r is None else r + [mk('pair', c.a[1], c.a[2])]
    return None


class Unifier(object):
    def __init__(self, g, sts):
        self.g = g
        self.sts = sts
        self.skol = {}
        self.objmap = {}
        self.objq = []
        self.memo = {}
        self.paths = set()

    def sym(self, tup, k, path=()):
        s = self.skol.get(tup)
        if s is None:
            if path in self.paths:
                path = path + (len(self.skol),)
            self.paths.add(path)
            s = mk('lv', self.g.lk, path, k)
            self.skol[tup] = s
        return s

    def term(self, tup, path=()):
        r = self.memo.get(tup)
        if r is None:
            r = self._term(tup, path)
            self.memo[tup] = r
        return r

    def _term(self, tup, path):
        v = tup[0]
        if all(x is v for x in tup) and not self.g.hasold(v):
            self.scan(v, tup)
            return v
        ks = set(kind(x) for x in tup)
        if ks <= {'int', 'num'} or (ks <= {'int', 'num', 'bool'} and ks != {'bool'}):
            return self.sym(tup, 'int' if ks <= {'int'} else 'num', path)
        if all(x.op == 'obj' for x in tup):
            if all(x.a[0] == v.a[0] and len(x.a[1]) == len(v.a[1]) for x in tup):
                idx = tuple(self.term(tuple(x.a[1][i] for x in tup), path + (i,)) for i in range(len(v.a[1])))
                t = mk('obj', v.a[0], idx)
                if t not in self.objmap:
                    self.objmap[t] = tup
                    self.objq.append(t)
                return t
            return self.sym(tup, 'any', path)
        if all(x.op == v.op and len(x.a) == len(v.a) for x in tup) and v.op in \
                ('item', 'tuple', 'app', 'bound', 'partial', 'lib', 'at', 'dkey', 'cnt', 'slc', 'meth', 'it', 'attr', 'wrap'):
            args = []
            for i in range(len(v.a)):
                xs = tuple(x.a[i] for x in tup)
                if all(isinstance(y, T) for y in xs):
                    args.append(self.term(xs, path + (i,)))
                elif all(y == xs[0] for y in xs):
                    args.append(xs[0])
                else:
                    return self.sym(tup, self.common(ks), path)
            return tm.rebuild(v.op, args)
        return self.sym(tup, self.common(ks), path)

    def common(self, ks):
        if len(ks) == 1:
            return next(iter(ks))
        return 'any'

    def scan(self, v, tup):
        from .interp import leaves
        for x in leaves(v):
            if x.op == 'obj' and x not in self.objmap:
                self.objmap[x] = (x,) * len(self.sts)
                self.objq.append(x)
            elif x.op == 'fn':
                pass

    def abstract(self, f, k):
        """rewrite a fact of member k with the loop symbols (opaque facts only)"""
        m = {}
        for tup, s in self.skol.items():
            v = tup[k]
            if v.op in ('sym', 'const') or is_num_const(v):
                continue
            m.setdefault(v, s)
        for t, tup in self.objmap.items():
            if tup[k] is not t:
                m.setdefault(tup[k], t)
        return subst(f, m) if m else f

    def objects(self):
        from .interp import Obj
        I, lk = self.g.I, self.g.lk
        ob = {}
        # every object alive in all members stays tracked
        first = self.sts[0]
        for t in sorted(first.ob, key=lambda t: t.n):
            if all(t in s.ob for s in self.sts) and t not in self.objmap and not self.g.hasold(t):
                self.objmap[t] = (t,) * len(self.sts)
                self.objq.append(t)
        i = 0
        while i < len(self.objq):
            t = self.objq[i]
            i += 1
            tup = self.objmap[t]
            tag = str(t.a[0])[-60:] if t.op == 'obj' else ''
            os_ = [I.getobj(s, x) for s, x in zip(self.sts, tup)]
            if any(o is None for o in os_):
                continue
            if all(s.ob.get(x) is None for s, x in zip(self.sts, tup)):
                continue
            o = os_[0]
            if any(x.kind != o.kind for x in os_):
                continue
            if all(x.same(o) for x in os_) and not any(self.g.hasold(y) for y in o.terms()):
                for y in o.terms():
                    self.scan(y, None)
                ob[t] = o
                continue
            cs = tuple(x.content for x in os_)
            if any(c is None for c in cs):
                c = None
            elif all(c is cs[0] for c in cs) and not self.g.hasold(cs[0]):
                c = cs[0]
                self.scan(c, None)
            elif o.kind in ('list', 'set', 'dict', 'ddict', 'counter'):
                c = mk('lv', lk, ('content', t), 'list' if o.kind == 'list' else 'set' if o.kind == 'set' else 'dict')
            else:
                c = self.term(cs, ('c', tag))
            lns = tuple(x.ln for x in os_)
            ln = None if any(l is None for l in lns) else self.num_field(t, 'ln', lns)
            vers = tuple(x.ver for x in os_)
            ver = self.num_field(t, 'ver', vers)
            attrs = {}
            names = set(a for x in os_ for a in x.attrs)
            for a in sorted(names):
                vs = tuple(x.attrs.get(a, UNDEF) for x in os_)
                if any(v is UNDEF for v in vs):
                    attrs[a] = mk('top', 'maybe-undef', lk, a)
                else:
                    attrs[a] = self.term(vs, (a, tag))
            x0 = o.x
            org = o.origin
            for q in os_:
                if q.origin != org:
                    org = 'fresh' if 'fresh' in (org, q.origin) and 'member' not in (org, q.origin) else 'member'
            ob[t] = Obj(o.kind, c, ln, attrs, x0, ver, org)
        return ob

    def num_field(self, t, name, vs):
        if all(v is vs[0] for v in vs) and not self.g.hasold(vs[0]):
            return vs[0]
        return self.sym(vs, 'int', (name, str(t.a[0])[-60:] if t.op == 'obj' else ''))
