"""Models of the builtins, standard library and third-party calls used by the analysed package."""
import math as _math
import collections
from . import terms as tm
from .terms import (mk, const, cval, add, sub, mul, div, power, neg, is_num_const, num, kind, is_numeric, le0, eq0,
                    cmp_lit, eq_lit, lit_not, entails, F, symbols)
from . import values as V
from .values import cat, lit, seqlen, mk_item, mk_slc, mk_in, mk_at, mk_setof, mk_min, mk_max
from .interp import Obj, Lossy, NONE, TRUE, FALSE, ZERO, ONE, pos, strcat, empty_of

TYPES = {'list': 'list', 'set': 'set', 'dict': 'dict', 'str': 'str', 'tuple': 'tuple', 'int': 'int', 'float': 'float',
         'bool': 'bool', 'frozenset': 'frozenset', 'bytes': 'bytes'}
CONTAINERS = ('list', 'set', 'dict', 'ddict', 'counter', 'tuple')
STR_PURE = set('''lower upper strip lstrip rstrip replace split rsplit splitlines startswith endswith isdigit isalpha
isalnum isspace isupper islower istitle isnumeric isdecimal title capitalize casefold swapcase count index find rfind rindex
zfill ljust rjust center encode translate format partition rpartition expandtabs isascii removeprefix removesuffix'''.split())
STR_BOOL = set('startswith endswith isdigit isalpha isalnum isspace isupper islower istitle isnumeric isdecimal isascii'.split())
MUTATORS = set('''append add extend update insert remove discard pop popitem clear sort reverse setdefault
intersection_update difference_update symmetric_difference_update appendleft popleft __setitem__ __delitem__ subtract'''.split())


def pure(I, v, st):
    """immutable term standing for the elements of a container value, or None"""
    if v.op == 'obj':
        o = I.getobj(st, v)
        if o is None or o.kind not in CONTAINERS or o.content is None or I.mentions_lv(o.content) and o.content.op == 'lv':
            return None
        return o.content
    if v.op == 'it':
        return None
    return v


def snap(I, v, st):
    """like pure, but falls back on a versioned snapshot term"""
    p = pure(I, v, st)
    if p is not None:
        return p
    if v.op == 'obj':
        o = I.getobj(st, v)
        if o is not None and o.kind in CONTAINERS:
            return mk('snap', v, o.ver)
    return v


tm_kind = tm.kind


class Lib(object):
    def __init__(self):
        self.unknown = set()

    # ------------------------------------------------------------------ types
    def type_test(self, I, x, ty, st, exact):
        if ty.op == 'tuple':
            r = [self.type_test(I, x, t, st, exact) for t in ty.a]
            if any(l is TRUE for l in r):
                return TRUE
            r = [l for l in r if l is not FALSE]
            if not r:
                return FALSE
            if len(r) == 1:
                return r[0]
            return mk('isinst', x, ty)
        if ty.op == 'typeof':
            return mk('isinst', x, ty)
        name = ty.a[0] if ty.op == 'ext' else None
        short = name.split('.')[-1] if name else None
        if x.op == 'obj':
            o = I.getobj(st, x)
            if o is None:
                return mk('isinst', x, ty)
            k = {'ddict': 'dict', 'counter': 'dict'}.get(o.kind, o.kind)
            if ty.op == 'cls':
                return const(o.kind == 'inst' and (o.x[0] is ty or (not exact and ty in I.mro(o.x[0]))))
            if o.kind == 'counter' and short == 'Counter' or o.kind == 'ddict' and short == 'defaultdict':
                return TRUE
            if exact and o.kind in ('ddict', 'counter'):
                return FALSE
            if short in TYPES:
                return const(k == short)
            if short in ('Mapping', 'MutableMapping'):
                return const(k == 'dict')
            if short == 'Sequence':
                return const(k in ('list', 'tuple'))
            if short in ('Set', 'MutableSet'):
                return const(k == 'set')
            if short == 'GeneratorType' or short == 'Generator':
                return const(o.kind == 'gen')
            if short in ('Iterator',):
                return const(o.kind == 'gen')
            if short in ('Iterable', 'Collection', 'Sized'):
                return TRUE
            return mk('isinst', x, ty)
        k = kind(x)
        if x.op in ('lit', 'setlit', 'dictlit', 'const') and short in ('Counter', 'defaultdict', 'OrderedDict', 'frozenset', 'deque'):
            return FALSE
        if x.op in ('fn', 'bound', 'partial', 'cls', 'module'):
            return FALSE if short in TYPES or short in ('Mapping', 'Sequence', 'GeneratorType') else mk('isinst', x, ty)
        if k == 'any' or k == 'opt' or ty.op == 'cls' and k not in ('int', 'num', 'str', 'list', 'bool', 'none'):
            return mk('isinst', x, ty)
        if k == 'iter':
            if short in ('GeneratorType', 'Generator', 'Iterator'):
                return mk('isinst', x, ty) if short != 'Iterator' else TRUE
            if short in ('Iterable',):
                return TRUE
            return FALSE
        if k == 'num':
            return FALSE if short not in ('int', 'float', 'Number', 'Real') else mk('isinst', x, ty)
        if short in TYPES:
            return const(k == short or (k == 'bool' and short == 'int' and not exact))
        if short in ('Mapping', 'MutableMapping'):
            return const(k == 'dict')
        if short == 'Sequence':
            return const(k in ('list', 'tuple', 'str'))
        if short in ('GeneratorType', 'Generator', 'Iterator'):
            return FALSE if x.op != 'it' else TRUE
        if short in ('Iterable', 'Collection'):
            return const(k in ('list', 'set', 'dict', 'str', 'tuple'))
        return mk('isinst', x, ty)

    # ------------------------------------------------------------------ attributes, items
    def get_attr(self, I, v, name, st, n):
        if v.op == 'obj':
            o = I.getobj(st, v)
            if o is not None and o.kind == 'ns':
                if name in o.attrs:
                    return [(o.attrs[name], st)]
                return [(mk('attr', v, name), st)]
            return None
        if v.op == 'attr' or (v.op == 'sym' and v.a[1] == 'ns'):
            return None
        if v.op == 'app' or v.op == 'sym' and v.a[1] == 'any':
            return None
        if v.op == 'lib' and v.a[0] == 'match':
            return None
        return None

    def get_item(self, I, v, i, st, n):
        if kind(v) == 'graph' or (v.op == 'obj'):
            return [(mk('at', v, i), st)]
        if v.op == 'it':
            return [(mk('top', 'it-index'), st)]
        return None

    # ------------------------------------------------------------------ helpers
    def new(self, I, st, n, k, content, ln=None, tag=''):
        o = Obj(k, content=content, ln=ln if ln is not None else (seqlen(content) if content is not None else None))
        return I.alloc(st, n, o, tag)

    def consume(self, I, v, st, n, how):
        if v.op == 'it':
            return st
        if kind(v) == 'iter':
            return I.emit(st, 'consume', n, source=v, how=how)
        return I.emit(st, 'iter', n, source=v)

    def is_pure(self, I, v, st):
        if v.op == 'it':
            return None
        if v.op == 'obj':
            o = I.getobj(st, v)
            if o is None or o.kind not in CONTAINERS:
                return None
            if o.kind in ('ddict', 'counter') and (o.content is None or o.content.op not in ('counterof', 'dictlit')):
                return None
            c = o.content
            if c is None or c.op == 'lv' or I.mentions_lv(c) and c.op == 'lv':
                return None
            if c.op == 'dictlit':
                return lit(*[k for k, x in c.a])
            if c.op in ('dput', 'gdict', 'dmerge'):
                return None
            if c.op == 'counterof':
                return mk_setof(c.a[0])
            return c
        return v

    def collect(self, I, src, st, n, what, tag='coll'):
        """container built from every element of src -> [(obj, state)]"""
        p = self.is_pure(I, src, st)
        if p is not None:
            st = self.consume(I, src, st, n, what)
            if what == 'set':
                c = mk_setof(p)
                if c.op == 'setof' and c.a[0].op == 'lit' and (len(c.a[0].a) == 1 or all(x.op == 'const' for x in c.a[0].a)):
                    c = c.a[0]
                if c.op == 'lit':
                    c = mk('setlit', *dict.fromkeys(c.a))
                if c.op == 'const':
                    c = mk('setof', c)
                ln = const(len(set(c.a))) if c.op == 'setlit' and (len(c.a) == 1 or all(x.op == 'const' for x in c.a)) else None
                t, s = self.new(I, st, n, 'set', c, ln if ln is not None else mk('len', c) if c.op in ('setof', 'setlit', 'gset') else seqlen(c), tag)
                s = I.emit(s, 'concat', n, target=t, parts=(src,), op='set')
                # |set(x)| <= |x|, and empty exactly when x is
                if c.op == 'setof':
                    l1, l2 = I.length(t, s), seqlen(p)
                    s = I.assume(s, cmp_lit('<=', l1, l2)) or s
                return [(t, s)]
            c = p
            if kind(p) in ('set', 'dict') or p.op in ('setof', 'setlit', 'gset', 'inter', 'union', 'diff', 'sadd'):
                c = mk('listof', p) if p.op != 'setlit' else lit(*dict.fromkeys(p.a))
            if what == 'tuple':
                return [(mk('tuple', *c.a) if c.op in ('lit', 'tuple') else mk('tupleof', c), st)]
            if c.op == 'tuple':
                c = lit(*c.a)
            if c.op == 'const' and isinstance(c.a[1], str):
                c = lit(*[const(x) for x in c.a[1]])
            t, s = self.new(I, st, n, 'list', c, None, tag)
            s = I.emit(s, 'concat', n, target=t, parts=(src,), op='list')
            return [(t, s)]
        k = 'list' if what in ('list', 'tuple') else what
        t, st = I.alloc(st, n, Obj(k, content=empty_of(k), ln=ZERO), tag)

        fid = ('coll', I.ctx, pos(n), tag)
        I.fparent[fid] = None
        st = st.setframe(fid, {'$c': t})
        I.fstack.append(fid)

        def body(e, s):
            if what == 'dict':
                return [('next', I.put(t, mk_item(e, ZERO), mk_item(e, ONE), s, n), None)]
            return [('next', I.push(t, e, s, n, 'append' if k == 'list' else 'add'), None)]
        res = []
        outs = I.iterate(src, st, body, n, n)
        I.fstack.pop()
        for kk, s, v in outs:
            if kk == 'next':
                s = s.setframe(fid, None)
                if what == 'tuple':
                    c = I.getobj(s, t).content
                    res.append((mk('tuple', *c.a) if c is not None and c.op == 'lit' else mk('tupleof', c if c is not None else mk('snap', t, I.getobj(s, t).ver)), s))
                else:
                    res.append((t, s))
            else:
                I.pending.append((kk, s, v))
        return res

    def fold(self, I, src, st, n, init, fn, tag):
        """iterate src with a hidden accumulator; fn(acc, elem, st) -> [(acc', st)]"""
        fid = ('fold', I.ctx, pos(n), tag)
        I.fparent[fid] = None
        st = st.setframe(fid, {'$acc': init})
        I.fstack.append(fid)

        def body(e, s):
            return [('next', s2.setvar(fid, '$acc', v), None) for v, s2 in fn(s.fr[fid]['$acc'], e, s)]
        outs = I.iterate(src, st, body, n, n)
        I.fstack.pop()
        res = []
        for k, s, v in outs:
            if k == 'next':
                acc = s.fr[fid]['$acc']
                res.append((acc, s.setframe(fid, None)))
            else:
                I.pending.append((k, s, v))
        return res

    def quant(self, I, src, st, n, want):
        """any/all: stops at the first element whose truth is want"""
        def body(e, s):
            out = []
            for b, s2 in I.branch(e, s):
                out.append(('brk' if b == want else 'next', s2, None))
            return out
        res = []
        for k, s, v in I.iterate(src, st, body, n, n):
            if k == 'brk':
                res.append((const(want), s))
            elif k == 'next':
                res.append((const(not want), s))
            else:
                I.pending.append((k, s, v))
        return res

    def fresh(self, I, n, k, tag, extra=()):
        return mk('lv', ('fresh', I.ctx, pos(n), tag), tuple(extra), I.idx(), k)

    # ------------------------------------------------------------------ external calls
    def call_ext(self, I, d, args, kw, st, n):
        short = d.split('.')[-1]
        m = getattr(self, 'x_' + d.replace('.', '_'), None)
        if m is not None:
            return m(I, args, kw, st, n)
        if d in ('TypeError', 'ValueError', 'KeyError', 'IndexError', 'Exception', 'AssertionError', 'RuntimeError', 'NotImplementedError') or d.endswith('Error') or d.endswith('Warning'):
            return [(mk('lib', 'exc', const(d)), st)]
        root = d.split('.')[0]
        if root in ('random',) and len(d.split('.')) == 2:
            return self.global_random(I, d, args, kw, st, n)
        if d.startswith('numpy.random.') or d.startswith('np.random.'):
            return self.np_random(I, d, args, kw, st, n)
        if d in ('time.time', 'datetime.datetime.now', 'timeit.default_timer', 'time.monotonic', 'time.perf_counter', 'os.urandom',
                 'datetime.now', 'uuid.uuid4', 'uuid.uuid1', 'secrets.randbelow', 'secrets.token_hex'):
            st = I.emit(st, 'nondet', n, what=d)
            return [(mk('lib', d, *args), st)]
        if root in ('numpy', 'np'):
            return self.numpy(I, d, args, kw, st, n)
        # an unknown external function: result unknown, arguments may be read once
        self.unknown.add(d)
        st = I.emit(st, 'extcall', n, fn=d, args=tuple(args), kw=dict(kw))
        for a in list(args) + list(kw.values()):
            if isinstance(a, tm.T) and (kind(a) == 'iter' or a.op == 'it'):
                st = self.consume(I, a, st, n, d)
        return [(mk('lib', d, *[snap(I, a, st) for a in args]), st)]

    def global_random(self, I, d, args, kw, st, n):
        st = I.emit(st, 'rngglobal', n, fn=d, args=tuple(args))
        return [(self.fresh(I, n, 'num', 'rand'), st)]

    def np_random(self, I, d, args, kw, st, n):
        short = d.split('.')[-1]
        if short in ('RandomState', 'default_rng', 'Generator', 'PCG64', 'SeedSequence', 'MT19937'):
            seed = args[0] if args else kw.get('seed', NONE)
            t, s = I.alloc(st, n, Obj('rng', x=(seed,)), 'rng')
            s = I.emit(s, 'rngnew', n, rng=t, seed=seed)
            return [(t, s)]
        st = I.emit(st, 'rngglobal', n, fn=d, args=tuple(args))
        return [(mk('lib', d, *args), st)]

    def numpy(self, I, d, args, kw, st, n):
        t = mk('lib', d, *[snap(I, a, st) for a in args])
        if d.split('.')[-1] in ('zeros', 'ones', 'array', 'full', 'repeat', 'empty', 'asarray', 'arange'):
            o, s = I.alloc(st, n, Obj('nparray', x=(t,)), 'np')
            return [(o, s)]
        return [(t, st)]

    # builtins ---------------------------------------------------------------
    def x_len(self, I, args, kw, st, n):
        v = args[0]
        if v is NONE:
            return I.fail(st, n, 'len() of None')
        if v.op == 'it' or kind(v) == 'iter' or (v.op == 'obj' and I.getobj(st, v) is not None and I.getobj(st, v).kind == 'gen'):
            if I.catches('TypeError'):
                l = mk('truthy', mk('lib', 'sized', v))
                s1, s2 = I.assume(st, l), I.assume(st, lit_not(l))
                if s2 is not None:
                    I.pending.append(('raise', s2, ('TypeError', n)))
                return [(mk('len', v), s1)] if s1 is not None else []
            st = I.emit(st, 'badlen', n, source=v)
            return [(mk('len', v), st)]
        if v.op == 'obj':
            o = I.getobj(st, v)
            if o is not None and o.kind == 'inst':
                m = I.find_method(o.x[0], '__len__')
                if m is not None:
                    return I.call_fn(m, [v], {}, st, n)
            if o is not None and o.kind in ('ddict', 'counter') and o.content is not None and o.content.op == 'counterof':
                return [(seqlen(o.content), st)]
            l = I.length(v, st)
            st = self.len_fact(I, l, st)
            return [(l, st)]
        st = I.emit(st, 'len', n, source=v)
        return [(seqlen(v), st)]

    def len_fact(self, I, l, st):
        if l.op == 'lv':
            return I.assume(st, cmp_lit('>=', l, ZERO)) or st
        return st

    def x_range(self, I, args, kw, st, n):
        a = list(args)
        lo, hi, step = ZERO, None, ONE
        if len(a) == 1:
            hi = a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            lo, hi, step = a
        return [(mk('it', 'range', lo, hi, step), st)]

    def x_enumerate(self, I, args, kw, st, n):
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        return [(mk('it', 'enumerate', args[0], start), st)]

    def x_zip(self, I, args, kw, st, n):
        return [(mk('it', 'zip', *args), st)]

    def x_map(self, I, args, kw, st, n):
        return [(mk('it', 'map', *args), st)]

    def x_filter(self, I, args, kw, st, n):
        return [(mk('it', 'filter', *args), st)]

    def x_reversed(self, I, args, kw, st, n):
        return [(mk('it', 'rev', args[0]), st)]

    def x_iter(self, I, args, kw, st, n):
        v = args[0]
        if v.op == 'it' or kind(v) == 'iter':
            return [(v, st)]
        if v.op == 'obj' and I.getobj(st, v) is not None and I.getobj(st, v).kind == 'gen':
            return [(v, st)]
        return [(mk('it', 'iter', v), st)]

    def x_next(self, I, args, kw, st, n):
        v = args[0]
        if v.op == 'obj' and I.getobj(st, v) is not None and I.getobj(st, v).kind == 'inst':
            m = I.find_method(I.getobj(st, v).x[0], '__next__')
            if m is not None:
                return I.call_fn(m, [v], {}, st, n)
        fid = ('next', I.ctx, pos(n))
        st = st.setframe(fid, {'$v': NONE})
        I.fparent[fid] = None
        I.fstack.append(fid)

        def body(e, s):
            return [('brk', s.setvar(fid, '$v', e), None)]
        outs = I.iterate(v, st, body, n, n)
        I.fstack.pop()
        res = []
        for k, s, val in outs:
            if k == 'brk':
                res.append((s.fr[fid]['$v'], s.setframe(fid, None)))
            elif k == 'next':
                s = s.setframe(fid, None)
                if len(args) > 1:
                    res.append((args[1], s))
                else:
                    s = I.emit(s, 'raise', n, exc='StopIteration')
                    I.pending.append(('raise', s, ('StopIteration', n)))
            else:
                I.pending.append((k, s, val))
        return res

    def x_list(self, I, args, kw, st, n):
        if not args:
            t, s = self.new(I, st, n, 'list', lit())
            return [(t, s)]
        return self.collect(I, args[0], st, n, 'list')

    def x_set(self, I, args, kw, st, n):
        if not args:
            t, s = self.new(I, st, n, 'set', mk('setlit'), ZERO)
            return [(t, s)]
        return self.collect(I, args[0], st, n, 'set')

    def x_frozenset(self, I, args, kw, st, n):
        return self.x_set(I, args, kw, st, n)

    def x_tuple(self, I, args, kw, st, n):
        if not args:
            return [(mk('tuple'), st)]
        if kind(args[0]) == 'tuple':
            return [(args[0], st)]
        return self.collect(I, args[0], st, n, 'tuple')

    def x_dict(self, I, args, kw, st, n):
        if not args:
            pairs = tuple((const(k), v) for k, v in kw.items() if isinstance(k, str) and k != '**')
            if '**' in kw:
                t, s = self.new(I, st, n, 'dict', None, None)
                return [(t, s)]
            t, s = self.new(I, st, n, 'dict', mk('dictlit', *pairs), const(len(pairs)))
            return [(t, s)]
        src = args[0]
        p = pure(I, src, st)
        if src.op == 'obj' and I.getobj(st, src).kind in ('dict', 'ddict', 'counter') or kind(src) == 'dict':
            o = I.getobj(st, src) if src.op == 'obj' else None
            st = self.consume(I, src, st, n, 'dict')
            c = p if p is not None else None
            t, s = self.new(I, st, n, 'dict', c, I.length(src, st))
            s = I.emit(s, 'concat', n, target=t, parts=(src,), op='dict')
            return [(t, s)]
        return self.collect(I, src, st, n, 'dict')

    x_collections_OrderedDict = x_dict

    def x_collections_defaultdict(self, I, args, kw, st, n):
        f = args[0] if args else NONE
        t, s = I.alloc(st, n, Obj('ddict', content=mk('dictlit'), ln=ZERO, x=(f,)))
        return [(t, s)]

    def x_collections_Counter(self, I, args, kw, st, n):
        if not args:
            t, s = I.alloc(st, n, Obj('counter', content=mk('dictlit'), ln=ZERO))
            return [(t, s)]
        src = args[0]
        p = self.is_pure(I, src, st)
        if p is not None:
            st = self.consume(I, src, st, n, 'Counter')
            c = mk('counterof', p)
            if p.op == 'lit' and not p.a:
                c = mk('dictlit')
            t, s = I.alloc(st, n, Obj('counter', content=c, ln=mk('len', mk_setof(p)) if c.op != 'dictlit' else ZERO))
            s = I.emit(s, 'concat', n, target=t, parts=(src,), op='Counter')
            return [(t, s)]
        t, st = I.alloc(st, n, Obj('counter', content=mk('dictlit'), ln=ZERO))
        res = []

        def body(e, s):
            s = I.emit(s, 'inc', n, target=t, key=e, delta=ONE)
            o = I.getobj(s, t)
            nv = I.bump(o)
            return [('next', s.setobj(t, o.rep(content=None, ln=mk('len', t, nv), ver=nv)), None)]
        fid = ('coll', I.ctx, pos(n), 'ctr')
        I.fparent[fid] = None
        st = st.setframe(fid, {'$c': t})
        I.fstack.append(fid)
        outs = I.iterate(src, st, body, n, n)
        I.fstack.pop()
        for k, s, v in outs:
            if k == 'next':
                res.append((t, s.setframe(fid, None)))
            else:
                I.pending.append((k, s, v))
        return res

    def x_sum(self, I, args, kw, st, n):
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)

        def f(acc, e, s):
            if not is_numeric(e):
                b = I.truth(e, s) if e.op in I.LITOPS else None
                if b is not None:
                    return [(add(acc, ONE) if t else acc, s2) for t, s2 in I.branch(e, s)]
            return [(add(acc, e), s)]
        return self.fold(I, args[0], st, n, start, f, 'sum')

    def x_any(self, I, args, kw, st, n):
        return self.quant(I, args[0], st, n, True)

    def x_all(self, I, args, kw, st, n):
        return self.quant(I, args[0], st, n, False)

    def minmax(self, I, args, kw, st, n, op):
        mkf = mk_min if op == 'min' else mk_max
        if len(args) > 1:
            if 'key' in kw:
                out = []
                cur = [((), st)]
                for a in args:
                    cur = [(ks + (k,), s2) for ks, s in cur for k, s2 in I.call(kw['key'], [a], {}, s, n)]
                for ks, s in cur:
                    best = [(0, s)]
                    for i in range(1, len(args)):
                        nb = []
                        for j, s2 in best:
                            l = cmp_lit('<' if op == 'min' else '>', ks[i], ks[j])
                            for t, s3 in I.branch(l, s2):
                                nb.append((i if t else j, s3))
                        best = nb
                    out += [(args[j], s2) for j, s2 in best]
                return out
            if any(a.op == 'splat' for a in args):
                return [(mk('lib', op, *args), st)]
            if all(is_numeric(a) or kind(a) in ('any', 'opt') for a in args):
                return [(mkf(*args), st)]
            return [(mk('lib', op, *args), st)]
        src = args[0]
        p = self.is_pure(I, src, st)
        if 'key' not in kw and p is not None and p.op in ('lit', 'tuple') and p.a and all(is_numeric(a) or kind(a) == 'any' for a in p.a):
            return [(mkf(*p.a), st)]
        if p is None:
            rs = self.collect(I, src, st, n, 'list', 'mm')
        else:
            st = self.consume(I, src, st, n, op)
            rs = [(src, st)]
        out = []
        for v, s in rs:
            s = I.emit(s, 'needs', n, source=v, what=op, ln=I.length(v, s), default='default' in kw)
            c = snap(I, v, s)
            t = mk('lib', op, c, kw['key']) if 'key' in kw else mk('lib', op, c)
            if 'key' in kw and kw['key'].op in ('fn', 'bound', 'sym', 'partial'):
                # the selected element is one of the elements; the key function is called on elements
                i = self.fresh(I, n, 'int', op)
                s = I.assume(s, cmp_lit('>=', i, ZERO)) or s
                s = I.assume(s, cmp_lit('<', i, I.length(v, s))) or s
                rs2 = I.index(v, i, s, n)
                for e, s2 in rs2:
                    for _, s3 in I.call(kw['key'], [e], {}, s2, n):
                        out.append((e, s3))
                continue
            out.append((t, s))
        return out

    def x_min(self, I, args, kw, st, n):
        return self.minmax(I, args, kw, st, n, 'min')

    def x_max(self, I, args, kw, st, n):
        return self.minmax(I, args, kw, st, n, 'max')

    def x_sorted(self, I, args, kw, st, n):
        out = []
        src = args[0]
        rs = self.collect(I, src, st, n, 'list', 'srt')
        for v, s in rs:
            out += self.sort(I, v, kw, s, n)
        return out

    def sort(self, I, v, kw, s, n):
        o = I.getobj(s, v)
        key = kw.get('key', NONE)
        rev = kw.get('reverse', FALSE)
        s = self.call_key(I, key, v, s, n)
        c = o.content
        if c is not None and c.op != 'lv':
            base = c.a[0] if c.op == 'listof' else c
            if base.op == 'lit' and len(base.a) <= 1:
                nc = c
            else:
                nc = mk('sorted', base, key, rev) if not (key is NONE and rev is FALSE) else mk('sorted', base)
        else:
            nc = None
        s = s.setobj(v, o.rep(content=nc, ver=I.bump(o)))
        return [(v, s)]

    def call_key(self, I, key, v, s, n):
        """effects of a key function on an arbitrary element"""
        if key.op in ('fn', 'bound', 'partial', 'sym') or key.op == 'lv':
            i = self.fresh(I, n, 'int', 'key')
            e = None
            s2 = I.assume(s, cmp_lit('>=', i, ZERO)) or s
            s2 = I.assume(s2, cmp_lit('<', i, I.length(v, s2)))
            if s2 is None:
                return s
            mark = len(I.pending)
            for e, s3 in I.index(v, i, s2, n):
                for _, s4 in I.call(key, [e], {}, s3, n):
                    pass
            del I.pending[mark:]
        return s

    def x_isinstance(self, I, args, kw, st, n):
        return [(self.type_test(I, args[0], args[1], st, False), st)]

    def x_issubclass(self, I, args, kw, st, n):
        return [(mk('pred', 'issubclass', *args), st)]

    def x_type(self, I, args, kw, st, n):
        return [(mk('typeof', args[0]), st)]

    def x_callable(self, I, args, kw, st, n):
        v = args[0]
        if v.op in ('fn', 'cls', 'ext', 'bound', 'partial', 'meth') or kind(v) == 'fn':
            return [(TRUE, st)]
        if v.op in ('const', 'tuple') or kind(v) in ('int', 'num', 'str', 'list', 'dict', 'set', 'none', 'bool', 'iter'):
            return [(FALSE, st)]
        if v.op == 'obj':
            o = I.getobj(st, v)
            if o is not None and o.kind == 'inst':
                return [(const(I.find_method(o.x[0], '__call__') is not None), st)]
            return [(FALSE, st)]
        return [(mk('callable', v), st)]

    def x_str(self, I, args, kw, st, n):
        if not args:
            return [(const(''), st)]
        v = args[0]
        if kind(v) == 'str':
            return [(v, st)]
        if v.op == 'const':
            return [(const(str(cval(v))), st)]
        return [(mk('lib', 'str', snap(I, v, st)), st)]

    def x_repr(self, I, args, kw, st, n):
        return [(mk('lib', 'repr', snap(I, args[0], st)), st)]

    def x_int(self, I, args, kw, st, n):
        if not args:
            return [(ZERO, st)]
        v = args[0]
        if len(args) > 1:
            return [(mk('int', mk('lib', 'intbase', *args)), st)]
        if kind(v) == 'int':
            return [(v, st)]
        if is_num_const(v):
            return [(const(int(num(v))), st)]
        if kind(v) == 'bool' and v.op in I.LITOPS:
            return [(const(int(b)), s) for b, s in I.branch(v, st)]
        return [(mk('int', v), st)]

    def x_float(self, I, args, kw, st, n):
        if not args:
            return [(const(0.0), st)]
        v = args[0]
        if v.op == 'const' and isinstance(v.a[1], str):
            try:
                return [(const(float(v.a[1])), st)]
            except ValueError:
                return [(mk('float', v), st)]
        o = st.ob.get(v) if v.op == 'obj' else None
        if o is not None and o.kind == 'inst' and I.find_method(o.x[0], '__float__'):
            out = []
            for f, s in I.getattr(v, '__float__', st, n):
                out += I.call(f, [], {}, s, n)
            return out
        if is_numeric(v):
            return [(v, st)]
        return [(mk('float', v), st)]

    def x_bool(self, I, args, kw, st, n):
        if not args:
            return [(FALSE, st)]
        return [(I.truth(args[0], st), st)]

    def x_abs(self, I, args, kw, st, n):
        v = args[0]
        if is_num_const(v):
            return [(const(abs(num(v))), st)]
        d = tm._lead(tm.to_poly(v)) if tm.to_poly(v) else 1
        return [(mk('abs', v if d > 0 else neg(v)), st)]

    def x_round(self, I, args, kw, st, n):
        if is_num_const(args[0]) and len(args) == 1:
            return [(const(round(num(args[0]))), st)]
        return [(mk('round', *args), st)]

    def x_ord(self, I, args, kw, st, n):
        v = args[0]
        if v.op == 'const' and isinstance(v.a[1], str) and len(v.a[1]) == 1:
            return [(const(ord(v.a[1])), st)]
        return [(mk('ord', v), st)]

    def x_chr(self, I, args, kw, st, n):
        return [(mk('lib', 'chr', args[0]), st)]

    def x_bin(self, I, args, kw, st, n):
        return [(mk('lib', 'bin', args[0]), st)]

    def x_hash(self, I, args, kw, st, n):
        st = I.emit(st, 'nondet', n, what='hash', arg=args[0])
        return [(mk('lib', 'hash', snap(I, args[0], st)), st)]

    def x_id(self, I, args, kw, st, n):
        st = I.emit(st, 'nondet', n, what='id', arg=args[0])
        return [(mk('lib', 'id', args[0]), st)]

    def x_print(self, I, args, kw, st, n):
        st = I.emit(st, 'print', n, args=tuple(snap(I, a, st) for a in args), kw=dict(kw), raw=tuple(args))
        return [(NONE, st)]

    def x_warnings_warn(self, I, args, kw, st, n):
        return [(NONE, I.emit(st, 'warn', n, args=tuple(args)))]

    def x_getattr(self, I, args, kw, st, n):
        if args[1].op == 'const':
            return I.getattr(args[0], args[1].a[1], st, n)
        return [(mk('top', 'getattr'), st)]

    def x_hasattr(self, I, args, kw, st, n):
        v = args[0]
        if args[1].op == 'const':
            name = args[1].a[1]
            if v.op == 'obj':
                o = I.getobj(st, v)
                if o is not None and o.kind == 'inst':
                    return [(const(name in o.attrs or I.class_attr(o.x[0], name) is not None), st)]
                if o is not None and o.kind in CONTAINERS:
                    py = {'list': list, 'set': set, 'dict': dict, 'ddict': dict, 'counter': dict, 'tuple': tuple}[o.kind]
                    return [(const(hasattr(py, name)), st)]
            py = {'list': list, 'set': set, 'dict': dict, 'str': str, 'tuple': tuple, 'int': int}.get(kind(v))
            if py is not None:
                return [(const(hasattr(py, name)), st)]
            if kind(v) == 'iter' and name in ('__len__', '__getitem__', 'append', 'items', '__contains__'):
                return [(FALSE, st)]
        return [(mk('pred', 'hasattr', *args), st)]

    def x_setattr(self, I, args, kw, st, n):
        st = I.emit(st, 'setattr', n, target=args[0], attr=cval(args[1]) if args[1].op == 'const' else '?', val=args[2])
        return [(NONE, st)]

    def x_object(self, I, args, kw, st, n):
        t, s = I.alloc(st, n, Obj('object'))
        return [(t, s)]

    def x_pow(self, I, args, kw, st, n):
        return I.binop('Pow', args[0], args[1], st, n)

    def x_divmod(self, I, args, kw, st, n):
        out = []
        for q, s in I.binop('FloorDiv', args[0], args[1], st, n):
            for r, s2 in I.binop('Mod', args[0], args[1], s, n):
                out.append((mk('tuple', q, r), s2))
        return out

    # math -------------------------------------------------------------------
    def x_math_ceil(self, I, args, kw, st, n):
        v = args[0]
        if is_num_const(v):
            return [(const(_math.ceil(num(v))), st)]
        if kind(v) == 'int':
            return [(v, st)]
        return [(mk('ceil', v), st)]

    def x_math_floor(self, I, args, kw, st, n):
        v = args[0]
        if is_num_const(v):
            return [(const(_math.floor(num(v))), st)]
        if kind(v) == 'int':
            return [(v, st)]
        return [(mk('floor', v), st)]

    def x_math_sqrt(self, I, args, kw, st, n):
        return [(power(args[0], F(1, 2)), st)]

    def x_math_log(self, I, args, kw, st, n):
        st = I.emit(st, 'log', n, arg=args[0])
        return [(mk('log', *args), st)]

    def x_math_log2(self, I, args, kw, st, n):
        st = I.emit(st, 'log', n, arg=args[0])
        if is_num_const(args[0]) and num(args[0]) > 0 and num(args[0]).denominator == 1 and not int(num(args[0])) & (int(num(args[0])) - 1):
            return [(const(float(int(num(args[0])).bit_length() - 1)), st)]
        return [(mk('log2', args[0]), st)]

    x_math_log10 = x_math_log

    def x_math_pow(self, I, args, kw, st, n):
        return I.binop('Pow', args[0], args[1], st, n)

    def x_math_fabs(self, I, args, kw, st, n):
        return self.x_abs(I, args, kw, st, n)

    # serialisation, pools ---------------------------------------------------
    def x_dill_dumps(self, I, args, kw, st, n):
        return [(mk('lib', 'dill', args[0]), st)]

    def x_dill_loads(self, I, args, kw, st, n):
        v = args[0]
        if v.op == 'lib' and v.a[0] == 'dill':
            return [(v.a[1], st)]
        return [(mk('lib', 'undill', v), st)]

    x_pickle_dumps = x_dill_dumps
    x_pickle_loads = x_dill_loads

    def x_multiprocessing_Pool(self, I, args, kw, st, n):
        t, s = I.alloc(st, n, Obj('pool', x=(args[0] if args else kw.get('processes', NONE),)))
        s = I.emit(s, 'pool', n, processes=args[0] if args else kw.get('processes', NONE))
        return [(t, s)]

    def x_copy_copy(self, I, args, kw, st, n):
        v = args[0]
        if v.op == 'obj':
            o = I.getobj(st, v)
            if o is not None and o.kind in CONTAINERS:
                t, s = I.alloc(st, n, o.rep(origin='fresh'))
                return [(t, s)]
        if kind(v) == 'list':
            return self.collect(I, v, st, n, 'list')
        return [(mk('lib', 'copy', v), st)]

    x_copy_deepcopy = x_copy_copy

    # functools / itertools --------------------------------------------------
    def x_functools_partial(self, I, args, kw, st, n):
        return [(mk('partial', args[0], tuple(args[1:]), tuple(sorted(((k, v) for k, v in kw.items()), key=lambda x: str(x[0])))), st)]

    def x_functools_reduce(self, I, args, kw, st, n):
        if len(args) == 3:
            return self.fold(I, args[1], st, n, args[2], lambda acc, e, s: I.call(args[0], [acc, e], {}, s, n), 'reduce')
        return [(mk('lib', 'reduce', *[snap(I, a, st) for a in args]), self.consume(I, args[1], st, n, 'reduce'))]

    def x_dict_fromkeys(self, I, args, kw, st, n):
        # the distinct elements; the values they are mapped to are not tracked
        return self.collect(I, args[0], st, n, 'set', 'fromkeys')

    def x_itertools_chain(self, I, args, kw, st, n):
        return [(mk('it', 'chain', *args), st)]

    def x_itertools_chain_from_iterable(self, I, args, kw, st, n):
        return [(mk('it', 'flat', args[0]), st)]

    def x_itertools_combinations(self, I, args, kw, st, n):
        if is_num_const(args[1]) and num(args[1]) == 2:
            out = []
            for v, s in self.collect(I, args[0], st, n, 'list', 'comb'):
                out.append((mk('it', 'comb2', v), s))
            return out
        return [(mk('it', 'opaque', mk('lib', 'combinations', *args)), st)]

    def x_itertools_islice(self, I, args, kw, st, n):
        src = args[0]
        p = self.is_pure(I, src, st)
        if p is not None:
            st = self.consume(I, src, st, n, 'islice')
            if len(args) == 2:
                lo, hi = ZERO, args[1]
            else:
                lo, hi = args[1], args[2]
            if len(args) < 4:
                return [(mk('it', 'iter', mk_slc(p, lo, hi)), st)]
        return [(mk('it', 'opaque', mk('lib', 'islice', *args)), st)]

    def x_itertools_product(self, I, args, kw, st, n):
        if len(args) == 2 and not kw:
            out = []
            for a, s in self.collect(I, args[0], st, n, 'list', 'pr1'):
                for b, s2 in self.collect(I, args[1], s, n, 'list', 'pr2'):
                    out.append((mk('it', 'prod', a, b), s2))
            return out
        return [(mk('it', 'opaque', mk('lib', 'product', *args)), st)]

    def x_itertools_count(self, I, args, kw, st, n):
        lo = args[0] if args else ZERO
        step = args[1] if len(args) > 1 else ONE
        return [(mk('it', 'count', lo, step), st)]

    # bisect / heapq ---------------------------------------------------------
    def x_bisect_bisect_left(self, I, args, kw, st, n):
        v = self.fresh(I, n, 'int', 'bisect')
        st = I.assume(st, cmp_lit('>=', v, ZERO)) or st
        st = I.assume(st, cmp_lit('<=', v, I.length(args[0], st))) or st
        return [(v, st)]

    x_bisect_bisect = x_bisect_bisect_left
    x_bisect_bisect_right = x_bisect_bisect_left

    def x_heapq_heapify(self, I, args, kw, st, n):
        return [(NONE, I.havoc(args[0], st, n, 'heapify', 'same'))]

    def x_heapq_heapreplace(self, I, args, kw, st, n):
        st = I.emit(st, 'ins', n, target=args[0], op='heapreplace', key=None, val=args[1])
        return [(mk('item', args[0], ZERO), I.havoc(args[0], st, n, 'heapreplace', 'same'))]

    def x_heapq_heappush(self, I, args, kw, st, n):
        st = I.emit(st, 'ins', n, target=args[0], op='heappush', key=None, val=args[1])
        return [(NONE, I.havoc(args[0], st, n, 'heappush'))]

    def x_heapq_heappop(self, I, args, kw, st, n):
        return [(mk('item', args[0], ZERO), I.havoc(args[0], st, n, 'heappop'))]

    def x_heapq_nlargest(self, I, args, kw, st, n):
        out = []
        for v, s in self.collect(I, args[1], st, n, 'list', 'nl'):
            c = snap(I, v, s)
            r = mk('lib', 'nlargest', args[0], c, kw.get('key', NONE))
            t, s2 = self.new(I, s, n, 'list', r, mk('len', r), 'nlr')
            s2 = I.assume(s2, cmp_lit('<=', mk('len', r), args[0])) or s2
            out.append((t, s2))
        return out

    # text -------------------------------------------------------------------
    def x_unidecode_unidecode(self, I, args, kw, st, n):
        v = args[0]
        if v.op == 'const' and isinstance(v.a[1], str) and v.a[1].isascii():
            return [(v, st)]
        return [(mk('lib', 'unidecode', v), st)]

    x_unidecode_unidecode_expect_ascii = x_unidecode_unidecode

    def x_html_unescape(self, I, args, kw, st, n):
        return [(mk('lib', 'unescape', args[0]), st)]

    def x_html_escape(self, I, args, kw, st, n):
        q = args[1] if len(args) > 1 else kw.get('quote', TRUE)
        return [(mk('lib', 'html.escape', args[0], q), st)]

    def rx(self, p, flags=None):
        if p.op == 'lib' and p.a[0] == 're':
            return p
        return mk('lib', 're', p, flags if flags is not None else ZERO)

    def x_re_compile(self, I, args, kw, st, n):
        f = args[1] if len(args) > 1 else kw.get('flags', ZERO)
        return [(self.rx(args[0], f), st)]

    def x_emoji_get_emoji_regexp(self, I, args, kw, st, n):
        return [(mk('lib', 're', const('<emoji>'), ZERO), st)]

    def x_re_escape(self, I, args, kw, st, n):
        return [(mk('lib', 're.escape', args[0]), st)]

    def rcall(self, args, kw, at, names):
        """(pattern, other arguments, None) of a call of the module or a method of a pattern; at: position of the flags"""
        fl = kw.get('flags')
        rest = list(args[1:])
        if len(args) > at and not (args[0].op == 'lib' and args[0].a[0] == 're'):
            fl = rest.pop(at - 1)
        for k in names[len(rest):]:
            if k in kw:
                rest.append(kw[k])
        return self.rx(args[0], fl), rest

    def x_re_sub(self, I, args, kw, st, n):
        p, rest = self.rcall(args, kw, 4, ('repl', 'string', 'count'))
        if len(rest) < 2:
            raise Lossy('re.sub')
        if len(rest) > 2 and is_num_const(rest[2]) and num(rest[2]) == 0:
            rest = rest[:2]
        if rest[0].op in ('fn', 'bound', 'partial'):
            return [(mk('lib', 're.subf', p, *rest), st)]
        if all(x.op == 'const' for x in rest) and p.a[1].op == 'const' and is_num_const(p.a[2]) and p.a[1].a[1] != '<emoji>' and len(rest) == 2:
            import re
            try:
                return [(const(re.sub(re.compile(p.a[1].a[1], int(num(p.a[2]))), rest[0].a[1], rest[1].a[1])), st)]
            except Exception:
                pass
        return [(mk('lib', 're.sub', p, *rest), st)]

    def x_re_split(self, I, args, kw, st, n):
        p, rest = self.rcall(args, kw, 3, ('string', 'maxsplit'))
        return [(mk('lib', 're.split', p, *rest), st)]

    def x_re_findall(self, I, args, kw, st, n):
        p, rest = self.rcall(args, kw, 2, ('string',))
        return [(mk('lib', 're.findall', p, *rest), st)]

    def x_re_finditer(self, I, args, kw, st, n):
        p, rest = self.rcall(args, kw, 2, ('string',))
        return [(mk('it', 'opaque', mk('lib', 're.finditer', p, *rest)), st)]

    def x_re_match(self, I, args, kw, st, n, how='re.match'):
        p, rest = self.rcall(args, kw, 2, ('string',))
        return [(mk('lib', how, p, *rest), st)]

    def x_re_search(self, I, args, kw, st, n):
        return self.x_re_match(I, args, kw, st, n, 're.search')

    def x_re_fullmatch(self, I, args, kw, st, n):
        return self.x_re_match(I, args, kw, st, n, 're.fullmatch')

    # ebbe -------------------------------------------------------------------
    def x_ebbe_with_next(self, I, args, kw, st, n):
        out = []
        for v, s in self.collect(I, args[0], st, n, 'list', 'wn'):
            out.append((mk('it', 'withnext', v), s))
        return out

    def x_ebbe_sorted_uniq(self, I, args, kw, st, n):
        out = []
        for v, s in self.collect(I, args[0], st, n, 'list', 'su'):
            c = snap(I, v, s)
            r = mk('lib', 'sorted_uniq', c, kw.get('key', args[1] if len(args) > 1 else NONE))
            t, s2 = self.new(I, s, n, 'list', r, mk('len', r), 'sur')
            s2 = I.assume(s2, cmp_lit('<=', mk('len', r), I.length(v, s))) or s2
            out.append((t, s2))
        return out

    # random -----------------------------------------------------------------
    def x_random_Random(self, I, args, kw, st, n):
        seed = args[0] if args else kw.get('x', NONE)
        t, s = I.alloc(st, n, Obj('rng', x=(seed,)), 'rng')
        s = I.emit(s, 'rngnew', n, rng=t, seed=seed)
        return [(t, s)]

    x_random_SystemRandom = x_random_Random

    # phylactery -------------------------------------------------------------
    def x_phylactery_UnionFind(self, I, args, kw, st, n):
        t, s = I.alloc(st, n, Obj('uf', x=(args[0] if args else NONE,)))
        return [(t, s)]

    def x_phylactery_VPTree(self, I, args, kw, st, n):
        dist = args[1] if len(args) > 1 else kw.get('distance', NONE)
        rs = []
        st = I.emit(st, 'vptree', n, items=args[0], distance=dist, ln=I.length(args[0], st) if args[0].op != 'it' else None)
        for v, s in self.collect(I, args[0], st, n, 'list', 'vp'):
            t, s2 = I.alloc(s, n, Obj('vptree', x=(snap(I, v, s), dist)), 'vpt')
            rs.append((t, s2))
        return rs

    # csv / networkx ---------------------------------------------------------
    def x_csv_reader(self, I, args, kw, st, n):
        return [(mk('sym', 'csvrows', 'iter', None, 'list'), st)]

    def x_csv_writer(self, I, args, kw, st, n):
        t, s = I.alloc(st, n, Obj('csvwriter', x=(args[0],)))
        return [(t, s)]

    def x_networkx_Graph(self, I, args, kw, st, n):
        t, s = I.alloc(st, n, Obj('nxgraph', x=tuple(args)))
        if args:
            s = I.emit(s, 'nxcopy', n, target=t, source=args[0])
        return [(t, s)]

    def x_networkx_connected_components(self, I, args, kw, st, n):
        return [(mk('it', 'opaque', mk('lib', 'nx.components', args[0])), st)]

    # ------------------------------------------------------------------ methods
    def call_method(self, I, recv, name, args, kw, st, n):
        if recv.op == 'obj':
            o = I.getobj(st, recv)
            if o is not None:
                m = getattr(self, 'm_%s_%s' % (o.kind, name), None)
                if m is not None:
                    return m(I, recv, o, args, kw, st, n)
                if o.kind in CONTAINERS:
                    return self.container_method(I, recv, o, name, args, kw, st, n)
                if o.kind == 'rng':
                    return self.rng_method(I, recv, o, name, args, kw, st, n)
                if o.kind in ('nxgraph',):
                    return self.graph_method(I, recv, name, args, kw, st, n)
                if o.kind == 'inst':
                    return I.fail(st, n, 'the object has no method %s' % name, 'AttributeError')
                if o.kind in ('nparray', 'pool', 'uf', 'vptree', 'csvwriter', 'gen', 'ns', 'object'):
                    st = I.emit(st, 'extmeth', n, target=recv, name=name, args=tuple(args), kw=dict(kw))
                    return [(mk('lib', 'm.' + name, recv, *args), st)]
            return [(mk('lib', 'm.' + name, recv, *args), st)]
        if recv.op == 'super':
            return [(NONE, st)]
        if recv.op == 'lib' and recv.a[0] == 're':
            if name in ('sub', 'split', 'findall', 'finditer', 'match', 'search', 'fullmatch'):
                return getattr(self, 'x_re_' + name)(I, [recv] + list(args), kw, st, n)
        k = kind(recv)
        if k == 'str' or (name in STR_PURE and name not in ('count', 'index', 'format') and k in ('any', 'opt')) or recv.op == 'lib' and recv.a[0] in tm.STR_LIB or name == 'join':
            r = self.str_method(I, recv, name, args, kw, st, n)
            if r is not None:
                return r
        if k == 'graph':
            return self.graph_method(I, recv, name, args, kw, st, n)
        if k in ('list', 'set', 'dict', 'iter', 'any', 'opt', 'tuple') or recv.op in ('item', 'at', 'app', 'attr'):
            r = self.value_method(I, recv, name, args, kw, st, n)
            if r is not None:
                return r
        if recv.op == 'ext':
            return self.call_ext(I, recv.a[0] + '.' + name, args, kw, st, n)
        st = I.emit(st, 'extmeth', n, target=recv, name=name, args=tuple(args), kw=dict(kw))
        for a in args:
            if kind(a) == 'iter':
                st = self.consume(I, a, st, n, name)
        return [(mk('lib', 'm.' + name, recv, *[snap(I, a, st) for a in args]), st)]

    def str_method(self, I, s, name, args, kw, st, n):
        if name == 'join':
            out = []
            src = args[0]
            p = self.is_pure(I, src, st)
            if p is None:
                rs = self.collect(I, src, st, n, 'list', 'join')
            else:
                st = self.consume(I, src, st, n, 'join')
                rs = [(src, st)]
            for v, s2 in rs:
                c = self.is_pure(I, v, s2)
                if c is None:
                    c = snap(I, v, s2)
                if c.op in ('lit', 'tuple') and all(kind(x) == 'str' or True for x in c.a):
                    r = const('')
                    for i, x in enumerate(c.a):
                        if i and not (s.op == 'const' and s.a[1] == ''):
                            r = strcat(r, s)
                        r = strcat(r, x)
                    out.append((r, s2))
                else:
                    out.append((mk('lib', 'str.join', s, c), s2))
            return out
        if name not in STR_PURE:
            return None
        if name == 'format' and s.op == 'const' and not kw and not any(a.op == 'splat' for a in args):
            from .interp import strformat
            txt = s.a[1]
            if txt.count('{}') == len(args) and txt.count('{') == len(args):
                return [(strformat(const(txt.replace('%', '%%').replace('{}', '%s')), tuple(snap(I, a, st) for a in args)), st)]
        if s.op == 'const' and all(a.op == 'const' for a in args) and not kw and name not in ('encode', 'format', 'translate'):
            try:
                r = getattr(s.a[1], name)(*[cval(a) for a in args])
                if isinstance(r, list):
                    t, s2 = self.new(I, st, n, 'list', lit(*[const(x) for x in r]))
                    return [(t, s2)]
                if isinstance(r, tuple):
                    return [(mk('tuple', *[const(x) for x in r]), st)]
                return [(const(r), st)]
            except Exception:
                pass
        if kw:
            args = list(args) + [mk('kw', k, v) for k, v in sorted(kw.items(), key=str)]
        a2 = [snap(I, a, st) for a in args]
        if name in STR_BOOL:
            return [(mk('pred', 'str.' + name, s, *a2), st)]
        t = mk('lib', 'str.' + name, s, *a2)
        if name in ('split', 'splitlines', 'rsplit'):
            o, s2 = self.new(I, st, n, 'list', t, mk('len', t))
            if args:
                s2 = I.assume(s2, cmp_lit('>=', mk('len', t), ONE)) or s2
            return [(o, s2)]
        return [(t, st)]

    def value_method(self, I, v, name, args, kw, st, n):
        """method of a container value that is not one of our tracked objects (a caller's object, mostly)"""
        k = kind(v)
        if name in MUTATORS and not (name in ('pop',) and False):
            st = I.emit(st, 'mut', n, target=v, op=name, args=tuple(args))
            return [(mk('lib', 'm.' + name, v, *args), st)]
        if name in ('items', 'keys', 'values'):
            return [(mk('it', name, v), st)]
        if name == 'get':
            d = args[1] if len(args) > 1 else NONE
            out = []
            l = mk_in(args[0], v)
            for b, s in I.branch(l, st):
                out.append((mk_at(v, args[0]) if b else d, s))
            return out
        if name in ('intersection', 'union', 'difference', 'symmetric_difference', 'copy', 'issubset', 'issuperset', 'isdisjoint'):
            return self.set_op(I, v, name, args, st, n)
        if name == 'count' and k in ('list', 'any'):
            return [(mk('count', v, args[0]), st)]
        if name == 'index' and k in ('list', 'any'):
            return [(mk('lib', 'str.index', v, args[0]), st)]
        return None

    def set_op(self, I, v, name, args, st, n):
        a = mk_setof(self.is_pure(I, v, st) or snap(I, v, st)) if name != 'copy' else self.is_pure(I, v, st)
        if name == 'copy':
            k = I.vkind(v, st)
            o = I.getobj(st, v) if v.op == 'obj' else None
            if o is not None:
                t, s = I.alloc(st, n, o.rep(origin='fresh'))
                return [(t, s)]
            if k in ('list', 'set', 'dict'):
                t, s = self.new(I, st, n, k, v)
                return [(t, s)]
            return [(mk('lib', 'copy', v), st)]
        bs = []
        for x in args:
            if x.op in ('it',) or (x.op == 'obj' and self.is_pure(I, x, st) is None):
                rs = self.collect(I, x, st, n, 'set', 'sop')
                if not rs:
                    return []
                x, st = rs[0]
            else:
                st = self.consume(I, x, st, n, name)
            bs.append(mk_setof(self.is_pure(I, x, st) or snap(I, x, st)))
        if name.startswith('is'):
            return [(mk('pred', name, a, *bs), st)]
        op = {'intersection': 'inter', 'union': 'union', 'difference': 'diff', 'symmetric_difference': 'symdiff'}[name]
        for b in bs:
            if op in ('inter', 'union'):
                x, y = sorted((a, b), key=lambda t: t.n)
                a = x if x is y else mk(op, x, y)
            else:
                a = mk(op, a, b)
        return I.newset(st, n, a)

    def container_method(self, I, v, o, name, args, kw, st, n):
        k = o.kind
        if name in ('append', 'appendleft') and k == 'list':
            return [(NONE, I.push(v, args[0], st, n, name))]
        if name == 'add' and k == 'set':
            return [(NONE, I.push(v, args[0], st, n, 'add'))]
        if name == 'extend' and k == 'list':
            return [(NONE, s) for s in self.extend(I, v, args[0], st, n)]
        if name == 'update' and k == 'set':
            res = [st]
            for a in args:
                nxt = []
                for s in res:
                    nxt += self.update_set(I, v, a, s, n)
                res = nxt
            return [(NONE, s) for s in res]
        if name == 'update' and k in ('dict', 'ddict', 'counter'):
            return self.update_dict(I, v, o, args, kw, st, n)
        if name == 'insert' and k == 'list':
            st = I.emit(st, 'ins', n, target=v, op='insert', key=args[0], val=args[1])
            c = None
            if is_num_const(args[0]) and num(args[0]) == 0 and o.content is not None:
                c = cat(lit(args[1]), o.content)
            else:
                c = mk('linsert', o.content, args[0], args[1]) if o.content is not None else None
            st = I.touch_aliases(st, v)
            return [(NONE, st.setobj(v, o.rep(content=c, ln=add(o.ln, ONE) if o.ln is not None else None, ver=I.bump(o))))]
        if name in ('items', 'keys', 'values') and k in ('dict', 'ddict', 'counter'):
            return [(mk('it', name, v), st)]
        if name == 'get' and k in ('dict', 'ddict', 'counter'):
            d = args[1] if len(args) > 1 else NONE
            out = []
            for l, s in I.contains(args[0], v, st, n):
                for b, s2 in I.branch(l, s):
                    if b:
                        o2 = I.getobj(s2, v)
                        if o2.kind == 'dict':
                            if o2.content is not None and o2.content.op in ('dictlit', 'dput') and not I.mentions_lv(o2.content):
                                out += I.index(v, args[0], s2, n)
                            else:
                                out.append((mk('at', v, args[0], o2.ver), s2))
                        else:
                            out += I.dd_get(v, o2, args[0], s2, n)
                    else:
                        out.append((d, s2))
            return out
        if name == 'setdefault' and k in ('dict', 'ddict', 'counter'):
            d = args[1] if len(args) > 1 else NONE
            st = I.emit(st, 'ins', n, target=v, op='setdefault', key=args[0], val=d)
            if d.op == 'obj':
                od = I.getobj(st, d)
                if o.x is None:
                    o = o.rep(x=(od.rep(content=None),))
                    st = st.setobj(v, o)
                r = I.member(v, o, args[0], st, n) if o.kind == 'dict' else None
                if r is not None:
                    m, st = r
                    o = I.getobj(st, v)
                    nv = I.bump(o)
                    st = st.setobj(v, o.rep(content=None, ln=mk('len', v, nv), ver=nv))
                    return [(m, st)]
            return [(mk('at', v, args[0], o.ver), I.havoc(v, st, n, 'setdefault'))]
        if name == 'pop':
            if k == 'list':
                st = I.emit(st, 'needs', n, source=v, what='pop', ln=I.length(v, st), default=False, idx=args[0] if args else None)
                c = o.content
                if c is not None and c.op == 'lit' and c.a and (not args or is_num_const(args[0])):
                    i = int(num(args[0])) if args else -1
                    if -len(c.a) <= i < len(c.a):
                        a = list(c.a)
                        x = a.pop(i)
                        return [(x, st.setobj(v, o.rep(content=lit(*a), ln=const(len(a)), ver=I.bump(o))))]
                st = I.emit(st, 'mut', n, target=v, op='pop')
                st = I.touch_aliases(st, v)
                i = self.fresh(I, n, 'int', 'popix', (o.ver,))
                x = mk('item', v, i, o.ver)
                if c is not None and c.op not in ('lv',) and not I.mentions_lv(c):
                    x = mk_item(c, sub(seqlen(c), ONE) if not args else args[0])
                nl = sub(o.ln, ONE) if o.ln is not None else None
                return [(x, st.setobj(v, o.rep(content=None, ln=nl, ver=I.bump(o))))]
            if k in ('dict', 'ddict', 'counter'):
                if len(args) < 2:
                    st = I.emit(st, 'lookup', n, target=v, key=args[0])
                r = mk('at', v, args[0], o.ver)
                if k == 'ddict':
                    mm = I.member(v, o, args[0], st, n)
                    if mm is not None:
                        r, st = mm
                return [(r, I.havoc(v, st, n, 'pop'))]
            if k == 'set':
                st = I.emit(st, 'needs', n, source=v, what='pop', ln=I.length(v, st), default=False)
                return [(mk('item', v, ZERO, o.ver), I.havoc(v, st, n, 'pop'))]
        if name in ('remove', 'discard', 'clear', 'popitem', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'popleft', '__delitem__', 'subtract'):
            for a in args:
                if a.op == 'it' or kind(a) == 'iter' or (a.op == 'obj' and I.getobj(st, a) is not None and I.getobj(st, a).kind == 'gen'):
                    st = self.consume(I, a, st, n, name) if a.op != 'obj' else I.emit(st, 'consume', n, source=a, how=name)
            if name == 'clear':
                st = I.emit(st, 'mut', n, target=v, op='clear')
                st = I.touch_aliases(st, v)
                return [(NONE, st.setobj(v, o.rep(content=empty_of({'ddict': 'dict', 'counter': 'dict'}.get(k, k)), ln=ZERO, ver=I.bump(o))))]
            return [(mk('lib', 'm.' + name, v, *args), I.havoc(v, st, n, name))]
        if name == 'sort':
            st = I.emit(st, 'mut', n, target=v, op='sort')
            st = I.touch_aliases(st, v)
            return [(NONE, s) for _, s in self.sort(I, v, kw, st, n)]
        if name == 'reverse':
            st = I.emit(st, 'mut', n, target=v, op='reverse')
            c = mk('rev', o.content) if o.content is not None and o.content.op != 'lv' else None
            return [(NONE, st.setobj(v, o.rep(content=c, ver=I.bump(o))))]
        if name in ('intersection', 'union', 'difference', 'symmetric_difference', 'copy', 'issubset', 'issuperset', 'isdisjoint'):
            return self.set_op(I, v, name, args, st, n)
        if name == 'count':
            return [(mk('count', snap(I, v, st), args[0]), st)]
        if name == 'index':
            st = I.emit(st, 'lookup', n, target=v, key=args[0])
            return [(mk('lib', 'str.index', snap(I, v, st), args[0]), st)]
        if name == 'most_common':
            r = mk('lib', 'most_common', snap(I, v, st), *args)
            t, s = self.new(I, st, n, 'list', r, mk('len', r))
            return [(t, s)]
        if name == '__contains__':
            return I.contains(args[0], v, st, n)
        if name == '__len__':
            return [(I.length(v, st), st)]
        if name == '__getitem__':
            return I.index(v, args[0], st, n)
        if name == '__setitem__':
            return [(NONE, I.put_any(v, args[0], args[1], st, n))]
        py = {'list': list, 'set': set, 'dict': dict, 'ddict': collections.defaultdict, 'counter': collections.Counter, 'tuple': tuple}[k]
        if not hasattr(py, name):
            return I.fail(st, n, 'a %s has no method %s' % (k, name), 'AttributeError')
        return [(mk('lib', 'm.' + name, v, *args), I.havoc(v, st, n, name))]

    def extend(self, I, v, src, st, n):
        if v.op != 'obj':
            st = I.emit(st, 'mut', n, target=v, op='extend')
            return [st]
        o = I.getobj(st, v)
        p = self.is_pure(I, src, st)
        if p is not None:
            st = self.consume(I, src, st, n, 'extend')
            st = I.emit(st, 'ins', n, target=v, op='extend', key=None, val=mk('splat', p), src=src)
            st = I.touch_aliases(st, v)
            o = I.getobj(st, v)
            if p.op == 'tuple':
                p = lit(*p.a)
            if kind(p) in ('set', 'dict'):
                p = mk('listof', p)
            c = cat(o.content, p) if o.content is not None else None
            return [st.setobj(v, o.rep(content=c, ln=add(o.ln, seqlen(p)) if o.ln is not None else None, ver=I.bump(o)))]
        if src.op == 'obj' and I.getobj(st, src) is not None and I.getobj(st, src).kind in CONTAINERS:
            so = I.getobj(st, src)
            st = I.emit(st, 'iter', n, source=src)
            st = I.emit(st, 'ins', n, target=v, op='extend', key=None, val=mk('splat', mk('snap', src, so.ver)), src=src)
            st = I.touch_aliases(st, v)
            o = I.getobj(st, v)
            return [st.setobj(v, o.rep(content=None, ln=add(o.ln, I.length(src, st)) if o.ln is not None else None, ver=I.bump(o)))]
        res = []

        def body(e, s):
            return [('next', I.push(v, e, s, n, 'append'), None)]
        for k, s, x in I.iterate(src, st, body, n, n):
            if k == 'next':
                res.append(s)
            else:
                I.pending.append((k, s, x))
        return res

    def update_set(self, I, v, src, st, n):
        p = self.is_pure(I, src, st)
        if p is not None or (src.op == 'obj' and I.getobj(st, src) is not None and I.getobj(st, src).kind in CONTAINERS):
            st = self.consume(I, src, st, n, 'update')
            val = p if p is not None else snap(I, src, st)
            st = I.emit(st, 'ins', n, target=v, op='update', key=None, val=mk('splat', val), src=src)
            st = I.touch_aliases(st, v)
            o = I.getobj(st, v)
            nv = I.bump(o)
            c = None
            if o.content is not None and p is not None:
                if o.content.op == 'setlit' and not o.content.a:
                    c = mk_setof(p)
                else:
                    a, b = sorted((o.content, mk_setof(p)), key=lambda t: t.n)
                    c = a if a is b else mk('union', a, b)
            return [st.setobj(v, o.rep(content=c, ln=seqlen(c) if c is not None and c.op != 'union' else mk('len', v, nv), ver=nv))]
        res = []

        def body(e, s):
            return [('next', I.push(v, e, s, n, 'add'), None)]
        for k, s, x in I.iterate(src, st, body, n, n):
            if k == 'next':
                res.append(s)
            else:
                I.pending.append((k, s, x))
        return res

    def update_dict(self, I, v, o, args, kw, st, n):
        if not args:
            for k, x in kw.items():
                if isinstance(k, str):
                    st = I.put(v, const(k), x, st, n)
            return [(NONE, st)]
        src = args[0]
        if o.kind == 'counter' and I.vkind(src, st) not in ('dict', 'counter', 'ddict'):
            res = []

            def body(e, s):
                s = I.emit(s, 'inc', n, target=v, key=e, delta=ONE)
                oo = I.getobj(s, v)
                nv = I.bump(oo)
                return [('next', s.setobj(v, oo.rep(content=None, ln=mk('len', v, nv), ver=nv)), None)]
            for k, s, x in I.iterate(src, st, body, n, n):
                if k == 'next':
                    res.append((NONE, s))
                else:
                    I.pending.append((k, s, x))
            return res
        p = pure(I, src, st)
        if p is not None and p.op == 'dictlit':
            for k, x in p.a:
                st = I.put(v, k, x, st, n)
            return [(NONE, st)]
        st = I.emit(st, 'ins', n, target=v, op='update', key=None, val=mk('splat', snap(I, src, st)), src=src)
        return [(NONE, I.havoc(v, st, n, 'update'))]

    # rng --------------------------------------------------------------------
    def rng_method(self, I, v, o, name, args, kw, st, n):
        if name in ('seed', 'setstate'):
            st = I.emit(st, 'reseed', n, rng=v, seed=args[0] if args else NONE)
            st = st.setobj(v, o.rep(x=(args[0] if args else NONE,)))
            return [(NONE, st)]
        st = I.emit(st, 'draw', n, rng=v, seed=o.x[0], method=name, args=tuple(args))
        if name in ('randint', 'randrange', 'getrandbits'):
            r = self.fresh(I, n, 'int', 'draw')
            if name == 'randint' and len(args) == 2:
                st = I.assume(st, cmp_lit('>=', r, args[0])) or st
                st = I.assume(st, cmp_lit('<=', r, args[1])) or st
            return [(r, st)]
        if name in ('random', 'uniform', 'gauss'):
            return [(self.fresh(I, n, 'num', 'draw'), st)]
        if name in ('shuffle',):
            return [(NONE, I.havoc(args[0], st, n, 'shuffle', 'same'))]
        if name == 'choice':
            st = I.emit(st, 'needs', n, source=args[0], what='choice', ln=I.length(args[0], st), default=False)
            i = self.fresh(I, n, 'int', 'draw')
            st = I.assume(st, cmp_lit('>=', i, ZERO)) or st
            st = I.assume(st, cmp_lit('<', i, I.length(args[0], st))) or st
            return I.index(args[0], i, st, n)
        if name == 'sample':
            st = self.consume(I, args[0], st, n, 'sample')
            r = self.fresh(I, n, 'list', 'draw')
            t, s = self.new(I, st, n, 'list', None, args[1] if len(args) > 1 else kw.get('k', ZERO), 'smp')
            s = I.emit(s, 'concat', n, target=t, parts=(args[0],), op='sample')
            return [(t, s)]
        return [(self.fresh(I, n, 'any', 'draw'), st)]

    # pool -------------------------------------------------------------------
    def m_pool_imap(self, I, v, o, args, kw, st, n):
        st = I.emit(st, 'poolmap', n, fn=args[0], source=args[1])
        return [(mk('it', 'map', args[0], args[1]), st)]

    m_pool_imap_unordered = m_pool_imap
    m_pool_map = m_pool_imap
    m_pool_starmap = m_pool_imap

    # union find -------------------------------------------------------------
    def m_uf_union(self, I, v, o, args, kw, st, n):
        st = I.emit(st, 'union', n, target=v, a=args[0], b=args[1])
        return [(NONE, st)]

    def m_uf_connected(self, I, v, o, args, kw, st, n):
        return [(mk('connected', v, args[0], args[1]), st)]

    def m_uf_components(self, I, v, o, args, kw, st, n):
        mn = kw.get('min_size', args[0] if args else ONE)
        mx = kw.get('max_size', args[1] if len(args) > 1 else const(float('inf')))
        return [(mk('it', 'components', v, mn, mx), st)]

    # vp tree ----------------------------------------------------------------
    def m_vptree_neighbors_in_radius(self, I, v, o, args, kw, st, n):
        q = args[0]
        r = args[1] if len(args) > 1 else kw.get('radius', NONE)
        return [(mk('it', 'inradius', v, q, r), st)]

    # csv writer -------------------------------------------------------------
    def m_csvwriter_writerow(self, I, v, o, args, kw, st, n):
        a = args[0]
        if a.op == 'it' or (a.op == 'obj' and I.getobj(st, a) is not None and I.getobj(st, a).kind == 'gen'):
            out = []
            for x, s in self.collect(I, a, st, n, 'list', 'row'):
                out.append((NONE, I.emit(s, 'write', n, target=v, row=snap(I, x, s), ln=I.length(x, s), raw=x)))
            return out
        st = I.emit(st, 'write', n, target=v, row=snap(I, a, st), ln=I.length(a, st), raw=a)
        return [(NONE, st)]

    def m_csvwriter_writerows(self, I, v, o, args, kw, st, n):
        def body(x, s):
            return [('next', w, None) for _, w in self.m_csvwriter_writerow(I, v, o, [x], {}, s, n)]
        out = []
        for k, s, val in I.iterate(args[0], st, body, n, n):
            if k == 'next':
                out.append((NONE, s))
            else:
                I.pending.append((k, s, val))
        return out

    # graphs -----------------------------------------------------------------
    def graph_method(self, I, g, name, args, kw, st, n):
        if name in ('add_node', 'add_edge', 'remove_edge', 'remove_node', 'add_edges_from', 'add_nodes_from', 'remove_edges_from',
                    'remove_nodes_from', 'clear', 'add_weighted_edges_from', 'update'):
            if name.startswith('add'):
                st = I.emit(st, 'ins', n, target=g, op=name, key=args[0] if args else None, val=mk('tuple', *args), kw=dict(kw), args=tuple(args))
            st = I.emit(st, 'mut', n, target=g, op=name, args=tuple(args), kw=dict(kw))
            if name in ('add_edges_from', 'add_weighted_edges_from', 'add_nodes_from') and args and (args[0].op == 'it' or args[0].op == 'obj' and I.getobj(st, args[0]) is not None and I.getobj(st, args[0]).kind == 'gen'):
                out = []
                one = 'add_node' if name == 'add_nodes_from' else 'add_edge'

                def body(e, s):
                    a = e.a if e.op == 'tuple' else (e,)
                    kk = dict(kw)
                    if name == 'add_weighted_edges_from' and len(a) == 3:
                        kk['weight'] = a[2]
                        a = a[:2]
                    w = 1 if one == 'add_node' else 2
                    if len(a) == w + 1 and (kind(a[w]) == 'dict' or a[w].op == 'lib' and a[w].a[0] in ('nodedata', 'edgedata') or a[w].op == 'obj' and I.getobj(s, a[w]) is not None and I.getobj(s, a[w]).kind == 'dict'):
                        kk['**'] = a[w]
                        a = a[:w]
                    s = I.emit(s, 'ins', n, target=g, op=one, key=a[0], val=mk('tuple', *a), kw=kk, args=tuple(a))
                    return [('next', s, None)]
                for k, s, v in I.iterate(args[0], st, body, n, n):
                    if k == 'next':
                        out.append((NONE, s))
                    else:
                        I.pending.append((k, s, v))
                return out
            return [(NONE, st)]
        if name == 'has_edge':
            return [(mk('hasedge', g, *args), st)]
        if name == 'has_node':
            return [(mk('pred', 'hasnode', g, *args), st)]
        if name == 'nodes':
            return [(mk('it', 'nodes', g, kw.get('data', args[0] if args else FALSE)), st)]
        if name == 'edges':
            a = list(args) + [None] * 3
            return [(mk('it', 'edges', g, kw.get('nbunch', a[0] or NONE), kw.get('data', a[1] or FALSE), kw.get('default', a[2] or NONE)), st)]
        if name in ('neighbors', 'adjacency', 'successors', 'predecessors'):
            return [(mk('it', 'neigh', g, args[0] if args else NONE), st)]
        if name in ('order', 'number_of_nodes'):
            return [(mk('len', mk('lib', 'nodes', g)), st)]
        if name in ('size', 'number_of_edges'):
            return [(mk('len', mk('lib', 'edges', g)), st)]
        if name == 'degree':
            return [(mk('len', mk('lib', 'neighof', g, args[0])) if args else mk('lib', 'degree', g), st)]
        if name == 'copy':
            t, s = I.alloc(st, n, Obj('nxgraph', x=(g,)))
            return [(t, s)]
        st = I.emit(st, 'extmeth', n, target=g, name=name, args=tuple(args))
        return [(mk('lib', 'm.' + name, g, *args), st)]

    # ------------------------------------------------------------------ iteration
    def iterate_value(self, I, src, st, body, node, keynode):
        if src.op == 'attr' and src.a[1] == 'nodes':
            return self.iterate_it(I, mk('it', 'nodes', src.a[0], FALSE), st, body, node, keynode)
        if src.op == 'meth' and src.a[1] in ('nodes', 'edges'):
            return self.iterate_it(I, mk('it', src.a[1], src.a[0], FALSE), st, body, node, keynode)
        if kind(src) == 'graph':
            return self.iterate_it(I, mk('it', 'nodes', src, FALSE), st, body, node, keynode)
        return None

    def iterate_it(self, I, it, st, body, node, keynode):
        k = it.a[0]
        f = getattr(self, 'it_' + k, None)
        if f is None:
            return self.it_opaque(I, mk('it', 'opaque', it), st, body, node, keynode)
        return f(I, it, st, body, node, keynode)

    def it_opaque(self, I, it, st, body, node, keynode):
        src = it.a[1]
        hi = mk('len', src)
        return I.loop_seq(src, st, body, node, keynode, lo=ZERO, hi=hi, elem=lambda b: mk('item', src, b))

    def it_range(self, I, it, st, body, node, keynode):
        lo, hi, step = it.a[1:]
        if is_num_const(step):
            sv = num(step)
            if sv == 0:
                I.emit(st, 'needs', node, what='range step', ln=ZERO)
                return []
            if all(is_num_const(x) for x in (lo, hi)):
                vals = list(range(int(num(lo)), int(num(hi)), int(sv)))
                if len(vals) <= 12:
                    return I.unroll([const(x) for x in vals], st, body, node, keynode)
            if sv == 1:
                return I.loop_seq(mk('lib', 'range', lo, hi), st, body, node, keynode, lo=lo, hi=hi, elem=lambda b: b)
            if sv == -1:
                return I.loop_seq(mk('lib', 'range', hi, lo), st, body, node, keynode, lo=ZERO, hi=V.nonneg(sub(lo, hi)), elem=lambda b: sub(lo, b))
        # lo, lo+step, ... : ceil((hi-lo)/step) values
        cnt = mk('ceil', div(sub(hi, lo), step))

        def b2(e, s):
            s2 = I.assume(s, cmp_lit('<' if not is_num_const(step) or num(step) > 0 else '>', e, hi))
            if s2 is None:
                return []
            return body(e, s2)
        return I.loop_seq(mk('lib', 'range', lo, hi, step), st, b2, node, keynode, lo=ZERO, hi=cnt, elem=lambda b: add(lo, mul(b, step)))

    def it_count(self, I, it, st, body, node, keynode):
        lo, step = it.a[1:]
        return I.loop_seq(mk('lib', 'count'), st, body, node, keynode, lo=ZERO, hi=const(float('inf')), elem=lambda b: add(lo, mul(b, step)))

    def with_counter(self, I, src, st, body, node, keynode, start, tag):
        """iterate src, passing (index, elem)"""
        p = self.is_pure(I, src, st)
        if p is not None and p.op not in ('lit', 'tuple', 'cat') and not (p.op == 'const') and not (p.op in ('gseq', 'gset') and (len(p.a[3]) != 1 or p.a[3][0][0])):
            st = self.consume(I, src, st, node, 'for')
            lk = None
            b0 = mk('bnd', (I.ctx, pos(keynode)))

            def b1(e, s):
                # the active binder of the innermost loop is the position
                lk, b, lo, hi, kn = I.active[-1]
                return body(add(start, sub(b, lo)), e, s)
            if p.op == 'gseq':
                o = None
                return I.loop_content(p, src, None, st, b1, node, keynode)
            return I.loop_seq(p, st, b1, node, keynode)
        fid = ('cnt', I.ctx, pos(keynode), tag)
        I.fparent[fid] = None
        st = st.setframe(fid, {'$i': start})
        I.fstack.append(fid)

        def b2(e, s):
            i = s.fr[fid]['$i']
            out = []
            for k, s2, v in body(i, e, s):
                if k == 'next' and fid in s2.fr:
                    s2 = s2.setvar(fid, '$i', add(i, ONE))
                out.append((k, s2, v))
            return out
        outs = I.iterate(src, st, b2, node, keynode)
        I.fstack.pop()
        return [(k, s.setframe(fid, None), v) for k, s, v in outs]

    def it_enumerate(self, I, it, st, body, node, keynode):
        src, start = it.a[1:]
        return self.with_counter(I, src, st, lambda i, e, s: body(mk('tuple', i, e), s), node, keynode, start, 'en')

    def it_iter(self, I, it, st, body, node, keynode):
        return I.iterate(it.a[1], st, body, node, keynode)

    def it_rev(self, I, it, st, body, node, keynode):
        src = it.a[1]
        if src.op == 'it' and src.a[0] == 'range' and src.a[3] is ONE:
            lo, hi = src.a[1:3]
            if all(is_num_const(x) for x in (lo, hi)):
                return I.unroll([const(x) for x in reversed(range(int(num(lo)), int(num(hi))))], st, body, node, keynode)
            return I.loop_seq(src, st, body, node, keynode, lo=ZERO, hi=V.nonneg(sub(hi, lo)), elem=lambda b: sub(sub(hi, ONE), b))
        p = self.is_pure(I, src, st)
        if p is None:
            rs = self.collect(I, src, st, node, 'list', 'rev')
            outs = []
            for v, s in rs:
                c = snap(I, v, s)
                outs += I.loop_seq(mk('rev', c), s, body, node, keynode)
            return outs
        st = self.consume(I, src, st, node, 'for')
        if p.op in ('lit', 'tuple'):
            return I.unroll(tuple(reversed(p.a)), st, body, node, keynode)
        return I.loop_seq(mk('rev', p), st, body, node, keynode, hi=seqlen(p))

    def it_map(self, I, it, st, body, node, keynode):
        fn, srcs = it.a[1], it.a[2:]
        if len(srcs) != 1:
            return self.it_zip(I, mk('it', 'zip', *srcs), st, lambda e, s: self.chain_call(I, fn, list(e.a), s, body, node), node, keynode)
        return I.iterate(srcs[0], st, lambda e, s: self.chain_call(I, fn, [e], s, body, node), node, keynode)

    def chain_call(self, I, fn, args, s, body, node):
        sp = I.pending
        I.pending = []
        out = []
        for v, s2 in I.call(fn, args, {}, s, node):
            out += body(v, s2)
        out += I.pending
        I.pending = sp
        return out

    def it_filter(self, I, it, st, body, node, keynode):
        fn, src = it.a[1:]

        def b(e, s):
            sp = I.pending
            I.pending = []
            out = []
            vs = [(e, s)] if fn is NONE else I.call(fn, [e], {}, s, node)
            for v, s2 in vs:
                for t, s3 in I.branch(v, s2):
                    out += body(e, s3) if t else [('next', s3, None)]
            out += I.pending
            I.pending = sp
            return out
        return I.iterate(src, st, b, node, keynode)

    def it_chain(self, I, it, st, body, node, keynode):
        cur = [st]
        res = []
        for q, src in enumerate(it.a[1:]):
            nxt = []
            I.active.append((('u', I.ctx, pos(keynode)), const(q), None, None, keynode))
            for s in cur:
                for o in I.iterate(src, s, body, node, keynode):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        res.append(o)
            I.active.pop()
            cur = nxt
        return res + [('next', s, None) for s in cur]

    def it_flat(self, I, it, st, body, node, keynode):
        return I.iterate(it.a[1], st, lambda e, s: I.iterate(e, s, body, node, keynode), node, keynode)

    def it_zip(self, I, it, st, body, node, keynode):
        srcs = it.a[1:]
        ps = []
        for x in srcs:
            p = self.is_pure(I, x, st)
            if p is None and x.op == 'it' and x.a[0] == 'range' and x.a[3] is ONE:
                p = mk_range(x.a[1], x.a[2])
            elif p is None and x.op == 'it' and x.a[0] == 'count':
                p = ('count', x.a[1], x.a[2])
            elif p is None and x.op == 'obj' and I.getobj(st, x) is not None and I.getobj(st, x).kind == 'list':
                p = ('obj', x)
            elif p is None:
                rs = self.collect(I, x, st, node, 'list', 'zip%d' % len(ps))
                if not rs:
                    return []
                v, st = rs[0]
                p = self.is_pure(I, v, st)
                if p is None:
                    p = ('obj', v)
            else:
                st = self.consume(I, x, st, node, 'zip')
            ps.append(p)
        lens = []
        for p in ps:
            if isinstance(p, tuple):
                if p[0] == 'obj':
                    lens.append(I.length(p[1], st))
            else:
                lens.append(seqlen(p))
        hi = mk_min(*lens) if len(lens) > 1 else lens[0] if lens else const(float('inf'))
        if all(not isinstance(p, tuple) and p.op in ('lit', 'tuple') for p in ps):
            m = min(len(p.a) for p in ps)
            return I.unroll([mk('tuple', *[p.a[i] for p in ps]) for i in range(m)], st, body, node, keynode)

        def elem(b):
            out = []
            for p in ps:
                if isinstance(p, tuple):
                    if p[0] == 'count':
                        out.append(add(p[1], mul(b, p[2])))
                    else:
                        o = I.getobj(st, p[1])
                        out.append(mk('item', p[1], b, o.ver))
                else:
                    out.append(mk_item(p, b))
            return mk('tuple', *out)
        return I.loop_seq(mk('lib', 'zip', *[p if not isinstance(p, tuple) else NONE for p in ps]), st, body, node, keynode, lo=ZERO, hi=hi, elem=elem)

    def it_comb2(self, I, it, st, body, node, keynode):
        v = it.a[1]
        p = self.is_pure(I, v, st)
        ln = I.length(v, st)
        o = I.getobj(st, v) if v.op == 'obj' else None

        def at(i):
            return mk_item(p, i) if p is not None else mk('item', v, i, o.ver)

        def outer(i, s):
            return I.loop_seq(v, s, lambda j, s2: body(mk('tuple', at(i), at(j)), s2), node, keynode, lo=add(i, ONE), hi=ln, elem=lambda b: b)
        return I.loop_seq(v, st, outer, node, keynode, lo=ZERO, hi=ln, elem=lambda b: b)

    def it_prod(self, I, it, st, body, node, keynode):
        a, b = it.a[1:]
        return I.iterate(a, st, lambda x, s: I.iterate(b, s, lambda y, s2: body(mk('tuple', x, y), s2), node, keynode), node, keynode)

    def it_withnext(self, I, it, st, body, node, keynode):
        v = it.a[1]
        ln = I.length(v, st)

        def b(i, s):
            out = []
            for e, s2 in I.index(v, i, s, node):
                l = cmp_lit('<', add(i, ONE), ln)
                for t, s3 in I.branch(l, s2):
                    if t:
                        for e2, s4 in I.index(v, add(i, ONE), s3, node):
                            out += body(mk('tuple', e, e2), s4)
                    else:
                        out += body(mk('tuple', e, NONE), s3)
            return out
        return I.loop_seq(v, st, b, node, keynode, lo=ZERO, hi=ln, elem=lambda x: x)

    # mappings ---------------------------------------------------------------
    def dict_loop(self, I, d, st, body, node, keynode):
        """body(key, value, state)"""
        if d.op == 'obj':
            o = I.getobj(st, d)
            if o is None:
                return I.loop_seq(d, st, lambda b, s: body(mk('dkey', d, b), mk('at', d, mk('dkey', d, b)), s), node, keynode, elem=lambda b: b)
            st = I.emit(st, 'iter', node, source=d)
            c = o.content
            if c is not None and c.op == 'dictlit' and not any(k.op == 'splat' for k, v in c.a):
                return I.unroll([mk('tuple', k, v) for k, v in c.a], st, lambda e, s: body(e.a[0], e.a[1], s), node, keynode)
            if c is not None and c.op == 'counterof':
                ks = mk_setof(c.a[0])
                return I.loop_seq(ks, st, lambda k, s: body(k, mk('cnt', c, k), s), node, keynode, lo=ZERO, hi=mk('len', ks), elem=lambda b: mk_item(ks, b))
            if c is not None and not I.mentions_lv(c) and kind(c) == 'dict' and c.op in ('sym',):
                return I.loop_seq(c, st, lambda k, s: body(k, mk_at(c, k), s), node, keynode)
            if c is not None and c.op == 'gdict' and len(c.a[3]) == 1 and len(c.a[3][0][1]) == 1 and c.a[3][0][1][0].op == 'pair' and not c.a[3][0][0]:
                q, lo, hi, opts = c.a
                pr = opts[0][1][0]
                # keys may repeat: iterate the distinct ones; each is the key of some binder value
                return I.loop_seq(c, st, lambda b, s: body(tm.subst(pr.a[0], {q: b}), tm.subst(pr.a[1], {q: b}), s), node, keynode, lo=lo, hi=hi, elem=lambda b: b)
            ln = I.length(d, st)

            def b1(key, s):
                oo = I.getobj(s, d)
                s = I.assume(s, mk_in(key, d, oo.ver)) or s
                r = I.member(d, oo, key, s, node) if oo.kind in ('ddict', 'dict') and (oo.kind == 'ddict' or oo.x) else None
                if r is not None:
                    v, s = r
                elif oo.kind in ('ddict', 'counter'):
                    v = mk('cnt', d, key, o.ver)
                else:
                    v = mk('at', d, key, o.ver)
                return body(key, v, s)
            return I.loop_seq(d, st, b1, node, keynode, lo=ZERO, hi=ln, elem=lambda b: mk('dkey', d, b, o.ver))
        st = self.consume(I, d, st, node, 'for')
        return I.loop_seq(d, st, lambda k, s: body(k, mk_at(d, k), s), node, keynode)

    def it_items(self, I, it, st, body, node, keynode):
        return self.dict_loop(I, it.a[1], st, lambda k, v, s: body(mk('tuple', k, v), s), node, keynode)

    def it_values(self, I, it, st, body, node, keynode):
        return self.dict_loop(I, it.a[1], st, lambda k, v, s: body(v, s), node, keynode)

    def it_keys(self, I, it, st, body, node, keynode):
        return self.dict_loop(I, it.a[1], st, lambda k, v, s: body(k, s), node, keynode)

    # graphs -----------------------------------------------------------------
    def it_nodes(self, I, it, st, body, node, keynode):
        g, data = it.a[1], it.a[2]
        st = I.emit(st, 'iter', node, source=g)
        seq = mk('lib', 'nodes', g)

        def b(e, s):
            if data is FALSE:
                return body(e, s)
            if data is TRUE:
                return body(mk('tuple', e, mk('lib', 'nodedata', g, e)), s)
            return body(mk('tuple', e, mk_at(mk('lib', 'nodedata', g, e), data)), s)
        return I.loop_seq(seq, st, b, node, keynode, lo=ZERO, hi=mk('len', seq), elem=lambda x: mk('item', seq, x))

    def it_edges(self, I, it, st, body, node, keynode):
        g = it.a[1]
        data = it.a[3] if len(it.a) > 3 else FALSE
        only = it.a[2] if len(it.a) > 2 and it.a[2] is not FALSE else NONE
        seq = mk('lib', 'edges', g) if only is NONE else mk('lib', 'edges', g, only)
        st = I.emit(st, 'iter', node, source=g)

        def elem(x):
            e = mk('item', seq, x)
            u, v = mk('lib', 'src', e), mk('lib', 'dst', e)
            if data is FALSE:
                return mk('tuple', u, v)
            if data is TRUE:
                return mk('tuple', u, v, mk('lib', 'edgedata', g, u, v))
            d = it.a[4] if len(it.a) > 4 else NONE
            return mk('tuple', u, v, mk('lib', 'dict.get', mk('lib', 'edgedata', g, u, v), data, d))
        return I.loop_seq(seq, st, body, node, keynode, lo=ZERO, hi=mk('len', seq), elem=elem)

    def it_neigh(self, I, it, st, body, node, keynode):
        g, u = it.a[1:]
        seq = mk('lib', 'neighof', g, u)
        st = I.emit(st, 'iter', node, source=g)
        return I.loop_seq(seq, st, body, node, keynode, lo=ZERO, hi=mk('len', seq), elem=lambda x: mk('item', seq, x))

    # structures -------------------------------------------------------------
    def it_components(self, I, it, st, body, node, keynode):
        uf, mn, mx = it.a[1:]
        seq = mk('lib', 'components', uf)

        def b(c, s):
            s = I.assume(s, cmp_lit('>=', mk('len', c), mn)) or s
            if not (mx.op == 'const' and mx.a[0] == 'float' and not isinstance(mx.a[1], F)):
                s = I.assume(s, cmp_lit('<=', mk('len', c), mx)) or s
            return body(c, s)
        st = I.emit(st, 'components', node, target=uf, mn=mn, mx=mx)
        return I.loop_seq(seq, st, b, node, keynode, lo=ZERO, hi=mk('len', seq), elem=lambda x: mk('lib', 'component', uf, x))

    def it_inradius(self, I, it, st, body, node, keynode):
        t, q, r = it.a[1:]
        o = I.getobj(st, t)
        items, dist = o.x
        seq = mk('lib', 'inradius', t, q, r)
        st = I.emit(st, 'inradius', node, tree=t, items=items, distance=dist, query=q, radius=r)
        def b(x, s):
            i = mk('lv', ('nb', I.ctx, pos(keynode)), 'i', I.idx(), 'int')
            s = I.assume(s, cmp_lit('>=', i, ZERO)) or s
            s = I.assume(s, cmp_lit('<', i, seqlen(items))) or s
            e = mk_item(items, i)
            out = []
            for v, s2 in I.call(dist, [e, q], {}, s, node):
                s3 = I.assume(s2, cmp_lit('<=', v, r))
                if s3 is not None:
                    # yields (distance, item)
                    out += body(mk('tuple', e, v) if self.vp_item_first else mk('tuple', v, e), s3)
            return out
        return I.loop_seq(seq, st, b, node, keynode, lo=ZERO, hi=mk('len', seq), elem=lambda x: x)

    vp_item_first = True


def mk_range(lo, hi):
    from .loops import mk_g
    b = mk('bnd', ('q', 0))
    return mk('gseq', b, lo, hi, (((), (b,)),))
