"""values of the string terms found by the interpreter, for given contents of their symbols"""
import re
import unicodedata
from .terms import T, const, show, is_num_const, num, kind
from .rules.c16 import Value, Unclear

DEBURR = {'ß': 'ss', 'œ': 'oe', 'Œ': 'OE', 'æ': 'ae', 'Æ': 'AE', 'ø': 'o', 'Ø': 'O', 'ł': 'l', 'Ł': 'L', '’': "'", '–': '-', '—': '--', '«': '<<', '»': '>>', '\u00a0': ' '}


def deburr(s):
    out = ''
    for c in s:
        if ord(c) < 128:
            out += c
        elif c in DEBURR:
            out += DEBURR[c]
        else:
            d = ''.join(x for x in unicodedata.normalize('NFKD', c) if not unicodedata.combining(x))
            if not d or any(ord(x) > 127 for x in d):
                raise Unclear('transliteration of %r' % c)
            out += d
    return out


class Text(Value):
    def __init__(self, I, st):
        Value.__init__(self, I, None)
        self.st = st

    def val(self, t, env):
        if t in env:
            return env[t]
        if t.op == 'obj':
            c = self.I.content(t, self.st)
            if c is None or c is t:
                raise Unclear(show(t)[:60])
            return self.val(c, env)
        if t.op in ('item', 'at') and len(t.a) >= 2 and isinstance(t.a[1], T) and t.a[0].op != 'dictlit':
            b, i = self.val(t.a[0], env), self.val(t.a[1], env)
            if not isinstance(i, (int, str)) and i == int(i):
                i = int(i)
            if isinstance(b, (set, frozenset)):
                b = sorted(b)
            if isinstance(b, (list, tuple, str)) and isinstance(i, int) and -len(b) <= i < len(b):
                return b[i]
            raise Unclear(show(t)[:60])
        if t.op in ('lit', 'tuple'):
            return [self.val(x, env) for x in t.a]
        if t.op == 'setlit':
            return set(self.val(x, env) for x in t.a)
        if t.op == 'sadd':
            return set(self.val(t.a[0], env)) | set(self.val(x, env) for x in t.a[1:])
        if t.op == 'setof':
            return set(self.seq(t.a[0], env))
        if t.op == 'sorted' and (len(t.a) == 1 or all(x is None or (isinstance(x, T) and x.op == 'const' and x.a[1] in (None, False)) for x in t.a[1:])):
            return sorted(self.seq(t.a[0], env))
        if t.op == 'sorted' and len(t.a) > 1 and isinstance(t.a[1], T) and t.a[1].op == 'ext' and t.a[1].a[0] in ('builtins.len', 'len') and not any(isinstance(x, T) and not (x.op == 'const' and x.a[1] in (None, False)) for x in t.a[2:]):
            return sorted(sorted(self.seq(t.a[0], env)), key=len)
        if t.op == 'rev':
            return list(self.seq(t.a[0], env))[::-1]
        if t.op == 'listof':
            return list(self.seq(t.a[0], env))
        if t.op == 'cat':
            return [y for x in t.a for y in self.seq(x, env)]
        if t.op in ('gseq', 'gset'):
            q, lo, hi, cases = t.a
            out = []
            for i in range(int(self.val(lo, env)), int(self.val(hi, env))):
                e2 = dict(env)
                e2[q] = i
                for guards, elems in cases:
                    if all(self.truth(g, e2) for g in guards):
                        out += [self.val(x, e2) for x in elems]
            return out if t.op == 'gseq' else set(out)
        if t.op == 'slc':
            s = self.val(t.a[0], env)
            if isinstance(s, (str, list, tuple)):
                lo, hi = self.val(t.a[1], env), self.val(t.a[2], env)
                if hi is None:
                    hi = len(s)
                if lo != int(lo) or hi != int(hi) or lo < 0 or hi < 0:
                    raise Unclear(show(t)[:60])
                return s[int(lo):int(hi)]
            raise Unclear(show(t)[:60])
        if t.op in ('max', 'min') and len(t.a) > 1 and all(isinstance(x, T) for x in t.a):
            return (max if t.op == 'max' else min)(self.val(x, env) for x in t.a)
        if t.op == 'len':
            v = self.val(t.a[0], env)
            return len(v)
        if t.op == 'concat':
            l = [self.val(x, env) for x in t.a]
            if all(isinstance(x, str) for x in l):
                return ''.join(l)
            raise Unclear(show(t)[:60])
        return Value.val(self, t, env)

    def seq(self, t, env):
        v = self.val(t, env)
        if isinstance(v, (list, tuple, set, str)):
            return v
        raise Unclear(show(t)[:60])

    def regex(self, r, env=None):
        if r.op == 'lib' and r.a[0] == 're':
            p = self.str(r.a[1], env or self.env)
            f = 0
            if len(r.a) > 2:
                fl = r.a[2]
                if is_num_const(fl):
                    f = int(num(fl))
                elif fl.op == 'ext' and fl.a[0].startswith('re.'):
                    f = getattr(re, fl.a[0][3:])
                else:
                    raise Unclear('flags')
            try:
                return re.compile(p, f)
            except re.error:
                raise Unclear('pattern')
        if r.op == 'const' and isinstance(r.a[1], str):
            return re.compile(r.a[1])
        raise Unclear(show(r)[:60])

    def lib(self, t, env):
        n, a = t.a[0], t.a[1:]
        self.env = env
        if n in ('unidecode', 'unidecode_expect_ascii') or n.startswith('unidecode'):
            return deburr(self.str(a[0], env))
        if n == 're.sub' and len(a) == 3:
            return self.regex(a[0], env).sub(self.str(a[1], env), self.str(a[2], env))
        if n == 're.sub' and len(a) == 4:
            return self.regex(a[0], env).sub(self.str(a[1], env), self.str(a[2], env), count=int(self.val(a[3], env)))
        if n == 're.split' and len(a) == 2:
            return self.regex(a[0], env).split(self.str(a[1], env))
        if n == 're.escape':
            return re.escape(self.str(a[0], env))
        if n == 'str.split':
            return self.str(a[0], env).split(*[self.val(x, env) for x in a[1:]])
        if n == 'str.join':
            return self.str(a[0], env).join(self.seq(a[1], env))
        if n in ('str.casefold', 'str.swapcase', 'str.isalpha', 'str.isdigit', 'str.isspace', 'str.isalnum', 'str.isupper', 'str.islower', 'str.startswith', 'str.endswith'):
            return getattr(self.str(a[0], env), n[4:])(*[self.val(x, env) for x in a[1:]])
        return Value.lib(self, t, env)

    def truth(self, l, env):
        if l.op == 'not':
            return not self.truth(l.a[0], env)
        if l.op == 'isnone':
            x = l.a[0]
            if x.op == 'lib' and x.a[0] == 're':
                return False
            return self.val(x, env) is None
        if l.op == 'in' and l.a[1].op not in ('lit', 'setlit', 'tuple', 'dictlit'):
            x, c = self.val(l.a[0], env), self.val(l.a[1], env)
            if isinstance(c, (list, tuple, set, frozenset, dict, str)):
                return x in c
            raise Unclear(show(l)[:60])
        if l.op == 'truthy':
            x = l.a[0]
            if x.op == 'lib' and x.a[0] == 're':
                return True
            if x.op == 'lib' and x.a[0] in ('re.match', 're.search', 're.fullmatch'):
                return getattr(self.regex(x.a[1], env), x.a[0][3:])(self.str(x.a[2], env)) is not None
            return bool(self.val(x, env))
        return Value.truth(self, l, env)


def results(run, I, env):
    """value of the function for one content of its symbols"""
    out = []
    for k, st, v in run.outs:
        if k != 'ret':
            if k in ('raise', 'esc') and possible(I, st, env) is not False:
                out.append(('raise', None))
            continue
        if possible(I, st, env) is False:
            continue
        out.append(('ret', Text(I, st).val(v, env)))
    vals = []
    for x in out:
        if x not in vals:
            vals.append(x)
    if len(vals) != 1:
        raise Unclear('%d results' % len(vals))
    return vals[0][1] if vals[0][0] == 'ret' else Unclear


def possible(I, st, env):
    """False: a path condition is refuted; True: all hold; None otherwise"""
    r = True
    ev = Text(I, st)
    for f in st.facts:
        try:
            if not ev.truth(f, env):
                return False
        except Unclear:
            r = None
        except Exception:
            r = None
    return r
