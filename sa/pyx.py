"""A small front end for Cython sources: the subset used for compiled distances is rewritten, line by line, into Python
syntax (types become annotations, casts a marker operator) and parsed with ast.  Nothing is compiled or run."""
import ast, re

TYPES = (r'(?:const\s+)?(?:(?:unsigned|signed)\s+)?(?:long\s+long|long\s+double|long\s+int|short\s+int|char|short|int|long|float|double|bint|size_t|ssize_t|'
         r'Py_ssize_t|Py_UCS4|Py_UNICODE|wchar_t|u?int(?:8|16|32|64)_t|str|bytes|unicode|object|list|dict|set|tuple|void|bool|unsigned|signed)')
DECL = re.compile(r'^(%s)\s*(\**)\s*(?=[A-Za-z_])' % TYPES)
BITS = {'char': 8, 'unsigned char': 8, 'signed char': 8, 'short': 16, 'unsigned short': 16, 'short int': 16, 'unsigned short int': 16, 'int': 32, 'unsigned int': 32, 'unsigned': 32,
        'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'size_t': 64, 'ssize_t': 64, 'Py_ssize_t': 64, 'Py_UCS4': 32,
        'Py_UNICODE': 32, 'wchar_t': 32, 'int8_t': 8, 'uint8_t': 8, 'int16_t': 16, 'uint16_t': 16, 'int32_t': 32, 'uint32_t': 32, 'int64_t': 64,
        'uint64_t': 64, 'bint': 32, 'float': 32, 'double': 64, 'bool': 8, 'long int': 64, 'unsigned long int': 64}
UNSIGNED = {'unsigned char', 'unsigned short', 'unsigned int', 'unsigned', 'unsigned long', 'unsigned long long', 'size_t', 'Py_UCS4', 'uint8_t', 'uint16_t',
            'uint32_t', 'uint64_t', 'unsigned long int'}
INTS = {k for k in BITS if k not in ('float', 'double', 'bool', 'bint')}


class Unsupported(Exception):
    pass


def norm(t):
    return re.sub(r'\s+', ' ', t.replace('const ', '')).strip()


def split(s, sep=','):
    out, d, cur, q = [], 0, '', None
    for c in s:
        if q:
            q = None if c == q else q
        elif c in '\'"':
            q = c
        elif c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        if c == sep and d == 0 and not q:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


CAST = re.compile(r'(?<![\w)\]])\s*<\s*(%s)\s*(\**)\s*>\s*(?=[\w(\[])' % TYPES)
CAST2 = re.compile(r'(?<=return)\s*<\s*(%s)\s*(\**)\s*>\s*(?=[\w(\[])' % TYPES)
SIZEOF = re.compile(r'sizeof\s*\(\s*(%s)\s*(\**)\s*\)' % TYPES)


def expr(s):
    s = SIZEOF.sub(lambda m: 'sizeof("%s")' % (norm(m.group(1)) + m.group(2)), s)
    for c in (CAST2, CAST):
        s = c.sub(lambda m: ' __cast__("%s") @ ' % (norm(m.group(1)) + m.group(2)), s)
    return s


def params(s):
    out = []
    for p in split(s):
        p = p.strip()
        m = DECL.match(p)
        if m:
            name = p[m.end():].strip()
            d = None
            if '=' in name:
                name, d = [x.strip() for x in name.split('=', 1)]
            name = name.split()[0] if name.endswith('not None') else name
            out.append('%s: "%s"%s' % (name, norm(m.group(1)) + m.group(2), '' if d is None else ' = ' + expr(d)))
        else:
            out.append(p)
    return ', '.join(out)


FUNC = re.compile(r'^(\s*)(def|cdef|cpdef)\s+(?:inline\s+)?(.*?)([A-Za-z_]\w*)\s*\((.*)\)\s*(.*?):\s*$')


def translate(src):
    lines = src.split('\n')
    # join continued function headers and declarations
    out = []
    i = 0
    doc = None
    block = None
    while i < len(lines):
        l = lines[i]
        i += 1
        s = l.strip()
        if doc:
            out.append(l)
            if doc in s:
                doc = None
            continue
        q = re.match(r'^(?:[rubf]*)("""|\'\'\')', s)
        if q:
            if s.count(q.group(1)) < 2:
                doc = q.group(1)
            out.append(l)
            continue
        ind = l[:len(l) - len(l.lstrip())]
        if not s or s.startswith('#'):
            out.append(l)
            continue
        if block is not None and len(ind) <= block:
            block = None
        if block is not None:
            out.append(ind[:block] + decl(s))
            continue
        if re.match(r'^(from\s+\S+\s+)?cimport\b', s):
            out.append(ind + 'pass')
            continue
        if re.match(r'^cdef\s*:', s):
            block = len(ind)
            out.append('')
            continue
        if re.match(r'^(cdef|cpdef)\s+(extern|class|enum|struct|union|packed)\b', s) or s.startswith('ctypedef') or s.startswith('DEF ') or s.startswith('include '):
            raise Unsupported(s)
        if re.match(r'^(def|cdef|cpdef)\b.*\(', s) and not re.match(r'^cdef\b[^(]*=', s):
            n = 0
            while not re.search(r':\s*(#.*)?$', l) and i < len(lines) and n < 20:
                l = l.rstrip() + ' ' + lines[i].strip()
                i += 1
                n += 1
            m = FUNC.match(re.sub(r'\s+#.*$', '', l))
            if not m:
                raise Unsupported(s)
            ret = m.group(3).strip()
            out.append('%sdef %s(%s)%s:' % (m.group(1), m.group(4), params(m.group(5)), ' -> "%s"' % norm(ret) if ret else ''))
            out += [''] * n
            continue
        if s.startswith('cdef '):
            out.append(ind + decl(s[5:].strip()))
            continue
        out.append(expr(l))
    return '\n'.join(out)


def decl(s):
    s = re.sub(r'\s+#.*$', '', s)
    m = DECL.match(s)
    if not m:
        raise Unsupported('cdef ' + s)
    base = norm(m.group(1))
    outs = []
    for k, p in enumerate(split(s[m.end(1):])):
        p = p.strip()
        stars = re.match(r'^(\**)\s*', p)
        t = base + stars.group(1)
        p = p[stars.end():]
        mm = re.match(r'^([A-Za-z_]\w*)\s*(?:\[\s*(.*?)\s*\])?\s*(?:=\s*(.*))?$', p, re.S)
        if not mm:
            raise Unsupported('cdef ' + s)
        name, dim, val = mm.groups()
        if dim:
            outs.append('%s: "%s[]" = __array__(%s)' % (name, t, expr(dim)))
        elif val is not None:
            outs.append('%s: "%s" = %s' % (name, t, expr(' ' + val).strip()))
        else:
            outs.append('%s: "%s"' % (name, t))
    return '; '.join(outs)


def parse(src, path='<pyx>'):
    t = translate(src)
    try:
        return ast.parse(t, path)
    except SyntaxError as e:
        raise Unsupported('%s (line %s)' % (e.msg, e.lineno))
