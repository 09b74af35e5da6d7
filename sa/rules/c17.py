"""C17: memory safety of the compiled distances."""
import ast, os, re
from .. import pyx
from ..cmem import Interp, TooMany, R_B, R_F, R_W
from ..project import REPO
from ..verdict import ok, bad, unk, Static

EXPLAIN = ("The Cython sources are translated to a typed syntax tree (nothing is compiled) and every function is interpreted abstractly: integer variables in the domain "
           "of linear inequalities, with inductive loop invariants found among template inequalities; strings by their length; heap buffers by their size "
           "and typestate (live, released, NULL); characters as such. Obligations: every index into a string or buffer is entailed to be within its bounds, "
           "no way out (return, raise, end) leaves a live buffer, none is released twice or used afterwards, no character is stored in or reduced to fewer than 21 bits "
           "or compared by identity. An access whose bound does not follow from the strongest invariants found is reported; where a value is not followed it is undecided.")
ASSUME = ["lengths and distances stay below 2**31, so that unsigned additions do not overflow", "malloc succeeds (a NULL result that the code tests is followed)",
          "Py_UCS4, wchar_t and int have 32 bits"]
LIMIT = 120
DIR = 'cfog'


def files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, DIR)):
        out += [os.path.join(d, f) for f in fs if f.endswith('.pyx')]
    return sorted(out)


def scenarios(tier):
    out = []
    for path in files():
        rel = os.path.relpath(path, REPO)
        src = open(path, encoding='utf-8').read()
        try:
            tree = pyx.parse(src, path)
        except pyx.Unsupported as e:
            out.append(Static(rel, lambda S, path=path, e=str(e): [unk(R_B, path, 'not translated: %s' % e)]))
            continue
        funcs = [f for f in tree.body if isinstance(f, ast.FunctionDef)]
        called = set(c.func.id for f in funcs for c in ast.walk(f) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id != f.name)
        for f in funcs:
            if not (f.name in called and cdefd(src, f.name)):
                out.append(Static('%s:%s' % (rel, f.name), lambda S, path=path, tree=tree, f=f: one(path, tree, f)))
    return out or [Static(DIR, lambda S: [unk(R_B, DIR, 'no Cython source')])]


def cdefd(src, name):
    """a C-level helper is analysed where it is called"""
    return re.search(r'(?m)^\s*cdef\b[^=\n]*\b%s\s*\(' % name, src) is not None


def one(path, tree, f):
    seen = {}

    def report(rule, verdict, node, text):
        k = (rule, node.lineno, node.col_offset if rule == R_B else 0)
        rank = {'ok': 0, 'unk': 1, 'bad': 2}
        if k not in seen or rank[seen[k][0]] < rank[verdict]:
            seen[k] = (verdict, text, node)
    I = Interp(tree, report)
    try:
        I.entry(f.name)
    except (TooMany, RecursionError):
        return [unk(R_B, '%s:%d' % (path, f.lineno), '%s: too many paths' % f.name)]
    out = []
    mkr = {'ok': ok, 'unk': unk, 'bad': bad}
    for (rule, line, col), (v, text, node) in sorted(seen.items(), key=lambda x: (x[0][0], x[0][1], x[0][2])):
        out.append(mkr[v](rule, '%s:%d' % (path, line), '%s: %s' % (f.name, text)))
    s = I.stats
    if not any(k[0] == R_F for k in seen):
        out.append(ok(R_F, '%s:%d' % (path, f.lineno), '%s: %d allocations, %d ways out' % (f.name, len(s['allocs']), s['paths'])))
    if not any(k[0] == R_W for k in seen):
        out.append(ok(R_W, '%s:%d' % (path, f.lineno), '%s: %d comparisons or stores of characters; %d loops, %d invariants, %d ways out' % (
            f.name, len(s['chars']), s['loops'], s['invariants'], s['paths'])))
    return out
