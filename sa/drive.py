"""Runs a public function of the package on abstract arguments and returns what was observed."""
import os, sys, time
from . import terms as tm
from .terms import mk, const, cmp_lit
from .project import Project
from .interp import Interp, St, Lossy, Obj, NONE, TRUE, FALSE, ZERO
from .lib import Lib
from .clients import CLIENTS

sys.setrecursionlimit(20000)


class Missing(Exception):
    """a public anchor is not there any more"""


class Run(object):
    def __init__(self):
        self.log = []
        self.outs = []
        self.lossy = None
        self.args = {}
        self.vals = []
        self.built = 0
        self.refused = 0
        self.inst = []

    def evs(self, *kinds):
        return [e for e in self.log if e.kind in kinds]


class Session(object):
    def __init__(self, root=None):
        self.project = Project(root)
        self.project.virtual = CLIENTS
        self.lib = Lib()
        self.I = Interp(self.project, self.lib)

    def get(self, dotted):
        mod, _, name = dotted.rpartition('.')
        v = self.I.modvar(mod, name) if self.project.find(mod) else None
        if v is None or v.op == 'ext':
            raise Missing(dotted)
        return v

    def run(self, f, args=(), kw=None, facts=(), consume=True, inst=None, method=None, limit=None, opaque=None):
        """call f (dotted name or term), or method of an instance of class f built with inst=(args, kw),
        and exhaust the returned generator"""
        I = self.I
        name = f
        if isinstance(f, str):
            f = self.get(f)
        I.reset_run()
        I.opaque_call = opaque
        I.deadline = time.time() + limit if limit else None
        r = Run()
        fid = ('top',)
        I.fid = fid
        I.fstack = [fid]
        I.fparent[fid] = None
        st = St({fid: {}}, {}, frozenset(x for x in facts if x.op != 'const'), (), frozenset())
        node = TOP
        node._mod = None
        outs = []
        try:
            calls = [(f, st)]
            r.inst = []
            if method is not None:
                calls = []
                for v, s in I.call(f, list(inst[0]), dict(inst[1]), st, node):
                    s = s.copy()
                    r.seeds = {t: o.x[0] for t, o in s.ob.items() if o.kind == 'rng'}
                    s.ob = {t: (o if o.origin in ('global', 'default') else o.rep(origin='self')) for t, o in s.ob.items()}
                    # what happens from here on is the method call itself
                    for m, s2 in I.getattr(v, method, s, node):
                        calls.append((m, s2))
                        r.inst.append(v)
                outs += I.pending
                I.pending = []
                r.built = len(I.log)
                r.refused = len(outs)
            for f2, s0 in calls:
                for v, s in I.call(f2, list(args), dict(kw or {}), s0, node):
                    r.vals.append((v, s))
                    if consume == 'list':
                        for l, s2 in I.call(mk('ext', 'list'), [v], {}, s, node):
                            outs.append(('ret', s2, l))
                    elif consume and v.op == 'obj' and I.getobj(s, v) is not None and I.getobj(s, v).kind == 'gen' or consume and v.op == 'it':
                        def body(e, s2):
                            s2 = I.emit(s2, 'result', node, val=e)
                            return [('next', s2, None)]
                        for k, s2, x in I.iterate(v, s, body, node, node):
                            outs.append((k if k != 'next' else 'done', s2, x))
                    else:
                        outs.append(('ret', s, v))
            outs += I.pending
        except Lossy as e:
            r.lossy = str(e)
        except RecursionError:
            r.lossy = 'recursion'
        except Exception as e:  # an engine defect must never look like a verdict
            if os.environ.get('SA_DEBUG'):
                raise
            r.lossy = 'engine: %s %s' % (type(e).__name__, e)
        r.log = I.log
        r.outs = outs
        r.stats = {k: (len(v) if isinstance(v, set) else v) for k, v in I.stats.items()}
        return r


import ast
TOP = ast.parse('0').body[0].value
TOP.lineno = 0
TOP.col_offset = 0


def sym(name, k='any', ret=None, elem=None):
    a = [name, k]
    if ret or elem:
        a.append(ret)
    if elem:
        a.append(elem)
    return mk('sym', *a)


def ilist(name, elem=None):
    return sym(name, 'list', None, elem)
