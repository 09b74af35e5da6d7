"""Loads the analysed repository: modules, their syntax trees, import resolution."""
import ast, os, hashlib

REPO = os.environ.get('FOG_REPO', '/repo')


class Module(object):
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.tree = ast.parse(src, path)
        for n in ast.walk(self.tree):
            n._mod = self


class Project(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.missing = set()
        # small client programs of the checks, analysed together with the repository
        self.virtual = {}

    def find(self, name):
        if name in self.virtual:
            return '/' + name + '.py'
        p = os.path.join(self.root, *name.split('.'))
        for c in (p + '.py', os.path.join(p, '__init__.py')):
            if os.path.isfile(c):
                return c
        return None

    def module(self, name):
        m = self.mods.get(name)
        if m is None and name not in self.missing:
            p = self.find(name)
            if p is None:
                self.missing.add(name)
                return None
            if name in self.virtual:
                m = Module(name, p, self.virtual[name])
            else:
                with open(p, encoding='utf-8') as f:
                    m = Module(name, p, f.read())
            self.mods[name] = m
        return m

    def all_modules(self, pkg='fog'):
        out = []
        base = os.path.join(self.root, pkg)
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    out.append(rel)
        return sorted(out)

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.mods):
            h.update(self.mods[n].src.encode())
        return h.hexdigest()[:16]


def resolve_relative(mod, level, name):
    if level == 0:
        return name
    parts = mod.name.split('.')
    if not mod.is_pkg:
        parts = parts[:-1]
    parts = parts[:len(parts) - (level - 1)]
    return '.'.join(parts + ([name] if name else []))
