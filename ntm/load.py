"""Parses every module of the package on every run and resolves classes, methods and properties."""
import ast
import os

from . import oneshot


class Fn(object):
    def __init__(self, node, module, cls=None, kind="function"):
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = kind          # function, method, classmethod, staticmethod, getter, setter
        self.name = node.name

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<Fn %s>" % self.qual


class Cls(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.bases = []
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.attrs = {}


class Module(object):
    def __init__(self, rel, tree, src):
        self.rel = rel
        self.tree = tree
        self.src = src
        self.imports = {}
        self.funcs = {}
        self.classes = {}
        self.consts = {}


class Program(object):
    def __init__(self, repo, pkg="pyNTM"):
        self.repo = repo
        self.modules = {}
        self.classes = {}
        self.units = 0
        base = os.path.join(repo, pkg)
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(root, f)
                    rel = os.path.relpath(p, repo)
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    m = Module(rel, oneshot.rewrite(ast.parse(src, rel)), src)
                    self.modules[rel[len(pkg) + 1:-3].replace(os.sep, ".")] = m
        for m in self.modules.values():
            self._scan(m)
        for c in self.classes.values():
            for b in c.node.bases:
                n = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else None)
                if n in self.classes:
                    c.bases.append(self.classes[n])
        self.fns = []
        for m in self.modules.values():
            for f in m.funcs.values():
                self.fns.append(f)
            for c in m.classes.values():
                self.fns += list(c.methods.values()) + list(c.getters.values()) + list(c.setters.values())

    def _scan(self, m):
        for n in m.tree.body:
            self._scan_stmt(m, n)

    def _scan_stmt(self, m, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                m.imports[a.asname or a.name] = ("." * n.level) + (n.module or "") + ":" + a.name
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m.funcs[n.name] = Fn(n, m)
        elif isinstance(n, ast.ClassDef):
            c = Cls(n, m)
            m.classes[n.name] = c
            self.classes[n.name] = c
            for s in n.body:
                if isinstance(s, ast.FunctionDef):
                    decs = []
                    for d in s.decorator_list:
                        if isinstance(d, ast.Name):
                            decs.append(d.id)
                        elif isinstance(d, ast.Attribute):
                            decs.append(d.attr)
                        else:
                            decs.append("?")
                    if "property" in decs or "cached_property" in decs:
                        c.getters[s.name] = Fn(s, m, c, "getter")
                    elif "setter" in decs:
                        c.setters[s.name] = Fn(s, m, c, "setter")
                    elif "staticmethod" in decs:
                        c.methods[s.name] = Fn(s, m, c, "staticmethod")
                    elif "classmethod" in decs:
                        c.methods[s.name] = Fn(s, m, c, "classmethod")
                    else:
                        c.methods[s.name] = Fn(s, m, c, "method")
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = s.value
                            v = s.value
                            # x = property(getx, setx)
                            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property":
                                for i, tab in ((0, c.getters), (1, c.setters)):
                                    if len(v.args) > i and isinstance(v.args[i], ast.Name) and v.args[i].id in c.methods:
                                        tab[t.id] = c.methods[v.args[i].id]
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    m.consts[t.id] = n.value
        elif isinstance(n, (ast.If, ast.Try)):
            for s in n.body:
                self._scan_stmt(m, s)

    def mro(self, c):
        out = [c]
        for b in c.bases:
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def find(self, cname, table, name):
        c = self.classes.get(cname)
        if c is None:
            return None
        for k in self.mro(c):
            f = getattr(k, table).get(name)
            if f is not None:
                return f
        return None

    def method(self, cname, name):
        return self.find(cname, "methods", name)

    def subclass(self, a, b):
        c = self.classes.get(a)
        return c is not None and any(k.name == b for k in self.mro(c))
