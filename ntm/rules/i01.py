"""Nothing mutable is shared between models: no function changes a container that belongs to a module or a class, assigns
a module or class variable, or remembers results in a table of its own (the elements of two models compare equal when
their names do); no default argument that can be changed is stored, changed, returned or handed to a constructor."""
import ast

from .common import Found

MAKERS = {"list", "dict", "set", "defaultdict", "OrderedDict", "Counter", "deque", "bytearray", "WeakKeyDictionary"}
MUTATORS = {"append", "add", "update", "extend", "insert", "setdefault", "pop", "popitem", "remove", "discard", "clear",
            "__setitem__", "appendleft", "intersection_update", "difference_update", "symmetric_difference_update",
            "sort", "reverse"}
MEMO = {"cache", "lru_cache", "memoize", "memoized"}


def last(n):
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else ""


def mutable(n, classes):
    if isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(n, ast.Call) and (last(n.func) in MAKERS or last(n.func) in classes)


def functions(tree):
    """(class or None, function) of a module, nested functions belong to their outermost one"""
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield None, n
        elif isinstance(n, ast.ClassDef):
            for f in n.body:
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield n, f


def assigned(n):
    """targets a statement stores to"""
    if isinstance(n, ast.Assign):
        ts = list(n.targets)
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
        ts = [n.target]
    elif isinstance(n, ast.Delete):
        ts = list(n.targets)
    elif isinstance(n, (ast.For, ast.AsyncFor)):
        ts = [n.target]
    elif isinstance(n, ast.NamedExpr):
        ts = [n.target]
    else:
        ts = []
    out = []
    while ts:
        t = ts.pop()
        if isinstance(t, (ast.Tuple, ast.List)):
            ts += t.elts
        elif isinstance(t, ast.Starred):
            ts.append(t.value)
        else:
            out.append(t)
    return out


def changed(fn):
    """expressions whose value a function changes in place, with the line"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            yield n.func.value, n.lineno
        for t in assigned(n):
            if isinstance(t, ast.Subscript):
                b = t.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                yield b, n.lineno
            elif isinstance(n, ast.AugAssign):
                yield t, n.lineno


def alternatives(n):
    if isinstance(n, ast.IfExp):
        return alternatives(n.body) + alternatives(n.orelse)
    if isinstance(n, ast.BoolOp):
        return [y for x in n.values for y in alternatives(x)]
    return [n]


def ofclass(n, cls, classes):
    """the class a value stands for when it is a class itself: Name, cls, type(self), self.__class__"""
    if isinstance(n, ast.Name) and (n.id in classes or n.id == "cls" and cls):
        return n.id if n.id != "cls" else cls.name
    if isinstance(n, ast.Call) and last(n.func) == "type" and len(n.args) == 1 and cls:
        return cls.name
    if isinstance(n, ast.Attribute) and n.attr == "__class__" and cls:
        return cls.name
    return None


def check(A, prop):
    out, seen, functions_seen = [], 0, []
    classes = set(A.impl.classes)
    for m in A.impl.modules.values():
        shared = set()
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and mutable(n.value, classes):
                shared |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for cls, fn in functions(m.tree):
            seen += 1
            where = (cls.name + "." if cls else "") + fn.name
            functions_seen.append(where)
            local = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
            glob = set()
            for n in ast.walk(fn):
                if isinstance(n, ast.Global):
                    glob |= set(n.names)
            for n in ast.walk(fn):
                local |= {t.id for t in assigned(n) if isinstance(t, ast.Name)}
                if isinstance(n, ast.comprehension):
                    local |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            local -= glob

            def find(line, what):
                out.append(Found("shared", where, what, "%s:%d" % (m.rel, line)))
            for n in ast.walk(fn):
                for t in assigned(n):
                    if isinstance(t, ast.Name) and t.id in glob:
                        find(n.lineno, "assigns the module variable %s, which all models share" % t.id)
                    if isinstance(t, ast.Attribute):
                        c = ofclass(t.value, cls, classes - local)
                        if c:
                            find(n.lineno, "assigns the class attribute %s.%s, which all models share" % (c, t.attr))
            for b, line in changed(fn):
                if isinstance(b, ast.Name) and b.id in shared and b.id not in local:
                    find(line, "changes the module container %s, which all models share" % b.id)
                if isinstance(b, ast.Attribute):
                    c = ofclass(b.value, cls, classes - local)
                    if c and owner(A, c, b.attr):
                        find(line, "changes the class container %s.%s, which all models share" % (c, b.attr))
                    elif cls and isinstance(b.value, ast.Name) and b.value.id == "self" and inherited(A, cls.name, b.attr, classes):
                        find(line, "changes the class container %s.%s, which all models share" % (cls.name, b.attr))
            for d in fn.decorator_list:
                f = d.func if isinstance(d, ast.Call) else d
                if last(f) in MEMO and reads(fn):
                    find(fn.lineno, "remembers results for arguments that compare equal, elements of other models included")
            defaults(fn, classes, find)
    return seen, out, [], functions_seen, []


def owner(A, c, attr):
    k = A.impl.classes.get(c)
    for x in (A.impl.mro(k) if k is not None else ()):
        if attr in x.attrs:
            return True
    return False


def inherited(A, c, attr, classes):
    """an attribute of self that is the container of the class: never given to the instance by a constructor"""
    k = A.impl.classes.get(c)
    ks = list(A.impl.mro(k)) if k is not None else []
    if not any(attr in x.attrs and mutable(x.attrs[attr], classes) for x in ks):
        return False
    for x in ks:
        f = x.methods.get("__init__")
        for n in ast.walk(f.node) if f is not None else ():
            if any(isinstance(t, ast.Attribute) and t.attr == attr and last(t.value) == "self" for t in assigned(n)):
                return False
    return True


def reads(fn):
    """whether a function looks at attributes of what it is given"""
    ps = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    return any(isinstance(n, ast.Attribute) and any(isinstance(x, ast.Name) and x.id in ps for x in ast.walk(n.value))
               for b in fn.body for n in ast.walk(b))


def defaults(fn, classes, find):
    a = fn.args
    names = [x.arg for x in a.posonlyargs + a.args]
    pairs = list(zip(reversed(names), reversed(a.defaults))) + [
        (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for p, d in pairs:
        if not mutable(d, classes):
            continue

        def isit(x):
            return any(isinstance(y, ast.Name) and y.id == p for y in alternatives(x))
        rebound = [n.lineno for n in ast.walk(fn) for t in assigned(n) if isinstance(t, ast.Name) and t.id == p and not isinstance(n, ast.AugAssign)]
        if rebound:
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and isit(n.value) and any(isinstance(t, ast.Attribute) for t in n.targets):
                find(n.lineno, "keeps the default value of %s, which every call shares" % p)
            elif isinstance(n, ast.Return) and n.value is not None and isit(n.value):
                find(n.lineno, "returns the default value of %s, which every call shares" % p)
            elif isinstance(n, ast.Call) and (last(n.func) in classes or last(n.func) in ("cls", "__init__")) and (
                    any(isit(x) for x in n.args) or any(isit(k.value) for k in n.keywords)):
                find(n.lineno, "builds an object on the default value of %s, which every call shares" % p)
        for b, line in changed(fn):
            if isinstance(b, ast.Name) and b.id == p:
                find(line, "changes the default value of %s, which every call shares" % p)
