"""Legacy classes add nothing and change nothing: every operation of a legacy class resolves to the operation of the
class it stands for, or its override has the same normal form; construction has the same normal form; no model code looks
at the exact class; operations the two families share have one implementation, or an override of the same normal form;
a class that loads a file returns an instance of itself."""
import ast

from .. import diff
from ..interp import Interp
from ..terms import T, sym, subterms
from .common import Found, summary

LEGACY = (("Model", "PerformanceModel"), ("Parallel_Link_Model", "FlexModel"))
TABS = ("methods", "getters", "setters")
# construction and simulation entry points differ between the families by design
OWN = {"__init__", "__repr__"}


def same(A, f, g, k, stand=None):
    """channels in which f differs from g when both run on an object of class k; None when not decided"""
    names = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
    mine = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    I = Interp(A.impl, k, {})
    out = None
    for inline in (False, True):
        a, why = two(A, f, g, k, names, mine, inline)
        if a is None:
            continue
        ds = diff.compare(*a)
        if not ds:
            return []
        out = (out or []) + ds
    if out is None:
        return None
    return [d for d in out if d.kind == "differs"]


def two(A, f, g, k, names, mine, inline):
    import signal
    from ..units import Timeout, _alarm
    from ..interp import GiveUp
    import sys
    sys.setrecursionlimit(20000)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(40)
    try:
        pre = {}
        if g.kind == "classmethod":
            pre[names[0]] = T("cls", k)
        I, s = A.summ(A.impl, g, k, k, inline, pre or None)
        args = {}
        for a, b in zip(mine, names):
            args[a] = s.args[b]
        J, t = A.summ(A.impl, f, k, k, inline, args)
        return (diff.Canon(s), diff.Canon(t)), ""
    except Timeout:
        return None, "analysis budget used up"
    except (GiveUp, RecursionError) as e:
        return None, str(e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def signature(fn):
    a = fn.node.args
    return ([x.arg for x in a.posonlyargs + a.args], [ast.dump(d) for d in a.defaults])


def exact_class(A):
    """expressions that tell an object's exact class: type(x), x.__class__ outside of construction and messages"""
    for m in A.impl.modules.values():
        if m.rel.endswith("weathermap.py"):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Compare):
                for x in [n.left] + n.comparators:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Attribute) and y.attr == "__class__" or \
                                isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "type" and len(y.args) == 1:
                            names = {z.id for c in [n.left] + n.comparators for z in ast.walk(c) if isinstance(z, ast.Name)}
                            lits = {str(z.value) for c in [n.left] + n.comparators for z in ast.walk(c) if isinstance(z, ast.Constant)}
                            if (names | lits) & {"FlexModel", "PerformanceModel", "Model", "Parallel_Link_Model"}:
                                yield m, n


def check(A, prop):
    n, found, dim, seen, sample = 0, [], [], set(), []
    P = A.impl
    for leg, base in LEGACY:
        c, b = P.classes.get(leg), P.classes.get(base)
        if c is None or b is None:
            found.append(Found("legacy-class", leg, "the legacy class %s or the class %s it stands for is gone" % (leg, base)))
            continue
        if b not in P.mro(c):
            found.append(Found("legacy-class", leg, "%s no longer derives from %s" % (leg, base), "%s:%d" % (c.module.rel, c.node.lineno)))
            continue
        for tab in TABS:
            names = set()
            for k in P.mro(b):
                names |= set(getattr(k, tab))
            for k in P.mro(c):
                names |= set(getattr(k, tab))
            for nm in sorted(names):
                n += 1
                f, g = P.find(leg, tab, nm), P.find(base, tab, nm)
                if g is not None and f is not g:
                    what = override(A, f, g, leg, nm)
                    if what is None:
                        dim.append("%s.%s against %s" % (leg, nm, base))
                    elif what:
                        found.append(Found("legacy-override", "%s.%s" % (leg, nm), "%s.%s does not behave like %s.%s: %s" % (
                            leg, nm, base, nm, what), f.where))
                if f is not None:
                    seen.add(f.qual)
        for nm, f in P.find_all(leg, "methods") if hasattr(P, "find_all") else []:
            pass
        sample.append({"class": leg, "stands_for": base})
        # loading builds the class it is called on
        n += 1
        f = P.find(leg, "methods", "load_model_file")
        bad = built(f, (base, leg))
        if f is None or bad:
            found.append(Found("legacy-load", "%s.load_model_file" % leg, "loading through %s builds a %s" % (leg, bad),
                               f.where if f else ""))
    for k in ("FlexModel", "PerformanceModel"):
        c, ms = P.classes.get(k), P.classes.get("_MasterModel")
        if c is None or ms is None:
            continue
        for tab in TABS:
            for nm, f in sorted(getattr(c, tab).items()):
                g = getattr(ms, tab).get(nm)
                if g is None or nm in OWN:
                    continue
                n += 1
                what = override(A, f, g, k, nm)
                if what is None:
                    dim.append("%s.%s against the shared one" % (k, nm))
                elif what:
                    found.append(Found("family-override", "%s.%s" % (k, nm), "%s.%s departs from the shared implementation: %s" % (
                        k, nm, what), f.where))
    for m, x in exact_class(A):
        found.append(Found("exact-class", "%s: %s" % (m.rel, ast.unparse(x)), "behaviour depends on the exact class: %s" %
                           ast.unparse(x), "%s:%d" % (m.rel, x.lineno)))
    return n, found, dim, seen, sample


def override(A, f, g, k, nm):
    """"" when the override cannot be told from the original, what differs otherwise, None when not decided"""
    if f is None:
        return "missing"
    a, b = signature(f), signature(g)
    va = f.node.args.vararg is not None or f.node.args.kwarg is not None
    if not va and (len(a[0]) != len(b[0]) or a[0][1:] != b[0][1:] or a[1] != b[1]):
        return "it takes other arguments or defaults"
    if va:
        return None
    ds = same(A, f, g, k)
    if ds is None:
        return None
    if ds:
        return ", ".join(sorted({d.chan for d in ds}))
    return ""


def built(fn, names):
    """the fixed class a loader instantiates instead of the class it is called on"""
    if fn is None:
        return "nothing"
    for r in ast.walk(fn.node):
        if isinstance(r, ast.Return) and r.value is not None:
            for v in sources(fn.node, r.value, 3):
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in names:
                    return v.func.id
    return ""


def sources(fn, e, depth):
    """the expressions a name may stand for"""
    if isinstance(e, ast.Name) and depth:
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets):
                for x in sources(fn, s.value, depth - 1):
                    yield x
    else:
        yield e
