"""Normal forms: atoms, comparisons, comprehension pieces, reductions and substitution.

Every constructor returns a normal form, so that two pieces of source that compute the
same thing in different ways (loop or comprehension, helper or inline, `is True` or
truth, min-filter in one or two passes, index arithmetic or slices) meet in one term.
"""
import itertools
from fractions import Fraction
from .terms import (T, B, AND, OR, NOT, IMP, const, is_const, is_num_const, num, sym, unk, NONE, TRUE, FALSE,
                    _polyd, _mkpoly, cover, add, mul, div, ite, boolt, under, leaves, fmt, subterms, mentions,
                    gmentions, gsub, uid, show, gshow, paths)
from . import terms as _t

# ------------------------------------------------------------------ types
MODEL_SETS = {"interface_objects": "Interface", "node_objects": "Node", "demand_objects": "Demand",
              "rsvp_lsp_objects": "RSVP_LSP", "circuit_objects": "Circuit", "srlg_objects": "SRLG"}
ATTR = {
    ("Interface", "node_object"): "Node", ("Interface", "remote_node_object"): "Node",
    ("Interface", "name"): "str", ("Interface", "cost"): "int", ("Interface", "capacity"): "num",
    ("Interface", "failed"): "bool", ("Interface", "reserved_bandwidth"): "num",
    ("Interface", "reservable_bandwidth"): "num", ("Interface", "rsvp_enabled"): "bool",
    ("Interface", "percent_reservable_bandwidth"): "num", ("Interface", "srlgs"): ("set", "SRLG"),
    ("Interface", "in_ckt"): "bool", ("Interface", "traffic"): "num", ("Interface", "utilization"): "num",
    ("Node", "name"): "str", ("Node", "failed"): "bool", ("Node", "lat"): "num", ("Node", "lon"): "num",
    ("Node", "srlgs"): ("set", "SRLG"), ("Node", "igp_shortcuts_enabled"): "bool",
    ("Demand", "source_node_object"): "Node", ("Demand", "dest_node_object"): "Node",
    ("Demand", "traffic"): "num", ("Demand", "name"): "str", ("Demand", "path"): "dpath",
    ("Demand", "path_detail"): "pdetail",
    ("RSVP_LSP", "source_node_object"): "Node", ("RSVP_LSP", "dest_node_object"): "Node",
    ("RSVP_LSP", "lsp_name"): "str", ("RSVP_LSP", "path"): "lpath", ("RSVP_LSP", "reserved_bandwidth"): "num",
    ("RSVP_LSP", "setup_bandwidth"): "num", ("RSVP_LSP", "effective_metric"): "num",
    ("SRLG", "name"): "str", ("SRLG", "failed"): "bool", ("SRLG", "model"): "Model",
    ("SRLG", "node_objects"): ("set", "Node"), ("SRLG", "interface_objects"): ("set", "Interface"),
    ("WeatherMap", "model"): "Model", ("Circuit", "interface_a"): "Interface", ("Circuit", "interface_b"): "Interface",
}
for _k, _v in MODEL_SETS.items():
    ATTR[("Model", _k)] = ("set", _v)
MODELS = ("FlexModel", "PerformanceModel", "Parallel_Link_Model", "Model", "_MasterModel")
CLASSES = ("Interface", "Node", "Demand", "RSVP_LSP", "SRLG", "Circuit", "Model")


def tyof(t):
    if t.ty is not None:
        return t.ty
    op = t.op
    if op == "const":
        v = t.args[1]
        if v is None:
            return "none"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, (float, Fraction)):
            return "num"
        if isinstance(v, str):
            return "str"
        return None
    if op == "attr" and t.args[1] in NODEATTRS:
        return "Node"
    if op in ("poly",):
        return "num"
    if op == "red":
        return "int" if t.args[0] == "count" else "num"
    if op in ("card", "idx", "len"):
        return "int"
    if op in ("fmt", "str"):
        return "str"
    if op in ("bool", "exists", "in", "eq", "pos"):
        return "bool"
    if op == "attr":
        b = tyof(t.args[0])
        if b in MODELS:
            b = "Model"
        return ATTR.get((b, t.args[1]))
    if op in ("el", "bv"):
        return elty(t.args[1])
    if op == "some":
        return elty(t.args[0])
    if op == "ite":
        a, b = tyof(t.args[1]), tyof(t.args[2])
        if a == b:
            return a
        if a == "none":
            return b
        if b == "none":
            return a
        if a in ("int", "num") and b in ("int", "num"):
            return "num"
        return None
    if op == "new":
        return t.args[0]
    if op == "remote":
        return "Interface"
    if op == "index" and len(t.args) == 2:
        b = tyof(t.args[0])
        if b == "cpaths" and t.args[1].op == "const":
            return {"path": ("list", ("list", "Interface")), "cost": "num"}.get(t.args[1].args[1])
    return None


def is_numeric_coll(c):
    return c.op == "coll" and all(is_numeric(e) or is_num_const(e) for bs, g, e in c.args[1])


def elty(d):
    """type of the elements of a collection term"""
    if d.op in ("rev", "sorted"):
        return elty(d.args[0])
    ty = d.ty if d.ty is not None else tyof(d)
    if isinstance(ty, tuple) and ty[0] in ("set", "list", "seq"):
        return ty[1]
    if ty == "dpath":
        return ("list", "item")
    if d.op == "coll":
        tys = {tyof(e) for bs, g, e in d.args[1]}
        if len(tys) == 1:
            return tys.pop()
        if tys and tys <= {"Interface", "RSVP_LSP", "item"}:
            return "item"
        return None
    if d.op == "lints":
        return "Interface"
    if d.op == "nxp":
        return ("seq", "nodename")
    if d.op in ("combo",):
        return ("list", "Interface")
    if d.op in ("concat", "setof", "slice"):
        return elty(d.args[0])
    return None


def is_numeric(t):
    return tyof(t) in ("num", "int") or (t.op == "ite" and is_numeric(t.args[1]) and is_numeric(t.args[2]))


def int_poly(p):
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for x, e in m:
            if e < 0 or tyof(x) != "int":
                return False
    return True


# ------------------------------------------------------------------ atoms
def atom(op, *args):
    t = T(op, *args)
    t.ty = "bool"
    return B.var(t)


def atom_of(op, *args):
    return T(op, *args)


def over(f, *ts):
    """apply f to the leaves of gated arguments and gather a guard"""
    for i, t in enumerate(ts):
        if t.op == "ite":
            g, a, b = t.args
            l = list(ts)
            l[i] = a
            r = list(ts)
            r[i] = b
            return B.ite(g, over(f, *l), over(f, *r))
    return f(*ts)


def length_of(a):
    """the sequence whose length the comparison a is about"""
    if a.op != "pos":
        return None
    d = _polyd(a.args[0])
    ms = [m for m in d if m != ()]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][0].op == "len":
        return ms[0][0][0].args[0]
    return None


def pos(a, b):
    """guard a > b"""
    return over(_pos, a, b)


def _pos(a, b):
    d = dict(_polyd(a))
    for m, c in _polyd(b).items():
        d[m] = d.get(m, 0) - c
    return pos_poly({k: c for k, c in d.items() if c})


def next_poly(p):
    """index(h) + 1 < len(P)  is  h has a successor in P"""
    if len(p) not in (2, 3):
        return None
    i = l = None
    for m, c in p.items():
        if m == ():
            continue
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            return None
        x = m[0][0]
        if x.op == "idx":
            i = (x.args[0], c)
        elif x.op == "len":
            l = (x.args[0], c)
        else:
            return None
    if i is None or l is None or i[0].op not in ("el", "bv") or i[0].args[1] is not l[0] or i[1] == l[1]:
        return None
    k = p.get((), Fraction(0))
    # len - idx + k > 0
    if l[1] == 1:
        if k >= 0:
            return 1
        if k == -1:
            return atom("hasnext", i[0])
    else:
        # idx - len + k > 0  <=> not (len - idx - k + 1 > 0)
        kk = 1 - k
        if kk >= 0:
            return 0
        if kk == -1:
            return NOT(atom("hasnext", i[0]))
    return None


def _lead(p):
    return min((m for m in p if m != ()), key=lambda m: tuple((a.id, e) for a, e in m))


def pos_poly(p):
    if not p:
        return 0
    if set(p) == {()}:
        return 1 if p[()] > 0 else 0
    h = next_poly(p)
    if h is not None:
        return h
    ms = [m for m in p if m != ()]
    if any(len(m) == 1 and m[0][0].op == "some" for m in ms):
        if all(p[m] > 0 for m in ms):
            k = least(p)
            if k is not None and k > 0:
                return 1
        elif all(p[m] < 0 for m in ms):
            k = least({m: -c for m, c in p.items()})
            if k is not None and k >= 0:
                return 0
    # count(P) > 0 is existence
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0].op in ("red", "card", "len"):
        r = ms[0][0][0]
        c = p[ms[0]]
        k = -p.get((), Fraction(0)) / c          # c*(count - k) > 0
        if r.op == "red" and r.args[0] == "count" or r.op == "card":
            pcs = r.args[1] if r.op == "red" else r.args[0].args[1]
            if c > 0:
                if k < 0:
                    return 1
                if 0 <= k < 1:
                    return exists(pcs)
                v = varied(r, pcs) if 1 <= k < 2 else None
                if v is not None:
                    return v
            else:
                if k <= 0:
                    return 0
                if 0 < k <= 1:
                    return NOT(exists(pcs))
                v = varied(r, pcs) if 1 < k <= 2 else None
                if v is not None:
                    return NOT(v)
        if r.op == "len":
            if c > 0 and k < 0:
                return 1
            if c > 0 and 0 <= k < 1:
                return truth(r.args[0])
            if c < 0 and k <= 0:
                return 0
            if c < 0 and 0 < k <= 1:
                return NOT(truth(r.args[0]))
        # more than k of them is more than each number up to k
        import math
        j = math.floor(k) if c > 0 else math.ceil(k) - 1
        if 1 <= j <= 8:
            base = truth(r.args[0]) if r.op == "len" else exists(pcs)
            v = AND(base, *[atom("pos", _mkpoly({ms[0]: Fraction(1), (): Fraction(-i)})) for i in range(1, j + 1)])
            return v if c > 0 else NOT(v)
    r = repeats(p, ms)
    if r is not None:
        return r
    r = counted(p, ms)
    if r is not None:
        return r
    # index bounds
    if int_poly(p):
        l = _lead(p)
        neg = False
        if p[l] < 0:
            # p > 0  <=>  not (1 - p > 0)
            p = {m: -c for m, c in p.items()}
            p[()] = p.get((), Fraction(0)) + 1
            p = {m: c for m, c in p.items() if c}
            neg = True
        g = 0
        from math import gcd
        for m, c in p.items():
            if m != ():
                g = gcd(g, abs(int(c)))
        if g > 1:
            k = p.get((), Fraction(0))
            # g*q + k > 0 <=> q + floor((k-1)/g)+... : q > -k/g <=> q + ceil(k/g) > 0 for integers q when k>0..
            import math
            kk = math.ceil(Fraction(k) / g)
            p = {m: Fraction(int(c) // g) for m, c in p.items() if m != ()}
            if kk:
                p[()] = Fraction(kk)
        a = atom("pos", _mkpoly(p))
        return NOT(a) if neg else a
    l = _lead(p)
    s = abs(p[l])
    p = {m: c / s for m, c in p.items()}
    return atom("pos", _mkpoly(p))


def least(p):
    """a number the sum is not below: places and lengths are not negative"""
    k = p.get((), Fraction(0))
    for m, c in p.items():
        if m == ():
            continue
        if len(m) != 1 or m[0][1] != 1 or c < 0:
            return None
        x = m[0][0]
        if x.op in ("idx", "len", "card") or x.op == "red" and x.args[0] == "count":
            continue
        if x.op == "some" and x.args[0].op == "coll":
            ks = [least(_polyd(openp(q)[2])) for q in x.args[0].args[1]]
            if not ks or any(y is None for y in ks):
                return None
            k += c * min(ks)
            continue
        return None
    return k


def varied(r, pcs):
    """more than one distinct number: one of them is above the least"""
    if r.op != "card" or len(pcs) != 1 or not is_numeric_coll(r.args[0]):
        return None
    bs, g, e = openp(pcs[0])
    if tyof(e) not in ("num", "int") and e.op != "poly" or g != 1:
        return None
    return exists([(bs, AND(g, pos(e, red("min", pcs))), NONE)])


def counted(p, ms):
    """the number of all elements against the number of those that pass a test"""
    if len(ms) != 2 or any(len(m) != 1 or m[0][1] != 1 for m in ms) or sum(p[m] for m in ms) != 0:
        return None
    for m, w in (ms, ms[::-1]):
        x, y = m[0][0], w[0][0]
        if y.op != "red" or y.args[0] != "count" or len(y.args[1]) != 1:
            continue
        bs, g, e = openp(y.args[1][0])
        if len(bs) != 1 or g == 1:
            continue
        if x.op == "len":
            if x.args[0] is not bs[0].args[1]:
                continue
        elif x.op == "red" and x.args[0] == "count" and len(x.args[1]) == 1:
            cs, h, f = openp(x.args[1][0])
            if len(cs) != 1 or h != 1 or cs[0].args[1] is not bs[0].args[1]:
                continue
        else:
            continue
        c = p[m]
        k = p.get((), Fraction(0)) / abs(c)
        left = lambda: exists([(bs, NOT(g), NONE)])
        if c > 0:                       # all - some + k > 0
            return 1 if k > 0 else left() if k > -1 else None
        return 0 if k <= 0 else NOT(left()) if k <= 1 else None
    return None


def repeats(p, ms):
    """len(L) > len(set(L))  is  L has the same element twice"""
    if len(ms) != 2 or any(len(m) != 1 or m[0][1] != 1 for m in ms) or sum(p[m] for m in ms) != 0:
        return None
    x, y = ms[0][0][0], ms[1][0][0]
    if x.op == "card":
        x, y, ms = y, x, ms[::-1]
    if y.op != "card" or x.op != "red" or x.args[0] != "count" or y.args[0].op != "coll":
        return None
    a, b = x.args[1], y.args[0].args[1]
    if len(a) != 1 or len(b) != 1 or (a[0][0], a[0][1]) != (b[0][0], b[0][1]):
        bs, g, e = openp(b[0]) if len(b) == 1 else (None, None, None)
        if bs is None or closep((bs, g, const(1))) != a[0]:
            return None
    c = p[ms[0]]
    k = p.get((), Fraction(0)) / c       # c*(count - card + k) > 0
    bs, g, e = openp(b[0])
    cs, h, f = openp(b[0])
    dup = exists([(tuple(bs) + tuple(cs), AND(g, h, NOT(AND(*[eq(u, v) for u, v in zip(bs, cs)])), eq(e, f)), NONE)])
    if c > 0:
        if k > 0:
            return 1
        return dup if k == 0 else None
    # card - count - k > 0
    if k >= 0:
        return 0
    return NOT(dup) if k >= -1 else None


def le(a, b):
    return NOT(pos(a, b))


def node_of_name(t):
    """the Node whose name the term is, if it is known"""
    if t.op == "attr" and t.args[1] == "name" and tyof(t.args[0]) == "Node":
        return t.args[0]
    return None


def eq(a, b):
    return over(_eq, a, b)


def _eq(a, b):
    if a is b:
        return 1
    if a.op == "const" and b.op == "const":
        return 1 if (a.args[1] == b.args[1]) else 0
    ta, tb = tyof(a), tyof(b)
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and x.args[1] is None:
            return isnone(y)
        if x.op == "const" and isinstance(x.args[1], bool):
            g = truth(y)
            if tyof(y) == "bool":
                return g if x.args[1] else NOT(g)
            if x.args[1] is True and tyof(y) in ("str",):
                return 0
            return AND(isinst(y, "bool"), g if x.args[1] else NOT(g))
    if ta == "bool" and tb == "bool":
        ga, gb = truth(a), truth(b)
        return B.ite(ga, gb, NOT(gb))
    for x, y in ((a, b), (b, a)):
        # path marker strings
        if x.op == "const" and isinstance(x.args[1], str):
            if tyof(y) in ("lpath", "dpath", "pdetail") and x.args[1].startswith("Unrouted"):
                return unrouted(y)
            if x.args[1].startswith("Unrouted") and y.op in ("dict", "coll", "obj", "concat"):
                return 0
            if y.op == "attr" and y.args[1] == "traffic" and x.args[1] == "Down":
                return atom("eq", y, x)
            if tyof(y) in ("bool", "Interface", "Node", "RSVP_LSP", "Demand", "SRLG"):
                return 0
            if y.op in ("coll", "poly", "red"):
                return 0
        if x.op == "coll" and not x.args[1]:
            return NOT(truth(y)) if tyof(y) != "lpath" else 0
        # a JSON text of a dictionary or a list is never another kind of string
        if x.op == "const" and isinstance(x.args[1], str) and y.op == "call" and y.args[0] == "json.dumps" and \
                len(y.args) > 1 and y.args[1].op in ("dict", "coll") and x.args[1][:1] not in ("{", "["):
            return 0
    if (ta in ("num", "int") or tb in ("num", "int")) and ta not in ("str",) and tb not in ("str",):
        m = min_member(a, b)
        if m is not None:
            return m
        return AND(NOT(pos(a, b)), NOT(pos(b, a)))
    if a.op == "coll" and b.op == "coll" and a.args[0] == b.args[0] == "list" and a.args[1] and b.args[1] and \
            all(not bs and g == 1 for c in (a, b) for bs, g, e in map(openp, c.args[1])):
        if len(a.args[1]) != len(b.args[1]):
            return 0
        return AND(*[eq(openp(x)[2], openp(y)[2]) for x, y in zip(a.args[1], b.args[1])])
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return 0
        return AND(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "dict" and b.op == "dict" and all(k.op == "const" for x in (a, b) for k, v in x.args[0]):
        x, y = dict(a.args[0]), dict(b.args[0])
        if set(x) != set(y):
            return 0
        return AND(*[eq(x[k], y[k]) for k in x])
    na, nb = node_of_name(a), node_of_name(b)
    if na is not None and nb is not None:
        return eq(na, nb)
    if a.op == "new" and b.op == "new" and a.args[0] == b.args[0]:
        if a.args[1] == b.args[1] and len(a.args) == len(b.args):
            return AND(*[eq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
        return 0
    for x, y in ((a, b), (b, a)):
        if x.op == "new" and tyof(y) == x.args[0] and y.op in ("el", "bv"):
            return 0
        if x.op == "new" and tyof(y) in CLASSES and tyof(y) != x.args[0]:
            return 0
    if a.op == "fmt" and b.op == "fmt":
        g = fmt_eq(a, b)
        if g is not None:
            return g
    if ta in CLASSES and tb in CLASSES and ta != tb:
        return 0
    if b.id < a.id:
        a, b = b, a
    return atom("eq", a, b)


def fmt_eq(a, b):
    """equality of strings built from the same literal skeleton, part by part (names are taken not to
    contain the separators; see DESIGN.md)"""
    if len(a.args) != len(b.args):
        return None
    gs = []
    for x, y in zip(a.args, b.args):
        if (x.op == "const") != (y.op == "const"):
            return None
        if x.op == "const":
            if x is not y:
                return None
        else:
            gs.append(eq(x, y))
    return AND(*gs)


def min_member(a, b):
    """v == min(pieces) where v is the measured value of one of them: one comparison only"""
    for v, m in ((a, b), (b, a)):
        if m.op == "red" and m.args[0] in ("min", "max") and v.op != "red":
            for bs, g, e in m.args[1]:
                if match(e, v, bs) is not None or measured(e, v, bs):
                    return NOT(pos(v, m)) if m.args[0] == "min" else NOT(pos(m, v))
    return None


def measured(e, v, bs):
    """v is e of one of the elements"""
    if len(bs) != 1 or v.op != e.op:
        return False
    return any(x.op in ("el", "bv") and x.args[1:] == bs[0].args[1:] and subst(e, {bs[0]: x}) is v for x in subterms(v))


def match(pat, t, bs, env=None):
    """one-way matching of pattern pat (binders bs are its variables) against t"""
    env = {} if env is None else env
    if pat in bs:
        if pat in env:
            return env if env[pat] is t else None
        env[pat] = t
        return env
    if pat is t:
        return env
    if pat.op != t.op or len(pat.args) != len(t.args):
        return None
    if pat.op in ("attr",):
        if pat.args[1] != t.args[1]:
            return None
        return match(pat.args[0], t.args[0], bs, env)
    if pat.op in ("red", "coll", "exists", "ite", "bool"):
        return None
    for x, y in zip(pat.args, t.args):
        if isinstance(x, T) and isinstance(y, T):
            env = match(x, y, bs, env)
            if env is None:
                return None
        elif x != y:
            return None
    return env


def isnone(t):
    if t.op == "ite":
        return over(isnone, t)
    if is_const(t):
        return 1 if t.args[1] is None else 0
    ty = tyof(t)
    if ty is not None and ty != "opt" or t.op in ("obj", "coll", "new", "dict", "tuple", "poly", "fmt", "el", "bv",
                                                   "some", "remote", "red", "graph"):
        return 0
    return atom("isnone", t)


def unrouted(t):
    if t.op == "ite":
        return over(unrouted, t)
    if t.op in ("dict", "coll", "obj", "concat"):
        return 0
    if t.op == "const":
        return 1 if isinstance(t.args[1], str) and t.args[1].startswith("Unrouted") else 0
    return atom("unrouted", t)


def given_item(t):
    """an element of what a routing helper was given"""
    d = t
    while d.op in ("el", "bv"):
        d = d.args[1]
    return d is not t and d.op == "sym"


def isinst(t, cname):
    if t.op == "ite":
        return over(lambda x: isinst(x, cname), t)
    if cname in MODELS:
        ty = tyof(t)
        if ty in MODELS:
            return atom("isinst", t, "PerformanceModel") if ty in ("Model", "_MasterModel") else 1 if ty == cname else 0
        return atom("isinst", t, cname)
    ty = tyof(t)
    if t.op == "const":
        n = type(t.args[1]).__name__
        return 1 if n == cname or (n == "bool" and cname == "int") else 0
    if ty in CLASSES:
        return 1 if ty == cname else 0
    if ty == "item" or ty is None and cname in ("Interface", "RSVP_LSP") and given_item(t):
        # what routes are made of
        if cname == "RSVP_LSP":
            return NOT(atom("isinst", t, "Interface"))
        if cname == "Interface":
            return atom("isinst", t, "Interface")
        return 0
    if t.op in ("coll", "obj") and cname in ("list", "set", "dict", "str"):
        return {"list": 1, "set": 0, "dict": 0, "str": 0}[cname] if t.op == "coll" else atom("isinst", t, cname)
    if t.op == "dict" or ty == "dict":
        return 1 if cname == "dict" else 0
    if ty == "bool":
        return 1 if cname in ("bool", "int") else 0
    if ty == "str":
        return 1 if cname == "str" else 0
    if ty in ("lpath", "dpath"):
        if cname == "str":
            return unrouted(t)
        if cname in ("dict", "list"):
            return NOT(unrouted(t))
    if ty == "int" and cname == "int":
        return 1
    return atom("isinst", t, cname)


def truth(t):
    if t.op == "ite":
        g, a, b = t.args
        return B.ite(g, truth(a), truth(b))
    if t.op == "bool":
        return t.args[0]
    if t.op == "const":
        return 1 if t.args[1] else 0
    if t.op == "coll":
        return exists(t.args[1])
    if t.op in ("dict",):
        return 1 if t.args[0] else 0
    if t.op in ("new", "remote", "graph"):
        return 1
    if t.op == "tuple":
        return 1 if t.args else 0
    if t.op in ("rev", "sorted"):
        return truth(t.args[0])
    if t.op == "split" and len(t.args) > 1:
        return 1
    ty = tyof(t)
    if ty in CLASSES:
        return 1
    if ty in ("num", "int") or t.op == "poly":
        return NOT(AND(NOT(pos(t, const(0))), NOT(pos(const(0), t))))
    if isinstance(ty, tuple) and ty[0] in ("set", "list"):
        d = T("bv", 1, t)
        return exists([((d,), 1, NONE)])
    if ty == "str" and t.op != "sym":
        return NOT(eq(t, const("")))
    return atom("truthy", t)


def contains(x, c):
    """guard x in c"""
    if c.op == "ite":
        g, a, b = c.args
        return B.ite(g, contains(x, a), contains(x, b))
    if x.op == "ite":
        return over(lambda y: contains(y, c), x)
    if c.op in ("tuple",):
        return OR(*[eq(x, y) for y in c.args])
    if c.op == "coll":
        return member(x, c.args[1])
    if x.op == "const" and isinstance(x.args[1], str):
        if tyof(c) in ("lpath", "dpath", "pdetail") and x.args[1].startswith("Unrouted"):
            return unrouted(c)
        if c.op == "const" and isinstance(c.args[1], str):
            return 1 if x.args[1] in c.args[1] else 0
        if c.op == "dict":
            return 1 if any(k is x for k, v in c.args[0]) else 0
        if x.args[1].startswith("Unrouted") and c.op in ("dict", "obj"):
            return 0
    if c.op == "dict":
        return OR(*[eq(x, k) for k, v in c.args[0]])
    if x.op in ("el", "bv") and x.args[1] is c:
        return 1
    if x.op == "some" and x.args[0] is c:
        return 1
    if x.op == "attr" and tyof(x) == "Node" and c.op == "attr" and c.args[1] == "node_objects" and \
            tyof(c.args[0]) in MODELS and x.args[0].op in ("el", "bv"):
        d = x.args[0].args[1]
        if d.op == "attr" and d.args[0] is c.args[0]:
            return 1
    return atom("in", x, c)


def member(x, pieces):
    r = 0
    for p in pieces:
        bs, g, e = openp(p)
        r = OR(r, exists([(bs, AND(g, eq(x, e)), NONE)]))
    return r


# ------------------------------------------------------------------ substitution
def _gs(g, f):
    memo = {}

    def rec(x):
        if x < 2:
            return x
        r = memo.get(x)
        if r is None:
            v, lo, hi = B.nodes[x]
            r = B.ite(f(v), rec(hi), rec(lo))
            memo[x] = r
        return r
    return rec(g)


class Subst(object):
    """capture-free simultaneous replacement of terms by terms, renormalising on the way up"""

    def __init__(self, m, hook=None):
        self.m = m
        self.hook = hook
        self.memo = {}
        self.amemo = {}
        self.keys = frozenset(m)

    def touches(self, t):
        return not self.keys.isdisjoint(subterms(t))

    def g(self, g):
        if g < 2:
            return g
        if self.hook is None and not any(self.touches(a) for a in B.support(g)):
            return g
        return _gs(g, self.a)

    def a(self, v):
        """atom -> guard"""
        r = self.amemo.get(v)
        if r is None:
            r = self._a(v)
            self.amemo[v] = r
        return r

    def _a(self, v):
        if v in self.m:
            return truth(self.m[v])
        if self.hook is None and not self.touches(v):
            return B.var(v)
        op, x = v.op, v.args
        if op == "pos":
            return pos(self.t(x[0]), const(0))
        if op == "eq":
            return eq(self.t(x[0]), self.t(x[1]))
        if op == "isnone":
            return isnone(self.t(x[0]))
        if op == "unrouted":
            return unrouted(self.t(x[0]))
        if op == "isinst":
            return isinst(self.t(x[0]), x[1])
        if op == "truthy":
            return truth(self.t(x[0]))
        if op == "in":
            return contains(self.t(x[0]), self.t(x[1]))
        if op == "exists":
            return exists([self.piece(p) for p in x[0]])
        return atom(op, *[self.t(y) if isinstance(y, T) else y for y in x])

    def piece(self, p):
        bs, g, e = openp(p)
        nbs = []
        m = self
        ext = {}
        for b in bs:
            nd = m.t(b.args[1])
            if nd is b.args[1]:
                nbs.append(b)
            else:
                nb = T("el", uid(), nd)
                nbs.append(nb)
                ext[b] = nb
                m = Subst(dict(self.m, **ext) if False else _merge(self.m, ext), self.hook)
        return tuple(nbs), m.g(g), m.t(e)

    def t(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._t(t)
            if r.ty is None and t.ty is not None and r.op == t.op and r.op in ("sym", "index", "call", "el", "coll"):
                r.ty = t.ty
            self.memo[t] = r
        return r

    def _t(self, t):
        if t in self.m:
            return self.m[t]
        if self.hook is None and not self.touches(t):
            return t
        if self.hook is not None:
            h = self.hook(self, t)
            if h is not None:
                return h
        op, x = t.op, t.args
        if op in ("const", "sym", "unk", "obj", "lv"):
            return t
        if op == "poly":
            r = const(0)
            for m, c in x[0]:
                z = const(c) if c.denominator == 1 else T("const", "Fraction", c)
                for y, e in m:
                    y2 = self.t(y)
                    for _ in range(abs(e)):
                        z = mul(z, y2) if e > 0 else div(z, y2)
                r = add(r, z)
            return r
        if op == "ite":
            return ite(self.g(x[0]), self.t(x[1]), self.t(x[2]))
        if op == "bool":
            return boolt(self.g(x[0]))
        if op == "coll":
            return coll(x[0], [self.piece(p) for p in x[1]])
        if op == "red":
            return red(x[0], [self.piece(p) for p in x[1]])
        if op == "exists":
            return boolt(exists([self.piece(p) for p in x[0]]))
        if op == "fmt":
            return fmt(*[self.t(y) for y in x])
        if op in ATOMS:
            return boolt(self.a(t))
        if op == "el":
            d = self.t(x[1])
            return t if d is x[1] else T("el", x[0], d)
        if op == "dict":
            return T("dict", tuple((self.t(k), self.t(v)) for k, v in x[0]))
        if op == "some":
            return some(self.t(x[0]))
        if op == "card":
            return card(self.t(x[0]))
        if op == "attr":
            return attr(self.t(x[0]), x[1], x[2])
        r = T(op, *[self._arg(y) for y in x])
        return r

    def _arg(self, y):
        if isinstance(y, T):
            return self.t(y)
        if isinstance(y, tuple):
            return tuple(self._arg(z) for z in y)
        return y


ATOMS = ("pos", "eq", "isnone", "unrouted", "isinst", "truthy", "in")
_attrhook = [None]


def attr(b, name, ver=0):
    if b.op == "ite":
        g, x, y = b.args
        return ite(g, attr(x, name, ver), attr(y, name, ver))
    if b.op == "some" and name == "name" and tyof(b) == "Node":
        # the node selected by its name has that name
        c = b.args[0]
        if c.op == "coll" and len(c.args[1]) == 1:
            bs, g, e = openp(c.args[1][0])
            if len(bs) == 1 and e is bs[0]:
                for a in B.support(g):
                    if a.op == "eq" and AND(g, NOT(B.var(a))) == 0:
                        for x, y in (a.args, a.args[::-1]):
                            if x.op == "attr" and x.args[0] is e and x.args[1] == "name" and not mentions(y, e):
                                return y
    if b.op == "remote":
        i = b.args[0]
        if name == "node_object":
            return attr(i, "remote_node_object", 0)
        if name == "remote_node_object":
            return attr(i, "node_object", 0)
        if name == "circuit_id":
            return attr(i, "circuit_id", ver)
    t = T("attr", b, name, ver)
    if t.ty is None and name in NODEATTRS and tyof(b) is None:
        t.ty = "Node"
    return t


NODEATTRS = ("node_object", "remote_node_object", "source_node_object", "dest_node_object")


def _merge(a, b):
    d = dict(a)
    d.update(b)
    return d


def subst(t, m):
    return Subst(m).t(t)


def gsubst(g, m):
    return Subst(m).g(g)


# ------------------------------------------------------------------ pieces
def maxbv(t):
    return max([x.args[0] for x in subterms(t) if x.op == "bv"] or [0])


def gmaxbv(g):
    return max([maxbv(a) for a in B.support(g)] or [0])


def openp(p):
    """bound variables of a closed piece become fresh elements"""
    bs, g, e = p
    if not any(b.op == "bv" for b in bs):
        return p
    m = {}
    nbs = []
    for b in bs:
        s = Subst(m)
        d = s.t(b.args[1]) if m else b.args[1]
        n = T("el", uid(), d)
        n.ty = b.ty
        m[b] = n
        nbs.append(n)
    s = Subst(m)
    return tuple(nbs), s.g(g), s.t(e)


def closep(p):
    bs, g, e = p
    bs = [b for b in bs]
    if not bs:
        return ((), g, e)
    if all(b.op == "bv" for b in bs):
        return (tuple(bs), g, e)
    # order: dependencies first, then domain
    order = []
    rest = list(bs)
    while rest:
        ready = [b for b in rest if not any(mentions(b.args[1], c) for c in rest if c is not b)]
        if not ready:
            ready = rest[:]
        ready.sort(key=lambda b: b.args[1].id)
        order.append(ready[0])
        rest.remove(ready[0])
    k = max(maxbv(e), gmaxbv(g), max(maxbv(b.args[1]) for b in order))
    m = {}
    nbs = []
    for b in order:
        k += 1
        s = Subst(m)
        n = T("bv", k, s.t(b.args[1]))
        m[b] = n
        nbs.append(n)
    s = Subst(m)
    return tuple(nbs), s.g(g), s.t(e)


def window(bs, g, e):
    """elements of L from place s on, told by their place, are the elements of L[s:]"""
    for a in B.support(g):
        if a.op != "pos" or not any(x.op == "idx" for x in subterms(a)):
            continue
        d = _polyd(a.args[0])
        ms = [(m, c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "idx" and m[0][0].args[0] in bs]
        if len(ms) != 1 or abs(ms[0][1]) != 1:
            continue
        m, c = ms[0]
        i, b = m[0][0], m[0][0].args[0]
        if not (AND(g, B.var(a)) == 0 and c == -1 or AND(g, NOT(B.var(a))) == 0 and c == 1) or b.op != "el" or \
                b.args[1].op in ("slice", "coll", "nxp", "rev", "sorted", "sortedby") or mentions(b.args[1], b):
            continue
        rest = _mkpoly({k: v for k, v in d.items() if k != m}) if len(d) > 1 else const(0)
        if any(mentions(rest, x) for x in bs):
            continue
        # not (rest - idx > 0): idx >= rest;  idx + rest > 0: idx >= 1 - rest
        s = rest if c == -1 else add(const(1), mul(const(-1), rest))
        if is_num_const(s):
            continue
        nb = T("el", uid(), T("slice", b.args[1], s, NONE))
        nb.ty = b.ty
        mp = {i: add(s, T("idx", nb)), b: nb}
        g = gsubst(B.restrict(g, a, 0 if c == -1 else 1), mp)
        if isinstance(e, T):
            e = subst(e, mp)
        return window(tuple(T("el", x.args[0], subst(x.args[1], mp)) if mentions(x.args[1], b) else nb if x is b else x for x in bs), g, e)
    return bs, g, e


def split_elt(p):
    bs, g, e = window(*p)
    p = (bs, g, e)
    if e.op == "ite":
        return [(bs, AND(g, h), x) for h, x in leaves(e) if AND(g, h) != 0]
    return [p] if g != 0 else []


def outer(bs, g):
    """what the guard says whatever the binders are"""
    for a in B.support(g):
        if any(mentions(a, b) for b in bs):
            g = OR(B.restrict(g, a, 0), B.restrict(g, a, 1))
    return g


def norm_pieces(pieces, setlike=False):
    out, cond = {}, {}
    order = []
    if setlike:
        pieces = [q for p in pieces for r in opensets(openp(p)) for q in split_elt(r)]
        if len(pieces) > 1:
            pieces = merge_pieces(pieces, lambda e: e)
    for p in pieces:
        for q in split_elt(openp(p)):
            bs, g, e = q
            bs, g, e = under_pair(bs, g, e)
            g = witness(bs, g)
            g, e = settle(bs, g, e)
            if g == 0:
                continue
            if setlike and bs:
                bs, g, e = represent(bs, g, e)
                if len(bs) > 1:
                    bs, g = project(bs, g, e)
                g = subsume(bs, g)
            elif bs:
                g = subsume(bs, g, True)
            c = closep((bs, g, e))
            k = (c[0], c[2])
            h = 1 if setlike else outer(bs, g)
            if k in out:
                if setlike:
                    out[k] = OR(out[k], c[1])
                    continue
                if AND(out[k], c[1]) == 0:
                    # the later one moves forward, or the earlier one back, over what it is never together with
                    mid = order[order.index(k) + 1:]
                    a, b = all(AND(cond[m], h) == 0 for m in mid), all(AND(cond[m], cond[k]) == 0 for m in mid)
                    if a or b:
                        out[k] = OR(out[k], c[1])
                        cond[k] = OR(cond[k], h)
                        if not a:
                            order.remove(k)
                            order.append(k)
                        continue
                k = (c[0], c[2], len(order))
            out[k] = c[1]
            cond[k] = h
            order.append(k)
    r = [(k[0], out[k], k[1]) for k in order if out[k] != 0]
    if setlike:
        r.sort(key=lambda p: (tuple(b.id for b in p[0]), p[2].id))
    else:
        # the alternatives for one element, in whichever order they were written
        i = 0
        while i < len(r):
            j = i + 1
            while j < len(r) and r[i][0] and r[j][0] == r[i][0] and all(AND(r[j][1], r[m][1]) == 0 for m in range(i, j)):
                j += 1
            r[i:j] = sorted(r[i:j], key=lambda p: p[2].id)
            i = j
    return tuple(r)


def opensets(p):
    """elements drawn from a set built by a comprehension are drawn from what it was built from
    (only where repetition does not matter)"""
    bs, g, e = p
    for b in bs:
        c = b.args[1]
        if c.op == "coll" and c.args[0] == "set" and not (len(c.args[1]) == 1 and injective(c.args[1][0])):
            out = []
            for q in c.args[1]:
                ib, ig, ie = openp(q)
                m = {b: ie}
                nb = []
                for x in bs:
                    if x is b:
                        nb += list(ib)
                        continue
                    d = subst(x.args[1], m)
                    if d is x.args[1]:
                        nb.append(x)
                    else:
                        n = T("el", uid(), d)
                        n.ty = x.ty
                        nb.append(n)
                        m[x] = n
                out += opensets((tuple(nb), AND(ig, gsubst(g, m)), subst(e, m)))
            return out
    return [p]


def represent(bs, g, e):
    """an element described through one binder and required to agree with an existing other one is described
    through that one"""
    for a in sorted(B.support(g), key=lambda x: x.id):
        if a.op != "exists" or len(a.args[0]) != 1 or AND(g, NOT(B.var(a))) != 0:
            continue
        ib, ig, ie = openp(a.args[0][0])
        if any(mentions(c.args[1], b) for c in ib for b in bs):
            continue
        eqs = {}
        for q in B.support(ig):
            if q.op == "eq" and AND(ig, NOT(B.var(q))) == 0:
                for x, y in (q.args, q.args[::-1]):
                    if any(mentions(x, b) for b in bs) and not any(mentions(x, c) for c in ib) and \
                            any(mentions(y, c) for c in ib) and not any(mentions(y, b) for b in bs):
                        eqs[x] = y
        if not eqs:
            continue
        was = [b for b in bs if mentions(e, b)]
        e2 = subst(e, eqs)
        if len(was) and not any(mentions(e2, b) for b in was):
            g2 = AND(B.restrict(g, a, 1), ig)
            return tuple(bs) + tuple(ib), g2, e2
    return bs, g, e


def project(bs, g, e):
    """binders that only decide whether an element is there become an existence condition"""
    need = [b for b in bs if mentions(e, b)]
    while True:
        more = [b for b in bs if b not in need and any(mentions(c.args[1], b) for c in need)]
        if not more:
            break
        need += more
    rest = [b for b in bs if b not in need]
    if not rest:
        return bs, g
    return tuple(b for b in bs if b in need), _exists1(rest, g)


def bymember(g):
    """what is known to be in a collection is one of those that something is asked of"""
    if g < 2:
        return g
    sup = sorted(B.support(g), key=lambda x: x.id)
    ins = [a for a in sup if a.op == "in"]
    if not ins:
        return g
    for a in sup:
        if a.op != "exists" or len(a.args[0]) != 1:
            continue
        p = a.args[0][0]
        if len(p[0]) != 1:
            continue
        bs, h, e = openp(p)
        for m in ins:
            if bs[0].args[1] is m.args[1]:
                k = AND(B.var(m), gsubst(h, {bs[0]: m.args[0]}))
                if k:
                    g = B.ite(k, B.restrict(g, a, 1), g)
    return g


def witness(bs, g):
    """an existence condition that the element itself satisfies is true"""
    if g < 2 or not bs:
        return g
    g = bymember(g)
    for a in sorted(B.support(g), key=lambda x: x.id):
        if a.op != "exists" or len(a.args[0]) != 1:
            continue
        p = a.args[0][0]
        if len(p[0]) > len(bs):
            continue
        for m in assignments(openp(p)[:2], bs):
            m, ig = m
            body = gsubst(ig, m)
            g1, g0 = B.restrict(g, a, 1), B.restrict(g, a, 0)
            if AND(g1, NOT(body)) == 0:
                g = OR(g1, AND(NOT(B.var(a)), g0, NOT(body)))
                break
            if g0 != 0 and AND(g0, NOT(body)) == 0:
                g = AND(B.var(a), g1)
                break
    for a in sorted(B.support(g), key=lambda x: x.id):
        if a.op == "pos" and any(mentions(a, b) for b in bs):
            h = another(a, bs, g)
            if h is not None:
                g = B.ite(h, B.restrict(g, a, 1), B.restrict(g, a, 0))
    return g


def another(a, bs, g):
    """more than one of what the element itself is one of: there is another one"""
    d = _polyd(a.args[0])
    ms = [m for m in d if m != ()]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1 or d[ms[0]] != 1 or d.get((), 0) != -1:
        return None
    r = ms[0][0][0]
    if r.op != "red" or r.args[0] != "count" or len(r.args[1]) != 1:
        return None
    ib, ig, ie = openp(r.args[1][0])
    for m, jg in assignments((ib, ig), bs):
        if AND(B.restrict(g, a, 1), NOT(gsubst(jg, m))) == 0:
            return _exists1(list(ib), AND(ig, NOT(AND(*[eq(x, m[x]) for x in ib]))))
    return None


_implies = {}


def implies(a, b, bs):
    """one existence condition implies another (by a mapping of the choices); bs are elements that exist"""
    key = (a, b)
    r = _implies.get(key)
    if r is None:
        r = False
        pa, pb = a.args[0][0], b.args[0][0]
        ib, ig, ie = openp(pa)
        for m, jg in assignments(openp(pb)[:2], list(ib) + [x for x in bs if mentions(a, x)]):
            if AND(ig, NOT(gsubst(jg, m))) == 0:
                r = True
                break
        _implies[key] = r
    return r


def subsume(bs, g, own=False):
    """what follows from an existence condition that holds is not asked again"""
    ex = [a for a in sorted(B.support(g), key=lambda x: x.id) if a.op == "exists" and len(a.args[0]) == 1]
    if len(ex) < 2 or len(ex) > 8:
        return g
    for a in ex:
        for b in ex:
            if a is b or a not in B.support(g) or b not in B.support(g):
                continue
            if own and (any(mentions(b, x) for x in bs) or not any(mentions(a, x) for x in bs)):
                continue
            if {c.id for c in domains(b)} <= {c.id for c in domains(a)} | {x.args[1].id for x in bs} and implies(a, b, bs):
                if not implies(b, a, bs) or a.id < b.id:
                    g = B.ite(B.var(a), B.restrict(g, b, 1), B.restrict(g, a, 0))
    return g


def domains(a):
    return [b.args[1] for b in a.args[0][0][0] if not any(x.op == "bv" for x in subterms(b.args[1]))]


def core(bs, g):
    """choices that another choice can stand in for are not made: (binders, condition)"""
    if len(bs) < 2 or len(bs) > 5 or len(B.support(g)) > 12:
        return None
    for n in (1, 2):
        for out in itertools.combinations(bs, n):
            keep = [b for b in bs if b not in out]
            if not keep or any(mentions(b.args[1], c) for b in keep for c in out):
                continue
            opts = [[k for k in keep if k.args[1] is b.args[1]] for b in out]
            for pick in itertools.product(*opts):
                h = gsubst(g, dict(zip(out, pick)))
                if h and AND(g, NOT(h)) == 0:
                    return keep, h
    return None


def assignments(p, bs):
    ib, ig = p
    ib = order_binders(ib)
    out = []

    def rec(i, m, left):
        if len(out) > 8:
            return
        if i == len(ib):
            out.append((dict(m), ig))
            return
        d = subst(ib[i].args[1], m) if m else ib[i].args[1]
        for b in left:
            if b.args[1] is d:
                m[ib[i]] = b
                rec(i + 1, m, left)
                del m[ib[i]]
    rec(0, {}, list(bs))
    return out


def literals(g):
    """what a guard says outright: {atom: TRUE or FALSE}"""
    r = _lits.get(g)
    if r is None:
        r = {}
        for a in B.support(g):
            if B.restrict(g, a, 0) == 0:
                r[a] = TRUE
            elif B.restrict(g, a, 1) == 0:
                r[a] = FALSE
        _lits[g] = r
    return r


_lits = {}


def selfgiven(g, bs=()):
    """the conditions nested in a guard, knowing the outright ones (binders keep their names)"""
    if g < 2:
        return g
    for _ in range(4):
        ls = literals(g)
        if not ls:
            return g
        for a in sorted(ls, key=lambda x: x.id):
            if any(x is not a and mentions(x, a) for x in B.support(g)):
                v = ls[a] is TRUE
                h = AND(B.var(a) if v else NOT(B.var(a)), gsubst(B.restrict(g, a, v), dict([(a, ls[a])] + [(b, b) for b in bs])))
                if h != g:
                    g = h
                    break
        else:
            return g
    return g


def given(t, g, bs=()):
    """a value where a guard is known to hold (binders keep their names)"""
    t = under(t, g)
    if g < 2:
        return t
    ls = literals(g)
    if not ls:
        return t
    st = subterms(t)
    ls = {a: v for a, v in ls.items() if a in st and a is not t}
    if not ls:
        return t
    for b in bs:
        ls[b] = b
    return subst(t, ls)


def deepgiven(t, g, bs=()):
    """the alternatives of a value, each where it applies"""
    t = given(t, g, bs)
    if t.op == "ite":
        d = {}
        for h, x in leaves(t):
            x = deepgiven(x, AND(g, h), bs)
            d[x] = OR(d.get(x, 0), h)
        return _t.gate(d)
    if t.op in ("dict", "tuple", "arg", "call", "newobj"):
        a = [deepgiven(x, g, bs) if isinstance(x, T) else tuple(_dg(y, g, bs) for y in x) if isinstance(x, tuple) else x
             for x in t.args]
        if a != list(t.args):
            r = T(t.op, *a)
            r.ty = t.ty
            return r
    return t


def _dg(y, g, bs):
    if isinstance(y, T):
        return deepgiven(y, g, bs)
    if isinstance(y, tuple):
        return tuple(_dg(z, g, bs) for z in y)
    return y


def givenbinders(bs, g):
    """binders ranging over what their collections are where the guard holds: (binders, renaming)"""
    ls = literals(g)
    if not ls or not bs:
        return bs, {}
    order = order_binders(bs)
    m = {}
    out = []
    for i, b in enumerate(order):
        d = b.args[1]
        st = subterms(d)
        later = order[i:]
        k = {a: v for a, v in ls.items() if a in st and not any(mentions(a, c) for c in later)}
        if m or k:
            n = subst(subst(d, m) if m else d, dict(k)) if k else subst(d, m)
            if n is not d:
                nb = T("el", uid(), n)
                nb.ty = b.ty
                m[b] = nb
                b = nb
        out.append(b)
    return tuple(out), m


def under_pair(bs, g, e):
    g = selfgiven(g, bs)
    bs, m = givenbinders(bs, g)
    if m:
        g, e = gsubst(g, m), subst(e, m)
    return bs, g, given(e, g, bs)


def coll(kind, pieces):
    ps = norm_pieces(pieces, kind == "set")
    # [x for x in D] is D
    if len(ps) == 1 and len(ps[0][0]) == 1 and ps[0][1] == 1 and ps[0][2] is ps[0][0][0]:
        d = ps[0][0][0].args[1]
        if d.op != "hops":
            return d
    return T("coll", kind, ps)


def gatecolls(kind, l):
    """the choice between collections is a collection of choices"""
    tot, ps, ty = 0, [], l[0][1].ty
    for h, c in l:
        tot = OR(tot, h)
        if c.ty != ty:
            ty = None
        last = -1
        for p in c.args[1]:
            bs, g, e = openp(p)
            bs = tuple(order_binders(bs))
            g = AND(g, h)
            for i, (cb, cg, ce) in enumerate(ps):
                if i <= last and kind == "list":
                    continue
                q = merge_pieces([(cb, cg, ce), (bs, g, e)], lambda e: e)
                if len(q) == 1:
                    ps[i] = q[0]
                    last = i
                    break
            else:
                ps.append((bs, g, e))
                last = len(ps) - 1
    r = coll(kind, drop_given(ps, tot))
    if ty is not None and r.op == "coll":
        r.ty = ty
    return tot, r


def record(ents):
    """a dictionary with constant keys that are all there"""
    if not ents or not all(k.op == "const" for bs, g, k, v, m in ents):
        return None
    d = {}
    for bs, g, k, v, m in ents:
        p, w = d.get(k, (0, None))
        h = exists([(bs, g, NONE)]) if bs else g
        if h == 0:
            continue
        if m == "set":
            if any(mentions(v, b) for b in bs):
                return None
            d[k] = (OR(p, h), v if w is None else ite(h, v, w))
        elif m == "app" and w is not None and w.op == "coll" and w.args[0] == "list":
            d[k] = (p, coll("list", w.args[1] + ((bs, g, v),)))
        elif m == "acc" and w is not None:
            d[k] = (p, add(w, red("sum", [(bs, g, v)])))
        else:
            return None
    if any(p != 1 for p, w in d.values()):
        return None
    return dictt((k, w) for k, (p, w) in d.items())


def dictt(items):
    items = list(items)
    if all(k.op == "const" for k, v in items):
        items.sort(key=lambda kv: kv[0].id)
    return T("dict", tuple(items))


def gatedicts(l):
    """the choice between dictionaries with the same keys"""
    keys = tuple(k for k, v in l[0][1].args[0])
    if any(tuple(k for k, v in c.args[0]) != keys for h, c in l):
        return None
    out = []
    for i, k in enumerate(keys):
        v = None
        for h, c in l:
            x = c.args[0][i][1]
            v = x if v is None else ite(h, x, v)
        out.append((k, v))
    return OR(*[h for h, c in l]), T("dict", tuple(out))


def drop_given(ps, tot):
    """guards under what makes the collection the value at all"""
    if tot == 1:
        return ps
    out = []
    for bs, g, e in ps:
        if AND(tot, NOT(g)) == 0:
            g = 1
        out.append((bs, g, e))
    return out


_t.collgate[0] = gatecolls
_t.collgate[1] = gatedicts


def keepsall(x, y, h, hx):
    """x is what passes a test of the elements of y, and all of them pass it where h holds"""
    if x.args[0] != "list" or len(x.args[1]) != 1:
        return None
    bs, g, e = openp(x.args[1][0])
    if len(bs) != 1 or e is not bs[0] or e.args[1] is not y:
        return None
    for a, v in literals(hx).items():
        if a in B.support(g):
            g = B.restrict(g, a, 1 if v is TRUE else 0)
    if AND(h, exists([(bs, NOT(g), NONE)])) == 0:
        return coll("list", [(bs, g, e)])
    return None


_t.collgate[2] = keepsall


def exists(pieces):
    """guard: some piece has an element"""
    r = 0
    for bs, g, e in merge_pieces([openp(p) for p in pieces], lambda e: None):
        r = OR(r, _exists1(list(bs), g))
    return r


def order_binders(bs):
    order = []
    rest = list(bs)
    while rest:
        ready = [b for b in rest if not any(mentions(b.args[1], c) for c in rest if c is not b)] or rest[:]
        ready.sort(key=lambda b: b.args[1].id)
        order.append(ready[0])
        rest.remove(ready[0])
    return order


def merge_pieces(ps, key):
    """open pieces that range over the same collections for the same element become one piece"""
    out = []
    for bs, g, e in ps:
        if g == 0:
            continue
        ob = order_binders(bs)
        for i, (cb, cg, ce) in enumerate(out):
            if len(cb) != len(ob):
                continue
            m = {}
            for x, y in zip(ob, cb):
                if (subst(x.args[1], m) if m else x.args[1]) is not y.args[1]:
                    break
                if x is not y:
                    m[x] = y
            else:
                if key(subst(e, m) if m else e) is key(ce):
                    out[i] = (cb, OR(cg, gsubst(g, m) if m else g), ce)
                    break
        else:
            out.append((tuple(ob), g, e))
    return out


def settle(bs, g, e=None):
    """what has to equal something fixed outside is called by that name"""
    for a in sorted(B.support(g), key=lambda x: x.id):
        if a.op != "eq":
            continue
        for x, y in (a.args, a.args[::-1]):
            if x in bs or not any(mentions(x, b) for b in bs) or any(mentions(y, b) for b in bs) or y.op == "const":
                continue
            if not (e is not None and mentions(e, x)) and not any(q is not a and mentions(q, x) for q in B.support(g)):
                continue
            if AND(g, NOT(B.var(a))) == 0:
                g = AND(B.var(a), gsubst(B.restrict(g, a, 1), {x: y}))
                if e is not None:
                    e = subst(e, {x: y})
                break
    return g, e


def conjuncts(bs, g):
    """[(binders, guard)] when the condition falls apart into independent ones"""
    comp = [{b} for b in bs]

    def join(xs):
        hit = [c for c in comp if c & xs]
        if len(hit) > 1:
            for c in hit:
                comp.remove(c)
            comp.append(set().union(*hit))
    for b in bs:
        join({b} | {c for c in bs if mentions(b.args[1], c)})
    sup = {a: {b for b in bs if mentions(a, b)} for a in B.support(g)}
    for x in sup.values():
        if x:
            join(x)
    if len(comp) > 1:
        return part(comp, bs, g, sup)
    # atoms over several binders that are mere conjuncts were joined; nothing falls apart
    return None


def part(comp, bs, g, sup):
    """split g over the components when g is the conjunction of its projections"""
    out, tot = [], 1
    for c in comp:
        h = g
        for a, x in sup.items():
            if not (x & c):
                h = OR(B.restrict(h, a, 0), B.restrict(h, a, 1))
        out.append(([b for b in bs if b in c], h))
        tot = AND(tot, h)
    return out if tot == g else None


def placed(a, b):
    """whether an atom looks at where in its sequence an element stands"""
    return any(x.op in ("idx", "next", "hasnext", "prev", "scan") and any(y is b for y in x.args) for x in subterms(a))


def _exists1(bs, g):
    if g == 0:
        return 0
    bs, g, _ = window(tuple(bs), g, NONE)
    # one-point rule
    bs = list(bs)
    changed = True
    while changed:
        changed = False
        for b in bs:
            dep = [c for c in bs if c is not b and mentions(c.args[1], b)]
            if dep or any(placed(a, b) for a in B.support(g)):
                continue
            for a in B.support(g):
                if a.op != "eq":
                    continue
                for x, y in (a.args, a.args[::-1]):
                    if x is b and not mentions(y, b) and AND(g, NOT(B.var(a))) == 0:
                        g = AND(gsubst(g, {b: y}), contains(y, b.args[1]))
                        bs.remove(b)
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
    if g == 0:
        return 0
    if not bs:
        return g
    if g == 1 and len(bs) == 1 and bs[0].args[1].op == "nxp" and bs[0].args[1].args[0] == "asp":
        # there is at least one shortest path, or the search raised
        return NOT(atom("nopath", *bs[0].args[1].args[1:4]))
    if g == 1 and len(bs) == 1 and bs[0].args[1].op in ("sym", "split") and tyof(bs[0].args[1]) is None:
        return atom("truthy", bs[0].args[1])
    ps = opensets((tuple(bs), g, NONE))
    if len(ps) != 1 or len(ps[0][0]) != len(bs) or any(x is not y for x, y in zip(ps[0][0], bs)):
        return exists(ps)
    g = settle(bs, g)[0]
    if g == 0:
        return 0
    # Shannon expansion on atoms that do not mention the binders
    for a in sorted(B.support(g), key=lambda x: x.id):
        if not any(mentions(a, b) for b in bs):
            return B.ite(B.var(a), _exists1(bs, B.restrict(g, a, 1)), _exists1(bs, B.restrict(g, a, 0)))
    g = bymember(g)
    # more than one of what the chosen element is one of
    for a in sorted(B.support(g), key=lambda x: x.id):
        if a.op == "pos":
            h = another(a, bs, g)
            if h is not None:
                return _exists1(bs, witness(bs, B.ite(h, B.restrict(g, a, 1), B.restrict(g, a, 0))))
    # an independent inner existence that every case needs is part of the same choice
    for a in sorted(B.support(g), key=lambda x: x.id):
        if a.op == "exists" and len(a.args[0]) == 1 and AND(g, NOT(B.var(a))) == 0:
            ib, ig, ie = openp(a.args[0][0])
            if not any(mentions(c.args[1], b) for c in ib for b in bs):
                return _exists1(bs + list(ib), AND(B.restrict(g, a, 1), ig))
    # a choice made inside another one is made first
    for c in reversed(bs):
        if any(mentions(c.args[1], b) for b in bs if b is not c) and not any(mentions(b.args[1], c) for b in bs if b is not c):
            return _exists1([b for b in bs if b is not c], _exists1([c], g))
    if len(bs) > 1:
        gs = conjuncts(bs, g)
        if gs is not None:
            r = 1
            for nb, h in gs:
                r = AND(r, _exists1(nb, h))
            return r
    cs = cubes(g)
    if cs is not None and len(cs) > 1:
        return OR(*[_exists1(bs, h) for h in cs])
    h = bestof(bs, g)
    if h is not None:
        return _exists1(bs, h)
    h = core(bs, g)
    if h is not None:
        return _exists1(*h)
    p = closep((tuple(bs), g, NONE))
    # drop binders that occur nowhere and range over a set known through another binder
    t = T("exists", (p,))
    t.ty = "bool"
    return B.var(t)


def bestof(bs, g):
    """there is a least (greatest) one among some exactly when there is one at all: the condition without the demand
    to be the least"""
    for a in sorted(B.support(g), key=lambda x: x.id):
        if a.op not in ("pos", "eq"):
            continue
        if AND(g, NOT(B.var(a))) == 0:
            val = 1
        elif AND(g, B.var(a)) == 0:
            val = 0
        else:
            continue
        rest = B.restrict(g, a, val)
        for r in sorted(subterms(a), key=lambda x: x.id):
            if r.op != "red" or r.args[0] not in ("min", "max") or len(r.args[1]) != 1 or any(mentions(r, b) for b in bs):
                continue
            ib, ig, ie = openp(r.args[1][0])
            if len(ib) != len(bs):
                continue
            for m, _ in assignments((ib, ig), bs):
                if len(set(m.values())) != len(bs) or gsubst(ig, m) != rest:
                    continue
                at = gsubst(B.var(a), {r: subst(ie, m)})
                if at == val:
                    return rest
    return None


CUBES = 8
_cubes = {}


def cubes(g):
    """the products of a small condition: the existence of an alternative is an alternative of existences"""
    r = _cubes.get(g, 0)
    if r == 0:
        r = None
        if len(B.support(g)) <= 10:
            c = cover(g)
            if len(c) <= CUBES:
                r = [AND(*[B.var(a) if v else NOT(B.var(a)) for a, v in x]) for x in c]
        _cubes[g] = r
    return r


def red(op, pieces):
    """sum, prod, min, max, count over pieces"""
    ps = []
    for p in pieces:
        for q in split_elt(openp(p)):
            bs, g, e = q
            if op == "count":
                e = const(1)
            g = witness(bs, g)
            if g != 0:
                ps.append((bs, g, under(e, g)))
    if op in ("sum", "prod", "count"):
        unit = const(0) if op != "prod" else const(1)
        tot = unit
        for bs, g, e in ps:
            v = _red1(op, list(bs), g, e)
            tot = add(tot, v) if op != "prod" else mul(tot, v)
        return tot
    # min / max: pull gates on closed atoms only when there is one piece
    if len(ps) == 1:
        bs, g, e = ps[0]
        if not bs and g == 1:
            return e
    q = norm_pieces(ps, True)
    # min over maxima etc. is left alone
    t = T("red", op, q)
    return t


def _red1(op, bs, g, e):
    if g == 0:
        return const(0) if op != "prod" else const(1)
    if not bs:
        if op == "count":
            return ite(g, const(1), const(0))
        return ite(g, e, const(0) if op == "sum" else const(1))
    for a in sorted(B.support(g), key=lambda x: x.id):
        if not any(mentions(a, b) for b in bs):
            return ite(B.var(a), _red1(op, bs, B.restrict(g, a, 1), e), _red1(op, bs, B.restrict(g, a, 0), e))
    if op == "sum":
        # constants and factors that do not depend on the binders come out
        d = _polyd(e)
        tot = const(0)
        for m, c in d.items():
            inn = tuple((x, k) for x, k in m if any(mentions(x, b) for b in bs))
            nest = [x for x, k in inn if x.op == "red" and x.args[0] in ("sum", "count") and k == 1 and len(x.args[1]) == 1]
            if nest:
                x = nest[0]
                ib, ig, ie = openp(x.args[1][0])
                f = mul(_mkpoly({tuple((y, k) for y, k in m if y is not x): c}), ie)
                tot = add(tot, red("sum", [(tuple(bs) + tuple(ib), AND(g, ig), f)]))
                continue
            outm = tuple((x, k) for x, k in m if not any(mentions(x, b) for b in bs))
            if not inn:
                r = _closered("count", bs, g, const(1))
            else:
                r = _closered("sum", bs, g, _mkpoly({inn: Fraction(1)}))
            tot = add(tot, mul(_mkpoly({outm: c}), r))
        return tot
    return _closered(op, bs, g, e)


def _closered(op, bs, g, e):
    return T("red", op, (closep((tuple(bs), g, e)),))


def some(c):
    """an arbitrary element of a collection term"""
    if c.op == "ite":
        g, a, b = c.args
        return ite(g, some(a), some(b))
    if c.op == "coll":
        ps = c.args[1]
        if len(ps) == 1:
            bs, g, e = openp(ps[0])
            if not bs or not any(mentions(e, b) for b in bs):
                return e
            # selection by identity
            if len(bs) == 1 and e is bs[0]:
                for a in B.support(g):
                    if a.op == "eq" and AND(g, NOT(B.var(a))) == 0:
                        for x, y in (a.args, a.args[::-1]):
                            if x is e and not mentions(y, e):
                                return y
        elif len(ps) > 1:
            # distinct constants under exclusive closed guards
            if all(not p[0] for p in ps):
                gs = [p[1] for p in ps]
                if all(AND(a, b) == 0 for i, a in enumerate(gs) for b in gs[i + 1:]):
                    r = ps[-1][2]
                    for p in ps[:-1]:
                        r = ite(p[1], p[2], r)
                    return r
    t = T("some", c)
    return t


def card(c):
    """number of distinct elements"""
    if c.op == "ite":
        g, a, b = c.args
        return ite(g, card(a), card(b))
    if c.op == "coll":
        ps = c.args[1]
        if len(ps) == 1 and len(ps[0][0]) == 1 and ps[0][2] is ps[0][0][0]:
            return red("count", ps)
        if len(ps) == 1 and not ps[0][0]:
            return ite(ps[0][1], const(1), const(0))
        if not ps:
            return const(0)
    return T("card", c)


def injective(p):
    bs, g, e = p
    return len(bs) == 1 and e is bs[0]


def length(c):
    if c.op == "ite":
        g, a, b = c.args
        return ite(g, length(a), length(b))
    if c.op == "sorted" and len(c.args) == 1:
        return length(c.args[0])
    if c.op == "coll":
        if c.args[0] == "set":
            return card(c)
        return red("count", c.args[1])
    if c.op == "tuple":
        return const(len(c.args))
    if c.op == "const" and isinstance(c.args[1], str):
        return const(len(c.args[1]))
    if c.op == "dict":
        return const(len(c.args[0]))
    ty = tyof(c)
    if isinstance(ty, tuple) and ty[0] == "set" or ty == ("list", "Interface") or c.op in ("lints", "nxp"):
        b = T("el", uid(), c)
        return red("count", [((b,), 1, const(1))])
    return T("len", c)


def sortedt(c):
    if c.op == "ite":
        g, a, b = c.args
        return ite(g, sortedt(a), sortedt(b))
    if c.op == "coll" and not c.args[1]:
        return c
    if c.op == "coll" and c.args[0] == "set":
        c = coll("list", c.args[1])
    if c.op == "sorted":
        return c
    r = T("sorted", c)
    r.ty = c.ty
    return r


def iterate(c):
    """collection term -> list of open pieces"""
    if c.op == "coll":
        if c.args[0] == "set" and not (len(c.args[1]) == 1 and injective(c.args[1][0]) or
                                       all(not p[0] for p in c.args[1])):
            b = T("el", uid(), c)
            return [((b,), 1, b)]
        return [openp(p) for p in c.args[1]]
    if c.op == "tuple":
        return [((), 1, x) for x in c.args]
    if c.op == "const" and isinstance(c.args[1], str):
        return [((), 1, const(ch)) for ch in c.args[1]]
    if c.op == "ite":
        g, a, b = c.args
        return [(bs, AND(g, h), e) for bs, h, e in iterate(a)] + [(bs, AND(NOT(g), h), e) for bs, h, e in iterate(b)]
    if c.op == "dict":
        return [((), 1, k) for k, v in c.args[0]]
    if c.op == "rev":
        return iterate(c.args[0])
    if c.op == "slice" and len(c.args) == 3 and is_const(c.args[1], 1) and is_const(c.args[2], None) and \
            tyof(c.args[0]) == ("seq", "nodename"):
        # the tail of a path: the successors of its elements
        b = T("el", uid(), c.args[0])
        n = T("next", b)
        n.ty = tyof(b)
        return [((b,), atom("hasnext", b), n)]
    if c.op == "concat":
        r = []
        for x in c.args:
            r += iterate(x)
        return r
    b = T("el", uid(), c)
    return [((b,), 1, b)]


# ------------------------------------------------------------------ comparison
def erase(t):
    """forget heap versions"""
    return _eraser.t(t)


def gerase(g):
    return _eraser.g(g)


def _hook(s, t):
    if t.op == "attr" and t.args[2] != 0:
        return attr(s.t(t.args[0]), t.args[1], 0)
    return None


_eraser = Subst({}, _hook)
