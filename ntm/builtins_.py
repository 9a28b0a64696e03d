"""Builtins, container/str/dict methods and the graph library, as value transformers."""
import ast
from .terms import (T, B, AND, OR, NOT, const, is_const, is_num_const, num, sym, unk, NONE, TRUE, FALSE, add, mul, div, ite,
                    boolt, under, leaves, fmt, subterms, mentions, uid, show, _polyd)
from . import norm as N
from .norm import (tyof, elty, pos, eq, isinst, truth, contains, coll, exists, red, some, card, length, iterate, closep,
                   CLASSES, MODELS)

NUMTY = {"int", "float", "bool", "str", "list", "dict", "set", "tuple"}


def seq_of(c):
    """underlying sequence of a slice"""
    return c


def last_idx(t):
    """len(P) - k  ->  (P, k)"""
    d = _polyd(t)
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            x = m[0][0]
            if x.op in ("len", "card") or x.op == "red" and x.args[0] == "count":
                rest = {k: v for k, v in d.items() if k != m}
                if not rest:
                    return x, 0
                if set(rest) == {()} and rest[()].denominator == 1:
                    return x, int(-rest[()])
    return None


def hasnext(h):
    return N.atom("hasnext", h)


def nxt(h):
    t = T("next", h)
    t.ty = tyof(h)
    return t


def idx(b):
    t = T("idx", b)
    t.ty = "int"
    return t


def range_pieces(I, args):
    lo, hi = (const(0), args[0]) if len(args) == 1 else (args[0], args[1])
    if len(args) > 2 and not is_const(args[2], 1):
        t = T("range", *args)
        b = T("el", uid(), t)
        b.ty = "int"
        return [((b,), 1, b)]
    if is_num_const(lo) and is_num_const(hi) and 0 <= num(hi) - num(lo) <= 12:
        return [((), 1, const(i)) for i in range(int(num(lo)), int(num(hi)))]
    if hi.op == "ite":
        return [(bs, AND(g, h), e) for g, x in leaves(hi) for bs, h, e in range_pieces(I, [lo, x])]
    li = last_idx(hi)
    if li is not None and not is_num_const(lo) and li[0].op in ("len", "card") and li[1] == 0:
        b = T("el", uid(), T("slice", li[0].args[0], lo, NONE))
        return [((b,), 1, add(lo, idx(b)))]
    if li is not None and is_num_const(lo):
        x, k = li
        l = int(num(lo))
        if x.op in ("len", "card"):
            P = x.args[0]
            b = T("el", uid(), P)
            if (l, k) == (0, 0):
                return [((b,), 1, idx(b))]
            if (l, k) == (0, 1):
                return [((b,), hasnext(b), idx(b))]
            if (l, k) == (1, 0):
                return [((b,), hasnext(b), add(idx(b), const(1)))]
        elif (l, k) == (0, 0):
            out = []
            for p in x.args[1]:
                bs, g, e = N.openp(p)
                if not bs:
                    out = None
                    break
                out.append((bs, g, idx(bs[0] if len(bs) == 1 else T("tuple", *bs))))
            if out is not None:
                return out
    t = T("range", lo, hi)
    b = T("el", uid(), t)
    b.ty = "int"
    return [((b,), 1, b)]


def untyped(t):
    """a choice written as a short list or as a tuple is the same choice"""
    if t.op == "coll" and t.args[0] == "list":
        if t.args[1] and all(not bs and g == 1 for bs, g, e in t.args[1]):
            return T("tuple", *[e for bs, g, e in t.args[1]])
        return coll("list", [(bs, g, untyped(e)) for bs, g, e in (N.openp(p) for p in t.args[1])])
    if t.op == "rev":
        return T("rev", untyped(t.args[0]))
    return t


def mk(I, pieces, kind="list"):
    t = I.new(kind)
    I.grow_free(t, pieces)
    return t


def builtin(I, name, args, kw, n):
    a = args[0] if args else None
    if name in ("print", "pprint"):
        return NONE
    if name == "len":
        return measure(I, a)
    if name == "vars" and len(args) == 1:
        return I.getattr(a, "__dict__")
    if name in ("list", "tuple", "set", "frozenset", "iter", "sorted", "reversed"):
        if not args:
            return I.new("set" if name in ("set", "frozenset") else "list")
        if name in ("list", "iter", "tuple") and a.op == "nxp":
            I.maybe_raise("NetworkXNoPath", nopath(a), "nx")
            return a
        if name == "tuple":
            f = I.freeze(a)
            o = I.obj(a)
            if f.op == "coll" and all(not p[0] and p[1] == 1 for p in f.args[1]):
                return T("tuple", *[p[2] for p in f.args[1]])
            return f
        if name == "iter":
            return a
        if name == "sorted":
            key = kw.get("key")
            f = I.freeze(a)
            if f.op != "coll":
                f = coll("list", I.pieces_of(a)) if f.op not in ("unk",) else f
            if key is not None:
                pcs = []
                for bs, g, e in I.pieces_of(a):
                    I.binders += list(bs)
                    kv = I.freeze(I.call(key, [e], {}, n))
                    del I.binders[len(I.binders) - len(bs):]
                    pcs.append((bs, g, T("tuple", kv, I.freeze(e))))
                r = T("sortedby", coll("list", pcs), const(I.truth(kw["reverse"]) == 1 if "reverse" in kw else False))
                return r
            if "reverse" in kw and I.truth(kw["reverse"]) == 1:
                return T("slice", N.sortedt(f), const("rev"), NONE)
            return N.sortedt(f)
        if name == "reversed":
            return T("slice", I.freeze(a), const("rev"), NONE)
        if name in ("set", "frozenset"):
            ps = I.pieces_of(a)
            return mk(I, ps, "set")
        # list(x)
        if a.op in ("sorted", "sortedby", "slice", "splice", "lints"):
            return a if a.op != "lints" else I.copylist(a)
        if a.op == "dict" or I.obj(a) is not None and I.obj(a).kind == "dict":
            return mk(I, I.pieces_of(a))
        return mk(I, I.pieces_of(a))
    if name == "dict":
        t = I.new("dict")
        o = I.obj(t)
        for x in args:
            its = I.items_of(x)
            if its is None:
                for bs, g, e in I.pieces_of(x):
                    o.entries.append((bs, AND(I.live, g), I.unpack(e, 0, 2), I.unpack(e, 1, 2), "set"))
            else:
                for bs, g, k, v in its:
                    o.entries.append((bs, AND(I.live, g), k, v, "set"))
        for k, v in kw.items():
            o.entries.append(((), I.live, const(k), v, "set"))
        return t
    if name == "range":
        return mk(I, range_pieces(I, [I.freeze(x) for x in args]))
    if name == "enumerate":
        start = args[1] if len(args) > 1 else kw.get("start", const(0))
        out = []
        src = I.freeze(a)
        ps = I.pieces_of(a)
        if all(not bs for bs, g, e in ps):
            return mk(I, [((), g, T("tuple", add(start, const(i)), e)) for i, (bs, g, e) in enumerate(ps)])
        for bs, g, e in ps:
            i = idx(bs[-1]) if bs else const(0)
            out.append((bs, g, T("tuple", add(i, start), e)))
        return mk(I, out)
    if name == "zip":
        return zip_(I, args)
    if name in ("sum",):
        ps = I.pieces_of(a)
        if any(I.listish(e) and not N.is_numeric(e) and e.op != "unk" and tyof(e) not in ("num", "int") for bs, g, e in ps) and ps and len(args) > 1:
            out = []
            for bs, g, e in ps:
                for b2, g2, e2 in I.pieces_of(e):
                    out.append((tuple(bs) + tuple(b2), AND(g, g2), e2))
            return mk(I, I.pieces_of(args[1]) + out)
        r = red("sum", [(bs, I.gunder(g, I.live), I.freeze(e)) for bs, g, e in ps])
        st = args[1] if len(args) > 1 else kw.get("start")
        return add(st, r) if st is not None else r
    if name in ("min", "max"):
        return extremum(I, name, args, kw, n)
    if name in ("any", "all"):
        g = 0
        for bs, gg, e in I.pieces_of(a):
            h = I.truth(I.freeze(e))
            g = OR(g, exists([(bs, AND(gg, h if name == "any" else NOT(h)), NONE)]))
        return boolt(g if name == "any" else NOT(g))
    if name == "next":
        f = I.freeze(a)
        q = I.truth(a) if f.op != "coll" else exists(f.args[1])
        if len(args) > 1:
            return ite(q, some(f), args[1])
        I.maybe_raise("StopIteration", NOT(q))
        return some(f)
    if name == "isinstance":
        return boolt(isinst_any(I, a, args[1]))
    if name == "issubclass":
        return unk("issubclass")
    if name == "int":
        if not args:
            return const(0)
        return over_leaves(I, a, lambda x: to_int(I, x))
    if name == "float":
        if not args:
            return const(0)
        return over_leaves(I, a, lambda x: to_float(I, x))
    if name == "round":
        nd = args[1] if len(args) > 1 else kw.get("ndigits", const(0))
        if is_num_const(nd) and num(nd) >= 1:
            return a
        r = T("round", I.freeze(a), I.freeze(nd))
        r.ty = "num"
        return r
    if name == "str":
        if not args:
            return const("")
        if a.op == "const":
            return const(str(a.args[1]))
        if tyof(a) == "str":
            return a
        r = T("str", I.freeze(a))
        r.ty = "str"
        return r
    if name == "bool":
        return boolt(I.truth(a)) if args else FALSE
    if name == "type":
        ty = tyof(a)
        if ty in CLASSES:
            return T("cls", ty)
        if a.op == "new":
            return T("cls", a.args[0])
        return T("classof", I.freeze(a))
    if name == "getattr":
        if len(args) >= 2 and args[1].op == "const":
            v = I.resolve(I.attr_of(a, args[1].args[1], n))
            if len(args) > 2 and v.op == "attr" and N.ATTR.get((norm_cls(tyof(a)), args[1].args[1])) is None:
                return ite(N.atom("hasattr", I.freeze(a), args[1]), v, args[2])
            return v
        if len(args) >= 2 and args[1].op == "ite":
            return over_leaves(I, args[1], lambda x: builtin(I, name, [a, x] + list(args[2:]), kw, n))
        return unk("getattr")
    if name == "hasattr":
        if args[1].op == "const" and N.ATTR.get((norm_cls(tyof(a)), args[1].args[1])) is not None:
            return TRUE
        return boolt(N.atom("hasattr", I.freeze(a), I.freeze(args[1])))
    if name == "setattr":
        if args[1].op == "const":
            I.setattr(a, args[1].args[1], args[2], n)
        else:
            I.event("mut", base=a, name="setattr", value=unk("setattr"))
        return NONE
    if name in ("map", "filter"):
        out = []
        for bs, g, e in I.pieces_of(args[1]):
            I.binders += list(bs)
            l = I.live
            I.live = AND(I.live, g)
            v = I.freeze(I.call(args[0], [e], {}, n)) if not is_const(args[0], None) else e
            I.live = l
            del I.binders[len(I.binders) - len(bs):]
            if name == "map":
                out.append((bs, g, v))
            else:
                out.append((bs, AND(g, I.truth(v)), e))
        return mk(I, out)
    if name == "super":
        return T("super", I.frames[-1].fn.cls.name if I.frames[-1].fn and I.frames[-1].fn.cls else "?")
    if name in ("repr", "hash", "id", "abs", "divmod", "pow", "chr", "ord", "callable", "vars"):
        if name == "repr" and len(args) == 1 and a.op != "const" and tyof(a) not in ("str", "num", "int", "bool", "float"):
            return I.method(a, "__repr__", [], {}, n)
        r = T(name, *[I.freeze(x) for x in args])
        if name == "repr":
            r.ty = "str"
        if name in ("abs", "pow"):
            r.ty = "num"
        return r
    if name == "open":
        return T("file", *[I.freeze(x) for x in args])
    if name.endswith("Error") or name in ("Exception", "BaseException", "StopIteration", "KeyboardInterrupt"):
        return T("exc", name)
    if name == "vars":
        return T("dictof", a)
    I.calls.add(name)
    return T("call", name, *[I.freeze(x) for x in args])


def norm_cls(t):
    return "Model" if t in MODELS else t


def over_leaves(I, v, f):
    if v.op == "ite":
        l = I.live
        g = v.args[0]
        I.live = AND(l, g)
        x = over_leaves(I, v.args[1], f) if I.live else NONE
        lx = I.live
        I.live = AND(l, NOT(g))
        y = over_leaves(I, v.args[2], f) if I.live else NONE
        I.live = OR(lx, I.live)
        return ite(g, x, y)
    return f(v)


def to_int(I, x):
    ty = tyof(x)
    if ty in ("int", "bool") or x.op == "const" and isinstance(x.args[1], int):
        return x
    if x.op == "const" and isinstance(x.args[1], (float, str)):
        try:
            return const(int(x.args[1]))
        except ValueError:
            I.maybe_raise("ValueError", 1)
            return unk("int")
    r = T("int", I.freeze(x))
    r.ty = "int"
    if ty not in ("num",):
        I.maybe_raise("ValueError", N.atom("notint", I.freeze(x)))
    return r


def to_float(I, x):
    ty = tyof(x)
    if x.op == "fspec":
        return x.args[1]
    if x.op == "fmt" and len(x.args) == 1:
        return x.args[0]
    if ty in ("num", "int", "bool") or is_num_const(x):
        return x
    if x.op == "const" and isinstance(x.args[1], str):
        try:
            return const(float(x.args[1]))
        except ValueError:
            I.maybe_raise("ValueError", 1)
            return unk("float")
    if ty == "str":
        r = T("float", I.freeze(x))
        r.ty = "num"
        I.maybe_raise("ValueError", N.atom("notfloat", I.freeze(x)))
        return r
    return x


def isinst_any(I, a, c):
    if c.op == "tuple":
        return OR(*[isinst_any(I, a, x) for x in c.args])
    if a.op == "ite":
        return B.ite(a.args[0], isinst_any(I, a.args[1], c), isinst_any(I, a.args[2], c))
    o = I.obj(a)
    nm = c.args[0] if c.op in ("cls", "builtin") else None
    if c.op == "ext":
        nm = c.args[0].split(".")[-1]
    if nm is None:
        return B.var(unk("isinstance"))
    if o is not None:
        return 1 if o.kind == nm else 0
    if a.op == "new" and c.op == "cls":
        return 1 if I.prog.subclass(a.args[0], nm) else 0
    ty = tyof(a)
    if c.op == "cls" and ty in MODELS and a.op != "new":
        return 1 if I.prog.subclass(I.cls or ty, nm) else 0
    return isinst(I.freeze(a), nm)


def measure(I, a):
    if a.op == "ent":
        a = a.args[1]
    if a.op == "ite":
        return ite(a.args[0], measure(I, a.args[1]), measure(I, a.args[2]))
    o = I.obj(a)
    if o is not None:
        if o.hot and len(I.binders) > o.depth:
            f = I.grown(o)
            if f.op == "coll":
                return card(f)
            r = T("len", f)
            r.ty = "int"
            return r
        if o.dirty:
            return unk(o.dirty)
        if o.kind == "dict":
            its = I.items_of(a)
            return card(coll("set", [(bs, g, k) for bs, g, k, x in its]))
    f = I.freeze(a)
    if f.op == "rev":
        f = f.args[0]
    if f.op == "coll" and f.args[0] == "dmap":
        return card(coll("set", [(bs, g, k) for bs, g, k, x in I.items_of(f)]))
    r = length(f)
    if r.op == "len":
        r.ty = "int"
    return r


def nopath(v):
    return N.atom("nopath", v.args[1], v.args[2], v.args[3]) if v.args[0] == "asp" else 0


def zip_(I, args):
    if len(args) == 2:
        a, b = args
        fb = I.freeze(b)
        fa = I.freeze(a)
        if fb.op == "slice" and len(fb.args) == 3 and is_const(fb.args[1], 1) and is_const(fb.args[2], None) and fb.args[0] is fa:
            h = T("el", uid(), fa)
            return mk(I, [((h,), hasnext(h), T("tuple", h, nxt(h)))])
        if fa.op == "slice" and fb.op == "slice" and fa.args[0] is fb.args[0] and is_const(fb.args[1], 1) and \
                is_const(fa.args[1], None) and is_const(fa.args[2], -1):
            h = T("el", uid(), fa.args[0])
            return mk(I, [((h,), hasnext(h), T("tuple", h, nxt(h)))])
    lists = [I.pieces_of(x) for x in args]
    if all(all(not bs and g == 1 for bs, g, e in l) for l in lists):
        return mk(I, [((), 1, T("tuple", *[l[i][2] for l in lists])) for i in range(min(len(l) for l in lists))])
    fs = [I.freeze(x) for x in args]
    if all(len(l) == 1 and len(l[0][0]) == 1 for l in lists):
        b0 = lists[0][0][0][0]
        if all(l[0][0][0].args[1] is b0.args[1] for l in lists):
            els = [N.subst(l[0][2], {l[0][0][0]: b0}) for l in lists]
            gs = [N.gsubst(l[0][1], {l[0][0][0]: b0}) for l in lists]
            if all(g == gs[0] for g in gs):
                return mk(I, [((b0,), gs[0], T("tuple", *els))])
    t = T("zip", *fs)
    b = T("el", uid(), t)
    return mk(I, [((b,), 1, T("tuple", *[T("index", b, const(i)) for i in range(len(args))]))])


def extremum(I, name, args, kw, n):
    key = kw.get("key")
    if len(args) > 1:
        ps = [((), 1, x) for x in args]
    else:
        ps = I.pieces_of(args[0])
    ps = [(bs, I.gunder(g, I.live), I.freeze(e)) for bs, g, e in ps]
    q = exists([(bs, g, NONE) for bs, g, e in ps])
    if key is not None:
        kps = []
        out = []
        for bs, g, e in ps:
            I.binders += list(bs)
            kv = I.freeze(I.call(key, [e], {}, n))
            del I.binders[len(I.binders) - len(bs):]
            kps.append((bs, g, kv))
            out.append((bs, g, e, kv))
        m = red(name, kps)
        r = some(coll("list", [(bs, AND(g, eq(kv, m)), e) for bs, g, e, kv in out]))
    else:
        r = red(name, ps)
    if "default" in kw:
        return ite(q, r, kw["default"])
    if len(args) == 1:
        I.maybe_raise("ValueError", NOT(q), "empty")
    return r


# ---------------------------------------------------------------- methods on values
def value_method(I, b, name, args, kw, n):
    o = I.obj(b)
    a = args[0] if args else None
    if b.op == "builtin" and b.args[0] == "dict" and name == "fromkeys" and args:
        t = I.new("dict")
        v = args[1] if len(args) > 1 else NONE
        for bs, g, e in I.pieces_of(a):
            I.obj(t).entries.append((tuple(bs), g, I.freeze(e), v, "set"))
        return t
    if o is not None and o.kind == "graph":
        return graph_method(I, b, o, name, args, kw, n)
    if b.op == "graph":
        return graph_term_method(I, b, name, args, kw, n)
    if o is not None and o.kind in ("list", "set"):
        r = list_method(I, b, o, name, args, kw, n)
        if r is not None:
            return r
    if o is not None and o.kind == "dict" or b.op == "dict" or b.op == "coll" and b.args[0] == "dmap":
        r = dict_method(I, b, o, name, args, kw, n)
        if r is not None:
            return r
    if b.op == "adj":
        if b.args[0].op == "graph" and not b.args[0].args[0]:
            return value_method(I, some(I.adjdata(b)), name, args, kw, n)
        data = I.adjdata(b)
        ps = I.pieces_of(data)
        if name == "values":
            return mk(I, ps)
        if name == "items":
            return mk(I, [(bs, g, T("tuple", T("ekey", e), e)) for bs, g, e in ps])
        if name == "keys":
            return mk(I, [(bs, g, T("ekey", e)) for bs, g, e in ps])
        if name == "get":
            return I.index(b, a)
    ty = tyof(b)
    if ty == "str" or b.op in ("fmt", "str") or b.op == "const" and isinstance(b.args[1], str):
        r = str_method(I, b, name, args, kw, n)
        if r is not None:
            return r
    if name in ("format", "split", "strip", "splitlines", "ljust", "rjust", "startswith", "endswith", "lower", "upper",
                "replace", "join") and b.op in ("unk", "sym", "index", "some", "call", "el", "bv", "attr", "strmeth"):
        r = str_method(I, b, name, args, kw, n)
        if r is not None:
            return r
    # collections that are not local objects
    from .interp import MUTATORS
    if name in MUTATORS:
        if name == "reverse" and b.op in ("slice", "coll", "nxp", "sorted"):
            new = T("slice", b, const("rev"), NONE)
            new.ty = b.ty
            rebind(I, n, new)
            return NONE
        if name == "sort" and b.op in ("slice", "coll", "nxp"):
            rebind(I, n, N.sortedt(b))
            return NONE
        owner = b
        if b.op == "coll":
            for k, v in I.attrs.items():
                if under(v, I.live) is b:
                    owner = N.attr(k[0], k[1], 0)
        if name in ("update", "extend", "difference_update"):
            one = "add" if name != "difference_update" else "remove"
            for x in args:
                for bs, g, e in I.pieces_of(x):
                    l0 = I.live
                    I.live = AND(I.live, g)
                    I.binders += list(bs)
                    if I.live:
                        I.event("mut", base=I.entbase(owner), name=one, value=T("tuple", I.freeze(e)))
                    del I.binders[len(I.binders) - len(bs):]
                    I.live = l0
        else:
            nm = "add" if name == "append" else "remove" if name == "discard" else name
            I.event("mut", base=I.entbase(owner), name=nm, value=T("tuple", *[I.freeze(x) for x in args]))
        if b.op == "attr" and name in ("add", "append", "remove", "discard", "update", "extend"):
            own, an = b.args[0], b.args[1]
            if name in ("add", "append"):
                new = coll("set", I.pieces_of(b) + [((), 1, I.freeze(a))])
            elif name in ("update", "extend"):
                new = coll("set", I.pieces_of(b) + I.pieces_of(a))
            else:
                new = coll("set", [(bs, AND(g, NOT(eq(e, I.freeze(a)))), e) for bs, g, e in I.pieces_of(b)])
            if new.op == "coll":
                new.ty = tyof(b)
            I.put(own, an, new)
        elif b.op == "coll" and isinstance(b.ty, tuple):
            # a model set that already grew in this function
            for k, v in list(I.attrs.items()):
                if under(v, I.live) is b:
                    if name in ("add", "append"):
                        new = coll("set", I.pieces_of(b) + [((), 1, I.freeze(a))])
                        if new.op == "coll":
                            new.ty = b.ty
                        I.put(k[0], k[1], new)
        return NONE
    if name in ("union", "__or__"):
        return I.union([b] + args)
    if name in ("intersection", "difference"):
        fb = I.freeze(a)
        return coll("set", [(bs, AND(g, I.contains(e, fb) if name == "intersection" else NOT(I.contains(e, fb))), e)
                            for bs, g, e in I.pieces_of(b)])
    if name == "issubset":
        fb = I.freeze(a)
        return boolt(NOT(exists([(bs, AND(g, NOT(I.contains(e, fb))), NONE) for bs, g, e in I.pieces_of(b)])))
    if name == "copy" and (isinstance(ty, tuple) or b.op in ("coll", "lints", "slice")):
        return I.copylist(b)
    if name == "index":
        x = I.freeze(a)
        f = I.freeze(b)
        lo = I.freeze(args[1]) if len(args) > 1 else None
        part = f if lo is None else T("slice", f, lo, NONE)
        if x.op == "el" and (x.args[1] is part or lo is None and x.args[1].op != "slice"):
            return idx(x) if lo is None else add(lo, idx(x))
        # the first place where it is found
        I.maybe_raise("ValueError", NOT(I.contains(x, part)))
        y = T("el", uid(), part)
        return N.some(coll("list", [((y,), eq(y, x), idx(y) if lo is None else add(lo, idx(y)))]))
    if name == "count":
        return red("count", [(bs, AND(g, eq(e, I.freeze(a))), const(1)) for bs, g, e in I.pieces_of(b)])
    if name in ("items", "values", "keys"):
        return entries(I, I.freeze(b), name)
    if name == "get":
        v = T("index", I.freeze(b), I.freeze(a))
        g = N.atom("in", I.freeze(a), I.freeze(b))
        if b.op == "attr" and b.args[1] == "path":
            return I.index(b, a)
        return ite(g, v, args[1] if len(args) > 1 else NONE)
    if b.op == "file" and name in ("read", "readlines"):
        t = T("filetext", b)
        t.ty = "str"
        return t
    if name in ("close", "flush", "write"):
        return NONE
    I.calls.add(name)
    return T("call", name, I.freeze(b), *([I.freeze(x) for x in args] + [T("tuple", const(k), I.freeze(v)) for k, v in sorted(kw.items())]))


def entries(I, f, name):
    """the keys of a dictionary nothing is known about, and what it has for them"""
    x = T("el", uid(), f)
    v = T("index", f, x)
    return mk(I, [((x,), 1, x if name == "keys" else v if name == "values" else T("tuple", x, v))])


def rebind(I, n, new):
    t = n.func.value if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) else None
    if isinstance(t, ast.Name):
        I.assign_name(t.id, new)


def list_method(I, b, o, name, args, kw, n):
    a = args[0] if args else None
    if name in ("append", "add"):
        if o.kind == "list" and o.pieces and o.pieces[0][2].op == "splice":
            o.dirty = "grown after splice"
            return NONE
        o.pieces.append((I.rel(o), I.live, a))
        return NONE
    if name in ("extend", "update", "__iadd__"):
        for x in args:
            I.grow(b, I.pieces_of(x))
        return NONE
    if name == "insert":
        o.pieces.insert(0, (I.rel(o), I.live, args[1]))
        return NONE
    if name == "copy":
        return I.copylist(b)
    if name in ("remove", "discard"):
        x = I.freeze(a)
        if I.rel(o) or o.kind == "list":
            if o.kind == "set" and not (o.hot and len(I.binders) > o.depth):
                pass
            o.dirty = "removal from a collection in a loop" if I.rel(o) else None
            if o.kind == "list" and not o.dirty:
                o.dirty = "removal from a list"
            return NONE
        l = I.live
        o.pieces = [(bs, AND(g, NOT(AND(l, eq(I.freeze(e), x)))), e) for bs, g, e in o.pieces]
        return NONE
    if name == "clear":
        if I.rel(o):
            o.dirty = "cleared in a loop"
        else:
            l = I.live
            o.pieces = [(bs, AND(g, NOT(l)), e) for bs, g, e in o.pieces if AND(g, NOT(l)) != 0]
        return NONE
    if name == "pop":
        f = I.freeze(b)
        v = some(f) if f.op == "coll" else T("index", f, const(-1))
        I.maybe_raise("IndexError", NOT(I.truth(b)))
        o.dirty = "pop"
        o.version += 1
        return v
    if name == "sort":
        o.version += 1
        if not kw and o.kind == "list" and not I.rel(o):
            o.sorted = (len(o.pieces), o.version)
        return NONE
    if name == "reverse":
        o.rev = not getattr(o, "rev", False)
        o.version += 1
        return NONE
    if name in ("union",):
        return I.union([b] + args)
    return None


def dict_method(I, b, o, name, args, kw, n):
    a = args[0] if args else None
    if name == "copy":
        return I.copylist(b)
    if name in ("items", "values", "keys"):
        its = I.items_of(b)
        if its is None:
            return entries(I, I.freeze(b) if o is None or not o.hot else I.past(o), name)
        if name == "items":
            return mk(I, [(bs, g, T("tuple", k, v)) for bs, g, k, v in its])
        if name == "values":
            return mk(I, [(bs, g, v) for bs, g, k, v in its])
        return mk(I, [(bs, g, k) for bs, g, k, v in its])
    if name == "get":
        d = args[1] if len(args) > 1 else NONE
        return I.lookup(b, a, d)
    if o is None:
        return None
    if name == "setdefault":
        d = args[1] if len(args) > 1 else NONE
        k = I.freeze(a)
        o.entries.append((I.rel(o), I.live, a, d, "setdefault"))
        o.dirty = "setdefault"
        return T("index", T("sofar", "dict"), k)
    if name == "update":
        for x in args:
            its = I.items_of(x)
            if its is None:
                o.dirty = "update"
                return NONE
            for bs, g, k, v in its:
                o.entries.append((I.rel(o) + tuple(bs), AND(I.live, g), k, v, "set"))
        for k, v in kw.items():
            o.entries.append((I.rel(o), I.live, const(k), v, "set"))
        return NONE
    if name == "pop":
        k = I.freeze(a)
        v = I.lookup(b, a, args[1] if len(args) > 1 else None)
        o.entries.append((I.rel(o), I.live, k, NONE, "del"))
        return v
    if name == "clear":
        if I.rel(o):
            o.dirty = "clear"
        else:
            o.entries = []
        return NONE
    return None


def str_method(I, b, name, args, kw, n):
    if name == "format":
        if b.op != "const":
            return None
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(b.args[1]):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                base = field.split(".")[0].split("[")[0]
                rest = field[len(base):]
                if base == "":
                    v = args[auto] if auto < len(args) else unk("format")
                    auto += 1
                elif base.isdigit():
                    v = args[int(base)]
                else:
                    v = kw.get(base, unk("format"))
                if rest:
                    for p in rest.strip(".").split("."):
                        v = I.resolve(I.attr_of(v, p))
                parts.append(I.fmtpart(v, spec or ""))
        except (ValueError, IndexError):
            return unk("format")
        return I.mkfmt(parts or [const("")])
    if name == "join":
        f = I.freeze(args[0])
        if f.op in ("tuple",) or f.op == "coll" and all(not p[0] and p[1] == 1 for p in f.args[1]):
            xs = list(f.args) if f.op == "tuple" else [p[2] for p in f.args[1]]
            parts = []
            for i, x in enumerate(xs):
                if i:
                    parts.append(b)
                parts.append(I.fmtpart(x))
            return I.mkfmt(parts or [const("")])
        t = T("join", I.freeze(b), f)
        t.ty = "str"
        return t
    if name in ("split", "splitlines", "rsplit"):
        t = T("split", I.freeze(b), *[I.freeze(x) for x in args]) if name != "splitlines" else T("splitlines", I.freeze(b))
        t.ty = ("list", "str")
        return t
    if name in ("strip", "lower", "upper", "replace", "ljust", "rjust", "lstrip", "rstrip", "title", "zfill", "center",
                "encode", "decode", "capitalize"):
        t = T("strmeth", name, I.freeze(b), *[I.freeze(x) for x in args])
        t.ty = "str"
        return t
    if name in ("startswith", "endswith", "isdigit", "isnumeric", "isspace"):
        return boolt(N.atom("strtest", name, I.freeze(b), *[I.freeze(x) for x in args]))
    if name in ("index", "find", "count"):
        t = T("strmeth", name, I.freeze(b), *[I.freeze(x) for x in args])
        t.ty = "int"
        return t
    return None


# ---------------------------------------------------------------- graphs
def edge(I, e, extra=None):
    e = I.freeze(e)
    if e.op == "tuple" and len(e.args) == 2:
        return T("tuple", e.args[0], e.args[1], T("dict", ()))
    return e


def graph_method(I, t, o, name, args, kw, n):
    a = args[0] if args else None
    if name in ("add_edges_from", "add_weighted_edges_from"):
        w = kw.get("weight", const("weight"))
        for bs, g, e in I.pieces_of(a):
            e = edge(I, e)
            if name == "add_weighted_edges_from" and e.op == "tuple" and len(e.args) == 3:
                e = T("tuple", e.args[0], e.args[1], T("dict", ((w, e.args[2]),)))
            o.edges.append((I.rel(o) + tuple(bs), AND(I.live, g), e))
        return NONE
    if name == "add_edge":
        d = {}
        for k, v in kw.items():
            if k != "key":
                d[const(k)] = I.freeze(v)
        o.edges.append((I.rel(o), I.live, T("tuple", I.freeze(a), I.freeze(args[1]), N.dictt(d.items()))))
        return NONE
    if name == "add_nodes_from":
        for bs, g, e in I.pieces_of(a):
            o.nodes.append((I.rel(o) + tuple(bs), AND(I.live, g), e))
        return NONE
    if name == "add_node":
        o.nodes.append((I.rel(o), I.live, a))
        return NONE
    if name in ("remove_edge", "remove_edges_from", "remove_node", "remove_nodes_from", "clear"):
        o.dirty = name
        return NONE
    if o.dirty:
        return unk("graph " + o.dirty)
    return graph_term_method(I, I.freeze(t), name, args, kw, n)


def graph_term_method(I, g, name, args, kw, n):
    a = args[0] if args else None
    if name == "edges":
        d = kw.get("data", args[-1] if args else FALSE)
        out = []
        for bs, gg, e in I.pieces_of(g.args[1]):
            if is_const(d, True):
                out.append((bs, gg, e))
            elif d.op == "const" and isinstance(d.args[1], str) and e.op == "tuple":
                out.append((bs, gg, T("tuple", e.args[0], e.args[1], I.index(e.args[2], d))))
            elif e.op == "tuple":
                out.append((bs, gg, T("tuple", e.args[0], e.args[1])))
        return mk(I, out)
    if name == "nodes":
        return mk(I, I.pieces_of(g.args[2]))
    if name == "has_edge":
        r = 0
        u, v = I.freeze(args[0]), I.freeze(args[1])
        for bs, gg, e in I.pieces_of(g.args[1]):
            if e.op == "tuple":
                r = OR(r, exists([(bs, AND(gg, eq(e.args[0], u), eq(e.args[1], v)), NONE)]))
        return boolt(r)
    if name == "get_edge_data":
        return T("adj", g, I.freeze(args[0]), I.freeze(args[1]))
    I.calls.add(name)
    return T("call", "graph." + name, g, *[I.freeze(x) for x in args])


def external(I, path, args, kw, n):
    name = path.split(".")[-1]
    base = path.split(".")[0]
    a = args[0] if args else None
    if name in ("Output", "Input", "State") and "dash" in path:
        x = [args[0] if args else kw.get("component_id"), args[1] if len(args) > 1 else kw.get("component_property")]
        if all(y is not None and y.op == "const" for y in x):
            return T("dep", name, x[0].args[1], x[1].args[1])
    I.extcalls.append((path, args, kw, I.live, n))
    fz = [I.freeze(x) for x in args]
    if name in ("DiGraph", "MultiDiGraph", "Graph", "MultiGraph"):
        t = I.new("graph")
        I.obj(t).multi = name.startswith("Multi")
        if name in ("Graph", "MultiGraph"):
            I.obj(t).dirty = "undirected graph"
        if args:
            I.obj(t).dirty = "copied graph"
        return t

    def arg(i, *names):
        if i < len(fz):
            return fz[i]
        for k in names:
            if k in kw:
                return I.freeze(kw[k])
        return NONE
    if name in ("all_shortest_paths", "shortest_path", "dijkstra_path", "all_simple_paths", "shortest_path_length",
                "dijkstra_path_length", "has_path"):
        g, s, d = arg(0, "G"), arg(1, "source"), arg(2, "target")
        w = arg(3, "weight")
        if name.startswith("dijkstra") and w.op == "const" and w.args[1] is None:
            w = const("weight")
        I.event("nx", name=name, value=T("tuple", g, s, d, w))
        if name == "all_simple_paths":
            t = T("nxp", "simple", g, s, d, arg(3, "cutoff"))
            t.ty = ("list", ("seq", "nodename"))
            return t
        if name == "has_path":
            return boolt(NOT(N.atom("nopath", g, s, d)))
        if name in ("shortest_path_length", "dijkstra_path_length"):
            I.maybe_raise("NetworkXNoPath", N.atom("nopath", g, s, d), "nx")
            t = T("nxlen", g, s, d, w)
            t.ty = "num"
            return t
        t = T("nxp", "asp", g, s, d, w)
        t.ty = ("list", ("seq", "nodename"))
        if name != "all_shortest_paths":
            I.maybe_raise("NetworkXNoPath", N.atom("nopath", g, s, d), "nx")
            return some(t)
        return t
    if path.endswith("itertools.product") or path == "product":
        if len(args) == 1 and args[0].op == "star":
            t = T("combos", untyped(args[0].args[0]))
            t.ty = ("list", ("list", None))
            inner = elty(args[0].args[0])
            if isinstance(inner, tuple):
                t.ty = ("list", ("list", inner[1]))
            return t
        out = [((), 1, ())]
        for x in args:
            nxt_ = []
            for bs, g, es in out:
                for b2, g2, e2 in I.pieces_of(x):
                    nxt_.append((tuple(bs) + tuple(b2), AND(g, g2), es + (e2,)))
            out = nxt_
        return mk(I, [(bs, g, T("tuple", *es)) for bs, g, es in out])
    if path.endswith("chain.from_iterable"):
        out = []
        for bs, g, e in I.pieces_of(a):
            for b2, g2, e2 in I.pieces_of(e):
                out.append((tuple(bs) + tuple(b2), AND(g, g2), e2))
        return mk(I, out)
    if path.endswith("itertools.chain") or path == "chain":
        out = []
        for x in args:
            if x.op == "star":
                for bs, g, e in I.pieces_of(x.args[0]):
                    for b2, g2, e2 in I.pieces_of(e):
                        out.append((tuple(bs) + tuple(b2), AND(g, g2), e2))
            else:
                out += I.pieces_of(x)
        return mk(I, out)
    if name in ("choice",) and "random" in path:
        return some(fz[0])
    if name in ("sample", "choices") and "random" in path:
        return unk("random")
    if name == "defaultdict":
        t = I.new("dict")
        d = args[0] if args else None
        if d is not None and d.op == "builtin":
            I.obj(t).default = d.args[0]
        elif d is not None and d.op == "lam":
            v = I.call(d, [], {}, n)
            I.obj(t).default = "int" if is_const(v, 0) else "list" if I.emptylit(v) else None
        return t
    if name == "Counter":
        t = I.new("dict")
        o = I.obj(t)
        o.default = "int"
        if args:
            for bs, g, e in I.pieces_of(a):
                o.entries.append((bs, g, e, const(1), "acc"))
        return t
    if name == "OrderedDict":
        return builtin(I, "dict", args, kw, n)
    if name in ("pprint",):
        return NONE
    if name == "now" or base in ("datetime", "time"):
        return T("call", "now")
    if name in ("deepcopy", "copy") and base == "copy":
        if name == "copy":
            return I.copylist(a)
        return T("call", "deepcopy", *fz)
    if name in ("fsum",):
        return builtin(I, "sum", args, kw, n)
    if name == "itemgetter" or name == "attrgetter":
        return T("getter", name, *fz)
    I.calls.add(path)
    return T("call", path, *(fz + [T("tuple", const(k), I.freeze(v)) for k, v in sorted(kw.items())]))
