"""Gated value-flow analysis: abstract interpretation of the package's syntax trees.

Each statement is visited a bounded number of times, with a guard (the condition under
which it is reached) instead of one visit per path.  A loop body is visited twice, once
to find what it carries around and once with those effects in normal form.  The result
is a summary of a function: its return value, what it raises, and its effects, each with
guard and quantified over the elements of the loops around it.
"""
import ast
import copy
from .terms import (T, B, AND, OR, NOT, IMP, const, is_const, is_num_const, num, sym, unk, NONE, TRUE, FALSE,
                    add, mul, div, ite, boolt, under, leaves, fmt, subterms, mentions, gmentions, uid, show, gshow,
                    _polyd, _mkpoly)
from . import norm as N
MUTATORS = ("add", "append", "remove", "discard", "update", "extend", "clear", "pop", "insert", "sort", "reverse",
            "setdefault", "popitem", "difference_update", "intersection_update")
from .norm import (tyof, elty, pos, le, eq, isnone, unrouted, isinst, truth, contains, coll, exists, red, some, card,
                   length, iterate, subst, gsubst, attr, openp, closep, MODELS, CLASSES)

MAXDEPTH = 14
EXC_UP = {
    "IndexError": ("LookupError",), "KeyError": ("LookupError",), "LookupError": (), "ValueError": (),
    "TypeError": (), "AttributeError": (), "ModelException": (), "UnicodeError": ("ValueError",),
    "NetworkXNoPath": ("NetworkXUnfeasible", "NetworkXAlgorithmError", "NetworkXException"),
    "NodeNotFound": ("NetworkXException",), "StopIteration": (), "ZeroDivisionError": ("ArithmeticError",),
    "NotImplementedError": ("RuntimeError",), "RuntimeError": (), "AssertionError": (),
}


class Obj(object):
    def __init__(self, kind, depth, live):
        self.kind = kind            # list set dict graph
        self.pieces = []            # list/set: (bs, g, elt)
        self.entries = []           # dict: (bs, g, key, val, mode)
        self.edges = []             # graph
        self.nodes = []
        self.multi = False
        self.depth = depth
        self.live = live
        self.hot = False            # read inside a loop that also grows it
        self.hotlevel = 0           # binders of the innermost such loop
        self.frame = None
        self.hotx = False           # no loop around that one grows it
        self.hotn = 0               # pieces it had before
        self.hote = 0               # entries it had before the outermost such loop
        self.default = None
        self.dirty = None           # why its content is not known
        self.hotty = None
        self.version = 0

    def clone(self):
        o = copy.copy(self)
        o.pieces = list(self.pieces)
        o.entries = list(self.entries)
        o.edges = list(self.edges)
        o.nodes = list(self.nodes)
        return o

    def size(self):
        return (len(self.pieces), len(self.entries), len(self.edges), len(self.nodes), self.dirty, self.version)


STICKY = set()


class Event(object):
    __slots__ = ("kind", "base", "name", "value", "acc", "guard", "binders", "via", "where", "fn", "partial", "stack", "seq", "old")

    def __init__(self, kind, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))
        self.kind = kind

    def copy(self, **k):
        e = Event(self.kind)
        for s in self.__slots__:
            setattr(e, s, getattr(self, s))
        for s, v in k.items():
            setattr(e, s, v)
        return e

    def __repr__(self):
        b = " for " + ",".join("%s in %s" % (show(x), show(x.args[1])) for x in self.binders) if self.binders else ""
        g = " if " + gshow(self.guard) if self.guard != 1 else ""
        p = " PARTIAL" if self.partial else ""
        if self.kind == "store":
            s = "%s.%s %s %s (%s)" % (show(self.base), self.name, "+=" if self.acc is not None else ":=",
                                      show(self.acc if self.acc is not None else self.value), self.via)
        elif self.kind == "mut":
            s = "%s %s %s" % (show(self.base), self.name, show(self.value))
        elif self.kind == "raise":
            s = "raise %s" % self.name
        else:
            s = "%s %s %s" % (self.kind, self.name, show(self.value) if self.value is not None else "")
        return "[%s]%s%s%s @%s" % (s, b, g, p, self.where)


def dotted(n):
    return dotted(n.value) + "." + n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else "?"


class Frame(object):
    def __init__(self, fn, cls, env, module):
        self.fn = fn
        self.cls = cls
        self.env = env
        self.module = module
        self.returns = []
        self.gen = None
        self.trydepth = 0
        self.closure = None


class TryFrame(object):
    def __init__(self, handlers):
        self.handlers = handlers
        self.raised = []       # (guard, exc, handler index)


class Loop(object):
    def __init__(self, bs):
        self.bs = bs
        self.brk = []
        self.ret = []          # those of brk that leave the function as well
        self.trys = 0          # try statements around the loop


class Summary(object):
    pass


class GiveUp(Exception):
    pass


INPLACE = {ast.Add: "extend", ast.BitOr: "update", ast.Sub: "difference_update", ast.BitAnd: "intersection_update",
           ast.BitXor: "symmetric_difference_update"}


class Interp(object):
    def __init__(self, prog, cls=None, contracts=None, opaque=(), inline_contract=()):
        self.prog = prog
        self.cls = cls
        self.heap = {}
        self.attrs = {}
        self.vers = {}
        self.vint = {}
        self.live = 1
        self.keep = -1
        self.binders = []
        self.events = []
        self.frames = []
        self.trys = []
        self.loops = []
        self.lambdas = {}
        self.callbacks = []
        self.cbresults = []
        self.cbinputs = {}
        self.extcalls = []
        self.seq = 0
        self.stack = []
        self.notes = []
        self.facts = {}
        self.changed = set()
        self.visited = set()
        self.calls = set()
        self.contracts = contracts or {}
        self.opaque = set(opaque)
        self.inline = set(inline_contract)
        self.newinfo = {}
        self.where = "?"
        self.steps = 0

    # ------------------------------------------------------------ heap
    def new(self, kind):
        i = uid()
        self.heap[i] = Obj(kind, len(self.binders), self.live)
        self.heap[i].frame = self.frames[-1] if self.frames else None
        return T("obj", i)

    def obj(self, t):
        return self.heap.get(t.args[0]) if t.op == "obj" else None

    def rel(self, o):
        return tuple(self.binders[o.depth:])

    def mklist(self, vals, kind="list"):
        t = self.new(kind)
        o = self.obj(t)
        for v in vals:
            o.pieces.append(((), 1, v))
        return t

    def grow(self, t, pieces):
        o = self.obj(t)
        for bs, g, e in pieces:
            o.pieces.append((self.rel(o) + tuple(bs), AND(self.live, g), e))

    def gunder(self, g, c):
        """drop from guard g what context c settles"""
        if g < 2 or c < 2:
            return g
        if AND(c, NOT(g)) == 0:
            return 1
        if AND(c, g) == 0:
            return 0
        for a in B.support(g):
            v = B.var(a)
            if AND(c, NOT(v)) == 0:
                g = B.restrict(g, a, 1)
            elif AND(c, v) == 0:
                g = B.restrict(g, a, 0)
            else:
                for k in (0, 1):
                    h = B.restrict(g, a, k)
                    if h != g and AND(c, h) == AND(c, g):
                        g = h
                        break
        return g

    def freeze(self, t, seen=()):
        """heap references become closed terms"""
        if t.op == "ent":
            return self.unshared(self.freeze(t.args[1], seen))
        if t.op == "ite" and any(x.op in ("obj", "ent") for x in subterms(t)):
            l = self.live
            d = []
            for h, x in leaves(t):
                self.live = AND(l, h)
                d.append((h, self.freeze(x, seen)) if self.live else (h, x))
            self.live = l
            r = d[-1][1]
            for h, x in reversed(d[:-1]):
                r = ite(h, x, r)
            return r
        if t.op == "obj":
            o = self.obj(t)
            if o is None or t in seen:
                return unk("gone object")
            if o.depth <= self.keep:
                return t
            if o.dirty:
                return unk(o.dirty)
            if o.hot and len(self.binders) > o.depth:
                return self.grown(o, t, seen)
            seen = seen + (t,)
            live = AND(self.live, o.live)
            if o.kind in ("list", "set"):
                if getattr(o, "rev", False):
                    o2 = o.clone()
                    o2.rev = False
                    i2 = uid()
                    self.heap[i2] = o2
                    return T("rev", self.freeze(T("obj", i2), seen))
                c = coll(o.kind, [(bs, self.gunder(g, live), self.freeze(e, seen)) for bs, g, e in o.pieces])
                return N.sortedt(c) if getattr(o, "sorted", None) == (len(o.pieces), o.version) else c
            if o.kind == "dict":
                simple = all(not bs and m == "set" and AND(live, NOT(g)) == 0 for bs, g, k, v, m in o.entries)
                if simple:
                    d = {}
                    for bs, g, k, v, m in o.entries:
                        d.pop(k, None)
                        d[k] = self.freeze(v, seen)
                    return N.dictt(d.items())
                ents = [(bs, self.gunder(g, live), self.freeze(k, seen), self.freeze(v, seen), m) for bs, g, k, v, m in o.entries]
                return self.dmap(ents)
            if o.kind == "graph":
                return T("graph", o.multi, coll("list", [(bs, self.gunder(g, live), self.freeze(e, seen)) for bs, g, e in o.edges]),
                         coll("set", [(bs, self.gunder(g, live), self.freeze(e, seen)) for bs, g, e in o.nodes]))
        if t.op in ("const", "sym", "unk", "el", "bv", "attr", "new"):
            return t
        if not any(x.op in ("obj", "ent") for x in subterms(t)):
            return t
        return N.Subst({x: self.freeze(x, seen) for x in subterms(t) if x.op in ("obj", "ent")}).t(t)

    def kept(self, t, bs):
        """what a loop stored, with references to what was made before the loop kept as references"""
        k, self.keep = self.keep, len(self.binders) - len(bs)
        try:
            return self.freeze(t)
        finally:
            self.keep = k

    def grown(self, o, t=None, seen=()):
        """a collection read inside the loop that also grows it: what it held before, what the earlier rounds
        added, what this round has added by now"""
        ps = self.view(o)
        if ps is None:
            return self.past(o)
        if t is not None:
            seen = seen + (t,)
        c = coll(o.kind, [(bs, self.gunder(g, self.live), self.freeze(e, seen)) for bs, g, e in ps])
        return c

    def past(self, o):
        """a collection being filled by a loop, known by what it held before"""
        if o.kind != "dict" or o.dirty or not o.hote:
            return T("sofar", o.kind)
        return T("sofar", o.kind, self.dmap([(bs, self.gfreeze(g), self.freeze(k), self.freeze(v), m)
                                             for bs, g, k, v, m in o.entries[:o.hote]]))

    def inplace(self, o, n, past, bs):
        """a loop over the distinct keys of a dictionary that only replaces the value of the key it is at:
        what it reads at that key is what was there before the loop"""
        own = o.entries[n:]
        if o.dirty or not own or len(bs) != 1 or any(m != "set" or k is not bs[0] for _, _, k, _, m in own):
            return
        src = bs[0].args[1]
        if not (src.op == "coll" and src.args[0] == "set" or isinstance(src.ty, tuple) and src.ty[0] == "set"):
            return
        read = T("index", past, bs[0])
        if not any(mentions(v, read) or gmentions(g, read) for _, g, _, v, _ in own):
            return
        del o.entries[n:]
        fr = []
        for b, g, k, x, m in o.entries:
            f = self.fresh((b, self.gunder(g, self.live), T("tuple", self.freezek(k), self.freeze(x))))
            fr.append((f[0], f[1], f[2].args[0], f[2].args[1], m))
        its = self.fold_entries(fr)
        h, was = 0, None
        for b2, g2, k2, x2 in its:
            v, h2 = self.unify_key(b2, g2, k2, bs[0], x2) if b2 else (x2, AND(g2, eq(k2, bs[0])))
            was = v if was is None else ite(h2, v, was)
            h = OR(h, h2)
        if not self.isin(bs[0], h):
            was = None
        if was is None:
            o.entries += own
            return
        tr = {read: was}
        own = [(b, N.Subst(tr).g(g), k, N.Subst(tr).t(v), m) for b, g, k, v, m in own]
        if all(len(b2) == 1 and k2 is b2[0] and self.isin(k2, self.covered(b, g, k, k2))
               for b, g, k, v, m in own[:1] for b2, g2, k2, x2 in its):
            del o.entries[:]
        o.entries += own

    def isin(self, x, g):
        """is it certain, being one of those it ranges over"""
        y = T("el", uid(), x.args[1])
        y.ty = x.ty
        return AND(exists([((y,), eq(y, x), NONE)]), NOT(g)) == 0

    def view(self, o):
        if not o.hotx or o.kind not in ("list", "set") or o.hotty is None or getattr(o, "rev", False) or \
                getattr(o, "sorted", None) or o.dirty:
            return None
        lb = tuple(self.binders[o.depth:o.hotlevel])
        own = []
        for bs, g, e in o.pieces[o.hotn:]:
            if tuple(bs[:len(lb)]) != lb:
                return None
            own.append(self.fresh((tuple(bs[len(lb):]), g, e)))
        past = T("upto", o.kind, o.hotty, *self.binders[:o.hotlevel])
        past.ty = (o.kind, o.hotty)
        b = T("el", uid(), past)
        b.ty = o.hotty
        return [self.fresh(p) for p in o.pieces[:o.hotn]] + [((b,), 1, b)] + own

    def entbase(self, b):
        """the changed container as which entry of which dictionary it is"""
        if b.op == "ent":
            f = self.freeze(b.args[1])
            self.changed.add(f)
            return T("entry", self.freeze(b.args[0]), f)
        f = self.freeze(b)
        if f.op == "dict":
            self.changed.add(f)
        return f

    def asent(self, k, v):
        if v.op == "ite":
            if any(x.op in ("dict", "coll") for g, x in leaves(v)):
                return ite(v.args[0], self.asent(k, v.args[1]), self.asent(k, v.args[2]))
            return v
        if v.op in ("dict", "coll"):
            r = T("ent", k, v)
            r.ty = v.ty
            return r
        return v

    def dmap(self, ents):
        """the closed form of a dictionary"""
        if any(m == "del" for bs, g, k, v, m in ents) and not any(m in ("acc", "app") for bs, g, k, v, m in ents):
            fr = []
            for bs, g, k, v, m in ents:
                f = self.fresh((bs, g, T("tuple", k, v)))
                fr.append((f[0], f[1], f[2].args[0], f[2].args[1], m))
            ents = [(bs, g, k, v, "set") for bs, g, k, v in self.fold_entries(fr)]
        r = N.record(ents)
        if r is not None:
            return r
        if all(not bs and m == "set" and k.op == "const" for bs, g, k, v, m in ents):
            d = {}
            for bs, g, k, v, m in ents:
                p0, v0 = d.get(k, (0, v))
                d[k] = (OR(p0, g), ite(g, v, v0))
            if all(p == 1 for p, v in d.values()):
                return N.dictt([(k, v) for k, (p, v) in d.items()])
            ps = [closep(((), p, T("tuple", T("mode", "set"), k, v))) for k, (p, v) in d.items() if p != 0]
            return T("coll", "dmap", tuple(sorted(ps, key=lambda p: p[2].args[1].id)))
        if all(m in ("app", "acc") for bs, g, k, v, m in ents) and len({m for bs, g, k, v, m in ents}) == 1:
            ents = self.gathered(ents)
        ents = self.oneloop(ents)
        ps = [(bs, g, T("tuple", T("mode", m), k, v)) for bs, g, k, v, m in ents]
        if len(ps) == 1 and ents[0][4] == "set":
            return T("coll", "dmap", N.norm_pieces(ps, True))
        return T("coll", "dmap", tuple(closep(p) for p in ps))

    def gathered(self, ents):
        """what is gathered under each key from nothing, as the value of the key"""
        out = []
        for bs, g, k, v, m in ents:
            ps = []
            for b2, g2, k2, v2, m2 in ents:
                f = self.fresh((b2, g2, T("tuple", k2, v2)))
                ps.append((f[0], AND(f[1], eq(f[2].args[0], k)), f[2].args[1]))
            out.append((bs, g, k, coll("list", ps) if m == "app" else red("sum", ps), "set"))
        return out

    def oneloop(self, ents):
        """assignments in the exclusive branches of one loop as one assignment"""
        if len(ents) < 2 or any(e[4] != "set" or len(e[0]) != 1 for e in ents):
            return ents
        b0 = ents[0][0][0]
        seen, k0, v0 = 0, None, None
        for bs, g, k, v, m in ents:
            if bs[0].args[1] is not b0.args[1]:
                return ents
            mp = {bs[0]: b0} if bs[0] is not b0 else {}
            if mp:
                g, k, v = N.gsubst(g, mp), N.subst(k, mp), N.subst(v, mp)
            if AND(seen, g) != 0:
                return ents
            k0 = k if k0 is None else ite(g, k, k0)
            v0 = v if v0 is None else ite(g, v, v0)
            seen = OR(seen, g)
        # the last branch stands for what the others leave
        return [((b0,), seen, under(k0, seen), under(v0, seen), "set")]

    def gfreeze(self, g):
        m = {}
        for a in B.support(g):
            for x in subterms(a):
                if x.op == "obj":
                    m[x] = self.freeze(x)
        return gsubst(g, m) if m else g

    # ------------------------------------------------------------ attributes
    DEPS = {"reservable_bandwidth": ("reserved_bandwidth", "capacity", "rsvp_enabled", "percent_reservable_bandwidth"),
            "effective_metric": ("path", "manual_metric", "failed", "cost"), "utilization": ("traffic", "capacity"),
            "manual_metric": ("initial_manual_metric",)}

    def cvers(self, name, c):
        return max(self.vers.get((c, name), 0), self.vers.get((None, name), 0))

    def ver(self, name, c=None):
        c = "Model" if c in MODELS else c if c in CLASSES else None
        v = self.cvers(name, c)
        if name in self.DEPS:
            k = (name, v) + tuple(self.cvers(d, c) for d in self.DEPS[name])
            if name == "effective_metric":
                k += (self.cvers("cost", "Interface"), self.cvers("failed", "Interface"))
            if not any(k[1:]):
                return 0
            return self.vint.setdefault(k, len(self.vint) + 1000)
        return v

    def bump(self, name, c=None):
        if isinstance(name, tuple):
            c, name = name
        c = "Model" if c in MODELS else c if c in CLASSES else None
        self.vers[(c, name)] = uid()

    def canon_attr(self, cname, name):
        """_x of a class whose property x returns it is the attribute x"""
        if name.startswith("_") and cname:
            c = "FlexModel" if cname == "Model" and "FlexModel" in self.prog.classes else cname
            g = self.prog.find(c, "getters", name[1:])
            if g is not None and self.plain_getter(g, name):
                return name[1:]
        return name

    plain = {}

    def plain_getter(self, g, storage):
        """the property reads the stored attribute and does nothing else"""
        if trivial_getter(g.node, storage):
            return True
        k = (g.node, storage)
        if k not in Interp.plain:
            Interp.plain[k] = False
            J = Interp(self.prog, self.cls, {})
            try:
                s = J.run(g)
                v = s.ret
                if v.op == "round" and is_num_const(v.args[1]) and num(v.args[1]) >= 1:
                    v = v.args[0]
                Interp.plain[k] = s.end == 1 and not s.events and v.op == "attr" and v.args[1] == storage and \
                    v.args[0].op == "sym" and v.args[0].args[0] == g.node.args.args[0].arg
            except (GiveUp, RecursionError):
                pass
        return Interp.plain[k]

    def getattr(self, b, name):
        if b.op == "ite":
            return ite(b.args[0], self.getattr(b.args[1], name), self.getattr(b.args[2], name))
        cname = tyof(b)
        if isinstance(cname, tuple):
            cname = None
        if b.op == "cls":
            return T("classattr", b.args[0], name)
        name = self.canon_attr(cname, name)
        k = (b, name)
        if k in self.attrs:
            return under(self.attrs[k], self.live)
        if cname:
            pc = self.cls if cname in MODELS and self.cls and b.op != "new" else cname
            g = self.prog.find(pc, "getters", name) if pc else None
            if g is not None and not self.plain_getter(g, "_" + name) and ("%s.%s" % (g.cls.name, name)) not in self.opaque \
                    and name not in ("reservable_bandwidth", "utilization", "manual_metric"):
                return self.call_fn(g, [b], {}, None)
        if cname == "SRLG" and name == "model" and b.op != "new":
            # an SRLG taken from a model's own SRLGs belongs to that model
            for x in subterms(b):
                if x.op == "attr" and x.args[1] == "srlg_objects" and x.args[0].op == "sym":
                    return x.args[0]
        if b.op == "new" and cname in CLASSES + MODELS and name not in self.DEPS:
            return attr(b, name, self.ver(name, cname))
        return attr(b, name, self.ver(name, cname))

    def alias(self, b, c):
        """may two different base terms denote the same object"""
        if b is c:
            return True
        tb, tc = tyof(b), tyof(c)
        if tb in MODELS and tc in MODELS:
            return b.op != "new" and c.op != "new"
        if tb is not None and tc is not None and tb != tc and tb in CLASSES and tc in CLASSES:
            return False
        if b.op == "new" and c.op in ("new", "sym", "remote", "el"):
            return False
        if c.op == "new" and b.op in ("new", "sym", "remote", "el"):
            return False
        return True

    def setattr(self, b, name, v, node=None, raw=None):
        if b.op == "ite":
            g0 = self.live
            for g, x in leaves(b):
                self.live = AND(g0, g)
                if self.live:
                    self.setattr(x, name, v, node)
            self.live = g0
            return
        cname = tyof(b)
        if isinstance(cname, tuple):
            cname = None
        orig = name
        name = self.canon_attr(cname, name)
        via = "raw" if name != orig else "plain"
        setter = None
        if cname and name == orig:
            pc = self.cls if cname in MODELS and self.cls and b.op != "new" else cname
            setter = self.prog.find(pc, "setters", name)
            if setter is not None:
                via = "setter"
        if setter is not None and self.frames and self.frames[-1].fn is setter and sum(1 for f in self.frames if f.fn is setter) < 2:
            self.call_fn(setter, [b, v], {}, None)
            return
        old = self.getattr_raw(b, name)
        acc = None
        if tyof(old) in ("num", "int") or name in ("traffic", "reserved_bandwidth", "_reserved_bandwidth"):
            if v.op not in ("const",):
                d = add(v, old, -1)
                if not mentions(d, old):
                    acc = d
        self.event("store", base=b, name=name, value=v, acc=acc, via=via, old=old)
        if setter is not None and setter not in [f.fn for f in self.frames]:
            if name == "failed" and cname in ("Interface", "Node") and not is_const(v, True):
                self.maybe_raise("ModelException", atom_refuse(b), "setter")
        self.put(b, name, v, via)

    def getattr_raw(self, b, name):
        k = (b, name)
        if k in self.attrs:
            return under(self.attrs[k], self.live)
        return attr(b, name, self.ver(name, tyof(b)))

    def put(self, b, name, v, via="plain"):
        old = self.attrs.get((b, name))
        if old is None:
            old = self.getattr_raw(b, name)
        for k in list(self.attrs):
            if k[1] == name and k[0] is not b and self.alias(k[0], b):
                del self.attrs[k]
        cn = tyof(b)
        if b.op != "new":
            self.bump(name, cn if not isinstance(cn, tuple) else None)
        if via == "setter" and name in ("setup_bandwidth", "manual_metric"):
            self.attrs.pop((b, name), None)
            nv = attr(b, name, self.ver(name, cn))
            self.attrs[(b, name)] = ite(self.live, nv, old)
        elif via == "setter" and name == "failed" and not is_const(v, True):
            nv = attr(b, name, self.ver(name, cn))
            self.attrs[(b, name)] = ite(self.live, nv, old)
        else:
            self.attrs[(b, name)] = ite(self.live, v, old)
        if via == "setter" and name == "failed":
            for k in list(self.attrs):
                if k[1] == "reserved_bandwidth":
                    del self.attrs[k]
            self.bump("reserved_bandwidth", "Interface")
        for d, deps in self.DEPS.items():
            if name in deps:
                for k in list(self.attrs):
                    if k[1] == d:
                        del self.attrs[k]

    def event(self, kind, **k):
        self.seq += 1
        e = Event(kind, guard=self.live, binders=tuple(self.binders), where=self.where,
                  fn=self.frames[-1].fn.qual if self.frames and self.frames[-1].fn else "?",
                  stack=tuple(f.fn.qual for f in self.frames if f.fn), seq=self.seq, **k)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ raising
    def catches(self, handler, exc):
        names = handler
        if names is None:
            return True
        ups = (exc,) + EXC_UP.get(exc, ()) + ("Exception", "BaseException")
        return any(n in ups for n in names)

    def caught_at(self, exc):
        for i in range(len(self.trys) - 1, -1, -1):
            if any(self.catches(h, exc) for h in self.trys[i].handlers):
                return i
        return None

    def do_raise(self, exc, g, tag=None):
        g = AND(self.live, g)
        if g == 0:
            return
        for t in reversed(self.trys):
            for i, h in enumerate(t.handlers):
                if self.catches(h, exc):
                    t.raised.append((g, exc, i))
                    self.live = AND(self.live, NOT(g))
                    return
        l = self.live
        self.live = g
        self.event("raise", name=exc, via=tag)
        self.live = AND(l, NOT(g))
        self.frames[-1].returns.append((g, None, None)) if False else None
        self.uncaught.append(g)

    def maybe_raise(self, exc, g, tag=None):
        """implicit exceptions matter only where something catches them"""
        for t in reversed(self.trys):
            for h in t.handlers:
                if self.catches(h, exc):
                    self.do_raise(exc, g, tag)
                    return
        if tag == "lookup":
            self.do_raise(exc, g, tag)
        elif tag == "column":
            # the line has the columns that are read without further ado
            for a in B.support(g):
                if B.restrict(g, a, 0) == 1 and not self.counted(a):
                    self.facts[a] = TRUE

    def counted(self, a):
        """whether the path here was chosen by the number of columns"""
        k = N.length_of(a)
        return k is not None and any(N.length_of(x) is k for x in B.support(self.live))

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, selfty=None, kwargs=None):
        """summary of a function with symbolic arguments"""
        self.uncaught = []
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = []
        args = args or {}
        for i, n in enumerate(names):
            if n in args:
                vals.append(args[n])
            elif i == 0 and fn.kind in ("method", "getter", "setter"):
                vals.append(sym(n, selfty or (fn.cls.name if fn.cls else None)))
            elif i == 0 and fn.kind == "classmethod":
                vals.append(T("cls", selfty or fn.cls.name))
            else:
                vals.append(sym(n, self.param_type(fn, n)))
        for x in a.kwonlyargs:
            kwargs = dict(kwargs or {})
            kwargs.setdefault(x.arg, args.get(x.arg, sym(x.arg)))
        self.entry = fn
        s = Summary()
        s.fn = fn
        s.args = dict(zip(names, vals))
        s.ret = self.call_fn(fn, vals, kwargs or {}, None, entry=True)
        s.ret = self.freeze(s.ret)
        if self.callbacks:
            self.run_callbacks()
        for path, a, kw, live, n in self.extcalls:
            i = kw.get("id")
            if i is not None and i.op == "const" and path.startswith("dash"):
                self.event("call", base=const(path.split(".")[-1]), name="component %s" % (i.args[1],), value=T(
                    "tuple", *[T("arg", k, self.freeze(kw[k])) for k in ("elements", "options", "value") if k in kw]))
        s.end = self.live
        for e in self.events:
            for f in ("base", "value", "acc", "old"):
                v = getattr(e, f)
                if isinstance(v, T):
                    setattr(e, f, self.freeze(v))
            e.guard = self.gfreeze(e.guard)
        s.events = self.events
        s.attrs = {k: self.freeze(v) for k, v in self.attrs.items()}
        s.notes = self.notes
        return s

    PTYPES = {"lsp": "RSVP_LSP", "demand": "Demand", "demand_object": "Demand", "dmd": "Demand", "interface": "Interface",
              "node_object": "Node", "node": "Node", "srlg": "SRLG", "ckt": "Circuit", "circuit": "Circuit",
              "interface_a": "Interface", "interface_b": "Interface", "node_a_object": "Node", "node_b_object": "Node",
              "source_node_object": "Node", "dest_node_object": "Node", "remote_node_object": "Node",
              "other_node": "Node",
              "source_node_name": "str", "dest_node_name": "str", "node_name": "str", "interface_name": "str",
              "needed_bw": "num", "requested_bandwidth": "num", "traff_on_each_group_lsp": "num",
              "traffic_in_demand_group": "num", "traffic": "num", "cutoff": "int", "srlg_name": "str",
              "raise_exception": "bool", "create_if_not_present": "bool", "include_failed_circuits": "bool",
              "dmds": ("list", "Demand"), "interface_list": ("list", "Interface"),
              "rsvp_required": "bool", "return_exception": "bool", "lsps": ("list", "RSVP_LSP"),
              "lsps_for_demand": ("list", "RSVP_LSP"), "routed_lsps_in_group": ("list", "RSVP_LSP"),
              "failed": "bool", "local_node_name": "str", "remote_node_name": "str", "lsp_name": "str",
              "demand_name": "str", "name": "str", "interface_objects": ("set", "Interface"),
              "node_objects": ("set", "Node"), "demand_objects": ("set", "Demand"), "rsvp_lsp_objects": ("set", "RSVP_LSP"),
              "node_line": "str", "demand_line": "str", "line": "str", "start_index": "int", "lsp_info_begin_index": "int",
              "int_info_begin_index": "int", "lines": ("list", "str"), "node_set": ("set", "Node"),
              "interface_set": ("set", "Interface"), "demand_set": ("set", "Demand"), "lsp_set": ("set", "RSVP_LSP"),
              "candidate_paths": "cpaths", "utilization": "num", "cost": "any", "capacity": "any",
              "shortest_path_item_set": ("set", "item"), "G": "graph",
              "nx_sp": ("list", ("seq", "nodename")), "node_paths": ("list", ("seq", "nodename"))}

    def param_type(self, fn, n):
        if n in ("model", "input_model") or n == "non_failed_interfaces_model":
            return self.cls or "Model"
        if fn.kind == "setter":
            return None
        if fn.cls is not None and fn.name == "__init__" and fn.cls.name in CLASSES and n in (
                "traffic", "cost", "capacity", "failed"):
            return None
        t = self.PTYPES.get(n)
        if n in ("interface_objects", "node_objects", "demand_objects", "rsvp_lsp_objects"):
            return None
        return None if t == "any" else t

    # ------------------------------------------------------------ calling
    def call_fn(self, fn, args, kw, node, entry=False, closure=None):
        if len(self.frames) > MAXDEPTH or sum(1 for f in self.frames if f.fn is fn) > 1:
            self.notes.append("call depth at %s" % fn.qual)
            return unk("call depth")
        memo = False
        if not getattr(fn, "raw", False):
            for d in getattr(fn.node, "decorator_list", ()):
                nm = dotted(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
                if nm in ("cache", "lru_cache", "cached_property", "memoize", "memoized"):
                    memo = True
            w = self.wrapped(fn)
            if w is not None:
                return self.call(w, args, kw, node)
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if closure is not None:
            env = closure
        fr = Frame(fn, fn.cls, env, fn.module)
        defaults = a.defaults
        off = len(names) - len(defaults)
        bound = {}
        for i, n in enumerate(names):
            if i < len(args):
                bound[n] = args[i]
            elif n in kw:
                bound[n] = kw[n]
            elif i >= off:
                bound[n] = self.default(fn, defaults[i - off])
            else:
                bound[n] = unk("missing argument")
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            bound[x.arg] = kw[x.arg] if x.arg in kw else (self.default(fn, d) if d is not None else unk("missing"))
        if a.vararg:
            bound[a.vararg.arg] = self.mklist(list(args[len(names):]))
        if a.kwarg:
            have = set(names) | {x.arg for x in a.kwonlyargs}
            bound[a.kwarg.arg] = self.new("dict") if entry is False else unk("kwargs")
            if entry is False:
                o = self.obj(bound[a.kwarg.arg])
                for k in kw:
                    if k not in have:
                        o.entries.append(((), 1, const(k), kw[k], "set"))
        env.update(bound)
        self.frames.append(fr)
        self.visited.add(fn.qual)
        l0 = self.live
        w0 = self.where
        loops0, self.loops = self.loops, []
        try:
            if is_generator(fn.node):
                fr.gen = self.new("list")
            if isinstance(fn.node, ast.Lambda):
                v = self.val(fn.node.body)
                fr.returns.append((self.live, v))
                self.live = 0
            else:
                self.block(fn.node.body)
        finally:
            self.loops = loops0
        end = self.live
        self.frames.pop()
        self.where = w0
        rets = fr.returns
        r = NONE
        tot = end
        for g, v in reversed(rets):
            r = ite(g, v, r)
            tot = OR(tot, g)
        self.live = tot
        if fr.gen is not None:
            return fr.gen
        if memo:
            f = self.freeze(under(r, self.live))
            if any(x.op == "attr" for x in subterms(f)):
                # what was true when it was first asked
                return T("call", "remembered", f)
        return under(r, self.live)

    def wrapped(self, fn):
        """what the decorators of the repository make of a function, None without any"""
        ds = []
        for d in getattr(fn.node, "decorator_list", ()):
            f = d.func if isinstance(d, ast.Call) else d
            if isinstance(f, ast.Name) and f.id not in ("property", "staticmethod", "classmethod"):
                ds.append(d)
        if not ds or fn.module is None:
            return None
        fr = Frame(fn, None, {}, fn.module)
        self.frames.append(fr)
        try:
            got = [self.ev(d) for d in ds]
            got = [v for v in got if v.op in ("func", "lam")]
            if not got:
                return None
            i = uid()
            self.lambdas[i] = (fn.node, {}, Frame(None, fn.cls, {}, fn.module))
            v = T("lam", i)
            for d in reversed(got):
                v = self.call(d, [v], {}, fn.node)
            return v if v.op in ("lam", "func") else None
        finally:
            self.frames.pop()

    def default(self, fn, node):
        fr = Frame(fn, fn.cls, {}, fn.module)
        self.frames.append(fr)
        try:
            return self.ev(node)
        finally:
            self.frames.pop()

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.live == 0:
                break
            self.stmt(s)

    def assign_name(self, n, v):
        env = self.frames[-1].env
        old = env.get(n)
        if old is None or self.live == 1:
            env[n] = v
        else:
            env[n] = ite(self.live, v, old)

    def assign(self, target, v):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    self.assign(t.value, unk("starred"))
                else:
                    self.assign(t, self.unpack(v, i, n))
        elif isinstance(target, ast.Attribute):
            b = self.val(target.value)
            self.mark(target)
            self.setattr(b, target.attr, v)
        elif isinstance(target, ast.Subscript):
            b = self.val(target.value)
            self.setitem(b, target.slice, v)
        else:
            self.notes.append("assignment to %s" % type(target).__name__)

    def mark(self, node):
        m = self.frames[-1].module.rel if self.frames and self.frames[-1].module else "?"
        self.where = "%s:%d" % (m, getattr(node, "lineno", 0))

    def unpack(self, v, i, n):
        if v.op == "ite":
            return ite(v.args[0], self.unpack(v.args[1], i, n), self.unpack(v.args[2], i, n))
        if v.op == "tuple":
            if len(v.args) == n:
                return v.args[i]
        if v.op == "coll" and len(v.args[1]) == n and all(not p[0] and p[1] == 1 for p in v.args[1]):
            return v.args[1][i][2]
        o = self.obj(v)
        if o is not None and o.kind == "list" and len(o.pieces) == n and all(not p[0] for p in o.pieces):
            return o.pieces[i][2]
        f = self.freeze(v)
        if self.trys and (f.op == "split" or f.op == "coll" and any(x.op == "split" for x in subterms(f))):
            return unk("number of parts")       # a wrong number of them raises where somebody may be listening
        return self.index(f, const(i))

    def setitem(self, b, sl, v):
        if b.op == "ite":
            l = self.live
            for g, x in leaves(b):
                self.live = AND(l, g)
                if self.live:
                    self.setitem(x, sl, v)
            self.live = l
            return
        o = self.obj(b)
        if isinstance(sl, ast.Slice):
            if o is not None and o.kind == "list":
                lo = self.val(sl.lower) if sl.lower else const(0)
                hi = self.val(sl.upper) if sl.upper else NONE
                if self.rel(o):
                    # replaced again and again: what was replaced by what, in order
                    x = T("el", uid(), T("spliced", self.freeze(lo), self.freeze(hi), self.freeze(v)))
                    o.pieces.append((self.rel(o) + (x,), self.live, x))
                    o.version += 1
                    return
                prev = self.freeze(b)
                o.dirty = None
                o.pieces = [((), 1, T("splice", prev, lo, hi, self.freeze(v)))]
                o.version += 1
                o.spliced = True
            else:
                self.event("mut", base=self.freeze(b), name="splice", value=T("tuple", *[
                    self.freeze(self.val(x)) if x is not None else NONE for x in (sl.lower, sl.upper)] + [self.freeze(v)]))
            return
        k = self.val(sl)
        if o is not None and o.kind == "dict":
            o.entries.append((self.rel(o), self.live, k, v, "set"))
            return
        if o is not None:
            o.dirty = "element assignment"
            return
        v = self.freeze(v)
        k = self.freeze(k)
        fb = self.entbase(b)
        d = add(v, T("index", fb, k), -1) if tyof(v) in ("num", "int") or v.op == "poly" else None
        if d is not None and not mentions(d, fb):
            self.event("mut", base=fb, name="accitem", value=T("tuple", k, d))
            return
        self.event("mut", base=fb, name="setitem", value=T("tuple", k, v))

    def stmt(self, s):
        self.steps += 1
        if self.steps > 400000:
            raise GiveUp("too many steps")
        self.mark(s)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.notes.append("statement %s" % type(s).__name__)
            return
        m(s)

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.ev(s.value)
            return
        self.ev(s.value)

    def st_Pass(self, s):
        pass

    def st_Assign(self, s):
        v = self.val(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.val(s.value))

    def outside(self, x):
        """a mutable collection that was there before the call"""
        if self.obj(x) is not None:
            return False
        ty = tyof(x)
        return isinstance(ty, tuple) and ty[0] in ("set", "list", "dict") and x.op in ("attr", "item", "entry", "ent", "sym", "el")

    def st_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_name(t.id)
            v = self.val(s.value)
            if isinstance(s.op, (ast.Add, ast.BitOr)) and all(self.obj(x) is not None and self.obj(x).kind in ("list", "set")
                                                               for g, x in leaves(cur)):
                self.method(cur, "extend", [v], {}, s)
                return
            if isinstance(s.op, tuple(INPLACE)) and all(self.outside(x) for g, x in leaves(cur)):
                # the collection itself changes, whoever else holds it
                self.method(cur, INPLACE[type(s.op)], [v], {}, s)
                return
            self.assign_name(t.id, self.binop(s.op, cur, v))
        elif isinstance(t, ast.Attribute):
            b = self.val(t.value)
            cur = self.getattr(b, t.attr)
            v = self.val(s.value)
            self.mark(s)
            if all(self.obj(x) is not None and self.obj(x).kind in ("list", "set") for g, x in leaves(cur)):
                self.method(cur, "extend", [v], {}, s)
                return
            if isinstance(s.op, ast.BitOr) and isinstance(tyof(cur), tuple):
                self.setattr(b, t.attr, self.union([cur, v]))
                return
            self.setattr(b, t.attr, self.binop(s.op, cur, v))
        elif isinstance(t, ast.Subscript):
            b = self.val(t.value)
            v = self.val(s.value)
            o = self.obj(b)
            if o is not None and o.kind == "dict" and isinstance(s.op, (ast.Add, ast.Sub)):
                k = self.val(t.slice)
                if isinstance(s.op, ast.Sub):
                    v = mul(const(-1), v)
                cur = self.lookup(b, k, quiet=True)
                if len(o.entries) and o.entries[-1][0] == self.rel(o) and o.entries[-1][2] is k and o.entries[-1][4] == "set" \
                        and o.entries[-1][1] == self.live:
                    o.entries.append((self.rel(o), self.live, k, self.binop(ast.Add(), cur, v), "set"))
                else:
                    o.entries.append((self.rel(o), self.live, k, v, "acc"))
                return
            k = self.val(t.slice)
            cur = self.index(b, k)
            if o is None and isinstance(s.op, (ast.Add, ast.Sub)):
                if isinstance(s.op, ast.Sub):
                    v = mul(const(-1), v)
                self.event("mut", base=self.entbase(b), name="accitem", value=T("tuple", self.freeze(k), self.freeze(v)))
                return
            self.setitem(b, t.slice, self.binop(s.op, cur, v))

    def st_If(self, s):
        l = self.live
        c = self.val(s.test)
        l = self.live
        g = self.truth(c)
        self.live = AND(l, g)
        self.block(s.body)
        a = self.live
        self.live = AND(l, NOT(g))
        if self.live != 0:
            # raising while the test was evaluated already lowered l
            self.block(s.orelse)
        self.live = OR(a, self.live)

    def st_Return(self, s):
        v = self.val(s.value) if s.value is not None else NONE
        self.frames[-1].returns.append((self.live, v))
        for lp in self.loops:
            lp.brk.append(self.live)
            lp.ret.append(self.live)
        self.live = 0

    def st_Raise(self, s):
        exc = "Exception"
        if s.exc is not None:
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(n, ast.Name):
                v = self.frames[-1].env.get(n.id)
                exc = n.id if v is None else (v.args[0] if v.op in ("exc", "new") else "Exception")
            elif isinstance(n, ast.Attribute):
                exc = n.attr
            elif isinstance(s.exc, ast.Call):
                v = self.ev(s.exc)
                exc = v.args[0] if v.op in ("exc", "new") else "Exception"
            if exc not in EXC_UP and exc not in ("Exception", "BaseException"):
                v = self.ev(s.exc)
                if v.op in ("exc", "new"):
                    exc = v.args[0]
        elif getattr(self, "handling", None):
            exc = self.handling[-1]
        self.mark(s)
        at = self.caught_at(exc)
        for lp in self.loops:
            if at is not None and at < lp.trys:
                lp.brk.append(self.live)
        self.do_raise(exc, 1)
        self.live = 0

    def st_Assert(self, s):
        g = self.truth(self.val(s.test))
        self.do_raise("AssertionError", NOT(g))

    def st_Break(self, s):
        if self.loops:
            self.loops[-1].brk.append(self.live)
            self.loops[-1].hasbrk = True
        self.live = 0

    def st_Continue(self, s):
        if self.loops:
            self.loops[-1].cont = OR(getattr(self.loops[-1], "cont", 0), self.live)
        self.live = 0

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                o = self.obj(b)
                if o is not None and o.kind == "dict":
                    k = self.val(t.slice)
                    o.entries.append((self.rel(o), self.live, k, NONE, "del"))
                elif o is not None:
                    o.dirty = "element deletion"
                else:
                    self.event("mut", base=self.freeze(b), name="delitem", value=self.ev(t.slice))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                self.event("mut", base=b, name="delattr", value=const(t.attr))

    def st_Global(self, s):
        self.notes.append("global")
        for n in s.names:
            self.event("global", name=n)

    st_Nonlocal = st_Global

    def st_Import(self, s):
        for a in s.names:
            self.frames[-1].env[a.asname or a.name.split(".")[0]] = T("mod", a.name if a.asname else a.name.split(".")[0])

    def st_ImportFrom(self, s):
        for a in s.names:
            n = a.asname or a.name
            if a.name in self.prog.classes:
                self.frames[-1].env[n] = T("cls", a.name)
            else:
                f = None
                for m in self.prog.modules.values():
                    if a.name in m.funcs:
                        f = m.funcs[a.name]
                self.frames[-1].env[n] = T("func", f.module.rel, f.name) if f else T("ext", (s.module or "") + "." + a.name)

    def st_FunctionDef(self, s):
        i = uid()
        self.lambdas[i] = (s, self.frames[-1].env, self.frames[-1])
        v = T("lam", i)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            if dv.op == "cbreg":
                self.register(dv, v, d)
            elif dv.op in ("lam", "func"):
                v = self.call(dv, [v], {}, d)
        self.frames[-1].env[s.name] = v

    # ------------------------------------------------------------ callbacks of the map
    def deps(self, v):
        """the component properties an Output/Input/State argument names, in order; None when they are not known"""
        if v.op == "dep":
            return [v]
        out = []
        for bs, g, e in self.pieces_of(v):
            if bs or g != 1:
                return None
            l = self.deps(e)
            if l is None:
                return None
            out += l
        return out

    def regterm(self, args, kw, n):
        outs, ins, multi = [], [], False
        vals = list(args) + [kw[k] for k in ("output", "inputs", "state") if k in kw]
        for v in vals:
            ds = self.deps(v)
            if ds is None:
                return None
            for d in ds:
                if d.args[0] == "Output":
                    outs.append(d)
                    multi = multi or v.op != "dep"
                else:
                    ins.append(d)
        multi = multi or len(outs) > 1
        return T("cbreg", T("tuple", *outs), T("tuple", *ins), const(multi))

    def register(self, reg, fn, node):
        self.mark(node)
        self.callbacks.append((reg, fn, self.where, self.live))

    def run_callbacks(self):
        """what each registered callback answers, as a function of the component properties it is fed"""
        live0, trys0 = self.live, self.trys
        for reg, fn, where, g0 in self.callbacks:
            outs, ins, multi = reg.args
            node, env, fr = self.lambdas[fn.args[0]]
            vals = [sym("in:%s.%s" % (d.args[1], d.args[2])) for d in ins.args]
            self.cbinputs = {"%s.%s" % (d.args[1], d.args[2]): v for d, v in zip(ins.args, vals)}
            self.live, self.trys = 1, []
            n0 = len(self.events)
            u0, self.uncaught = self.uncaught, []
            v = self.freeze(self.call_lambda(node, env, fr, vals, {}, node))
            for e in [e for e in self.events[n0:] if e.kind == "raise"]:
                v = ite(self.close_guard(e), T("raised", e.name), v)
            self.events[n0:] = [e for e in self.events[n0:] if e.kind != "raise"]
            self.uncaught = u0
            self.cbresults.append((reg, node, v, where, len(node.args.posonlyargs + node.args.args)))
            name = "callback " + "+".join("%s.%s" % (d.args[1], d.args[2]) for d in outs.args)
            self.live, self.where = live0, where
            self.event("call", base=NONE, name=name, value=v)
        self.live, self.trys, self.cbinputs = live0, trys0, {}

    def close_guard(self, e):
        return exists([(tuple(e.binders), e.guard, NONE)])

    def st_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)

    def st_Try(self, s):
        hs = []
        for h in s.handlers:
            if h.type is None:
                hs.append(None)
            else:
                els = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                hs.append([e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else "?" for e in els])
        tf = TryFrame(hs)
        tf.depth = len(self.binders)
        self.trys.append(tf)
        l0 = self.live
        self.block(s.body)
        self.trys.pop()
        if self.live:
            self.block(s.orelse)
        out = self.live
        for i, h in enumerate(s.handlers):
            g = 0
            excs = set()
            for gg, exc, j in tf.raised:
                if j == i:
                    g = OR(g, gg)
                    excs.add(exc)
            self.live = AND(g, NOT(out)) if False else g
            if self.live == 0:
                continue
            if h.name:
                self.frames[-1].env[h.name] = T("exc", sorted(excs)[0] if excs else "Exception")
            self.handling = getattr(self, "handling", []) + [sorted(excs)[0] if excs else "Exception"]
            self.block(h.body)
            self.handling = self.handling[:-1]
            out = OR(out, self.live)
        self.live = out
        if s.finalbody:
            l = self.live
            if l == 0:
                # executed on the way out; effects under the entry condition
                self.live = l0
                self.block(s.finalbody)
                self.live = 0
            else:
                self.block(s.finalbody)

    def st_While(self, s):
        # while i < len(xs): x = xs[i]; ...; i += 1
        r = while_as_for(s)
        if r is not None:
            self.stmt(r)
            return
        names = assigned(s.body)
        mentioned = set()
        env = self.frames[-1].env
        for n in names:
            env[n] = unk("loop variable %s" % n)
        self.notes.append("while loop")
        l = self.live
        b = T("el", uid(), T("unk", "while", uid()))
        lp = Loop((b,))
        lp.trys = len(self.trys)
        self.loops.append(lp)
        self.binders.append(b)
        for k in list(self.attrs):
            del self.attrs[k]
        sizes = {i: o.size() for i, o in self.heap.items()}
        g = self.truth(self.val(s.test))
        ev0 = len(self.events)
        self.live = AND(self.live, g)
        fr0 = len(self.frames[-1].returns)
        self.block(s.body)
        self.binders.pop()
        self.loops.pop()
        for e in self.events[ev0:]:
            e.partial = True
        for i, o in self.heap.items():
            if i in sizes and o.size() != sizes[i]:
                o.dirty = "grown in a while loop"
        for n in names:
            env[n] = unk("loop variable %s" % n)
        for st in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(st, ast.Attribute) and isinstance(st.ctx, ast.Store):
                self.bump(st.attr)
        self.live = l

    # ------------------------------------------------------------ loops
    def st_For(self, s):
        v = self.val(s.iter)
        if self.leftover(s, v):
            return
        pieces = self.pieces_of(v)
        l0 = self.live
        n0 = len(pieces)
        brk = 0
        for bs, g, e in pieces:
            self.live = AND(l0, NOT(brk)) if brk else AND(self.live, l0)
            if self.live == 0:
                break
            brk = OR(brk, self.loop_piece(s, bs, g, e))
        # live now excludes what returned or raised; breaks rejoin here
        if s.orelse:
            l = self.live
            self.live = AND(l, NOT(brk))
            self.block(s.orelse)
            self.live = OR(self.live, AND(l, brk))

    def leftover(self, s, v):
        """for x in set(L): L.remove(x)   leaves the elements of L that occur more than once"""
        b = s.body
        if len(b) != 1 or s.orelse or not isinstance(b[0], ast.Expr) or not isinstance(s.target, ast.Name):
            return False
        c = b[0].value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "remove" and len(c.args) == 1
                and not c.keywords and isinstance(c.args[0], ast.Name) and c.args[0].id == s.target.id
                and isinstance(c.func.value, ast.Name) and c.func.value.id != s.target.id):
            return False
        t = self.name(c.func.value.id, c) if hasattr(self, "name") else self.ev(c.func.value)
        o = self.obj(t)
        if o is None or o.kind != "list" or o.dirty or o.hot or self.rel(o):
            return False
        l = self.freeze(t)
        d = self.freeze(v)
        if d.op != "coll" or d.args[0] != "set" or l.op != "coll" or d is not N.coll("set", l.args[1]):
            return False
        if len(l.args[1]) != 1:
            return False
        bs, g, e = N.openp(l.args[1][0])
        cs, h, f = N.openp(l.args[1][0])
        again = N.exists([(tuple(cs), AND(h, NOT(AND(*[N.eq(x, y) for x, y in zip(bs, cs)])), N.eq(e, f)), NONE)])
        lv = self.live
        o.pieces = [(tuple(bs), AND(g, OR(again, NOT(lv))), e)]
        o.version += 1
        return True

    def snapshot(self):
        return (dict(self.attrs), dict(self.vers), {i: o.clone() for i, o in self.heap.items()}, len(self.events),
                [dict(f.env) for f in self.frames], [list(f.returns) for f in self.frames], self.live,
                [list(t.raised) for t in self.trys], len(self.uncaught), self.seq, [list(l.brk) for l in self.loops],
                len(self.notes))

    def restore(self, sn):
        (self.attrs, self.vers) = (dict(sn[0]), dict(sn[1]))
        self.heap = {i: o.clone() for i, o in sn[2].items()}
        del self.events[sn[3]:]
        for f, e in zip(self.frames, sn[4]):
            f.env.clear()
            f.env.update(e)
        for f, r in zip(self.frames, sn[5]):
            f.returns = list(r)
        self.live = sn[6]
        for t, r in zip(self.trys, sn[7]):
            t.raised = list(r)
        del self.uncaught[sn[8]:]
        self.seq = sn[9]
        for l, b in zip(self.loops, sn[10]):
            l.brk = list(b)
        del self.notes[sn[11]:]

    def loop_piece(self, s, bs, g, e):
        """one abstract pass over the elements of a piece; returns the guard under which it broke out"""
        env = self.frames[-1].env
        body = s.body
        l0 = self.live
        if not bs:
            # a single known element
            lp = Loop(())
            lp.trys = len(self.trys)
            self.loops.append(lp)
            self.live = AND(l0, g)
            if self.live:
                self.assign(s.target, e)
                self.block(body)
                self.live = OR(self.live, getattr(lp, "cont", 0))
            self.loops.pop()
            brk = 0
            for x in lp.brk:
                brk = OR(brk, x)
            self.live = OR(self.live, AND(l0, NOT(g)))
            if getattr(lp, "hasbrk", False):
                # returned/raised parts are not among those that continue
                stopped = OR(*[x for x, v in self.frames[-1].returns] + self.uncaught)
                self.live = OR(self.live, AND(brk, NOT(stopped)))
                return AND(brk, NOT(stopped))
            return 0
        names = assigned(body)
        tnames = names_of(s.target)
        carried = [n for n in names if n in env and n not in tnames]
        old = {n: env[n] for n in carried}
        # ---- dry pass
        sn = self.snapshot()
        nfr = len(self.frames)
        self.binders += list(bs)
        lvs = {}
        rebound = rebinds(body)
        for n in carried:
            if self.obj(old[n]) is None or self.obj(old[n]).kind == "list" and rebound.get(n) == "only":
                if self.obj(old[n]) is not None:
                    old[n] = self.freeze(old[n])
                lvs[n] = T("lv", n, uid())
                lvs[n].ty = tyof(old[n])
                if lvs[n].ty == "int":
                    lvs[n].ty = "num"
                env[n] = lvs[n]
        lp = Loop(bs)
        lp.trys = len(self.trys)
        self.loops.append(lp)
        self.live = AND(l0, g)
        self.assign(s.target, e)
        sizes = {i: o.size() for i, o in self.heap.items()}
        vers0 = dict(self.vers)
        self.block(body)
        lend = OR(self.live, getattr(lp, "cont", 0))
        self.loops.pop()
        dry = {n: env.get(n) for n in names}
        grown = set()
        gty = {}
        for i, o in self.heap.items():
            if i in sizes and o.size() != sizes[i]:
                grown.add(i)
                tys = {tyof(x) for _, _, x in o.pieces}
                gty[i] = (tys.pop() if len(tys) == 1 else None) or "any"
        changed = {n for n in self.vers if self.vers.get(n) != vers0.get(n)}
        dryattrs = {n: self.vers[n] for n in changed}
        drylive = AND(l0, g)
        pats = {}
        for n in carried:
            if n in lvs:
                pats[n] = self.classify(lvs[n], dry[n], old[n], bs, drylive, lend)
        dryobjs = {n: v for n, v in dry.items()}
        drybrk = bool(lp.brk)
        del self.binders[len(self.binders) - len(bs):]
        self.restore(sn)
        env = self.frames[-1].env
        # ---- clean pass
        self.binders += list(bs)
        for n in carried:
            if n in pats:
                env[n] = self.inside(pats[n], lvs[n], old[n], bs, e)
            elif rebound.get(n) and dry.get(n) is not old[n]:
                env[n] = unk("previous iteration of %s" % n)
        for n in changed:
            self.bump(n)
            for k in list(self.attrs):
                if k[1] == n[1] and (n[0] is None or tyof(k[0]) == n[0] or tyof(k[0]) in MODELS and n[0] == "Model"):
                    del self.attrs[k]
        hot0 = {}
        for i in grown:
            if i in self.heap:
                h = self.heap[i]
                hot0[i] = (h.hot, h.hotlevel, h.hotx, h.hotn, h.hotty, h.hote)
                h.hote = h.hote if h.hot else len(h.entries)
                h.hotx = not h.hot
                h.hotn = len(h.pieces)
                self.heap[i].hot = True
                self.heap[i].hotlevel = len(self.binders)
                self.heap[i].hotty = gty.get(i)
        lp = Loop(bs)
        lp.trys = len(self.trys)
        self.loops.append(lp)
        self.live = AND(l0, g)
        self.assign(s.target, e)
        ev0 = len(self.events)
        nret = [len(f.returns) for f in self.frames]
        nun = len(self.uncaught)
        ntry = [len(t.raised) for t in self.trys]
        outer_brk = [len(l.brk) for l in self.loops[:-1]]
        psz = {i: (len(o.pieces), len(o.entries), len(o.edges), len(o.nodes)) for i, o in self.heap.items()}
        self.block(body)
        self.loops.pop()
        bg = 0
        for x in lp.brk:
            bg = OR(bg, x)
        bgl = 0
        for x in lp.brk:
            if x not in lp.ret:
                bgl = OR(bgl, x)
        # what goes to a handler around the loop ends it as well
        rbg = 0
        for t, n in zip(self.trys, ntry):
            for rg, ex, hi in t.raised[n:]:
                rbg = OR(rbg, rg)
        # ---- leaving the loop: nothing may mention its element any more
        self.live = AND(l0, g)
        fin = {}
        cond = AND(l0, g)
        for n in names:
            if n not in env:
                continue
            v = self.freeze(env[n]) if self.dependent(env[n], bs) else env[n]
            fin[n] = v
        for i, o in self.heap.items():
            z = psz.get(i)
            if z is None:
                continue
            for fld, k in (("pieces", 0), ("entries", 1), ("edges", 2), ("nodes", 3)):
                lst = getattr(o, fld)
                for j in range(z[k], len(lst)):
                    it = lst[j]
                    if fld == "entries":
                        lst[j] = (it[0], self.gfreeze(it[1]), self.freeze(it[2]), self.kept(it[3], bs), it[4])
                    else:
                        lst[j] = (it[0], self.gfreeze(it[1]), self.kept(it[2], bs))
                    # a function that returned has no more use for what it made itself
                    q = OR(bgl if o.frame is self.frames[-1] else bg, rbg)
                    if q:
                        lst[j] = self.first_only(lst[j], bs, q, fld, o)
        for x in self.events[ev0:]:
            for f in ("base", "value", "acc", "old"):
                v = getattr(x, f)
                if isinstance(v, T):
                    setattr(x, f, self.freeze(v))
            x.guard = self.gfreeze(x.guard)
            if rbg and AND(x.guard, NOT(rbg)) != 0:
                x.partial = x.partial or "stops"
            if bg and getattr(lp, "hasbrk", False):
                x.partial = "stops" if AND(x.guard, NOT(bg)) != 0 else x.partial or True
        for i, h in hot0.items():
            if i in self.heap:
                o = self.heap[i]
                past = self.past(o) if o.kind == "dict" and o.hotx and not bg else None
                o.hot, o.hotlevel, o.hotx, o.hotn, o.hotty, o.hote = h
                if past is not None and i in psz and not o.hot:
                    self.inplace(o, psz[i][1], past, bs)
        stop = 0
        for f, n in zip(self.frames, nret):
            for j in range(n, len(f.returns)):
                rg, rv = f.returns[j]
                rv = self.freeze(rv)
                q = exists([(bs, rg, NONE)])
                if any(mentions(rv, b) for b in bs):
                    rv = some(coll("list", [(bs, self.gunder(rg, 1), rv)]))
                f.returns[j] = (q, rv)
                stop = OR(stop, q)
        for j in range(nun, len(self.uncaught)):
            self.uncaught[j] = exists([(bs, self.uncaught[j], NONE)])
            stop = OR(stop, self.uncaught[j])
        for t, n in zip(self.trys, ntry):
            for j in range(n, len(t.raised)):
                rg, ex, hi = t.raised[j]
                q = exists([(bs, rg, NONE)])
                t.raised[j] = (q, ex, hi)
                stop = OR(stop, q)
        for l, n in zip(self.loops, outer_brk):
            for j in range(n, len(l.brk)):
                l.brk[j] = exists([(bs, l.brk[j], NONE)])
        del self.binders[len(self.binders) - len(bs):]
        for k in list(self.attrs):
            if any(mentions(k[0], b) for b in bs) or any(mentions(self.freezeq(self.attrs[k]), b) for b in bs):
                del self.attrs[k]
                self.bump(k[1], tyof(k[0]) if not isinstance(tyof(k[0]), tuple) else None)
        brk = 0
        if getattr(lp, "hasbrk", False):
            brk = AND(exists([(bs, bg, NONE)]), NOT(stop))
        self.live = AND(l0, NOT(stop))
        # ---- locals after the loop
        for n in list(env):
            if n in names or n in tnames:
                o = old.get(n, sn[4][-1].get(n))
                if n in pats:
                    env[n] = self.after(n, pats[n], lvs[n], o, fin.get(n), bs, cond, bgl, e)
                elif n in tnames:
                    if o is not None:
                        env[n] = unk("loop target %s" % n)
                    else:
                        env[n] = some(coll("list", [(bs, cond, self.freeze(env[n]))]))
                else:
                    v = fin.get(n)
                    if v is None or v.op == "obj" and self.obj(v) is not None and (
                            n in old and old[n] is v):
                        continue
                    dep = any(mentions(v, b) for b in bs)
                    if dep:
                        v = some(coll("list", [(bs, AND(cond, lend if False else 1), v)]))
                    env[n] = v if o is None else ite(exists([(bs, cond, NONE)]), v, o)
        return brk

    def freezeq(self, t):
        return self.freeze(t) if t.op == "obj" or any(x.op in ("obj", "ent") for x in subterms(t)) else t

    def dependent(self, v, bs):
        f = self.freezeq(v)
        if v.op == "obj":
            o = self.obj(v)
            if o is not None and o.depth <= len(self.binders) - len(bs):
                return False
            return True
        return any(mentions(f, b) for b in bs)

    def first_only(self, item, bs, bg, fld, o):
        """something added in a loop that is left early: kept exact when it is added just where the loop stops"""
        if fld == "entries":
            ib, g, k, v, m = item
            if not set(bs) & set(ib):
                return item
            return (ib, AND(g, B.var(mkunk("early exit"))), k, v, m)
        ib, g, e = item
        if not set(bs) & set(ib):
            return item
        if AND(g, NOT(bg)) != 0 and not any(y.op in ("sorted", "sortedby") for b in bs for y in subterms(b)):
            return (ib, AND(g, B.var(N.atom_of("stops"))), e)
        if AND(g, NOT(bg)) == 0:
            inner = tuple(b for b in ib if b in bs or any(mentions(b.args[1], c) for c in bs))
            outer = tuple(b for b in ib if b not in inner)
            return (outer, exists([(inner, g, NONE)]), some(coll("list", [(inner, g, e)])))
        return (ib, AND(g, B.var(mkunk("early exit"))), e)

    # loop-carried locals
    def classify(self, lv, v, old, bs, cond, lend):
        if v is None:
            return ("keep",)
        v = self.freezeq(v) if v.op != "obj" else v
        if v is lv:
            return ("keep",)
        if v.op == "obj":
            return ("temp",)
        v = under(v, cond)
        ls = leaves(v)
        if not mentions(v, lv):
            w = under(v, AND(cond, lend)) if AND(cond, lend) else v
            if w.op == "next" and w.args[0] is bs[-1] and old.op in ("index", "some") and \
                    old.args[0] is bs[-1].args[1]:
                return ("prev",)
            return ("temp",)
        gdep = any(gmentions(g, lv) for g, x in ls)
        if not gdep:
            # sum
            ds = []
            for g, x in ls:
                d = add(x, lv, -1)
                if mentions(d, lv):
                    ds = None
                    break
                ds.append((g, d))
            if ds is not None and tyof(old) in ("num", "int", None) and not any(x.op in ("concat", "tuple") for g, x in ls):
                if all(is_const(d, 0) or True for g, d in ds) and self.numericish(old):
                    return ("sum", ds)
            ms = []
            for g, x in ls:
                if x is lv:
                    ms.append((g, const(1)))
                    continue
                q = div(x, lv)
                if mentions(q, lv) or x.op not in ("poly",):
                    ms = None
                    break
                ms.append((g, q))
            if ms is not None:
                return ("prod", ms)
            cs = []
            for g, x in ls:
                if x.op == "concat" and x.args[0] is lv and not any(mentions(y, lv) for y in x.args[1:]):
                    cs.append((g, x.args[1:]))
                elif x is lv:
                    pass
                else:
                    cs = None
                    break
            if cs is not None:
                return ("concat", cs)
            # set or keep
            if all(x is lv or not mentions(x, lv) for g, x in ls):
                return ("set", [(g, x) for g, x in ls if x is not lv])
        for op in ("min", "max"):
            r = self.extremum(lv, ls, op)
            if r is not None:
                return (op, r)
        return ("unk",)

    def numericish(self, old):
        return all(N.is_num_const(x) or tyof(x) in ("num", "int") or x.op in ("poly", "red", "unk", "sym") for g, x in leaves(old))

    def extremum(self, lv, ls, op):
        # v = x if x < lv (or lv is unset) else lv
        x = None
        gx = 0
        for g, t in ls:
            if t is lv:
                continue
            if t.op == "red" and t.args[0] == op and any(p[2] is lv for p in t.args[1]):
                oth = [p for p in t.args[1] if p[2] is not lv]
                if len(oth) == 1 and not oth[0][0]:
                    x, gx = oth[0][2], OR(gx, g)
                    continue
                return None
            if x is not None and t is not x or mentions(t, lv):
                return None
            x, gx = t, OR(gx, g)
        if x is None:
            return None
        want = pos(lv, x) if op == "min" else pos(x, lv)
        ge = NOT(pos(x, lv)) if op == "min" else NOT(pos(lv, x))
        for w in (want, ge):
            for none in (isnone(lv), 0, NOT(truth(lv)) if False else 0):
                full = OR(none, w)
                # guard without the lv tests
                extra = gx
                for a in B.support(w):
                    extra = B.restrict(extra, a, 1 if AND(B.var(a), w) == B.var(a) else 0)
                if gmentions(extra, lv):
                    extra2 = extra
                    for a in list(B.support(extra)):
                        if mentions(a, lv):
                            extra2 = B.restrict(extra2, a, 0)
                    extra = extra2
                if AND(extra, full) == gx or AND(extra, w) == gx:
                    return (extra, x)
        return None

    def inside(self, pat, lv, old, bs, e):
        k = pat[0]
        if k == "keep":
            return old
        if k == "temp":
            return T("lvtemp", lv.args[0]) if False else unk("previous iteration of %s" % lv.args[0])
        if k == "prev":
            return bs[-1]
        if k == "sum":
            ds = pat[1]
            if len(ds) == 1 and is_const(ds[0][1], 1):
                t = T("idx", bs[-1])
                t.ty = "int"
                return add(old, t)
            return lv
        if k == "prod":
            # running product up to, and not including, this element
            x = const(1)
            for g, y in pat[1]:
                x = ite(g, self.freeze(y), x)
            t = T("scan", "prod", bs[-1], old, coll("list", [(bs[-1:], 1, x)]))
            t.ty = "num"
            return t
        if k == "set" and not any(y.op in ("const", "bool") and not N.is_num_const(y) for g, x in pat[1] for h, y in leaves(x)):
            # the value an earlier round happened to leave
            STICKY.add(lv)
        return lv

    def after(self, n, pat, lv, old, fin, bs, cond, bg, e):
        k = pat[0]
        if k == "keep":
            return old
        if k in ("temp", "prev"):
            if fin is None:
                return unk(n)
            v = fin
            if any(mentions(v, b) for b in bs):
                v = some(coll("list", [(bs, cond, v)]))
            return ite(exists([(bs, cond, NONE)]), v, old)
        if bg and k in ("sum", "prod", "concat"):
            return self.cut(k, pat[1], old, bs, cond, bg)
        if bg and k not in ("set",):
            return unk("accumulated until an early exit")
        if k == "sum":
            return add(old, red("sum", [(bs, AND(cond, g), self.freeze(d)) for g, d in pat[1]]))
        if k == "prod":
            return mul(old, red("prod", [(bs, AND(cond, g), self.freeze(d)) for g, d in pat[1] if not is_const(d, 1)] or []))
        if k == "concat":
            ps = [((), 1, None)]
            out = []
            for g, xs in pat[1]:
                for x in xs:
                    for b2, g2, e2 in self.pieces_of(x):
                        out.append((tuple(bs) + tuple(b2), AND(cond, g, g2), e2))
            base = self.pieces_of(old)
            return coll("list", base + out)
        if k == "set":
            r = old
            for g, x in pat[1]:
                gg = AND(cond, g)
                q = exists([(bs, gg, NONE)])
                v = self.freeze(x)
                if any(mentions(v, b) for b in bs):
                    v = some(coll("list", [(bs, gg, v)]))
                r = ite(q, v, r)
            return r
        if k in ("min", "max"):
            extra, x = pat[1]
            ps = [(bs, AND(cond, extra), x)]
            m = red(k, ps)
            q = exists([(bs, AND(cond, extra), NONE)])
            if is_const(old, None) or not self.numericish(old):
                return ite(q, m, old)
            if old.op == "call" and "inf" in show(old):
                return ite(q, m, old)
            return ite(q, red(k, ps + [((), 1, old)]), old)
        return unk("loop-carried %s" % n)

    def cut(self, k, parts, old, bs, cond, bg):
        """what a loop left early has accumulated"""
        ps = []
        for g, x in parts:
            for y in x if k == "concat" else [x]:
                if not (k == "sum" and is_const(y, 0) or k == "prod" and is_const(y, 1)):
                    ps.append((AND(cond, g), y))
        if all(AND(g, NOT(bg)) == 0 for g, y in ps):
            # only where the loop stops: at most once
            r = old
            for g, y in ps:
                q = exists([(bs, g, NONE)])
                y = self.freeze(y)
                if k == "concat":
                    xs = [(b2, AND(g, g2), e2) for b2, g2, e2 in self.pieces_of(y)]
                    if any(b2 for b2, _, _ in xs):
                        return unk("accumulated until an early exit")
                    r = coll("list", self.pieces_of(r) + [
                        ((), exists([(bs, h, NONE)]), some(coll("list", [(bs, h, v)]))) for _, h, v in xs])
                    continue
                if any(mentions(y, b) for b in bs):
                    y = some(coll("list", [(bs, g, y)]))
                r = ite(q, add(r, y) if k == "sum" else mul(r, y), r)
            return r
        if any(y.op in ("sorted", "sortedby") for b in bs for y in subterms(b)):
            return unk("accumulated until an early exit")
        st = B.var(N.atom_of("stops"))
        if k == "concat":
            out = self.pieces_of(old)
            for g, y in ps:
                for b2, g2, e2 in self.pieces_of(y):
                    out = out + [(tuple(bs) + tuple(b2), AND(g, g2, st), self.freeze(e2))]
            return coll("list", out)
        if k == "prod":
            return unk("accumulated until an early exit")
        return add(old, red("sum", [(bs, AND(g, st), self.freeze(y)) for g, y in ps]))

    # ------------------------------------------------------------ collections
    def pieces_of(self, v):
        if v.op == "ent":
            v = v.args[1]
        if v.op == "ite":
            out = []
            for g, x in leaves(v):
                out += [(bs, AND(g, h), e) for bs, h, e in self.pieces_of(x)]
            return out
        if v.op == "obj":
            o = self.obj(v)
            if o.dirty:
                return iterate(unk(o.dirty))
            if o.hot and len(self.binders) > o.depth:
                t = self.grown(o)
                if t.op == "coll":
                    return iterate(t)
                b = T("el", uid(), t)
                b.ty = o.hotty
                return [((b,), 1, b)]
            if o.kind in ("list", "set"):
                if o.kind == "list" and getattr(o, "sorted", None) == (len(o.pieces), o.version):
                    return iterate(self.freeze(v))
                if o.kind == "set" and not all(len(bs) == 0 or (len(bs) == 1 and e is bs[0]) for bs, g, e in o.pieces) or \
                        o.kind == "set" and len(o.pieces) > 1 and any(bs for bs, g, e in o.pieces):
                    f = self.freeze(v)
                    return iterate(f)
                if len(o.pieces) == 1 and o.pieces[0][2].op == "splice":
                    return iterate(o.pieces[0][2])
                return [self.fresh((bs, self.gunder(g, self.live), self.freeze(e))) for bs, g, e in o.pieces]
            if o.kind == "dict":
                return [(bs, g, k) for bs, g, k, val in self.items_of(v)]
            if o.kind == "graph":
                return [self.fresh((bs, g, e)) for bs, g, e in o.nodes]
        if v.op == "nxp":
            self.maybe_raise("NetworkXNoPath", T_nopath(v), "nx")
        if v.op == "coll" and v.args[0] == "dmap":
            out = []
            for p in v.args[1]:
                bs, g, e = openp(p)
                if e.args[0].args[0] == "set":
                    out.append((bs, g, e.args[1]))
            return out
        return [self.hint(p) for p in iterate(v)]

    def hint(self, p):
        bs, g, e = p
        return p

    def fresh(self, p):
        bs, g, e = p
        if not bs:
            return p
        m = {}
        nb = []
        for b in bs:
            s = N.Subst(m)
            x = T("el", uid(), s.t(b.args[1]) if m else b.args[1])
            x.ty = b.ty
            m[b] = x
            nb.append(x)
        s = N.Subst(m)
        return (tuple(nb), s.g(g), s.t(e))

    def items_of(self, v, mark=False):
        """(binders, guard, key, value) of a dict"""
        o = self.obj(v)
        if o is None:
            if v.op == "dict":
                return [((), 1, k, x) for k, x in v.args[0]]
            if v.op == "coll" and v.args[0] == "dmap":
                out = []
                for p in v.args[1]:
                    bs, g, e = openp(p)
                    out.append((bs, g, e.args[1], e.args[2], e.args[0].args[0]))
                return self.fold_entries(out)
            return None
        if o.dirty:
            return None
        if o.hot and len(self.binders) > o.depth:
            return None
        out = []
        for bs, g, k, x, m in o.entries:
            y = self.marked(x, o.depth) if mark and bs and m == "set" else self.freeze(x)
            f = self.fresh((bs, self.gunder(g, self.live), T("tuple", self.freezek(k), y)))
            out.append((f[0], f[1], f[2].args[0], f[2].args[1], m))
        return self.fold_entries(out)

    def marked(self, x, depth):
        """the value a family of entries has, with what they have in common because it was made once marked"""
        tr = {}
        for t in subterms(x):
            if t.op == "obj":
                o = self.obj(t)
                if o is None or o.kind not in ("list", "set", "dict") or o.dirty:
                    continue
                if o.depth <= depth:
                    tr[t] = T("shared", self.freeze(t))
                elif t is x and o.kind == "dict" and not (o.hot and len(self.binders) > o.depth) and \
                        all(not bs and m == "set" and g == 1 for bs, g, k, v, m in o.entries):
                    d = {}
                    for bs, g, k, v, m in o.entries:
                        d[self.freeze(k)] = self.marked(v, depth)
                    if any(y.op == "shared" for y in d.values()):
                        tr[t] = N.dictt(d.items())
        return self.freeze(N.Subst(tr).t(x) if tr else x)

    def unshared(self, t):
        """without the marks of what entries have in common"""
        tr = {x: x.args[0] for x in subterms(t) if x.op == "shared"}
        return N.Subst(tr).t(t) if tr else t

    def common(self, t):
        r = T("ent", T("sharedkey"), t.args[0])
        r.ty = t.args[0].ty
        return r

    def freezek(self, k):
        return self.freeze(k)

    def fold_entries(self, ents):
        base = []
        for bs, g, k, x, m in ents:
            if m == "set":
                if not bs:
                    base = [b for b in base if not (b[2] is k and g == 1 and not b[0])]
                base.append((bs, g, k, x))
            elif m in ("acc", "app"):
                if not any(True for b in base):
                    base.append((bs, g, k, T("partialacc", x)))
            elif m == "del":
                nb = []
                for (b2, g2, k2, x2) in base:
                    # delete the same key in the same iteration
                    if bs or b2:
                        nb.append((b2, AND(g2, NOT(self.covered(bs, g, k, k2))), k2, x2))
                    else:
                        nb.append((b2, AND(g2, NOT(AND(g, eq(k, k2)))), k2, x2))
                base = nb
        accs = [e for e in ents if e[4] == "acc"]
        if accs:
            nb = []
            for bs, g, k, x in base:
                tot = x
                for b2, g2, k2, x2, m in accs:
                    f = self.fresh((b2, g2, T("tuple", k2, x2)))
                    tot = add(tot, red("sum", [(f[0], AND(f[1], eq(f[2].args[0], k)), f[2].args[1])]))
                nb.append((bs, g, k, tot))
            base = nb
        apps = [e for e in ents if e[4] == "app"]
        if apps:
            nb = []
            for bs, g, k, x in base:
                ps = list(self.pieces_of(x)) if x.op in ("coll", "obj") else []
                for b2, g2, k2, x2, m in apps:
                    f = self.fresh((b2, g2, T("tuple", k2, x2)))
                    ps.append((f[0], AND(f[1], eq(f[2].args[0], k)), f[2].args[1]))
                nb.append((bs, g, k, coll("list", ps)))
            base = nb
        return base

    def covered(self, bs, g, k, k2):
        return exists([(bs, AND(g, eq(k, k2)), NONE)])

    def lookup(self, d, k, default=None, quiet=False, mark=False):
        """d[k]; the guard under which the key is missing goes to KeyError handlers"""
        if d.op == "ite":
            r = None
            l = self.live
            out = []
            for g, x in leaves(d):
                self.live = AND(l, g)
                out.append((g, self.lookup(x, k, default, quiet, mark)))
            self.live = l
            r = out[-1][1]
            for g, x in reversed(out[:-1]):
                r = ite(g, x, r)
            return r
        if k.op == "ite":
            r = None
            for g, x in reversed(leaves(k)):
                y = self.lookup(d, x, default, quiet, mark)
                r = y if r is None else ite(g, y, r)
            return r
        o = self.obj(d)
        if o is not None and not o.dirty:
            # exact entry of this very iteration
            rel = self.rel(o)
            for bs, g, kk, x, m in reversed(o.entries):
                if m == "set" and kk is k and bs == rel[:len(bs)] and o.depth + len(bs) >= (o.hotlevel if o.hot else 0) and \
                        AND(self.live, NOT(g)) == 0:
                    return x
                if m == "set" and not bs and kk is k and g == 1:
                    return x
                if m != "set":
                    break
                if kk is k or kk.op != "const" or k.op != "const":
                    break
        if o is not None and o.hot and len(self.binders) > o.depth and not o.dirty:
            return T("index", self.past(o), self.freeze(k))
        its = self.items_of(d, mark)
        if its is None:
            if default is None and not quiet and d.op in ("sym", "attr", "el", "index"):
                self.maybe_raise("KeyError", NOT(N.atom("in", self.freeze(k), self.freeze(d))), "key")
            return T("index", self.freeze(d), self.freeze(k))
        r = default
        have = 0
        k = self.freeze(k)
        dflt = None
        if o is not None and o.default is not None and default is None:
            if o.default == "list":
                dflt = T("coll", "list", ())
            elif o.default in ("int", "float"):
                dflt = const(0)
            elif o.default == "set":
                dflt = T("coll", "set", ())
        if dflt is not None and o is not None:
            accs = [e for e in o.entries if e[4] in ("acc", "app")]
            sets = [e for e in o.entries if e[4] == "set"]
            if accs and not sets:
                if all(e[4] == "acc" for e in accs):
                    tot = const(0)
                    for b2, g2, k2, x2, m in accs:
                        f = self.fresh((b2, self.gunder(g2, self.live), T("tuple", self.freeze(k2), self.freeze(x2))))
                        tot = add(tot, red("sum", [(f[0], AND(f[1], eq(f[2].args[0], k)), f[2].args[1])]))
                    return tot
                ps = []
                for b2, g2, k2, x2, m in accs:
                    f = self.fresh((b2, self.gunder(g2, self.live), T("tuple", self.freeze(k2), self.freeze(x2))))
                    ps.append((f[0], AND(f[1], eq(f[2].args[0], k)), f[2].args[1]))
                return coll("list", ps)
            r = dflt
        for bs, g, kk, x in its:
            if not bs:
                h = AND(g, eq(kk, k))
                if h == 0:
                    continue
                x = self.freeze(x) if r is not None or h != 1 else x
                r = x if r is None or h == 1 else ite(h, x, r)
                have = OR(have, h)
            else:
                v, h = self.unify_key(bs, g, kk, k, x)
                r = v if r is None else ite(h, v, r)
                have = OR(have, h)
        if r is None:
            self.maybe_raise("KeyError", 1, "key") if not quiet else None
            return unk("missing key")
        if default is None and dflt is None and not quiet:
            self.maybe_raise("KeyError", NOT(have), "key")
        return r

    def unify_key(self, bs, g, kk, k, x):
        """value of the entry family {kk(b): x(b)} at key k"""
        h = exists([(bs, AND(g, eq(kk, k)), NONE)])
        if not any(mentions(x, b) for b in bs):
            return x, h
        m = N.match(kk, k, set(bs))
        if m is not None and all(b in m and N.contains(m[b], b.args[1]) == 1 for b in bs):
            return subst(x, m), h
        # the value depends on the element only through the key
        tr = {kk: k}
        if kk.op in ("fmt", "tuple") and kk.op == k.op and len(kk.args) == len(k.args):
            for p, q in zip(kk.args, k.args):
                if p is not q:
                    tr[p] = q
                    np, nq = N.node_of_name(p), N.node_of_name(q)
                    if np is not None and nq is not None:
                        tr[np] = nq
        y = subst(x, tr)
        if any(mentions(y, b) for b in bs):
            nk, nkk = N.node_of_name(k), N.node_of_name(kk)
            if nk is not None and nkk is not None:
                y = subst(subst(x, {kk: k}), {nkk: nk})
        if not any(mentions(y, b) for b in bs):
            return y, h
        return some(coll("list", [(bs, AND(g, eq(kk, k)), x)])), h

    def union(self, vs):
        t = self.new("set")
        for v in vs:
            self.grow(t, self.pieces_of(v))
        return t

    def truth(self, v):
        if v.op == "ent":
            v = v.args[1]
        if v.op == "ite":
            return B.ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
        if v.op == "obj":
            o = self.obj(v)
            if o.kind == "graph":
                return 1
            if o.kind == "dict":
                if o.dirty or (o.hot and len(self.binders) > o.depth):
                    return B.var(mkunk("dict truth"))
                its = self.items_of(v)
                return exists([(bs, g, NONE) for bs, g, k, x in its])
            if o.dirty:
                return B.var(mkunk(o.dirty))
            if o.hot and len(self.binders) > o.depth:
                return truth(self.grown(o))
            return exists([(bs, self.gunder(g, self.live), NONE) for bs, g, e in o.pieces])
        if v.op in ("lam", "func", "cls", "mod", "new"):
            return 1
        return truth(v)

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            self.notes.append("expression %s" % type(n).__name__)
            return unk(type(n).__name__)
        return m(n)

    def ev_Constant(self, n):
        if n.value is Ellipsis or isinstance(n.value, (bytes, complex)):
            return unk("literal")
        return const(n.value)

    def ev_name(self, name):
        for fr in (self.frames[-1],):
            if name in fr.env:
                return under(fr.env[name], self.live)
        fr = self.frames[-1]
        c = fr.closure
        while c is not None:
            if name in c.env:
                return under(c.env[name], self.live)
            c = c.closure
        m = fr.module
        if m is not None:
            if name in m.funcs:
                return T("func", m.rel, name)
            if name in m.classes:
                return T("cls", name)
            if name in m.imports:
                imp = m.imports[name]
                if ":" in imp:
                    src, nm = imp.split(":")
                    if nm in self.prog.classes:
                        return T("cls", nm)
                    for mm in self.prog.modules.values():
                        if nm in mm.funcs and (src.strip(".") == "" or mm.rel.endswith(src.strip(".").split(".")[-1] + ".py")):
                            return T("func", mm.rel, nm)
                        if nm in mm.consts and src.startswith(".") and mm.rel.endswith(src.strip(".").split(".")[-1] + ".py"):
                            return self.modconst(mm, nm)
                    return T("ext", src + "." + nm)
                return T("mod", imp)
            if name in m.consts:
                return self.modconst(m, name)
        if name in self.prog.classes:
            return T("cls", name)
        return T("builtin", name)

    def modconst(self, m, name):
        fr = Frame(None, None, {}, m)
        fr.fn = self.frames[-1].fn if self.frames else None
        self.frames.append(fr)
        try:
            v = self.val(m.consts[name])
        finally:
            self.frames.pop()
        if v.op == "obj":
            return self.freeze(v)
        return v

    def ev_Name(self, n):
        return self.ev_name(n.id)

    def ev_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def ev_Attribute(self, n):
        b = self.ev(n.value)
        return self.attr_of(b, n.attr, n)

    def attr_of(self, b, name, n=None):
        if b.op == "ite":
            l = self.live
            g = b.args[0]
            self.live = AND(l, g)
            x = self.attr_of(b.args[1], name, n) if self.live else NONE
            l1 = self.live
            self.live = AND(l, NOT(g))
            y = self.attr_of(b.args[2], name, n) if self.live else NONE
            self.live = OR(l1, self.live) if False else l
            return ite(g, x, y)
        if b.op == "mod":
            return T("ext", b.args[0] + "." + name)
        if b.op == "ext":
            return T("ext", b.args[0] + "." + name)
        if name == "__class__":
            ty = tyof(b)
            return T("cls", ty) if ty in CLASSES or ty in MODELS else T("classof", b)
        if name == "__dict__":
            return T("dictof", b)
        cn = tyof(b)
        if b.op == "cls":
            f = self.prog.find(b.args[0], "methods", name)
            if f is not None:
                return T("unbound", b, name)
            c = self.prog.classes.get(b.args[0])
            if c is not None:
                for k in self.prog.mro(c):
                    if name in k.attrs:
                        fr = Frame(None, k, {}, k.module)
                        fr.fn = self.frames[-1].fn
                        self.frames.append(fr)
                        try:
                            v = self.ev(k.attrs[name])
                        finally:
                            self.frames.pop()
                        return v if v.op != "obj" else T("classattr", k.name, name)
            return T("classattr", b.args[0], name)
        if b.op in ("super",):
            return T("bound", b, name)
        if isinstance(cn, str) and (cn in CLASSES or cn in MODELS or cn in self.prog.classes):
            pc = self.pclass(b)
            nm = self.canon_attr(cn, name)
            if (b, nm) in self.attrs:
                return self.getattr(b, name)
            if self.prog.find(pc, "methods", name) is not None:
                return T("bound", b, name)
            g = self.prog.find(pc, "getters", name)
            if g is None:
                c = self.prog.classes.get(pc)
                for k in (self.prog.mro(c) if c is not None else []):
                    if name in k.attrs and (b, name) not in self.attrs:
                        v = k.attrs[name]
                        if isinstance(v, ast.Constant):
                            return const(v.value) if not any(e.kind == "store" and e.name == name for e in self.events) else attr(b, name, self.ver(name, cn))
                        return T("classattr", k.name, name)
            return self.getattr(b, name)
        if b.op in ("obj", "coll", "str", "fmt", "dict", "adj", "adj1", "graph", "lints", "nxp", "sofar") or \
                b.op == "const" or isinstance(cn, tuple) or cn in ("str", "dpath", "lpath", "pdetail") or b.op in ("splice", "slice"):
            return T("bound", b, name)
        if name in self.datanames():
            t = attr(b, name, self.ver(name, cn))
            tys = {v for k, v in N.ATTR.items() if k[1] == name}
            if t.op == "attr" and t.ty is None and len(tys) == 1:
                t.ty = tys.pop()
            return t
        return T("maybe", b, name) if b.op in ("unk", "sym", "index", "call", "some", "el", "bv", "attr") else T("bound", b, name)

    def datanames(self):
        """names that are data attributes wherever the program has them"""
        r = getattr(self.prog, "plainattrs", None)
        if r is None:
            data, code = set(), set()
            for c in self.prog.classes.values():
                code |= set(c.methods) | set(c.getters) | set(c.attrs)
                for x in ast.walk(c.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and \
                            x.value.id == "self":
                        data.add(x.attr)
            r = self.prog.plainattrs = data - code
        return r

    def pclass(self, b):
        cn = tyof(b)
        if cn in MODELS and b.op != "new" and self.cls:
            return self.cls
        if cn == "Model" and b.op != "new":
            return "FlexModel"
        return cn

    def resolve_maybe(self, t):
        """an attribute of something whose class is not known"""
        if t.op == "maybe":
            return self.getattr(t.args[0], t.args[1])
        return t

    def ev_Tuple(self, n):
        vals = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                return unk("starred")
            vals.append(self.val(x))
        return T("tuple", *vals)

    def val(self, n):
        v = self.ev(n)
        return self.resolve(v)

    def resolve(self, v):
        if v.op == "maybe":
            return self.getattr(v.args[0], v.args[1])
        if v.op == "ite" and any(x.op == "maybe" for g, x in leaves(v)):
            return ite(v.args[0], self.resolve(v.args[1]), self.resolve(v.args[2]))
        return v

    def ev_List(self, n, kind="list"):
        t = self.new(kind)
        o = self.obj(t)
        for x in n.elts:
            if isinstance(x, ast.Starred):
                for p in self.pieces_of(self.val(x.value)):
                    o.pieces.append(p)
            else:
                o.pieces.append(((), 1, self.val(x)))
        return t

    def ev_Set(self, n):
        return self.ev_List(n, "set")

    def ev_Dict(self, n):
        t = self.new("dict")
        o = self.obj(t)
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.val(v)
                its = self.items_of(src)
                o = self.obj(t)
                if its is None:
                    o.dirty = "dict unpacking"
                else:
                    for bs, g, kk, x in its:
                        o.entries.append((bs, g, kk, x, "set"))
                continue
            g, k, v = self.live, self.val(k), self.val(v)
            self.obj(t).entries.append(((), g, k, v, "set"))
        return t

    def ev_JoinedStr(self, n):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.val(x.value)
                spec = ""
                if x.format_spec is not None:
                    spec = "".join(y.value for y in x.format_spec.values if isinstance(y, ast.Constant))
                parts.append(self.fmtpart(v, spec))
        return self.mkfmt(parts)

    def fmtpart(self, v, spec=""):
        v = self.freeze(v)
        if spec and spec not in ("s", "d"):
            t = T("fspec", spec, v)
            t.ty = "str"
            return t
        if v.op == "str":
            return v.args[0]
        return v

    def mkfmt(self, parts):
        for i, p in enumerate(parts):
            if p.op == "ite":
                a = list(parts)
                b = list(parts)
                a[i] = p.args[1]
                b[i] = p.args[2]
                return ite(p.args[0], self.mkfmt(a), self.mkfmt(b))
        if len(parts) == 1 and tyof(parts[0]) == "str":
            return parts[0]
        return fmt(*parts)

    def ev_FormattedValue(self, n):
        return self.val(n.value)

    def ev_Lambda(self, n):
        i = uid()
        self.lambdas[i] = (n, self.frames[-1].env, self.frames[-1])
        return T("lam", i)

    def ev_IfExp(self, n):
        l = self.live
        g = self.truth(self.val(n.test))
        l = self.live
        self.live = AND(l, g)
        a = self.val(n.body) if self.live else NONE
        la = self.live
        self.live = AND(l, NOT(g))
        b = self.val(n.orelse) if self.live else NONE
        self.live = OR(la, self.live)
        return ite(g, a, b)

    def ev_BoolOp(self, n):
        l = self.live
        is_and = isinstance(n.op, ast.And)
        r = None
        vals = []
        cond = 1
        for x in n.values:
            self.live = AND(l, cond)
            if self.live == 0:
                break
            v = self.val(x)
            vals.append(v)
            l = OR(AND(l, NOT(cond)), self.live)
            t = self.truth(v)
            cond = AND(cond, t if is_and else NOT(t))
        self.live = l
        gs = [self.truth(v) for v in vals]
        if all(self.boolish(v) for v in vals):
            return boolt(AND(*gs) if is_and else OR(*gs))
        r = vals[-1]
        for v, g in list(zip(vals, gs))[-2::-1]:
            r = ite(g, r, v) if is_and else ite(g, v, r)
        return r

    def boolish(self, v):
        return all(tyof(x) == "bool" for g, x in leaves(v))

    def ev_UnaryOp(self, n):
        v = self.val(n.operand)
        if isinstance(n.op, ast.Not):
            return boolt(NOT(self.truth(v)))
        if isinstance(n.op, ast.USub):
            return mul(const(-1), v)
        if isinstance(n.op, ast.UAdd):
            return v
        return unk("operator")

    def ev_BinOp(self, n):
        a = self.val(n.left)
        b = self.val(n.right)
        return self.binop(n.op, a, b)

    def listish(self, v):
        return all(x.op in ("coll", "concat", "lints", "splice", "slice", "nxp") or
                   (x.op == "obj" and self.obj(x).kind in ("list", "set")) or isinstance(tyof(x), tuple) or tyof(x) == "dpath"
                   for g, x in leaves(v))

    def strish(self, v):
        return all(tyof(x) == "str" or x.op in ("fmt", "str") for g, x in leaves(v))

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if self.strish(a) or self.strish(b):
                return self.mkfmt([self.fmtpart(a), self.fmtpart(b)])
            if a.op == "lv" and self.listish(b):
                return T("concat", a, self.freeze(b))
            if a.op == "concat" and self.listish(b):
                return T("concat", *(a.args + (self.freeze(b),)))
            if self.listish(a) and self.listish(b):
                t = self.new("list")
                self.grow_free(t, self.pieces_of(a) + self.pieces_of(b))
                return t
            if a.op == "tuple" and b.op == "tuple":
                return T("tuple", *(a.args + b.args))
            return add(self.freeze(a), self.freeze(b))
        if isinstance(op, ast.Sub):
            if self.listish(a) and self.listish(b):
                ps = self.pieces_of(a)
                fb = self.freeze(b)
                return coll("set", [(bs, AND(g, NOT(self.contains(e, fb))), e) for bs, g, e in ps])
            return add(a, b, -1)
        if isinstance(op, ast.Mult):
            if self.listish(a) or self.strish(a):
                return T("repeat", self.freeze(a), self.freeze(b))
            return mul(a, b)
        if isinstance(op, ast.Div):
            self.maybe_raise("ZeroDivisionError", eq(b, const(0)))
            return div(a, b)
        if isinstance(op, ast.BitOr):
            if self.listish(a) and self.listish(b):
                return self.union([a, b])
            if self.boolish(a) and self.boolish(b):
                return boolt(OR(self.truth(a), self.truth(b)))
        if isinstance(op, ast.BitAnd):
            if self.listish(a) and self.listish(b):
                fb = self.freeze(b)
                return coll("set", [(bs, AND(g, self.contains(e, fb)), e) for bs, g, e in self.pieces_of(a)])
            if self.boolish(a) and self.boolish(b):
                return boolt(AND(self.truth(a), self.truth(b)))
        if isinstance(op, ast.Mod) and self.strish(a):
            args = list(b.args) if b.op == "tuple" else [b]
            return self.percent(a, args)
        if isinstance(op, (ast.Mod, ast.FloorDiv, ast.Pow)):
            r = T({ast.Mod: "mod_", ast.FloorDiv: "floordiv", ast.Pow: "pow"}[type(op)], self.freeze(a), self.freeze(b))
            r.ty = "num"
            return r
        return T("binop", type(op).__name__, self.freeze(a), self.freeze(b))

    def grow_free(self, t, pieces):
        o = self.obj(t)
        for bs, g, e in pieces:
            o.pieces.append((tuple(bs), g, e))

    def percent(self, a, args):
        if a.op != "const":
            return unk("format")
        import re
        parts = []
        i = 0
        s = a.args[1]
        p = 0
        for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([sdrfgi%])", s):
            parts.append(const(s[p:m.start()]))
            p = m.end()
            if m.group(3) == "%":
                parts.append(const("%"))
                continue
            if i >= len(args):
                return unk("format")
            v = args[i]
            i += 1
            spec = m.group(2) + m.group(3)
            if m.group(3) == "r":
                v = T("repr", self.freeze(v))
                v.ty = "str"
                parts.append(v)
            else:
                parts.append(self.fmtpart(v, "" if spec in ("s", "d", "i") else spec))
        parts.append(const(s[p:]))
        return self.mkfmt([x for x in parts if not (x.op == "const" and x.args[1] == "")] or [const("")])

    def ev_Compare(self, n):
        l = self.val(n.left)
        r = 1
        for op, c in zip(n.ops, n.comparators):
            x = self.val(c)
            r = AND(r, self.compare(op, l, x))
            l = x
        return boolt(r)

    def emptylit(self, v):
        o = self.obj(v)
        if o is not None:
            return not o.pieces and not o.entries and not o.dirty and o.kind != "graph" and not o.hot
        return v.op == "coll" and not v.args[1] or v.op == "dict" and not v.args[0]

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.Is)):
            for x, y in ((a, b), (b, a)):
                if self.emptylit(x) and isinstance(op, ast.Eq):
                    if tyof(y) == "dpath" and y.op == "attr":
                        return NOT(self.truth(y))
                    return NOT(self.truth(y))
            return eq(self.freeze(a), self.freeze(b))
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return NOT(self.compare(ast.Eq(), a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return NOT(self.contains(a, b))
        a, b = self.freeze(a), self.freeze(b)
        if a.op == "tuple" or b.op == "tuple":
            return B.var(T("cmp", type(op).__name__, a, b))
        if isinstance(op, ast.Gt):
            return pos(a, b)
        if isinstance(op, ast.Lt):
            return pos(b, a)
        if isinstance(op, ast.GtE):
            return NOT(pos(b, a))
        if isinstance(op, ast.LtE):
            return NOT(pos(a, b))
        return B.var(mkunk("comparison"))

    def contains(self, a, b):
        if b.op == "ent":
            b = b.args[1]
        if b.op == "ite":
            return B.ite(b.args[0], self.contains(a, b.args[1]), self.contains(a, b.args[2]))
        o = self.obj(b)
        a = self.freeze(a)
        if o is not None:
            if o.dirty:
                return B.var(mkunk(o.dirty))
            if o.hot and len(self.binders) > o.depth:
                return N.contains(a, self.grown(o))
            if o.kind == "dict":
                its = self.items_of(b)
                if its is None:
                    return N.atom("in", a, self.freeze(b))
                return OR(*[exists([(bs, AND(g, eq(k, a)), NONE)]) for bs, g, k, x in its])
            if o.kind == "graph":
                return exists([(bs, AND(g, eq(e, a)), NONE) for bs, g, e in [self.fresh(p) for p in o.nodes]])
            r = 0
            for bs, g, e in self.pieces_of(b):
                r = OR(r, exists([(bs, AND(g, eq(a, self.freeze(e))), NONE)]))
            return r
        if b.op == "dict" or b.op == "coll" and b.args[0] == "dmap":
            its = self.items_of(b)
            return OR(*[exists([(bs, AND(g, eq(k, a)), NONE)]) for bs, g, k, x in its])
        if b.op == "nxp":
            pass
        return contains(a, b)

    def ev_Subscript(self, n):
        b = self.val(n.value)
        if isinstance(n.slice, ast.Slice):
            lo = self.val(n.slice.lower) if n.slice.lower else NONE
            hi = self.val(n.slice.upper) if n.slice.upper else NONE
            st = self.val(n.slice.step) if n.slice.step else NONE
            return self.slice(b, lo, hi, st)
        k = self.val(n.slice)
        return self.index(b, k)

    def slice(self, b, lo, hi, st):
        if b.op == "ite":
            return ite(b.args[0], self.slice(b.args[1], lo, hi, st), self.slice(b.args[2], lo, hi, st))
        if lo.op == "const" and hi.op == "const" and lo.args[1] is None and hi.args[1] is None and st.op == "const":
            if st.args[1] is None:
                if b.op in ("sym", "attr", "call") and tyof(b) is None:
                    t = self.new("list")
                    self.grow_free(t, self.pieces_of(b))
                    return t
                return self.copylist(b)
            if st.args[1] == -1:
                return T("slice", self.freeze(b), const("rev"), NONE)
        if is_const(lo, 0):
            lo = NONE
        f = self.freeze(b)
        if b.op == "const" and isinstance(b.args[1], str) and lo.op == "const" and hi.op == "const":
            return const(b.args[1][lo.args[1]:hi.args[1]])
        if (tyof(f) == ("list", "str") or f.op == "split") and is_const(st, None) and hi.op == "const":
            a, z = 0 if is_const(lo, None) else lo.args[1] if lo.op == "const" else None, hi.args[1]
            if isinstance(a, int) and isinstance(z, int) and 0 <= a <= z <= 8:
                ps = []
                for i in range(a, z):
                    x = T("index", f, const(i))
                    x.ty = "str"
                    ps.append(((), NOT(T_short(f, i)), x))
                return coll("list", ps)
        hi = self.freeze(hi)
        n = N.length(f)
        if hi is n or hi.op == "ite" and any(x is n for g, x in leaves(hi)):
            r = None
            for g, x in reversed(leaves(hi)):
                x = NONE if x is n else x
                r = x if r is None else ite(g, x, r)
            hi = r
        t = T("slice", f, self.freeze(lo), self.freeze(hi)) if is_const(st, None) else T("slice", f, self.freeze(lo), self.freeze(hi), st)
        if tyof(f) == "str":
            t.ty = "str"
        elif elty(f) is not None:
            t.ty = ("list", elty(f))
        return t

    def copylist(self, b):
        o = self.obj(b)
        if o is not None and o.kind in ("list", "set", "dict"):
            t = self.new(o.kind)
            c = self.obj(t)
            if o.hot and len(self.binders) > o.depth:
                c.dirty = "copy of a growing list"
                return t
            c.pieces = [self.fresh((bs, self.gunder(g, self.live), e)) for bs, g, e in o.pieces]
            c.entries = list(o.entries)
            c.dirty = o.dirty
            c.default = o.default
            return t
        if b.op in ("lints", "nxp", "el", "some", "index", "slice", "coll") or isinstance(tyof(b), tuple):
            t = self.new("list")
            self.grow_free(t, self.pieces_of(b))
            return t
        return b

    def index(self, b, k):
        """b[k]"""
        if b.op == "ite":
            l = self.live
            outs = []
            tot = 0
            for g, x in leaves(b):
                self.live = AND(l, g)
                if self.live == 0:
                    continue
                outs.append((g, self.index(x, k)))
                tot = OR(tot, self.live)
            self.live = tot
            r = outs[-1][1]
            for g, x in reversed(outs[:-1]):
                r = ite(g, x, r)
            return r
        if k.op == "ite" and b.op in ("call", "sym", "attr", "index"):
            r = None
            for g, x in reversed(leaves(k)):
                l = self.live
                self.live = AND(l, g)
                y = self.index(b, x) if self.live else None
                self.live = l
                r = r if y is None else y if r is None else ite(g, y, r)
            return r
        if self.cbinputs and k.op == "const" and b.op == "ext" and b.args[0].split(".")[-1] in ("inputs", "states") and \
                b.args[0].split(".")[-2:-1] in (["callback_context"], ["ctx"]):
            return self.cbinputs.get(k.args[1]) or T("noinput", k)
        o = self.obj(b)
        if o is not None and o.kind == "graph":
            return T("adj1", self.freeze(b), self.freeze(k))
        if b.op == "graph" or b.ty == "graph":
            return T("adj1", self.freeze(b), self.freeze(k))
        if b.op == "adj1":
            return T("adj", b.args[0], b.args[1], self.freeze(k))
        if b.op == "adj":
            k = self.freeze(k)
            if k.op == "ekey":
                return k.args[0]
            if b.args[0].op == "graph" and not b.args[0].args[0]:
                d = some(self.adjdata(b))
                return self.index(d, k)
            return self.index(T("index", b, k), k) if False else T("index", b, k)
        if b.op == "ent" or b.op == "dict" and b in self.changed:
            f = self.freeze(b)
            if f in self.changed and f.op == "dict":
                r = self.lookup(f, k)
                if r.op not in ("obj", "dict", "coll"):
                    return T("index", self.entbase(b), self.freeze(k))
            k = self.freeze(k)
            if b.op == "ent" and b.args[1].op == "dict" and b.args[1] is not f:
                r = self.lookup(b.args[1], k)
                if r.op == "shared":
                    return self.common(r)
            r = self.lookup(f, k) if f.op == "dict" else self.index(f, k)
            return self.asent(T("tuple", b.args[0], k) if b.op == "ent" else k, r)
        if o is not None and o.kind == "dict":
            k2 = self.freeze(k)
            r = self.lookup(b, k, mark=True)
            if r.op == "shared":
                return self.common(r)
            return self.unshared(r) if k2.op == "const" else self.asent(k2, r if r.op == "dict" else self.unshared(r))
        if b.op == "dict" or b.op == "coll" and b.args[0] == "dmap":
            return self.lookup(b, k)
        if k.op == "const" and isinstance(k.args[1], int) and not isinstance(k.args[1], bool):
            i = k.args[1]
            if b.op == "tuple":
                if -len(b.args) <= i < len(b.args):
                    return b.args[i]
                self.maybe_raise("IndexError", 1)
                return unk("index")
            if o is not None and o.kind == "list" and not o.dirty:
                if o.hot and len(self.binders) > o.depth:
                    f = self.grown(o)
                    if f.op == "coll" and len(f.args[1]) == 1:
                        bs, g, e = openp(f.args[1][0])
                        if g == 1 and len(bs) == 1 and e is bs[0]:
                            f = e.args[1]
                    x = T("index", f, self.freeze(k))
                    x.ty = o.hotty if o.hotx and o.hotty != "any" else None
                    return x
                if all(not p[0] for p in o.pieces) and all(AND(self.live, NOT(p[1])) == 0 for p in o.pieces) and -len(o.pieces) <= i < len(o.pieces):
                    return o.pieces[i][2]
            if b.op == "const" and isinstance(b.args[1], str):
                try:
                    return const(b.args[1][i])
                except IndexError:
                    return unk("index")
            f = self.freeze(b)
            if f.op == "coll":
                if i in (0, -1):
                    self.maybe_raise("IndexError", NOT(exists(f.args[1])))
                    if all(not p[0] for p in f.args[1]) and f.args[1]:
                        ps = f.args[1] if i == 0 else f.args[1][::-1]
                        r = ps[-1][2]
                        for p in reversed(ps[:-1]):
                            r = ite(p[1], p[2], r)
                        return r
                    return some(f)
                if all(not p[0] and p[1] == 1 for p in f.args[1]):
                    if -len(f.args[1]) <= i < len(f.args[1]):
                        return f.args[1][i][2]
                    self.maybe_raise("IndexError", 1)
                    return unk("index")
                if 0 < i < len(f.args[1]) <= 4 and all(not p[0] for p in f.args[1]):
                    # which of them comes as number i
                    at = [1] + [0] * i
                    out = []
                    for p in f.args[1]:
                        out.append((AND(at[i], p[1]), p[2]))
                        at = [OR(AND(at[j], NOT(p[1])), AND(at[j - 1], p[1]) if j else 0) for j in range(i + 1)]
                    out = [(AND(h, self.live), x) for h, x in out if AND(h, self.live) != 0]
                    if out:
                        self.maybe_raise("IndexError", NOT(OR(*[h for h, x in out])))
                        r = out[-1][1]
                        for h, x in out[:-1]:
                            r = ite(h, x, r)
                        return under(r, self.live)
                self.maybe_raise("IndexError", NOT(pos(length(f), const(i))) if i > 0 else 0)
                return T("index", f, k)
            if f.op == "sorted" and i in (0, -1) and len(f.args) == 1:
                c = f.args[0]
                if N.is_numeric_coll(c):
                    return red("min" if i == 0 else "max", c.args[1])
            if tyof(f) == ("list", "str") or f.op == "split":
                self.maybe_raise("IndexError", T_short(f, i), "column")
            if f.op in ("nxp",) and i in (0,):
                self.maybe_raise("NetworkXNoPath", T_nopath(f))
                return some(f)
            if f.op in ("lints",) and i == 0:
                return T("index", f, k)
            r = T("index", f, k)
            if tyof(f) == ("list", "str") or f.op == "split":
                r.ty = "str"
            e = elty(f)
            if e is not None and r.ty is None:
                r.ty = e
            return r
        f = self.freeze(b)
        k = self.freeze(k)
        if k.op == "const" and k.args[1] == "interfaces" and (tyof(f) == "lpath" or f.op == "attr" and f.args[1] == "path"):
            self.maybe_raise("TypeError", unrouted(f))
            return T("lints", f)
        if k.op == "idx":
            d = k.args[0]
            if d.op != "tuple" and d.args[1] is f:
                return d
            ds = d.args if d.op == "tuple" else (d,)
            if f.op == "coll" and len(f.args[1]) == 1 and len(f.args[1][0][0]) == len(ds):
                bs2, g2, e2 = openp(f.args[1][0])
                ren = {}
                for x, y in zip(bs2, ds):
                    if (subst(x.args[1], ren) if ren else x.args[1]) is not y.args[1]:
                        break
                    ren[x] = y
                else:
                    return subst(e2, ren)
        if k.op == "poly":
            m = add(k, const(1), -1)
            if m.op == "idx" and m.args[0].op == "el" and m.args[0].args[1] is f:
                from .builtins_ import nxt
                return nxt(m.args[0])
            for z in subterms(k):
                if z.op == "idx" and z.args[0].op == "el" and z.args[0].args[1].op == "slice" and z.args[0].args[1].args[0] is f and \
                        len(z.args[0].args[1].args) == 3 and add(k, z, -1) is z.args[0].args[1].args[1]:
                    return z.args[0]
        if f.op in ("sym", "attr", "el", "index") and tyof(k) not in ("int", "num", "bool"):
            self.maybe_raise("KeyError", NOT(N.atom("in", k, f)), "key")
        r = T("index", f, k)
        return r

    def adjdata(self, adj):
        g, u, v = adj.args
        out = []
        if g.op != "graph":
            return T("edges", adj)
        for p in self.pieces_of(g.args[1]):
            bs, gg, e = p
            if e.op != "tuple" or len(e.args) < 2:
                return unk("edge")
            data = e.args[2] if len(e.args) > 2 else T("dict", ())
            out.append((bs, AND(gg, eq(e.args[0], u), eq(e.args[1], v)), data))
        return coll("list", out)

    # ------------------------------------------------------------ comprehensions
    def comp(self, n, kind):
        l0 = self.live
        fr = self.frames[-1]
        env0 = dict(fr.env)
        out = []
        nb0 = len(self.binders)
        ntry = [len(t.raised) for t in self.trys]
        nun = len(self.uncaught)
        raised_close = []

        def rec(i, bs):
            if i == len(n.generators):
                if isinstance(n, ast.DictComp):
                    k = self.freeze(self.val(n.key))
                    v = self.val(n.value)
                    v = self.kept(v, bs) if bs else self.freeze(v)
                    out.append((tuple(bs), self.gunder(self.live, l0), T("tuple", k, v)))
                else:
                    v = self.freeze(self.val(n.elt))
                    out.append((tuple(bs), self.gunder(self.live, l0), v))
                return
            gen = n.generators[i]
            v = self.val(gen.iter)
            l1 = self.live
            for b2, g, e in self.pieces_of(v):
                self.live = AND(l1, g)
                if self.live == 0:
                    continue
                mtry = [len(t.raised) for t in self.trys]
                mun = len(self.uncaught)
                self.binders += list(b2)
                self.bind_comp(gen.target, e)
                ok = True
                for c in gen.ifs:
                    h = self.truth(self.val(c))
                    self.live = AND(self.live, h)
                    if self.live == 0:
                        ok = False
                        break
                if ok:
                    rec(i + 1, list(bs) + list(b2))
                if b2:
                    del self.binders[len(self.binders) - len(b2):]
                    for t, k0 in zip(self.trys, mtry):
                        for j in range(k0, len(t.raised)):
                            rg, ex, hi = t.raised[j]
                            t.raised[j] = (exists([(b2, rg, NONE)]), ex, hi)
                    for j in range(mun, len(self.uncaught)):
                        self.uncaught[j] = exists([(b2, self.uncaught[j], NONE)])
            self.live = l1
        rec(0, [])
        del self.binders[nb0:]
        fr.env.clear()
        fr.env.update(env0)
        stop = 0
        for t, k0 in zip(self.trys, ntry):
            for j in range(k0, len(t.raised)):
                stop = OR(stop, t.raised[j][0])
        for x in self.uncaught[nun:]:
            stop = OR(stop, x)
        self.live = AND(l0, NOT(stop))
        return out

    def bind_comp(self, target, e):
        env = self.frames[-1].env
        if isinstance(target, ast.Name):
            env[target.id] = e
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, t in enumerate(target.elts):
                self.bind_comp(t, self.unpack(e, i, len(target.elts)))

    def ev_ListComp(self, n):
        t = self.new("list")
        ps = self.comp(n, "list")
        self.grow_free(t, ps)
        return t

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, n):
        t = self.new("set")
        ps = self.comp(n, "set")
        self.grow_free(t, ps)
        return t

    def ev_DictComp(self, n):
        ps = self.comp(n, "dict")
        t = self.new("dict")
        o = self.obj(t)
        for bs, g, e in ps:
            o.entries.append((bs, g, e.args[0], e.args[1], "set"))
        return t

    def ev_Yield(self, n):
        v = self.val(n.value) if n.value is not None else NONE
        g = self.frames[-1].gen
        if g is not None:
            self.grow(g, [((), 1, v)])
        return NONE

    def ev_YieldFrom(self, n):
        v = self.val(n.value)
        g = self.frames[-1].gen
        if g is not None:
            self.grow(g, self.pieces_of(v))
        return NONE

    def ev_Await(self, n):
        return self.val(n.value)

    def ev_Starred(self, n):
        return unk("starred")

    # ------------------------------------------------------------ calls
    def ev_Call(self, n):
        f = n.func
        # super().__init__ and friends
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == "super":
            return self.call_super(f.attr, n)
        # d[k].append(x) on a dict entry
        if isinstance(f, ast.Attribute) and f.attr in ("append", "add") and isinstance(f.value, ast.Subscript) \
                and not isinstance(f.value.slice, ast.Slice):
            b = self.val(f.value.value)
            o = self.obj(b)
            if o is not None and o.kind == "dict":
                k = self.val(f.value.slice)
                cur = None
                rel = self.rel(o)
                for bs, g, kk, x, m in reversed(o.entries):
                    if m == "set" and kk is k and bs == rel[:len(bs)] and self.obj(x) is not None:
                        cur = x
                        break
                    if m == "set" and kk.op == "const" and k.op == "const" and kk is not k:
                        continue
                    break
                if cur is None:
                    v = self.val(n.args[0])
                    if o.default is None:
                        its = None if (o.hot and len(self.binders) > o.depth) else self.items_of(b)
                        if its is not None:
                            have = OR(*[exists([(bs, AND(g, eq(kk, k)), NONE)]) for bs, g, kk, x in its]) if its else 0
                            self.maybe_raise("KeyError", NOT(have))
                        else:
                            self.maybe_raise("KeyError", NOT(N.atom("in", self.freeze(k), self.past(o))))
                    o.entries.append((rel, self.live, k, v, "app"))
                    return NONE
        if isinstance(f, ast.Attribute) and f.attr in ("append", "add") and isinstance(f.value, ast.Call) and \
                isinstance(f.value.func, ast.Attribute) and f.value.func.attr == "setdefault":
            b = self.val(f.value.func.value)
            o = self.obj(b)
            if o is not None and o.kind == "dict":
                k = self.val(f.value.args[0])
                v = self.val(n.args[0])
                o.default = o.default or "list"
                o.entries.append((self.rel(o), self.live, k, v, "app"))
                return NONE
        fv = self.ev(f)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                args.append(("star", self.val(x.value)))
            else:
                args.append(self.val(x))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.val(k.value)
                its = self.items_of(v)
                if its is not None and all(not bs and kk.op == "const" for bs, g, kk, x in its):
                    for bs, g, kk, x in its:
                        kw[kk.args[1]] = x
            else:
                kw[k.arg] = self.val(k.value)
        star = [a for a in args if isinstance(a, tuple)]
        self.mark(n)
        if star:
            flat = []
            for a in args:
                if isinstance(a, tuple):
                    o = self.obj(a[1])
                    if a[1].op == "tuple":
                        flat += list(a[1].args)
                    elif o is not None and o.kind == "list" and all(not p[0] for p in o.pieces) and not o.hot:
                        flat += [p[2] for p in o.pieces]
                    else:
                        flat.append(T("star", self.freeze(a[1])))
                else:
                    flat.append(a)
            args = flat
        return self.call(fv, args, kw, n)

    def call(self, fv, args, kw, n):
        op = fv.op
        if op == "ite":
            l = self.live
            r = []
            tot = 0
            for g, x in leaves(fv):
                self.live = AND(l, g)
                if self.live:
                    r.append((g, self.call(x, args, kw, n)))
                    tot = OR(tot, self.live)
            self.live = tot
            v = r[-1][1]
            for g, x in reversed(r[:-1]):
                v = ite(g, x, v)
            return v
        if op == "builtin":
            return self.builtin(fv.args[0], args, kw, n)
        if op == "func":
            for m in self.prog.modules.values():
                if m.rel == fv.args[0] and fv.args[1] in m.funcs:
                    return self.call_fn(m.funcs[fv.args[1]], args, kw, n)
        if op == "cls":
            return self.construct(fv.args[0], args, kw, n)
        if op == "lam":
            node, env, fr = self.lambdas[fv.args[0]]
            return self.call_lambda(node, env, fr, args, kw, n)
        if op == "unbound":
            f = self.prog.find(fv.args[0].args[0], "methods", fv.args[1])
            if f.kind in ("classmethod",):
                c = self.contract(fv.args[0], fv.args[0].args[0], fv.args[1], args, kw, n, f)
                return c if c is not None else self.call_fn(f, [fv.args[0]] + args, kw, n)
            if f.kind == "staticmethod":
                return self.call_fn(f, args, kw, n)
            if args and fv.args[0].args[0] in CLASSES + MODELS:
                return self.method(args[0], fv.args[1], args[1:], kw, n, f)
            return self.call_fn(f, args, kw, n)
        if op == "bound":
            return self.method(fv.args[0], fv.args[1], args, kw, n)
        if op == "maybe":
            return self.method(fv.args[0], fv.args[1], args, kw, n)
        if op == "cbreg" and len(args) == 1 and args[0].op == "lam":
            self.register(fv, args[0], n)
            return args[0]
        if op == "ext":
            return self.external(fv.args[0], args, kw, n)
        if op == "classattr":
            return T("call", "%s.%s" % fv.args, *[self.freeze(a) for a in args])
        if op == "classof":
            ty = tyof(fv.args[0])
        r = T("call", show(fv)[:60], *[self.freeze(a) for a in args])
        return r

    def call_lambda(self, node, env, fr, args, kw, n):
        from .load import Fn

        class FakeFn(object):
            pass
        f = FakeFn()
        f.node = node
        f.module = fr.module
        f.cls = fr.cls
        f.kind = "function"
        f.raw = True
        f.name = getattr(node, "name", "<lambda>")
        f.qual = (fr.fn.qual if fr.fn else "") + "." + f.name
        f.where = "%s:%d" % (fr.module.rel if fr.module else "?", node.lineno)
        if sum(1 for g in self.frames if g.fn is not None and getattr(g.fn, "node", None) is node) > 1:
            return unk("recursion")
        return self.call_fn(f, args, kw, n, closure=dict(env))

    def call_super(self, name, n):
        fr = self.frames[-1]
        selfv = fr.env.get("self") if "self" in fr.env else list(fr.env.values())[0]
        f = None
        c = fr.cls
        start = selfv.args[0] if selfv.op == "new" else (tyof(selfv) or (c.name if c else None))
        if start in ("Model",) and c is not None and c.name not in [k.name for k in self.prog.mro(self.prog.classes[start])]:
            start = c.name
        if c is not None:
            mro = self.prog.mro(self.prog.classes.get(start, c))
            if c not in mro:
                mro = self.prog.mro(c)
            for k in mro[mro.index(c) + 1:]:
                if name in k.methods:
                    f = k.methods[name]
                    break
        args = [self.val(x) for x in n.args]
        kw = {k.arg: self.val(k.value) for k in n.keywords if k.arg}
        if f is None:
            return NONE
        return self.call_fn(f, [selfv] + args, kw, n)

    def construct(self, cname, args, kw, n):
        if cname not in self.prog.classes:
            return T("exc", cname)
        if any(k.name in EXC_UP for k in self.prog.mro(self.prog.classes[cname])) or cname.endswith("Exception") or cname.endswith("Error"):
            return T("exc", cname)
        t = T("new", cname, uid(), *self.binders)
        t.ty = cname
        self.newinfo[t] = (cname, args, kw, self.where)
        self.event("new", name=cname, base=t, value=T("tuple", *[self.freeze(a) for a in args]))
        init = self.prog.method(cname, "__init__")
        if init is not None:
            self.call_fn(init, [t] + args, kw, n)
        return t

    # ---- methods of package classes
    def method(self, b, name, args, kw, n, f=None):
        if b.op == "ent" and name not in MUTATORS:
            b = b.args[1]
        if b.op == "ite":
            l = self.live
            outs = []
            tot = 0
            for g, x in leaves(b):
                self.live = AND(l, g)
                if self.live == 0:
                    continue
                outs.append((g, self.method(x, name, args, kw, n)))
                tot = OR(tot, self.live)
            self.live = tot
            if not outs:
                return NONE
            r = outs[-1][1]
            for g, x in reversed(outs[:-1]):
                r = ite(g, x, r)
            return r
        cn = tyof(b)
        if isinstance(cn, str) and (cn in CLASSES or cn in MODELS or cn in self.prog.classes):
            pc = self.pclass(b)
            f = f or self.prog.find(pc, "methods", name)
            if f is not None:
                c = self.contract(b, cn, name, args, kw, n, f)
                if c is not None:
                    return c
                if f.kind == "staticmethod":
                    return self.call_fn(f, args, kw, n)
                if f.kind == "classmethod":
                    return self.call_fn(f, [T("cls", pc)] + args, kw, n)
                return self.call_fn(f, [b] + args, kw, n)
            v = self.getattr(b, name)
            if v.op in ("lam", "func"):
                return self.call(v, args, kw, n)
        if cn is None and b.op in ("sym", "el", "index", "bv"):
            for a in B.support(self.live):
                if a.op == "isinst" and a.args[0] is b and a.args[1] in self.prog.classes and AND(self.live, NOT(B.var(a))) == 0:
                    f = self.prog.find(a.args[1], "methods", name)
                    if f is not None and f.kind == "method":
                        c = self.contract(b, a.args[1], name, args, kw, n, f)
                        return self.call_fn(f, [b] + args, kw, n) if c is None else c
        if b.op == "cls":
            f = self.prog.find(b.args[0], "methods", name)
            if f is not None:
                c = self.contract(b, b.args[0], name, args, kw, n, f) if f.kind == "classmethod" else None
                if c is not None:
                    return c
                return self.call_fn(f, ([b] if f.kind == "classmethod" else []) + args, kw, n)
        if name == "callback" and not isinstance(cn, str):
            r = self.regterm(args, kw, n)
            if r is not None:
                return r
        r = self.value_method(b, name, args, kw, n)
        return r

    def contract(self, b, cn, name, args, kw, n, f):
        c = self.contracts.get((("Model" if cn in MODELS else cn), name))
        if c is None or name in self.inline or (f is self.entry):
            return None
        a = self.bind(f, [b] + args, kw)
        return c(self, b, a, n)

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        off = len(names) - len(a.defaults)
        for i, nm in enumerate(names):
            if i < len(args):
                d[nm] = args[i]
            elif nm in kw:
                d[nm] = kw[nm]
            elif i >= off:
                d[nm] = self.default(f, a.defaults[i - off])
        return d

    from .builtins_ import builtin, value_method, external


def T_nopath(v):
    return N.atom("nopath", v.args[1], v.args[2], v.args[3]) if v.args[0] == "asp" else 0


def T_short(f, i):
    if i < 0:
        return N.atom("short", f, const(i))
    return NOT(pos(N.length(f), const(i)))


def mkunk(why):
    t = unk(why)
    t.ty = "bool"
    return t


def atom_refuse(b):
    return N.atom("refuses", b)


def trivial_getter(fn, storage):
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Return):
        return False
    v = body[0].value
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "round" and v.args:
        if len(v.args) > 1 and isinstance(v.args[1], ast.Constant) and isinstance(v.args[1].value, int) and v.args[1].value >= 1:
            v = v.args[0]
    return isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.attr == storage


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st += list(ast.iter_child_nodes(x))
    return False


def rebinds(body):
    """names given another value in a loop: "only" when that is all that happens to them, else "mixed"""
    out, used = {}, set()
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            out[y.id] = "only"
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                used.add(x.target.id)
            elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.value, ast.Name):
                if isinstance(x, ast.Attribute) or isinstance(x.ctx, (ast.Store, ast.Del)):
                    used.add(x.value.id)
    return {n: "mixed" if n in used else v for n, v in out.items()}


def assigned(body):
    out = []

    def rec(x):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.append(x.name)
            return
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    out.append(y.target.id)
            return
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.append(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.append(x.name)
        for y in ast.iter_child_nodes(x):
            rec(y)
    for s in body:
        rec(s)
    r = []
    for x in out:
        if x not in r:
            r.append(x)
    return r


def names_of(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]


def increments(x, v):
    """x += 1 or x = x + 1"""
    if isinstance(x, ast.AugAssign):
        return isinstance(x.target, ast.Name) and x.target.id == v and isinstance(x.op, ast.Add) and \
            isinstance(x.value, ast.Constant) and x.value.value == 1
    return isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
        x.targets[0].id == v and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add) and \
        any(isinstance(a, ast.Name) and a.id == v and isinstance(b, ast.Constant) and b.value == 1
            for a, b in ((x.value.left, x.value.right), (x.value.right, x.value.left)))


def skips(body):
    """may the statements start the next pass of the loop they are in"""
    st = list(body)
    while st:
        x = st.pop()
        if isinstance(x, ast.Continue):
            return True
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            st += [y for y in getattr(x, "orelse", [])]
            continue
        st += [y for y in ast.iter_child_nodes(x) if isinstance(y, (ast.stmt, ast.ExceptHandler))]
    return False


def while_as_for(s):
    """while i < len(xs): ..xs[i]..; i += 1  ->  for i in range(i, len(xs));  while xs: x = xs.pop() -> for x in xs"""
    t = s.test
    if s.orelse:
        return None
    f = None
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Gt):
        t = ast.Compare(left=t.comparators[0], ops=[ast.Lt()], comparators=[t.left])
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
            isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
        v = t.left.id
        k = [i for i, x in enumerate(s.body) if increments(x, v)]
        if len(k) != 1:
            return None
        k = k[0]
        rest = s.body[:k] + s.body[k + 1:]
        if v in assigned(rest) or skips(s.body[:k]):
            return None
        if any(isinstance(x, ast.Name) and x.id == v for y in s.body[k + 1:] for x in ast.walk(y)):
            return None
        f = ast.For(target=ast.Name(id=v, ctx=ast.Store()),
                    iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()),
                                  args=[ast.Name(id=v, ctx=ast.Load()), t.comparators[0]], keywords=[]),
                    body=rest or [ast.Pass()], orelse=[])
    else:
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call):
            t = t.left if isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Constant) and \
                t.comparators[0].value == 0 else None
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "len" and len(t.args) == 1:
            t = t.args[0]
        if isinstance(t, ast.Name) and s.body and isinstance(s.body[0], ast.Assign) and len(s.body[0].targets) == 1:
            c = s.body[0].value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("pop", "popleft") and \
                    isinstance(c.func.value, ast.Name) and c.func.value.id == t.id and not c.keywords and \
                    (not c.args or isinstance(c.args[0], ast.Constant) and c.args[0].value in (0, -1)) and \
                    not any(isinstance(x, ast.Name) and x.id == t.id for y in s.body[1:] for x in ast.walk(y)):
                src = ast.Name(id=t.id, ctx=ast.Load())
                if c.func.attr == "pop" and not (c.args and isinstance(c.args[0], ast.Constant) and c.args[0].value == 0):
                    src = ast.Call(func=ast.Name(id="reversed", ctx=ast.Load()), args=[
                        ast.Call(func=ast.Name(id="list", ctx=ast.Load()), args=[src], keywords=[])], keywords=[])
                f = ast.For(target=s.body[0].targets[0], iter=src, body=s.body[1:] or [ast.Pass()], orelse=[])
    if f is None:
        return None
    ast.copy_location(f, s)
    for x in ast.walk(f):
        if "lineno" not in getattr(x, "__dict__", {}) and isinstance(x, (ast.expr, ast.stmt)):
            ast.copy_location(x, s)
    return f
