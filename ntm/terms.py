"""Value terms and guards of the gated value-flow analysis.

A value is a hash-consed term T(op, args).  A guard (path condition of a value or an
effect) is a reduced ordered decision diagram over atoms, and atoms are canonical
terms.  Nothing here runs repository code and nothing is handed to a solver: equality
of values is equality of normal forms, implication of guards is a diagram operation
plus a small closed theory of orderings (see theory.py).
"""
from fractions import Fraction


class T(object):
    __slots__ = ("op", "args", "id", "_h", "ty")
    pool = {}
    n = 0

    def __new__(cls, op, *args):
        k = (op,) + args
        t = cls.pool.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(k)
            T.n += 1
            t.id = T.n
            t.ty = None
            cls.pool[k] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show(self)


# ---------------------------------------------------------------- guards (ROBDD)
class B(object):
    """Decision diagram manager; a guard is an int node id, 0 false, 1 true."""
    nodes = [None, None]          # id -> (atom T, lo, hi)
    uniq = {}
    itec = {}
    sup = {0: frozenset(), 1: frozenset()}

    @classmethod
    def mk(cls, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = cls.uniq.get(k)
        if r is None:
            cls.nodes.append(k)
            r = len(cls.nodes) - 1
            cls.uniq[k] = r
        return r

    @classmethod
    def var(cls, atom):
        return cls.mk(atom, 0, 1)

    @classmethod
    def ite(cls, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = cls.itec.get(k)
        if r is not None:
            return r
        v = None
        for x in k:
            if x > 1:
                a = cls.nodes[x][0]
                if v is None or a.id < v.id:
                    v = a
        lo = cls.ite(cls.cof(f, v, 0), cls.cof(g, v, 0), cls.cof(h, v, 0))
        hi = cls.ite(cls.cof(f, v, 1), cls.cof(g, v, 1), cls.cof(h, v, 1))
        r = cls.mk(v, lo, hi)
        cls.itec[k] = r
        return r

    @classmethod
    def cof(cls, f, v, val):
        if f < 2:
            return f
        n = cls.nodes[f]
        if n[0] is v:
            return n[2] if val else n[1]
        return f

    @classmethod
    def restrict(cls, f, v, val):
        """full cofactor (v may be below the top)"""
        if f < 2:
            return f
        n = cls.nodes[f]
        if n[0] is v:
            return n[2] if val else n[1]
        if n[0].id > v.id:
            return f
        k = ("r", f, v, val)
        r = cls.itec.get(k)
        if r is None:
            r = cls.mk(n[0], cls.restrict(n[1], v, val), cls.restrict(n[2], v, val))
            cls.itec[k] = r
        return r

    @classmethod
    def support(cls, f):
        s = cls.sup.get(f)
        if s is None:
            v, lo, hi = cls.nodes[f]
            s = cls.support(lo) | cls.support(hi) | frozenset((v,))
            cls.sup[f] = s
        return s


def AND(*gs):
    r = 1
    for g in gs:
        r = B.ite(r, g, 0)
    return r


def OR(*gs):
    r = 0
    for g in gs:
        r = B.ite(r, 1, g)
    return r


def NOT(g):
    return B.ite(g, 0, 1)


def IMP(f, g):
    """f implies g, propositionally"""
    return B.ite(f, g, 1) == 1


def XOR(f, g):
    return B.ite(f, NOT(g), g)


def paths(g, limit=4096):
    """satisfying cubes of a guard as dicts atom -> bool"""
    out = []

    def rec(x, acc):
        if len(out) >= limit:
            return
        if x == 0:
            return
        if x == 1:
            out.append(dict(acc))
            return
        v, lo, hi = B.nodes[x]
        acc[v] = True
        rec(hi, acc)
        acc[v] = False
        rec(lo, acc)
        del acc[v]
    rec(g, {})
    return out


def cover(g):
    """an irredundant sum of products of a guard, determined by the function alone: [[(atom, polarity)]]"""
    def isop(lo, up):
        if lo == 0:
            return [], 0
        if up == 1:
            return [[]], 1
        v = min((B.nodes[x][0] for x in (lo, up) if x > 1), key=lambda a: a.id)
        l0, l1 = B.cof(lo, v, 0), B.cof(lo, v, 1)
        u0, u1 = B.cof(up, v, 0), B.cof(up, v, 1)
        c0, f0 = isop(AND(l0, NOT(u1)), u0)
        c1, f1 = isop(AND(l1, NOT(u0)), u1)
        ld = OR(AND(l0, NOT(f0)), AND(l1, NOT(f1)))
        cd, fd = isop(ld, AND(u0, u1))
        f = OR(fd, AND(NOT(B.var(v)), f0), AND(B.var(v), f1))
        return [[(v, False)] + c for c in c0] + [[(v, True)] + c for c in c1] + cd, f
    return isop(g, g)[0]


# ---------------------------------------------------------------- constructors
def const(v):
    if isinstance(v, (list, dict, set)):
        raise ValueError(v)
    if isinstance(v, Fraction) and v.denominator == 1 or isinstance(v, float) and v == v and abs(v) < 1e15 and v == int(v):
        v = int(v)
    return T("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


def unk(why="?"):
    return T("unk", why, uid())


def is_const(t, v=Ellipsis):
    if t.op != "const":
        return False
    if v is Ellipsis:
        return True
    return type(t.args[1]) is type(v) and t.args[1] == v


def is_num_const(t):
    return t.op == "const" and t.args[0] in ("int", "float", "Fraction")


def num(t):
    return Fraction(t.args[1]).limit_denominator(10 ** 12)


def sym(name, ty=None):
    t = T("sym", name, ty)
    if ty is not None:
        t.ty = ty
    return t


# polynomials: T("poly", ((mono, coef), ...)) with mono a tuple of (T, exp) sorted by id
def _polyd(t):
    if t.op == "poly":
        return dict(t.args[0])
    if is_num_const(t):
        c = num(t)
        return {(): c} if c else {}
    return {((t, 1),): Fraction(1)}


def _mkpoly(d):
    d = {k: c for k, c in d.items() if c}
    if not d:
        return const(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(int(c) if c.denominator == 1 else float(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda kv: tuple((a.id, e) for a, e in kv[0])))
    t = T("poly", items)
    t.ty = "num"
    return t


def add(a, b, sign=1):
    if a.op == "ite" and (b.op != "ite" or a.args[0] == b.args[0]):
        g, x, y = a.args
        if b.op == "ite":
            return ite(g, add(x, b.args[1], sign), add(y, b.args[2], sign))
        return ite(g, add(x, b, sign), add(y, b, sign))
    if b.op == "ite":
        g, x, y = b.args
        return ite(g, add(a, x, sign), add(a, y, sign))
    d = dict(_polyd(a))
    for m, c in _polyd(b).items():
        d[m] = d.get(m, 0) + sign * c
    return _mkpoly(d)


def _mmul(m, n):
    d = {}
    for t, e in m + n:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda te: te[0].id))


def mul(a, b):
    if a.op == "ite":
        g, x, y = a.args
        return ite(g, mul(x, b), mul(y, b))
    if b.op == "ite":
        g, x, y = b.args
        return ite(g, mul(a, x), mul(a, y))
    d = {}
    for m, c in _polyd(a).items():
        for n, e in _polyd(b).items():
            k = _mmul(m, n)
            d[k] = d.get(k, 0) + c * e
    return _mkpoly(d)


def div(a, b):
    if b.op == "ite":
        g, x, y = b.args
        return ite(g, div(a, x), div(a, y))
    if is_num_const(b):
        c = num(b)
        if c == 0:
            return unk("division by zero")
        return mul(a, const(Fraction(1) / c) if (Fraction(1) / c).denominator != 1 else const(int(1 / c)))
    pd = _polyd(b)
    if len(pd) == 1:
        (m, c), = pd.items()
        inv = _mkpoly({tuple((t, -e) for t, e in m): 1 / c})
        return mul(a, inv)
    return mul(a, _mkpoly({((b, -1),): Fraction(1)}))


def ite(g, a, b):
    """canonical gate: the partition of the guards by leaf, in leaf order"""
    if g == 1 or a is b:
        return a
    if g == 0:
        return b
    d = {}
    for h, x in leaves(a, g):
        d[x] = OR(d.get(x, 0), h)
    for h, x in leaves(b, NOT(g)):
        d[x] = OR(d.get(x, 0), h)
    return gate(d)


collgate = [None, None, None]


def gate(d):
    d = dict(d)
    if len(d) == 1:
        for x in d:
            return x
    if all(x.op == "bool" or x is TRUE or x is FALSE for x in d):
        r = 0
        for x, h in d.items():
            r = OR(r, h if x is TRUE else 0 if x is FALSE else AND(h, x.args[0]))
        return boolt(r)
    bl = [x for x in d if x.op == "bool" or x is TRUE or x is FALSE]
    if len(bl) > 1 or bl and bl[0].op == "bool":
        r = h = 0
        for x in bl:
            k = d.pop(x)
            h = OR(h, k)
            r = OR(r, k if x is TRUE else 0 if x is FALSE else AND(k, x.args[0]))
        x = TRUE if r == h else boolt(r)
        d[x] = OR(d.get(x, 0), h)
        if len(d) == 1:
            return x
    sl = [x for x in d if x.op == "sorted" and len(x.args) == 1 and x.args[0].op == "coll" or
          x.op == "coll" and x.args[0] == "list" and not x.args[1]]
    if len(sl) > 1 and any(x.op == "sorted" for x in sl) and collgate[0] is not None:
        x = collgate[0]("list", [(d.pop(y), y.args[0] if y.op == "sorted" else y) for y in sorted(sl, key=lambda y: y.id)])
        y = x[1]
        if y.op == "coll" and y.args[1]:
            y = T("sorted", y)
            y.ty = y.args[0].ty
        d[y] = OR(d.get(y, 0), x[0])
        if len(d) == 1:
            return next(iter(d))
    cl = [x for x in d if x.op == "coll"]
    if len(cl) > 1 and collgate[0] is not None:
        kinds = {}
        for x in sorted(cl, key=lambda x: x.id):
            kinds.setdefault(x.args[0], []).append(x)
        for k, l in kinds.items():
            if len(l) > 1:
                x = collgate[0](k, [(d.pop(y), y) for y in l])
                d[x[1]] = OR(d.get(x[1], 0), x[0])
        if len(d) == 1:
            return next(iter(d))
    if len(cl) > 0 and len(d) > 1 and collgate[2] is not None:
        for x in cl:
            for y in list(d):
                if x in d and y is not x and y in d:
                    z = collgate[2](x, y, d[y], d[x])
                    if z is not None:
                        h = OR(d.pop(x), d.pop(y))
                        d[z] = OR(d.get(z, 0), h)
        if len(d) == 1:
            return next(iter(d))
    dl = [x for x in d if x.op == "dict"]
    if len(dl) > 1 and collgate[1] is not None:
        x = collgate[1]([(d[y], y) for y in sorted(dl, key=lambda y: y.id)])
        if x is not None:
            for y in dl:
                d.pop(y)
            d[x[1]] = OR(d.get(x[1], 0), x[0])
            if len(d) == 1:
                return next(iter(d))
    xs = sorted(d, key=lambda x: x.id)
    t = xs[-1]
    for x in xs[-2::-1]:
        t = T("ite", d[x], x, t)
    return t


def boolt(g):
    if g == 1:
        return TRUE
    if g == 0:
        return FALSE
    t = T("bool", g)
    t.ty = "bool"
    return t


def under(t, g):
    """simplify a value knowing that guard g holds (top-level gates only)"""
    if g == 1:
        return t
    if t.op == "ite":
        d = {}
        cut = False
        for h, x in leaves(t):
            if AND(g, h) == 0:
                cut = True
                continue
            if x.op == "bool":
                y = under(x, AND(g, h))
                cut = cut or y is not x
                x = y
            d[x] = OR(d.get(x, 0), h)
        if not cut or not d:
            return t
        return gate(d)
    if t.op == "bool":
        h = t.args[0]
        if AND(g, NOT(h)) == 0:
            return TRUE
        if AND(g, h) == 0:
            return FALSE
    return t


def leaves(t, g=1):
    """[(guard, leaf)] of the gates of a value"""
    r = []
    while t.op == "ite":
        h = AND(g, t.args[0])
        if h != 0:
            if t.args[1].op == "ite":
                r += leaves(t.args[1], h)
            else:
                r.append((h, t.args[1]))
        g = AND(g, NOT(t.args[0]))
        if g == 0:
            return r
        t = t.args[2]
    r.append((g, t))
    return r


def fmt(*parts):
    out = []
    for p in parts:
        if p.op == "fmt":
            sub = list(p.args)
        else:
            sub = [p]
        for s in sub:
            if s.op == "const":
                s = const(str(s.args[1]))
            if s.op == "const" and out and out[-1].op == "const":
                out[-1] = const(out[-1].args[1] + s.args[1])
            elif s.op == "const" and s.args[1] == "":
                pass
            else:
                out.append(s)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    t = T("fmt", *out)
    t.ty = "str"
    return t


# ---------------------------------------------------------------- traversal
# positions: a "pieces" argument is a tuple of (binders, guard, elt)
def _kids(t):
    """yields ('t', term) and ('g', guard) children"""
    op = t.op
    if op in ("const", "sym", "unk", "obj", "lv"):
        return
    if op == "poly":
        for m, c in t.args[0]:
            for x, e in m:
                yield "t", x
        return
    if op in ("ite",):
        yield "g", t.args[0]
        yield "t", t.args[1]
        yield "t", t.args[2]
        return
    if op == "bool":
        yield "g", t.args[0]
        return
    if op == "effects":
        for bs, g, e in t.args[0]:
            for b in bs:
                yield "t", b
            yield "g", g
            yield "t", e
        return
    if op in ("coll", "red"):
        for bs, g, e in t.args[1]:
            for b in bs:
                yield "t", b
            yield "g", g
            yield "t", e
        return
    if op == "exists":
        for bs, g, e in t.args[0]:
            for b in bs:
                yield "t", b
            yield "g", g
        return
    if op in ("el", "bv"):
        yield "t", t.args[1]
        return
    for x in _flat(t.args):
        yield "t", x


def _flat(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for x in _flat(a):
                yield x


_subs = {}


def subterms(t):
    """all subterms including those inside guards (frozenset)"""
    s = _subs.get(t)
    if s is None:
        acc = {t}
        for k, x in _kids(t):
            if k == "t":
                acc |= subterms(x)
            else:
                for a in B.support(x):
                    acc |= subterms(a)
        s = frozenset(acc)
        _subs[t] = s
    return s


def gsub(g):
    acc = set()
    for a in B.support(g):
        acc |= subterms(a)
    return acc


def mentions(t, x):
    return x in subterms(t)


def gmentions(g, x):
    for a in B.support(g):
        if x in subterms(a):
            return True
    return False


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 14:
        return "..."
    op = t.op
    s = lambda x: show(x, d + 1)
    if op == "const":
        return repr(t.args[1])
    if op == "sym":
        return t.args[0]
    if op == "el":
        return "e%d" % t.args[0]
    if op == "bv":
        return "b%d" % t.args[0]
    if op == "attr":
        v = t.args[2]
        return "%s.%s%s" % (s(t.args[0]), t.args[1], "" if v == 0 else "'%s" % v)
    if op == "poly":
        out = []
        for m, c in t.args[0]:
            ms = "*".join(s(x) + ("" if e == 1 else "^%d" % e) for x, e in m)
            out.append(("%s*%s" % (c, ms) if c != 1 else ms) if m else str(c))
        return "(" + " + ".join(out) + ")"
    if op == "ite":
        return "(%s if %s else %s)" % (s(t.args[1]), gshow(t.args[0], d + 1), s(t.args[2]))
    if op == "bool":
        return "<%s>" % gshow(t.args[0], d + 1)
    if op in ("coll", "red"):
        k = t.args[0]
        return "%s[%s]" % (k, "; ".join(pshow(p, d + 1) for p in t.args[1]))
    if op == "exists":
        return "some[%s]" % "; ".join(pshow((b, g, NONE), d + 1, False) for b, g, e in t.args[0])
    if op == "fmt":
        return "f\"%s\"" % "".join(x.args[1] if x.op == "const" else "{" + s(x) + "}" for x in t.args)
    if op == "pos":
        return "%s>0" % s(t.args[0])
    if op == "eq":
        return "%s==%s" % (s(t.args[0]), s(t.args[1]))
    if op == "in":
        return "%s in %s" % (s(t.args[0]), s(t.args[1]))
    if op == "truthy":
        return s(t.args[0])
    return "%s(%s)" % (op, ", ".join(s(a) if isinstance(a, T) else
                                    ("(" + ",".join(s(x) if isinstance(x, T) else str(x) for x in a) + ")" if isinstance(a, tuple) else str(a))
                                    for a in t.args))


def pshow(p, d=0, elt=True):
    bs, g, e = p
    r = show(e, d) + " " if elt else ""
    if bs:
        r += "for " + ",".join("%s in %s" % (show(b), show(b.args[1], d)) for b in bs)
    if g != 1:
        r += " if " + gshow(g, d)
    return r


def gshow(g, d=0):
    if g == 1:
        return "always"
    if g == 0:
        return "never"
    cs = paths(g, 9)
    if len(cs) > 8:
        return "<%d atoms: %s>" % (len(B.support(g)), ", ".join(show(a, d + 1) for a in B.support(g)))
    return " | ".join(" & ".join(("" if v else "not ") + show(a, d + 1) for a, v in c.items()) for c in cs)
