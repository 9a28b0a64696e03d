"""Canonical effects of a function and their comparison with a specification.

The summary of a function (interp.Summary) is folded into channels:
  ret                 the value returned
  raise:<Exc>         the condition under which it raises
  store:<Class>.<attr> final value per assigned object, or accumulated amount
  mut:<Class>.<attr>  what is added to / removed from a collection and when
  call:<name>         calls with effects that are summarised elsewhere
Two functions agree on a channel when the normal forms are the same term.
"""
from .terms import T, B, AND, OR, NOT, NONE, const, ite, leaves, uid, mentions, subterms, gmentions, show, gshow, add
from . import norm as N
from .norm import deepgiven, Subst, closep, exists, attr, tyof, MODELS, order_binders, merge_pieces

MURKY = ("unk", "lv", "sofar", "upto", "maybe", "star")


RET = ("ret", "")


def versions(s, es, plain):
    """the moments at which the effects read each attribute of each object"""
    seen = {}
    ts = [x for e in es for x in (e.base, e.value, e.acc) if isinstance(x, T)] if es else [s.ret]
    ts += [b.args[1] for e in es for b in e.binders]
    for g in [e.guard for e in es] or [s.end]:
        ts += [a for a in B.support(g)]
    for x in {y for x in ts if x is not None for y in subterms(x)}:
        if x.op == "attr":
            seen.setdefault((plain.sub.t(x.args[0]), x.args[1]), set()).add(x.args[2])
    return seen


def mixed(s, plain):
    """the effects that read some attribute of an object at different moments"""
    out = set()
    for k in {(e.kind, e.name) for e in s.events if e.kind in ("store", "mut", "raise", "call")} | {RET}:
        es = [e for e in s.events if (e.kind, e.name) == k]
        if any(len(v) > 1 for v in versions(s, es, plain).values()):
            out.add(k)
    return out


def moments(s, t, facts, a, b):
    """differences that appear when reads of an attribute before and after it changed are told apart"""
    only = mixed(s, a) | mixed(t, b)
    if not only:
        return []
    out = None
    for ge in (False, True):
        x, y = Canon(s, ge, facts, a, only), Canon(t, ge, facts, b, only)
        ds = [d for d in compare(x, y) if len(parts(a.chan.get(d.chan))) < len(parts(x.chan.get(d.chan)))]
        out = ds if out is None else [d for d in out if d.chan in {z.chan for z in ds}]
    return out


class Canon(object):
    def __init__(self, s, given_end=False, facts=(), plain=None, only=()):
        """given_end: effects of the runs that end normally only; plain: the Canon that takes an attribute to be the
        same whenever it is read - here, reads of an attribute before and after it changed are told apart"""
        self.s = s
        self.given_end = given_end or s.fn.name == "__init__"
        self.newmap = {}
        self.newev = {}
        self.newvals = {}
        self.where = {}
        self.chan = {}
        evs = sorted(s.events, key=lambda e: e.seq)
        for e in evs:
            if e.kind == "new":
                self.newev[e.base.args[1]] = e
        self.sub = Subst(dict(facts), self.hook)
        self.busy = set()
        for e in evs:
            if e.kind == "store" and e.base is not None and e.base.op == "new" and e.base.args[1] in self.newev:
                self.newvals.setdefault(e.base.args[1], []).append(e)
        self.rank = None
        if plain is None:
            self.build(evs, given_end)
            return
        self.plain = plain
        for k in only:
            es = [e for e in evs if (e.kind, e.name) == k]
            seen = versions(s, es, plain)
            self.rank = {(x, v): i for x, vs in seen.items() for i, v in enumerate(sorted(vs))}
            self.sub = Subst(dict(facts), self.hook)
            self.newmap = {}
            old, self.chan = self.chan, {}
            self.build(es, given_end)
            if k != RET:
                self.chan.pop("ret", None)
            self.chan.update(old)

    # ---- canonical terms
    def hook(self, sub, t):
        if t.op == "attr" and self.rank is not None:
            return attr(sub.t(t.args[0]), t.args[1], self.rank.get(((self.plain.sub.t(t.args[0]), t.args[1]), t.args[2]), 0))
        if t.op == "attr" and t.args[2] != 0:
            return attr(sub.t(t.args[0]), t.args[1], 0)
        if t.op == "new" and t.args[1] in self.newev:
            return self.newterm(t)
        if t.op == "call" and len(t.args) > 1 and isinstance(t.args[0], str) and t.args[0].startswith("@"):
            pass
        return None

    def newterm(self, t):
        """an object as what it was given, described through the binders its creation is repeated over"""
        k = t.args[1]
        e0 = self.newev[k]
        r = self.newmap.get(k)
        if r is None:
            if k in self.busy:
                return T("newself", t.args[0])
            self.busy.add(k)
            d = {}
            for e in self.newvals.get(k, []):
                v = self.sub.t(e.value)
                g = self.sub.g(self.rel(e, e0))
                old = d.get(e.name)
                d[e.name] = v if old is None else ite(g, v, old)
            self.busy.discard(k)
            r = T("newobj", t.args[0], tuple(sorted(d.items(), key=lambda kv: kv[0])))
            r.ty = t.args[0]
            self.newmap[k] = r
        m = {}
        for x, y in zip(e0.base.args[2:], t.args[2:]):
            if x is not y:
                m[self.sub.t(x)] = self.sub.t(y)
        return N.subst(r, m) if m else r

    def rel(self, e, e0):
        g = e.guard
        for a in B.support(g):
            v = B.var(a)
            if AND(e0.guard, NOT(v)) == 0:
                g = B.restrict(g, a, 1)
            elif AND(e0.guard, v) == 0:
                g = B.restrict(g, a, 0)
        if AND(e0.guard, NOT(g)) == 0:
            return 1
        return g

    # ---- channels
    def build(self, evs, given_end):
        s = self.s
        end = self.sub.g(s.end)
        self.chan["ret"] = deepgiven(self.sub.t(s.ret), end) if s.ret is not None else NONE
        raises = {}
        stores = {}
        muts = {}
        calls = {}
        self.order = []
        for e in evs:
            if e.partial:
                # the elements after the one the loop stops at are not seen to
                g = AND(e.guard, B.var(N.atom_of("stops") if e.partial == "stops" else N.atom_of("partial", e.where)))
            else:
                g = e.guard
            g = self.sub.g(g)
            if self.given_end and e.kind not in ("raise",):
                g = AND(g, end)
            if g == 0:
                continue
            m = {}
            bs = []
            for b in e.binders:
                d = Subst(m, None).t(self.sub.t(b.args[1])) if m else self.sub.t(b.args[1])
                if d is b.args[1]:
                    bs.append(b)
                else:
                    nb = T("el", uid(), d)
                    nb.ty = b.ty
                    m[b] = nb
                    m[self.sub.t(b)] = nb
                    bs.append(nb)
            c = (lambda t, m=m: Subst(m).t(self.sub.t(t)) if m else self.sub.t(t))
            if m:
                g = N.gsubst(g, m)
            g = N.selfgiven(g, bs)
            nbs, m2 = N.givenbinders(tuple(bs), g)
            if m2:
                bs = list(nbs)
                g = N.gsubst(g, m2)
                c = (lambda t, c=c, m2=m2: N.subst(c(t), m2))
            c = (lambda t, c=c, g=g, bs=tuple(bs): deepgiven(c(t), g, bs))
            if e.kind == "raise":
                ch = "raise:" + e.name
                raises.setdefault(ch, []).append((tuple(bs), g, NONE))
                self.where.setdefault(ch, e.where)
            elif e.kind == "store":
                if e.base.op == "new" and e.base.args[1] in self.newev:
                    continue
                base = c(e.base)
                ty = tyof(base)
                ty = "Model" if ty in MODELS else ty if isinstance(ty, str) else "?"
                ch = "store:%s.%s" % (ty, e.name)
                via = "" if e.via == "plain" else e.via
                self.where.setdefault(ch, e.where)
                val = c(e.value)
                acc = c(e.acc) if e.acc is not None else None
                stores.setdefault(ch, []).append((tuple(bs), g, base, val, acc, via))
            elif e.kind == "mut":
                base = c(e.base)
                ch = "mut:" + self.setname(base)
                self.where.setdefault(ch, e.where)
                for h, x in eff_leaves(g, T("tuple", base, const(e.name), c(e.value))):
                    muts.setdefault(ch, []).append((tuple(bs), h, x))
            elif e.kind in ("call", "global"):
                ch = "call:" + e.name
                self.where.setdefault(ch, e.where)
                v = T("tuple", c(e.base) if e.base is not None else NONE, c(e.value) if e.value is not None else NONE)
                if e.name == "validate_model":
                    # how often it runs does not matter
                    g = exists([(tuple(bs), g, NONE)])
                    bs = []
                calls.setdefault(ch, {})
                for h, x in eff_leaves(g, v):
                    p = closep((tuple(bs), h, x))
                    k = (p[0], p[2])
                    calls[ch][k] = OR(calls[ch].get(k, 0), p[1])
        for ch, g in self.unvalidated(evs).items():
            self.chan[ch] = N.boolt(exists(g))
        for ch, g in raises.items():
            self.chan[ch] = N.boolt(exists(g))
        for ch in list(muts):
            d = {}
            for bs, g, x in merge_pieces(muts[ch], lambda x: x):
                if self.isset(x.args[0]):
                    bs, g = N.project(bs, g, x)
                p = closep((bs, g, x))
                d[(p[0], p[2])] = OR(d.get((p[0], p[2]), 0), p[1])
            muts[ch] = d
        for ch, d in list(muts.items()) + list(calls.items()):
            self.chan[ch] = T("effects", tuple(sorted(((k[0], g, k[1]) for k, g in d.items() if g),
                                                      key=lambda p: (p[2].id, tuple(b.id for b in p[0])))))
        for ch, l in stores.items():
            self.chan[ch] = self.fold(l)

    def unvalidated(self, evs):
        """changes that no validation follows, where the function validates at all"""
        vs = [e for e in evs if e.kind == "call" and e.name == "validate_model"]
        out = {}
        for e in evs if vs and self.rank is None else ():
            if e.kind not in ("mut", "store") or e.base is None or e.base.op == "new" and e.base.args[1] in self.newev:
                continue
            g = e.guard
            for v in vs:
                if v.seq > e.seq:
                    own = [b for b in v.binders if b not in e.binders]
                    g = AND(g, NOT(exists([(tuple(own), v.guard, NONE)])))
            g = self.sub.g(AND(g, self.s.end))
            if g:
                base = self.sub.t(e.base)
                ty = tyof(base)
                nm = self.setname(base) if e.kind == "mut" else "%s.%s" % ("Model" if ty in MODELS else ty, e.name)
                m = {b: self.sub.t(b) for b in e.binders}
                out.setdefault("call:validate_model before %s:%s" % (e.kind, nm), []).append(
                    (tuple(x for x in m.values() if x.op == "el"), g, NONE))
        return out

    def isset(self, b):
        ty = tyof(b)
        return isinstance(ty, tuple) and ty[0] == "set"

    def setname(self, b):
        if b.op == "attr":
            ty = tyof(b.args[0])
            return "%s.%s" % ("Model" if ty in MODELS else ty, b.args[1])
        return b.op

    def fold(self, l):
        groups = {}
        for bs, g, base, val, acc, via in l:
            ob = order_binders(bs)
            used = tuple(ob)
            key = closep((used, 1, base))
            key = (key[0], key[2], via)
            if key not in groups:
                groups[key] = [used, base, None, [], via]
            gr = groups[key]
            m = {b: r for b, r in zip(used, gr[0]) if b is not r}
            if m:
                g = N.gsubst(g, m)
                val = N.subst(val, m)
                acc = N.subst(acc, m) if acc is not None else None
                base = N.subst(base, m)
            old = T("old", base)
            if acc is not None and gr[2] is None:
                gr[3].append((g, acc))
            elif acc is not None:
                gr[2] = add(gr[2], ite(g, acc, const(0)))
            else:
                gr[2] = ite(g, val, gr[2] if gr[2] is not None else old)
        out = []
        for key, (bs, base, v, accs, via) in groups.items():
            if v is not None:
                if not (v.op == "old"):
                    p = closep((bs, 1, T("tuple", base, const("set" + via), v)))
                    out.append(p)
            tot = {}
            for g, a in accs:
                for h, x in leaves(a, g):
                    if h and not N.is_const(x, 0):
                        tot[h] = add(tot[h], x) if h in tot else x
            for g, a in tot.items():
                p = closep((bs, g, T("tuple", base, const("acc" + via), a)))
                out.append(p)
        out.sort(key=lambda p: (p[2].id, tuple(b.id for b in p[0]), p[1]))
        return T("effects", tuple(out))


def eff_leaves(g, t):
    """the cases of an effect, gates of its parts pulled out"""
    out = [(g, ())]
    for x in t.args:
        new = []
        xs = [(1, x)] if not isinstance(x, T) else leaves(x)
        if len(xs) == 1 and isinstance(x, T) and x.op == "tuple":
            xs = eff_leaves(1, x)
        xs = [z for k, y in xs for z in ([(AND(k, y.args[0]), N.TRUE), (AND(k, NOT(y.args[0])), N.FALSE)]
                                         if isinstance(y, T) and y.op == "bool" else [(k, y)])]
        for h, pre in out:
            for k, y in xs:
                if AND(h, k) != 0:
                    new.append((AND(h, k), pre + (y,)))
        out = new
    return [(h, T(t.op, *a)) for h, a in out]


def murky(t):
    from .interp import STICKY
    return [x for x in subterms(t) if (x.op in MURKY or x.op == "partial") and x not in STICKY]


class Diff(object):
    def __init__(self, chan, want, got, where, kind, why=""):
        self.chan = chan
        self.want = want
        self.got = got
        self.where = where
        self.kind = kind          # "differs" or "unclear"
        self.why = why
        self.helpers_want = self.helpers_got = frozenset()


def parts(t):
    if t is None:
        return []
    if t.op == "effects":
        return list(t.args[0])
    return [((), 1, t)]


def pshow(p):
    from .terms import pshow as ps
    bs, g, e = p
    if e.op == "tuple" and len(e.args) == 3 and e.args[1].op == "const":
        e2 = "%s %s %s" % (show(e.args[0]), e.args[1].args[1], show(e.args[2]))
    else:
        e2 = show(e)
    r = e2
    if bs:
        r += " for " + ",".join("%s in %s" % (show(b), show(b.args[1])) for b in bs)
    if g != 1:
        r += " if " + gshow(g)
    return r


def compare(spec, impl, channels=None):
    """differences between two Canon objects"""
    out = []
    names = sorted(set(spec.chan) | set(impl.chan))
    for ch in names:
        if channels is not None and not channels(ch):
            continue
        a, b = spec.chan.get(ch), impl.chan.get(ch)
        if a is b:
            continue
        pa, pb = parts(a), parts(b)
        only_a = [p for p in pa if p not in pb]
        only_b = [p for p in pb if p not in pa]
        if a is not None and b is not None and not only_a and not only_b:
            continue
        if ch.startswith("raise") and (a is None or b is None):
            if (a or b) is N.FALSE:
                continue
        if a is None and not pb or b is None and not pa:
            continue
        if Regions().same(only_a, only_b) if ch.startswith("raise") else samecases(only_a, only_b):
            continue
        known = set()
        for p in pa:
            for x in murk_piece(p):
                known.add(x.op if x.op in ("sofar", "upto") else x)
        new = [x for p in only_b for x in murk_piece(p) if x not in known and x.op not in known]
        kind = "differs"
        why = ""
        if new and (any(stops(p) for p in only_a) or not any(stops(p) for p in only_b)):
            kind, why = "unclear", "not analysed precisely: " + ", ".join(sorted({show(x)[:60] for x in new})[:3])
        d = Diff(ch, [pshow(p) for p in only_a], [pshow(p) for p in only_b], impl.where.get(ch) or spec.where.get(ch), kind, why)
        d.helpers_want = helpers(only_a)
        d.helpers_got = helpers(only_b)
        out.append(d)
    return out


_free = {}


def free(t):
    """the bound variables a term does not bind itself"""
    r = _free.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset((t,)) | free(t.args[1])
        else:
            r = frozenset().union(*[freeof(x) for x in t.args]) if t.args else frozenset()
            if t.op in ("ite", "bool"):
                for a in B.support(t.args[0]):
                    r |= free(a)
        _free[t] = r
    return r


def freeof(x):
    if isinstance(x, T):
        return free(x)
    if isinstance(x, tuple):
        if len(x) == 3 and isinstance(x[0], tuple) and isinstance(x[1], int) and isinstance(x[2], T):
            bs, g, e = x
            r = set(free(e))
            for a in B.support(g):
                r |= free(a)
            for b in bs:
                r |= free(b.args[1])
            return frozenset(r) - frozenset(bs)
        return frozenset().union(*[freeof(y) for y in x]) if x else frozenset()
    return frozenset()


def closedatoms(ps):
    """conditions on which whole pieces of the values depend, outermost first"""
    out = {}
    seen = set()

    def guard(g, w):
        for a in B.support(g):
            if not free(a) and not any(x.op in ("el",) + MURKY for x in subterms(a)):
                out[a] = out.get(a, 0) + w

    def value(t):
        if t in seen:
            return
        seen.add(t)
        for x in subterms(t):
            if x.op in ("coll", "red"):
                for bs, g, e in x.args[1]:
                    if len(x.args[1]) > 1 or not bs:
                        guard(N.outer(bs, g), 1)
            elif x.op == "ite":
                guard(x.args[0], 1)
    for bs, g, e in ps:
        guard(N.outer(bs, g), 100)
        value(e)
        for b in bs:
            value(b)
    return out


def incase(ps, a, v):
    """what is left of the pieces where the condition holds or does not"""
    s = Subst({a: N.TRUE if v else N.FALSE})
    out = {}
    for p in ps:
        if not (any(mentions(b, a) for b in p[0]) or gmentions(p[1], a) or mentions(p[2], a)):
            q = p
        else:
            q = closep(s.piece(p))
        if q[1] == 0:
            continue
        k = (q[0], q[2])
        out[k] = OR(out.get(k, 0), q[1])
    return frozenset((k[0], g, k[1]) for k, g in out.items())


def samecases(pa, pb, limit=600):
    """do both sides agree in every combination of the conditions their pieces depend on?"""
    if Regions().same(pa, pb):
        return True
    work = [(frozenset(pa), frozenset(pb))]
    n = tries = 0
    while work:
        x, y = work.pop()
        x, y = x - y, y - x
        if not x and not y:
            continue
        n += 1
        if n > limit:
            return False
        at = closedatoms(x)
        for a, w in closedatoms(y).items():
            at[a] = at.get(a, 0) + w
        if not at:
            if Regions().same(x, y):
                continue
            return False
        rest = [t for t in at if t.op != "exists"]
        if not rest and tries < 40:
            tries += 1
            if Regions().same(x, y):
                continue
        a = max(rest or at, key=lambda t: (at[t], -t.id))
        for v in (False, True):
            work.append((incase(x, a, v), incase(y, a, v)))
    return True


class Regions(object):
    """a form of two sides in which every 'there is one such that' about the same collection is told apart by the same
    conditions: as an alternative of the regions those conditions cut the collection into"""
    LIMIT = 64

    def __init__(self):
        self.known = {}

    def begin(self):
        self.met = {}
        self.memo = {}

    def round(self):
        """groups whose conditions are settled become known; is there a new one?"""
        new = False
        for k, (gs, raw) in self.met.items():
            if k not in self.known and not raw and len(gs) > 1:
                cells = [1]
                for g in sorted(gs):
                    cells = [c for x in cells for c in (AND(x, g), AND(x, NOT(g))) if c]
                    if len(cells) > self.LIMIT:
                        break
                self.known[k] = cells if len(cells) <= self.LIMIT else None
                new = True
        return new

    def same(self, pa, pb):
        for _ in range(4):
            self.begin()
            a, b = self.side(pa), self.side(pb)
            if a == b:
                return True
            if not self.round():
                return False
        return False

    def side(self, ps):
        out = {}
        for p in ps:
            k, g = self.piece(p, {}, 0)
            out[k] = OR(out.get(k, 0), g)
        return frozenset(out.items())

    def bind(self, bs, env, d):
        env = dict(env)
        src = []
        for b in bs:
            src.append(self.t(b.args[1], env, d))
            env[b] = T("level", d)
            d += 1
        return tuple(src), env, d

    def piece(self, p, env, d, exists=False):
        bs, g, e = p
        src, env, d = self.bind(bs, env, d)
        g = self.g(g, env, d)
        if len(bs) == 1 and not exists and self.known.get((src, d)):
            # an element is in a region there is something in
            g = AND(g, OR(*[AND(c, B.var(T("cell", src, c, T("level", d)))) for c in self.known[src, d]]))
        return (src, self.t(e, env, d)), g

    def g(self, g, env, d):
        if g < 2:
            return g
        return N._gs(g, lambda a: self.atom(a, env, d))

    def atom(self, a, env, d):
        if a.op != "exists" or len(a.args[0]) != 1 or len(a.args[0][0][0]) != 1:
            return B.var(self.t(a, env, d))
        if not free(a):
            env, d = {}, 0
        (src, _), g = self.piece(a.args[0][0], env, d, True)
        d += 1
        key = (src, d)
        me = T("level", d)
        sup = B.support(g)
        m = self.met.setdefault(key, (set(), [])) if key not in self.known else None
        if m is not None:
            m[0].add(g)
            if any(x.op == "raw" for y in sup for x in subterms(y)):
                m[1].append(1)
        cells = self.known.get(key)
        if cells is None or any(AND(c, g) not in (0, c) for c in cells):
            return B.var(T("raw" if key not in self.known else "one", src, g, d))
        r = 0
        for c in cells:
            if AND(c, g):
                r = OR(r, B.var(T("cell", src, c, me)))
        return r

    def t(self, t, env, d):
        if t in env:
            return env[t]
        if not isinstance(t, T):
            return t
        if not free(t):
            env, d = {}, 0
        k = (t, tuple((b, env[b]) for b in free(t) if b in env), d) if t.args else (t, (), 0)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._t(t, env, d)
        return r

    def _t(self, t, env, d):
        if t.op == "bool":
            return N.boolt(self.g(t.args[0], env, d))
        if t.op == "ite":
            return T("cond", self.g(t.args[0], env, d), self.t(t.args[1], env, d), self.t(t.args[2], env, d))
        return T(t.op, *[self.arg(x, env, d) for x in t.args])

    def arg(self, x, env, d):
        if isinstance(x, T):
            return self.t(x, env, d)
        if isinstance(x, tuple):
            if x and all(isinstance(p, tuple) and len(p) == 3 and isinstance(p[0], tuple) and isinstance(p[1], int) and
                         isinstance(p[2], T) for p in x):
                out = {}
                order = []
                for p in x:
                    k, g = self.piece(p, env, d)
                    if k not in out:
                        order.append(k)
                    out[k] = OR(out.get(k, 0), g)
                return tuple((k[0], out[k], k[1]) for k in sorted(order, key=repr_ids))
            return tuple(self.arg(y, env, d) for y in x)
        return x


def repr_ids(k):
    return tuple(x.id for x in k[0]), k[1].id


def murk_piece(p):
    bs, g, e = p
    r = set(murky(e))
    for b in bs:
        r |= set(murky(b))
    for a in B.support(g):
        r |= set(murky(a))
    return r


def stops(p):
    """an effect on some elements only, whichever the loop reaches before it stops"""
    return any(x.op == "stops" for a in B.support(p[1]) for x in subterms(a)) or any(x.op == "stops" for x in subterms(p[2]))


def helpers(ps):
    r = set()
    for bs, g, e in ps:
        ts = set(subterms(e))
        for b in bs:
            ts |= subterms(b)
        for a in B.support(g):
            ts |= subterms(a)
        r |= {x.args[0] for x in ts if x.op == "call" and isinstance(x.args[0], str)}
    return frozenset(r)
