"""Specification units: the declarative reference functions in /verif/spec, laid over the parsed repository.

A unit pairs one function of the repository with its specification.  Both are put through the same
value-flow analysis and their normal forms are compared channel by channel.  Nothing is executed.
"""
import ast
import json
import os
import signal
import time

from .load import Program, Module, Cls, Fn
from .interp import Interp, GiveUp
from .terms import T, sym, NONE, TRUE, mentions, subterms, show, uid
from . import contracts, diff, norm as N

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODELCLS = ("FlexModel", "PerformanceModel")


class SpecFn(object):
    """what the decorators of a reference function say"""
    def __init__(self, fn):
        self.fn = fn
        self.props = {}          # property -> list of channel patterns
        self.opaque = None       # return type when call sites keep the call
        self.effret = None
        self.effects = None      # channels an opaque call with effects stands for
        self.classes = None
        self.takesmodel = any(x.arg == "model" for x in fn.node.args.args)
        self.atomic = False      # effects of runs that end in an error count as well
        self.weight = len(list(ast.walk(fn.node)))
        for d in fn.node.decorator_list:
            if not isinstance(d, ast.Call) or not isinstance(d.func, ast.Name):
                continue
            n = d.func.id
            a = [ast.literal_eval(x) for x in d.args]
            k = {x.arg: ast.literal_eval(x.value) for x in d.keywords}
            if n == "holds":
                for p in (a[0] if a else "").split():
                    self.props.setdefault(p, []).append("*")
                for ch, ps in k.items():
                    for p in ps.split():
                        self.props.setdefault(p, []).append(ch)
                for ch, ps in (a[1] if len(a) > 1 else {}).items():
                    for p in ps.split():
                        self.props.setdefault(p, []).append(ch)
            elif n == "opaque":
                self.opaque = k.get("ret", a[0] if a else "any")
            elif n == "effectful":
                self.effects = tuple(a)
                self.effret = k.get("ret")
            elif n == "classes":
                self.classes = tuple(a)
            elif n == "atomic":
                self.atomic = True

    def wants(self, prop):
        pats = self.props.get(prop)
        if not pats:
            return None

        def f(ch):
            for p in pats:
                if p == "*" or p == ch or ch.startswith(p + ":") or ch.startswith(p + ".") or ch.startswith(p + " ") or \
                        (p == "effects" and ch.split(":")[0] in ("store", "mut", "call")) or \
                        (p.startswith("_") and ch.endswith("." + p[1:])):
                    return True
            return False
        return f


class Overlay(Program):
    """the repository with the reference functions taking precedence"""
    def __init__(self, repo, specdir):
        Program.__init__(self, repo)
        self.specs = {}
        self.speccls = {}
        self.specfuncs = {}
        for f in sorted(os.listdir(specdir)):
            if not f.endswith(".py"):
                continue
            p = os.path.join(specdir, f)
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
            m = Module("spec/" + f, ast.parse(src, p), src)
            real = self.modules.get(f[:-3])
            save = dict(self.classes)
            self.classes = {}
            self._scan(m)
            mine, self.classes = self.classes, save
            m.classes = {}
            if real is not None:
                for k, v in real.imports.items():
                    m.imports.setdefault(k, v)
                for k, v in real.consts.items():
                    m.consts.setdefault(k, v)
                for k, v in real.funcs.items():
                    if k not in m.funcs:
                        m.funcs.setdefault(k, v)
            for c in mine.values():
                self.speccls.setdefault(c.name, []).append(c)
                for tab in ("methods", "getters", "setters"):
                    for fn in getattr(c, tab).values():
                        s = SpecFn(fn)
                        self.specs[(c.name, tab, fn.name)] = s
            for fn in list(m.funcs.values()):
                if fn.module is m:
                    self.specs[(None, "funcs", fn.name)] = SpecFn(fn)
                    self.specfuncs[fn.name] = fn
            self.modules["spec." + f[:-3]] = m

    def find(self, cname, table, name):
        c = self.classes.get(cname)
        if c is None:
            return None
        mro = self.mro(c)
        for k in mro:
            for s in self.speccls.get(k.name, ()):
                f = getattr(s, table).get(name)
                if f is not None:
                    return f
        return Program.find(self, cname, table, name)


def opaque_pure(key, ret):
    cls, tab, name = key

    def f(I, b, a, n):
        t = T("call", name, *([I.freeze(b)] if b is not None and b.op != "cls" else []),
              *[T("arg", k, I.freeze(a[k])) for k in sorted(a) if k not in ("self", "cls")])
        t.ty = ret
        return t
    return f


def opaque_effect(key, effects, ret=None):
    cls, tab, name = key

    def f(I, b, a, n):
        v = T("tuple", *[T("arg", k, I.freeze(a[k])) for k in sorted(a) if k not in ("self", "cls")])
        I.event("call", base=I.freeze(b), name=name, value=v)
        for e in effects:
            c, at = e.split(".")
            I.bump(at, c)
            for k in [k for k in I.attrs if k[1] == at]:
                del I.attrs[k]
        if b.op == "cls":
            # a collection handed over may have got further elements
            for k in sorted(a):
                o = I.obj(a[k])
                if o is not None and o.kind in ("list", "set"):
                    new = T("added", name, k, v)
                    x = T("el", uid(), new)
                    o.pieces.append((I.rel(o) + (x,), I.live, x))
        if ret == "base" or name.startswith("_route_"):
            return b
        if ret in a:
            return a[ret]
        if ret is not None:
            t = T("call", name, I.freeze(b), v)
            t.ty = ret
            return t
        return NONE
    return f


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


class Analysis(object):
    def __init__(self, repo="/repo", budget=120):
        self.repo = repo
        self.impl = Program(repo)
        self.spec = Overlay(repo, os.path.join(HERE, "spec"))
        self.budget = budget
        self.cache = {}
        self.table = dict(contracts.BASE)
        with open(os.path.join(HERE, "spec", "level2.json")) as f:
            self.vague = json.load(f)
        self.opq = {}
        for key, s in self.spec.specs.items():
            if s.opaque is not None or s.effects is not None:
                c, tab, nm = key
                k = ("Model" if c in N.MODELS or c == "_MasterModel" else c, nm)
                f = opaque_pure(key, s.opaque) if s.effects is None else opaque_effect(key, s.effects, s.effret)
                self.opq[k] = f

    def units(self):
        out = []
        for (c, tab, nm), s in sorted(self.spec.specs.items(), key=lambda kv: (kv[0][0] or "", kv[0][1], kv[0][2])):
            if not s.props and s.opaque is None and s.effects is None:
                continue
            for k in self.runclasses(c, s):
                out.append((c, tab, nm, k))
        return out

    def specof(self, u):
        return self.spec.specs[(u[0], u[1], u[2])]

    def runclasses(self, c, s):
        if s.classes:
            return s.classes
        if c == "_MasterModel":
            return MODELCLS
        if c in MODELCLS:
            return (c,)
        if s.takesmodel:
            return MODELCLS
        return ("FlexModel",)

    def locate(self, prog, c, tab, nm, k):
        if c is None:
            if prog is self.spec:
                return prog.specfuncs.get(nm)
            for m in prog.modules.values():
                if nm in m.funcs:
                    return m.funcs[nm]
            return None
        return prog.find(k if c == "_MasterModel" else c, tab, nm)

    def summ(self, prog, fn, c, k, inline, args=None):
        t = dict(contracts.BASE)
        if not inline:
            t.update(self.opq)
        I = Interp(prog, k, t)
        st = k if c == "_MasterModel" else None
        s = I.run(fn, args=args, selfty=st)
        return I, s

    def judge(self, u):
        """[Diff] of a unit, or a reason why it was not decided"""
        if u in self.cache:
            return self.cache[u]
        r = self._judge(u)
        self.cache[u] = r
        return r

    def compare(self, u, inline):
        c, tab, nm, k = u
        sf = self.locate(self.spec, c, tab, nm, k)
        f = self.locate(self.impl, c, tab, nm, k)
        first = [x.arg for x in sf.node.args.posonlyargs + sf.node.args.args][:1]
        pre = {"cls": T("cls", k if c == "_MasterModel" else c)} if first == ["cls"] else None
        I, s = self.summ(self.spec, sf, c, k, inline, pre)
        names = [x.arg for x in sf.node.args.posonlyargs + sf.node.args.args]
        mine = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        args = {}
        recv = names[:1] if c is not None and first in (["cls"], ["self"]) else []
        names = names[len(recv):]
        if f.kind in ("method", "getter", "setter", "classmethod") and mine:
            if f.kind == "classmethod":
                args[mine[0]] = T("cls", k if c == "_MasterModel" else c)
            elif recv == ["self"]:
                args[mine[0]] = s.args["self"]
            mine = mine[1:]
        if nm.startswith("_") and set(names) <= set(mine):
            mine = names + [n for n in mine if n not in names]
        for i, n in enumerate(mine):
            if i < len(names):
                args[n] = s.args[names[i]]
        extra = len(mine) - len(names)
        if extra > 0:
            J = Interp(self.impl, k, dict(contracts.BASE))
            ds = dict(zip(reversed([x.arg for x in f.node.args.args]), reversed(f.node.args.defaults)))
            for n in mine[len(names):]:
                if n not in ds:
                    return None, "takes %d arguments, the specification %d" % (len(mine), len(names)), None
                args[n] = J.default(f, ds[n])
        J, t = self.summ(self.impl, f, c, k, inline, args)
        a, b = diff.Canon(s, False, I.facts), diff.Canon(t, False, I.facts)
        ds = diff.compare(a, b)
        if ds and not a.given_end and tab != "setters" and not self.specof(u).atomic:
            a2, b2 = diff.Canon(s, True, I.facts), diff.Canon(t, True, I.facts)
            still = {d.chan for d in diff.compare(a2, b2)}
            ds = [d for d in ds if d.chan in still]
        ds += [d for d in diff.moments(s, t, I.facts, a, b) if d.chan not in {x.chan for x in ds}]
        return ds, (a, b), (I, J)

    def _judge(self, u):
        c, tab, nm, k = u
        t0 = time.time()
        res = Result(u)
        sf = self.locate(self.spec, c, tab, nm, k)
        f = self.locate(self.impl, c, tab, nm, k)
        res.specfn, res.fn = sf, f
        if f is None:
            res.status = "absent"
            return res
        res.where = f.where
        old = signal.signal(signal.SIGALRM, _alarm)
        try:
            first = second = None
            vague = self.vague.get("%s.%s.%s[%s]" % u, ())
            for inline in (False, True):
                if inline and vague == "*":
                    second = (None, "not decided with every helper opened")
                    break
                signal.alarm(self.budget)
                try:
                    ds, info, Is = self.compare(u, inline)
                except Timeout:
                    ds, info, Is = None, "analysis budget used up", None
                except (GiveUp, RecursionError, MemoryError) as e:
                    ds, info, Is = None, "analysis gave up: %s" % e, None
                finally:
                    signal.alarm(0)
                if ds is not None:
                    res.channels = sorted(set(info[0].chan) | set(info[1].chan))
                    res.calls = len(Is[1].visited)
                    res.events = len(Is[1].events)
                    res.visited |= Is[1].visited
                if inline:
                    second = (ds, info)
                else:
                    first = (ds, info)
                    if ds is not None and not ds:
                        break
            res.settle(first, second, vague)
        finally:
            signal.signal(signal.SIGALRM, old)
        res.secs = time.time() - t0
        return res


def helper_calls(d):
    pass


class Result(object):
    def __init__(self, u):
        self.u = u
        self.status = "?"
        self.diffs = []
        self.unclear = []
        self.why = ""
        self.where = ""
        self.channels = []
        self.calls = self.events = 0
        self.visited = set()
        self.secs = 0

    @property
    def name(self):
        c, tab, nm, k = self.u
        q = (c + "." if c else "") + nm + {"setters": "=", "getters": ""}.get(tab, "")
        return q if c != "_MasterModel" else "%s[%s]" % (q, k)

    def settle(self, first, second, vague=()):
        """channels that agree at either level agree; a difference counts when it stands at the level where both
        sides make the same calls, or with every helper opened.  What helpers are called with is seen at the first
        level only: such a difference counts when the effects of the opened helpers differ too, or cannot be told"""
        d1, i1 = first
        d2, i2 = second if second is not None else (None, None)
        if d1 is not None and not d1:
            self.status = "holds"
            return
        if d1 is None and d2 is None:
            self.status = "undecided"
            self.why = i1 if isinstance(i1, str) else str(i2)
            return
        m1 = {d.chan: d for d in d1} if d1 is not None else None
        m2 = {d.chan: d for d in d2} if d2 is not None else None
        opened = set(i2[0].chan) | set(i2[1].chan) if m2 is not None else set()
        blunt = any(ch in opened for ch in vague)
        effects = any(d.kind == "differs" for ch, d in (m2 or {}).items() if ch not in vague)
        named = set(i1[0].chan) | set(i1[1].chan) if m1 is not None else set()
        for ch in sorted(set(m1 or {}) | set(m2 or {})):
            a = m1.get(ch) if m1 is not None else Ellipsis
            b = m2.get(ch) if m2 is not None and ch not in vague else Ellipsis
            if b is None and ch not in opened:
                b = alias(ch, m2, opened, vague)
            if a is None and ch not in named:
                a = alias(ch, m1, named, ())
            if b is None and ch not in opened and ch.startswith("call:") and a not in (None, Ellipsis):
                b = a if effects and a.kind == "differs" and same_helpers(a) else Ellipsis if blunt else None
            if a is None or b is None:
                continue
            if b is not Ellipsis and b.kind == "differs":
                self.diffs.append(b)
            elif a is not Ellipsis and a.kind == "differs" and same_helpers(a):
                self.diffs.append(a)
            else:
                self.unclear.append(b if b is not Ellipsis else a)
        self.status = "violated" if self.diffs else "undecided" if self.unclear else "holds"


def alias(ch, diffs, chans, vague):
    """the two levels may know the class of a changed object differently well: the change of the same attribute"""
    if not ch.startswith(("store:", "mut:")):
        return None
    kind, attr = ch.split(":")[0], ch.split(".")[-1]
    same = [c for c in sorted(chans) if c.startswith(kind + ":") and c.split(".")[-1] == attr]
    if any(c in vague for c in same):
        return Ellipsis
    return ([diffs[c] for c in same if c in diffs] or [None])[0]


def same_helpers(d):
    return d.helpers_want == d.helpers_got
