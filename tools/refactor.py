#!/usr/bin/env python3
"""refactor.py SRC DST NAME: a copy of the pyNTM sources with one behaviour-preserving rewrite applied everywhere.
Used to test that the checks stay quiet (tools/quiet.py); no check reads it."""
import ast
import copy
import os
import shutil
import sys


class R(ast.NodeTransformer):
    n = 0

    def fresh(self, p="v"):
        R.n += 1
        return "%s_rf%d" % (p, R.n)


def name(s, ctx=None):
    return ast.Name(id=s, ctx=ctx or ast.Load())


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(op=ast.Not(), operand=e)


class SwapIf(R):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
        return n


class Continue(R):
    """for x: if c: body  ->  for x: if not c: continue; body"""
    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            n.body = [ast.If(test=neg(i.test), body=[ast.Continue()], orelse=[])] + i.body
        return n


class EarlyReturn(R):
    """a trailing if/else of a function that returns in its body loses the else"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        b = n.body[-1]
        if isinstance(b, ast.If) and b.orelse and terminates(b.body):
            n.body = n.body[:-1] + [ast.If(test=b.test, body=b.body, orelse=[])] + b.orelse
        return n


def terminates(b):
    return isinstance(b[-1], (ast.Return, ast.Raise)) or \
        isinstance(b[-1], ast.If) and b[-1].orelse and terminates(b[-1].body) and terminates(b[-1].orelse)


class Rename(R):
    """locals renamed"""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Global, ast.Nonlocal)) for x in ast.walk(n) if x is not n):
            return n
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_rn"
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = x.name + "_rn"
        return n


class Temp(R):
    """return e -> r = e; return r; call arguments that are calls are named first"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        v = self.fresh("result")
        return [ast.Assign(targets=[name(v, ast.Store())], value=n.value), ast.Return(value=name(v))]


class TempTest(R):
    """conditions are named before they are tested"""
    def visit_If(self, n):
        self.generic_visit(n)
        n.orelse = n.orelse
        v = self.fresh("cond")
        return [ast.Assign(targets=[name(v, ast.Store())], value=n.test),
                ast.If(test=name(v), body=n.body, orelse=n.orelse)]


class IsTrue(R):
    """x is True -> x (the attributes are booleans)"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and isinstance(n.left, ast.Attribute) and \
                n.left.attr in ("failed", "rsvp_enabled", "igp_shortcuts_enabled"):
            v = n.comparators[0].value
            if isinstance(n.ops[0], (ast.Is, ast.Eq)) and v is True:
                return n.left
            if isinstance(n.ops[0], (ast.Is, ast.Eq)) and v is False:
                return neg(n.left)
        return n


class LenTest(R):
    """len(x) > 0 -> len(x) >= 1; len(x) == 0 -> not len(x)"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and \
                n.left.func.id == "len" and isinstance(n.comparators[0], ast.Constant):
            v = n.comparators[0].value
            if isinstance(n.ops[0], ast.Gt):
                return ast.Compare(left=n.left, ops=[ast.GtE()], comparators=[ast.Constant(v + 1)])
            if isinstance(n.ops[0], ast.Eq) and v == 0:
                return neg(n.left)
        return n


class CompToLoop(R):
    """x = [e for a in C if g]  ->  x = []; for a in C: if g: x.append(e)   (also for return)"""
    def mk(self, v, c):
        kind = {ast.ListComp: "list", ast.SetComp: "set", ast.DictComp: "dict"}.get(type(c))
        if kind is None:
            return None
        if isinstance(c, ast.DictComp):
            inner = [ast.Assign(targets=[ast.Subscript(value=name(v), slice=c.key, ctx=ast.Store())], value=c.value)]
        else:
            inner = [ast.Expr(ast.Call(func=ast.Attribute(value=name(v), attr="append" if kind == "list" else "add",
                                                          ctx=ast.Load()), args=[c.elt], keywords=[]))]
        for g in reversed(c.generators):
            for i in reversed(g.ifs):
                inner = [ast.If(test=i, body=inner, orelse=[])]
            inner = [ast.For(target=g.target, iter=g.iter, body=inner, orelse=[])]
        init = {"list": ast.List(elts=[], ctx=ast.Load()), "dict": ast.Dict(keys=[], values=[]),
                "set": ast.Call(func=name("set"), args=[], keywords=[])}[kind]
        return [ast.Assign(targets=[name(v, ast.Store())], value=init)] + inner

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(n.value)):
                return n
            r = self.mk(v, unset(n.value))
            if r:
                return r
        return n

    def visit_Return(self, n):
        if n.value is not None:
            v = self.fresh("out")
            r = self.mk(v, unset(n.value))
            if r:
                return r + [ast.Return(value=name(v))]
        return n


def unset(e):
    """set([...]) / set(gen) / list(gen) as comprehension"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "list") and len(e.args) == 1 \
            and isinstance(e.args[0], (ast.ListComp, ast.GeneratorExp)):
        k = ast.SetComp if e.func.id == "set" else ast.ListComp
        return k(elt=e.args[0].elt, generators=e.args[0].generators)
    return e


class LoopToComp(R):
    """x = []; for a in C: [if g:] x.append(e)  ->  x = [e for a in C if g]"""
    def block(self, b):
        out = []
        for s in b:
            if out and isinstance(s, ast.For) and not s.orelse and isinstance(out[-1], ast.Assign) and \
                    isinstance(out[-1].targets[0], ast.Name):
                v = out[-1].targets[0].id
                val = out[-1].value
                kind = "list" if isinstance(val, ast.List) and not val.elts else \
                    "set" if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id == "set" \
                    and not val.args else None
                gens, x = [], s
                ok = kind is not None
                while ok:
                    if isinstance(x, ast.For) and len(x.body) == 1 and not x.orelse:
                        gens.append(ast.comprehension(target=x.target, iter=x.iter, ifs=[], is_async=0))
                        x = x.body[0]
                    elif isinstance(x, ast.If) and len(x.body) == 1 and not x.orelse:
                        gens[-1].ifs.append(x.test)
                        x = x.body[0]
                    else:
                        break
                if ok and isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and \
                        isinstance(x.value.func, ast.Attribute) and isinstance(x.value.func.value, ast.Name) and \
                        x.value.func.value.id == v and x.value.func.attr in ("append", "add") and \
                        not any(isinstance(y, ast.Name) and y.id == v for g in gens for y in ast.walk(g)) and \
                        not any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(x.value.args[0])):
                    k = ast.ListComp if kind == "list" else ast.SetComp
                    out[-1] = ast.Assign(targets=out[-1].targets, value=k(elt=x.value.args[0], generators=gens))
                    continue
            out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        return n


class Helper(R):
    """every method body moves into a private helper method it calls"""
    def visit_ClassDef(self, n):
        new = []
        for f in n.body:
            new.append(f)
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and f.name != "__init__" and \
                    not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) and f.args.args and \
                    f.args.args[0].arg == "self" and not f.args.kwonlyargs and \
                    not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(f)):
                g = copy.deepcopy(f)
                g.name = "_%s_impl" % f.name.lstrip("_")
                g.args.defaults = []
                f.body = [ast.Return(value=ast.Call(func=ast.Attribute(value=name("self"), attr=g.name, ctx=ast.Load()),
                                                    args=[name(a.arg) for a in f.args.args[1:]], keywords=[]))]
                new.append(g)
        n.body = new
        return n


class CondHelper(R):
    """conditions of ifs that only read self and parameters or locals become calls of module level helpers"""
    def visit_Module(self, n):
        self.defs = []
        self.names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        glob = {a.asname or a.name for s in n.body if isinstance(s, (ast.Import, ast.ImportFrom)) for a in s.names}
        glob |= {s.name for s in n.body if isinstance(s, (ast.ClassDef, ast.FunctionDef))}
        import builtins
        self.glob = glob | set(dir(builtins))
        self.generic_visit(n)
        n.body = n.body + self.defs
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp))
               for x in ast.walk(n.test)):
            return n
        vs = sorted({x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)} - self.glob)
        if any(isinstance(x, ast.Name) and x.id in ("object", "id", "type") for x in ast.walk(n.test)):
            return n
        if not vs or isinstance(n.test, ast.Name):
            return n
        f = self.fresh("_cond")
        self.defs.append(ast.FunctionDef(name=f, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v) for v in vs],
                                                                     kwonlyargs=[], kw_defaults=[], defaults=[]),
                                         body=[ast.Return(value=n.test)], decorator_list=[]))
        n.test = ast.Call(func=name(f), args=[name(v) for v in vs], keywords=[])
        return n


class FString(R):
    """'..{}..'.format(a) -> f-string"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and \
                isinstance(n.func.value.value, str) and not n.keywords:
            ps = n.func.value.value.split("{}")
            if len(ps) == len(n.args) + 1 and not any("{" in p for p in ps):
                vals = []
                for i, p in enumerate(ps):
                    if p:
                        vals.append(ast.Constant(p))
                    if i < len(n.args):
                        vals.append(ast.FormattedValue(value=n.args[i], conversion=-1))
                return ast.JoinedStr(values=vals)
        return n


class GenInline(R):
    """x in (y for y in C if g)  as loop source -> for x in C: if g"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, (ast.GeneratorExp, ast.ListComp)) and len(it.generators) == 1 and isinstance(it.elt, ast.Name) and \
                isinstance(it.generators[0].target, ast.Name) and it.elt.id == it.generators[0].target.id and \
                isinstance(n.target, ast.Name) and not any(isinstance(x, ast.Break) for x in ast.walk(n)) and not n.orelse:
            g = it.generators[0]
            old, new = g.target.id, n.target.id
            n.iter = g.iter
            for i in g.ifs:
                for x in ast.walk(i):
                    if isinstance(x, ast.Name) and x.id == old:
                        x.id = new
            for i in reversed(g.ifs):
                n.body = [ast.If(test=i, body=n.body, orelse=[])]
        return n


class LoopSource(R):
    """for x in C -> items = list(C); for x in items"""
    def visit_For(self, n):
        self.generic_visit(n)
        v = self.fresh("items")
        return [ast.Assign(targets=[name(v, ast.Store())], value=ast.Call(func=name("list"), args=[n.iter], keywords=[])),
                ast.For(target=n.target, iter=name(v), body=n.body, orelse=n.orelse)]


class Demorgan(R):
    """a and b -> not (not a or not b) in tests"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[neg(v) for v in n.test.values]))
        return n


class NestIf(R):
    """if a and b: S -> if a: if b: S"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(test=v, body=b, orelse=[])]
            return b[0]
        return n


class AugAssign(R):
    """x += e -> x = x + e"""
    def visit_AugAssign(self, n):
        t = copy.deepcopy(n.target)
        for x in ast.walk(t):
            if hasattr(x, "ctx"):
                x.ctx = ast.Load()
        return ast.Assign(targets=[n.target], value=ast.BinOp(left=t, op=n.op, right=n.value))


class Flip(R):
    """a < b -> b > a, a == b -> b == a"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            k = m.get(type(n.ops[0]))
            if k:
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [k()]
        return n


class Enumerate(R):
    """for x in C -> for _i, x in enumerate(C)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name):
            n.target = ast.Tuple(elts=[name(self.fresh("_i"), ast.Store()), n.target], ctx=ast.Store())
            n.iter = ast.Call(func=name("enumerate"), args=[n.iter], keywords=[])
        return n


class WhileIndex(R):
    """for x in C: body -> items = list(C); i = 0; while i < len(items): x = items[i]; i += 1; body"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        v, i = self.fresh("items"), self.fresh("i")
        return [ast.Assign(targets=[name(v, ast.Store())], value=ast.Call(func=name("list"), args=[n.iter], keywords=[])),
                ast.Assign(targets=[name(i, ast.Store())], value=ast.Constant(0)),
                ast.While(test=ast.Compare(left=name(i), ops=[ast.Lt()], comparators=[
                    ast.Call(func=name("len"), args=[name(v)], keywords=[])]),
                    body=[ast.Assign(targets=[n.target], value=ast.Subscript(value=name(v), slice=name(i), ctx=ast.Load())),
                          ast.AugAssign(target=name(i, ast.Store()), op=ast.Add(), value=ast.Constant(1))] + n.body,
                    orelse=[])]


class WhileLast(R):
    """as WhileIndex with the increment last where nothing continues"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            return n
        v, i = self.fresh("items"), self.fresh("i")
        return [ast.Assign(targets=[name(v, ast.Store())], value=ast.Call(func=name("list"), args=[n.iter], keywords=[])),
                ast.Assign(targets=[name(i, ast.Store())], value=ast.Constant(0)),
                ast.While(test=ast.Compare(left=name(i), ops=[ast.Lt()], comparators=[
                    ast.Call(func=name("len"), args=[name(v)], keywords=[])]),
                    body=[ast.Assign(targets=[n.target], value=ast.Subscript(value=name(v), slice=name(i), ctx=ast.Load()))] +
                    n.body + [ast.AugAssign(target=name(i, ast.Store()), op=ast.Add(), value=ast.Constant(1))],
                    orelse=[])]


class PopLoop(R):
    """for x in C: body -> items = list(C); while items: x = items.pop(0); body"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        v = self.fresh("items")
        return [ast.Assign(targets=[name(v, ast.Store())], value=ast.Call(func=name("list"), args=[n.iter], keywords=[])),
                ast.While(test=name(v), body=[ast.Assign(targets=[n.target], value=ast.Call(func=ast.Attribute(
                    value=name(v), attr="pop", ctx=ast.Load()), args=[ast.Constant(0)], keywords=[]))] + n.body, orelse=[])]


class RangeIndex(R):
    """for x in C: body -> items = list(C); for i in range(len(items)): x = items[i]; body"""
    def visit_For(self, n):
        self.generic_visit(n)
        v, i = self.fresh("items"), self.fresh("i")
        return [ast.Assign(targets=[name(v, ast.Store())], value=ast.Call(func=name("list"), args=[n.iter], keywords=[])),
                ast.For(target=name(i, ast.Store()), iter=ast.Call(func=name("range"), args=[ast.Call(
                    func=name("len"), args=[name(v)], keywords=[])], keywords=[]),
                    body=[ast.Assign(targets=[n.target], value=ast.Subscript(value=name(v), slice=name(i), ctx=ast.Load()))] +
                    n.body, orelse=n.orelse)]


class LoopBody(R):
    """simple loop bodies (no control transfer, no local assignment read later) become local closures"""
    def visit_For(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Assign, ast.AugAssign, ast.Try, ast.FunctionDef,
                              ast.For, ast.With)) for s in n.body for x in ast.walk(s)):
            return n
        if not isinstance(n.target, ast.Name):
            return n
        f = self.fresh("_step")
        return [ast.FunctionDef(name=f, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n.target.id)], kwonlyargs=[],
                                                            kw_defaults=[], defaults=[]), body=n.body, decorator_list=[]),
                ast.For(target=n.target, iter=n.iter, body=[ast.Expr(ast.Call(func=name(f), args=[name(n.target.id)],
                                                                               keywords=[]))], orelse=n.orelse)]


class GetAttr(R):
    """self.x read through a local alias of self"""
    def visit_FunctionDef(self, n):
        if n.args.args and n.args.args[0].arg == "self" and not any(isinstance(x, ast.FunctionDef) for x in ast.walk(n) if x is not n):
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    x.value.id = "this"
            k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
            n.body.insert(k, ast.Assign(targets=[name("this", ast.Store())], value=name("self")))
        return n


class Noop(R):
    """a statement without effect in front of every function body"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(k, ast.Pass())
        n.body.insert(k, ast.Assign(targets=[name("_unused", ast.Store())], value=ast.Constant(0)))
        return n


class KwArgs(R):
    """constructor and method calls unchanged; tuple unpacking split: a, b = x, y -> two statements"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and \
                len(n.targets[0].elts) == len(n.value.elts):
            return [ast.Assign(targets=[t], value=v) for t, v in zip(n.targets[0].elts, n.value.elts)]
        return n


class Reverse(R):
    """runs of consecutive plain attribute stores `x.a = name/constant` in reverse order"""
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out, run = [], []
                for s in b + [None]:
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and \
                            s.targets[0].attr.startswith("_") and isinstance(s.value, (ast.Constant, ast.Name)):
                        run.append(s)
                    else:
                        out += run[::-1]
                        run = []
                        if s is not None:
                            out.append(s)
                setattr(n, f, out)
        return n


class AnyLoop(R):
    """if any(gen): -> flag loop"""
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("any",) and len(t.args) == 1 and \
                isinstance(t.args[0], ast.GeneratorExp):
            v = self.fresh("found")
            inner = [ast.If(test=t.args[0].elt, body=[ast.Assign(targets=[name(v, ast.Store())], value=ast.Constant(True))],
                            orelse=[])]
            for g in reversed(t.args[0].generators):
                for i in reversed(g.ifs):
                    inner = [ast.If(test=i, body=inner, orelse=[])]
                inner = [ast.For(target=g.target, iter=g.iter, body=inner, orelse=[])]
            return [ast.Assign(targets=[name(v, ast.Store())], value=ast.Constant(False))] + inner + \
                   [ast.If(test=name(v), body=n.body, orelse=n.orelse)]
        return n


ALL = {c.__name__: c for c in (SwapIf, Continue, EarlyReturn, Rename, Temp, TempTest, IsTrue, LenTest, CompToLoop, LoopToComp,
                               Helper, CondHelper, FString, GenInline, LoopSource, Demorgan, NestIf, AugAssign, Flip,
                               Enumerate, WhileIndex, WhileLast, PopLoop, RangeIndex, LoopBody, GetAttr, Noop, KwArgs, Reverse, AnyLoop)}


def main():
    src, dst, what = sys.argv[1:4]
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    d = os.path.join(dst, "pyNTM")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            p = os.path.join(d, f)
            t = ast.parse(open(p).read())
            for w in what.split("+"):
                t = ALL[w]().visit(t)
                ast.fix_missing_locations(t)
                t = ast.parse(ast.unparse(t))
            open(p, "w").write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    main()
