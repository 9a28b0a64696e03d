"""Iterators that can be used up only once.  The interpreter works with collections; a generator expression (or map,
filter, zip, ...) bound to a local name is one, except that after it was gone through it is empty, and that it counts as
true.  This pass rewrites the uses of such names on the parsed program accordingly, where an earlier complete use lies
on every path to the later one."""
import ast

MAKERS = ("map", "filter", "zip", "reversed", "enumerate", "iter")
EATERS = ("sum", "list", "set", "tuple", "sorted", "min", "max", "dict", "frozenset", "Counter", "fsum", "deque")
METHODS = ("extend", "update", "join")


def makes(v):
    return isinstance(v, ast.GeneratorExp) or \
        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in MAKERS


def leaves(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def breaks(stmts):
    for s in stmts:
        if isinstance(s, (ast.Break, ast.Return)):
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(s, (ast.For, ast.While)):
            if any(isinstance(x, ast.Return) for y in s.body for x in ast.walk(y)) or breaks(s.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if breaks(getattr(s, f, None) or []):
                return True
        for h in getattr(s, "handlers", ()):
            if breaks(h.body):
                return True
    return False


class Once(object):
    def __init__(self, fn):
        stores, made = {}, {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                stores[x.id] = stores.get(x.id, 0) + 1
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and makes(x.value):
                made[x.targets[0].id] = x
        inner = {y.id for x in ast.walk(fn) if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda))
                 for y in ast.walk(x) if isinstance(y, ast.Name)}
        self.names = {n for n in made if stores[n] == 1 and n not in inner}
        if self.names:
            self.block(fn.body, set())

    # gone: the names used up on every path to here
    def block(self, stmts, gone):
        for s in stmts:
            gone = self.stmt(s, gone)
        return gone

    def stmt(self, s, gone):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return gone
        if isinstance(s, ast.If):
            s.test = self.test(s.test, gone)
            a, b = self.block(s.body, set(gone)), self.block(s.orelse, set(gone))
            return b if leaves(s.body) else a if leaves(s.orelse) else a & b
        if isinstance(s, ast.For):
            n = s.iter.id if isinstance(s.iter, ast.Name) and s.iter.id in self.names else None
            if n in gone:
                s.iter = self.empty(s.iter)
            elif n is None:
                self.kids(s, "iter", gone, True)
            full = n is not None and not breaks(s.body)
            self.block(s.body, set(gone))
            self.block(s.orelse, set(gone))
            return gone | {n} if full else gone
        if isinstance(s, ast.While):
            self.block(s.body, set(gone))
            self.block(s.orelse, set(gone))
            return gone
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.kids(it, "context_expr", gone, True)
            return self.block(s.body, gone)
        if isinstance(s, ast.Try):
            a = self.block(s.body, set(gone))
            a = self.block(s.orelse, a)
            for h in s.handlers:
                b = self.block(h.body, set(gone))
                if not leaves(h.body):
                    a = a & b
            return self.block(s.finalbody, a)
        for f, v in ast.iter_fields(s):
            if f != "targets":
                self.kids(s, f, gone, True)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    gone.discard(t.id)
                else:
                    self.expr(t, gone, True)
        return gone

    def kids(self, node, field, gone, sure):
        v = getattr(node, field)
        if isinstance(v, ast.expr):
            setattr(node, field, self.expr(v, gone, sure))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, ast.expr):
                    v[i] = self.expr(x, gone, sure)
                elif isinstance(x, ast.keyword):
                    x.value = self.expr(x.value, gone, sure)

    def empty(self, x):
        return ast.copy_location(ast.List(elts=[], ctx=ast.Load()), x)

    def mine(self, x):
        return isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.names

    def test(self, x, gone):
        if self.mine(x):
            return ast.copy_location(ast.Constant(value=True), x)
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            x.operand = self.test(x.operand, gone)
            return x
        if isinstance(x, ast.BoolOp):
            x.values = [self.test(v, gone) for v in x.values]
            return x
        return self.expr(x, gone, True)

    def use(self, x, gone, sure):
        """x is gone through completely here"""
        if x.id in gone:
            return self.empty(x)
        if sure:
            gone.add(x.id)
        return x

    def expr(self, x, gone, sure):
        if isinstance(x, (ast.Lambda, ast.Name, ast.Constant)):
            return x
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            lazy = isinstance(x, ast.GeneratorExp)
            for i, g in enumerate(x.generators):
                if self.mine(g.iter):
                    if i == 0 or g.iter.id in gone:
                        g.iter = self.use(g.iter, gone, sure and not lazy)
                else:
                    g.iter = self.expr(g.iter, gone, sure and i == 0)
                g.ifs = [self.expr(v, gone, False) for v in g.ifs]
            for f in ("elt", "key", "value"):
                if hasattr(x, f):
                    self.kids(x, f, gone, False)
            return x
        if isinstance(x, ast.BoolOp):
            x.values = [self.expr(v, gone, sure and i == 0) for i, v in enumerate(x.values)]
            return x
        if isinstance(x, ast.IfExp):
            x.test = self.test(x.test, gone)
            x.body = self.expr(x.body, gone, False)
            x.orelse = self.expr(x.orelse, gone, False)
            return x
        if isinstance(x, ast.Call):
            nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""
            if isinstance(x.func, ast.Attribute):
                x.func.value = self.expr(x.func.value, gone, sure)
            eats = nm in EATERS or nm in METHODS and isinstance(x.func, ast.Attribute)
            for i, a in enumerate(x.args):
                if self.mine(a):
                    if eats:
                        x.args[i] = self.use(a, gone, sure)
                    elif a.id in gone and nm in ("any", "all", "next", "zip", "map", "filter", "enumerate"):
                        x.args[i] = self.empty(a)
                else:
                    if eats and isinstance(a, ast.GeneratorExp) and self.mine(a.generators[0].iter):
                        a.generators[0].iter = self.use(a.generators[0].iter, gone, sure)
                        continue
                    x.args[i] = self.expr(a, gone, sure)
            for k in x.keywords:
                k.value = self.expr(k.value, gone, sure)
            return x
        for f, v in ast.iter_fields(x):
            self.kids(x, f, gone, sure)
        return x


def rewrite(tree):
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            Once(f)
    return tree
