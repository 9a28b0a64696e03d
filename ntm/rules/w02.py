"""The wiring of the map: every component property a callback reads or writes exists in the layout, no property is
written by two callbacks, a callback takes as many inputs as it is registered for and answers with as many values as it
has outputs, every trigger it tests for can trigger it, and every key it reads from an exchanged selection is there in
what each writer of that selection puts in it."""
from ..terms import subterms, B, leaves, T
from .common import Found, summary

COMMON = {"id", "style", "className", "children"}
PROPS = {
    "Dropdown": {"options", "value", "multi", "disabled", "placeholder", "search_value", "clearable", "searchable"},
    "RadioItems": {"options", "value", "labelStyle", "inputStyle", "inline"},
    "Checklist": {"options", "value", "labelStyle", "inputStyle", "inline"},
    "Button": {"n_clicks", "disabled", "n_clicks_timestamp", "title"},
    "P": {"n_clicks", "title", "hidden"}, "Div": {"n_clicks", "title", "hidden"}, "Pre": {"n_clicks", "title", "hidden"},
    "Tabs": {"value", "vertical"}, "Tab": {"value", "label", "disabled"},
    "Cytoscape": {"elements", "stylesheet", "layout", "selectedNodeData", "selectedEdgeData", "tapNode", "tapNodeData",
                  "tapEdge", "tapEdgeData", "mouseoverNodeData", "mouseoverEdgeData", "zoom", "pan", "responsive",
                  "generateImage", "autoRefreshLayout"},
}


def check(A, prop):
    c = A.impl.classes.get("WeatherMap")
    fn = c and c.methods.get("create_weathermap")
    if fn is None:
        return 0, [Found("wiring", "WeatherMap.create_weathermap", "create_weathermap is gone")], [], [], []
    C, I = summary(A, fn, "WeatherMap", "FlexModel", budget=60)
    if C is None:
        return 0, [], ["wiring of the map: %s" % I], [], []
    W = Wiring(I, fn.module.rel)
    W.run()
    return W.n, W.found, W.undecided, sorted(I.visited) if hasattr(I, "visited") else [], W.samples


class Wiring(object):
    def __init__(self, I, rel):
        self.I, self.rel = I, rel
        self.n, self.found, self.undecided, self.samples = 0, [], [], []
        self.comp = {}
        for path, a, kw, live, n in I.extcalls:
            i = kw.get("id")
            if i is not None and i.op == "const" and path.startswith("dash") and live == 1:
                self.comp.setdefault(i.args[1], []).append((path.split(".")[-1], kw, n))
            elif i is not None and i.op != "const" and path.startswith("dash"):
                self.undecided.append("component %s with an identifier that is not known" % path)
        # what is written into each property: component.property -> [term]
        self.writes = {}
        for i, l in self.comp.items():
            for cl, kw, n in l:
                for k, v in kw.items():
                    if k not in ("id", "style"):
                        self.writes.setdefault("%s.%s" % (i, k), []).append(I.freeze(v))

    def bad(self, rule, construct, what, where=""):
        self.found.append(Found(rule, construct, what, where))

    def run(self):
        for i, l in sorted(self.comp.items()):
            self.n += 1
            if len(l) > 1:
                self.bad("one component per identifier", i, "%d components of the layout share the identifier %s" % (len(l), i),
                         self.at(l[1][2]))
        if len(self.I.cbresults) != len(self.I.callbacks):
            self.undecided.append("callbacks registered in a way that is not followed")
        owner = {}
        for reg, node, v, where, nargs in self.I.cbresults:
            outs, ins, multi = reg.args
            for d in outs.args:
                self.writes.setdefault(self.name(d), []).append(("answer", reg, v))
        for reg, node, v, where, nargs in self.I.cbresults:
            outs, ins, multi = reg.args
            label = "+".join(self.name(d) for d in outs.args)
            for d in outs.args + ins.args:
                self.n += 1
                self.dependency(d, label, where)
            for d in outs.args:
                self.n += 1
                if self.name(d) in owner:
                    self.bad("one writer per property", self.name(d),
                             "written by two callbacks (%s and %s)" % (owner[self.name(d)], where), where)
                owner[self.name(d)] = where
            self.n += 1
            a = node.args
            lo = len(a.posonlyargs + a.args) - len(a.defaults)
            hi = len(a.posonlyargs + a.args) if a.vararg is None else 10 ** 6
            if not lo <= len(ins.args) <= hi:
                self.bad("as many inputs as parameters", label, "%s takes %d values and is registered for %d inputs" % (
                    node.name if hasattr(node, "name") else "the callback", hi, len(ins.args)), where)
                continue
            self.answers(reg, v, label, where)
            self.triggers(reg, v, label, where)
            self.keys(reg, v, label, where)
        self.samples = ["%d components, %d callbacks, %d written properties" % (len(self.comp), len(self.I.cbresults),
                                                                              len(owner))]

    def at(self, n):
        return "%s:%s" % (self.rel, getattr(n, "lineno", "?"))

    def name(self, d):
        return "%s.%s" % (d.args[1], d.args[2])

    def dependency(self, d, label, where):
        l = self.comp.get(d.args[1])
        if not l:
            if not any("identifier" in u for u in self.undecided):
                self.bad("components exist", "%s %s" % (label, self.name(d)),
                         "%s names a component that the layout does not have" % self.name(d), where)
            return
        ps = PROPS.get(l[0][0])
        if ps is not None and d.args[2] not in ps | COMMON:
            self.bad("properties exist", "%s %s" % (label, self.name(d)),
                     "a %s has no property %s" % (l[0][0], d.args[2]), where)

    def answers(self, reg, v, label, where):
        outs, ins, multi = reg.args
        if not multi.args[1]:
            return
        k = len(outs.args)
        for h, x in leaves(v):
            self.n += 1
            m = None
            if x.op == "raised":
                continue
            if x.op == "tuple":
                m = len(x.args)
            elif x.op == "coll" and x.args[0] == "list" and all(not bs and g == 1 for bs, g, e in x.args[1]):
                m = len(x.args[1])
            elif x.op == "const" and x.args[1] is None:
                m = 0
            if m is None:
                self.undecided.append("%s: how many values it answers with" % label)
            elif m != k:
                self.bad("as many values as outputs", label, "answers with %d values for %d outputs" % (m, k), where)

    def triggers(self, reg, v, label, where):
        outs, ins, multi = reg.args
        names = {self.name(d) for d in ins.args}
        for x in self.terms(v):
            if x.op == "noinput":
                self.n += 1
                self.bad("triggers are inputs", "%s %s" % (label, x.args[0].args[1]),
                         "%s is not an input of the callback" % x.args[0].args[1], where)
            if x.op == "eq":
                for p, q in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                    if p.op == "const" and isinstance(p.args[1], str) and q.op == "index" and \
                            q.args[1].op == "const" and q.args[1].args[1] == "prop_id":
                        self.n += 1
                        if p.args[1] != "." and p.args[1] not in names:
                            self.bad("triggers are inputs", "%s %s" % (label, p.args[1]),
                                     "waits for %s, which is not one of its inputs" % p.args[1], where)

    def terms(self, v):
        return subterms(v)

    # ---- payloads
    def keys(self, reg, v, label, where):
        outs, ins, multi = reg.args
        done = set()
        for x in self.terms(v):
            if x.op != "index" or x.args[1].op != "const" or not isinstance(x.args[1].args[1], str):
                continue
            key = x.args[1].args[1]
            src = self.source(x.args[0], ins)
            if src is None:
                continue
            for kind, prop in src:
                if (kind, prop, key) in done:
                    continue
                done.add((kind, prop, key))
                self.n += 1
                for ks, what in self.payloads(kind, prop, frozenset()):
                    if key not in ks:
                        self.bad("keys are written", "%s %s[%s]" % (label, prop, key),
                                 "%r is read from %s, but %s holds only %s" % (key, prop, what, ", ".join(sorted(ks))), where)
                        break

    def source(self, t, ins):
        """where a dictionary read by a callback comes from: [(kind, component property)]"""
        if t.op == "call" and t.args[0] == "json.loads" and len(t.args) > 1:
            s = t.args[1]
            if s.op == "sym" and str(s.args[0]).startswith("in:"):
                return [("json", s.args[0][3:])]
            if self.triggered(s):
                return [("json", self.name(d)) for d in ins.args if d.args[2] in ("value", "children")]
        if t.op == "index" and t.args[1].op == "const" and t.args[1].args[1] == 0:
            s = t.args[0]
            if s.op == "sym" and str(s.args[0]).startswith("in:") and s.args[0].endswith("selectedEdgeData"):
                return [("edge", s.args[0][3:])]
            if self.triggered(s):
                return [("edge", self.name(d)) for d in ins.args if d.args[2] == "selectedEdgeData"]
        return None

    def triggered(self, s):
        return s.op == "index" and s.args[1].op == "const" and s.args[1].args[1] == "value" and \
            s.args[0].op == "index" and s.args[0].args[0].op == "ext" and s.args[0].args[0].args[0].endswith(".triggered")

    def payloads(self, kind, prop, busy):
        """[(keys, description)] of what is put into a property; empty selections (label and value only) left out"""
        if (kind, prop) in busy:
            return []
        busy = busy | {(kind, prop)}
        i, _, p = prop.rpartition(".")
        out = []
        if kind == "edge":
            for t in self.writes.get(i + ".elements", ()):
                if isinstance(t, T):
                    for e in self.dicts(t):
                        d = dict((k.args[1], x) for k, x in e.args[0] if k.op == "const")
                        if "data" in d and d["data"].op == "dict":
                            ks = self.keyset(d["data"])
                            if ks and "source" in ks:
                                out.append((ks, "an edge of %s" % i))
            return out
        where = i + ".options" if p == "value" else prop
        for w in self.writes.get(where, ()):
            if isinstance(w, T):
                v, ins = w, None
            else:
                v, ins = w[2], w[1].args[1]
                outs = w[1].args[0].args
                if len(outs) > 1:
                    v = self.nth(v, [self.name(d) for d in outs].index(where))
            if v is None:
                continue
            if p == "value":
                texts = [x for e in self.dicts(v) for k, x in e.args[0] if k.op == "const" and k.args[1] == "value"]
            else:
                texts = [x for h, x in leaves(v)]
            for x in texts:
                for h, y in leaves(x):
                    out += self.text(y, ins, where, busy)
        return out

    def text(self, y, ins, where, busy):
        if not (y.op == "call" and y.args[0] == "json.dumps" and len(y.args) > 1):
            return []
        z = y.args[1]
        if z.op == "dict":
            ks = self.keyset(z)
            return [] if ks is None or ks == {"label", "value"} else [(ks, "what %s is given" % where)]
        if z.op == "call" and z.args[0] == "json.loads" and ins is not None:
            out = []
            for kind, prop in self.source(z, ins) or ():
                out += self.payloads(kind, prop, busy)
            return out
        return []

    def nth(self, v, k):
        from ..terms import gate, OR
        d = {}
        for h, x in leaves(v):
            if x.op == "tuple" and k < len(x.args):
                y = x.args[k]
            elif x.op == "coll" and k < len(x.args[1]) and not x.args[1][k][0]:
                y = x.args[1][k][2]
            else:
                continue
            d[y] = OR(d.get(y, 0), h)
        return gate(d) if d else None

    def dicts(self, t):
        """the dictionaries a list holds"""
        for x in subterms(t):
            if x.op == "coll" and x.args[0] == "list":
                for bs, g, e in x.args[1]:
                    for h, y in leaves(e):
                        if y.op == "dict":
                            yield y

    def keyset(self, z):
        ks = [k for k, x in z.args[0]]
        if not all(k.op == "const" for k in ks):
            return None
        return {k.args[1] for k in ks}


_ = B
