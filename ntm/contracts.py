"""What the public lookups return, used at their call sites; their own bodies are checked against the same
statements under Q01, Q02, R04 and V01."""
from .terms import T, AND, OR, NOT, const, is_const, NONE, TRUE, uid, ite, boolt, mentions, fmt
from . import norm as N
from .norm import tyof, eq, coll, exists, some, attr


def mset(I, m, name):
    return I.getattr(m, name)


def opened(I, m, name):
    v = mset(I, m, name)
    return I.pieces_of(v)


def pick(I, m, name, test, exc=True):
    """an element of the model set for which test holds; ModelException when there is none"""
    ps = []
    for bs, g, e in opened(I, m, name):
        ps.append((bs, AND(g, test(e)), e))
    if exc:
        q = exists([(bs, g, NONE) for bs, g, e in ps])
        I.maybe_raise("ModelException", NOT(q), "lookup")
    return some(coll("list", ps))


def get_node_object(I, m, a, n):
    name = I.freeze(a["node_name"])
    x = N.node_of_name(name)
    if x is not None and known_node(I, m, x):
        return x
    return pick(I, m, "node_objects", lambda e: eq(attr(e, "name", I.ver("name", "Node")), name))


def known_node(I, m, x):
    if x.op == "attr":
        return True
    if x.op in ("el", "some"):
        return True
    return x.op == "sym"


def get_interface_object(I, m, a, n):
    nm, nd = I.freeze(a["interface_name"]), I.freeze(a["node_name"])
    if nm.op == "attr" and nm.args[1] == "name" and tyof(nm.args[0]) == "Interface":
        i = nm.args[0]
        own = attr(attr(i, "node_object", 0), "name", 0)
        g = eq(own, nd)
        if AND(I.live, NOT(g)) == 0:
            if i.op == "sym":
                pick(I, m, "interface_objects", lambda e: AND(eq(attr(e, "name", I.ver("name", "Interface")), nm),
                                                              eq(attr(e, "node_object", 0), attr(i, "node_object", 0))))
            return i
        # the caller filtered the interface by the same node name, possibly through a lookup of the node
        if AND(I.live, NOT(N.gerase(g))) == 0 or AND(N.gerase(I.live), NOT(N.gerase(g))) == 0:
            return i
    return pick(I, m, "interface_objects",
                lambda e: AND(eq(attr(e, "name", I.ver("name", "Interface")), nm),
                              eq(attr(attr(e, "node_object", 0), "name", 0), nd)))


def get_srlg_object(I, m, a, n):
    nm = I.freeze(a["srlg_name"])
    r = a.get("raise_exception", TRUE)
    ps = []
    for bs, g, e in opened(I, m, "srlg_objects"):
        ps.append((bs, AND(g, eq(attr(e, "name", 0), nm)), e))
    q = exists([(bs, g, NONE) for bs, g, e in ps])
    I.maybe_raise("ModelException", AND(NOT(q), I.truth(r)), "lookup")
    v = some(coll("list", ps))
    if is_const(r, True):
        return v
    return ite(q, v, NONE)


def get_remote_interface(I, i, a, n):
    t = T("remote", i) if i.op != "remote" else i.args[0]
    t.ty = "Interface"
    return t


def get_rsvp_lsp(I, m, a, n):
    s, d, l = (I.freeze(a[k]) for k in ("source_node_name", "dest_node_name", "lsp_name"))
    return pick(I, m, "rsvp_lsp_objects",
                lambda e: AND(eq(attr(attr(e, "source_node_object", 0), "name", 0), s),
                              eq(attr(attr(e, "dest_node_object", 0), "name", 0), d),
                              eq(attr(e, "lsp_name", 0), l)))


def get_demand_object(I, m, a, n):
    s, d, l = (I.freeze(a[k]) for k in ("source_node_name", "dest_node_name", "demand_name"))
    return pick(I, m, "demand_objects",
                lambda e: AND(eq(attr(attr(e, "source_node_object", 0), "name", 0), s),
                              eq(attr(attr(e, "dest_node_object", 0), "name", 0), d),
                              eq(attr(e, "name", 0), l)))


def groups(coll_name):
    """{"source-destination": [every element between those nodes]}"""
    def f(I, m, a, n):
        c = mset(I, m, coll_name)
        x, y = T("el", uid(), c), T("el", uid(), c)
        ends = [(attr(x, at, 0), attr(y, at, 0)) for at in ("source_node_object", "dest_node_object")]
        same = coll("list", [((y,), AND(*[eq(p, q) for p, q in ends]), y)])
        key = fmt(attr(ends[0][0], "name", 0), const("-"), attr(ends[1][0], "name", 0))
        return T("coll", "dmap", N.norm_pieces([((x,), 1, T("tuple", T("mode", "set"), key, same))], True))
    return f


def effective_metric(I, l, a, n):
    return I.getattr(l, "effective_metric")


def get_interface_object_from_nodes(I, m, a, n):
    s, d = I.freeze(a["local_node_name"]), I.freeze(a["remote_node_name"])
    flex = I.prog.subclass(I.cls, "FlexModel") if I.cls else False
    cid = a.get("circuit_id", NONE)
    ps = []
    for bs, g, e in opened(I, m, "interface_objects"):
        t = AND(g, eq(attr(attr(e, "node_object", 0), "name", 0), s), eq(attr(attr(e, "remote_node_object", 0), "name", 0), d))
        if not is_const(cid, None):
            t = AND(t, eq(attr(e, "circuit_id", I.ver("circuit_id", "Interface")), I.freeze(cid)))
        ps.append((bs, t, e))
    if flex:
        return coll("list", ps)
    return some(coll("list", ps))


def validate_model(I, m, a, n):
    I.event("call", base=I.freeze(m), name="validate_model")
    return m


def get_shortest_path(I, m, a, n):
    t = T("spath", *[I.freeze(a[k]) for k in ("source_node_name", "dest_node_name", "needed_bw")])
    return t


BASE = {
    ("Model", "get_node_object"): get_node_object,
    ("Model", "get_interface_object"): get_interface_object,
    ("Model", "get_srlg_object"): get_srlg_object,
    ("Model", "get_rsvp_lsp"): get_rsvp_lsp,
    ("Model", "get_demand_object"): get_demand_object,
    ("Model", "get_interface_object_from_nodes"): get_interface_object_from_nodes,
    ("Model", "parallel_lsp_groups"): groups("rsvp_lsp_objects"),
    ("Model", "parallel_demand_groups"): groups("demand_objects"),
    ("Model", "validate_model"): validate_model,
    ("Interface", "get_remote_interface"): get_remote_interface,
    ("RSVP_LSP", "effective_metric"): effective_metric,
}
