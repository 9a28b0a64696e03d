"""Queries have no effects: no path through a lookup, view, path query, diagnostic, display or map rendering function
(helpers opened over the call graph) stores into, adds to, removes from or calls a mutator on an object that existed
before the call.  Objects the query creates itself are free.  The memoized grouping and the one-time adoption of a
configured manual metric are the two documented exceptions."""
import multiprocessing as mp

from .. import diff, pool
from ..terms import subterms
from .common import Found, summary

GET, MET = "getters", "methods"

MASTER = """simulation_diagnostics parallel_lsp_groups parallel_demand_groups get_circuit_object_from_interface
get_failed_interface_objects get_unfailed_interface_objects get_unrouted_demand_objects get_interface_object
get_node_interfaces get_failed_node_objects get_non_failed_node_objects display_interface_status display_node_status
display_interfaces_traffic display_demand_paths display_interface_objects get_demand_objects_source_node
get_demand_objects_dest_node get_srlg_object is_node_an_orphan get_orphan_node_objects get_node_object
get_demand_object get_rsvp_lsp _does_interface_exist __repr__ _unique_interface_per_node
get_interface_object_from_nodes get_all_paths_reservable_bw get_shortest_path get_shortest_path_for_routed_lsp
_convert_nx_path_to_model_path _make_weighted_network_graph_routed_lsp _make_weighted_network_graph
_make_weighted_network_graph_mdg _get_all_paths_mdg _normalize_multidigraph_paths _convert_graph_path_to_model_path
_multiple_links_between_nodes _inspect_for_lsp_metrics validate_srlg_nodes""".split()

OTHER = {
    "Interface": ([("reservable_bandwidth", GET), ("reserved_bandwidth", GET), ("failed", GET), ("cost", GET),
                   ("capacity", GET), ("utilization", GET), ("srlgs", GET), ("_key", GET)],
                  "get_remote_interface get_circuit_object demands lsps __eq__ __hash__ __repr__"),
    "Node": ([("failed", GET), ("lat", GET), ("lon", GET), ("igp_shortcuts_enabled", GET), ("srlgs", GET)],
             "interfaces adjacent_nodes _key __eq__ __hash__ __repr__"),
    "RSVP_LSP": ([("setup_bandwidth", GET), ("manual_metric", GET), ("_key", GET)],
                 "topology_metric demands_on_lsp traffic_on_lsp effective_metric __repr__ "
                 "_find_path_cost_and_headroom_routed_lsp"),
    "SRLG": ([("failed", GET), ("node_objects", GET), ("interface_objects", GET)], "__repr__"),
    "Demand": ([("path_detail", GET), ("_key", GET)], "__repr__"),
    "Circuit": ([], "get_circuit_interfaces failed circuit_id _key __repr__"),
    "WeatherMap": ([("util_display_options", GET)],
                   "make_json_node make_json_edge format_objects_for_display format_interfaces_for_display "
                   "find_demand_interfaces_and_lsps get_sources get_destinations get_lsp_interface_data create_elements "
                   "utilization_display_info demand_sources_and_destinations lsp_sources_and_destinations make_node_list"),
}

# (function, channel) -> documented: a memo of the grouping, the adoption of a configured metric
FREE = {("parallel_lsp_groups", "store:Model._parallel_lsp_groups"),
        ("*", "store:RSVP_LSP.initial_manual_metric"), ("*", "store:RSVP_LSP._manual_metric"),
        ("*", "store:Model._parallel_lsp_groups")}

A = None


def todo(A):
    out = []
    for k in ("FlexModel", "PerformanceModel"):
        c = A.impl.classes.get(k)
        if c is None:
            continue
        for nm in MASTER:
            f = A.impl.find(k, MET, nm)
            if f is not None:
                out.append((k, MET, nm, k))
        out.append((k, GET, "all_interface_circuit_ids", k))
    for c, (gs, ms) in OTHER.items():
        for nm, tab in gs + [(m, MET) for m in ms.split()]:
            out.append((c, tab, nm, "FlexModel"))
    return [u for u in out if A.impl.find(u[0], u[1], u[2]) is not None]


def one(u):
    c, tab, nm, k = u
    fn = A.impl.find(c, tab, nm)
    x, I = summary(A, fn, c, k)
    if x is None:
        return u, fn.where, None, I, []
    bad = []
    for ch, t in x.chan.items():
        kind = ch.split(":")[0]
        if kind not in ("store", "mut", "call"):
            continue
        if (nm, ch) in FREE or ("*", ch) in FREE or ch.startswith("store:WeatherMap") or ch.startswith("mut:WeatherMap"):
            continue
        ps = [p for p in diff.parts(t) if p[1] != 0 and not local(p)]
        if ps:
            bad.append((ch, x.where.get(ch, fn.where), [diff.pshow(p)[:300] for p in ps[:3]]))
    return u, fn.where, bad, "", sorted(I.visited)


def local(p):
    """the effect is on an object made by the query itself"""
    b = p[2].args[0] if p[2].op == "tuple" else p[2]
    while b is not None and b.op in ("attr", "item", "entry", "ent") and b.args and hasattr(b.args[0], "op"):
        b = b.args[0]
    return b.op in ("new", "newobj", "newself")


def check(An, prop):
    global A
    A = An
    us = todo(A)
    found, dim, seen = [], [], set()
    for u, x in pool.each(one, us, 8, limit=100):
        if isinstance(x, pool.Lost):
            dim.append("%s.%s: %s" % (u[0], u[2], x.why))
            continue
        u, where, bad, why, vis = x
        name = "%s.%s" % (u[0], u[2])
        seen.update(vis)
        if bad is None:
            dim.append("%s: %s" % (name, why))
            continue
        for ch, w, det in bad:
            found.append(Found("query-effect", "%s %s" % (name, ch), "the query %s has an effect on the model (%s)" % (
                name, ch), w, det))
    return len(us), found, dim, seen, [{"query": "%s.%s" % (u[0], u[2])} for u in us[:5]]
