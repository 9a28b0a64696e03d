#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording stays in one place)."""
import json, os
M, F, P = "pyNTM/master_model.py", "pyNTM/flex_model.py", "pyNTM/performance_model.py"
I, N, R, S, D, C, W = ("pyNTM/%s.py" % x for x in ("interface", "node", "rsvp", "srlg", "demand", "circuit", "weathermap"))
PROPS = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = state
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


p("F01", "Failed elements carry no traffic and hold no reservation",
  "A failed link end is never part of the topology on which LSPs or demands are routed, LSPs are re-signaled, or shortest-path queries are answered. "
  "After a simulation a link end shows traffic \"Down\" exactly when it is failed and a number otherwise, and traffic or reservations are only ever added on link ends taken from those routed paths. "
  "Marking a link end failed drops its reserved bandwidth to zero at once.",
  ["inputs", "histories"], "every topology, every set of failed links, nodes and SRLGs, every sequence of failures and simulations, both model classes",
  "tests fail a handful of links in fixed topologies; a missing failed check only shows when the failed link would have been the preferred one",
  [I, M, F, P],
  [("failed state and its guardrail", I), ("routing graphs", F), ("routing graphs", P), ("per-link traffic", F), ("per-link traffic", P)])
p("F02", "Both ends of a circuit fail and recover together",
  "Failing one end of a circuit through the link itself or through the model also fails its far end, and restoring it restores both ends; a restore takes effect only when the nodes at both ends are up, otherwise the link stays failed (the model refuses with an error only when asked to raise). "
  "A circuit reports failed exactly when at least one of its ends is failed, and validation fails both ends whenever their states disagree. "
  "A circuit added in the failed state has both ends failed.",
  ["inputs", "histories"], "every circuit, every order of failing and restoring links and nodes",
  "an end left behind only matters in histories that restore or re-route over that exact circuit",
  [I, M, C], [("fail/unfail of a link end", I), ("fail/unfail through the model", M), ("circuit state", C), ("adding circuits", F), ("adding circuits", P)])
p("F03", "Node failure and recovery reach every attached link",
  "Failing a node marks it failed and fails every link attached to it at both ends. "
  "Restoring a node marks it up and then restores every attached link, both ends, whose far node is up and that no failed SRLG holds down, whatever order the links are visited in. "
  "A link end can never be marked up while either of its end nodes is failed.",
  ["inputs", "histories"], "every node, any number of attached links, any failed neighbours and SRLGs, every order of failures and restores",
  "tests use few links per node; skipped or partially restored links depend on set order and on the neighbours' states",
  [M, I, N], [("node fail/unfail", M), ("link failed guardrail", I), ("attached links", N)])
p("F04", "SRLG failure, recovery and membership are complete",
  "Failing an SRLG fails every member node and member link (both ends) and marks the SRLG failed; restoring it clears the SRLG first and then tries to restore every member node and link, one member's refusal never stopping the others. "
  "While any SRLG of a node or link is failed, an attempt to mark that node or link up leaves it failed and raises the model error. "
  "Joining or leaving an SRLG applies to both ends of a circuit, an unknown SRLG is an error unless creation was requested, and SRLG names are unique in a model.",
  ["inputs", "histories"], "every membership, overlapping SRLGs, every order of fail/unfail/join/leave",
  "tests use one or two SRLGs with one member each; overlapping groups and partial failures are combinatorial",
  [S, N, I, M], [("SRLG members", S), ("node membership and guardrail", N), ("link membership and guardrail", I), ("SRLG fail/unfail", M)])
p("S01", "Each simulation starts from a clean slate",
  "A simulation never lets anything left by an earlier simulation or history influence its result: per-link traffic and reservations, every LSP's path, reservation and setup bandwidth, every demand's path and path detail, and every memoized grouping are reset before they are first read. "
  "The reset covers every element of the model, failed or not, routed or not.",
  ["histories"], "every history of changes and simulations on one model object",
  "each test simulates once or twice from a fresh file; leakage shows only after particular change sequences",
  [F, P, M], [("simulation entry", F), ("simulation entry", P), ("memoized groups", M), ("reservation reset", M)],
  state=[{"name": "interface.traffic, interface.reserved_bandwidth, lsp.path, lsp.reserved_bandwidth, lsp.setup_bandwidth, demand.path, demand path detail, parallel group memo", "where": M}])
p("R01", "LSPs are admitted only on eligible least-cost paths",
  "An LSP is routed only over link ends that are not failed, are RSVP enabled and have at least its setup bandwidth still reservable, along a path of least IGP cost and, among those with room, of fewest hops; the same eligibility (counting its own current reservation as available on its own path) applies when it is re-signaled for a different bandwidth, and if no such path exists then it keeps its path. "
  "An LSP for which no eligible path exists ends up unrouted, with no path and no reservation, and never stops the remaining LSPs from being routed.",
  ["inputs"], "every topology, reservation state, LSP population and routing order, both model classes",
  "admission bugs need scarce bandwidth, disabled links or ties that fixed test topologies do not contain",
  [F, P, M, R], [("LSP routing", F), ("LSP routing", P), ("re-signaling", R), ("re-signal topology", F), ("re-signal topology", P)])
p("R02", "Reserved bandwidth is the sum of the LSPs on the link",
  "Routing an LSP adds its reserved bandwidth exactly once to every link end of its chosen path and to no other, an unrouted LSP adds nothing, and re-signaling releases the old amount on the old path and books the new amount on the new path. "
  "A link end's reservable bandwidth is its capacity times its reservable percentage minus its reservations, or -1 when it is not RSVP enabled.",
  ["inputs", "histories"], "every LSP population, every re-signal sequence, both model classes",
  "double booking or a missed release only shows when LSPs share links and are re-signaled",
  [F, P, M, I], [("booking", F), ("booking", P), ("release and re-book", M), ("reservable bandwidth", I)])
p("R03", "LSP setup bandwidth follows configuration or offered traffic",
  "An LSP with a configured setup bandwidth signals for and reserves exactly that amount, always. "
  "Every other LSP asks for the total traffic of the demands between its two end nodes divided by the number of LSPs between those nodes, and only when some but not all LSPs of such a group could be routed are the routed auto-bandwidth ones asked to re-signal for the total divided by the number routed.",
  ["inputs"], "every group of parallel LSPs and demands, any mix of configured and auto bandwidth",
  "tests cover two groups; wrong divisors or groups coincide with right ones on small symmetric examples",
  [M, F, P, R], [("group share", M), ("re-optimization", M), ("setup bandwidth", R), ("LSP state", F), ("LSP state", P)])
p("R04", "LSP metrics: manual overrides, topology otherwise",
  "An LSP's effective metric is its manual metric when one is set, otherwise the cost of the current shortest path between its end nodes when it is routed, otherwise it reports unrouted; its topology metric is the sum of the costs of the links on its path, or unrouted. "
  "Setting the manual metric accepts positive integers, treats -1 as clearing it and rejects everything else; the value set last, or the configured value when none was set since, is the one in force.",
  ["inputs", "histories"], "every LSP, every sequence of metric changes",
  "tests set one metric on one LSP; precedence errors need particular set/clear/configure orders",
  [R], [("manual metric", R), ("effective metric", R), ("topology metric", R)])
p("R05", "Demands ride every best LSP between their ends, else IGP paths",
  "A demand is placed on all, and only, the routed LSPs from its source to its destination that have the lowest effective metric; only when there is none is it placed on all equal-cost shortest paths over links that are up, including every equal-cost parallel link per hop where parallel links are supported and regardless of reservations or RSVP enablement. "
  "A demand with neither is marked unrouted and the remaining demands are still routed.",
  ["inputs"], "every topology, LSP population, metric assignment and demand set, both model classes",
  "wrong selections coincide with right ones unless metrics, failures and parallel links combine",
  [F, P], [("demand routing", F), ("demand routing", P), ("parallel link expansion", F), ("path conversion", P)])
p("R06", "IGP shortcuts use only eligible LSPs",
  "A demand routed over the IGP is shifted onto an LSP in mid-path only at a node that has IGP shortcuts enabled, only onto routed LSPs from that node to a later node of the same path that have the lowest effective metric among the routed parallel ones, and the LSP replaces exactly the hops from its source to its destination. "
  "Among the resulting alternatives only those of lowest total metric are kept, counting link costs and LSP effective metrics.",
  ["inputs"], "every topology, shortcut placement, LSP population and metric assignment",
  "tests cover a handful of shortcut layouts",
  [F], [("shortcut search", F), ("substitution", F), ("metric comparison", F)])
p("T01", "Demand traffic is split and attributed to the right links",
  "A demand on n parallel best LSPs puts traffic/n on each of them and hence on every link of each of those LSPs; a demand on IGP paths puts on each path its traffic divided by the product of the equal-cost fan-outs along that path, and every link receives the sum of the paths that use it. "
  "The recorded path detail lists every path of the demand with exactly the share and split counts used, and unrouted demands add no traffic anywhere. "
  "A link's utilization is its traffic over its capacity in percent, or the down marker when it is failed.",
  ["inputs"], "every demand set and topology, both model classes",
  "attribution errors cancel out on symmetric examples",
  [F, P, I, D], [("traffic placement", F), ("traffic placement", P), ("utilization", I)])
p("T02", "Traffic and membership views agree with the simulated paths",
  "The demands and LSPs reported on a link are exactly those whose simulated path uses it, directly or through an LSP; the demands reported on an LSP are exactly those whose path includes it. "
  "Traffic on an LSP is, for the single-link model class, the traffic of its demands divided by the number of best parallel routed LSPs, and for the parallel-link class the sum of the recorded shares of the paths that include it.",
  ["inputs"], "every simulated model",
  "tests check a few links; omissions need nested paths or several path alternatives",
  [I, R], [("demands and LSPs on a link", I), ("demands and traffic on an LSP", R)])
p("Q01", "Path queries return only usable paths between the asked nodes",
  "A shortest-path query returns all least-cost paths between the two nodes over links that are up and have the needed bandwidth, with their cost, each hop using a cheapest usable link; an all-paths query returns the simple paths within the cutoff whose links have the needed bandwidth, leaving out failed links when asked to. "
  "When there is no path both return an empty path list (and no cost) instead of failing.",
  ["inputs"], "every topology, node pair, bandwidth and option, both model classes",
  "a wrong link is returned only when a parallel, failed or full link sits between the same nodes",
  [F, P], [("shortest path", F), ("shortest path", P), ("all paths", F), ("all paths", P)])
p("Q02", "Lookups return exactly the match or the model error",
  "Looking up a node, link, LSP, demand, SRLG or circuit by its identifying names returns the element that matches every given name, and raises the model error when there is none (an SRLG lookup returns nothing instead when told not to raise). "
  "List queries (failed, unfailed, unrouted, orphan, per source, per destination, per node) return exactly the elements that satisfy their description.",
  ["inputs"], "every model and every argument",
  "tests look up existing names in tiny models",
  [M, F, P, N], [("lookups and list queries", M), ("links between nodes", F), ("links between nodes", P), ("links of a node", N)])
p("Q03", "Queries and displays never change the model",
  "No lookup, list query, path query, metric or traffic view, diagnostic, display function or map rendering changes any link, node, demand, LSP, SRLG or model state, apart from memoized groupings and the one-time adoption of a configured manual metric.",
  ["inputs", "histories"], "every query at every point of every history",
  "a side effect is only visible in results computed after the query",
  [M, F, P, I, N, R, S, D, C, W], [("queries", M), ("queries", F), ("queries", P), ("views", I), ("views", R), ("map", W)])
p("V01", "Validation detects every documented inconsistency",
  "Validating a model raises the model error, naming the offenders, whenever a link has no counterpart in the opposite direction, a link's reservations exceed its capacity or differ from the sum of the LSPs on it, two links on a node share a name, two nodes share a name, the two ends of a circuit differ in capacity, and, for the single-link class, when several links join one pair of nodes or a node has IGP shortcuts enabled; otherwise it returns the model. "
  "A circuit pairs the two link ends that join the same nodes in opposite directions (and carry the same circuit id where parallel links are supported), each link end being in one circuit.",
  ["inputs"], "every model state",
  "each inconsistency needs its own malformed model, alone and combined",
  [F, P, M], [("validation", F), ("validation", P), ("checks", M), ("circuit pairing", F), ("circuit pairing", P)])
p("V02", "Every structural change and simulation ends validated",
  "Adding a node, circuit, demand, LSP or list of links, restoring a link through the model, and every simulation complete only after the whole model, including the change, has been validated.",
  ["inputs", "histories"], "every mutator, every path through it",
  "an unvalidated path is silent until a later operation meets the inconsistency",
  [M, F, P], [("mutators", M), ("mutators", F), ("mutators", P)])
p("A01", "Additions store what was asked; duplicates are refused first",
  "Adding a node, demand, LSP, SRLG or circuit whose identity already exists in the model raises the model error before anything is changed; adding an element that names an unknown node raises it too. "
  "Otherwise exactly the requested element is added with every given attribute in its place, a circuit as two link ends of equal capacity and circuit id pointing at each other.",
  ["inputs", "histories"], "every add operation with every argument",
  "swapped or dropped attributes coincide in symmetric tests; refusal after mutation needs the state to be compared after the error",
  [M, F, P, S], [("add operations", M), ("add circuit", F), ("add circuit", P), ("SRLG creation", S)])
p("G01", "Attribute guardrails cannot be bypassed",
  "A link's cost is always an integer of at least 1 and its capacity above 0, a reservation is a number, failed flags are booleans, coordinates are numbers, the shortcut flag is boolean (or the strings True/False), a demand's traffic is a number of at least 0 and an LSP's setup bandwidth is never negative: any attempt to set another value raises the documented error and leaves the old value in place. "
  "This holds at construction as well as on later assignment.",
  ["inputs", "histories"], "every assigned value",
  "tests try one bad value per attribute",
  [I, N, R, S, D], [("guardrails", I), ("guardrails", N), ("guardrails", R), ("guardrails", S), ("guardrails", D)])
p("I01", "Models are isolated from each other",
  "Creating, loading or changing one model never changes another: no element collection, cache or default value is shared between models or element objects that were created separately. "
  "Elements added to a model refer to the model's own node objects.",
  ["histories"], "every sequence of constructions and changes in one process",
  "tests pass explicit collections; sharing shows only with several models built from defaults in one process",
  [M, F, P, N, I, S, D, R], [("constructors", M), ("constructors", F), ("constructors", P)])
p("L01", "Model files load column by column as documented",
  "Every value of a model file reaches the attribute its documented column stands for, with its documented type, for every number of optional columns present; missing or blank optional values take the documented defaults. "
  "Tables are found by their header names and end at the first blank line or the end of the file.",
  ["inputs"], "every well-formed file, both model classes",
  "sample files use the same values in several columns and rarely use all optional columns",
  [M, F, P], [("link lines", F), ("link lines", P), ("node, demand and LSP lines", M), ("table layout", F), ("table layout", P)])
p("L02", "Malformed or duplicate file content is refused or skipped",
  "A link line with too few columns, a circuit id that does not appear exactly twice (parallel-link class), and a demand or LSP naming an unknown node raise the model error. "
  "A second line for a link, demand or LSP that was already defined is disregarded and the first one kept; a file without an LSP table loads with no LSPs.",
  ["inputs"], "every file",
  "each malformation needs its own file",
  [M, F, P], [("file checks", F), ("file checks", P), ("demand and LSP lines", M)])
p("D01", "Simulation diagnostics count exactly what they name",
  "The diagnostics report as routed LSPs with and without demands, unrouted LSPs, demands riding LSPs, demands not riding LSPs and unrouted demands exactly the elements each name describes, so that the LSP counts add up to all LSPs and the two riding counts to all demands, and each listed generator yields exactly the elements of its count.",
  ["inputs"], "every simulated model",
  "one example cannot separate overlapping categories",
  [M], [("diagnostics", M)])
p("C01", "Legacy class names behave exactly like their replacements",
  "The legacy model classes construct from the same arguments and behave in every operation exactly as the parallel-link and single-link classes they stand for; both model families share one implementation of failures, lookups, LSP grouping and reservation logic.",
  ["inputs", "histories"], "every operation and argument",
  "tests only construct the legacy classes",
  [F, P, "pyNTM/__init__.py"], [("legacy class", F), ("legacy class", P), ("exports", "pyNTM/__init__.py")])
p("W01", "The map draws the model's true state",
  "Every circuit is drawn with both end nodes at their coordinates and failed state and with one edge per link end that carries that end's own name, cost, utilization, circuit id and capacity, attached to its own node; every edge gets a color: the failed color exactly when the link is down, otherwise the one color whose documented utilization range contains its utilization. "
  "Every selection list offers exactly the nodes, links, demands or LSPs it names, and selecting a demand, an LSP or a link highlights exactly what it crosses.",
  ["inputs"], "every model and every utilization value",
  "the map has no tests; gaps sit between sampled utilization values",
  [W], [("elements", W), ("edge color", W), ("display lists", W)])
p("W02", "The map's interactive wiring is complete and consistent",
  "Every callback of the map refers only to components and properties that exist in the layout, no component property is written by two callbacks, each callback accepts as many inputs as it is registered for and returns as many values as it has outputs, and every key read from an exchanged selection is present in what its writers put there.",
  ["programs"], "every callback, every component, every selection payload",
  "wiring errors only surface when a user clicks the particular control in a browser",
  [W], [("layout", W), ("callbacks", W)])
p("N01", "Traffic is conserved numerically from end to end",
  "For every simulated demand the traffic entering at its source equals the traffic leaving at its destination and equals the demand's traffic, up to the documented rounding, on every cut of the network.",
  ["inputs"], "every topology and demand set",
  "a quantitative statement over unbounded topologies",
  [F, P], [("traffic placement", F), ("traffic placement", P)])
p("N02", "Large models simulate within practical time",
  "A simulation finishes in time polynomial in the size of the model for every topology, including those with many equal-cost paths.",
  ["inputs"], "every topology", "timing on unbounded sizes",
  [F, P], [("path enumeration", F), ("path enumeration", P)])
p("N03", "Ties between equal LSP paths are spread evenly",
  "When several candidate paths of an LSP tie on cost and hop count, each is chosen with equal probability, independently of earlier choices.",
  ["schedules"], "every random draw", "a distribution, not an outcome",
  [F, P, R], [("tie break", F), ("tie break", P)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in PROPS:
        f.write(json.dumps(x) + "\n")
print(len(PROPS))
