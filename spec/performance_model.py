class PerformanceModel(object):

    @holds("I01 A01")
    def __init__(self, interface_objects=None, node_objects=None, demand_objects=None, rsvp_lsp_objects=None):
        self.interface_objects = set() if interface_objects is None else interface_objects
        self.node_objects = set() if node_objects is None else node_objects
        self.demand_objects = set() if demand_objects is None else demand_objects
        self.rsvp_lsp_objects = set() if rsvp_lsp_objects is None else rsvp_lsp_objects
        self.circuit_objects = set()
        self.srlg_objects = set()
        self._parallel_lsp_groups = {}

    @holds("A01 I01", {"call:validate_model": "V02"})
    def add_network_interfaces_from_list(self, network_interfaces):
        ends, nodes = self._make_network_interfaces(network_interfaces)
        self.node_objects = self.node_objects.union(nodes)
        self.interface_objects = self.interface_objects.union(ends)
        self.validate_model()

    # ---------------------------------------------------------------- topology

    @holds("F01 R01 R05 Q01")
    @opaque("graph")
    def _make_weighted_network_graph(self, include_failed_circuits=True, needed_bw=0, rsvp_required=False):
        G = nx.DiGraph()
        for i in self.interface_objects:
            if include_failed_circuits is False and i.failed is not False:
                continue
            if needed_bw != 0 and i.reservable_bandwidth < needed_bw:
                continue
            if rsvp_required is True and i.rsvp_enabled is not True:
                continue
            G.add_edge(i.node_object.name, i.remote_node_object.name, cost=i.cost, interface=i, circuit_id=i.circuit_id)
        G.add_nodes_from(n.name for n in self.node_objects)
        return G

    @holds("F01 R01")
    @opaque("graph")
    def _make_weighted_network_graph_routed_lsp(self, lsp, needed_bw=0):
        G = nx.DiGraph()
        for i in self.interface_objects:
            room = i.reservable_bandwidth + (lsp.reserved_bandwidth if i in lsp.path["interfaces"] else 0)
            if i.failed is False and i.rsvp_enabled is True and room >= needed_bw:
                G.add_edge(i.node_object.name, i.remote_node_object.name, cost=i.cost)
        G.add_nodes_from(n.name for n in self.node_objects)
        return G

    @holds("Q01 R01 R05")
    @opaque(("list", ("list", "Interface")))
    def _convert_graph_path_to_model_path(self, nx_sp):
        return [[self.get_interface_object_from_nodes(a, b) for a, b in zip(path, path[1:])] for path in nx_sp]

    @holds("Q01 F01")
    @opaque(("list", "Interface"))
    def _convert_nx_path_to_model_path(self, nx_graph_path):
        return [self.get_interface_object_from_nodes(a, b) for a, b in zip(nx_graph_path, nx_graph_path[1:])]

    @holds("Q02 V01")
    @opaque("Interface")
    def get_interface_object_from_nodes(self, local_node_name, remote_node_name):
        for i in self.interface_objects:
            if i.node_object.name == local_node_name and i.remote_node_object.name == remote_node_name:
                return i

    # ---------------------------------------------------------------- queries

    @holds("Q01 R04 F01")
    @opaque("cpaths")
    def get_shortest_path(self, source_node_name, dest_node_name, needed_bw=0):
        G = self._make_weighted_network_graph(include_failed_circuits=False, needed_bw=needed_bw)
        try:
            paths = [self._convert_nx_path_to_model_path(p)
                     for p in nx.all_shortest_paths(G, source_node_name, dest_node_name, weight="cost")]
            cost = nx.shortest_path_length(G, source_node_name, dest_node_name, weight="cost")
        except BaseException:
            return {"path": [], "cost": None}
        return {"cost": cost, "path": paths}

    @holds("R01 F01")
    @opaque("cpaths")
    def get_shortest_path_for_routed_lsp(self, source_node_name, dest_node_name, lsp, needed_bw):
        G = self._make_weighted_network_graph_routed_lsp(lsp, needed_bw=needed_bw)
        try:
            paths = [self._convert_nx_path_to_model_path(p)
                     for p in nx.all_shortest_paths(G, source_node_name, dest_node_name, weight="cost")]
            cost = nx.shortest_path_length(G, source_node_name, dest_node_name, weight="cost")
        except BaseException:
            return {"path": [], "cost": None}
        return {"cost": cost, "path": paths}

    @holds("Q01 F01")
    def get_all_paths_reservable_bw(self, source_node_name, dest_node_name, include_failed_circuits=True, cutoff=10,
                                    needed_bw=0):
        G = self._make_weighted_network_graph(include_failed_circuits=include_failed_circuits, needed_bw=needed_bw)
        return {"path": [self._convert_nx_path_to_model_path(p)
                         for p in nx.all_simple_paths(G, source_node_name, dest_node_name, cutoff=cutoff)]}

    # ---------------------------------------------------------------- LSPs

    @holds("R01 R02 R03 F01")
    @effectful("RSVP_LSP.path", "RSVP_LSP.reserved_bandwidth", "RSVP_LSP.setup_bandwidth", "Interface.reserved_bandwidth")
    def _determine_lsp_state_info(self, lsps, traff_on_each_group_lsp):
        for lsp in lsps:
            want = traff_on_each_group_lsp if lsp.configured_setup_bandwidth is None else lsp.configured_setup_bandwidth
            lsp.reserved_bandwidth = want
            lsp.setup_bandwidth = want
            G = self._make_weighted_network_graph(include_failed_circuits=False, rsvp_required=True,
                                                  needed_bw=lsp.setup_bandwidth)
            lsp.path = {}
            try:
                shortest = list(nx.all_shortest_paths(G, lsp.source_node_object.name, lsp.dest_node_object.name,
                                                      weight="cost"))
            except nx.exception.NetworkXNoPath:
                lsp.path = "Unrouted"
                lsp.reserved_bandwidth = "Unrouted"
                continue
            fit = [p for p in self._convert_graph_path_to_model_path(shortest)
                   if min(i.reservable_bandwidth for i in p) >= lsp.setup_bandwidth]
            if not fit:
                lsp.path = "Unrouted"
                lsp.reserved_bandwidth = "Unrouted"
                continue
            if len(fit) > 1:
                few = [p for p in fit if len(p) == min(len(q) for q in fit)]
                chosen = random.choice(few) if len(few) > 1 else few[0]
            else:
                chosen = fit[0]
            self._add_lsp_path_data(lsp, chosen)
            for i in chosen:
                i.reserved_bandwidth = i.reserved_bandwidth + lsp.reserved_bandwidth

    # ---------------------------------------------------------------- demands

    @holds("R05 F01")
    @effectful("Demand.path", "Demand._path_detail", "Interface.traffic")
    def _route_demands(self, model):
        G = self._make_weighted_network_graph(include_failed_circuits=False)
        for d in model.demand_objects:
            d.path = []
            try:
                group = self.parallel_lsp_groups()["{}-{}".format(d.source_node_object.name, d.dest_node_object.name)]
                routed = [l for l in group if "Unrouted" not in l.path]
            except KeyError:
                routed = []
            if routed:
                d.path = [[l] for l in routed if l.effective_metric(self) == min(x.effective_metric(self) for x in routed)]
            else:
                try:
                    shortest = list(nx.all_shortest_paths(G, d.source_node_object.name, d.dest_node_object.name,
                                                          weight="cost"))
                except nx.exception.NetworkXNoPath:
                    d.path = "Unrouted"
                    continue
                d.path = self._convert_graph_path_to_model_path(shortest)
        self._update_interface_utilization()
        return self

    @holds("T01 F01")
    @effectful("Interface.traffic", "Demand._path_detail")
    def _update_interface_utilization(self):
        for i in self.interface_objects:
            i.traffic = "Down" if i.failed else 0.0
        for d in self.demand_objects:
            if "Unrouted" in d.path:
                continue
            try:
                group = self.parallel_lsp_groups()["{}-{}".format(d.source_node_object.name, d.dest_node_object.name)]
                best = min(l.effective_metric(self) for l in group if "Unrouted" not in l.path)
                ride = [l for l in group if "Unrouted" not in l.path and l.effective_metric(self) == best]
            except (KeyError, ValueError):
                ride = []
            if ride:
                for l in ride:
                    for i in l.path["interfaces"]:
                        i.traffic += d.traffic / len(ride)
                d._path_detail = self._lsp_routed_demand_path_detail(d, ride)
            else:
                for i, traffic in self._demand_traffic_per_int(d).items():
                    i.traffic += traffic
        return self

    @holds("T01")
    @effectful("Demand._path_detail", ret="any")
    def _demand_traffic_per_int(self, demand):
        used = {i for p in demand.path for i in p}
        out = {i.node_object.name: [x.node_object.name for x in used if x.node_object.name == i.node_object.name] for i in used}
        detail = {}
        for n, p in enumerate(demand.path):
            splits = {}
            ways = 1
            for i in p:
                ways = ways * len(out[i.node_object.name])
                splits[i] = ways
            detail["path_" + str(n)] = {"interfaces": p, "splits": splits,
                                        "path_traffic": round(float(demand.traffic) / float(max(splits.values())), 4)}
        demand._path_detail = detail
        return {i: round(sum(info["path_traffic"] for k, info in detail.items() for y in info["interfaces"] if y == i), 1)
                for i in used}

    @holds("T01")
    @opaque("any")
    def _lsp_routed_demand_path_detail(self, demand, lsps):
        return {"path_{}".format(k): {"items": [lsps[k]], "path_traffic": round(float(demand.traffic) / float(len(lsps)), 4),
                                      "splits": {lsps[k]: len(lsps)}}
                for k in range(len(lsps))}

    # ---------------------------------------------------------------- simulation

    @holds("S01 R05 T01", {"call:validate_model": "V02"})
    def update_simulation(self):
        self._parallel_lsp_groups = {}
        up = {i for i in self.interface_objects if i.failed is not True}
        nodes = {n for i in up for n in (i.node_object, i.remote_node_object)}
        rest = PerformanceModel(up, nodes, self.demand_objects, self.rsvp_lsp_objects)
        for i in self.interface_objects:
            i.reserved_bandwidth = 0
            i.traffic = 0
        for l in self.rsvp_lsp_objects:
            l.path = "Unrouted"
        for d in self.demand_objects:
            d.path = "Unrouted"
            d._path_detail = "Unrouted_detail"
        self._route_lsps()
        self._route_demands(rest)
        self.validate_model()

    # ---------------------------------------------------------------- additions

    @holds("A01 F02", {"call:validate_model": "V02"})
    def add_circuit(self, node_a_object, node_b_object, node_a_interface_name, node_b_interface_name, cost_intf_a=1,
                    cost_intf_b=1, capacity=1000, failed=False, circuit_id=None):
        if circuit_id is None:
            ids = self.all_interface_circuit_ids
            circuit_id = 1 if len(ids) == 0 else max(ids) + 1
        a = Interface(node_a_interface_name, cost_intf_a, capacity, node_a_object, node_b_object, circuit_id)
        b = Interface(node_b_interface_name, cost_intf_b, capacity, node_b_object, node_a_object, circuit_id)
        for i in self.interface_objects:
            if i._key == a._key or i._key == b._key:
                raise ModelException("duplicate")
        if failed:
            a.failed = True
            b.failed = True
        self.interface_objects.add(a)
        self.interface_objects.add(b)
        self.validate_model()

    # ---------------------------------------------------------------- validation

    @holds("V01", {"store:Interface.failed": "F02", "mut:Model.circuit_objects": "A01", "store:Model.circuit_objects": "A01"})
    @effectful("Interface.in_ckt", "Interface.circuit_id", "Interface.failed", "Model.circuit_objects")
    def validate_model(self):
        circuits = self._make_circuits(return_exception=True)
        info = self._make_int_info_dict()
        high, off = set(), set()
        for i in self.interface_objects:
            self._reserved_bw_error_checks(info, off, high, i)
        odd = []
        for c in self.circuit_objects:
            self._validate_circuit_interface_capacity(odd, c)
        names = {n.name for n in self.node_objects}
        if isinstance(circuits, dict) or high or off or odd or len(self.node_objects) != len(names) or \
                self._unique_interface_per_node() is not True or \
                any(n.igp_shortcuts_enabled is True for n in self.node_objects) or \
                len(self._multiple_links_between_nodes()) > 0 or \
                len(self.validate_srlg_nodes()) > 0:
            raise ModelException("invalid")
        return self

    @holds("V01 A01", {"raise": "V01"})
    @effectful("Interface.in_ckt", "Interface.circuit_id", "Model.circuit_objects", ret="base")
    def _make_circuits(self, return_exception=True, include_failed_circuits=True):
        G = self._make_weighted_network_graph(include_failed_circuits=include_failed_circuits)
        for i in self.interface_objects:
            i.in_ckt = False
        number = 1
        circuits = set()
        for a, b, data in [(a, b, d) for a, b, d in G.edges(data=True) if G.has_edge(b, a)]:
            x = self.get_interface_object_from_nodes(a, b)
            y = self.get_interface_object_from_nodes(b, a)
            if x.in_ckt is False and y.in_ckt is False:
                x.in_ckt = True
                y.in_ckt = True
                x.circuit_id = number
                y.circuit_id = number
                number += 1
                circuits.add(Circuit(x, y))
        lonely = [(a, b, d) for a, b, d in G.edges(data=True) if not G.has_edge(b, a)]
        if lonely:
            if return_exception:
                raise ModelException("unmatched")
            return {"data": lonely}
        self.circuit_objects = circuits

    @holds("V01")
    @opaque("any")
    def validate_srlg_nodes(self):
        errors = {}
        for s in self.srlg_objects:
            for n in s.node_objects:
                if s not in n.srlgs:
                    try:
                        errors[n.name].append(s.name)
                    except KeyError:
                        errors[n.name] = []
        return errors

    @holds("V01")
    @opaque(("list", "str"))
    def _multiple_links_between_nodes(self):
        pairs = [i.node_object.name + "-" + i.remote_node_object.name for i in self.interface_objects]
        return sorted(p for p in pairs if pairs.count(p) > 1)

    # ---------------------------------------------------------------- model files

    @classmethod
    @holds("L01 L02")
    @opaque("any")
    def _extract_interface_data_and_implied_nodes(cls, int_info_begin_index, int_info_end_index, lines):
        interfaces = set()
        nodes = set()
        for line in lines[int_info_begin_index:int_info_end_index]:
            field = line.split("\t")
            if len(field) < 5:
                raise ModelException("fields missing")
            near = [n for n in nodes if n.name == field[0]]
            far = [n for n in nodes if n.name == field[1]]
            x = Interface(
                field[2],
                int(field[3]),
                int(field[4]),
                near[0] if near else Node(field[0]),
                far[0] if far else Node(field[1]),
                None,
                len(field) == 5 or field[5] in ("T", "True", "true", ""),
                float(field[6] or 100) if len(field) > 6 else 100.0,
            )
            if x._key not in {i._key for i in interfaces}:
                interfaces.add(x)
            if not near:
                nodes.add(x.node_object)
            if field[1] not in {n.name for n in nodes}:
                nodes.add(x.remote_node_object)
        return interfaces, nodes

    @classmethod
    @holds("L01 L02", {"raise": "L02"})
    def load_model_file(cls, data_file):
        with open(data_file, "r", encoding="utf-8-sig") as f:
            lines = f.read().splitlines()
        start = lines.index("INTERFACES_TABLE") + 2
        end = find_end_index(start, lines)
        interfaces, nodes = cls._extract_interface_data_and_implied_nodes(start, end, lines)
        demands = set()
        lsps = set()
        start = lines.index("NODES_TABLE") + 2
        for line in lines[start:find_end_index(start, lines)]:
            cls._add_node_from_data(demands, interfaces, lsps, line, nodes)
        start = lines.index("DEMANDS_TABLE") + 2
        for line in lines[start:find_end_index(start, lines)]:
            cls._add_demand_from_data(line, demands, lines, nodes)
        if "RSVP_LSP_TABLE" in lines:
            cls._add_lsp_from_data(lines.index("RSVP_LSP_TABLE") + 2, lines, lsps, nodes)
        return cls(interfaces, nodes, demands, lsps)
