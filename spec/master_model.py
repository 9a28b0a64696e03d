class _MasterModel(object):

    @holds("I01 A01")
    def __init__(self, interface_objects=None, node_objects=None, demand_objects=None, rsvp_lsp_objects=None):
        self.interface_objects = set() if interface_objects is None else interface_objects
        self.node_objects = set() if node_objects is None else node_objects
        self.demand_objects = set() if demand_objects is None else demand_objects
        self.rsvp_lsp_objects = set() if rsvp_lsp_objects is None else rsvp_lsp_objects
        self.circuit_objects = set()
        self.srlg_objects = set()
        self._parallel_lsp_groups = {}

    # ---------------------------------------------------------------- failures

    @holds("F01 F02")
    def fail_interface(self, interface_name, node_name):
        end = self.get_interface_object(interface_name, node_name)
        for i in (end.get_remote_interface(self), end):
            i.failed = True

    @holds("F02 F03", {"call:validate_model": "V02"})
    def unfail_interface(self, interface_name, node_name, raise_exception=False):
        if not isinstance(raise_exception, bool):
            raise ModelException("raise_exception")
        end = self.get_interface_object(interface_name, node_name)
        far = end.get_remote_interface(self)
        if end.node_object.failed is False and far.node_object.failed is False:
            for i in (far, end):
                i.failed = False
                i.reserved_bandwidth = 0
            self.validate_model()
        elif raise_exception:
            raise ModelException("a node is down")

    @holds("F03")
    def fail_node(self, node_name):
        for i in [i for i in self.interface_objects if i.node_object.name == node_name]:
            far = i.get_remote_interface(self)
            far.failed = True
            i.failed = True
        self.get_node_object(node_name).failed = True

    @holds("F03", {"call:validate_model": "V02"})
    def unfail_node(self, node_name):
        self.get_node_object(node_name).failed = False
        for i in [i for i in self.interface_objects if i.node_object.name == node_name]:
            if not i.remote_node_object.failed and not any(s.failed for s in i.srlgs):
                self.unfail_interface(i.name, node_name)
                far = i.get_remote_interface(self)
                self.unfail_interface(far.name, far.node_object.name)

    @holds("F04")
    def fail_srlg(self, srlg_name):
        group = self.get_srlg_object(srlg_name)
        for n in self.node_objects:
            if n in group.node_objects:
                self.fail_node(n.name)
        for i in self.interface_objects:
            if i in group.interface_objects:
                self.fail_interface(i.name, i.node_object.name)
        group.failed = True

    @holds("F04")
    def unfail_srlg(self, srlg_name):
        group = self.get_srlg_object(srlg_name)
        group.failed = False
        for n in self.node_objects:
            if n in group.node_objects:
                try:
                    self.unfail_node(n.name)
                except ModelException:
                    pass
        for i in self.interface_objects:
            if i in group.interface_objects:
                try:
                    self.unfail_interface(i.name, i.node_object.name)
                except ModelException:
                    pass

    @holds("F04 A01")
    def add_srlg(self, srlg_name):
        if any(s.name == srlg_name for s in self.srlg_objects):
            raise ModelException("duplicate")
        self.srlg_objects.add(SRLG(srlg_name, self))

    # ---------------------------------------------------------------- lookups

    @holds("Q02 F04")
    def get_srlg_object(self, srlg_name, raise_exception=True):
        found = [s for s in self.srlg_objects if s.name == srlg_name]
        if len(found) == 1:
            return found[0]
        if raise_exception:
            raise ModelException("unknown SRLG")
        return None

    @holds("Q02")
    def get_node_object(self, node_name):
        for n in self.node_objects:
            if n.name == node_name:
                return n
        raise ModelException("unknown node")

    @holds("Q02")
    def get_interface_object(self, interface_name, node_name):
        if not any(i.name == interface_name and i.node_object.name == node_name for i in self.interface_objects):
            raise ModelException("unknown interface")
        node = self.get_node_object(node_name)
        return [i for i in self.interface_objects if i.node_object.name == node_name and i.name == interface_name][0]

    @holds("Q02")
    def get_circuit_object_from_interface(self, interface_name, node_name):
        if not any(i.name == interface_name and i.node_object.name == node_name for i in self.interface_objects):
            raise ModelException("unknown interface")
        end = self.get_interface_object(interface_name, node_name)
        return [c for c in self.circuit_objects if c.interface_a == end or c.interface_b == end][0]

    @holds("Q02")
    def get_demand_object(self, source_node_name, dest_node_name, demand_name="none"):
        for d in self.demand_objects:
            if d.source_node_object.name == source_node_name and d.dest_node_object.name == dest_node_name and \
                    d.name == demand_name:
                return d
        raise ModelException("no matching demand")

    @holds("Q02")
    def get_rsvp_lsp(self, source_node_name, dest_node_name, lsp_name="none"):
        for l in self.rsvp_lsp_objects:
            if (l.source_node_object.name, l.dest_node_object.name, l.lsp_name) == \
                    (source_node_name, dest_node_name, lsp_name):
                return l
        raise ModelException("no matching LSP")

    @property
    @holds("Q02")
    def all_interface_circuit_ids(self):
        return {i.circuit_id for i in self.interface_objects}

    @holds("Q02")
    def get_failed_interface_objects(self):
        return [i for i in self.interface_objects if i.failed]

    @holds("Q02")
    def get_unfailed_interface_objects(self):
        return {i for i in self.interface_objects if not i.failed}

    @holds("Q02")
    def get_unrouted_demand_objects(self):
        return [d for d in self.demand_objects if d.path == "Unrouted"]

    @holds("Q02 F03")
    def get_node_interfaces(self, node_name):
        return [i for i in self.interface_objects if i.node_object.name == node_name]

    @holds("Q02 F03")
    def get_failed_node_objects(self):
        return [n for n in self.node_objects if n.failed]

    @holds("Q02 F03")
    def get_non_failed_node_objects(self):
        return [n for n in self.node_objects if not n.failed]

    @holds("Q02")
    def get_demand_objects_source_node(self, source_node_name):
        return [d for d in self.demand_objects if d.source_node_object.name == source_node_name]

    @holds("Q02")
    def get_demand_objects_dest_node(self, dest_node_name):
        return [d for d in self.demand_objects if d.dest_node_object.name == dest_node_name]

    @holds("Q02")
    def is_node_an_orphan(self, node_object):
        return node_object in self.get_orphan_node_objects()

    @holds("Q02")
    def get_orphan_node_objects(self):
        return [n for n in self.node_objects if not any(i.node_object.name == n.name for i in self.interface_objects)]

    @holds("Q02")
    def change_interface_name(self, node_name, current_interface_name, new_interface_name):
        end = self.get_interface_object(current_interface_name, node_name)
        end.name = new_interface_name
        return end

    # ---------------------------------------------------------------- additions

    @holds("A01", {"call:validate_model": "V02"})
    def add_demand(self, source_node_name, dest_node_name, traffic=0, name="none"):
        a = self.get_node_object(source_node_name)
        b = self.get_node_object(dest_node_name)
        d = Demand(a, b, traffic, name)
        if any(x.source_node_object.name == a.name and x.dest_node_object.name == b.name and x.name == name
               for x in self.demand_objects):
            raise ModelException("duplicate")
        self.demand_objects.add(d)
        self.validate_model()

    @holds("A01", {"call:validate_model": "V02"})
    def add_rsvp_lsp(self, source_node_name, dest_node_name, name):
        a = self.get_node_object(source_node_name)
        b = self.get_node_object(dest_node_name)
        l = RSVP_LSP(a, b, name)
        if any(x.source_node_object.name == a.name and x.dest_node_object.name == b.name and x.lsp_name == name
               for x in self.rsvp_lsp_objects):
            raise ModelException("duplicate")
        self.rsvp_lsp_objects.add(l)
        self.validate_model()

    @holds("A01", {"call:validate_model": "V02"})
    def add_node(self, node_object):
        if any(n.name == node_object.name for n in self.node_objects):
            raise ModelException("duplicate")
        self.node_objects.add(node_object)
        self.validate_model()

    @holds("I01 A01")
    def _make_network_interfaces(self, interface_info_list):
        mine = {n.name: n for n in self.node_objects}
        fresh, ends = set(), set()
        for row in interface_info_list:
            for name in (row["node"], row["remote_node"]):
                if name not in mine:
                    n = Node(name)
                    mine[name] = n
                    fresh.add(n)
            ends.add(Interface(row["name"], row["cost"], row["capacity"], mine[row["node"]], mine[row["remote_node"]],
                               row["circuit_id"]))
        return (ends, fresh)

    # ---------------------------------------------------------------- LSPs

    @holds("R01 R02")
    def _add_lsp_path_data(self, lsp, path):
        lsp.path = {"interfaces": path, "path_cost": sum(i.cost for i in path),
                    "baseline_path_reservable_bw": min(i.reservable_bandwidth for i in path)}

    @holds("R02 R03")
    @effectful("RSVP_LSP.path", "RSVP_LSP.reserved_bandwidth", "RSVP_LSP.setup_bandwidth", "Interface.reserved_bandwidth")
    def _optimize_parallel_lsp_group_res_bw(self, input_model, routed_lsps_in_group, traffic_in_demand_group):
        share = traffic_in_demand_group / len(routed_lsps_in_group)
        for l in routed_lsps_in_group:
            if l.configured_setup_bandwidth is None:
                before, amount = l.path["interfaces"], l.reserved_bandwidth
                l.find_rsvp_path_w_bw(share, input_model)
                if amount != l.reserved_bandwidth:
                    for i in before:
                        i.reserved_bandwidth = i.reserved_bandwidth - amount
                    for i in l.path["interfaces"]:
                        i.reserved_bandwidth = i.reserved_bandwidth + l.reserved_bandwidth

    @holds("R03 Q02")
    def parallel_lsp_groups(self):
        if self._parallel_lsp_groups:
            return self._parallel_lsp_groups
        groups = {}
        for l in self.rsvp_lsp_objects:
            key = "{}-{}".format(l.source_node_object.name, l.dest_node_object.name)
            groups[key] = [x for x in self.rsvp_lsp_objects if x.source_node_object.name == l.source_node_object.name
                           and x.dest_node_object.name == l.dest_node_object.name]
        self._parallel_lsp_groups = groups
        return groups

    @holds("R03 Q02")
    def parallel_demand_groups(self):
        groups = {}
        for l in self.demand_objects:
            key = "{}-{}".format(l.source_node_object.name, l.dest_node_object.name)
            groups[key] = [x for x in self.demand_objects if x.source_node_object.name == l.source_node_object.name
                           and x.dest_node_object.name == l.dest_node_object.name]
        return groups

    @holds("R03 R01")
    @effectful("RSVP_LSP.path", "RSVP_LSP.reserved_bandwidth", "RSVP_LSP.setup_bandwidth", "Interface.reserved_bandwidth")
    def _route_parallel_lsp_groups(self, parallel_demand_groups, parallel_lsp_groups):
        for key, group in parallel_lsp_groups.items():
            try:
                total = sum(d.traffic for d in parallel_demand_groups[key])
            except KeyError:
                total = 0
            self._determine_lsp_state_info(group, total / len(group) if total > 0 else 0)
            routed = [l for l in group if l.path != "Unrouted"]
            if routed and len(routed) != len(group):
                self._optimize_parallel_lsp_group_res_bw(self, routed, total)

    @holds("R01 R02 S01")
    @effectful("RSVP_LSP.path", "RSVP_LSP.reserved_bandwidth", "RSVP_LSP.setup_bandwidth", "Interface.reserved_bandwidth")
    def _route_lsps(self):
        for i in self.interface_objects:
            i.reserved_bandwidth = 0
        self._route_parallel_lsp_groups(self.parallel_demand_groups(), self.parallel_lsp_groups())
        return self

    # ---------------------------------------------------------------- validation

    @holds("V01")
    @opaque("any")
    def _unique_interface_per_node(self):
        bad = {(n, i.name) for n in self.node_objects for i in self.interface_objects
               if i.node_object.name == n.name
               and any(j is not i and j.name == i.name and j.node_object.name == n.name for j in self.interface_objects)}
        if bad:
            return "Interface names must be unique per node.  The following nodes have duplicate interface names {}".format(
                bad)
        return True

    @holds("V01")
    def _reserved_bw_error_checks(self, int_info, int_res_bw_sum_error, int_res_bw_too_high, interface):
        if interface.reserved_bandwidth > interface.capacity:
            int_res_bw_too_high.add(interface)
        if round(interface.reserved_bandwidth, 1) != round(int_info[interface._key]["reserved_bandwidth"], 1):
            int_res_bw_sum_error.add((interface, interface.reserved_bandwidth, tuple(interface.lsps(self))))

    @holds("V01 F02")
    def _validate_circuit_interface_capacity(self, circuits_with_mismatched_interface_capacity, ckt):
        a, b = ckt.interface_a, ckt.interface_b
        if a.failed != b.failed:
            a.failed = True
            b.failed = True
        if a.capacity != b.capacity:
            circuits_with_mismatched_interface_capacity.append(ckt)

    # ---------------------------------------------------------------- views

    @holds("D01")
    def simulation_diagnostics(self):
        quiet = [l for l in self.rsvp_lsp_objects if l.path != "Unrouted" and l.demands_on_lsp(self) == []]
        busy = [l for l in self.rsvp_lsp_objects if l.path != "Unrouted" and l.demands_on_lsp(self) != []]
        riding = {d for d in self.demand_objects for p in d.path for x in p if isinstance(x, RSVP_LSP)}
        return {
            "Number of routed LSPs carrying Demands": len(busy),
            "Number of routed LSPs with no Demands": len(quiet),
            "Number of Demands riding LSPs": len(riding),
            "Number of Demands not riding LSPs": len(self.demand_objects) - len(riding),
            "Number of unrouted LSPs": len([l for l in self.rsvp_lsp_objects if l.path == "Unrouted"]),
            "Number of unrouted Demands": len([d for d in self.demand_objects if d.path == "Unrouted"]),
            "routed LSPs with no demands generator": iter(quiet),
            "routed LSPs with demands generator": iter(busy),
            "demands riding LSPs generator": iter(riding),
        }

    @holds("V01")
    @opaque("any")
    def _make_int_info_dict(self):
        info = {i._key: {"lsps": [], "reserved_bandwidth": 0} for i in self.interface_objects}
        for l in self.rsvp_lsp_objects:
            if "Unrouted" not in l.path:
                for i in l.path["interfaces"]:
                    info[i._key]["lsps"].append(l)
                    info[i._key]["reserved_bandwidth"] += round(l.reserved_bandwidth, 1)
        return info

    @holds("Q02")
    def _does_interface_exist(self, interface_name, node_object_name):
        if not any(i._key == (interface_name, node_object_name) for i in self.interface_objects):
            raise ModelException("no such interface")

    # ---------------------------------------------------------------- files

    @classmethod
    @holds("L01 L02")
    @effectful()
    def _add_lsp_from_data(cls, lsp_info_begin_index, lines, lsp_set, node_set):
        for line in lines[lsp_info_begin_index:find_end_index(lsp_info_begin_index, lines)]:
            field = line.split("\t")
            ends = [n for n in node_set if n.name == field[0]]
            far = [n for n in node_set if n.name == field[1]]
            if not ends or not far:
                raise ModelException("unknown node")
            try:
                bw = float(field[3])
            except (IndexError, ValueError):
                bw = None
            try:
                metric = int(field[4])
            except (IndexError, ValueError):
                metric = None
            lsp = RSVP_LSP(ends[0], far[0], field[2], configured_setup_bandwidth=bw, configured_manual_metric=metric)
            if lsp._key not in {x._key for x in lsp_set}:
                lsp_set.add(lsp)

    @classmethod
    @holds("L01 L02")
    @effectful()
    def _add_demand_from_data(cls, demand_line, demand_set, lines, node_set):
        field = demand_line.split("\t")
        ends = [n for n in node_set if n.name == field[0]]
        far = [n for n in node_set if n.name == field[1]]
        if not ends or not far:
            raise ModelException("unknown node")
        dmd = Demand(ends[0], far[0], int(field[2]), field[3] if field[3] != "" else "none")
        if dmd._key not in {x._key for x in demand_set}:
            demand_set.add(dmd)

    @classmethod
    @holds("L01 L02")
    @effectful(ret="node_set")
    def _add_node_from_data(cls, demand_set, interface_set, lsp_set, node_line, node_set):
        field = node_line.split("\t")
        try:
            lat = int(field[2])
        except (IndexError, ValueError):
            lat = 0
        try:
            lon = int(field[1])
        except (IndexError, ValueError):
            lon = 0
        try:
            shortcuts = field[3] or False
        except IndexError:
            shortcuts = False
        known = [n for n in node_set if n.name == field[0]]
        if known:
            node = known[0]
        else:
            node = Node(field[0])
            node_set.add(node)
        node.lat = lat
        node.lon = lon
        node.igp_shortcuts_enabled = shortcuts
        return node_set
