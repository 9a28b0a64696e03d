class RSVP_LSP(object):

    @holds("A01 I01 L01 R03 R04")
    def __init__(self, source_node_object, dest_node_object, lsp_name="none", configured_setup_bandwidth=None,
                 configured_manual_metric=None):
        self.source_node_object = source_node_object
        self.dest_node_object = dest_node_object
        self.lsp_name = lsp_name
        self.path = "Unrouted - initial"
        self.reserved_bandwidth = "Unrouted - initial"
        self._setup_bandwidth = "Unrouted - initial"
        self.configured_setup_bandwidth = configured_setup_bandwidth
        self._manual_metric = "not set"
        self.initial_manual_metric = configured_manual_metric

    @property
    @holds("A01 L02 Q02")
    def _key(self):
        return (self.source_node_object.name, self.dest_node_object.name, self.lsp_name)

    @holds("R01")
    def _find_path_cost_and_headroom_routed_lsp(self, candidate_paths):
        return [{"interfaces": p,
                 "path_cost": sum(i.cost for i in p),
                 "baseline_path_reservable_bw":
                     min(i.reservable_bandwidth + (self.reserved_bandwidth if i in self.path["interfaces"] else 0) for i in p)}
                for p in candidate_paths["path"]]

    @property
    @holds("R03")
    def setup_bandwidth(self):
        return self._setup_bandwidth

    @setup_bandwidth.setter
    @holds("R03 G01")
    def setup_bandwidth(self, proposed_setup_bw):
        if self.configured_setup_bandwidth:
            self._setup_bandwidth = float(self.configured_setup_bandwidth)
            return
        if not proposed_setup_bw >= 0:
            raise ModelException("negative")
        self._setup_bandwidth = float(proposed_setup_bw)

    @property
    @holds("R04")
    def manual_metric(self):
        first = self.initial_manual_metric
        if not first:
            return self._manual_metric
        if not isinstance(first, int) or first <= 0:
            raise ModelException("manual metric")
        self._manual_metric = first
        self.initial_manual_metric = None
        return first

    @manual_metric.setter
    @holds("R04")
    def manual_metric(self, value):
        good = isinstance(value, int) and value > 0
        if not good and value != -1:
            raise ModelException("manual metric")
        self.initial_manual_metric = None
        self._manual_metric = value if good else "not set"

    @holds("R04")
    def topology_metric(self, model):
        return "Unrouted" if "Unrouted" in self.path else sum(i.cost for i in self.path["interfaces"])

    @holds("R01 R02 R03")
    @effectful("RSVP_LSP.path", "RSVP_LSP.reserved_bandwidth", "RSVP_LSP.setup_bandwidth", ret="base")
    def find_rsvp_path_w_bw(self, requested_bandwidth, model):
        found = model.get_shortest_path_for_routed_lsp(self.source_node_object.name, self.dest_node_object.name, self,
                                                       requested_bandwidth)
        options = self._find_path_cost_and_headroom_routed_lsp(found)
        if not options:
            return self
        self.path = options[0] if len(options) == 1 else random.choice(options)
        self.reserved_bandwidth = requested_bandwidth
        self.setup_bandwidth = requested_bandwidth
        return self

    @holds("T02 Q02")
    def demands_on_lsp(self, model):
        return list({d for d in model.demand_objects if d.path != "Unrouted" and any(self in p for p in d.path)})

    @holds("T02")
    def traffic_on_lsp(self, model):
        key = "{}-{}".format(self.source_node_object.name, self.dest_node_object.name)
        routed = [l for l in model.parallel_lsp_groups()[key] if "Unrouted" not in l.path]
        best = min(l.effective_metric(model) for l in routed)
        n = len([l for l in routed if l.effective_metric(model) == best])
        if isinstance(model, PerformanceModel):
            return sum(d.traffic for d in self.demands_on_lsp(model)) / n
        return sum(info["path_traffic"] for d in self.demands_on_lsp(model)
                   for p, info in d.path_detail.items() if self in info["items"])

    @holds("R04")
    @opaque("any")
    def effective_metric(self, model):
        metric = self.manual_metric
        if metric != "not set":
            self.initial_manual_metric = None
            return metric
        if "Unrouted" in self.path:
            return "Unrouted"
        return model.get_shortest_path(self.source_node_object.name, self.dest_node_object.name, 0)["cost"]
