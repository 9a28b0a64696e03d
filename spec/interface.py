class Interface(object):

    @holds("A01 L01", {"store": "G01 I01", "raise": "G01"})
    def __init__(self, name, cost, capacity, node_object, remote_node_object, circuit_id=None, rsvp_enabled=True,
                 percent_reservable_bandwidth=100):
        self.name = name
        self.cost = cost
        self.capacity = capacity
        self.node_object = node_object
        self.remote_node_object = remote_node_object
        self.circuit_id = circuit_id
        self.traffic = 0.0
        self._failed = False
        self._reserved_bandwidth = 0.0
        self._srlgs = set()
        self.rsvp_enabled = rsvp_enabled
        self.percent_reservable_bandwidth = percent_reservable_bandwidth

    @property
    @holds("A01 L02 Q02")
    def _key(self):
        return (self.name, self.node_object.name)

    @holds("A01 Q02")
    def __eq__(self, other_object):
        if not isinstance(other_object, Interface):
            return NotImplemented
        return (self.node_object == other_object.node_object and
                self.remote_node_object == other_object.remote_node_object and
                self.name == other_object.name and
                self.capacity == other_object.capacity and
                self.circuit_id == other_object.circuit_id)

    @holds("A01 Q02")
    def __ne__(self, other_object):
        return not (self.node_object == other_object.node_object and
                    self.remote_node_object == other_object.remote_node_object and
                    self.name == other_object.name and
                    self.capacity == other_object.capacity and
                    self.circuit_id == other_object.circuit_id)

    @holds("A01 Q02")
    def __hash__(self):
        return hash(self.name + self.node_object.name)

    @property
    @holds("R01 R02")
    def reservable_bandwidth(self):
        if self.rsvp_enabled is not True:
            return -1.0
        return round(self.capacity * self.percent_reservable_bandwidth / 100 - self.reserved_bandwidth, 1)

    @property
    @holds("R02")
    def reserved_bandwidth(self):
        return round(self._reserved_bandwidth, 1)

    @reserved_bandwidth.setter
    @holds("G01 R02")
    def reserved_bandwidth(self, value):
        if not isinstance(value, (int, float)):
            raise ModelException("number expected")
        self._reserved_bandwidth = value

    @property
    @holds("F02")
    def failed(self):
        return self._failed

    @failed.setter
    @holds("F01 F02 F03 F04 G01")
    def failed(self, status):
        if not isinstance(status, bool):
            raise ModelException("boolean expected")
        held = status is False and any(s.failed is True for s in self.srlgs)
        up = status is False and not held and self.node_object.failed is False and self.remote_node_object.failed is False
        self._failed = not up
        if not up:
            self.reserved_bandwidth = 0
        if held:
            raise ModelException("held down by an SRLG")

    @property
    @holds("G01")
    def cost(self):
        return self._cost

    @cost.setter
    @holds("G01")
    def cost(self, cost):
        if cost < 1 or not isinstance(cost, int):
            raise ModelException("cost")
        self._cost = cost

    @property
    @holds("G01")
    def capacity(self):
        return self._capacity

    @capacity.setter
    @holds("G01")
    def capacity(self, capacity):
        if not capacity > 0:
            raise ModelException("capacity")
        self._capacity = capacity

    @holds("F02")
    def fail_interface(self, model):
        far = self.get_remote_interface(model)
        for end in (self, far):
            end.failed = True

    @holds("F02")
    def unfail_interface(self, model):
        far = self.get_remote_interface(model)
        if self.node_object.failed is not False or self.remote_node_object.failed is not False:
            raise ModelException("a node is down")
        for end in (self, far):
            end.failed = False

    @holds("F02 Q02")
    def get_remote_interface(self, model):
        found = [i for i in model.interface_objects
                 if i.node_object.name == self.remote_node_object.name and i.circuit_id == self.circuit_id]
        if not found:
            raise ModelException("no far end")
        far = found[0]
        if far.remote_node_object.interfaces(model) != self.node_object.interfaces(model):
            raise ModelException("inconsistent far end")
        return far

    @holds("Q02")
    def get_circuit_object(self, model):
        return model.get_circuit_object_from_interface(self.name, self.node_object.name)

    @holds("T02")
    def demands(self, model):
        return list({d for d in model.demand_objects if d.path != "Unrouted"
                     for p in d.path for x in p
                     if (isinstance(x, RSVP_LSP) and self in x.path["interfaces"])
                     or (not isinstance(x, RSVP_LSP) and self in p)})

    @holds("T02")
    def lsps(self, model):
        return list({l for l in model.rsvp_lsp_objects if "Unrouted" not in l.path and self in l.path["interfaces"]})

    @property
    @holds("T01")
    def utilization(self):
        return "Int is down" if self.traffic == "Down" else float("%.2f" % (100 * self.traffic / self.capacity))

    @property
    @holds("F04")
    def srlgs(self):
        return self._srlgs

    @holds("F04")
    def add_to_srlg(self, srlg_name, model, create_if_not_present=False):
        group = model.get_srlg_object(srlg_name, False)
        if group is None:
            if create_if_not_present is not True:
                raise ModelException("unknown SRLG")
            group = SRLG(srlg_name, model)
            model.srlg_objects.add(group)
        else:
            group.interface_objects.add(self)
            group.interface_objects.add(self.get_remote_interface(model))
        for end in (self, self.get_remote_interface(model)):
            end._srlgs.add(group)

    @holds("F04")
    def remove_from_srlg(self, srlg_name, model):
        group = model.get_srlg_object(srlg_name)
        far = self.get_remote_interface(model)
        for end in (self, far):
            group.interface_objects.remove(end)
            end._srlgs.remove(group)
        for end in (self, far):
            end.failed = False
