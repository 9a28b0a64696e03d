class Node(object):

    @holds("G01 I01 L01 A01")
    def __init__(self, name, lat=0, lon=0):
        if not isinstance(lat, (int, float)) or not isinstance(lon, (int, float)):
            raise ValueError("coordinates are numbers")
        self.name = name
        self._failed = False
        self._lat = lat
        self._lon = lon
        self._srlgs = set()
        self._igp_shortcuts_enabled = False

    @holds("A01 Q02")
    def __eq__(self, other_node):
        return self.__dict__ == other_node.__dict__

    @holds("A01 Q02")
    def __hash__(self):
        return hash(self.name)

    @holds("A01 Q02")
    def _key(self):
        return self.name

    @property
    @holds("F03")
    def failed(self):
        return self._failed

    @failed.setter
    @holds("F03 F04 G01")
    def failed(self, status):
        if not isinstance(status, bool):
            raise ModelException("boolean expected")
        held = status is False and any(s.failed is True for s in self.srlgs)
        self._failed = status is True or held
        if held:
            raise ModelException("held down by an SRLG")

    @property
    @holds("G01")
    def lat(self):
        return self._lat

    @lat.setter
    @holds("G01")
    def lat(self, status):
        if not isinstance(status, (int, float)):
            raise ValueError("number expected")
        self._lat = status

    @property
    @holds("G01")
    def lon(self):
        return self._lon

    @lon.setter
    @holds("G01")
    def lon(self, status):
        if not isinstance(status, (int, float)):
            raise ValueError("number expected")
        self._lon = status

    @property
    @holds("G01 R06")
    def igp_shortcuts_enabled(self):
        return self._igp_shortcuts_enabled

    @igp_shortcuts_enabled.setter
    @holds("G01 L01")
    def igp_shortcuts_enabled(self, status):
        if isinstance(status, bool):
            self._igp_shortcuts_enabled = status
        elif status == "True" or status == "False":
            self._igp_shortcuts_enabled = status == "True"
        else:
            raise ValueError("boolean expected")

    @holds("F03 Q02")
    def interfaces(self, model):
        return [i for i in model.interface_objects if i.node_object.name == self.name]

    @holds("Q02")
    def adjacent_nodes(self, model):
        return {i.remote_node_object for i in model.interface_objects if i.node_object.name == self.name}

    @holds("F04")
    def add_to_srlg(self, srlg_name, model, create_if_not_present=False):
        group = model.get_srlg_object(srlg_name, False)
        if group is None:
            if create_if_not_present is not True:
                raise ModelException("unknown SRLG")
            group = SRLG(srlg_name, model)
            model.srlg_objects.add(group)
        else:
            group.node_objects.add(self)
        self._srlgs.add(group)

    @holds("F04")
    def remove_from_srlg(self, srlg_name, model):
        group = model.get_srlg_object(srlg_name)
        group.node_objects.remove(self)
        self._srlgs.remove(group)
        self.failed = False

    @property
    @holds("F04")
    def srlgs(self):
        return self._srlgs
