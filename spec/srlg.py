class SRLG(object):

    @holds("A01 F04 I01")
    def __init__(self, name, model, circuit_objects=None, node_objects=None):
        if any(s.name == name for s in model.srlg_objects):
            raise ModelException("duplicate")
        self.name = name
        self.model = model
        self._failed = False
        model.srlg_objects.add(self)

    @property
    @holds("F04")
    def failed(self):
        return self._failed

    @failed.setter
    @holds("F04 G01")
    def failed(self, status):
        if not isinstance(status, bool):
            raise ModelException("boolean expected")
        self._failed = status

    @property
    @holds("F04")
    def node_objects(self):
        return {n for n in self.model.node_objects if self in n.srlgs}

    @property
    @holds("F04")
    def interface_objects(self):
        return {i for i in self.model.interface_objects if self in i.srlgs}
