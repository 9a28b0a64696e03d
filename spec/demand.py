class Demand(object):

    @holds("A01 G01 I01 L01")
    def __init__(self, source_node_object, dest_node_object, traffic=0, name="none"):
        if not isinstance(traffic, (int, float)) or traffic < 0:
            raise ValueError("traffic")
        self.source_node_object = source_node_object
        self.dest_node_object = dest_node_object
        self.traffic = traffic
        self.name = name
        self.path = "Unrouted"
        self._path_detail = "Unrouted_detail"

    @property
    @holds("A01 L02")
    def _key(self):
        return (self.source_node_object.name, self.dest_node_object.name, self.name)

    @property
    @holds("T01")
    def path_detail(self):
        return self._path_detail
