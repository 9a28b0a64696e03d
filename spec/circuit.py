class Circuit(object):

    @holds("A01 V01")
    def __init__(self, interface_a, interface_b):
        self.interface_a = interface_a
        self.interface_b = interface_b

    @holds("A01")
    def _key(self):
        return (self.interface_a._key, self.interface_b._key)

    @holds("F02 V01")
    def get_circuit_interfaces(self, model):
        return (self.interface_a, self.interface_b)

    @holds("F02")
    def failed(self, model):
        return bool(self.interface_a.failed or self.interface_b.failed)

    @holds("Q02")
    def circuit_id(self):
        return self.interface_a.circuit_id
