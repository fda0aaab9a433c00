"""A pair has two roles, source and target"""
from daeso.pair import Pair

PAIR = {"self": "daeso.pair.Pair"}


@of("daeso.pair.Pair", props=["C17"])
def new(self, source=None, target=None):
    self.source = source
    self.target = target


@of("daeso.pair.Pair.set", props=["C17"], types=PAIR)
def put(self, source=None, target=None):
    self.source = source
    self.target = target


@of("daeso.pair.Pair.__iter__", props=["C17"], types=PAIR)
def roles(self):
    return iter((self.source, self.target))


@of("daeso.pair.Pair.__repr__", props=["C17"], types=PAIR)
def shown(self):
    return "Pair(source=" + repr(self.source) + ", target=" + repr(self.target) + ")"


@of("daeso.pair.Pair.__str__", props=["C17"], types=PAIR)
def text(self):
    return "Pair(source=" + str(self.source) + ", target=" + str(self.target) + ")"


@of("daeso.pair.Pair.__eq__", props=["C17"], types=PAIR, as_bool=True)
def equal(self, other):
    return isinstance(other, Pair) and self.source == other.source and self.target == other.target
