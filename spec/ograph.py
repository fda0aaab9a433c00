"""An ordered graph: one relation, held as successors and as predecessors."""
from networkx import NetworkXError
from collections import OrderedDict
import networkx


def attributes(attr_dict, attr):
    if attr_dict is None:
        return attr
    try:
        attr_dict.update(attr)
    except AttributeError:
        raise NetworkXError
    return attr_dict


def ensure(self, n):
    if n not in self.succ:
        self.succ[n] = OrderedDict()
        self.pred[n] = OrderedDict()
        self.node[n] = {}


def connect(self, u, v, *attrs):
    data = self.succ[u].get(v, {})
    for a in attrs:
        data.update(a)
    self.succ[u][v] = data
    self.pred[v][u] = data


@of("daeso.graph.ograph.ODiGraph.__init__", props=["C30"], events=("call",))
def init(self, data=None, name='', **attr):
    self.graph = {}
    self.node = {}
    self.adj = OrderedDict()
    self.succ = self.adj
    self.edge = self.adj
    self.pred = OrderedDict()
    if data is not None:
        networkx.convert.to_networkx_graph(data, create_using=self)
    self.graph.update(attr)
    self.name = name


@of("daeso.graph.ograph.ODiGraph.add_node", props=["C30"])
def add_node(self, n, attr_dict=None, **attr):
    attr_dict = attributes(attr_dict, attr)
    if n not in self.succ:
        self.succ[n] = OrderedDict()
        self.pred[n] = OrderedDict()
        self.node[n] = attr_dict
    else:
        self.node[n].update(attr_dict)


@of("daeso.graph.ograph.ODiGraph.add_nodes_from", props=["C30"])
def add_nodes_from(self, nodes, **attr):
    for n in nodes:
        if n not in self.succ:
            self.succ[n] = OrderedDict()
            self.pred[n] = OrderedDict()
            self.node[n] = dict(attr)
        else:
            self.node[n].update(attr)


@of("daeso.graph.ograph.ODiGraph.add_edge", props=["C30"])
def add_edge(self, u, v, attr_dict=None, **attr):
    attr_dict = attributes(attr_dict, attr)
    ensure(self, u)
    ensure(self, v)
    connect(self, u, v, attr_dict)


@of("daeso.graph.ograph.ODiGraph.add_edges_from", props=["C30"])
def add_edges_from(self, ebunch, attr_dict=None, **attr):
    attr_dict = attributes(attr_dict, attr)
    for e in ebunch:
        if len(e) == 3:
            u, v, dd = e
            assert hasattr(dd, "update")
        elif len(e) == 2:
            u, v = e
            dd = {}
        else:
            raise NetworkXError
        ensure(self, u)
        ensure(self, v)
        connect(self, u, v, attr_dict, dd)
