"""A graph pair is a map from pairs of nodes to relations, kept in a directed graph."""
from networkx import DiGraph, NetworkXError
from daeso.pair import Pair
from daeso.pgc.graphpair import GraphPairBase, GraphMapping
import copy
import xml.etree.cElementTree as et

PAIR = {"nodes": "daeso.pair.Pair"}


def stored(self):
    return ((Pair(source, target), data["relation"])
            for source, target, data in self.edges_iter(data=True))


@of("daeso.pgc.graphpair.GraphMapping.get_align", types=PAIR, props=["C16"])
def get_align(self, nodes):
    if self.has_edge(nodes.source, nodes.target):
        return self[nodes.source][nodes.target].get("relation")
    return None


@of("daeso.pgc.graphpair.GraphMapping.add_align", types=PAIR, props=["C16"], events=("nx",))
def mapping_add(self, nodes, relation):
    self.add_edge(nodes.source, nodes.target, relation=relation)


@of("daeso.pgc.graphpair.GraphMapping.del_align", types=PAIR, props=["C16"], events=("nx",),
    raise_cells=True, watch=("NetworkXError",))
def mapping_del(self, nodes):
    self.remove_edge(nodes.source, nodes.target)
    for n, degree in self.degree_iter(nodes):
        if degree == 0:
            try:
                self.remove_node(n)
            except NetworkXError:
                pass


@of("daeso.pgc.graphpair.GraphMapping.alignments_iter", props=["C16"])
def alignments_iter(self, relations=None):
    if relations:
        return (a for a in stored(self) if a[1] in relations)
    return stored(self)


@of("daeso.pgc.graphpair.GraphMapping.alignments", props=["C16"])
def alignments(self, relations=None):
    if relations:
        return [a for a in stored(self) if a[1] in relations]
    return list(stored(self))


@of("daeso.pgc.graphpair.GraphMapping.__len__", props=["C16"])
def length(self):
    return self.number_of_edges()


@of("daeso.pgc.graphpair.GraphMapping.roots_aligned", props=["C16"])
def roots_aligned(self):
    return self.has_edge(self._graphs.source.root, self._graphs.target.root)


@of("daeso.pgc.graphpair.GraphMatching.add_align", types=PAIR, props=["C16"], events=("nx",))
def matching_add(self, nodes, relation):
    source, target = nodes.source, nodes.target
    if source in self.succ and self.succ[source]:
        old = next(iter(self.succ[source].keys()))
        if old != target:
            self.remove_edge(source, old)
            if self.degree(old) == 0:
                self.remove_node(old)
    if target in self.pred and self.pred[target]:
        old = next(iter(self.pred[target].keys()))
        if old != source:
            self.remove_edge(old, target)
            if self.degree(old) == 0:
                self.remove_node(old)
    self.add_edge(source, target, relation=relation)


@of("daeso.pgc.graphpair.GraphMatching.get_aligned_source_node", props=["C16"])
def aligned_source(self, n):
    if n in self.pred and self.pred[n]:
        return next(iter(self.pred[n].keys()))


@of("daeso.pgc.graphpair.GraphMatching.get_aligned_target_node", props=["C16"])
def aligned_target(self, n):
    if n in self.succ and self.succ[n]:
        return next(iter(self.succ[n].keys()))


# -- graphs, graphbanks and meta-data

@of("daeso.pgc.graphpair.GraphPairBase.get_graphs", props=["C16"])
def get_graphs(self):
    return self._graphs


@of("daeso.pgc.graphpair.GraphPairBase.get_source_graph", props=["C16"])
def get_source_graph(self):
    return self._graphs.source


@of("daeso.pgc.graphpair.GraphPairBase.get_target_graph", props=["C16"])
def get_target_graph(self):
    return self._graphs.target


@of("daeso.pgc.graphpair.GraphPairBase.get_banks", props=["C16"])
def get_banks(self):
    return self._banks


@of("daeso.pgc.graphpair.GraphPairBase.get_source_bank", props=["C16"])
def get_source_bank(self):
    return self._banks.source


@of("daeso.pgc.graphpair.GraphPairBase.get_target_bank", props=["C16"])
def get_target_bank(self):
    return self._banks.target


@of("daeso.pgc.graphpair.GraphPairBase.get_meta_data", props=["C21"])
def get_meta_data(self):
    return self._meta_data


@of("daeso.pgc.graphpair.GraphPairBase.set_meta_data", props=["C21"])
def set_meta_data(self, meta_data):
    self._meta_data = meta_data


# -- copies

@of("daeso.pgc.graphpair.GraphMapping.__deepcopy__", props=["C14"])
def mapping_copy(self, memo_dict):
    return self.__class__(self._banks, self._graphs, data=self,
                          meta_data=copy.deepcopy(self._meta_data, memo_dict))


@of("daeso.pgc.graphpair.GraphPairBase.__init__", props=["C21", "C16"])
def base_init(self, banks, graphs, meta_data=None):
    self._banks = banks
    self._graphs = graphs
    self._meta_data = et.Element("graph_meta_data") if meta_data is None else meta_data


@of("daeso.pgc.graphpair.GraphMapping.__init__", props=["C21", "C16"], events=("call",))
def mapping_init(self, banks, graphs, data=None, meta_data=None):
    self._banks = banks
    self._graphs = graphs
    self._meta_data = et.Element("graph_meta_data") if meta_data is None else meta_data
    DiGraph.__init__(self, data=data)
