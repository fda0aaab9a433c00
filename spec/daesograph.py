"""Queries of a graph with node labels and tokens."""
from daeso.graph.ograph import ODiGraph
from networkx import NetworkXError
import string


def empty(self, n):
    return not self.node[n]["tokens"]


def punct(self, n):
    tokens = self.node[n]["tokens"]
    return tokens and all(t in string.punctuation for t in tokens)


def terminal(self, n, with_punct, with_empty):
    return not self.succ[n] and (with_punct or not punct(self, n)) and \
        (with_empty or not empty(self, n))


@of("daeso.graph.daesograph.DaesoGraph", events=("call",), props=["C31"])
def init(self, id=None, tokens=None, root=None):
    ODiGraph.__init__(self)
    self.id = id
    self.tokens = tokens
    self.root = root


@of("daeso.graph.daesograph.DaesoGraph.get_graph_token_string", props=["C31"])
def token_string(self):
    try:
        return " ".join(self.tokens)
    except TypeError:
        return None


@of("daeso.graph.daesograph.DaesoGraph.set_graph_token_string", props=["C31"])
def set_token_string(self, token_str):
    self.tokens = token_str.split()


@of("daeso.graph.daesograph.DaesoGraph.add_node", events=("nx",), props=["C31"])
def add_node(self, n, label, tokens=None, attr_dict=None, **attr):
    ODiGraph.add_node(self, n, label=label, tokens=tokens or [], attr_dict=attr_dict, **attr)


@of("daeso.graph.daesograph.DaesoGraph.node_is_terminal", as_bool=True, props=["C31"])
def node_is_terminal(self, n, with_punct=True, with_empty=True):
    return terminal(self, n, with_punct, with_empty)


@of("daeso.graph.daesograph.DaesoGraph.node_is_non_terminal", as_bool=True, props=["C31"])
def node_is_non_terminal(self, n):
    return bool(self.succ[n])


@of("daeso.graph.daesograph.DaesoGraph.terminals_iter", props=["C31"])
def terminals_iter(self, with_punct=True, with_empty=True):
    return (node for node in self.node if terminal(self, node, with_punct, with_empty))


@of("daeso.graph.daesograph.DaesoGraph.terminals", props=["C31"])
def terminals(self, with_punct=True, with_empty=True):
    return [node for node in self.node if terminal(self, node, with_punct, with_empty)]


@of("daeso.graph.daesograph.DaesoGraph.non_terminals_iter", props=["C31"])
def non_terminals_iter(self):
    return (node for node in self.node if self.succ[node])


@of("daeso.graph.daesograph.DaesoGraph.non_terminals", props=["C31"])
def non_terminals(self):
    return [node for node in self.node if self.succ[node]]


@of("daeso.graph.daesograph.DaesoGraph.node_is_empty", as_bool=True, props=["C31"])
def node_is_empty(self, n):
    return empty(self, n)


@of("daeso.graph.daesograph.DaesoGraph.node_is_punct", as_bool=True, props=["C31"])
def node_is_punct(self, n):
    return punct(self, n)


@of("daeso.graph.daesograph.DaesoGraph.get_node_tokens", props=["C31"])
def get_node_tokens(self, n):
    return self.node[n]["tokens"]


@of("daeso.graph.daesograph.DaesoGraph.set_node_tokens", props=["C31"])
def set_node_tokens(self, n, tokens):
    self.node[n]["tokens"] = tokens


@of("daeso.graph.daesograph.DaesoGraph.get_node_token_string", props=["C31"])
def get_node_token_string(self, n):
    try:
        return " ".join(self.node[n]["tokens"])
    except (TypeError, KeyError):
        return None


@of("daeso.graph.daesograph.DaesoGraph.set_node_token_string", props=["C31"])
def set_node_token_string(self, n, token_str):
    self.node[n]["tokens"] = token_str.split(" ")


@of("daeso.graph.daesograph.DaesoGraph.terminal_yield", props=["C31"])
def terminal_yield(self, n=None, with_punct=True, with_empty=True):
    queue = [n or self.root]
    seen = {}
    terminals = []
    while queue:
        v = queue[-1]
        if v not in seen:
            if terminal(self, v, with_punct, with_empty):
                terminals.append(v)
            seen[v] = True
        for w in self.succ[v]:
            if w not in seen:
                queue.append(w)
                break
        else:
            queue.pop()
    return terminals


def attributes(attr_dict, attr, label):
    if attr_dict is None:
        attr_dict = attr
    else:
        try:
            attr_dict.update(attr)
        except AttributeError:
            raise NetworkXError
    attr_dict["label"] = label
    return attr_dict


def connect(self, u, v, *attrs):
    data = self.succ[u].get(v, {})
    for a in attrs:
        data.update(a)
    self.succ[u][v] = data
    self.pred[v][u] = data


@of("daeso.graph.daesograph.DaesoGraph.add_edge", props=["C30"], raise_cells=True)
def add_edge(self, u, v, label=None, attr_dict=None, **attr):
    if u not in self.succ or v not in self.succ:
        raise ValueError
    connect(self, u, v, attributes(attr_dict, attr, label))


@of("daeso.graph.daesograph.DaesoGraph.add_edges_from", props=["C30"])
def add_edges_from(self, ebunch, label=None, attr_dict=None, **attr):
    attr_dict = attributes(attr_dict, attr, label)
    for e in ebunch:
        if len(e) == 3:
            u, v, dd = e
            assert hasattr(dd, "update")
        elif len(e) == 2:
            u, v = e
            dd = {}
        else:
            raise NetworkXError
        if u not in self.succ or v not in self.succ:
            raise ValueError
        connect(self, u, v, attr_dict, dd)
