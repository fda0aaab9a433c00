"""What the handlers of the GraphML reader do with the elements of a file.

State: the tags of the open elements; the declared keys per kind of element; the graph
being built, or None when it was not asked for; the attributes of the element that <data>
elements now belong to; the characters collected since the last start tag.
"""
from daeso.exception import DaesoError
from daeso.graph.daesograph import DaesoGraph

STATE = {"self": "daeso.gb.graphml.GraphmlParser",
         "self._key_table": "dict[dict[dict]]", "self._context": "list[str]",
         "self._graph": "daeso.graph.daesograph.DaesoGraph"}


def defaults(self, kind):
    for key in self._key_table["all"].values() + self._key_table[kind].values():
        if "default" in key:
            give(self, kind, key["name"], key["default"])


def give(self, kind, name, value):
    if name == "tokens" and kind == "graph":
        self._graph.tokens = value.split()
    elif name == "tokens" and kind == "node":
        self._graph.node[self._node]["tokens"] = value.split(" ")
    else:
        self._comp_attrs[name] = value


@of("daeso.gb.graphml.GraphmlParser@StartElementHandler", types=STATE, props=["C27"],
    given=("tag == 'graphml'",))
def start_graphml(self, tag, attrs):
    self._context.append(tag)
    self._char_data_buf = ""
    self._key_table = {"graph": {}, "node": {}, "edge": {}, "all": {}}
    self._current_key = None
    self._data_key = None
    self._graph = None


@of("daeso.gb.graphml.GraphmlParser@StartElementHandler", types=STATE, props=["C27"],
    given=("tag == 'key'",))
def start_key(self, tag, attrs):
    self._context.append(tag)
    self._char_data_buf = ""
    key = {"name": attrs["attr.name"], "type": attrs.get("attr.type", "string")}
    self._key_table[attrs.get("for", "all")][attrs["id"]] = key
    self._current_key = key


@of("daeso.gb.graphml.GraphmlParser@StartElementHandler", types=STATE, props=["C25", "C27"],
    given=("tag == 'graph'",))
def start_graph(self, tag, attrs):
    self._context.append(tag)
    self._char_data_buf = ""
    i = attrs.get("id")
    if not self._sparse or i in self._id2graph:
        graph = DaesoGraph(id=attrs["id"])
        self._id2graph[i] = graph
        self._graph = graph
        self._comp_attrs = graph.graph
        defaults(self, "graph")


@of("daeso.gb.graphml.GraphmlParser@StartElementHandler", types=STATE, props=["C27"],
    given=("tag == 'node'",), events=("nx",))
def start_node(self, tag, attrs):
    self._context.append(tag)
    self._char_data_buf = ""
    if self._graph is not None:
        n = attrs.get("id")
        self._graph.add_node(n, label=None)
        self._node = n
        self._comp_attrs = self._graph.node[n]
        defaults(self, "node")


@of("daeso.gb.graphml.GraphmlParser@StartElementHandler", types=STATE, props=["C27"],
    given=("tag == 'edge'",), events=("nx",))
def start_edge(self, tag, attrs):
    self._context.append(tag)
    self._char_data_buf = ""
    if self._graph is not None:
        source, target = attrs["source"], attrs["target"]
        self._graph.add_edge(source, target)
        self._comp_attrs = self._graph[source][target]
        defaults(self, "edge")


@of("daeso.gb.graphml.GraphmlParser@StartElementHandler", types=STATE, props=["C27"],
    given=("tag == 'data'",))
def start_data(self, tag, attrs):
    self._context.append(tag)
    self._char_data_buf = ""
    if self._graph is not None:
        self._data_key = attrs["key"]


@of("daeso.gb.graphml.GraphmlParser@StartElementHandler", types=STATE, props=["C27"],
    given=("tag == 'default'",))
def start_default(self, tag, attrs):
    self._context.append(tag)
    self._char_data_buf = ""


@of("daeso.gb.graphml.GraphmlParser@EndElementHandler", types=STATE, props=["C27"],
    given=("tag == 'graph'",), ignore=("_comp_attrs",))
def end_graph(self, tag):
    if self._graph is not None:
        if self._graph.tokens is None:
            raise DaesoError("no tokens")
        self._graph.root = self._graph.graph.get("root")
        self._graph = None
    self._context.pop()


@of("daeso.gb.graphml.GraphmlParser@EndElementHandler", types=STATE, props=["C27"],
    given=("tag == 'node'",), ignore=("_node",))
def end_node(self, tag):
    if self._graph is not None:
        if not self._comp_attrs.get("label"):
            raise DaesoError("no label")
        if not self._comp_attrs.get("tokens"):
            raise DaesoError("no tokens")
        self._comp_attrs = self._graph.graph
    self._context.pop()


@of("daeso.gb.graphml.GraphmlParser@EndElementHandler", types=STATE, props=["C27"],
    given=("tag == 'edge'",))
def end_edge(self, tag):
    if self._graph is not None:
        self._comp_attrs = self._graph.graph
    self._context.pop()


@of("daeso.gb.graphml.GraphmlParser@EndElementHandler", types=STATE, props=["C27"],
    given=("tag == 'data'",), ignore=("_data_key",))
def end_data(self, tag):
    if self._graph is not None:
        kind = self._context[-2]
        key = self._data_key
        if kind in self._key_table and key in self._key_table[kind] and \
                "name" in self._key_table[kind][key]:
            name = self._key_table[kind][key]["name"]
        elif "all" in self._key_table and key in self._key_table["all"] and \
                "name" in self._key_table["all"][key]:
            name = self._key_table["all"][key]["name"]
        else:
            raise DaesoError("undefined key")
        give(self, kind, name, self._char_data_buf)
    self._context.pop()


@of("daeso.gb.graphml.GraphmlParser@EndElementHandler", types=STATE, props=["C27"],
    given=("tag == 'default'",))
def end_default(self, tag):
    self._current_key["default"] = self._char_data_buf
    self._context.pop()


@of("daeso.gb.graphml.GraphmlParser@EndElementHandler", types=STATE, props=["C27"],
    given=("tag == 'key'",))
def end_key(self, tag):
    self._context.pop()


@of("daeso.gb.graphml.GraphmlParser@CharacterDataHandler", types=STATE, props=["C27"])
def characters(self, data):
    if self._graph is not None or self._context[-1] == "default":
        self._char_data_buf += data
