"""Reading a corpus: what is done with each element of the file."""
from daeso.exception import DaesoError
from daeso.gb.graphbank import GraphBank, SparseGraphBank
from daeso.pair import Pair
from daeso.pgc.graphpair import GraphPair
from daeso.gb.graphstub import GraphStub
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.corpus import ParallelGraphCorpus, PGCParser
import os
import weakref

STATE = {"self.graphbanks": "dict[daeso.gb.graphbank.SparseGraphBank]",
         "self.pg_corpus": "daeso.pgc.corpus.ParallelGraphCorpus",
         "self.graph_pair": "daeso.pgc.graphpair.GraphPair", "self.relations": "list[str]",
         "elem.attrib": "dict[str]"}
FULL = {**STATE, "self.graphbanks": "dict[daeso.gb.graphbank.GraphBank]"}
GET = ("get_graph_stub", "get_graph")
STUB = {"daeso.gb.graphbank.SparseGraphBank.get_graph_stub": "daeso.gb.graphstub.GraphStub",
        "daeso.gb.graphbank.GraphBank.get_graph": "daeso.graph.daesograph.DaesoGraph"}
LOAD_ALL = 1
LOAD_SPARSE = 2
LOAD_NONE = 3
SPARSE = "daeso.gb.graphbank.SparseGraphBank"
FULLBANK = "daeso.gb.graphbank.GraphBank"


@of("daeso.pgc.corpus.PGCParser", props=["C20", "C22"], ignore=("dir", "relax_gb_paths",
                                                                "graph_pair"))
def new_parser(self):
    self.in_meta_data = False
    self.default_format = None
    self.relations = []
    self.graphbanks = {}


def wanted(elem, name):
    if name not in elem.attrib:
        raise DaesoError("lacks an attribute")
    return elem.attrib[name]


def bank(self, i):
    if i not in self.graphbanks:
        raise DaesoError("no such graphbank")
    return self.graphbanks[i]


def stubs(self, elem):
    source, target = wanted(elem, "from_bank_id"), wanted(elem, "to_bank_id")
    source_bank, target_bank = bank(self, source), bank(self, target)
    source, target = wanted(elem, "from_graph_id"), wanted(elem, "to_graph_id")
    graphs = Pair(source_bank.get_graph_stub(source), target_bank.get_graph_stub(target))
    pair = GraphPair(Pair(source_bank, target_bank), graphs)
    graphs.source.clients.append(pair)
    graphs.target.clients.append(pair)
    self.graph_pair = pair
    self.pg_corpus.append(pair)


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C22", "C25", "C26"], opaque=GET, pure=GET, rets=STUB,
    let={"event": "start", "elem.tag": "graph_pair", "self.graph_loading": LOAD_SPARSE})
def pair_sparse(self, event, elem):
    stubs(self, elem)


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C22", "C25", "C26"], opaque=GET, pure=GET, rets=STUB,
    let={"event": "start", "elem.tag": "graph_pair", "self.graph_loading": LOAD_NONE})
def pair_none(self, event, elem):
    stubs(self, elem)


def found(get, i):
    try:
        return get(i)
    except KeyError:
        raise DaesoError("graph not found")


@of("daeso.pgc.corpus.PGCParser.parse#event", types=FULL, props=["C20", "C22", "C25"],
    let={"event": "start", "elem.tag": "graph_pair", "self.graph_loading": LOAD_ALL})
def pair_all(self, event, elem):
    source, target = wanted(elem, "from_bank_id"), wanted(elem, "to_bank_id")
    source_bank, target_bank = bank(self, source), bank(self, target)
    source, target = wanted(elem, "from_graph_id"), wanted(elem, "to_graph_id")
    graphs = Pair(found(source_bank.get_graph, source), found(target_bank.get_graph, target))
    pair = GraphPair(Pair(source_bank, target_bank), graphs)
    self.graph_pair = pair
    self.pg_corpus.append(pair)


# -- the other elements

@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C20", "C21"],
    let={"event": "start", "elem.tag": "corpus_meta_data"})
def corpus_meta_start(self, event, elem):
    self.in_meta_data = True


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C20", "C21"],
    let={"event": "start", "elem.tag": "graph_meta_data"})
def graph_meta_start(self, event, elem):
    self.in_meta_data = True


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C20", "C21"],
    let={"event": "end", "elem.tag": "corpus_meta_data"})
def corpus_meta_end(self, event, elem):
    self.pg_corpus._meta_data = elem
    self.in_meta_data = False


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C20", "C21"],
    let={"event": "end", "elem.tag": "graph_meta_data"})
def graph_meta_end(self, event, elem):
    self.graph_pair._meta_data = elem
    self.in_meta_data = False


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C20"],
    let={"event": "start", "elem.tag": "graphbanks"}, ignore=("daeso.exception.DaesoWarning",))
def banks_start(self, event, elem):
    self.default_format = elem.get("format")


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C25"],
    opaque=("load_graphbanks",), events=("call",),
    let={"event": "end", "elem.tag": "graphbanks"})
def banks_end(self, event, elem):
    if self.graph_loading == LOAD_ALL:
        self.load_graphbanks()


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C25"],
    opaque=("load_graphbanks",), events=("call",),
    let={"event": "end", "elem.tag": "aligned_graphs"})
def graphs_end(self, event, elem):
    if self.graph_loading == LOAD_SPARSE:
        self.load_graphbanks()


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C20"],
    let={"event": "start", "elem.tag": "node_pair"}, opaque=("add_align",), events=("call",))
def node_pair(self, event, elem):
    nodes = Pair(elem.get("from_node_id"), elem.get("to_node_id"))
    self.graph_pair.add_align(nodes, elem.get("relation"))


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C20"],
    let={"event": "end", "elem.tag": "relation"})
def relation_end(self, event, elem):
    self.relations.append(elem.text.strip())


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C20"],
    let={"event": "end", "elem.tag": "node_relations"})
def relations_end(self, event, elem):
    self.pg_corpus._relations = sorted(self.relations or [])


def where(self, elem):
    path = elem.text.strip()
    if not os.path.isabs(path):
        path = os.path.realpath(os.path.join(self.dir, path))
    if self.relax_gb_paths and not os.path.exists(path):
        path = os.path.realpath(os.path.join(self.dir, os.path.basename(path)))
    return path


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C20", "C25"],
    let={"event": "end", "elem.tag": "file", "self.graph_loading": LOAD_SPARSE})
def file_sparse(self, event, elem):
    i = elem.get("id")
    assert i not in self.graphbanks
    format = elem.get("format") or self.default_format
    self.graphbanks[i] = SparseGraphBank(where(self, elem), format)


@of("daeso.pgc.corpus.PGCParser.parse#event", types=STATE, props=["C20", "C25"],
    let={"event": "end", "elem.tag": "file", "self.graph_loading": LOAD_NONE})
def file_none(self, event, elem):
    i = elem.get("id")
    assert i not in self.graphbanks
    format = elem.get("format") or self.default_format
    self.graphbanks[i] = SparseGraphBank(where(self, elem), format)


@of("daeso.pgc.corpus.PGCParser.parse#event", types=FULL, props=["C20", "C25"],
    let={"event": "end", "elem.tag": "file", "self.graph_loading": LOAD_ALL})
def file_all(self, event, elem):
    i = elem.get("id")
    assert i not in self.graphbanks
    format = elem.get("format") or self.default_format
    self.graphbanks[i] = GraphBank(where(self, elem), format)


@of("daeso.pgc.corpus.PGCParser.parse#rest", types=STATE, props=["C20", "C25"])
def parse(self, inf, pg_corpus=None, graph_loading=2, relax_gb_paths=False):
    if isinstance(inf, basestring):
        self.dir = os.path.dirname(inf)
    elif isinstance(inf, file):
        self.dir = os.path.dirname(inf.name)
    if pg_corpus is not None:
        assert isinstance(pg_corpus, ParallelGraphCorpus)
        self.pg_corpus = pg_corpus
    else:
        self.pg_corpus = ParallelGraphCorpus()
    self.graph_loading = graph_loading
    self.relax_gb_paths = relax_gb_paths
    return self.pg_corpus


@of("daeso.pgc.corpus.ParallelGraphCorpus.read", props=["C25"],
    opaque=("parse",), events=("call",))
def read(self, inf, graph_loading=2, relax_gb_paths=False):
    assert graph_loading in (LOAD_ALL, LOAD_SPARSE, LOAD_NONE)
    self._graph_loading = graph_loading
    PGCParser().parse(inf, self, graph_loading, relax_gb_paths)


@of("daeso.pgc.corpus.PGCParser.load_graphbanks", types=STATE, props=["C22", "C25"],
    opaque=("load",), events=("call",))
def load_graphbanks(self):
    for bank in self.graphbanks.values():
        try:
            bank.load()
        except IOError:
            raise DaesoError("cannot be loaded")


# -- graphbanks

@of("daeso.gb.graphbank.GraphBank", props=["C25"])
def new_bank(self, file_path, format):
    self._file_path = os.path.realpath(file_path)
    self._format = format
    self._loaded = False
    self._id2graph = {}


@of("daeso.gb.graphbank.SparseGraphBank", props=["C25"])
def new_sparse(self, file_path, format):
    self._file_path = os.path.realpath(file_path)
    self._format = format
    self._loaded = False
    self._id2graph = weakref.WeakValueDictionary()


@of("daeso.gb.graphbank.GraphBank.get_graph", props=["C22", "C25"],
    types={"self._id2graph": "dict[daeso.graph.daesograph.DaesoGraph]"})
def get_graph(self, graph_id):
    return self._id2graph[graph_id]


@of("daeso.gb.graphbank.SparseGraphBank.get_graph_stub", props=["C25", "C26"],
    types={"self._id2graph": "dict[daeso.gb.graphstub.GraphStub]"})
def get_graph_stub(self, graph_id):
    assert not self._loaded
    if graph_id not in self._id2graph:
        self._id2graph[graph_id] = GraphStub(graph_id)
    return self._id2graph[graph_id]


@of("daeso.gb.graphbank.GraphBank.load", props=["C25"],
    opaque=("_get_parser", "parse_file"), events=("call",))
def load(self):
    assert not self._loaded
    parser = self._get_parser(self._format)
    parser.parse_file(self._file_path, self._id2graph, sparse=False)
    self._loaded = True


@of("daeso.gb.graphstub.GraphStub.add_client", props=["C26"])
def add_client(self, graph_pair):
    assert graph_pair._graphs.source and graph_pair._graphs.target
    self.clients.append(graph_pair)


@of("daeso.gb.graphbank.SparseGraphBank.load", props=["C25", "C26"],
    types={"self._id2graph": "dict[daeso.gb.graphstub.GraphStub]"},
    opaque=("_get_parser", "parse_file", "replace_stub"), events=("call",))
def load_sparse(self):
    assert not self._loaded
    wanted = {}
    for i in self._id2graph:
        wanted[i] = None
    parser = self._get_parser(self._format)
    parser.parse_file(self._file_path, wanted, sparse=True)
    for i, stub in self._id2graph.items():
        stub.replace_stub(wanted[i])
        self._id2graph[i] = wanted[i]
    self._loaded = True


@of("daeso.gb.parser.XmlGraphbankParser.parse_file", props=["C25", "C26"],
    types={"id2graph": "dict"}, events=("call",))
def parse_file(self, inf, id2graph=None, sparse=False):
    if not hasattr(inf, "read"):
        with open(inf) as f:
            return parse_file(self, f, id2graph, sparse)
    if id2graph is None:
        id2graph = {}
    self._id2graph = id2graph
    self._sparse = sparse
    self._parser.ParseFile(inf)
    if sparse:
        missing = [i for i, graph in id2graph.items() if graph is None]
        if missing:
            raise DaesoError("not found")
    return id2graph


@of("daeso.gb.graphstub.GraphStub", props=["C26"])
def new_stub(self, id):
    assert id
    self.id = id
    self.clients = []


@of("daeso.gb.graphstub.GraphStub.replace_stub", props=["C26"], ignore=("clients",),
    types={"self.clients": "list[daeso.pgc.graphpair.GraphPair]"})
def replace_stub(self, graph):
    assert self.clients
    assert isinstance(graph, DaesoGraph)
    for pair in self.clients:
        assert not pair._graphs.source is pair._graphs.target
        if pair._graphs.source is self:
            pair._graphs.source = graph
        elif pair._graphs.target is self:
            pair._graphs.target = graph
        else:
            raise ValueError("no client")


@of("daeso.pgc.corpus.ParallelGraphCorpus.set_meta_data", props=["C21"])
def set_meta_data(self, meta_data):
    self._meta_data = meta_data


@of("daeso.pgc.corpus.ParallelGraphCorpus.get_meta_data", props=["C21"])
def get_meta_data(self):
    return self._meta_data
