"""A parallel graph corpus is the list of its graph pairs, with relations and meta-data."""
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_SPARSE
from daeso.pgc.graphpair import GraphPair
import copy
import warnings

C = "daeso.pgc.corpus.ParallelGraphCorpus."
CORPUS = {"other": "daeso.pgc.corpus.ParallelGraphCorpus"}


def corpus(pairs, like):
    """a new corpus of these graph pairs, otherwise like that one"""
    return ParallelGraphCorpus(graph_pairs=pairs, relations=like._relations,
                               meta_data=like._meta_data)


def check(self, other):
    if not isinstance(other, ParallelGraphCorpus):
        raise TypeError
    if self._relations != other._relations:
        raise ValueError


def bounds(i, j):
    return slice(max(0, i), max(0, j), None)


@of("daeso.pgc.corpus.ParallelGraphCorpus", props=["C11", "C12", "C13", "C73"],
    opaque=("read",), events=("call",))
def init(self, graph_pairs=None, relations=None, meta_data=None, inf=None,
         graph_loading=LOAD_SPARSE):
    list.__init__(self, graph_pairs or [])
    self._relations = sorted(relations or [])
    self._meta_data = meta_data
    self._graph_loading = None
    if inf:
        self.read(inf, graph_loading)


# -- operations that build a corpus

@of("daeso.pgc.corpus.ParallelGraphCorpus.__add__", props=["C11", "C12"],
    types={"other": "daeso.pgc.corpus.ParallelGraphCorpus"})
def add(self, other):
    check(self, other)
    return corpus(list.__add__(self, other), self)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__getslice__", props=["C11", "C73"],
    types={"i": "int", "j": "int"})
def getslice(self, i, j):
    return corpus(list.__getitem__(self, bounds(i, j)), self)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__getitem__", props=["C11", "C13"])
def getitem(self, index):
    if isinstance(index, slice):
        return corpus(list.__getitem__(self, index), self)
    return list.__getitem__(self, index)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__mul__", props=["C11"])
def mul(self, n):
    return corpus(list.__mul__(self, n), self)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__rmul__", props=["C11"])
def rmul(self, n):
    return corpus(list.__mul__(self, n), self)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__imul__", props=["C11", "C13"])
def imul(self, n):
    return list.__imul__(self, n)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__iadd__", props=["C11", "C12", "C73"])
def iadd(self, other):
    check(self, other)
    return list.__iadd__(self, other)


@of("daeso.pgc.corpus.ParallelGraphCorpus.extend", props=["C11", "C13"])
def extend(self, iterable):
    list.extend(self, iterable)


# -- what can enter

@of("daeso.pgc.corpus.ParallelGraphCorpus.append", props=["C12", "C13"], raise_cells=True)
def append(self, graph_pair):
    if not isinstance(graph_pair, GraphPair):
        raise TypeError
    list.append(self, graph_pair)


@of("daeso.pgc.corpus.ParallelGraphCorpus.insert", props=["C12", "C13"], raise_cells=True)
def insert(self, index, graph_pair):
    if not isinstance(graph_pair, GraphPair):
        raise TypeError
    list.insert(self, index, graph_pair)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__setitem__", props=["C11", "C12", "C13"], raise_cells=True)
def setitem(self, index, value):
    if isinstance(index, slice):
        check(self, value)
    elif not isinstance(value, GraphPair):
        raise TypeError
    list.__setitem__(self, index, value)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__setslice__", props=["C11", "C12", "C13"],
    types={"i": "int", "j": "int"}, raise_cells=True)
def setslice(self, i, j, other):
    check(self, other)
    list.__setitem__(self, bounds(i, j), other)


# -- the rest of the list protocol

@of("daeso.pgc.corpus.ParallelGraphCorpus.__contains__", props=["C13"])
def contains(self, graph_pair):
    return list.__contains__(self, graph_pair)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__delitem__", props=["C13"])
def delitem(self, index):
    list.__delitem__(self, index)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__delslice__", props=["C13"],
    types={"i": "int", "j": "int"})
def delslice(self, i, j):
    list.__delitem__(self, bounds(i, j))


@of("daeso.pgc.corpus.ParallelGraphCorpus.__iter__", props=["C13"])
def iterate(self):
    return list.__iter__(self)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__reversed__", props=["C13"])
def backwards(self):
    return list.__reversed__(self)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__len__", props=["C13"])
def length(self):
    return list.__len__(self)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__lt__", props=["C13"])
def lt(self, other):
    return list.__lt__(self, other)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__le__", props=["C13"])
def le(self, other):
    return list.__le__(self, other)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__gt__", props=["C13"])
def gt(self, other):
    return list.__gt__(self, other)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__ge__", props=["C13"])
def ge(self, other):
    return list.__ge__(self, other)


@of("daeso.pgc.corpus.ParallelGraphCorpus.clear", props=["C13"])
def clear(self):
    list.__delitem__(self, slice(None, None, None))


@of("daeso.pgc.corpus.ParallelGraphCorpus.count", props=["C13"])
def count(self, graph_pair):
    return list.count(self, graph_pair)


@of("daeso.pgc.corpus.ParallelGraphCorpus.index", props=["C13"])
def index(self, graph_pair):
    return list.index(self, graph_pair)


@of("daeso.pgc.corpus.ParallelGraphCorpus.pop", props=["C13"])
def pop(self, index=-1):
    return list.pop(self, index)


@of("daeso.pgc.corpus.ParallelGraphCorpus.remove", props=["C13"])
def remove(self, graph_pair):
    list.remove(self, graph_pair)


@of("daeso.pgc.corpus.ParallelGraphCorpus.reverse", props=["C13"])
def reverse(self):
    list.reverse(self)


@of("daeso.pgc.corpus.ParallelGraphCorpus.sort", props=["C13"])
def sort(self, cmp=None, key=None, reverse=False):
    list.sort(self, cmp, key, reverse)


# -- copies

@of("daeso.pgc.corpus.ParallelGraphCorpus.__deepcopy__", props=["C14"], opaque=("__deepcopy__",),
    types={"self._relations": "list[str]", "memo_dict": "dict"})
def copied(self, memo_dict):
    return ParallelGraphCorpus([copy.deepcopy(pair, memo_dict) for pair in self],
                               self._relations, copy.deepcopy(self._meta_data, memo_dict))
