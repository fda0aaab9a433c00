"""What makes pairs, graph pairs, corpora and elements equal."""
import os
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.graphpair import GraphPairBase, GraphMapping
from daeso.utils.etree import equals


@of("daeso.gb.graphbank.GraphBank.__eq__", as_bool=True)
def bank_eq(self, other):
    return self._file_path == other._file_path or \
        os.path.samefile(self._file_path, other._file_path)


@of("daeso.gb.graphbank.GraphBank.__ne__", as_bool=True)
def bank_ne(self, other):
    return not (self._file_path == other._file_path or
                os.path.samefile(self._file_path, other._file_path))


def same_meta_data(x, y):
    if x is y:
        return True
    if x is None or y is None:
        return False
    return equals(x, y)


@of("daeso.pair.Pair.__eq__", as_bool=True)
def pair_eq(self, other):
    return isinstance(other, Pair) and self.source == other.source and \
        self.target == other.target


@of("daeso.pair.Pair.__ne__", as_bool=True)
def pair_ne(self, other):
    return not (isinstance(other, Pair) and self.source == other.source and
                self.target == other.target)


@of("daeso.utils.etree.equals", as_bool=True, opaque=("equals",),
    types={"elem1": "ext:Element", "elem2": "ext:Element"})
def elements(elem1, elem2):
    return (elem1.tag == elem2.tag and
            (elem1.text or "").strip() == (elem2.text or "").strip() and
            (elem1.tail or "").strip() == (elem2.tail or "").strip() and
            elem1.attrib == elem2.attrib and
            len(elem1) == len(elem2) and
            all(equals(x, y) for x, y in zip(elem1, elem2)))


def base_eq(self, other):
    if self is other:
        return True
    return (isinstance(other, GraphPairBase) and
            self._banks == other._banks and
            self._graphs.source.id == other._graphs.source.id and
            self._graphs.target.id == other._graphs.target.id and
            (self._meta_data is other._meta_data or
             equals(self._meta_data, other._meta_data)))


@of("daeso.pgc.graphpair.GraphPairBase.__eq__", as_bool=True, opaque=("equals",))
def graph_pair_eq(self, other):
    return base_eq(self, other)


@of("daeso.pgc.graphpair.GraphPairBase.__ne__", as_bool=True, opaque=("equals",))
def graph_pair_ne(self, other):
    return not base_eq(self, other)


def corpus_eq(self, other):
    if self is other:
        return True
    return (isinstance(other, ParallelGraphCorpus) and
            self._relations == other._relations and
            same_meta_data(self._meta_data, other._meta_data) and
            list.__eq__(self, other))


@of("daeso.pgc.corpus.ParallelGraphCorpus.__eq__", as_bool=True, opaque=("equals",))
def eq(self, other):
    return corpus_eq(self, other)


@of("daeso.pgc.corpus.ParallelGraphCorpus.__ne__", as_bool=True, opaque=("equals",))
def ne(self, other):
    return not corpus_eq(self, other)


def same_alignment(self, other):
    return len(self) == len(other) and all(
        other.has_edge(u, v) and "relation" in other[u][v] and
        other[u][v]["relation"] == data["relation"]
        for u, v, data in self.edges(data=True))


@of("daeso.pgc.graphpair.GraphMapping.__eq__", as_bool=True, opaque=("equals",),
    types={"other": "daeso.pgc.graphpair.GraphMapping"})
def mapping_eq(self, other):
    if not isinstance(other, self.__class__):
        return False
    if self is other:
        return True
    return base_eq(self, other) and same_alignment(self, other)
