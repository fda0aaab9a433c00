"""Declared types of fields of the repository's classes (confirmed by reading)."""
from .state import Ty

_PAIR = Ty("daeso.pair.Pair")
FIELDS = {
    "daeso.pgc.corpus.ParallelGraphCorpus": {"[]": Ty("daeso.pgc.graphpair.GraphPair")},
    "daeso.pgc.graphpair.GraphPairBase": {"_banks": _PAIR, "_graphs": _PAIR},
}
_LINKS = Ty("list", elem=Ty("tuple", elem={0: _PAIR, 1: Ty("str")}))
# what functions return that are not looked into
RETURNS = {
    "daeso.pgc.corpus.ParallelGraphCorpus.__iter__": Ty("list", elem=Ty("daeso.pgc.graphpair.GraphPair")),
    "daeso.pgc.graphpair.GraphMapping.alignments_iter": _LINKS,
    "daeso.pgc.graphpair.GraphMapping.alignments": _LINKS,
}
# parameter types by function: {qual: {param: type string}}
PTYPES = {}
