"""Writing a corpus: the elements of the file."""
from daeso.utils.etree import write
import xml.etree.cElementTree as et
from daeso.pair import Pair
import os


@of("daeso.pgc.corpus.PGCGenerator.generate", props=["C20", "C21"],
    types={"pg_corpus": "daeso.pgc.corpus.ParallelGraphCorpus"},
    opaque=("write", "alignments_iter"), events=("call",), pure=("alignments_iter",))
def generate(self, pg_corpus, outf, encoding="utf-8", abs_path=False, pprint=False):
    if isinstance(outf, basestring):
        out_dir = os.path.dirname(outf)
    elif isinstance(outf, file):
        out_dir = os.path.dirname(outf.name)
    else:
        out_dir = os.getcwd()
    root = et.Element("parallel_graph_corpus")
    if pg_corpus._meta_data is not None:
        root.append(pg_corpus._meta_data)
    files = et.SubElement(root, "graphbanks")
    rels = et.SubElement(root, "node_relations")
    for relation in pg_corpus._relations:
        et.SubElement(rels, "relation").text = relation
    for bank in pairs(root, pg_corpus):
        f = et.SubElement(files, "file", id=bank._id, format=bank._format)
        f.text = bank._file_path
        if not abs_path:
            out_dir = os.path.realpath(out_dir)
            f.text = os.path.relpath(bank._file_path, out_dir)
    tree = et.ElementTree(root)
    write(tree, outf, encoding=encoding, pprint=pprint)
    return tree


def pairs(root, corpus):
    graphs = et.SubElement(root, "aligned_graphs")
    same = {}
    banks = []
    for i, pair in enumerate(corpus):
        elem = et.SubElement(graphs, "graph_pair", n=str(i + 1),
                             from_graph_id=pair._graphs.source.id,
                             to_graph_id=pair._graphs.target.id)
        meta = pair._meta_data
        if len(meta) or meta.attrib or meta.text:
            elem.append(meta)
        for nodes, relation in pair.alignments_iter():
            et.SubElement(elem, "node_pair", from_node_id=nodes.source,
                          to_node_id=nodes.target, relation=relation)
        for bank, name in zip(pair._banks, ("from_bank_id", "to_bank_id")):
            if bank in same:
                known = same[bank]
            else:
                for known in same.itervalues():
                    if bank == known:
                        same[bank] = known
                        break
                else:
                    known = same[bank] = bank
                    banks.append(bank)
                    bank._id = str(len(banks))
            elem.set(name, known._id)
    return banks


@of("daeso.pgc.corpus.ParallelGraphCorpus.purge", props=["C15"],
    types={"graph_pair": "daeso.pgc.graphpair.GraphPair"})
def purge(self, graph_pair=None):
    same = {}
    for pair in self if graph_pair is None else [graph_pair]:
        banks = []
        for bank in pair._banks:
            if bank in same:
                known = same[bank]
            else:
                for known in same.itervalues():
                    if bank == known:
                        same[bank] = known
                        break
                else:
                    known = same[bank] = bank
            banks.append(known)
        pair._banks = Pair(*banks)
