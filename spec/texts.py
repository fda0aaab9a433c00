"""Parallel texts: documents, indexed trees, evaluation, comparison, graph corpora made of them."""
from os.path import basename, dirname, exists, join
from xml.etree.cElementTree import Element, ElementTree, XML

import os
import daeso.pgc.creation
import daeso.ptc.evaluate
from daeso.gb.graphbank import GraphBank
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.graphpair import GraphPair
from daeso.ptc.document import HitaextDoc
from daeso.ptc.ielemtree import IndexElemTree
from daeso.relations import RELATIONS

LINKS = {"self.alignment": "element"}
TREES = {"from_tree": "daeso.ptc.ielemtree.IndexElemTree", "to_tree": "daeso.ptc.ielemtree.IndexElemTree",
         "from_tree.tagCountTable": "dict[list]", "to_tree.tagCountTable": "dict[list]",
         "from_tree.tagIdTable": "dict[dict]", "to_tree.tagIdTable": "dict[dict]"}


# -- links ---------------------------------------------------------------------------

@of("daeso.ptc.document.HitaextDoc.set_alignment_method", props=["C50"], events=("call",))
def set_method(self, method="n"):
    if method not in self.alignments_methods:
        raise AssertionError("Unknown alignment method: %s" % method)
    self.alignment.set("method", method)


@of("daeso.ptc.document.HitaextDoc.get_alignment_method", props=["C50"])
def get_method(self):
    return self.alignment.get("method")


@of("daeso.ptc.document.HitaextDoc.clear_alignments", props=["C50"])
def clear(self):
    self.alignment[:] = []


@of("daeso.ptc.document.HitaextDoc.get_alignments", props=["C50"])
def get_alignments(self):
    return self.alignment


@of("daeso.ptc.document.HitaextDoc.add_n_alignment", props=["C50"], events=("call",))
def add_n(self, from_tag, from_n, to_tag, to_n):
    self.alignment.append(Element("link", from_tag=from_tag, from_n=str(from_n), to_tag=to_tag,
                                  to_n=str(to_n)))


@of("daeso.ptc.document.HitaextDoc.add_id_alignment", props=["C50"], events=("call",))
def add_id(self, from_tag, from_id, to_tag, to_id):
    self.alignment.append(Element("link", from_tag=from_tag, from_id=from_id, to_tag=to_tag,
                                  to_id=to_id))


@of("daeso.ptc.document.HitaextDoc.inject_alignments", props=["C50"], types=TREES, events=("call",),
    opaque=("inject_alignments_n", "inject_alignments_id"))
def inject(self, from_tree, to_tree):
    method = self.alignment.get("method")
    if method is None or method == "n":
        self.inject_alignments_n(from_tree, to_tree)
    elif method == "id":
        self.inject_alignments_id(from_tree, to_tree)
    else:
        raise AssertionError(method)


@of("daeso.ptc.document.HitaextDoc.inject_alignments_n", props=["C50"], types=TREES, events=("call",))
def inject_n(self, from_tree, to_tree):
    for link in self.alignment:
        s = from_tree.tagCountTable[link.get("from_tag")][int(link.get("from_n")) - 1]
        t = to_tree.tagCountTable[link.get("to_tag")][int(link.get("to_n")) - 1]
        s.get("_alignments").append(t)
        t.get("_alignments").append(s)


@of("daeso.ptc.document.HitaextDoc.inject_alignments_id", props=["C50"], types=TREES, events=("call",))
def inject_id(self, from_tree, to_tree):
    for link in self.alignment:
        s = from_tree.tagIdTable[link.get("from_tag")][link.get("from_id")]
        t = to_tree.tagIdTable[link.get("to_tag")][link.get("to_id")]
        s.get("_alignments").append(t)
        t.get("_alignments").append(s)


@of("daeso.ptc.document.HitaextDoc.extract_alignments", props=["C50"], types=TREES, events=("call",),
    opaque=("extract_alignments_n", "extract_alignments_id"))
def extract(self, from_tree, to_tree):
    method = self.alignment.get("method")
    if method is None or method == "n":
        self.extract_alignments_n(from_tree, to_tree)
    elif method == "id":
        self.extract_alignments_id(from_tree, to_tree)
    else:
        raise AssertionError(method)


@of("daeso.ptc.document.HitaextDoc.extract_alignments_n", props=["C50"], types=TREES, events=("call",),
    opaque=("clear_alignments", "add_n_alignment"))
def extract_n(self, from_tree, to_tree):
    self.clear_alignments()
    for s in from_tree.getiterator():
        for t in s.get("_alignments", []):
            self.add_n_alignment(s.tag, s.get("_n"), t.tag, t.get("_n"))


@of("daeso.ptc.document.HitaextDoc.extract_alignments_id", props=["C50"], types=TREES, events=("call",),
    opaque=("clear_alignments", "add_id_alignment"))
def extract_id(self, from_tree, to_tree):
    self.clear_alignments()
    for s in from_tree.getiterator():
        for t in s.get("_alignments", []):
            self.add_id_alignment(s.tag, s.get("id"), t.tag, t.get("id"))


# -- settings ------------------------------------------------------------------------

@of("daeso.ptc.document.HitaextDoc.get_filename", props=["C50"], events=("call",))
def get_filename(self, side, search=False):
    fn = self.find("/%s/filename" % side).text.strip()
    if search:
        here = dirname(self.filename)
        if exists(fn):
            return fn
        if exists(join(here, fn)):
            return join(here, fn)
        if exists(join(here, basename(fn))):
            return join(here, basename(fn))
    return fn


@of("daeso.ptc.document.HitaextDoc.set_filename", props=["C50"])
def set_filename(self, side, filename):
    self.find("/%s/filename" % side).text = filename


@of("daeso.ptc.document.HitaextDoc.get_pseudo_root", props=["C50"])
def get_pseudo_root(self, side):
    return self.find("/%s/render/elements" % side).get("pseudo_root")


@of("daeso.ptc.document.HitaextDoc.set_pseudo_root", props=["C50"], events=("call",))
def set_pseudo_root(self, side, tag):
    self.find("/%s/render/elements" % side).set("pseudo_root", tag)


@of("daeso.ptc.document.HitaextDoc.get_pseudo_root_tags", props=["C50"])
def get_pseudo_root_tags(self, side):
    return [e.tag for e in self.find("/%s/render/elements" % side).getchildren()
            if e.get("uniq") == "True"]


@of("daeso.ptc.document.HitaextDoc.get_elem_tags", props=["C50"])
def get_elem_tags(self, side):
    return [e.tag for e in self.find("/%s/render/elements" % side).getchildren()]


@of("daeso.ptc.document.HitaextDoc.get_elem", props=["C50"])
def get_elem(self, side, tag):
    return self.find("/%s/render/elements/%s" % (side, tag))


@of("daeso.ptc.document.HitaextDoc.get_elem_dict", props=["C50"])
def get_elem_dict(self, side, tag):
    out = {}
    for e in self.find("/%s/render/elements" % side).getchildren():
        out[e.tag] = e
    return out


@of("daeso.ptc.document.HitaextDoc.add_elem", props=["C50"], events=("call",))
def add_elem(self, side, tag):
    e = Element(tag, ignore="False", skip="False", newline="False", blankline="False")
    self.find("/%s/render/elements" % side).append(e)
    return e


@of("daeso.ptc.document.HitaextDoc.init_elems", props=["C50"], events=("call",),
    opaque=("add_elem", "set_pseudo_root"))
def init_elems(self, side, tree):
    seen = {}
    for elem in tree.getiterator():
        if elem.tag in seen:
            seen[elem.tag].set("uniq", "False")
        else:
            e = self.add_elem(side, elem.tag)
            e.set("uniq", "True")
            seen[elem.tag] = e
    self.set_pseudo_root(side, tree.getroot().tag)


@of("daeso.ptc.document.HitaextDoc.get_tags", props=["C50"])
def get_tags(self, side, attrib):
    return [e.tag for e in self.find("/%s/render/elements" % side).getchildren()
            if e.get(attrib) == "True"]


@of("daeso.ptc.document.HitaextDoc.get_doc_tree", props=["C50"], opaque=("get_filename",),
    events=("call",))
def get_doc_tree(self, side, search=False):
    return IndexElemTree(self.get_filename(side, search))


@of("daeso.ptc.document.HitaextDoc.get_doc_trees", props=["C50"], events=("call",),
    opaque=("get_doc_tree", "update"),
    rets={"daeso.ptc.document.HitaextDoc.get_doc_tree": "daeso.ptc.ielemtree.IndexElemTree"})
def get_doc_trees(self, search=False, update=True):
    source = self.get_doc_tree("from", search=search)
    target = self.get_doc_tree("to", search=search)
    if update:
        source.update()
        target.update()
    return Pair(source, target)


# -- indexed trees -------------------------------------------------------------------

@of("daeso.ptc.ielemtree.IndexElemTree.update", props=["C50"], events=("call",),
    opaque=("index_elem",))
def update(self, ignoreTags=[], newlineTags=[], blanklineTags=[]):
    self.ignoreTags = ignoreTags
    self.newlineTags = newlineTags
    self.blanklineTags = blanklineTags
    self.tagCountTable = {}
    self.tagIdTable = {}
    self.text = self.index_elem(self.getroot())


@of("daeso.ptc.ielemtree.IndexElemTree.index_elem", props=["C50"], events=("call",),
    opaque=("index_elem",), given=("elem.tag in self.tagCountTable iff elem.tag in self.tagIdTable",),
    types={"self.tagCountTable": "dict[list]", "self.tagIdTable": "dict[dict]", "start": "int",
           "self.ignoreTags": "list", "self.newlineTags": "list", "self.blanklineTags": "list",
           "elem": "element"},
    rets={"daeso.ptc.ielemtree.IndexElemTree.index_elem": "str"})
def index_elem(self, elem, start=0, ignore=False):
    tag = elem.tag
    if tag in self.tagCountTable:
        self.tagCountTable[tag].append(elem)
    else:
        self.tagCountTable[tag] = [elem]
    if tag in self.tagIdTable:
        self.tagIdTable[tag][elem.get("id")] = elem
    else:
        self.tagIdTable[tag] = {elem.get("id"): elem}
    elem.set("_n", len(self.tagCountTable[tag]))
    elem.set("_alignments", [])
    if ignore or tag in self.ignoreTags:
        elem.set("_ignore", "true")
        for child in elem.getchildren():
            self.index_elem(child, ignore=True)
        text = ""
    else:
        text = (elem.text or "").strip()
        for child in elem.getchildren():
            text += self.index_elem(child, start + len(text))
        elem.set("_start", start)
        elem.set("_end", start + len(text))
        if tag in self.blanklineTags:
            text += "\n\n"
        elif tag in self.newlineTags:
            text += "\n"
    return text + (elem.tail or "").strip()


@of("daeso.ptc.ielemtree.IndexElemTree.get_elem_text", props=["C50"], types={"self.text": "str"})
def get_elem_text(self, elem):
    return self.text[elem.get("_start", 0):elem.get("_end", 0)]


# -- evaluation ----------------------------------------------------------------------

@of("daeso.ptc.evaluate.get_alignment", props=["C46"], types={"corpus": "daeso.ptc.document.HitaextDoc"})
def linked(corpus, tag):
    return set([(link.get("from_id"), link.get("to_id")) for link in corpus.get_alignments()
                if link.get("from_tag") == tag and link.get("to_tag") == tag])


@of("daeso.ptc.evaluate.count_alignment", props=["C46"], opaque=("get_alignment",),
    rets={"daeso.ptc.evaluate.get_alignment": "set"})
def count(true_corpus, pred_corpus, tag):
    t = daeso.ptc.evaluate.get_alignment(true_corpus, tag)
    p = daeso.ptc.evaluate.get_alignment(pred_corpus, tag)
    return len(t), len(p), len(t & p)


@of("daeso.ptc.evaluate.compute_scores", props=["C46"],
    hints={"n_true": "n", "n_pred": "n", "n_common": "n"})
def scores(n_true, n_pred, n_common):
    ratio = n_pred / n_true if n_true != 0 else 0.0
    recall = n_common / n_true if n_true != 0 else 0.0
    precision = n_common / n_pred if n_pred != 0 else 0.0
    if precision + recall != 0:
        f = 2 * precision * recall / (precision + recall)
    else:
        f = 0.0
    return ratio, precision, recall, f


@of("daeso.ptc.evaluate.eval_alignment", props=["C46"], events=("call", "write"),
    opaque=("count_alignment", "compute_scores", "HitaextDoc"),
    types={"filename_pairs": "list[tuple]", "labels": "list"},
    rets={"daeso.ptc.evaluate.count_alignment": "tuple[int]"})
def eval_alignment(filename_pairs, tag, labels=None):
    t = p = c = 0
    print("    #true:    #pred:  #common:    ratio:     prec:      rec:  f-score:   label:")
    print(128 * "-")
    names = labels or [os.path.basename(pair[1]) for pair in filename_pairs]
    for (true_fn, pred_fn), name in zip(filename_pairs, names):
        true = HitaextDoc(file=true_fn)
        pred = HitaextDoc(file=pred_fn)
        a, b, both = daeso.ptc.evaluate.count_alignment(true, pred, tag)
        t += a
        p += b
        c += both
        ratio, prec, rec, f = daeso.ptc.evaluate.compute_scores(a, b, both)
        print("%10d%10d%10d%10.2f%10.2f%10.2f%10.2f   %s" % (a, b, both, ratio, prec, rec, f, name))
    ratio, prec, rec, f = daeso.ptc.evaluate.compute_scores(t, p, c)
    print(128 * "-")
    print("%10d%10d%10d%10.2f%10.2f%10.2f%10.2f" % (t, p, c, ratio, prec, rec, f))


# -- graph corpora made of text corpora --------------------------------------------------

@of("daeso.pgc.creation.pgc_from_ptc", props=["C52"], events=("call",),
    types={"focus_tags": "daeso.pair.Pair", "graph_formats": "daeso.pair.Pair",
           "min_token_diff": "int", "max_token_len": "int"},
    opaque=("HitaextDoc", "get_doc_trees", "load", "get_graph", "get_elem_text"), pure=("get_elem_text",),
    rets={"daeso.ptc.document.HitaextDoc.get_doc_trees": "daeso.pair.Pair[daeso.ptc.ielemtree.IndexElemTree]",
          "daeso.ptc.ielemtree.IndexElemTree.get_elem_text": "str"})
def pgc_from_ptc(text_corpus_file, source_graphbank_file, target_graphbank_file,
                 focus_tags=Pair("s", "s"), graph_formats=Pair("alpino", "alpino"),
                 relations=RELATIONS, min_token_diff=0, max_token_len=99999):
    texts = HitaextDoc(file=text_corpus_file)
    trees = texts.get_doc_trees(search=True)
    source = GraphBank(source_graphbank_file, graph_formats.source)
    source.load()
    target = GraphBank(target_graphbank_file, graph_formats.target)
    target.load()
    banks = Pair(source, target)
    corpus = ParallelGraphCorpus(relations=relations)
    for link in texts.alignment:
        if link.get("from_tag") != focus_tags.source or link.get("to_tag") != focus_tags.target:
            continue
        s = trees.source.get_elem_text(
            trees.source.tagIdTable[focus_tags.source][link.get("from_id")]).lower().split()
        t = trees.target.get_elem_text(
            trees.target.tagIdTable[focus_tags.target][link.get("to_id")]).lower().split()
        if len(s) > max_token_len or len(t) > max_token_len:
            continue
        if min_token_diff and \
                len([x for x in s if x not in t]) + len([x for x in t if x not in s]) < min_token_diff:
            continue
        corpus.append(GraphPair(banks, Pair(source.get_graph(link.get("from_id")),
                                            target.get_graph(link.get("to_id")))))
    return corpus


@of("daeso.ptc.document.HitaextDoc.write", props=["C50"], events=("call", "write"),
    given=())
def write_doc(self, file, encoding="utf-8"):
    if not hasattr(file, "write"):
        with open(file, "w") as f:
            self.write(f, encoding)
        return
    file.write('<?xml version="1.0" encoding="utf-8"?>\n')
    ElementTree.write(self, file, "utf-8")


@of("daeso.ptc.document.HitaextDoc.default_elem", props=["C50"])
def plain_elem(self, tag):
    return Element(tag, ignore="False", skip="False", newline="False", blankline="False")


@of("daeso.ptc.document.HitaextDoc", props=["C50"], events=("call",), opaque=("get_filename", "find"))
def new_doc(self, element=None, file=None):
    ElementTree.__init__(self, element=element, file=file)
    if element or file:
        assert self.get_filename("from")
        assert self.get_filename("to")
    else:
        self._setroot(XML("".join(self._hitaext_template.split())))
    self.filename = file or ""
    self.alignment = self.find("/alignment")


@of("daeso.ptc.ielemtree.IndexElemTree", props=["C50"], events=("call",))
def new_tree(self, filename=None):
    ElementTree.__init__(self, file=filename)
    self.filename = filename
