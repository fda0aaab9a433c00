"""Alignment of texts."""
from math import sqrt

import daeso.ptc.textalign
from daeso.pair import Pair
from daeso.ptc.ielemtree import IndexElemTree
from daeso.ptc.textalign import TextAlignerBase
from daeso.string import similar as sim
from daeso.string.ngram import n_gram_strings
from daeso.string.tf_idf import tf_idf
from daeso_nl.string.stopword import remove_stopwords

PAIR = "daeso.pair.Pair"


@of("daeso.ptc.textalign.no_filter", props=["C51"])
def no_filter(scores):
    return scores


@of("daeso.ptc.textalign.threshold_filter_factory()", props=["C51"], ignore=("__name__",), types={"scores": "list[tuple]"})
def threshold(threshold, scores):
    return [s for s in scores if s[0] > threshold]


@of("daeso.ptc.textalign.no_cross_filter_factory()", props=["C51"], ignore=("__name__",),
    types={"scores": "list[tuple]", "threshold": "float"})
def no_cross(threshold, scores):
    taken = []
    kept = []
    for score, elems in sorted(scores, reverse=True):
        if score < threshold:
            break
        s = elems.source.get("_n")
        t = elems.target.get("_n")
        for i, j in taken:
            if i < s and j > t or i > s and j < t:
                break
        else:
            taken.append((s, t))
            kept.append((score, elems))
    return kept


@of("daeso.ptc.textalign.clear_alignments", props=["C51"],
    types={"corpus.alignment": "list", "focus_tags": PAIR})
def clear(corpus, focus_tags):
    corpus.alignment[:] = [link for link in corpus.alignment
                           if not (link.get("from_tag") == focus_tags.source or
                                   link.get("to_tag") == focus_tags.target)]


@of("daeso.ptc.textalign.get_doc_tree", props=["C51"], opaque=("update",), events=("call",))
def doc_tree(corpus, side, ignore_tags):
    tree = IndexElemTree(corpus.get_filename(side))
    tree.update(ignoreTags=ignore_tags)
    return tree


SELF = {"self.focus_tags": PAIR, "self.scope_tags": PAIR, "self.ignore_tags": PAIR,
        "scope_elems": PAIR, "doc_trees": PAIR}


@of("daeso.ptc.textalign.TextAlignerBase", props=["C51"])
def base(self, focus_tags, scope_tags=None, ignore_tags=None):
    self.focus_tags = focus_tags
    self.scope_tags = scope_tags
    self.ignore_tags = ignore_tags or Pair([], [])


@of("daeso.ptc.textalign.TextAligner", props=["C51"])
def aligner(self, focus_tags, scope_tags=None, ignore_tags=None, term_func=None, weight_func=None,
            sim_func=None, filter_func=None):
    self.focus_tags = focus_tags
    self.scope_tags = scope_tags
    self.ignore_tags = ignore_tags or Pair([], [])
    self.term_func = term_func or daeso.ptc.textalign.word_n_gram_factory(1)
    self.weight_func = weight_func or daeso.ptc.textalign.no_weight
    self.sim_func = sim_func or daeso.ptc.textalign.equals_sim
    self.filter_func = filter_func or daeso.ptc.textalign.no_filter


@of("daeso.ptc.textalign.TextAlignerBase.align_corpus", props=["C51"], events=("call",),
    types={**SELF, "corpus": "daeso.ptc.document.HitaextDoc"}, self="daeso.ptc.textalign.TextAligner",
    opaque=("clear_alignments", "get_doc_tree", "inject_alignments", "extract_alignments",
            "get_elem_text", "daeso.ptc.textalign.get_doc_tree"),
    pure=("findall", "get_elem_text", "get"), rets={".filter_func": "list[tuple[float,daeso.pair.Pair]]"})
def align(self, corpus, doc_trees=None, clear=True):
    if clear:
        daeso.ptc.textalign.clear_alignments(corpus, self.focus_tags)
    if not doc_trees:
        doc_trees = Pair(daeso.ptc.textalign.get_doc_tree(corpus, "from", self.ignore_tags.source),
                         daeso.ptc.textalign.get_doc_tree(corpus, "to", self.ignore_tags.target))
        corpus.inject_alignments(doc_trees.source, doc_trees.target)
    if self.scope_tags:
        tags = self.scope_tags
    else:
        s = doc_trees.source.getroot()
        t = doc_trees.target.getroot()
        tags = Pair([s.tag], [t.tag])
        s.set("_alignments", [t])
    for s in doc_trees.source.getiterator():
        if s.tag in tags.source:
            for t in s.get("_alignments"):
                if t.tag in tags.target:
                    link(self, doc_trees, s, t)
    corpus.extract_alignments(doc_trees.source, doc_trees.target)


def link(self, trees, source, target):
    """link the focus elements of two aligned elements"""
    ss = [e for e in source.findall(".//" + self.focus_tags.source) if not e.get("_ignore")]
    ts = [e for e in target.findall(".//" + self.focus_tags.target) if not e.get("_ignore")]
    if not ss or not ts:
        return
    for e in ss:
        e.set("_terms", self.term_func(trees.source.get_elem_text(e)))
    for e in ts:
        e.set("_terms", self.term_func(trees.target.get_elem_text(e)))
    es = ss + ts
    for e, w in zip(es, self.weight_func([e.get("_terms") for e in es])):
        e.set("_weights", w)
    found = []
    for s in ss:
        for t in ts:
            found.append((self.sim_func(s.get("_terms"), t.get("_terms"), s.get("_weights"),
                                        t.get("_weights")), Pair(s, t)))
    for score, pair in self.filter_func(found):
        links = pair.source.get("_alignments")
        if pair.target not in links:
            links.append(pair.target)


@of("daeso.ptc.textalign.word_n_gram_factory()", props=["C51"], ignore=("__name__",), opaque=("n_gram_strings",))
def words(n, text):
    return n_gram_strings(text.split(), n)


@of("daeso.ptc.textalign.char_n_gram_factory()", props=["C51"], ignore=("__name__",), opaque=("n_gram_strings",))
def chars(n, text):
    return n_gram_strings(list(text), n)


@of("daeso.ptc.textalign.preproc_stopword_word_n_gram_factory()", props=["C51"],
    ignore=("__name__",), opaque=("n_gram_strings",))
def content_word_n_grams(n, text):
    words = remove_stopwords(text.lower().split(), ignore_case=True, remove_punc=True)
    return n_gram_strings(words, n)


@of("daeso.ptc.textalign.preproc_char_n_gram_factory()", props=["C51"],
    ignore=("__name__",), opaque=("n_gram_strings",))
def content_char_n_grams(n, text):
    words = remove_stopwords(text.lower().split(), ignore_case=True, remove_punc=True)
    return n_gram_strings(list(" ".join(words)), n)


@of("daeso.ptc.textalign.preproc_word_n_gram_factory()", props=["C51"], ignore=("__name__",), opaque=("n_gram_strings",))
def lowered(n, text):
    import string
    return n_gram_strings([t.lower() for t in text.split() if t not in string.punctuation], n)


@of("daeso.ptc.textalign.no_weight", props=["C51"], types={"terms_per_elem": "list"})
def no_weight(terms_per_elem):
    return [None for x in terms_per_elem]


@of("daeso.ptc.textalign.equals_sim", props=["C51"])
def equals(source_terms, target_terms, *args):
    return float(source_terms == target_terms)


@of("daeso.ptc.textalign.weighted_cosine_sim", props=["C51"],
    types={"source_weights": "list[float]", "target_weights": "list[float]"})
def weighted(source_terms, target_terms, source_weights, target_weights):
    dot = sum([a * b for a, b in zip(source_weights, target_weights)])
    norm = sum([a * a for a in source_weights]) * sum([b * b for b in target_weights])
    if norm == 0:
        return 0.0
    return dot / sqrt(norm)


@of("daeso.ptc.textalign.jaccard_sim", props=["C51"], opaque=("daeso.string.*",), events=("call",))
def jaccard(source_terms, target_terms, *args):
    return sim.jaccard(source_terms, target_terms)


@of("daeso.ptc.textalign.dice_sim", props=["C51"], opaque=("daeso.string.*",), events=("call",))
def dice(source_terms, target_terms, *args):
    return sim.dice(source_terms, target_terms)


@of("daeso.ptc.textalign.cosine_sim", props=["C51"], opaque=("daeso.string.*",), events=("call",))
def cosine(source_terms, target_terms, *args):
    return sim.cosine(source_terms, target_terms)


@of("daeso.ptc.textalign.tanimoto_sim", props=["C51"], opaque=("daeso.string.*",), events=("call",))
def tanimoto(source_terms, target_terms, *args):
    return sim.tanimoto(source_terms, target_terms)


@of("daeso.ptc.textalign.type_match_sim", props=["C51"], opaque=("daeso.string.*",), events=("call",))
def type_match(source_terms, target_terms, *args):
    return sim.type_match(source_terms, target_terms)


@of("daeso.ptc.textalign.overlap_min_sim", props=["C51"], opaque=("daeso.string.*",), events=("call",))
def overlap_min(source_terms, target_terms, *args):
    return sim.overlap_min(source_terms, target_terms)


@of("daeso.ptc.textalign.overlap_max_sim", props=["C51"], opaque=("daeso.string.*",), events=("call",))
def overlap_max(source_terms, target_terms, *args):
    return sim.overlap_max(source_terms, target_terms)


@of("daeso.ptc.textalign.tf_idf_indicator_weight", props=["C51"], opaque=("tf_idf",))
def indicator_weight(terms_per_elem):
    return tf_idf(terms_per_elem, normalized=True, indicator=True)[1]
