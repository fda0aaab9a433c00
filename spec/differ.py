"""Comparison of two annotations of the same graph pairs."""
import sys
import daeso.pgc.diff
import daeso.ptc.diff
from daeso.pgc.graphpair import GraphPair
from daeso.ptc.document import HitaextDoc
from daeso.utils.report import header

PAIRS = {"corpus1": "list[daeso.pgc.graphpair.GraphPair]",
         "corpus2": "list[daeso.pgc.graphpair.GraphPair]"}
LOOK = ("alignments_iter", "get_align", "get_graphs", "get_relations",
        "node_is_non_terminal", "node_is_terminal", "get_graph_token_string", "get_node_token_string")


@of("daeso.pgc.diff.pgc_diff", props=["C45"], types=PAIRS, events=("call", "write"), pure=LOOK,
    opaque=("print_alignments", "print_comments", "alignments_iter", "get_align", "get_graphs",
            "get_relations", "node_is_non_terminal", "node_is_terminal",
            "get_graph_token_string"))
def compare(corpus1, corpus2, corpus_name1="Corpus1", corpus_name2="Corpus2", annot1="Annot1",
            annot2="Annot2", words_only=False, show_comments=False, show_ident=False,
            relations=None, out=sys.stdout):
    assert len(corpus1) == len(corpus2)
    relations = relations or corpus1.get_relations()
    header("%s corpus: %s\n%s corpus: %s" % (annot1, corpus_name1, annot2, corpus_name2), out,
           width=120, char="#")
    shown = 0
    number = 0
    for pair1, pair2 in zip(corpus1, corpus2):
        number += 1
        graphs = pair1.get_graphs()
        same, other, only1, only2 = [], [], [], []
        for nodes, rel1 in pair1.alignments_iter(relations=relations):
            if words_only and graphs.source.node_is_non_terminal(nodes.source) and \
                    graphs.target.node_is_non_terminal(nodes.target):
                continue
            rel2 = pair2.get_align(nodes)
            if not rel2:
                only1.append(nodes)
            elif rel1 == rel2:
                same.append(nodes)
            else:
                other.append(nodes)
        for nodes, rel2 in pair2.alignments_iter(relations=relations):
            if words_only and graphs.source.node_is_non_terminal(nodes.source) and \
                    graphs.target.node_is_non_terminal(nodes.target):
                continue
            if not pair1.get_align(nodes):
                only2.append(nodes)
        header("Graph pair %d" % number, out, width=120, char="=")
        out.write(graphs.source.get_graph_token_string().encode("utf-8") + " \n\n")
        out.write(graphs.target.get_graph_token_string().encode("utf-8") + " \n\n")
        if show_comments:
            daeso.pgc.diff.print_comments(pair1, annot1, out)
            daeso.pgc.diff.print_comments(pair2, annot2, out)
        if show_ident:
            same.sort(cmp=daeso.pgc.diff.cmp_nodes)
            shown = daeso.pgc.diff.print_alignments(shown, "Identical", pair1, pair2, graphs, same,
                                                    out)
        other.sort(cmp=daeso.pgc.diff.cmp_nodes)
        shown = daeso.pgc.diff.print_alignments(shown, "Relation different", pair1, pair2, graphs,
                                                other, out)
        only1.sort(cmp=daeso.pgc.diff.cmp_nodes)
        shown = daeso.pgc.diff.print_alignments(shown, annot1 + " only", pair1, pair2, graphs, only1,
                                                out)
        only2.sort(cmp=daeso.pgc.diff.cmp_nodes)
        shown = daeso.pgc.diff.print_alignments(shown, annot2 + " only", pair1, pair2, graphs, only2,
                                                out)


@of("daeso.pgc.diff.cmp_nodes", props=["C45"])
def order(nodes1, nodes2):
    return cmp(int(nodes1.source), int(nodes2.source))


@of("daeso.pgc.diff.print_alignments", props=["C45"], events=("call", "write"), pure=LOOK,
    types={"graph_pair1": "daeso.pgc.graphpair.GraphPair", "graph_pair2": "daeso.pgc.graphpair.GraphPair",
           "align_count": "int", "nodes_list": "list"}, opaque=("get_align", "get_node_token_string"))
def listing(align_count, title, graph_pair1, graph_pair2, graphs, nodes_list, out=sys.stdout):
    if nodes_list:
        header(title, out, char="-")
        for nodes in nodes_list:
            align_count += 1
            rel1 = str(graph_pair1.get_align(nodes))
            rel2 = str(graph_pair2.get_align(nodes))
            source = graphs.source.node[nodes.source]
            target = graphs.target.node[nodes.target]
            out.write("#%d:\n" % align_count)
            text = '(%s) %s [%s:%s]: "%s"' % (
                nodes.source, source["label"].encode("utf-8"), source["begin"], source["end"],
                graphs.source.get_node_token_string(nodes.source))
            out.write(text.encode("utf-8") + "\n")
            out.write("<<< " + rel1.upper() + " / " + rel2.upper() + " >>>\n")
            text = '(%s) %s [%s:%s]: "%s"\n' % (
                nodes.target, target["label"], target["begin"], target["end"],
                graphs.target.get_node_token_string(nodes.target))
            out.write(text.encode("utf-8") + "\n")
    return align_count


@of("daeso.pgc.diff.print_comments", props=["C45"], events=("call", "write"),
    types={"graph_pair": "daeso.pgc.graphpair.GraphPair"}, opaque=("get_meta_data",))
def comments(graph_pair, annot, out, encoding="utf-8"):
    try:
        comment = graph_pair.get_meta_data().find("comment").text
    except AttributeError:
        return
    if comment.strip():
        header("Comments by " + annot, out, char="-")
        out.write(comment.encode(encoding) + " \n\n")


@of("daeso.ptc.diff.read_corpus", props=["C45"], events=("call",), pure=("get_doc_tree",),
    opaque=("HitaextDoc", "get_doc_tree", "update", "inject_alignments"),
    rets={"daeso.ptc.document.HitaextDoc.get_doc_tree": "daeso.ptc.ielemtree.IndexElemTree"})
def read_corpus(corpus):
    if not isinstance(corpus, HitaextDoc):
        corpus = HitaextDoc(file=corpus)
    source = corpus.get_doc_tree("from")
    source.update()
    target = corpus.get_doc_tree("to")
    target.update()
    corpus.inject_alignments(source, target)
    return corpus, source, target


@of("daeso.ptc.diff.print_diff", props=["C45"], events=("call", "write"), pure=("get_elem_text",),
    opaque=("read_corpus", "get_elem_text"))
def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
    true, true_from, true_to = daeso.ptc.diff.read_corpus(true_corpus)
    pred, pred_from, pred_to = daeso.ptc.diff.read_corpus(pred_corpus)
    n = 0
    for t, p in zip(true_from.tagCountTable[tag], pred_from.tagCountTable[tag]):
        for other in t.get("_alignments"):
            if not any([other.get("id") == x.get("id") for x in p.get("_alignments")]):
                n += 1
                print("#%d true only (%s, %s):" % (n, t.get("id"), other.get("id")))
                print(true_from.get_elem_text(t).encode(encoding))
                print(true_to.get_elem_text(other).encode(encoding))
                print()
        for other in p.get("_alignments"):
            if not any([other.get("id") == x.get("id") for x in t.get("_alignments")]):
                n += 1
                print("#%d predicted only (%s, %s)" % (n, p.get("id"), other.get("id")))
                print(pred_from.get_elem_text(p).encode(encoding))
                print(pred_to.get_elem_text(other).encode(encoding))
                print()
