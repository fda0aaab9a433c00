"""The properties (part 2): reading, writing, graphs, evaluation."""
from props1 import p, L

p("C20", "Whatever the corpus writer writes, the corpus reader understands",
  "Relations, graphbanks with their format and path, graph pairs with the identifiers of their "
  "graphs and graphbanks, node alignments with their relation, and meta-data that a corpus "
  "holds are all written, each once and in order, under the element and attribute names from "
  "which the reader restores them into the same field; two graph pairs refer to the same "
  "graphbank in the file exactly if their graphbanks are equal.",
  [L + "pgc/corpus.py"],
  [("element handlers and generator methods", "PGCParser, PGCGenerator")],
  "all corpora and all element kinds", "a round-trip test covers the fields of its one file; "
  "corpus tests cannot run here")

p("C21", "Meta-data survives: it is stored and written even if it has no children",
  "Meta-data given to a graph pair or corpus, or read from a file, is the meta-data reported, "
  "compared, copied and written, also when it is an element without children; absent meta-data "
  "stays distinguishable from an empty one only by its content.",
  [L + "pgc/graphpair.py", L + "pgc/corpus.py"], [("tests on meta-data objects", "GraphPairBase, PGCGenerator")],
  "all meta-data trees", "an element without children counts as false in ElementTree; tests use "
  "meta-data with children")

p("C22", "A malformed corpus is reported as a DaesoError, not accepted or crashed on",
  "When a graph pair in a corpus file lacks a required attribute, refers to a graphbank that "
  "is not declared, or refers to a graph that is not found, reading the corpus ends in an "
  "exception; it never yields a corpus with a missing or wrong part.",
  [L + "pgc/corpus.py"], [("KeyError translation", "PGCParser")],
  "all corpus files", "no test reads a malformed corpus", ("inputs", "fault_sequences"))

p("C23", "Written XML declares its encoding, and pretty-printing changes only white space",
  "Writing an element tree gives an XML declaration with the encoding asked for, followed by the "
  "tree in that encoding, to a path or to an open file alike. Pretty-printing indents by the depth of "
  "the elements and replaces only texts and tails that are missing or white space; no other "
  "text, tag, attribute or order changes.",
  [L + "utils/etree.py"], [("write, indent", "utils/etree.py")],
  "all element trees and encodings", "tests write one small tree")

p("C25", "The loading mode determines which graphs are read",
  "With no loading, no graphbank file is opened and every graph of a pair is a stub carrying "
  "its identifier; with sparse loading exactly the graphs that the corpus refers to are read; "
  "with full loading every graph is read.",
  [L + "pgc/corpus.py", L + "gb/graphbank.py", L + "gb/parser.py"],
  [("graph_loading", "PGCParser, GraphBank, SparseGraphBank")],
  "all corpora and modes", "only LOAD_NONE is exercised by passing tests",
  ("inputs", "configurations"))

p("C26", "Stubs are replaced in place and unresolved graphs are an error",
  "After loading the graphs of a corpus, every stub has become the graph of its identifier, "
  "so that all holders of the stub see the graph, and an identifier that no graphbank file "
  "defines is reported as an error.",
  [L + "gb/graphstub.py", L + "gb/parser.py", L + "gb/graphbank.py"],
  [("_replace_by / id2graph", "GraphStub, GraphbankParser")],
  "all corpora and graphbanks", "graphbank parsers need a package that is not there")

p("C27", "GraphML data ends up on the node, edge or graph it was declared for",
  "Each data value of a GraphML file is stored under the attribute name declared for its key "
  " on the graph, node or edge that encloses it, defaults apply to "
  "elements without a value, and only the graphs asked for are built.",
  [L + "gb/graphml.py"], [("start/end handlers", "GraphMLParser")],
  "all GraphML files", "the existing GraphML test prints without comparing")

p("C30", "Adjacency of an ordered graph is one relation, in both directions",
  "In an ordered graph the successors of u contain v exactly if the predecessors of v contain "
  "u, both see the same attribute dictionary, every node and edge has its own attribute "
  "dictionary, and nodes, edges and neighbours are reported in the order in which they were "
  "added.",
  [L + "graph/ograph.py"], [("succ/pred/edge dictionaries", "ODiGraph")],
  "all graphs and all histories of additions and removals",
  "tests build one small graph", ("inputs", "histories"))

p("C31", "DaesoGraph queries agree with the graph's edges and node attributes",
  "Parents, children, terminals, non-terminals, node yields, node types, labels and the root "
  "that a graph reports are exactly those its edges and attributes imply; each iterator yields "
  "what its list counterpart returns; queries do not change the graph.",
  [L + "graph/daesograph.py"], [("accessors", "DaesoGraph")],
  "all graphs", "tests use a handful of tiny graphs")

p("C40", "Alignment evaluation counts the true, predicted and common alignments",
  "For every relation the evaluation counts the alignments of that relation in the true corpus, "
  "those in the predicted corpus, and those with the same nodes and relation in both, summed "
  "over the graph pairs taken in parallel; a predicted alignment with another relation is not "
  "common for its relation. The figures irrespective of relation count a node pair aligned in "
  "both corpora as common, whatever its relations.",
  [L + "pgc/evaluate.py"], [("eval_corpus", "AlignEval")],
  "all pairs of corpora", "the evaluation tests need a package that is not there")

p("C41", "Precision, recall and F-score follow from the counts, with 0 for empty classes",
  "Precision is common/predicted, recall common/true, F their harmonic mean, each 0 when its "
  "denominator is 0, and macro figures are plain means over the relations; no combination of "
  "counts raises a division error.",
  [L + "pgc/evaluate.py", L + "ptc/evaluate.py"], [("zero guards", "AlignEval, DocEval")],
  "all counts", "zero denominators need unusual corpora")

p("C42", "Agreement figures aggregate every ordered pair of distinct annotators",
  "The agreement tables hold, for every pair of distinct annotators, the evaluation of the one "
  "against the other with the first as true; averages and deviations run over exactly those "
  "pairs and leave out the diagonal.",
  [L + "pgc/agreement.py"], [("run_eval, tables", "agreement.py")],
  "all sets of annotators", "no test of agreement can run here")

p("C43", "Corpus statistics count every node, token and alignment once",
  "Totals of nodes, tokens, aligned nodes and relations reported for a corpus equal the sums "
  "over its graph pairs, aligned plus unaligned is all, and percentages are of the stated "
  "total, with no division error on empty corpora.",
  [L + "pgc/pgcstats.py", L + "gb/gbstats.py", L + "stats/corpus.py"],
  [("counting loops", "pgcstats.py, gbstats.py")],
  "all corpora", "statistics tests need a package that is not there")

p("C44", "A statistics table keeps every row and column in order through write and read",
  "The tables written contain each column once, in order, with one value per row; numbers are "
  "formatted as declared, and per-row results match the overall result computed from the same "
  "numbers.",
  [L + "stats/table.py", L + "stats/corpus.py"], [("write/read", "Table")],
  "all tables", "no passing test writes a table")

p("C45", "A corpus comparison reports each difference once, under the right heading",
  "Comparing two annotations of the same graph pairs lists, per graph pair and under its own "
  "heading, every node pair that only one of them aligns as such, and every pair that both align "
  "but with other relations as such, each once and numbered on, and shows what both share only "
  "when asked to; restricted to words it leaves out, on both sides alike, pairs of two phrases. "
  "Comparing two text alignments prints each link that only one of them has once, as true only "
  "or predicted only.",
  [L + "pgc/diff.py", L + "ptc/diff.py"], [("diff functions", "pgc/diff.py, ptc/diff.py")],
  "all pairs of corpora", "no test of the comparison can run here")

p("C46", "Parallel text evaluation counts the links of the tag asked for",
  "For each pair of parallel texts the evaluation counts the distinct links, by id, whose two "
  "ends both have the tag asked for: the true ones, the predicted ones and those that are both; "
  "ratio, precision, recall and F follow from these counts, 0 where undefined, and the overall "
  "line uses the sums of the counts.",
  [L + "ptc/evaluate.py"], [("counts per tag", "ptc/evaluate.py")],
  "all parallel documents", "no passing test")

p("C47", "Evaluation reports print every count and figure in its own row and column",
  "The reports of an alignment evaluation print, for the alignment as such, for each relation and "
  "over all relations, the counts and their sums, means and deviations, and precision, recall and "
  "F, macro and micro, each in the row and under the heading it belongs to, as percentages "
  "only where asked for; the agreement report prints the table of each measure under its "
  "relation. Writing to a path and to an open file gives the same text.",
  [L + "pgc/evaluate.py", L + "pgc/agreement.py", L + "utils/report.py"],
  [("write methods", "AlignEval, AlignCountsTable, write_tables")],
  "all evaluations", "no passing test prints a report", ("inputs", "configurations"))

p("C48", "Segment statistics are computed, stored, read back and summed per level",
  "Statistics over a segment of a corpus are computed for exactly the targets asked for, from "
  "the corpora in the directory of the target; each table that is not empty is written under the "
  "name of its target; the tables of an annotation level are the sums of those stored for its "
  "parts, and the overall ones of those stored for the levels, in order; a table that is "
  "missing is reported and left out.",
  [L + "stats/corpus.py"], [("corpus_seg_stats, stats, read_subtable, write_table", "stats/corpus.py")],
  "all segments, targets and levels", "no passing test", ("inputs", "configurations"))
