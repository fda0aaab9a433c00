"""Agreement between annotators."""
import daeso.pgc.agreement
import math
import pickle
import sys

from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.evaluate import AlignEval
from daeso.pgc.agreement import AnalysesTable, read_corpora

TABLE = {"self": "daeso.pgc.agreement.AnalysesTable", "self.labels": "list[str]",
         "self[]": "dict[float]"}
HINTS = {"self[][]": "f", "align_eval[][].measures[]": "f"}


@of("daeso.pgc.agreement.AnalysesTable", props=["C42"], types={"labels": "list[str]"})
def new_table(self, labels):
    self.labels = labels
    for label in labels + ["mean", "SD"]:
        self[label] = {}


@of("daeso.pgc.agreement.AnalysesTable.calculate_av", props=["C42"], types=TABLE, hints=HINTS)
def mean(self):
    total = 0.0
    others = len(self.labels) - 1
    for column in self.labels:
        s = 0.0
        for row in self.labels:
            if column != row:
                s += self[row][column]
        self["mean"][column] = s / others
        total += s
    self["mean"]["overall"] = total / (len(self.labels) * others)


@of("daeso.pgc.agreement.AnalysesTable.calculate_sd", props=["C42"], types=TABLE, hints=HINTS)
def deviation(self):
    total = 0.0
    others = len(self.labels) - 1
    for column in self.labels:
        s = 0.0
        for row in self.labels:
            if column != row:
                s += (self[row][column] - self["mean"][column]) ** 2
                total += (self[row][column] - self["mean"]["overall"]) ** 2
        if others == 1:
            self["SD"][column] = 0.0
        else:
            self["SD"][column] = math.sqrt(s / (others - 1))
    self["SD"]["overall"] = math.sqrt(total / (len(self.labels) * others - 1))


@of("daeso.pgc.agreement.cross_evaluate", props=["C42"], opaque=("read_corpora", "add", "run_eval"),
    types={"annotators": "list[str]", "corpus_fns": "list[str]"},
    rets={"daeso.pgc.agreement.read_corpora": "list[daeso.pgc.corpus.ParallelGraphCorpus]"},
    events=("call",))
def evaluate_all(corpus_fns, annotators=None, pickle_fn=None, words_only=False):
    if annotators:
        assert len(annotators) == len(corpus_fns)
    else:
        annotators = ["A%d" % (i + 1) for i in range(len(corpus_fns))]
    corpora = read_corpora(corpus_fns, words_only)
    result = AlignEval()
    for true, name in zip(corpora, annotators):
        for pred, other in zip(corpora, annotators):
            if name != other:
                result.add(true, pred, (name, other))
    result.run_eval()
    if pickle_fn:
        with open(pickle_fn, "wb") as f:
            pickle.dump(result, f)
    return result


@of("daeso.pgc.agreement.tableize", props=["C42"], opaque=("calculate_statistics",),
    types={"align_eval": "daeso.pgc.evaluate.AlignEval", "align_eval.names": "list",
           "align_eval[]": "list[daeso.pgc.evaluate.AlignCounts]"},
    events=("call",))
def tables_of(align_eval, pickle_fn=None):
    annotators = sorted(dict(align_eval.names).keys())
    tables = {}
    for rel in align_eval.keys():
        tables[rel] = {}
        for m in ("prec", "rec", "f"):
            table = tables[rel][m] = AnalysesTable(annotators)
            for (true, pred), counts in zip(align_eval.names, align_eval[rel]):
                table[true][pred] = counts.measures[m]
            table.calculate_statistics()
    if pickle_fn:
        with open(pickle_fn, "wb") as f:
            pickle.dump(tables, f)
    return tables


@of("daeso.pgc.agreement.read_corpora", props=["C42"],
    opaque=("daeso.pgc.corpus.*", "alignments", "del_align", "node_is_non_terminal"),
    events=("call",), pure=("ParallelGraphCorpus", "__iter__", "get_graphs", "alignments",
                            "node_is_non_terminal"))
def load_corpora(corpus_fns, words_only):
    out = []
    for fn in corpus_fns:
        corpus = ParallelGraphCorpus(inf=fn, graph_loading=2 if words_only else 3)
        if words_only:
            for pair in corpus:
                graphs = pair.get_graphs()
                for nodes, relation in pair.alignments():
                    if graphs.source.node_is_non_terminal(nodes.source) or \
                            graphs.target.node_is_non_terminal(nodes.target):
                        pair.del_align(nodes)
        out.append(corpus)
    return out


@of("daeso.pgc.agreement.run_eval", props=["C42"],
    opaque=("cross_evaluate", "tableize", "write_tables", "write"), events=("call",))
def run_all(corpus_fns, annotators, pickle_fn=None, words_only=False):
    result = daeso.pgc.agreement.cross_evaluate(corpus_fns, annotators, words_only=words_only)
    result.write()
    tables = daeso.pgc.agreement.tableize(result)
    daeso.pgc.agreement.write_tables(tables)
    if pickle_fn:
        with open(pickle_fn, "wb") as f:
            pickle.dump((result, tables), f)
    return result, tables


@of("daeso.pgc.agreement.FormatAnalysesMatrix.write", props=["C42"],
    types={"self.matrix": "daeso.pgc.agreement.AnalysesTable", "self.matrix.labels": "list[str]",
           "self.matrix[]": "dict[float]"}, hints={"self.matrix[][]": "f"}, events=("call", "write"))
def show_table(self, out=sys.stdout, percent=False, header=None):
    table = self.matrix
    names = table.labels
    cell = "%12.2f" if percent else "%12.4f"
    scale = 100 if percent else 1
    line = (len(names) + 2) * 12 * "-" + "\n"
    if header:
        out.write(header + "\n\n")
    out.write(12 * " ")
    for name in names + ["overall"]:
        out.write("%11s:" % name)
    out.write("\n" + line)
    for row in names:
        out.write("%11s:" % row)
        for name in names:
            if row == name:
                out.write(12 * " ")
            else:
                out.write(cell % (table[row][name] * scale))
        out.write("\n")
    out.write(line)
    for row in ("mean", "SD"):
        out.write("%11s:" % row)
        for name in names:
            out.write(cell % (table[row][name] * scale))
        out.write(cell % (table[row]["overall"] * scale))
        out.write("\n")
    out.write("\n\n")
