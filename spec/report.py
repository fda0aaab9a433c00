"""Printed reports of alignment evaluation: every count and figure in its row and column"""
import sys
import daeso.pgc.evaluate
from daeso.pgc.evaluate import AlignEval, AlignCountsTable, AlignCounts

COUNTS = ("true", "pred", "common")
MEASURES = ("prec", "rec", "f")
EVAL = {"self[]": "daeso.pgc.evaluate.AlignCountsTable", "self.names": "list[str]"}
TABLE = {"self[]": "daeso.pgc.evaluate.AlignCounts", "names": "list[str]", "heading": "str"}
FIGURES = {"self[].measures[]": "f", "self.measure_stats[][][]": "f",
           "self[].measure_stats[][][]": "f"}


def head(out, title):
    out.write(80 * "=" + "\n" + title + "\n" + 80 * "=" + "\n\n")


def figure(value, percent):
    return ("%.2f" % (value * 100 if percent else value)).rjust(14)


def labels(out, first, names, width):
    out.write(first.ljust(width))
    for name in names:
        out.write((name.capitalize() + ":").rjust(14))


@of("daeso.pgc.evaluate.AlignEval.write", props=["C47"], types=EVAL, events=("call", "write"),
    opaque=("write_alignment_only", "write_alignment_per_relation", "write_alignment_overall"))
def eval_write(self, out=sys.stdout):
    if isinstance(out, basestring):
        with open(out, "w") as f:
            self.write(f)
        return
    self.write_alignment_only(out)
    self.write_alignment_per_relation(out)
    self.write_alignment_overall(out)


@of("daeso.pgc.evaluate.AlignEval.write_alignment_only", props=["C47"], types=EVAL,
    events=("call", "write"), given=("out",),
    opaque=("daeso.pgc.evaluate.AlignCountsTable.write",))
def alignment_only(self, out=sys.stdout):
    head(out, "Alignment only (regardlless of relation)")
    self[AlignEval.any_rel].write(self.names, out=out)


@of("daeso.pgc.evaluate.AlignEval.write_alignment_per_relation", props=["C47"], types=EVAL,
    events=("call", "write"), given=("out",),
    opaque=("daeso.pgc.evaluate.AlignCountsTable.write",))
def per_relation(self, out=sys.stdout):
    head(out, "Alignment per relation")
    for rel in self.relations:
        self[rel].write(self.names, out=out, heading=rel.upper())


@of("daeso.pgc.evaluate.AlignEval.write_alignment_overall", props=["C47"], types=EVAL,
    hints=FIGURES, events=("call", "write"), given=("len(self.relations) < len(self)", "out"))
def overall(self, out=sys.stdout, percent=True):
    head(out, "Alignment over all relations")
    line = 56 * "-" + "\n"
    labels(out, "Relation:", COUNTS, 14)
    out.write("\n" + line)
    for rel in self.relations:
        out.write(rel.ljust(14))
        for c in COUNTS:
            out.write(str(self[rel].count_stats[c]["sum"]).rjust(14))
        out.write("\n")
    out.write(line + "Sum:".ljust(14))
    for c in COUNTS:
        out.write(str(self.count_stats[c]["sum"]).rjust(14))
    out.write("\n\n\n")
    labels(out, "Relation:", MEASURES, 14)
    out.write("\n" + line)
    for rel in self.relations:
        out.write(rel.ljust(14))
        for m in MEASURES:
            out.write(figure(self[rel].measure_stats[m]["micro"]["mean"], percent))
        out.write("\n")
    out.write(line)
    for method in ("macro", "micro"):
        out.write((method.capitalize() + " Mean:").ljust(14))
        for m in MEASURES:
            out.write(figure(self.measure_stats[m][method]["mean"], percent))
        out.write("\n")
    out.write("\n\n")


@of("daeso.pgc.evaluate.AlignCountsTable.write", props=["C47"], types=TABLE, hints=FIGURES,
    events=("call", "write"))
def table_write(self, names, out=sys.stdout, percent=True, heading=""):
    width = max(14, max([len(n) for n in names]) + 4)
    line = (width + 42) * "-" + "\n"
    if heading:
        out.write(heading + "\n\n")
    labels(out, "Name:", COUNTS, width)
    out.write("\n" + line)
    for name, row in zip(names, self):
        out.write(str(name).ljust(width))
        for c in COUNTS:
            out.write(str(row.counts[c]).rjust(14))
        out.write("\n")
    out.write(line)
    for stat in ("sum", "mean", "var", "sd"):
        out.write((stat.capitalize() + ":").ljust(width))
        for c in COUNTS:
            if stat == "sum":
                out.write(str(self.count_stats[c][stat]).rjust(14))
            else:
                out.write(("%.2f" % self.count_stats[c][stat]).rjust(14))
        out.write("\n")
    out.write("\n\n")
    labels(out, "Name:", MEASURES, width)
    out.write("\n" + line)
    for name, row in zip(names, self):
        out.write(str(name).ljust(width))
        for m in MEASURES:
            out.write(figure(row.measures[m], percent))
        out.write("\n")
    out.write(line)
    for method in ("macro", "micro"):
        for stat in ("mean", "var", "sd"):
            out.write((method.capitalize() + " " + stat.capitalize() + ":").ljust(width))
            for m in MEASURES:
                out.write(figure(self.measure_stats[m][method][stat], percent))
            out.write("\n")
    out.write("\n\n")


@of("daeso.pgc.agreement.write_tables", props=["C47"],
    types={"tables": "dict[dict[daeso.pgc.agreement.AnalysesTable]]"}, events=("call", "write"),
    opaque=("daeso.pgc.agreement.AnalysesTable.write",))
def write_tables(tables):
    for rel, group in tables.items():
        print(80 * "=")
        print("Agreement on relation", rel)
        print(80 * "=" + "\n")
        for measure, table in group.items():
            table.write(header=measure.upper(), percent=True)


@of("daeso.utils.report.header", props=["C47"], events=("call", "write"),
    types={"head": "str", "char": "str"}, hints={"width": "n"})
def header(head, s=None, width=80, char="="):
    text = width * char + "\n" + head + "\n" + width * char + "\n\n"
    if s:
        s.write(text)
    return text
