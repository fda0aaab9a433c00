"""Evaluation of alignments: counts, and the measures that follow from them."""
from math import sqrt
from daeso.pgc.evaluate import AlignEval, AlignCounts, AlignCountsTable

TYPES = {"self[]": "daeso.pgc.evaluate.AlignCountsTable",
         "true_pgc": "list[daeso.pgc.graphpair.GraphPair]",
         "pred_pgc": "list[daeso.pgc.graphpair.GraphPair]"}


@of("daeso.pgc.evaluate.AlignEval.add", tally=True, types=TYPES, props=["C40"], events=("setitem",),
    opaque=("alignments_iter", "get_align"))
def add(self, true_pgc, pred_pgc, name=None):
    assert len(true_pgc) == len(pred_pgc)
    self.names.append(name or "part%d" % (len(self[AlignEval.any_rel]) + 1))
    for table in self.values():
        table.append(AlignCounts())
    for true_pair, pred_pair in zip(true_pgc, pred_pgc):
        for nodes, true_rel in true_pair.alignments_iter():
            self[true_rel][-1].counts["true"] += 1
            self[AlignEval.any_rel][-1].counts["true"] += 1
            pred_rel = pred_pair.get_align(nodes)
            if pred_rel:
                self[AlignEval.any_rel][-1].counts["common"] += 1
                if pred_rel == true_rel:
                    self[true_rel][-1].counts["common"] += 1
        for nodes, pred_rel in pred_pair.alignments_iter():
            self[pred_rel][-1].counts["pred"] += 1
            self[AlignEval.any_rel][-1].counts["pred"] += 1


@of("daeso.pgc.evaluate.AlignCounts.run_eval", props=["C41"], events=("call",))
def counts_eval(self, beta=1):
    common = self.counts["common"]
    if self.counts["pred"] != 0:
        self.measures["prec"] = common / self.counts["pred"]
    else:
        self.measures["prec"] = 0
    if self.counts["true"] != 0:
        self.measures["rec"] = common / self.counts["true"]
    else:
        self.measures["rec"] = 0
    assert 0 <= beta <= 1
    p, r = self.measures["prec"], self.measures["rec"]
    if beta ** 2 * p + r != 0:
        self.measures["f"] = (beta ** 2 + 1) * p * r / (beta ** 2 * p + r)
    else:
        self.measures["f"] = 0


@of("daeso.pgc.evaluate.AlignCountsTable.run_eval", props=["C41"], events=("call",),
    types={"self[]": "daeso.pgc.evaluate.AlignCounts"}, opaque=("AlignCounts.run_eval",))
def table_eval(self):
    for row in self:
        row.run_eval()
    n = float(len(self))
    for c in ("true", "pred", "common"):
        values = [row.counts[c] for row in self]
        total = sum(values)
        mean = total / n
        var = sum([(v - mean) ** 2 for v in values]) / (n - 1) if n != 1 else 0
        self.count_stats[c]["sum"] = total
        self.count_stats[c]["mean"] = mean
        self.count_stats[c]["var"] = var
        self.count_stats[c]["sd"] = sqrt(var)
    whole = AlignCounts()
    for c in ("true", "pred", "common"):
        whole.counts[c] = sum([row.counts[c] for row in self])
    whole.run_eval()
    for m in ("prec", "rec", "f"):
        values = [row.measures[m] for row in self]
        for method, mean in (("macro", sum(values) / n), ("micro", whole.measures[m])):
            var = sum([(v - mean) ** 2 for v in values]) / (n - 1) if n != 1 else 0
            self.measure_stats[m][method]["mean"] = mean
            self.measure_stats[m][method]["var"] = var
            self.measure_stats[m][method]["sd"] = sqrt(var)


@of("daeso.pgc.evaluate.AlignEval.run_eval", props=["C41"], events=("call",),
    types={"self[]": "daeso.pgc.evaluate.AlignCountsTable"},
    hints={"self[].measure_stats[][][]": "f"},
    given=("len(self.relations) < len(self)",),
    opaque=("daeso.pgc.evaluate.AlignCountsTable.run_eval",))
def eval_all(self):
    for table in self.values():
        table.run_eval()
    for c in ("true", "pred", "common"):
        self.count_stats[c]["sum"] = sum([self[rel].count_stats[c]["sum"]
                                          for rel in self.relations])
    n = len(self.relations)
    whole = AlignCounts()
    for c in ("true", "pred", "common"):
        whole.counts[c] = sum([self[rel].count_stats[c]["sum"] for rel in self.relations])
    whole.run_eval()
    for m in ("prec", "rec", "f"):
        self.measure_stats[m]["macro"]["mean"] = sum(
            [self[rel].measure_stats[m]["micro"]["mean"] for rel in self.relations]) / n
        self.measure_stats[m]["micro"]["mean"] = whole.measures[m]


@of("daeso.pgc.evaluate.AlignCounts", props=["C40", "C41"])
def counts_init(self):
    self.counts = {"true": 0, "pred": 0, "common": 0}
    self.measures = {}


@of("daeso.pgc.evaluate.AlignCountsTable", props=["C41"])
def table_init(self):
    list.__init__(self)
    self.count_stats = {"true": {}, "pred": {}, "common": {}}
    self.measure_stats = {"prec": {"macro": {}, "micro": {}}, "rec": {"macro": {}, "micro": {}},
                          "f": {"macro": {}, "micro": {}}}


@of("daeso.pgc.evaluate.AlignEval", props=["C40"])
def eval_init(self, relations=("equals", "restates", "specifies", "generalizes", "intersects")):
    dict.__init__(self)
    self.relations = relations
    self.names = []
    self[AlignEval.any_rel] = AlignCountsTable()
    for rel in relations:
        self[rel] = AlignCountsTable()
    self.count_stats = {"true": {}, "pred": {}, "common": {}}
    self.measure_stats = {"prec": {"macro": {}, "micro": {}}, "rec": {"macro": {}, "micro": {}},
                          "f": {"macro": {}, "micro": {}}}
