"""Corpus and graphbank statistics."""
import string
from daeso.stats.table import percent

PAIRS = {"pgc": "list[daeso.pgc.graphpair.GraphPair]",
         "graph_pair": "daeso.pgc.graphpair.GraphPair"}


@of("daeso.pgc.pgcstats.node_pair_stats", props=["C43"], tally=True, types=PAIRS,
    opaque=("alignments_iter",), events=("setitem",))
def node_pair_stats(graph_pair, graphs, pgc_table, i, with_empty_nodes=False, with_punc=False):
    for nodes, relation in graph_pair.alignments_iter():
        if not with_empty_nodes and (graphs.source.node_is_empty(nodes.source) or
                                     graphs.target.node_is_empty(nodes.target)):
            continue
        if not with_punc and (graphs.source.node_is_punct(nodes.source) or
                              graphs.target.node_is_punct(nodes.target)):
            continue
        assert relation in ("equals", "restates", "specifies", "generalizes", "intersects")
        pgc_table["CNP"][i] += 1
        if relation == "equals":
            pgc_table["CEQ"][i] += 1
        if relation == "restates":
            pgc_table["CRE"][i] += 1
        if relation == "specifies":
            pgc_table["CSPEC"][i] += 1
        if relation == "generalizes":
            pgc_table["CGEN"][i] += 1
        if relation == "intersects":
            pgc_table["CINT"][i] += 1
        source = graphs.source.node[nodes.source]
        source["from_align"] = source.get("from_align", 0) + 1
        target = graphs.target.node[nodes.target]
        target["to_align"] = target.get("to_align", 0) + 1


@of("daeso.pgc.pgcstats.graph_pair_stats", props=["C43"], tally=True, types=PAIRS,
    opaque=("node_pair_stats", "calc_percentages", "has_edge", "is_below_threshold"),
    events=("call",), only=("node_pair_stats", "calc_percentages"))
def graph_pair_stats(filename, pgc, pgc_table, i, with_empty_nodes=False,
                     with_failed_parses=False, with_punc=False, with_unaligned_roots=False,
                     threshold=0):
    from daeso.pgc.pgcstats import is_below_threshold, node_pair_stats, calc_percentages
    pgc_table["CORPUS"][i] = filename
    for pair in pgc:
        graphs = pair.get_graphs()
        failed = graphs.source.is_failed_parse() or graphs.target.is_failed_parse()
        unaligned = not pair.has_edge(graphs.source.root, graphs.target.root)
        if failed and not with_failed_parses:
            continue
        if unaligned and not with_unaligned_roots:
            continue
        if threshold and is_below_threshold(graphs.source.tokens, graphs.target.tokens,
                                            with_punc):
            continue
        pgc_table["CGP"][i] += 1
        if failed:
            pgc_table["CGPFP"][i] += 1
        if unaligned:
            pgc_table["CGPUR"][i] += 1
            graphs.source.graph["root_aligned"] = False
            graphs.target.graph["root_aligned"] = False
        if not failed and not unaligned:
            pgc_table["CGPFU"][i] += 1
        node_pair_stats(pair, graphs, pgc_table, i, with_empty_nodes, with_punc)
        source, target = graphs.source.graph, graphs.target.graph
        source["from_align"] = source.get("from_align", 0) + 1
        target["to_align"] = target.get("to_align", 0) + 1
    calc_percentages(pgc_table, i)


@of("daeso.pgc.pgcstats.calc_percentages", props=["C43"])
def pgc_percentages(pgc_table, i):
    if pgc_table["CGP"][i]:
        for x in ("FP", "UR", "FU"):
            pgc_table["PGP" + x][i] = percent(pgc_table["CGP" + x][i], pgc_table["CGP"][i])
    if pgc_table["CNP"][i]:
        for x in ("EQ", "RE", "SPEC", "GEN", "INT"):
            pgc_table["P" + x][i] = percent(pgc_table["C" + x][i], pgc_table["CNP"][i])


@of("daeso.pgc.pgcstats.PgcStatsTable.calc_percent_overalls", props=["C43"])
def pgc_overalls(self):
    if self["CGP"].overall:
        for x in ("FP", "UR", "FU"):
            self["PGP" + x].overall = percent(self["CGP" + x].overall, self["CGP"].overall)
    if self["CNP"].overall:
        for x in ("EQ", "RE", "SPEC", "GEN", "INT"):
            self["P" + x].overall = percent(self["C" + x].overall, self["CNP"].overall)


@of("daeso.gb.gbstats.graph_stats", props=["C43"], tally=True, given=("not threshold",),
    opaque=("node_stats", "calc_percentages"), events=("call",),
    only=("node_stats", "calc_percentages"))
def graph_stats(gb, gb_table, i, with_empty_nodes=False, with_failed_parses=False,
                with_punc=False, with_unaligned_roots=False, threshold=0,
                with_unaligned_graphs=False):
    import os
    from daeso.gb.gbstats import node_stats, calc_percentages
    gb_table["BANK"][i] = os.path.basename(gb.get_file_path())
    for graph in gb:
        if graph.is_failed_parse() and not with_failed_parses:
            continue
        if not graph.graph.get("root_aligned", True) and not with_unaligned_roots:
            continue
        sources, targets = graph.graph.get("from_align"), graph.graph.get("to_align")
        aligned = sources or targets
        if not aligned and not with_unaligned_graphs:
            continue
        if graph.is_failed_parse():
            gb_table["CGFP"][i] += 1
        if not graph.graph.get("root_aligned", True):
            gb_table["CGUR"][i] += 1
        if not aligned:
            gb_table["CGU"][i] += 1
        else:
            gb_table["CGA"][i] += 1
            if sources == 1 or targets == 1:
                gb_table["CGSA"][i] += 1
            else:
                gb_table["CGMA"][i] += 1
        gb_table["CG"][i] += 1
        if with_punc:
            gb_table["CT"][i] += len(graph.tokens)
        else:
            gb_table["CT"][i] += len([t for t in graph.tokens if t not in string.punctuation])
        node_stats(gb_table, i, graph, with_empty_nodes, with_punc)
    calc_percentages(gb_table, i)
    return gb_table


@of("daeso.gb.gbstats.node_stats", props=["C43"], tally=True)
def node_stats(gb_table, i, graph, with_empty_nodes, with_punc):
    for node in graph:
        if graph.node_is_punct(node) and not with_punc:
            continue
        if graph.node_is_empty(node) and not with_empty_nodes:
            continue
        gb_table["CN"][i] += 1
        if graph.node[node].get("from_align") or graph.node[node].get("to_align"):
            gb_table["CNA"][i] += 1
        else:
            gb_table["CNU"][i] += 1


@of("daeso.gb.gbstats.calc_percentages", props=["C43"], hints={"gb_table[][]": "i"})
def gb_percentages(gb_table, i):
    if gb_table["CG"][i]:
        for x in ("GA", "GFP", "GUR"):
            gb_table["P" + x][i] = percent(gb_table["C" + x][i], gb_table["CG"][i])
        gb_table["ATG"][i] = gb_table["CT"][i] / gb_table["CG"][i]
        gb_table["ANG"][i] = gb_table["CN"][i] / gb_table["CG"][i]
    if gb_table["CGA"][i]:
        for x in ("GSA", "GMA"):
            gb_table["P" + x][i] = percent(gb_table["C" + x][i], gb_table["CGA"][i])
    if gb_table["CN"][i]:
        gb_table["PNA"][i] = percent(gb_table["CNA"][i], gb_table["CN"][i])


@of("daeso.gb.gbstats.GbStatsTable.calc_percent_overalls", props=["C43"])
def gb_overalls(self):
    if self["CG"].overall:
        for x in ("GA", "GFP", "GUR"):
            self["P" + x].overall = percent(self["C" + x].overall, self["CG"].overall)
    if self["CGA"].overall:
        for x in ("GSA", "GMA"):
            self["P" + x].overall = percent(self["C" + x].overall, self["CGA"].overall)
    if self["CN"].overall:
        self["PNA"].overall = percent(self["CNA"].overall, self["CN"].overall)


@of("daeso.gb.gbstats.GbStatsTable.calc_average_overalls", props=["C43"])
def gb_averages(self):
    if self["CG"].overall:
        self["ATG"].overall = self["CT"].overall / self["CG"].overall
        self["ANG"].overall = self["CN"].overall / self["CG"].overall


@of("daeso.stats.table.percent", props=["C43"])
def percentage(a, b):
    return 100 * a / b


@of("daeso.gb.gbstats.gb_stats", props=["C43"], opaque=("daeso.*",), events=("call",))
def gb_stats(files, format, with_empty_nodes=False, with_failed_parses=False, with_punc=False,
             threshold=0):
    from daeso.gb.gbstats import GbStatsTable, graph_stats, GraphBank
    table = GbStatsTable(size=len(files))
    for i in range(len(files)):
        bank = GraphBank(file_path=files[i], format=format)
        bank.load()
        graph_stats(bank, table, i, with_empty_nodes, with_failed_parses, with_punc,
                    with_unaligned_roots=True, threshold=threshold, with_unaligned_graphs=True)
    table.summarize()
    return table


@of("daeso.pgc.pgcstats.pgc_stats", props=["C43"], opaque=("daeso.*",), events=("call",))
def pgc_stats(files, with_empty_nodes=False, with_failed_parses=False, with_punc=False,
              with_unaligned_roots=False, threshold=0, with_unaligned_graphs=False):
    import os
    from daeso.pgc.pgcstats import (PgcStatsTable, GbStatsTable, ParallelGraphCorpus, LOAD_ALL,
                                    graph_pair_stats, graph_stats)
    pgc_table = PgcStatsTable(size=len(files))
    gb_table = GbStatsTable()
    i = row = 0
    for name in files:
        pgc = ParallelGraphCorpus()
        pgc.read(inf=name, graph_loading=LOAD_ALL)
        graph_pair_stats(os.path.basename(name), pgc, pgc_table, i, with_empty_nodes,
                         with_failed_parses, with_punc, with_unaligned_roots, threshold)
        banks = pgc._graphbanks()
        gb_table.grow(len(banks))
        for bank in banks:
            graph_stats(bank, gb_table, row, with_empty_nodes, with_failed_parses, with_punc,
                        with_unaligned_roots, threshold, with_unaligned_graphs)
            row += 1
        i += 1
    pgc_table.summarize()
    gb_table.summarize()
    return pgc_table, gb_table


@of("daeso.stats.table.Column", props=["C44"])
def column_init(self, label="", type="count", descr="", size=0, overall=None, width=8, prec=2):
    list.__init__(self)
    self.label = label
    self.type = type
    self.descr = descr
    self.overall = overall
    self.width = width
    self.prec = prec
    if size:
        self.extend(size * [0 if type == "count" else "" if type == "string" else 0.0])


@of("daeso.stats.table.Column.grow", props=["C44"])
def column_grow(self, incr):
    self.extend(incr * [0 if self.type == "count" else "" if self.type == "string" else 0.0])


@of("daeso.stats.table.Column.get_width", props=["C44"])
def column_width(self, margin=2):
    assert self.type == "string"
    w = max([len(e) for e in self]) if self else 0
    return max(len(self.label), w) + margin


@of("daeso.stats.table.StatsTable.is_empty", props=["C44"], as_bool=True)
def is_empty(self):
    return not any([len(c) for c in self.values()])


@of("daeso.stats.table.StatsTable.grow", props=["C44"], opaque=("daeso.*",), events=("call",))
def table_grow(self, incr):
    for c in self.values():
        c.grow(incr)


@of("daeso.stats.table.StatsTable.summarize", props=["C44"], opaque=("daeso.*",),
    events=("call",))
def summarize(self):
    self.calc_count_overalls()
    self.calc_percent_overalls()
    self.calc_average_overalls()


@of("daeso.stats.table.StatsTable.calc_count_overalls", props=["C44"])
def count_overalls(self):
    for c in self.values():
        if c.type == "count":
            c.overall = sum(c)


@of("daeso.stats.table.StatsTable.write_legenda", props=["C44"], events=("call",))
def write_legenda(self, out=None):
    n = 0
    for col in self.values():
        n += 1
        out.write("%-4d%-8s%s\n" % (n, col.label, col.descr))


@of("daeso.stats.table.StatsTable.write", props=["C44"], events=("call", "write"),
    opaque=("write_legenda", "get_width"), pure=("get_width",))
def table_write(self, legenda=True, out=None):
    fmt = overalls = ""
    width = 0
    for c in self.values():
        if c.type == "string":
            w = c.get_width()
            out.write(c.label.ljust(w))
            fmt += "%-" + str(w) + "s"
        else:
            w = c.width
            out.write(c.label.rjust(w))
            if c.type == "count":
                fmt += "%" + str(w) + "d"
            else:
                fmt += "%" + str(w) + "." + str(c.prec) + "f"
        width += w
        if c.overall is None:
            overalls += w * " "
        elif c.type == "count":
            overalls += ("%" + str(w) + "d") % c.overall
        else:
            overalls += ("%" + str(w) + "." + str(c.prec) + "f") % c.overall
    fmt += "\n"
    out.write("\n" + width * "-" + "\n")
    for row in zip(*self.values()):
        out.write(fmt % row)
    out.write(width * "-" + "\n" + overalls + "\n\n\n")
    if legenda:
        out.write("\n\n")
        self.write_legenda(out=out)


@of("daeso.stats.table.StatsTable.read", props=["C44"], events=("mutate",),
    given=("hasattr(file, read)",))
def table_read(self, file):
    seps = 0
    for line in file:
        if not line.strip():
            continue
        if line.startswith("----"):
            seps += 1
            if seps == 2:
                return
        elif seps == 1:
            for col, val in zip(self.values(), line.strip().split()):
                if col.type == "string":
                    col.append(val)
                elif col.type == "count":
                    col.append(int(val))
                else:
                    col.append(float(val))
    raise EOFError("truncated")
