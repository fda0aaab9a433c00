"""Statistics over a segment of a corpus"""
import glob as _glob
import os
import daeso.stats.corpus
from sys import stderr
from os import getcwd, chdir, path
from daeso.pgc.pgcstats import pgc_stats, PgcStatsTable
from daeso.gb.gbstats import GbStatsTable


@of("daeso.stats.corpus.write_table", props=["C48"], events=("call", "write"), opaque=("write", "is_empty"),
    types={"table": "daeso.stats.table.StatsTable"}, mute=("print",))
def write_table(table, fn, verbose=True):
    if table.is_empty():
        return
    if verbose:
        print("Writing table", fn)
    with open(fn, "w") as out:
        table.write(out=out)


@of("daeso.stats.corpus.read_subtable", props=["C48"], events=("call", "write"), opaque=("read",),
    types={"table": "daeso.stats.table.StatsTable"})
def read_subtable(table, fn, verbose=True):
    try:
        if verbose:
            print("Reading table", fn)
        table.read(fn)
    except IOError:
        stderr.write("Warning: no file " + fn + "\n")


@of("daeso.stats.corpus.stats", props=["C48"], events=("call",), opaque=("pgc_stats",))
def stats(pgc_dir, pgc_files_pattern, with_unaligned_roots=False):
    cwd = getcwd()
    try:
        try:
            chdir(pgc_dir)
        except OSError:
            files = []
        else:
            files = _glob.glob(pgc_files_pattern)
        result = pgc_stats(files, with_unaligned_roots=with_unaligned_roots)
    finally:
        chdir(cwd)
    return result[0], result[1]


@of("daeso.stats.corpus.corpus_seg_stats", props=["C48"], events=("call",),
    opaque=("read_subtable", "write_table", "stats", "summarize", "PgcStatsTable", "GbStatsTable"),
    types={"seg_dir": "str", "targets": "list[str]", "annot_dirs": "list[str]",
           "subseg_dirs": "list[str]", "pgc_files_pattern": "str"})
def seg_stats(targets, seg_dir, annot_dirs=("ma", "aa", "na"), subseg_dirs=None,
              pgc_files_pattern="*.pgc", verbose=True):
    assert subseg_dirs
    targets = dict.fromkeys(targets or ["all"])
    seg_dir = seg_dir.rstrip(path.sep)
    seg = seg_dir.split(path.sep)[-1]
    pgc = {"all": PgcStatsTable()}
    gb = {"all": GbStatsTable()}
    for annot in annot_dirs:
        pgc[annot] = PgcStatsTable()
        gb[annot] = GbStatsTable()
        if annot == "na":
            with_roots = True
        else:
            with_roots = False
        for subseg in subseg_dirs:
            base = ".".join(("stats", seg, annot, subseg))
            gb_fn = (base + ".gb").replace("/", ".")
            pgc_fn = (base + ".pgc").replace("/", ".")
            if "all" in targets or annot in targets or subseg in targets or \
                    (annot + "." + subseg) in targets:
                pgc_dir = path.join(seg_dir, "pgc", annot, subseg)
                print("Processing corpora files in ", pgc_dir)
                pgc_tab, gb_tab = daeso.stats.corpus.stats(pgc_dir, pgc_files_pattern, with_roots)
                daeso.stats.corpus.write_table(pgc_tab, pgc_fn, verbose=verbose)
                daeso.stats.corpus.write_table(gb_tab, gb_fn, verbose=verbose)
            daeso.stats.corpus.read_subtable(pgc[annot], pgc_fn)
            daeso.stats.corpus.read_subtable(gb[annot], gb_fn)
        pgc[annot].summarize()
        fn = ".".join(("stats", seg, annot, "pgc"))
        daeso.stats.corpus.write_table(pgc[annot], fn, verbose=verbose)
        daeso.stats.corpus.read_subtable(pgc["all"], fn, verbose=verbose)
        gb[annot].summarize()
        fn = ".".join(("stats", seg, annot, "gb"))
        daeso.stats.corpus.write_table(gb[annot], fn, verbose=verbose)
        daeso.stats.corpus.read_subtable(gb["all"], fn, verbose=verbose)
    pgc["all"].summarize()
    daeso.stats.corpus.write_table(pgc["all"], "stats.%s.pgc" % seg, verbose=verbose)
    gb["all"].summarize()
    daeso.stats.corpus.write_table(gb["all"], "stats.%s.gb" % seg, verbose=verbose)
