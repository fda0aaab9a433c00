"""The command-line tools: what each does with its options."""
import os
import sys
import zipfile
from glob import glob
from os.path import isdir, basename, join, samefile, exists
from string import uppercase
from sys import stderr
from xml.etree.cElementTree import ElementTree, tostring
from daeso.gb.gbstats import gb_stats
from daeso.pair import Pair
from daeso.pgc.agreement import run_eval
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE
from daeso.pgc.creation import pgc_from_ptc
from daeso.pgc.diff import pgc_diff
from daeso.pgc.evaluate import AlignEval
from daeso.pgc.pgcstats import pgc_stats
from daeso.ptc.diff import print_diff
from daeso.ptc.document import HitaextDoc
from daeso.ptc.evaluate import eval_alignment
from daeso.utils.etree import write
from daeso.utils.opsys import multiglob

# calls that only look something up
PURE = ("get_*", "__len__", "__getslice__", "__iter__", "alignments_iter", "multiglob",
        "_graphbanks", "print_usage", "print_help", "Pair")
EFFECTS = ("call", "write")
# calls that change files
FILES = ("write", "writelines", "open", "remove", "unlink", "rename", "renames", "move", "copy",
         "copy2", "copyfile", "copytree", "rmtree", "rmdir", "removedirs", "makedirs", "mkdir",
         "system", "truncate", "save_xml", "dump")
OUTS = ("ext(sys.stderr)", "ext(sys.stdout)")
SAID = ("ext(sys.stderr)",)
TABLES = {"daeso.gb.gbstats.gb_stats": "daeso.stats.table.Table",
          "daeso.pgc.creation.pgc_from_ptc": "daeso.pgc.corpus.ParallelGraphCorpus"}


@of("bin.gb_stats", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.gb_stats", events=EFFECTS, mute=SAID, pure=PURE, rets=TABLES, props=["C70"])
def gb_stats_main(args, parser):
    files = glob(args.pattern)
    if not files:
        sys.exit("gb_stats.py: warning: no matching files")
    table = gb_stats(files, format=args.format,
                     with_empty_nodes=True if args.with_all else args.with_empty_nodes,
                     with_failed_parses=True if args.with_all else args.with_failed_parses,
                     with_punc=True if args.with_all else args.with_punc,
                     threshold=args.threshold)
    table.write(legenda=args.legenda)


@of("bin.pgc_agreement", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.pgc_agreement", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"])
def pgc_agreement_main(args, parser):
    run_eval(**args.__dict__)


@of("bin.pgc_chdir", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.pgc_chdir", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"])
def pgc_chdir_main(args, parser):
    for fn in args.corpus:
        if args.verbose or args.test:
            print("Reading parallel graph corpus", fn, file=stderr)
        tree = ElementTree(file=fn)
        for e in tree.findall("//file"):
            old, new = args.path_prefix_pair
            if e.text.startswith(old):
                if args.verbose or args.test:
                    print("  Changing ", tostring(e).strip(), file=stderr)
                e.text = new + e.text[len(old):]
                if args.verbose or args.test:
                    print("  to       ", tostring(e).strip(), file=stderr)
        if args.verbose and not args.test:
            print("Writing parallel graph corpus", fn, file=stderr)
        if not args.test:
            write(tree, fn)


@of("bin.pgc_cp", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"], watch=("Exception",))
@of("bin.pgc_cp", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"], watch=("Exception",))
def pgc_cp_main(args, parser):
    if not isdir(args.target) and len(args.source) > 1:
        parser.print_usage()
        sys.exit("error: too many arguments")
    for source in args.source:
        if not exists(source):
            stderr.write("warning: source " + repr(source) + " does not exist (not copied)\n")
            continue
        try:
            corpus = ParallelGraphCorpus(inf=source, graph_loading=LOAD_NONE)
        except Exception as inst:
            stderr.write(str(inst) + "\n")
            stderr.write("warning: source " + repr(source) +
                         " is not a valid parallel graph corpus (not copied) \n")
            continue
        target = join(args.target, basename(source)) if isdir(args.target) else args.target
        if exists(target) and samefile(source, target):
            stderr.write("warning: source " + repr(source) + " and target " + repr(target) +
                         " are the same file (not copied) \n")
            continue
        if exists(target) and not args.overwrite:
            stderr.write("warning: target " + repr(target) + "exists (not copied); use "
                         "--overwrite to force copy\n")
            continue
        corpus.write(outf=target)


@of("bin.pgc_diff", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.pgc_diff", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"])
def pgc_diff_main(args, parser):
    corpus1 = ParallelGraphCorpus(inf=args.corpus1)
    corpus2 = ParallelGraphCorpus(inf=args.corpus2)
    pgc_diff(corpus1, corpus2, corpus_name1=args.corpus1, corpus_name2=args.corpus2,
             annot1=args.first_annotator, annot2=args.second_annotator,
             show_comments=args.with_comments, show_ident=args.with_ident,
             relations=args.relations)
    if args.evaluate:
        measures = AlignEval()
        measures.add(corpus1, corpus2)
        measures.run_eval()
        measures.write()


@of("bin.pgc_extract_phrases", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.pgc_extract_phrases", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"],
    rets=TABLES)
def pgc_extract_phrases_main(args, parser):
    for fn in args.corpus:
        corpus = ParallelGraphCorpus(inf=fn)
        for pair in corpus:
            graphs = pair.get_graphs()
            for nodes, relation in pair.alignments_iter():
                columns = [graphs.source.get_node_token_string(nodes.source), relation,
                           graphs.target.get_node_token_string(nodes.target)]
                if args.verbose:
                    banks = pair.get_banks()
                    columns = [banks.source.get_file_path(), banks.target.get_file_path(),
                               graphs.source.id, graphs.target.id,
                               nodes.source, nodes.target] + columns
                print(args.delimiter.join(columns).encode("utf-8"))


@of("bin.pgc_from_ptc", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.pgc_from_ptc", events=EFFECTS, mute=SAID, pure=PURE, rets=TABLES, props=["C70"])
def pgc_from_ptc_main(args, parser):
    if len(args.parallel_text_corpora) != len(args.source_graphbanks):
        sys.exit("Error: too few or to many source graphbanks")
    if len(args.parallel_text_corpora) != len(args.target_graphbanks):
        sys.exit("Error: too few or to many target graphbanks")
    for text, source, target in zip(args.parallel_text_corpora, args.source_graphbanks,
                                    args.target_graphbanks):
        corpus = pgc_from_ptc(text, source, target,
                              focus_tags=Pair(args.source_tag, args.target_tag),
                              graph_formats=Pair(args.source_format, args.target_format),
                              relations=args.relations, min_token_diff=args.min_token_diff,
                              max_token_len=args.max_token_len)
        corpus.write(os.path.splitext(os.path.basename(text))[0] + ".pgc", pprint=True)


@of("bin.pgc_join", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.pgc_join", events=("call",), mute=SAID, pure=PURE, props=["C73"])
@of("bin.pgc_join", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"])
def pgc_join_main(args, parser):
    names = multiglob(args.file)
    if args.verbose:
        print("Reading", file=sys.stderr)
    corpus = ParallelGraphCorpus(inf=names[0])
    for fn in names[1:]:
        if args.verbose:
            print("Joining", file=sys.stderr)
        corpus += ParallelGraphCorpus(inf=fn)
    if args.verbose:
        print("Purging", file=sys.stderr)
    corpus.purge()
    if args.verbose:
        print("Writing", file=sys.stderr)
    corpus.write(pprint=args.format)


@of("bin.pgc_split", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.pgc_split", events=("call",), mute=SAID, pure=PURE, given=("args.size",), props=["C73"])
@of("bin.pgc_split", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"])
def pgc_split_main(args, parser):
    if args.verbose:
        print("Reading", file=sys.stderr)
    corpus = ParallelGraphCorpus(inf=args.filename)
    root, ext = os.path.splitext(args.filename)
    size = args.size or -(-len(corpus) // args.parts) or 1
    for i in range(0, len(corpus), size):
        j = min(i + size, len(corpus))
        part = "{0}_{1:04d}-{2:04d}{3}".format(root, i + 1, j, ext)
        if args.verbose:
            print("Writing", file=sys.stderr)
        corpus[i:j].write(outf=part, pprint=args.format)


@of("bin.pgc_stats", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.pgc_stats", events=EFFECTS, mute=SAID, pure=PURE, rets=TABLES, props=["C70"])
def pgc_stats_main(args, parser):
    files = glob(args.pattern)
    if not files:
        sys.exit("pgc_stats.py: warning: no matching files")
    tables = pgc_stats(files,
                       with_empty_nodes=True if args.with_all else args.with_empty_nodes,
                       with_failed_parses=True if args.with_all else args.with_failed_parses,
                       with_punc=True if args.with_all else args.with_punc,
                       with_unaligned_roots=True if args.with_all else args.with_unaligned_roots,
                       threshold=args.threshold,
                       with_unaligned_graphs=True if args.with_all else
                       args.with_unaligned_graphs)
    tables[0].write(legenda=args.legenda)
    tables[1].write(legenda=args.legenda)


@of("bin.pgc_zip", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.pgc_zip", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"])
def pgc_zip_main(args, parser):
    archive = zipfile.ZipFile(args.zip_file, "w")
    top = os.path.splitext(os.path.basename(args.zip_file))[0]
    for fn in multiglob(args.pgc_files):
        archive.write(fn, os.path.join(top, os.path.basename(fn)))
        corpus = ParallelGraphCorpus(inf=fn, graph_loading=LOAD_NONE)
        for bank in corpus._graphbanks():
            path = bank.get_file_path()
            archive.write(path, os.path.join(top, os.path.basename(path)))
    archive.close()


@of("bin.ptc_chdir", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.ptc_chdir", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"])
def ptc_chdir_main(args, parser):
    for fn in args.corpus:
        if args.verbose or args.test:
            print("Reading", file=stderr)
        doc = HitaextDoc(file=fn)
        for side in ("from", "to"):
            path = doc.get_filename(side)
            if args.verbose or args.test:
                print("Current", file=stderr)
            if path[0] in uppercase and path[1] == ":":
                path = path[2:]
            path = join(args.dir, basename(path.replace("\\", "/")))
            if args.verbose or args.test:
                print("Changing", file=stderr)
            if not args.test:
                doc.set_filename(side, path)
        if args.verbose and not args.test:
            print("Writing", file=stderr)
        if not args.test:
            doc.write(fn)


@of("bin.ptc_diff", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.ptc_diff", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"])
def ptc_diff_main(args, parser):
    print_diff(args.true_corpus, args.pred_corpus, args.tag, args.encoding)


@of("bin.ptc_eval", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.ptc_eval", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"])
def ptc_eval_main(args, parser):
    assert len(args.true_corpora) == len(args.pred_corpora)
    eval_alignment(zip(args.true_corpora, args.pred_corpora), args.tag)


@of("bin.ptc_n_to_id", events=("call", "open"), only=FILES, mute=OUTS, pure=PURE, rets=TABLES,
    rule="files", props=["C71"])
@of("bin.ptc_n_to_id", events=EFFECTS, mute=SAID, pure=PURE, props=["C70"])
def ptc_n_to_id_main(args, parser):
    for fn in args.corpus:
        if args.verbose:
            print("Reading", file=stderr)
        corpus = HitaextDoc(file=fn)
        source = corpus.get_doc_tree("from")
        target = corpus.get_doc_tree("to")
        source.update()
        target.update()
        corpus.inject_alignments(source, target)
        corpus.alignment.set("method", "id")
        corpus.extract_alignments(source, target)
        if args.verbose:
            print("Writing", file=stderr)
        corpus.write(fn)
