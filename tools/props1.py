"""The properties (part 1): the library as a whole, the corpus model."""
P = []


def p(id, title, statement, files, mech, text, why, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, files=files, mech=mech,
                  text=text, why=why, over=list(over)))


L = "lib/daeso/"

p("C01", "Every name, attribute and call signature used in the code exists",
  "Whatever path is taken through the library or its command-line tools, including error "
  "paths, every global name, imported name, attribute of one of the package's modules or of "
  "the object itself, and argument list used there exists. No input can make a function fail "
  "with a NameError, an unbound local variable, an AttributeError for a member that no class "
  "defines, a TypeError for a wrong number or name of arguments, or a format error because a literal "
  "format string does not match its arguments.",
  [L, "bin/"], [("imports and definitions of each module", "lib/daeso/**, bin/*")],
  "every path through every function of lib/daeso (third-party code excluded) and bin",
  "Python resolves names only when a line runs; most modules have no passing test and error "
  "paths have none", ("inputs", "programs"))

p("C02", "Files opened by a path are closed on every normal way out",
  "When the library reads or writes a file that it opened itself from a path name, that file "
  "has been closed, so that everything written is on disk, when the operation returns "
  "normally. This holds for every operation that accepts a path; a file object handed in by "
  "the caller is left open.",
  [L + "pgc/evaluate.py", L + "pgc/agreement.py", L + "stats/table.py", L + "stats/corpus.py",
   L + "ptc/document.py", L + "utils/etree.py", L + "gb/parser.py", L + "pgc/corpus.py"],
  [("close calls after the last use", "each function that calls open()")],
  "every function that opens a file and every normal path from there to a return",
  "a garbage-collecting run closes files by chance, so tests read back what was written "
  "without noticing", ("inputs", "programs"))

p("C03", "Reading operations leave their arguments and the shared tables unchanged",
  "Measures, parsers, evaluators, comparisons, statistics and writers do not modify the "
  "sequences, dictionaries, graphs or corpora passed to them, except where changing that object "
  "is the documented purpose of the call. Default argument values and the module-level tables "
  "of relations, metrics and feature names are never modified after import.",
  [L], [("copies made before sorting or extending", "each function")],
  "every call of every function of the library, with any arguments",
  "tests look at return values; a mutated argument or default only shows in a later call",
  ("inputs", "histories"))

p("C04", "Importing is silent and process-wide state is put back",
  "Importing any module of the library prints nothing, parses no command line and does not "
  "change the process beyond registering how its own warnings are shown. An operation that changes the working directory, the standard streams "
  "or another process-wide setting has restored it when it ends, also when it ends with an "
  "exception.",
  [L, "bin/"], [("try/finally around os.chdir", "lib/daeso/stats/corpus.py")],
  "every module and every operation that touches process state, on normal and error exits",
  "tests run one call each and do not fail it half-way", ("inputs", "fault_sequences"))

p("C05", "Errors that are detected are raised, and only the intended ones are swallowed",
  "An exception object that the library builds is raised and never merely constructed and "
  "dropped; no handler silently swallows every kind of exception. Creating output directories "
  "tolerates only that the directory already exists: any other failure of the operating "
  "system is reported to the caller.",
  [L], [("raise statements and except clauses", "lib/daeso/**, lib/daeso/utils/opsys.py")],
  "every raise, every exception construction and every handler in lib/daeso and bin",
  "tests do not provoke the failing system calls or look-ups",
  ("inputs", "fault_sequences"))

p("C10", "Equality and inequality of corpora, pairs and graph pairs are complementary",
  "For every pair of values x and y of the corpus, graph pair and source/target pair types, "
  "x != y is the negation of x == y. Two pairs are equal exactly if their sources are equal and "
  "their targets are equal; two graph pairs exactly if graphbanks, graphs, the node alignment "
  "with its relations, and the meta-data all agree; two corpora exactly if their graph pairs, "
  "relations and meta-data agree.",
  [L + "pair.py", L + "pgc/corpus.py", L + "pgc/graphpair.py"],
  [("__eq__/__ne__", "Pair, GraphPairBase, GraphMapping, ParallelGraphCorpus")],
  "all pairs of values", "tests compare a handful of equal and unequal corpora; most corpus "
  "tests cannot run here")

p("C11", "Concatenating, slicing and repeating corpora keeps all of their content",
  "Concatenation, slicing and repetition of parallel graph corpora give a new corpus, never "
  "the operand itself, whose graph pairs are exactly those of the list operation on the "
  "operands, in order, and which carries the relations and meta-data of the (left) corpus. "
  "In-place concatenation and extension add the graph pairs of the other corpus at the end and "
  "change nothing else.",
  [L + "pgc/corpus.py"],
  [("__add__, __radd__, __mul__, __getslice__, __iadd__, extend", "ParallelGraphCorpus")],
  "all corpora, indices and counts", "the corpus tests need a package that is not there")

p("C12", "Only graph pairs and compatible corpora can enter a corpus",
  "The operations that put items into a parallel graph corpus (append, insert, item and slice "
  "assignment, concatenation) reject anything but graph pairs, and "
  "anything but corpora with equal relations, with a TypeError or ValueError before the corpus "
  "has changed.",
  [L + "pgc/corpus.py"], [("_check_* guards before the list operation", "ParallelGraphCorpus")],
  "all item values and all entry points, one call or any sequence of calls",
  "a test samples one wrong type on one entry point; an unguarded sibling stays unseen",
  ("inputs", "histories"))

p("C13", "A corpus behaves as the list of its graph pairs",
  "Length, membership, indexing, iteration, counting, searching, removal, reversal, sorting "
  "and deletion on a corpus give what the same operation on the list of its graph pairs gives, "
  "with the arguments in the same order, and change the corpus exactly as the list is changed.",
  [L + "pgc/corpus.py"], [("delegation to the list", "ParallelGraphCorpus")],
  "all corpora and arguments", "tests sample single calls; corpus tests mostly cannot run here",
  ("inputs", "histories"))

p("C14", "Deep copies of graph pairs and corpora share nothing that can be modified",
  "A deep copy of a graph pair or corpus equals the original, has its own alignment and its own "
  "meta-data tree, and modifying either afterwards does not show in the other; only the "
  "graphbanks and the graphs that live in them are shared.",
  [L + "pgc/graphpair.py", L + "pgc/corpus.py"], [("__deepcopy__", "GraphPair, ParallelGraphCorpus")],
  "all graph pairs and corpora and all later modifications",
  "independence is about all later modifications of either copy", ("inputs", "histories"))

p("C15", "Purging makes equal graphbanks one object and changes nothing else",
  "After purging a corpus (or one graph pair), graph pairs that use the same graphbank file hold "
  "one and the same graphbank object, each graph pair still has, as its source and as its "
  "target, a graphbank equal to the one it had on that side, and graphs, alignment, relations "
  "and meta-data are as they were.",
  [L + "pgc/corpus.py", L + "pgc/graphpair.py"], [("purge", "ParallelGraphCorpus")],
  "all corpora", "corpus tests cannot run here", ("inputs", "histories"))

p("C16", "A graph pair's alignment is a map from node pairs to relations",
  "Aligning a pair of nodes stores exactly one relation for that pair, which can be read back, "
  "replaced and removed; looking up an unaligned pair gives None, and every query by source "
  "node, by target node, by relation, or over all alignments reports exactly the stored "
  "alignments that satisfy it. The merge and statistics operations on one relation do not "
  "depend on alignments of other relations.",
  [L + "pgc/graphpair.py"], [("add_align, del_align, get_align, alignments…", "GraphMapping, GraphPair")],
  "all graph pairs and all histories of alignment operations",
  "tests use one tiny graph pair", ("inputs", "histories"))

p("C17", "A pair has a source and a target role, in that order",
  "A pair holds what it was made of, or last set to, as its source and its target; iterating or "
  "unpacking it gives the source and then the target, its printed forms name each role with its "
  "own value, and it equals exactly the pairs with equal roles and nothing that is not a pair.",
  [L + "pair.py"], [("__init__, set, __iter__, __eq__, __repr__, __str__", "Pair")],
  "all pairs of values", "tests use pairs of two strings")
