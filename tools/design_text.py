"""The text of DESIGN.md."""
HEAD = '''# Deciding properties of the DAESO framework by static analysis

(Written by `tools/design.py` from `tools/design_text.py`, the properties, the evidence of the
last run, the planted bugs and the findings.)

## Method

`/verif/dsa` parses every file of `/repo/lib/daeso` and `/repo/bin` on each run with the
project's own parser (Jython's `ast`, dumped to JSON: the code is Python 2, which the Python 3
tools installed here cannot parse) and decides the properties from these trees. Nothing of
`/repo` is executed and no solver is asked. Third-party code (`lib/daeso/thirdparty`, networkx)
is not judged; calls into it go through a small hand-written model (`dsa/nxmodel.py`,
`dsa/facts.json`).

### Reference checks (technique "static equivalence with a reference definition")

1. *Abstract interpretation to alternatives.* A public function is interpreted over a term
   domain. The outcome is a finite set of **alternatives**: a path condition, the result in
   normal form, the effects in order (calls out of the package, attribute and item writes,
   file writes, what is printed) and the exception, if one is raised. Calls within the package
   are followed (inlined), so extracting, merging, renaming or moving a helper changes nothing.
   Branches fork; equal alternatives are joined again.
2. *Loops are summarised, never unrolled.* One generic iteration is interpreted; the summary is
   a comprehension `each(x in D | guard: element)`, a sum, product, count, existential, first
   match, a dictionary or set built by it, a running total, or - where none fits - an opaque
   `loop` term that holds the updates as a normal form over the values at the start of an
   iteration. Bound variables are canonical (`dsa/canonical.py`, `dsa/binders.py`), so the same
   loop written with `for`, `while`, a comprehension, `enumerate`, `zip` or `map` has the same term.
   Recursion is summarised by the call itself.
3. *Normal forms* (`dsa/terms.py`, `dsa/containers.py`): numbers are quotients of polynomials,
   conditions are boolean functions of atoms, sequences are concatenations of parts, sets and
   dictionaries are canonical unions and updates, strings are concatenations; builtins and
   methods of built-in types are modelled (`dsa/builtin.py`, `dsa/methods.py`).
4. *The oracle* is a reference definition in `/verif/spec/*.py`, written from the
   documentation and the property (Python 3 syntax, never run), interpreted by the same engine.
   A `@of("qualified.name", types=..., hints=...)` line names the public anchor and the
   documented types of its parameters.
5. *Comparison* (`dsa/compare.py`, `dsa/diff.py`). Every pair of alternatives whose path
   conditions are consistent must agree on result, effects and exceptions. Equal terms settle
   it. Otherwise the difference must be **positive evidence**: both sides inside the understood
   vocabulary, no opaque or unresolved subterm in the part that differs, the same atoms on both
   sides or values that no environment makes equal, and a small difference (`LIMITS`: a bound on
   the size of the part that differs) between two otherwise corresponding terms. Anything else
   is recorded as *undecided* in the evidence, with the reason, and raises no alarm.
   `dsa/doubt.py` lists families of differences that no reachable state may show (a counter
   that is never negative, listed alternatives being exhaustive, table entries written in another
   order); these are undecided as well.

   On the unchanged tree every obligation of these checks is *discharged*, not undecided, so
   the check shows that the property holds there, given the trust base below. After an edit
   the outcomes are: discharged (a refactoring the normal forms see through), violated, or
   undecided (too unlike the reference to tell).
6. *Anchors.* An anchor is a public function, class, tool, or an event (XML element start/end,
   expat handler) of a public parser. If a public anchor vanishes the check ends in an error
   (exit 2) instead of passing. Private helpers are never anchors.

### Structural rules (technique "dataflow and typestate rules")

`dsa/names.py`, `dsa/files.py`, `dsa/alias.py` and `dsa/checks/structure.py` hold the
whole-program analyses: scope and attribute resolution through the class hierarchy with
argument-list matching, a typestate for opened files along every control-flow path, an
interprocedural mutation and alias analysis (summaries of what each function may modify of
its arguments and of module state, computed to a fixed point), import-time effects, and error
discipline. What the resolution cannot follow is not reported.

### Trust base

The reference definitions, the model of Python 2 built-ins, of the standard library
and of networkx, the documented types of parameters, exact arithmetic for floats, and that no
code outside the package monkey-patches it. Termination, time and memory are not judged.

### Bounds and cost

There is no bound on inputs, lengths or histories: the summaries hold for all of them. The
bounds are on the *analysis*: number of alternatives, nesting of inlined calls, size of terms.
Exceeding one gives "undecided". A check takes 3-10 s (most of it starting Jython's parser, once per
run) and less than 1 GB; `quick` and `thorough` run the same analysis, since it
already covers every path.

## How the machinery itself is tested

* `selftest/run.py` applies about 800 small edits (`selftest/bugs*.txt` must be reported,
  `selftest/quiet*.txt` must not) to scratch copies and compares the verdicts. Batches were
  written from the property text before looking at what the engine does with them.
* `selftest/refactor.py` applies ~20 mechanical behaviour-preserving transformations (swap
  branches with a negated test, hoist or inline a local, for/while, comprehension/loop,
  extract helper, early return, rename, ...) to every analysed function and requires silence.
* `selftest/mutate.py` makes random operator mutants to look for blind spots.
* `tools/plant.py` validates planted bugs (build, stable tests, demonstration with and without)
  and runs the check against each.

A false alarm found in any of these is repaired in the normal forms or by making the family of
differences undecided, never by naming the edit. `known_findings.txt` has the repaired defects
(`fixed:`) and would have the recorded ones (`finding:`, keyed by rule and construct).

## Properties
'''

HOW = {
"C01": """
Whole-program name resolution over lib/daeso and bin: every name is looked up in its scopes,
imports, `__all__` and the built-ins of Python 2; each attribute of a module of the package, of `self`
(through the class hierarchy, including attributes assigned anywhere) and of locals whose class is
known; each call of a known function, class or method against its parameter list; each literal
format string against its arguments; and each local for a path on which it is unbound
(with correlated conditions recognised). Oracle: the language's resolution rules. One
attribute (`etree.indent`) is a monkey-patch the resolution does not follow: undecided.""",
"C02": """
Typestate `opened -> closed` of every value returned by `open`/`codecs.open`/`ZipFile`/... with
ownership: returning or storing it passes the obligation on; `with`, `close()` (also via an
alias or a helper that closes its argument) discharges it; handles that came in as arguments carry no
obligation. Every normal path from the opening to a return is walked; correlated
tests on the same variable are not mixed.""",
"C03": """
Mutation summaries: for each function the set of its arguments (and of access paths below
them) and module-level tables it may modify, computed to a fixed point over the call graph with
a model of which built-in and networkx methods modify. Compared with a committed table of
documented modifications (`dsa/arguments.json`). A new modification of an argument,
default value or table of a covered function is a violation; an unresolved call is not.""",
"C04": """
Import-time effects: statements executed by importing a module (followed through calls) must not print,
parse arguments or change the process. Typestate for `os.chdir`, standard streams, locale and
recursion limit: every exit, also by exception, must pass through a restoration.""",
"C05": """
Every construction of an exception must flow into `raise` or out of the function; every
handler is classified by what it catches and what it then does; a handler of everything must
re-raise, report or use the exception; `makedirs` must re-raise any error but "exists".""",
"C10": """
Reference definitions of `__eq__`/`__ne__` of GraphBank, Pair, GraphPairBase, GraphMapping,
ParallelGraphCorpus and of `etree.equals` (tag, text, tail, attributes and children, in order); `!=` is
compared with the negation of `==` of the same class.""",
"C11": """
Reference definitions of the list operators on corpora with fresh result, relations and
meta-data; identity of the result is part of the term (a new object versus `self`).""",
"C12": """
The entry points are compared with definitions whose guard raises before the list
operation: order of effects and exceptions is part of an alternative.""",
"C13": """Each list operation is compared with the one on the list of graph pairs; result, order of
arguments, change of the corpus.""",
"C14": """The deep copies are compared as object constructions: which fields are fresh (own
constructor or `deepcopy` with the memo) and which shared.""",
"C15": """`purge` is compared with a definition that keeps a map from graphbank file to object and
replaces both banks of every pair; loops summarised as running maps.""",
"C16": """Alignment queries and updates of GraphMapping and GraphMatching, compared as operations on
the networkx edge dictionary (model in `dsa/nxmodel.py`).""",
"C17": """Construction, setting, iteration, printed forms and equality of Pair as terms over its two
fields.""",
"C23": """`write` compared on the text written and the calls made, with the file closed; `indent` on the
writes to text and tail with their guards, recursion summarised by the call.""",
"C20": """The generator's output is a term (sequence of elements with tags, attributes, text, guarded
and repeated by loops); the parser is split per element tag and event (`PGCParser.parse#event ...`)
with the loading mode fixed, and each handler compared with a reference for the field it sets.
Names of elements and attributes occur on both sides only through the references, which agree.""",
"C21": """The generator, the parser events for meta-data and the accessors, compared with references that
test `is None`; truth of an Element means "has children" in the model, so a truth test
differs.""",
"C22": """Parser events for graph pairs in each loading mode and the look-ups in graphbanks, compared on the
exceptions of every alternative: a missing attribute or entry must end in an exception.""",
"C25": """Every event that opens a file or builds a stub, per loading mode; calls of `load` and
parsers are effects.""",
"C26": """Stub creation, client registration, replacement of each client's field and the error for what
remains, compared as effects on stub, clients and banks.""",
"C27": """Each expat handler of the GraphML parser per tag, compared on the writes to keys, defaults and the
data of the enclosing graph, node or edge.""",
"C30": """The node and edge operations of ODiGraph, compared on the writes to succ, pred and the edge
dictionaries (same dictionary object on both sides, fresh attribute dictionaries, OrderedDict).""",
"C31": """The accessors of DaesoGraph, over symbolic adjacency; iterators compared with their
list counterparts' definition.""",
"C40": """`eval_corpus` and the initial counts compared with sums of counts over the zipped graph pairs and
relations.""",
"C41": """The figures per relation, overall and macro as quotients of polynomials in the counts with their
zero guards; division by a term that may be 0 is an exception alternative.""",
"C42": """The tables of annotator pairs, averages and deviations as comprehensions over ordered
pairs of distinct annotators.""",
"C43": """Counting loops as sums per column of the statistics tables; percentages as guarded
quotients.""",
"C44": """Columns, growth, summaries, writing (layout of what is written) and reading of statistics
tables.""",
"C45": """The comparison's printed lines as ordered output effects per graph pair with running numbers,
under guards over the two alignments.""",
"C46": """Counts as sizes of sets of links by id with tag guards; figures as guarded quotients.""",
"C47": """The reports as the ordered text written: literal parts, `ljust`/`rjust` of the figures, loops over
relations, names and measures.""",
"C48": """The four functions on their calls and their order, with the guards by target; table objects are
opaque here (C43, C44).""",
"C53": """The result as a sorted comprehension over patterns and matches (`glob.glob` opaque).""",
"C50": """Each operation of parallel documents and index trees as writes to elements, indexes and link
lists, with counters.""",
"C51": """Each step of the aligner (initialisation, scopes, scoring, filtering, linking), the filters
(sorting order, threshold, crossing test) and the factories (closures) separately.""",
"C52": """The loop over the links as a comprehension with its guards, errors and the graph pair
built.""",
"C60": """Coefficients as quotients over sizes of sets and sequences.""",
"C61": """Windows as comprehensions over index ranges of slices, for list, tuple and string; padding
separately per type of sequence.""",
"C62": """Recurrences as loops over a table: cell value, recorded step and the traceback loop, compared as
update terms with the cells of the previous row and column named canonically.""",
"C63": """Two loops over a table: totals by pair, and the running minimum with its index.""",
"C64": """Scores as guarded quotients; clipped counts as sums of minima.""",
"C65": """Counting dictionaries and the weight formula with its normalisation.""",
"C66": """Generalised coefficients as folds of intersections and unions of the sets of items; the
pairwise functions are checked beside them.""",
"C67": """The loop over the groups of digits (words, group counter and remaining digits as update
terms) and the words of one group, with the constant tables of words and modifiers read as part of
the term. Constant private tables are inlined, so moving an entry between tables is no difference.""",
"C70": """`tools.py` collects the declared options of each tool with all settings and compares
them with the documented ones (`dsa/options.json`, from help texts and README); each declared option must be read
and each option read be declared (dataflow of the namespace); and 15 tools are compared with a
reference for which call receives which option. The documented differences of sub-behaviour
beyond that (thresholds of statistics that were never implemented) are not claimed.""",
"C71": """Effects on files (open for writing, rename, remove, copy, make directories, called library
writers) of each tool, with their guards, compared with the reference: a write not in the
reference, a write with a weaker guard, or one before its guard is a violation.""",
"C73": """The parts as slices of the corpus with their bounds, that cover it; joining as
concatenation.""",
}

TAIL = '''
## What is undecided by design

* Differences in text of messages (reports, help, warnings) are not judged, except where the text is
  the result.
* A rewritten algorithm that is unlike the reference is undecided rather than reported; so are
  differences that depend on the order of unordered collections, on float rounding, or on
  loops summarised opaquely on one side only.
* The environment: file-system races, encodings of terminals, broken third-party packages.

## False alarms met and what was done

All found by our own refactorings; each was repaired in the engine: truth of sizes and counters,
`if not x: return` against nested ifs, aliases of the same dictionary, hoisted attributes, loops
by index, `dict.get` against `try/except KeyError`, early returns out of loops, string
building, keyword against positional arguments, captured variables of nested binders, initial
values of loops. Families that cannot be normalised are in `dsa/doubt.py` as undecided.
A property first written for the text of numbers (C91) and those about optimality (C90, C92) were
withdrawn as not applicable.

## Noticed, not claimed

* `waterman_eggert` scores cells again that earlier alignments had zeroed, so its alignments may
  share cells, and without a limit it may not end ("accb" against "cacaac"). The stable test
  `test_waterman_eggert_1` asserts a repeated alignment, so no repair can pass the suite unedited;
  the property that forbids it (C92) is not claimed.

## Missed

Of the planted bugs, `indent_last_tail` (C23) is missed: the reference does not follow the tail
of the last child, which `etree.indent` reads after its loop. Self-test edits still missed
(undecided): de-duplicating n-grams in a comprehension; `intersection_update` with the union;
a matrix of `waterman_eggert` saved after it was recalculated; look-ups through
`_id2graph.get(id)`; a row shared between tables (aliasing of nested lists); annotator lists
mutated while iterating; rounding before a percentage; `set(self.clients[1:] or ...)`; reversal of
the order in which a trace is accumulated; sorting of keys left out.
'''

MISSED = {"indent_last_tail"}
