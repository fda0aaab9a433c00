"""The properties (part 3): parallel text, string measures, tools."""
from props1 import p, L

p("C50", "Parallel documents keep the links between the elements of their two trees",
  "Reading the links of a parallel text into its two document trees makes each link known to "
  "both elements that it names, by number (counted from 1) or by id as the document says; "
  "writing them back stores exactly the links that the source elements have, after clearing the "
  "old ones. The index of a tree numbers the elements of each tag in document order and knows "
  "each by id, and the text span of an element is the text inside it that is not ignored. What "
  "is set in a document (file names, tags and how they are shown) is what is returned.",
  [L + "ptc/document.py", L + "ptc/ielemtree.py"], [("links, indexes", "HitaextDoc, IndexElemTree")],
  "all documents and histories of edits", "no passing test", ("inputs", "histories"))

p("C51", "Text aligners link focus elements in aligned scopes, as their filter decides",
  "A text aligner considers every pair of a source and a target focus element inside aligned "
  "scope elements that are not marked as ignored, and adds a link, once, for exactly the scored "
  "pairs that its filter keeps; old links that involve a focus tag are removed first only when "
  "asked to, and other links are kept. A threshold filter keeps exactly the scores above the "
  "threshold; the no-cross filter takes pairs in descending order of score, none below the "
  "threshold, and no two that cross, and changes no argument.",
  [L + "ptc/textalign.py"], [("steps, filters", "textalign.py")],
  "all documents, scores and settings", "no test can import the module here", ("inputs", "configurations"))

p("C52", "A graph corpus made from a text corpus pairs the graphs of its links",
  "The corpus holds, in the order of the links, one graph pair for each link between the focus "
  "tags asked for, made of the graphs with the ids of the linked elements in the source and the "
  "target bank, leaving out only links with a side longer than the maximum or with fewer "
  "different tokens than the minimum.",
  [L + "pgc/creation.py"], [("loop over the links", "pgc_from_ptc")],
  "all text corpora, graphbanks and limits", "no passing test", ("inputs", "configurations"))

p("C53", "File name patterns expand to all matching files, in sorted order",
  "Expanding one or more file name patterns gives the names of all files that match any of them, as "
  "often as they match, sorted over all patterns, and no other name.",
  [L + "utils/opsys.py"], [("glob, multiglob", "utils/opsys.py")],
  "all patterns and directories", "no test expands patterns", ("inputs", "configurations"))

p("C60", "Set similarity coefficients follow their definitions",
  "The match counts and the cosine, Tanimoto, Dice, Jaccard and overlap coefficients of two "
  "sequences are the documented functions of the number of types they share, of the lengths of "
  "the sequences and (Jaccard) of the number of types in either, for every pair of sequences, "
  "and 0 where the denominator is 0.",
  [L + "string/similar.py"], [("coefficient functions", "similar.py")],
  "all pairs of sequences", "tests evaluate a few pairs of words")

p("C61", "N-gram and skip-gram functions enumerate exactly the defined index windows",
  "The n-gram functions give every window of n adjacent items of the (optionally padded) "
  "sequence, in order, and no other; the skip-bigram functions give every pair of items in "
  "order of position whose distance is within the maximum skip, and nothing else. Padding puts "
  "the padding items only at the sides asked for.",
  [L + "string/ngram.py", L + "string/sgram.py"], [("window loops", "ngram.py, sgram.py")],
  "all sequences, orders and padding options", "tests cover a few lengths and orders")

p("C62", "The alignment path that is traced back uses the scores that were computed",
  "In the sequence alignment algorithms, the step recorded in a cell is one whose score gave "
  "that cell its value, and tracing back follows the recorded steps, so that each traced path "
  "moves by exactly the recorded step. Repeated local alignment clears the cells of each reported "
  "alignment and computes the cells that follow in their rows and columns again, until no score is left or "
  "the limit is reached.",
  [L + "string/needleman_wunsch.py", L + "string/smith_waterman.py", L + "string/lcs.py",
   L + "string/levenshtein.py", L + "string/waterman_eggert.py"],
  [("recurrence and traceback", "string/*.py")], "all pairs of sequences and score functions",
  "tests align a few short pairs")

p("C63", "The set median string has the least total distance to the others",
  "The set median is the member of the sequence of strings whose sum of distances to all members, "
  "each pair counted once for either string, is the least; the first such member is taken.",
  [L + "string/median.py"], [("set_median_string", "string/median.py")],
  "all sequences of strings and distance functions", "a test uses one list of words")

p("C64", "ROUGE scores follow their published definitions and never divide by zero",
  "ROUGE-N, ROUGE-L, ROUGE-S and ROUGE-SU give the published recall, precision and F figures as "
  "functions of the overlap of n-grams, subsequences or skip bigrams, and 0 when a side is "
  "empty; no input raises a division error.",
  [L + "string/rouge.py"], [("score functions", "rouge.py")], "all candidate and reference texts",
  "tests use a few sentences, none empty")

p("C65", "Term weighting counts terms and documents, and normalises over the collection",
  "Term frequency counts each occurrence of a term in its document, document frequency each "
  "document that holds the term once, and the weights are the documented function of both.",
  [L + "string/tf_idf.py"], [("counting", "tf_idf.py")], "all document collections",
  "tests use one collection")

p("C66", "Generalised similarity of several sequences reduces to the pairwise measures",
  "The generalised coefficients over any number of sequences count a feature as shared exactly "
  "if every sequence has it, do not depend on the order of the sequences, and equal the "
  "pairwise coefficient for two.",
  [L + "string/similar.py"], [("generalized_*", "similar.py")], "all lists of sequences",
  "tests evaluate a few triples")

p("C67", "Numbers in words name each group of three digits, and no zeros",
  "A whole number is spelled out as the words of its groups of three digits from high to low, each "
  "nonzero group followed by the modifier of its place and each zero group left out; a thousand "
  "is not preceded by one, nul stands for zero alone, and four-digit numbers are counted in "
  "hundreds only when asked and possible.",
  [L + "string/number.py"], [("spell_out_number, _digit_triple_to_words", "number.py")],
  "all whole numbers up to the highest modifier", "tests spell out a few dozen numbers")

p("C70", "Every documented command-line option takes effect",
  "Each option that a command-line tool declares reaches the operation it controls, under its "
  "documented default, and no option is read that was not declared.",
  ["bin/", L + "utils/cli.py"], [("option parsing and calls", "bin/*")],
  "all tools and options", "tests only check the help output", ("configurations",))

p("C71", "Tools write only the files they document, and replace files only when told to",
  "A command-line tool writes, replaces, renames or deletes no other file than the outputs it "
  "documents; copying corpora replaces an existing file only when told to overwrite, and never "
  "the file it copies; with a dry run nothing is written, copied, renamed or deleted.",
  ["bin/"], [("guards around writes", "bin/*")], "all tools, options and files",
  "tests only check the help output", ("configurations", "inputs"))

p("C73", "Splitting and joining corpora partition the graph pairs",
  "Splitting a corpus distributes every graph pair to exactly one part, in order, with the "
  "corpus's relations and meta-data on each part, and joining parts concatenates them in the "
  "order given.",
  ["bin/pgc_split.py", "bin/pgc_join.py"], [("slices of the corpus", "bin/pgc_split.py")],
  "all corpora and part sizes", "no passing test")

p("C90", "Computed subsequences and distances are optimal",
  "The longest common subsequence is a longest one, the edit distance is the minimum cost, and "
  "the alignment scores are the maxima over all alignments.",
  [L + "string/lcs.py", L + "string/levenshtein.py"], [("dynamic programming", "string/*.py")],
  "all pairs of sequences", "tests compare a few pairs")

p("C91", "Numbers are spelled out correctly",
  "The Dutch spelling of every number is the correct one.",
  [L + "string/number.py"], [("spelling tables", "number.py")], "all numbers",
  "tests cannot enumerate them")

p("C92", "Repeated local alignments do not intersect",
  "The alignments reported by repeated local alignment share no matched pair.",
  [L + "string/waterman_eggert.py"], [("zeroing of used cells", "waterman_eggert.py")],
  "all pairs of sequences", "tests align one pair")
