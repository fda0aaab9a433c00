"""Parallel texts."""
from . import check


@check("C51", "alignment of texts")
def aligner(ctx):
    """Reference definitions of the steps of an aligner and of the functions that it is made of."""
    ctx.specs("aligner")


@check("C50", "parallel documents")
def documents(ctx):
    """Reference definitions of the links and settings of a document and of indexed trees."""
    ctx.specs("texts")


@check("C46", "evaluation of text alignment")
def evaluation(ctx):
    """Reference definitions of the counts and scores of links."""
    ctx.specs("texts")


@check("C52", "graph corpora made of texts")
def creation(ctx):
    """Reference definition of which pairs a corpus that is made of a text corpus holds."""
    ctx.specs("texts")


@check("C17", "pairs")
def pairs(ctx):
    """The roles of a pair: set, iterated, shown, compared."""
    ctx.specs("pairs")


@check("C23", "writing XML")
def xmltext(ctx):
    """The declaration, the encoding and the white space that is written."""
    ctx.specs("xmltext")


@check("C63", "median")
def median(ctx):
    """The member of a set of strings with the least total distance."""
    ctx.specs("median")


@check("C53", "patterns")
def patterns(ctx):
    """What the patterns for file names expand to."""
    ctx.specs("patterns")
