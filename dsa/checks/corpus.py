"""The corpus model."""
from . import check


@check("C11", "concatenation, slices, repetition")
def concat(ctx):
    """Reference definitions of the operations that build a new corpus."""
    ctx.specs("corpus")


@check("C12", "what can enter a corpus")
def entry(ctx):
    """Reference definitions of the operations that put items into a corpus."""
    ctx.specs("corpus")


@check("C13", "a corpus is a list")
def aslist(ctx):
    """Reference definitions of the list protocol of a corpus."""
    ctx.specs("corpus")


@check("C10", "equality")
def equality(ctx):
    """Reference definitions of == and != on pairs, elements, graph pairs and corpora."""
    ctx.specs("equality")


@check("C16", "an alignment is a map")
def alignment(ctx):
    """Reference definitions of the alignment operations of graph pairs."""
    ctx.specs("graphpair")


@check("C14", "deep copies")
def copies(ctx):
    """Reference definitions of the copying of graph pairs and corpora."""
    ctx.specs("graphpair")
    ctx.specs("corpus")


@check("C21", "meta-data")
def metadata(ctx):
    """Reference definitions of setting, reading and defaulting meta-data."""
    ctx.specs("graphpair")
    ctx.specs("reading")
    ctx.specs("writing")


@check("C22", "malformed corpora")
def malformed(ctx):
    """Reference definitions of what the corpus reader does with each element; no reader
    goes on after a file could not be opened or read."""
    ctx.specs("reading")
    from .structure import unread_files
    unread_files(ctx, ("daeso.pgc.corpus", "daeso.gb."))


@check("C25", "loading modes")
def loading(ctx):
    """Reference definitions of the reader and the graphbanks, in each loading mode."""
    ctx.specs("reading")


@check("C26", "stubs and graphs")
def stubs(ctx):
    """Reference definitions of the stubs, the graphbanks and their parsers."""
    ctx.specs("reading")


@check("C20", "writing and reading")
def roundtrip(ctx):
    """Reference definitions of the corpus writer and of the corpus reader."""
    ctx.specs("reading")
    ctx.specs("writing")


@check("C15", "purging")
def purging(ctx):
    """Reference definition of the sharing of graphbanks."""
    ctx.specs("writing")
