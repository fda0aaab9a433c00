"""Measures on texts."""
from . import check


@check("C60", "set similarity")
def similar(ctx):
    """Each coefficient is compared with its documented definition."""
    ctx.specs("similar")


@check("C61", "n-grams")
def ngram(ctx):
    """Reference definitions of n-gram windows, padding and skip bigrams."""
    ctx.specs("ngram")


@check("C64", "ROUGE")
def rouge(ctx):
    """Reference definitions of the ROUGE scores."""
    ctx.specs("rouge")


@check("C62", "sequence alignment")
def seqalign(ctx):
    """Recurrences of the score matrices and the traced paths."""
    ctx.specs("seqalign")
    ctx.specs("repeated")


@check("C65", "term weighting")
def weights(ctx):
    """Reference definitions of the term weights."""
    ctx.specs("weights")


@check("C66", "generalised similarity")
def general(ctx):
    """Reference definitions over any number of sequences."""
    ctx.specs("similar")


@check("C67", "numbers in words")
def numbers(ctx):
    """Reference definition by groups of three digits."""
    ctx.specs("numbers")
