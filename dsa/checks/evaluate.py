"""Evaluation and statistics."""
from . import check


@check("C40", "alignment counts")
def counts(ctx):
    """Reference definition of the counting of alignments."""
    ctx.specs("evaluate")


@check("C41", "precision, recall, F")
def measures(ctx):
    """Reference definitions of the measures of a table of counts."""
    ctx.specs("evaluate")


@check("C43", "corpus statistics")
def stats(ctx):
    """What is added to every column, and the percentages, compared with a reference."""
    ctx.specs("stats")


@check("C44", "statistics tables")
def tables(ctx):
    """Columns, totals, the text that is written and what is read from it, compared with
    reference definitions."""
    ctx.specs("stats")


@check("C42", "agreement")
def agreement(ctx):
    """Reference definitions of the agreement tables and of what they are filled with."""
    ctx.specs("agreement")


@check("C45", "differences")
def differences(ctx):
    """Reference definitions of the comparison of two annotations."""
    ctx.specs("differ")


@check("C47", "reports")
def reports(ctx):
    """The printed reports compared with reference layouts of the same figures."""
    ctx.specs("report")


@check("C48", "segment statistics")
def segment(ctx):
    """What is computed, written, read back and summed, in order."""
    ctx.specs("segment")
