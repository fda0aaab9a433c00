"""The graph classes."""
from . import check


@check("C30", "ordered graphs")
def ordered(ctx):
    """Reference definitions of the operations that add nodes and edges."""
    ctx.specs("ograph")
    ctx.specs("daesograph")


@check("C31", "graph queries")
def queries(ctx):
    """Reference definitions of the queries on nodes, tokens and terminals."""
    ctx.specs("daesograph")


@check("C27", "GraphML")
def graphml(ctx):
    """Reference definitions of the handlers of the GraphML reader, for each element."""
    ctx.specs("graphml")
