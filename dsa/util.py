"""Small shared tables."""
from .terms import mk

STR_METHODS = set("""capitalize center decode encode endswith expandtabs find
format isalnum isalpha isdigit islower isspace istitle isupper ljust lower
lstrip partition replace rfind rindex rjust rpartition rsplit rstrip split
splitlines startswith strip swapcase title translate upper zfill join""".split())

TYPE_NAMES = {"basestring": "str", "unicode": "str", "str": "str"}


def map_tree(t, f):
    """apply f to the leaves of a decision tree"""
    if t.op == "ite":
        return mk("ite", t.args[0], map_tree(t.args[1], f), map_tree(t.args[2], f))
    if t.op == "undefd":
        return t
    return f(t)


PURE_BUILTINS = set("""abs all any chr cmp divmod hash hex id isinstance issubclass len
max min oct ord pow repr round sum type unichr callable hasattr dir vars""".split())
