# Runs under Jython 2.7: parses Python 2 source files (never imports or runs
# them) and writes their syntax trees as JSON, one object per file.
import ast
import json
import sys


def conv(n):
    if isinstance(n, ast.AST):
        d = {"_": n.__class__.__name__}
        for f in n._fields:
            d[f] = conv(getattr(n, f, None))
        for a in ("lineno", "col_offset"):
            v = getattr(n, a, None)
            if v is not None:
                d[a] = int(v)
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, unicode):
        return {"_": "$str", "v": n}
    if isinstance(n, str):
        return {"_": "$str", "v": n.decode("latin-1")}
    if isinstance(n, float):
        return {"_": "$float", "v": repr(n)}
    if isinstance(n, (int, long)):
        return {"_": "$int", "v": str(n)}
    if isinstance(n, complex):
        return {"_": "$complex", "v": repr(n)}
    return {"_": "$str", "v": str(n)}


def main():
    names = open(sys.argv[1]).read().split("\n")
    out = open(sys.argv[2], "w")
    for fn in names:
        if not fn:
            continue
        src = open(fn).read()
        try:
            tree = conv(ast.parse(src + "\n", fn))
            rec = {"file": fn, "tree": tree}
        except SyntaxError, inst:
            rec = {"file": fn, "error": str(inst)}
        out.write(json.dumps(rec))
        out.write("\n")
    out.close()


main()
