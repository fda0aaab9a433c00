"""Private fields that have another name than in the pinned tree get their name back.

A reference mentions the private fields of the classes that it describes.  A field name
of the pinned tree that occurs nowhere any more, and a new name that is used in the same
classes and methods in the same way, are one field that was renamed; the trees are
changed back before anything is analysed.  A vanished field for which there is no such
name stays vanished (Program.gone_fields): a reference that mentions it decides nothing.
"""
import ast
import collections


def private(name):
    return name.startswith("_") and not name.startswith("__")


def uses(trees):
    """{attribute: multiset of (class, method, how it is used)}, names that exist at all"""
    out = collections.defaultdict(collections.Counter)
    names = set()

    def walk(n, cls, fn, parent):
        if isinstance(n, ast.ClassDef):
            names.add(n.name)
            for c in ast.iter_child_nodes(n):
                walk(c, n.name, "", n)
            return
        if isinstance(n, ast.FunctionDef):
            names.add(n.name)
            for c in ast.iter_child_nodes(n):
                walk(c, cls, fn or n.name, n)
            return
        if isinstance(n, ast.Attribute):
            names.add(n.attr)
            if private(n.attr):
                how = type(n.ctx).__name__
                if isinstance(parent, ast.Attribute):
                    how += "." + ("" if private(parent.attr) else parent.attr)
                elif isinstance(parent, ast.Call) and parent.func is n:
                    how += "()"
                elif isinstance(parent, ast.Subscript):
                    how += "[]"
                out[n.attr][(cls, fn, how)] += 1
        elif isinstance(n, ast.Name):
            names.add(n.id)
        elif isinstance(n, ast.alias):
            names.add(n.name)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            names.add(n.value)
        for c in ast.iter_child_nodes(n):
            walk(c, cls, fn, n)

    for path in sorted(trees):
        walk(trees[path], "", "", None)
    return out, names


def fields(trees):
    """the private attributes that are stored on objects, with their uses (for pinning)"""
    u, _ = uses(trees)
    return {a: sorted([list(k) + [n] for k, n in c.items()]) for a, c in u.items()
            if any(k[2].startswith("Store") for k in c)}


def defs(trees):
    """{name of a private function or method: what its bodies mention, per class}"""
    out = collections.defaultdict(collections.Counter)
    names = set()

    def walk(n, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                walk(c, c.name)
            elif isinstance(c, ast.FunctionDef):
                names.add(c.name)
                for x in ast.walk(c):
                    t = x.attr if isinstance(x, ast.Attribute) else \
                        x.id if isinstance(x, ast.Name) else \
                        x.value if isinstance(x, ast.Constant) and \
                        isinstance(x.value, str) else None
                    if t:
                        out[c.name][(cls, "body", t)] += 1
                walk(c, cls)

    for path in sorted(trees):
        walk(trees[path], "")
    u, _ = uses(trees)
    for a, c in u.items():
        if a in out:
            for (cls, fn, how), n in c.items():
                out[a][(cls, "in " + fn, how)] += 3 * n
    return out, names


def methods(trees):
    """the private functions, for pinning"""
    d, _ = defs(trees)
    return {a: sorted([list(k) + [n] for k, n in c.items()]) for a, c in d.items()
            if private(a)}


def restore_methods(trees, pinned, known):
    """as `restore`, for private functions and methods"""
    d, names = defs(trees)
    old = {a: collections.Counter({tuple(x[:3]): x[3] for x in c})
           for a, c in pinned.items() if a not in names}
    if not old:
        return {}, set()
    fresh = {a: c for a, c in d.items() if a not in known}
    pairs = match({(a, b): similar(old[a], fresh[b]) for a in old for b in fresh})
    for t in trees.values() if pairs else ():
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and n.attr in pairs:
                n.attr = pairs[n.attr]
            elif isinstance(n, ast.Name) and n.id in pairs:
                n.id = pairs[n.id]
            elif isinstance(n, (ast.FunctionDef, ast.alias)) and n.name in pairs:
                n.name = pairs[n.name]
    return pairs, set(old) - set(pairs.values())


def match(score):
    pairs = {}
    for (a, b), s in sorted(score.items(), key=lambda kv: -kv[1]):
        if s < 0.4 or a in pairs.values() or b in pairs:
            continue
        rivals = [t for (x, y), t in score.items()
                  if (x == a) != (y == b) and t > s - 0.1 and
                  x not in pairs.values() and y not in pairs]
        if rivals:
            continue
        pairs[b] = a
    return pairs


def similar(a, b):
    def ratio(x, y):
        both = sum((x & y).values())
        return both / max(1, sum((x | y).values()))

    def coarse(c):
        r = collections.Counter()
        for (cls, fn, how), n in c.items():
            r[(cls, how)] += n
        return r
    return (ratio(a, b) + ratio(coarse(a), coarse(b))) / 2


def restore(trees, pinned):
    """renames in place -> ({new: old}, the names that are gone)"""
    u, names = uses(trees)
    old = {a: collections.Counter({tuple(x[:3]): x[3] for x in c})
           for a, c in pinned.items() if a not in names}
    if not old:
        return {}, set()
    fresh = {a: c for a, c in u.items()
             if a not in pinned and any(k[2].startswith("Store") for k in c)}
    pairs = match({(a, b): similar(old[a], fresh[b]) for a in old for b in fresh})
    if pairs:
        for t in trees.values():
            for n in ast.walk(t):
                if isinstance(n, ast.Attribute) and n.attr in pairs:
                    n.attr = pairs[n.attr]
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                        n.value in pairs:
                    n.value = pairs[n.value]
    return pairs, set(old) - set(pairs.values())
