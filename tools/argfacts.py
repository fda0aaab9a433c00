"""Writes dsa/arguments.json: for every public function of the pinned library, its
parameters, and those of them that it is meant to modify (confirmed by hand, MODIFIES);
for every class the attributes that its objects have."""
import ast
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(10000)
from dsa import alias, model, names, renamed   # noqa

prog = model.Program()
A = alias.Alias(names.Names(prog))
out = {"functions": {}, "attributes": {}}
for node, s in A.scope.items():
    if "<" in s.label or s.label in out["functions"]:
        continue
    mut, _ = A.summary(node)
    mod = sorted({o[1] if o[0] == "p" else "self" for o in mut if o[0] in "pf"})
    out["functions"][s.label] = [s.params, mod]
for m in prog.own_mods():
    for c in m.classes.values():
        out["attributes"][c.qual] = sorted(
            {n.attr for n in ast.walk(c.node) if isinstance(n, ast.Attribute) and
             isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and
             n.value.id == "self"} | set(c.members))
out["pinned"] = sorted({f.qual for f in prog.functions(nested=False)} |
                       {c.qual for m in prog.own_mods() for c in m.classes.values()})
out["fields"] = renamed.fields(prog.own_trees())
out["methods"] = renamed.methods(prog.own_trees())
out["defs"] = sorted(renamed.defs(prog.own_trees())[1])
out["names"] = sorted({n.attr for t in prog.own_trees().values() for n in ast.walk(t)
                       if isinstance(n, ast.Attribute)} |
                      {a for v in out["attributes"].values() for a in v})
json.dump(out, open(V + "/dsa/arguments.json", "w"), indent=0, sort_keys=True)
print(len(out["functions"]))
