"""Command-line tools: the module body as a function, and the declared options."""
import ast
import copy
import json
import os

from .model import Func

MAIN = ("args", "parser")


class Rename(ast.NodeTransformer):
    def visit_Name(self, n):
        if n.id == "__name__" and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Constant(value="__main__"), n)
        if n.id == "__doc__" and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Constant(value="doc"), n)
        return n


def main_func(mod):
    """the statements of the module as a function main(args, parser)"""
    f = getattr(mod, "_main", None)
    if f is None:
        body = [s for s in mod.tree.body
                if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
                and not (isinstance(s, ast.ImportFrom) and s.module == "__future__")]
        node = ast.FunctionDef(
            name="main", body=[Rename().visit(s) for s in body] or [ast.Pass()],
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a, annotation=None)
                                                     for a in MAIN],
                               vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                               defaults=[]),
            decorator_list=[], returns=None, type_params=[])
        node.lineno = node.end_lineno = 1
        node.col_offset = node.end_col_offset = 0
        f = mod._main = Func(mod, node)
    return f


def options(prog, mod):
    """-> (list of dicts, reasons why the list may be incomplete)"""
    out, why = [], []
    for n in ast.walk(mod.tree):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
            continue
        if n.func.attr in ("add_argument_group", "add_mutually_exclusive_group",
                           "add_subparsers", "set_defaults", "add_option"):
            why.append("%s at line %d" % (n.func.attr, n.lineno))
        if n.func.attr != "add_argument":
            continue
        flags = [const(prog, mod, a) for a in n.args]
        kw = {k.arg: const(prog, mod, k.value) for k in n.keywords}
        if None in kw or any(not isinstance(f, str) or f.startswith("<") for f in flags):
            why.append("option of unknown name at line %d" % n.lineno)
            continue
        o = {"line": n.lineno, "flags": sorted(flags)}
        if flags and flags[0].startswith("-"):
            o["positional"] = False
            longs = [f for f in flags if f.startswith("--")]
            dest = (longs or flags)[0].lstrip("-").replace("-", "_")
            o["dest"] = kw.get("dest", dest)
        else:
            o["positional"] = True
            o["dest"] = flags[0] if flags else kw.get("dest")
        o["action"] = kw.get("action", "store")
        o["nargs"] = kw.get("nargs")
        o["type"] = kw.get("type")
        o["choices"] = kw.get("choices")
        o["required"] = kw.get("required", False)
        d = kw.get("default")
        if d is None and o["action"] in ("store_true", "store_false") and "default" not in kw:
            d = o["action"] == "store_false"
        o["default"] = d
        if o["action"] in ("store_const", "append_const"):
            o["const"] = kw.get("const")
        out.append(o)
    # options kept in tables
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if any(isinstance(a, ast.Name) and a.id == "parser" for a in n.args):
                why.append("the parser is handed on at line %d" % n.lineno)
    return out, why


def const(prog, mod, node):
    """value of a literal, or text in angle brackets for something else"""
    try:
        v = ast.literal_eval(node)
        return list(v) if isinstance(v, (tuple, list)) else v
    except (ValueError, TypeError, SyntaxError):
        pass
    if isinstance(node, ast.Name):
        vals = [s.value for s in mod.tree.body if isinstance(s, ast.Assign) and
                any(isinstance(t, ast.Name) and t.id == node.id for t in s.targets)]
        if len(vals) == 1:
            return const(prog, mod, vals[0])
        r = prog.module_attr(mod.name, node.id)
        if r is not None and not isinstance(r, (tuple, list)):
            q = getattr(r, "qual", None)
            if q:
                return "<%s>" % q
        q = imported(mod, node.id)
        if q:
            m, nm = q
            if m in prog.mods:
                vals = [s.value for s in prog.mods[m].tree.body
                        if isinstance(s, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == nm for t in s.targets)]
                if len(vals) == 1:
                    return const(prog, prog.mods[m], vals[0])
            return "<%s.%s>" % q
    return "<%s>" % ast.unparse(node)


def imported(mod, name):
    for s in mod.tree.body:
        if isinstance(s, ast.ImportFrom):
            for a in s.names:
                if (a.asname or a.name) == name:
                    return s.module, a.name
    return None


def baseline():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "options.json")
    with open(p) as fh:
        return json.load(fh)


def adapt(prog, mod, ref):
    """the reference main with the attribute names that the tool uses for its options,
    and these names"""
    opts, why = options(prog, mod)
    base = baseline().get(mod.name, [])
    names = {}
    for b in base:
        for o in opts:
            if o["positional"] == b["positional"] and (
                    set(o["flags"]) & set(b["flags"]) if not b["positional"] else
                    [x["line"] for x in opts if x["positional"]].index(o["line"]) ==
                    [x["flags"] for x in base if x["positional"]].index(b["flags"])):
                names[b["dest"]] = o["dest"]
    dests = sorted(o["dest"] for o in opts) if not why else None
    ren = {k: v for k, v in names.items() if k != v}
    if ren:
        class R(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == "args" and n.attr in ren:
                    n.attr = ren[n.attr]
                return n
        f = Func(ref.mod, R().visit(copy.deepcopy(ref.node)))
        return f, dests
    return ref, dests


def kinds(prog, mod):
    """what the options of a tool are known to be, by their declarations"""
    out = {}
    for o in options(prog, mod)[0]:
        d = "args.%s" % o["dest"]
        if o["action"] in ("store_true", "store_false") and isinstance(o["default"], bool):
            out[d] = "b"
        elif o["action"] == "append" and o["type"] is None:
            out[d + "[]"] = "s"
        elif o["action"] == "store" and o["nargs"] is not None:
            if o["type"] is None and not isinstance(o["default"], str):
                out[d + "[]"] = "s"
        elif o["action"] == "store":
            if o["type"] is None and (isinstance(o["default"], str) or o["positional"]):
                out[d] = "s"
            elif o["type"] == "<int>" and isinstance(o["default"], int):
                out[d] = "i"
    return out


def reads(mod):
    """-> ({(attribute read from the parsed command line, line)}, whether it is used as a
    whole, all attribute names and texts of the module)"""
    names = set()
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and \
                isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "parse_args":
            names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    out, stored, attrs, whole, parents = set(), set(), set(), False, {}
    for n in ast.walk(mod.tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            p = parents.get(n)
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and \
                    p.func.id in ("getattr", "attrgetter"):
                attrs.add(n.value)
        if isinstance(n, ast.Attribute):
            mine = isinstance(n.value, ast.Name) and n.value.id in names
            if isinstance(n.ctx, ast.Load):
                attrs.add(n.attr)
                if mine:
                    out.add((n.attr, n.lineno))
                    whole = whole or n.attr == "__dict__"
            elif mine:
                stored.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "vars" \
                and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in names:
            whole = True
    return {(a, l) for a, l in out if a not in stored}, whole, attrs
