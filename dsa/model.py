"""Program model: modules, bindings, classes, method resolution."""
import ast
import json
import os

from . import load, renamed

THIRD = "daeso.thirdparty."
# copies of standard classes, taken for the original
STANDARD = {"daeso.thirdparty.odict.OrderedDict": "collections.OrderedDict"}
ORDERED = "collections.OrderedDict"
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "arguments.json")) as fh:
    _pins = json.load(fh)
PINNED_FIELDS = _pins.get("fields", {})


class Func:
    kind = "fn"

    def __init__(self, mod, node, cls=None, outer=None):
        self.mod = mod
        self.node = node
        self.cls = cls
        self.outer = outer
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.qual = ((cls.qual if cls else (outer.qual + ".<locals>" if outer else mod.name))
                     + "." + self.name)
        decs = []
        for d in getattr(node, "decorator_list", []):
            decs.append(ast.unparse(d))
        self.decs = decs
        self.is_local = outer is not None
        self.static = "staticmethod" in decs
        self.classm = "classmethod" in decs
        self.prop = "property" in decs
        self._gen = None

    @property
    def is_gen(self):
        if self._gen is None:
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                            for n in walk_fn(self.node))
        return self._gen

    def __repr__(self):
        return "Func(%s)" % self.qual

    @property
    def where(self):
        return "%s:%d" % (self.mod.rel, self.node.lineno)


class Cls:
    kind = "cls"

    def __init__(self, mod, node):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.qual = mod.name + "." + node.name
        self.is_local = False
        self.members = {}      # name -> Func | ast expr | ("alias", ...)
        self.bases = []        # Cls or str (external)
        self.mro = None

    def __repr__(self):
        return "Cls(%s)" % self.qual


class Mod:
    kind = "mod"

    def __init__(self, name, path, tree, repo):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, repo)
        self.tree = tree
        self.bind = {}         # name -> list of binding descriptors
        self.funcs = {}
        self.classes = {}
        self.future_div = False

    def __repr__(self):
        return "Mod(%s)" % self.name


def walk_fn(node):
    """walk a function body without descending into nested functions/classes"""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def unnumber(tree):
    """`for i, x in enumerate(xs)` is `for x in xs` where i is never looked at"""
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        loops = [n for n in ast.walk(fn) if isinstance(n, (ast.For, ast.comprehension)) and
                 isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and
                 isinstance(n.target.elts[0], ast.Name) and isinstance(n.iter, ast.Call) and
                 isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and
                 n.iter.args and not n.iter.keywords and
                 all(isinstance(a, ast.Constant) for a in n.iter.args[1:])]
        if not loops:
            continue
        used = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and
                isinstance(n.ctx, (ast.Load, ast.Del))}
        used |= {x for n in ast.walk(fn) if isinstance(n, ast.Global) for x in n.names}
        used |= {n.target.id for n in ast.walk(fn) if isinstance(n, ast.AugAssign) and
                 isinstance(n.target, ast.Name)}
        if used & {"locals", "vars", "eval", "enumerate"} - {"enumerate"}:
            continue
        for n in loops:
            if n.target.elts[0].id not in used:
                n.iter = n.iter.args[0]
                n.target = n.target.elts[1]


class Program:
    def __init__(self, repo=None, trees=None):
        self.repo = repo or load.REPO
        self.trees = trees or load.parse_repo(self.repo)
        self.pinned = frozenset(_pins.get("pinned", ()))
        self.known_fields = frozenset(_pins.get("names", ()))
        self.fields_back, self.gone_fields = renamed.restore(
            self.own_trees(), PINNED_FIELDS)
        self.methods_back, gone = renamed.restore_methods(
            self.own_trees(), _pins.get("methods", {}), frozenset(_pins.get("defs", ())))
        self.gone_fields |= gone
        self.mods = {}
        lib = os.path.join(self.repo, "lib")
        bind = os.path.join(self.repo, "bin")
        for path, tree in sorted(self.trees.items()):
            unnumber(tree)
            if path.startswith(lib + os.sep):
                rel = os.path.relpath(path, lib)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
            elif path.startswith(bind + os.sep):
                rel = "bin." + os.path.relpath(path, bind)[:-3].replace(os.sep, ".")
            else:
                rel = "spec." + os.path.basename(path)[:-3]
            self.mods[rel] = Mod(rel, path, tree, self.repo)
        for m in self.mods.values():
            self._collect(m)
        for m in list(self.mods.values()):
            for c in m.classes.values():
                self._bases(c)
        for m in self.mods.values():
            for c in m.classes.values():
                self._mro(c)
        self.subclasses = {}
        for m in self.mods.values():
            for c in m.classes.values():
                for b in c.mro:
                    if isinstance(b, Cls) and b is not c:
                        self.subclasses.setdefault(b.qual, []).append(c)

    def own_trees(self):
        return {p: t for p, t in self.trees.items()
                if os.sep + "thirdparty" + os.sep not in p}

    def add_module(self, name, path):
        recs = load.dump([path])
        if "error" in recs[0]:
            raise load.AnalysisError(recs[0]["error"])
        tree = load.Conv(path).node(recs[0]["tree"])
        m = Mod(name, path, tree, self.repo)
        self.mods[name] = m
        self._collect(m)
        for c in m.classes.values():
            self._bases(c)
        for c in m.classes.values():
            self._mro(c)
        return m

    # -- collection ---------------------------------------------------------
    def _collect(self, m):
        for st in self._flat(m.tree.body):
            if isinstance(st, ast.FunctionDef):
                f = Func(m, st)
                m.funcs[st.name] = f
                self._b(m, st.name, ("def", f))
            elif isinstance(st, ast.ClassDef):
                c = Cls(m, st)
                m.classes[st.name] = c
                self._b(m, st.name, ("def", c))
                self._class_body(m, c, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self._b(m, a.asname, ("import", a.name))
                    else:
                        self._b(m, a.name.split(".")[0],
                                ("import", a.name.split(".")[0]))
            elif isinstance(st, ast.ImportFrom):
                if st.module == "__future__":
                    for a in st.names:
                        if a.name == "division":
                            m.future_div = True
                    continue
                for a in st.names:
                    if a.name == "*":
                        m.bind.setdefault("*", []).append(st.module)
                    else:
                        self._b(m, a.asname or a.name,
                                ("from", self._absmod(m, st), a.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._target(m, t, st.value, st)
            elif isinstance(st, ast.AugAssign):
                if isinstance(st.target, ast.Name):
                    self._b(m, st.target.id, ("aug", st))
            elif isinstance(st, ast.For):
                for n in ast.walk(st.target):
                    if isinstance(n, ast.Name):
                        self._b(m, n.id, ("loop", st))
            elif isinstance(st, ast.With):
                for i in st.items:
                    if i.optional_vars is not None:
                        for n in ast.walk(i.optional_vars):
                            if isinstance(n, ast.Name):
                                self._b(m, n.id, ("loop", st))
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    if h.name:
                        self._b(m, h.name, ("loop", st))
        # names declared global in functions
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self._b(m, x, ("global", n))

    def _absmod(self, m, st):
        if st.level:
            parts = m.name.split(".")
            base = parts[:len(parts) - st.level]
            return ".".join(base + ([st.module] if st.module else []))
        # Python 2 implicit relative import
        if st.module:
            pkg = m.name.rsplit(".", 1)[0] if "." in m.name else ""
            cand = (pkg + "." + st.module) if pkg else st.module
            if cand in self.mods and st.module not in self.mods:
                return cand
        return st.module

    def _target(self, m, t, value, st):
        if isinstance(t, ast.Name):
            self._b(m, t.id, ("assign", value, st))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if (isinstance(value, (ast.Tuple, ast.List))
                        and len(value.elts) == len(t.elts)):
                    self._target(m, e, value.elts[i], st)
                else:
                    self._target(m, e, ast.Subscript(
                        value=value, slice=ast.Constant(value=i),
                        ctx=ast.Load()), st)

    def _b(self, m, name, desc):
        m.bind.setdefault(name, []).append(desc)

    def _flat(self, body):
        for st in body:
            yield st
            if isinstance(st, ast.If):
                yield from self._flat(st.body)
                yield from self._flat(st.orelse)
            elif isinstance(st, ast.Try):
                yield from self._flat(st.body)
                for h in st.handlers:
                    if isinstance(h.type, ast.Name) and h.type.id == "ImportError" and any(
                            isinstance(x, (ast.Import, ast.ImportFrom)) for x in st.body):
                        continue        # stand-ins for a module that exists here
                    yield from self._flat(h.body)
                yield from self._flat(st.orelse)
                yield from self._flat(st.finalbody)
            elif isinstance(st, (ast.For, ast.While)):
                yield from self._flat(st.body)
                yield from self._flat(st.orelse)
            elif isinstance(st, ast.With):
                yield from self._flat(st.body)

    def _class_body(self, m, c, node):
        for st in self._flat(node.body):
            if isinstance(st, ast.FunctionDef):
                c.members[st.name] = Func(m, st, c)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = st.value
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                if (isinstance(st.value, (ast.Tuple, ast.List))
                                        and len(st.value.elts) == len(t.elts)):
                                    c.members[e.id] = st.value.elts[i]
                                else:
                                    c.members[e.id] = ast.Subscript(
                                        value=st.value,
                                        slice=ast.Constant(value=i),
                                        ctx=ast.Load())
            elif isinstance(st, ast.ClassDef):
                c.members[st.name] = st

    def _bases(self, c):
        for b in c.node.bases:
            r = self.resolve_expr(c.mod, b)
            if isinstance(r, Cls):
                c.bases.append(r)
            else:
                c.bases.append(r if isinstance(r, str) else ast.unparse(b))

    def _mro(self, c, seen=()):
        if c.mro is not None:
            return c.mro
        if c in seen:
            return [c]
        # C3-like: depth first, last occurrence kept
        out = []
        for b in c.bases:
            if isinstance(b, Cls):
                out.append(list(self._mro(b, seen + (c,))))
            else:
                out.append([b])
        seqs = [list(x) for x in out] + [list(c.bases)]
        res = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                cand = s[0]
                if not any(cand in o[1:] for o in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            for s in seqs:
                if s and s[0] == cand:
                    del s[0]
        c.mro = res
        return res

    # -- resolution ---------------------------------------------------------
    def module_attr(self, modname, attr, depth=0):
        """binding of modname.attr -> Func | Cls | Mod | ("ext", dotted) |
        ("var", Mod, name) | None (module known, no such name)"""
        if depth > 12:
            return None
        full = modname + "." + attr
        if full in STANDARD:
            return ("ext", STANDARD[full])
        m = self.mods.get(modname)
        if m is None:
            if full in self.mods:
                return self.mods[full]
            if any(k.startswith(full + ".") for k in self.mods):
                return ("pkg", full)
            return ("ext", full)
        ds = m.bind.get(attr)
        if ds:
            d = ds[-1]
            if d[0] == "global" and len(ds) > 1:
                d = [x for x in ds if x[0] != "global"][-1:] or [d]
                d = d[0]
            if d[0] == "def":
                return d[1]
            if d[0] == "import":
                return self.mod_or_ext(d[1])
            if d[0] == "from":
                return self.module_attr(d[1], d[2], depth + 1)
            if d[0] == "assign" and len([x for x in ds if x[0] != "global"]) == 1:
                v = d[1]
                if isinstance(v, (ast.Name, ast.Attribute)):
                    r = self.resolve_expr(m, v, depth + 1)
                    if isinstance(r, (Func, Cls, Mod)):
                        return r
                    if isinstance(r, str):
                        return ("ext", r)
            return ("var", m, attr)
        for star in m.bind.get("*", []):
            if star in self.mods:
                r = self.module_attr(star, attr, depth + 1)
                if r is not None:
                    return r
            else:
                return ("ext", star + "." + attr)
        if full in self.mods:
            return self.mods[full]
        return None

    def mod_or_ext(self, name):
        if name in self.mods:
            return self.mods[name]
        if any(k.startswith(name + ".") for k in self.mods):
            return ("pkg", name)
        return ("ext", name)

    def resolve_expr(self, mod, e, depth=0):
        """resolve a Name/Attribute chain at module level to Func/Cls/Mod or
        dotted external name (str) or None"""
        if isinstance(e, ast.Name):
            if e.id in mod.bind or mod.bind.get("*"):
                r = self.module_attr(mod.name, e.id, depth)
            else:
                r = None
            if r is None:
                return e.id
        elif isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value, depth)
            if isinstance(b, Mod):
                r = self.module_attr(b.name, e.attr, depth)
            elif isinstance(b, str):
                if b in self.mods or any(k.startswith(b + ".") for k in self.mods):
                    r = self.module_attr(b, e.attr, depth)
                else:
                    return b + "." + e.attr
            else:
                return None
        else:
            return None
        if isinstance(r, tuple):
            if r[0] in ("ext", "pkg"):
                return r[1]
            return None
        return r

    def lookup(self, cls, name):
        """-> (owner Cls, member) or ("ext", base dotted) or None"""
        for b in cls.mro:
            if isinstance(b, Cls):
                if name in b.members:
                    return (b, b.members[name])
            else:
                if b != "object":
                    return ("ext", b)
        return None

    def ext_bases(self, cls):
        return [b for b in cls.mro if not isinstance(b, Cls)]

    def find(self, qual):
        """find function/class/method by dotted name (public anchors)"""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.mods:
                rest = parts[i:]
                if not rest:
                    return self.mods[mn]
                r = self.module_attr(mn, rest[0])
                if isinstance(r, tuple) or r is None:
                    return None
                for p in rest[1:]:
                    if not isinstance(r, Cls):
                        return None
                    l = self.lookup(r, p)
                    if l is None or l[0] == "ext":
                        return None
                    r = l[1]
                return r
        return None

    def own_mods(self, third=False):
        for n, m in sorted(self.mods.items()):
            if n.startswith("spec."):
                continue
            if not third and n.startswith(THIRD):
                continue
            yield m

    def functions(self, third=False, nested=True):
        """every function/method of the repository"""
        for m in self.own_mods(third):
            for node, cls in _fns(m.tree.body, None):
                c = m.classes.get(cls) if cls else None
                if c is not None and c.members.get(node.name) is not None \
                        and isinstance(c.members[node.name], Func) \
                        and c.members[node.name].node is node:
                    yield c.members[node.name]
                elif c is None and node.name in m.funcs and m.funcs[node.name].node is node:
                    yield m.funcs[node.name]
                else:
                    yield Func(m, node, c)


def _fns(body, cls):
    for st in body:
        if isinstance(st, ast.FunctionDef):
            yield st, cls
            for n in _fns(st.body, None):
                pass
        elif isinstance(st, ast.ClassDef):
            yield from _fns(st.body, st.name)
        else:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(st, f, None)
                if isinstance(b, list):
                    yield from _fns(b, cls)
            for h in getattr(st, "handlers", []):
                yield from _fns(h.body, cls)
