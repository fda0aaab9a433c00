"""Name, attribute and call-signature resolution over the whole program.

Nothing is executed: the repository is read as syntax trees, and the names
that the installed standard library and networkx define come from facts.json,
which tools/facts.py extracted once from the installed packages.
"""
import ast
import json
import os
import re

from .load import Print, Exec
from .model import Func, Cls, Mod

FACTS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "facts.json")))
MODS = FACTS["modules"]
BUILTINS = set(MODS["__builtin__"]) | {"__file__", "__name__", "__doc__", "__builtins__",
                                       "__debug__", "WindowsError"}
SCOPES = (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef)
MODATTRS = {"__name__", "__file__", "__doc__", "__dict__", "__path__", "__package__"}


class Scope:
    def __init__(self, node, kind, parent, mod, cls=None, func=None):
        self.node, self.kind, self.parent, self.mod = node, kind, parent, mod
        self.cls = cls              # the class whose method this is (lexically)
        self.func = func            # nearest enclosing function scope
        self.names = set()
        self.globals = set()
        self.params = []
        self.loads = []             # (Name node, guards)
        self.imports = {}           # local name -> ("mod", name) | ("from", mod, attr)
        self.children = []

    @property
    def label(self):
        out, s = [], self
        while s is not None and s.kind != "module":
            if s.kind in ("function", "class"):
                out.append(getattr(s.node, "name", "<lambda>"))
            elif s.kind == "lambda":
                out.append("<lambda>")
            s = s.parent
        return ".".join([self.mod.name] + out[::-1])


def arg_names(a):
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


class Binder:
    """scopes of one module, with the names they bind"""

    def __init__(self, prog, mod):
        self.prog, self.mod = prog, mod
        self.all = []
        self.root = self.new(mod.tree, "module", None)
        self.guards = []
        self.body(mod.tree.body, self.root)

    def new(self, node, kind, parent, cls=None):
        s = Scope(node, kind, parent, self.mod, cls)
        if parent is not None:
            parent.children.append(s)
            s.cls = s.cls or (parent.cls if kind not in ("class",) else None)
        self.all.append(s)
        return s

    def body(self, stmts, s):
        for st in stmts:
            self.visit(st, s)

    def bind(self, name, s):
        if name in s.globals:
            self.root.names.add(name)
        else:
            s.names.add(name)

    def visit(self, n, s):
        if n is None:
            return
        t = type(n)
        if t is ast.FunctionDef:
            self.bind(n.name, s)
            for d in n.decorator_list + n.args.defaults:
                self.visit(d, s)
            f = self.new(n, "function", s, s.node if s.kind == "class" else None)
            f.params = arg_names(n.args)
            f.names.update(f.params)
            for g in ast.walk(n):
                if isinstance(g, ast.Global):
                    pass
            for g in own_walk(n.body):
                if isinstance(g, ast.Global):
                    f.globals.update(g.names)
            self.body(n.body, f)
        elif t is ast.Lambda:
            for d in n.args.defaults:
                self.visit(d, s)
            f = self.new(n, "lambda", s)
            f.params = arg_names(n.args)
            f.names.update(f.params)
            for p in getattr(n, "pre", []):
                self.visit(p, f)
            self.visit(n.body, f)
        elif t is ast.ClassDef:
            self.bind(n.name, s)
            for d in n.bases + n.decorator_list:
                self.visit(d, s)
            c = self.new(n, "class", s)
            self.body(n.body, c)
        elif t in (ast.GeneratorExp, ast.SetComp, ast.DictComp):
            self.visit(n.generators[0].iter, s)
            g = self.new(n, "genexp", s)
            for i, c in enumerate(n.generators):
                self.visit(c.target, g)
                if i:
                    self.visit(c.iter, g)
                for x in c.ifs:
                    self.visit(x, g)
            if t is ast.DictComp:
                self.visit(n.key, g)
                self.visit(n.value, g)
            else:
                self.visit(n.elt, g)
        elif t is ast.ListComp:             # leaks its variables in Python 2
            for c in n.generators:
                self.visit(c.iter, s)
                self.visit(c.target, s)
                for x in c.ifs:
                    self.visit(x, s)
            self.visit(n.elt, s)
        elif t is ast.Name:
            if isinstance(n.ctx, ast.Store):
                self.bind(n.id, s)
            else:
                s.loads.append((n, tuple(self.guards)))
        elif t is ast.Import:
            for a in n.names:
                self.bind(a.asname or a.name.split(".")[0], s)
                s.imports[a.asname or a.name.split(".")[0]] = (
                    "mod", a.name if a.asname else a.name.split(".")[0])
        elif t is ast.ImportFrom:
            for a in n.names:
                if a.name != "*":
                    self.bind(a.asname or a.name, s)
                    s.imports[a.asname or a.name] = ("from", self.prog._absmod(self.mod, n),
                                                     a.name)
        elif t is ast.ExceptHandler:
            if n.name:
                self.bind(n.name, s)
            self.visit(n.type, s)
            self.body(n.body, s)
        elif t is ast.Try:
            g = set()
            for h in n.handlers:
                g |= handler_names(h)
            self.guards.append(g)
            self.body(n.body, s)
            self.guards.pop()
            for h in n.handlers:
                self.visit(h, s)
            self.body(n.orelse, s)
            self.body(n.finalbody, s)
        else:
            if t is ast.AugAssign and isinstance(n.target, ast.Name):
                s.loads.append((ast.copy_location(ast.Name(id=n.target.id, ctx=ast.Load()),
                                                  n.target), tuple(self.guards)))
            if t is ast.If and isinstance(n.test, ast.Constant) and not n.test.value:
                self.body(n.orelse, s)
                return
            for c in ast.iter_child_nodes(n):
                self.visit(c, s)


def own_walk(body):
    """the nodes of one scope; code under `if False:` never runs"""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, ast.If) and isinstance(n.test, ast.Constant) and not n.test.value:
            todo.extend(n.orelse)
            continue
        if not isinstance(n, SCOPES):
            todo.extend(ast.iter_child_nodes(n))


def handler_names(h):
    if h.type is None:
        return {"*"}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {t.id if isinstance(t, ast.Name) else getattr(t, "attr", "?") for t in ts}


def find(s, name):
    """the scope that binds `name` as seen from s, or None"""
    first = True
    while s is not None:
        if s.kind == "module":
            return s if name in s.names else None
        if name in s.globals:
            while s.parent is not None:
                s = s.parent
            return s if name in s.names else None
        if name in s.names and (first or s.kind != "class"):
            return s
        first = first and s.kind == "genexp" and False
        s = s.parent
    return None


def star_has(prog, mod, name, seen=()):
    """does a star import of mod supply the name?  True / False / None unknown"""
    res = False
    for star in mod.bind.get("*", []):
        if star in prog.mods:
            if star in seen:
                continue
            m = prog.mods[star]
            if name in m.bind or star_has(prog, m, name, seen + (star,)):
                return True
        elif star in MODS:
            if name in MODS[star]:
                return True
        else:
            res = None
    return res


class Names:
    def __init__(self, prog):
        self.prog = prog
        self.mods = {m.name: Binder(prog, m) for m in prog.own_mods()}
        self.universe()

    # -- what members can exist at all ------------------------------------------
    def universe(self):
        u = set()
        self.stored = set()         # attribute names stored on anything but self
        self.hier = {}
        self.keywords = set()
        for d in MODS.values():
            for n, e in d.items():
                u.add(n)
                u.update(e.get("members", ()))
        for v in FACTS["instances"].values():
            u.update(v)
        self.lib = set(u)
        self.repo = {}              # member name -> [Func] of the repository
        for m in self.prog.own_mods(third=True):
            for c in m.classes.values():
                for n, x in c.members.items():
                    u.add(n)
                    if isinstance(x, Func):
                        self.repo.setdefault(n, []).append(x)
                    else:
                        self.repo.setdefault(n, []).append(None)
            u.update(m.bind)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    u.add(n.attr)
                    if not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                        self.stored.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                        and n.func.id == "setattr" and len(n.args) == 3:
                    if isinstance(n.args[1], ast.Constant):
                        u.add(n.args[1].value)
                        self.stored.add(n.args[1].value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                        and n.func.attr == "add_argument":
                    for a in n.args:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            u.add(a.value.lstrip("-").replace("-", "_"))
                    for k in n.keywords:
                        if k.arg == "dest" and isinstance(k.value, ast.Constant):
                            u.add(k.value.value)
        self.u = u

    def members(self, cls):
        """every attribute that an instance of the class (or of a subclass) can
        have, or None when that is not known"""
        if cls.qual in self.hier:
            return self.hier[cls.qual]
        fam = [cls] + list(self.prog.subclasses.get(cls.qual, []))
        todo, seen = list(fam), {}
        for c in fam:
            for b in c.mro:
                if isinstance(b, Cls):
                    seen[b.qual] = b
        out, known = set(MODS["__builtin__"]["object"]["members"]), True
        for c in fam:
            for b in c.mro:
                if isinstance(b, Cls):
                    continue
                ms = ext_members(b)
                if ms is None:
                    known = False
                else:
                    out |= ms
        for b in seen.values():
            out |= set(b.members) | {"__class__", "__dict__", "__doc__", "__module__"}
            if "__getattr__" in b.members or "__getattribute__" in b.members:
                known = False
            for n in ast.walk(b.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                if isinstance(n, ast.Attribute) and n.attr == "__dict__" or \
                        isinstance(n, ast.Name) and n.id in ("setattr", "vars"):
                    known = False
        out |= self.stored
        self.hier[cls.qual] = out if known else None
        return self.hier[cls.qual]

    # -- resolving expressions to modules/functions/classes -------------------------
    def resolve(self, s, e):
        """-> Func | Cls | Mod | ("ext", dotted) | ("missing", mod, attr) | None"""
        if isinstance(e, ast.Name):
            b = find(s, e.id)
            if b is None:
                if e.id in BUILTINS and star_has(self.prog, s.mod, e.id) is False:
                    return ("ext", "__builtin__." + e.id)
                if star_has(self.prog, s.mod, e.id):
                    return self.norm(self.prog.module_attr(s.mod.name, e.id))
                return None
            if b.kind == "module":
                return self.norm(self.prog.module_attr(s.mod.name, e.id))
            imp = b.imports.get(e.id)
            if imp is not None and self.only_import(b, e.id):
                if imp[0] == "mod":
                    return self.norm(self.prog.mod_or_ext(imp[1]))
                return self.norm(self.prog.module_attr(imp[1], imp[2]))
            return None
        if isinstance(e, ast.Attribute):
            b = self.resolve(s, e.value)
            if isinstance(b, Mod):
                r = self.prog.module_attr(b.name, e.attr)
                if r is None:
                    return ("missing", b.name, e.attr)
                return self.norm(r)
            if isinstance(b, Cls):
                x = self.prog.lookup(b, e.attr)
                if x is None:
                    return ("nomember", b, e.attr)
                if x[0] == "ext":
                    return None
                return x[1] if isinstance(x[1], (Func, Cls)) else None
            if isinstance(b, tuple) and b[0] == "ext":
                d = b[1]
                if d in MODS:
                    if e.attr in MODS[d]:
                        x = MODS[d][e.attr]
                        if d + "." + e.attr in MODS:
                            return ("ext", d + "." + e.attr)
                        if x["kind"] == "module":
                            return ("ext", x["name"])
                        return ("ext", d + "." + e.attr)
                    if d + "." + e.attr in MODS:
                        return ("ext", d + "." + e.attr)
                    if e.attr in MODATTRS:
                        return None
                    return ("missing", d, e.attr)
                x = ext_entry(d)
                if x is not None and x["kind"] == "class":
                    if e.attr not in x["members"] and e.attr not in x["msig"]:
                        return ("nomember", d, e.attr)
                    return ("ext", d + "." + e.attr)
                if d + "." + e.attr in MODS:
                    return ("ext", d + "." + e.attr)
            if isinstance(b, tuple) and b[0] == "pkg":
                r = self.prog.module_attr(b[1], e.attr) if b[1] in self.prog.mods else \
                    self.norm(self.prog.mod_or_ext(b[1] + "." + e.attr))
                return r if isinstance(r, Mod) else None
        return None

    def norm(self, r):
        if isinstance(r, tuple):
            if r[0] == "var":
                return None
            if r[0] == "ext":
                d = r[1]
                # re-exported names: follow to the module that has the entry
                if d.rsplit(".", 1)[0] in MODS or d in MODS:
                    x = ext_entry(d)
                    if x is not None and x["kind"] == "module" and d not in MODS:
                        return ("ext", x["name"])
                return r
        return r

    def only_import(self, b, name):
        """the scope binds the name by its import only"""
        for n in own_walk(b.node.body if isinstance(b.node.body, list) else [b.node.body]):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                return False
        return name not in b.params


def ext_entry(d):
    if "." not in d:
        return None
    m, a = d.rsplit(".", 1)
    if m in MODS:
        return MODS[m].get(a)
    return None


def ext_members(d):
    if d == "object":
        return set(MODS["__builtin__"]["object"]["members"])
    if d in FACTS["instances"]:
        return set(FACTS["instances"][d])
    if d in MODS["__builtin__"]:
        x = MODS["__builtin__"][d]
        if x["kind"] == "class":
            out = set(x["members"])
            if x.get("exc"):
                out |= set(FACTS["instances"]["Exception"])
            return out
    x = ext_entry(d)
    if x is None or x["kind"] != "class":
        return None
    tail = d.rsplit(".", 1)[1]
    for k in FACTS["instances"]:
        if k.rsplit(".", 1)[-1] == tail:
            return set(FACTS["instances"][k]) | set(x["members"])
    if x.get("exc"):
        return set(x["members"]) | set(FACTS["instances"]["Exception"])
    return None                     # instance attributes are not listed


# -- signatures ---------------------------------------------------------------------

def fits(names, ndef, var, kwv, npos, kws, starred):
    """None when the call fits the parameters, else the reason.
    starred: the call has *args or **kwargs (only definite errors are kept)"""
    if npos > len(names) and not var:
        return "%d positional arguments for %d parameters" % (npos, len(names))
    taken = set(names[:npos])
    for k in kws:
        if k in taken:
            return "argument %r is given twice" % k
        if k not in names and not kwv:
            return "unexpected keyword argument %r" % k
        taken.add(k)
    if starred:
        return None
    missing = [n for n in names[:len(names) - ndef] if n not in taken]
    if missing:
        return "missing argument%s %s" % ("s" * (len(missing) > 1), ", ".join(missing))
    return None


def fn_fits(fn, call, bound):
    a = fn.node.args
    names = [x.arg for x in a.args]
    ndef = len(a.defaults)
    if bound:
        if not names and not a.vararg:
            return "a method without a parameter for the object"
        names = names[1:]
        ndef = min(ndef, len(names))
    npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    star = any(isinstance(x, ast.Starred) for x in call.args) or \
        any(k.arg is None for k in call.keywords)
    return fits(names, ndef, a.vararg is not None, a.kwarg is not None, npos,
                [k.arg for k in call.keywords if k.arg is not None], star)


def sig_fits(sig, call, bound=False):
    names, ndef, var, kw = sig
    if bound:
        names = names[1:]
    npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    star = any(isinstance(x, ast.Starred) for x in call.args) or \
        any(k.arg is None for k in call.keywords)
    return fits(names, ndef, var, kw, npos,
                [k.arg for k in call.keywords if k.arg is not None], star)


# -- local variables that no definition reaches ---------------------------------------

class Reach:
    """forward analysis of a function body: may/must assigned local names"""

    def __init__(self, scope, stop=None, loops=False, ifs=False):
        """loops/ifs: assume that loops run at least once / that a name assigned in
        one branch is assigned"""
        self.s = scope
        self.stop = stop or is_exit
        self.loops, self.ifs = loops, ifs
        self.never = []             # (node, name): read, no assignment reaches
        self.some = []              # (node, name): read, assigned on some paths only
        body = scope.node.body
        params = set(scope.params)
        self.locals = {n for n in scope.names if n not in scope.globals}
        self.breaks, self.conts, self.exc = [], [], []
        self.block(body, (params, params))

    # state: (may, must) or None when unreachable
    def join(self, *ss):
        ss = [s for s in ss if s is not None]
        if not ss:
            return None
        may, must = set(), None
        for a, b in ss:
            may |= a
            must = set(b) if must is None else must & b
        return (may, must)

    def block(self, stmts, st):
        for x in stmts:
            if st is None:
                return None
            st = self.stmt(x, st)
        return st

    def use(self, n, st):
        """reads and stores inside an expression, left to right"""
        if n is None:
            return st
        t = type(n)
        if t in (ast.Lambda,):
            for d in n.args.defaults:
                st = self.use(d, st)
            return st
        if t in (ast.GeneratorExp, ast.SetComp, ast.DictComp):
            return self.use(n.generators[0].iter, st)
        if t is ast.ListComp:
            st0 = st
            inner = st
            for c in n.generators:
                inner = self.use(c.iter, inner)
                inner = self.store(c.target, inner)
                for x in c.ifs:
                    inner = self.use(x, inner)
            inner = self.use(n.elt, inner)
            return (inner[0], st0[1] | (inner[1] & st0[1]))
        if t is ast.IfExp:
            st = self.use(n.test, st)
            return self.join(self.use(n.body, st), self.use(n.orelse, st))
        if t is ast.BoolOp:
            st = self.use(n.values[0], st)
            acc = st
            for v in n.values[1:]:
                st = self.use(v, st)
                acc = self.join(acc, st)
            return acc
        if t is ast.Name:
            if isinstance(n.ctx, ast.Store):
                return self.store(n, st)
            if n.id in self.locals:
                if n.id not in st[0]:
                    self.never.append((n, n.id))
                elif n.id not in st[1]:
                    self.some.append((n, n.id))
                if isinstance(n.ctx, ast.Del):
                    return (st[0] - {n.id}, st[1] - {n.id})
            return st
        for c in ast.iter_child_nodes(n):
            st = self.use(c, st)
        return st

    def store(self, t, st):
        if isinstance(t, ast.Name):
            return (st[0] | {t.id}, st[1] | {t.id})
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                st = self.store(e, st)
            return st
        return self.use(t, st)

    def stmt(self, n, st):
        if self.exc:
            self.exc[-1].append(st)
        t = type(n)
        if t in (ast.FunctionDef, ast.ClassDef):
            for d in n.decorator_list:
                st = self.use(d, st)
            if t is ast.FunctionDef:
                for d in n.args.defaults:
                    st = self.use(d, st)
            else:
                for d in n.bases:
                    st = self.use(d, st)
            return (st[0] | {n.name}, st[1] | {n.name})
        if t in (ast.Import, ast.ImportFrom):
            for a in n.names:
                nm = a.asname or a.name.split(".")[0]
                st = (st[0] | {nm}, st[1] | {nm})
            return st
        if t is ast.Assign:
            st = self.use(n.value, st)
            if self.stop(n.value):
                return None
            for x in n.targets:
                st = self.store(x, st)
            return st
        if t is ast.AugAssign:
            if isinstance(n.target, ast.Name):
                st = self.use(ast.copy_location(ast.Name(id=n.target.id, ctx=ast.Load()),
                                                n.target), st)
                st = self.use(n.value, st)
                return self.store(n.target, st)
            st = self.use(n.target, st)
            return self.use(n.value, st)
        if t is ast.If:
            st = self.use(n.test, st)
            a = self.block(n.body, st)
            b = self.block(n.orelse, st)
            out = self.join(a, b)
            if self.ifs and a is not None and b is not None:
                out = (out[0], a[1] | b[1])
            return out
        if t in (ast.For, ast.While):
            st = self.use(n.iter if t is ast.For else n.test, st)
            inner_names = stored_in(n.body) & self.locals
            if t is ast.For:
                inner_names |= stored_in([n.target]) & self.locals
            top = (st[0] | inner_names, st[1])
            # reads at the loop head of names assigned in the body only: 'some'
            self.breaks.append([])
            self.conts.append([])
            b0 = self.store(n.target, top) if t is ast.For else self.use(n.test, top)
            body = self.block(n.body, b0)
            endless = t is ast.While and isinstance(n.test, ast.Constant) and n.test.value
            head = self.join(st, body, *self.conts[-1])
            out = None if endless else head
            if out is not None and self.loops and body is not None:
                out = (out[0], out[1] | body[1])
            if out is not None and n.orelse:
                out = self.block(n.orelse, out)
            out = self.join(out, *self.breaks[-1])
            self.breaks.pop()
            self.conts.pop()
            return out
        if t is ast.Break:
            if self.breaks:
                self.breaks[-1].append(st)
            return None
        if t is ast.Continue:
            if self.conts:
                self.conts[-1].append(st)
            return None
        if t in (ast.Return, ast.Raise):
            for c in ast.iter_child_nodes(n):
                st = self.use(c, st)
            if self.exc:
                self.exc[-1].append(st)
            return None
        if t is ast.Try:
            self.exc.append([st])
            body = self.block(n.body, st)
            if body is not None:
                self.exc[-1].append(body)
            raised = self.join(*self.exc.pop())
            if n.handlers:
                outs = []
                if body is not None:
                    body = self.block(n.orelse, body)
                for h in n.handlers:
                    hs = raised
                    hs = self.use(h.type, hs) if h.type is not None else hs
                    if h.name:
                        hs = (hs[0] | {h.name}, hs[1] | {h.name})
                    outs.append(self.block(h.body, hs))
                out = self.join(body, *outs)
            else:
                out = body
            if n.finalbody:
                fin = self.join(out, raised)
                self.block(n.finalbody, fin)        # also after an exception
                if out is None:
                    return None
                k1, k2 = len(self.never), len(self.some)
                out = self.block(n.finalbody, out)
                del self.never[k1:]
                del self.some[k2:]
            return out
        if t is ast.With:
            for i in n.items:
                st = self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.store(i.optional_vars, st)
            return self.block(n.body, st)
        if t is ast.Delete:
            for x in n.targets:
                st = self.use(x, st)
            return st
        if t in (ast.Expr, ast.Assign) and self.stop(n.value):
            self.use(n.value, st)
            return None
        for c in ast.iter_child_nodes(n):
            st = self.use(c, st)
        return st


def is_exit(e):
    return isinstance(e, ast.Call) and (
        isinstance(e.func, ast.Name) and e.func.id in ("exit", "quit") or
        isinstance(e.func, ast.Attribute) and e.func.attr == "exit" and
        isinstance(e.func.value, ast.Name) and e.func.value.id == "sys" or
        isinstance(e.func, ast.Attribute) and e.func.attr == "error" and
        isinstance(e.func.value, ast.Name) and "parser" in e.func.value.id)


def stored_in(body):
    out = set()
    for n in own_walk(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])
    return out


# -- format strings -----------------------------------------------------------------

CONV = re.compile(r"%(\((?P<key>[^)]*)\))?[#0\- +]*(?P<w>\*|\d+)?(\.(?P<p>\*|\d+))?[hlL]?(?P<c>.)",
                  re.S)


def format_needs(s):
    """-> ("pos", n) | ("keys", set) | None when malformed/unknown"""
    n, keys = 0, set()
    for m in CONV.finditer(s):
        c = m.group("c")
        if c == "%":
            continue
        if c not in "diouxXeEfFgGcrs":
            return None
        if m.group("key") is not None:
            keys.add(m.group("key"))
        else:
            n += 1 + (m.group("w") == "*") + (m.group("p") == "*")
    if keys and n:
        return None
    return ("keys", keys) if keys else ("pos", n)


# -- functions that never return normally ---------------------------------------------

def noreturn(names):
    """functions every path of which ends in raise or sys.exit"""
    prog = names.prog
    done = set()
    while True:
        more = set()
        for b in names.mods.values():
            for s in b.all:
                if s.kind != "function" or s.node in done:
                    continue
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_walk(s.node.body)):
                    continue
                if falls(s.node.body, lambda e: never_returns(names, s, e, done)) is False \
                        and all(never_returns(names, s, x.value, done)
                                for x in own_walk(s.node.body) if isinstance(x, ast.Return)):
                    more.add(s.node)
        if not more:
            return done
        done |= more


def never_returns(names, s, e, done):
    if is_exit(e):
        return True
    if not isinstance(e, ast.Call):
        return False
    f = callee(names, s, e)
    return f is not None and f.node in done


def callee(names, s, call):
    """the function a call runs, when that is certain"""
    f = call.func
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and (
            f.value.id == "self" or is_self(s, f.value.id)):
        c = enclosing_class(names, s)
        if c is None:
            return None
        l = names.prog.lookup(c, f.attr)
        if l is None or l[0] == "ext" or not isinstance(l[1], Func):
            return None
        for d in names.prog.subclasses.get(c.qual, []):
            if names.prog.lookup(d, f.attr) != l:
                return None
        return l[1]
    r = names.resolve(s, f)
    return r if isinstance(r, Func) else None


def is_self(s, nm):
    """a local name that only ever stands for self"""
    if s.kind != "function" or nm in s.params or nm not in s.names:
        return False
    stores = [x for x in own_walk(s.node.body) if isinstance(x, ast.Name) and x.id == nm and
              not isinstance(x.ctx, ast.Load)]
    ok = [x for x in own_walk(s.node.body) if isinstance(x, ast.Assign) and
          isinstance(x.value, ast.Name) and x.value.id == "self" and
          any(t in stores for t in x.targets)]
    return bool(ok) and len(ok) == len(stores)


def enclosing_class(names, s):
    while s is not None and s.kind != "function":
        s = s.parent
    while s is not None and s.parent is not None and s.parent.kind != "class":
        s = s.parent
    if s is None or s.parent is None or "self" not in s.params[:1]:
        return None
    c = s.mod.classes.get(s.parent.node.name)
    return c if c is not None and c.node is s.parent.node else None


def falls(body, stop):
    """can control run off the end of the statements?"""
    for st in body:
        t = type(st)
        if t in (ast.Return, ast.Raise, ast.Break, ast.Continue):
            return False
        if t in (ast.Expr, ast.Assign) and stop(st.value):
            return False
        if t is ast.If and st.orelse and not falls(st.body, stop) and \
                not falls(st.orelse, stop):
            return False
        if t is ast.While and isinstance(st.test, ast.Constant) and st.test.value and \
                not any(isinstance(x, ast.Break) for x in own_walk(st.body)):
            return False
        if t is ast.Try:
            if st.finalbody and not falls(st.finalbody, stop):
                return False
            if not falls(st.body, stop) and all(not falls(h.body, stop) for h in st.handlers):
                return False
        if t is ast.With and not falls(st.body, stop):
            return False
    return True
