"""What a function may modify: origins of values, followed through assignments,
containers, calls and returns.

A value has the objects it may be (own) and the objects reachable in it (inner).
Origins: ("p", name) a parameter; ("g", name) a module-level or class-level table;
("f", attr) the object in an attribute of self; ("v",) anything new is the empty set.
"""
import ast

from .model import Func, Cls, Mod
from .names import own_walk, callee, enclosing_class, find, ext_entry, MODS

E = frozenset()
MUTATORS = {"append", "extend", "insert", "sort", "reverse", "remove", "pop", "add", "discard",
            "update", "clear", "setdefault", "popitem", "set", "difference_update",
            "intersection_update", "symmetric_difference_update", "appendleft", "popleft",
            "add_node", "add_edge", "add_nodes_from", "add_edges_from", "remove_node",
            "remove_edge", "remove_nodes_from", "remove_edges_from", "delete_node",
            "delete_edge", "__setitem__", "__delitem__"}
INNER = {"get", "setdefault", "pop", "next", "find", "getroot", "popitem", "__getitem__",
         "getiterator", "iter"}
SPREAD = {"values", "items", "keys", "itervalues", "iteritems", "iterkeys", "getchildren",
          "findall", "nodes", "edges", "nodes_iter", "edges_iter", "copy", "union",
          "intersection", "difference"}
FRESH_KINDS = {"list": "list", "dict": "dict", "set": "set", "sorted": "list", "tuple": "tuple",
               "frozenset": "set", "range": "list", "map": "list", "filter": "list",
               "zip": "list", "str": "str", "unicode": "str", "int": "num", "float": "num",
               "len": "num", "repr": "str", "sum": "num", "abs": "num", "round": "num",
               "reversed": None, "enumerate": None, "iter": None, "bool": "num"}


class Val:
    """own: the objects that the value may be; inner: those reachable in it; elem: what is
    known of its items, where the container was built here"""
    __slots__ = ("own", "inner", "kind", "elem")

    def __init__(self, own=E, inner=E, kind=None, elem=None):
        self.own, self.inner, self.kind = frozenset(own), frozenset(inner), kind
        if elem is not None and depth(elem) > 3:
            elem = None
        self.elem = elem

    def __or__(self, o):
        if o is None or o is self:
            return self
        elem = None
        if self.elem is not None or o.elem is not None:
            elem = part(self) | part(o)
        return Val(self.own | o.own, self.inner | o.inner,
                   self.kind if self.kind == o.kind else None, elem)

    def key(self):
        return (self.own, self.inner, self.kind, self.elem)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Val) and self.key() == o.key()

    def __repr__(self):
        return "Val(%s, %s, %s)" % (set(self.own), set(self.inner), self.elem)


def depth(v):
    n = 0
    while v is not None:
        n, v = n + 1, v.elem
    return n


FRESH = Val()


def part(v):
    """an item of v"""
    return v.elem if v.elem is not None else Val(v.inner, v.inner)


def holding(kind, items, own=E):
    """a container of the given items"""
    elem = None
    inner = E
    for v in items:
        inner |= v.own | v.inner
        elem = v if elem is None else elem | v
    return Val(own, inner, kind, elem)


class Alias:
    def new_field(self, name):
        """a private field that the pinned classes do not have"""
        return name.startswith("_") and name not in self.known_fields

    def __init__(self, names):
        self.N = names
        self.prog = names.prog
        self.known_fields = self.prog.known_fields
        self.scope = {}
        for b in names.mods.values():
            for s in b.all:
                if s.kind == "function":
                    self.scope[s.node] = s
        self.fn = {f.node: f for f in self.prog.functions()}
        self.summ = {}              # node -> (mutated {origin: (loc, why)}, returned Val)
        self.fields = {}            # (class, attr) -> origins stored in it
        self.fmut = {}              # (class, attr) -> location of an in-place change
        self.tables = {}
        self.assigned = {}          # (class, attr) assigned through self
        self.byname = {}
        for m in self.prog.own_mods():
            for c in m.classes.values():
                for n, x in c.members.items():
                    if isinstance(x, Func):
                        self.byname.setdefault(n, []).append(x)
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                            isinstance(n.value, ast.Name) and n.value.id == "self":
                        self.assigned.setdefault(n.attr, set()).add(c.qual)
        for i in range(6):
            before = {k: (set(m), (r.own, r.inner)) for k, (m, r) in self.summ.items()}
            for node, s in self.scope.items():
                if node in self.fn or True:
                    f = Flow(self, s)
                    self.summ[node] = (f.mut, f.ret)
            after = {k: (set(m), (r.own, r.inner)) for k, (m, r) in self.summ.items()}
            if before == after:
                break
        self.rounds = i + 1

    def mutable_table(self, mod, name):
        k = (mod.name, name)
        if k not in self.tables:
            self.tables[k] = any(
                mutable_expr(n.value) for n in mod.tree.body if isinstance(n, ast.Assign) and
                any(isinstance(t, ast.Name) and t.id == name for t in n.targets))
        return self.tables[k]

    def summary(self, node):
        return self.summ.get(node, ({}, FRESH))


def default_of(node):
    """parameter -> default expression"""
    a = node.args
    out = {}
    for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
        out[x.arg] = d
    return out


def mutable_expr(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp)) or \
        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in (
            "list", "dict", "set", "OrderedDict", "defaultdict", "Counter")


class Flow:
    def __init__(self, A, s):
        self.A, self.s = A, s
        self.N = A.N
        self.mut = {}
        self.ret = FRESH
        self.cls = enclosing_class(self.N, s)
        env = {}
        for p in s.params:
            env[p] = Val({("p", p)}, {("p", p)})
        a = s.node.args
        if a.vararg:
            env[a.vararg.arg] = Val(E, {("p", a.vararg.arg)}, "tuple")
        if a.kwarg:
            env[a.kwarg.arg] = Val(E, {("p", a.kwarg.arg)}, "dict")
        self.selfname = s.params[0] if self.cls is not None and s.params else None
        self.block(s.node.body, env)

    # -- effects --------------------------------------------------------------------
    def hit(self, v, n, why):
        for o in v.own:
            if o[0] == "f" and self.A.new_field(o[1]):
                continue            # a cache: no state that anybody knows of
            self.mut.setdefault(o, (getattr(n, "lineno", 0), why))
            if o[0] == "f" and self.cls is not None:
                self.A.fmut.setdefault((self.cls.qual, o[1]), (self.s, n, why))

    def store_field(self, attr, v):
        if self.cls is not None:
            k = (self.cls.qual, attr)
            extra = set()
            for o in v.own:
                if o[0] == "g":
                    extra.add(o)
                elif o[0] == "p":
                    extra.add(("p", self.s.label, o[1]))
            self.A.fields.setdefault(k, set()).update(extra)

    # -- expressions -----------------------------------------------------------------
    def ev(self, e, env):
        t = type(e)
        if e is None or t is ast.Constant:
            return Val(kind="str" if t is ast.Constant and isinstance(e.value, (str, bytes))
                       else "num" if t is ast.Constant and e.value is not None else None)
        m = getattr(self, "e_" + t.__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return FRESH

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        b = find(self.s, e.id)
        if b is not None and b.kind == "module" or b is None:
            return self.table(self.N.resolve(self.s, e), e)
        return FRESH

    def table(self, r, e):
        """module-level data"""
        if isinstance(e, ast.Name):
            r = self.A.prog.module_attr(self.s.mod.name, e.id)
        if isinstance(r, tuple) and r[0] == "var" and self.A.mutable_table(r[1], r[2]):
            o = ("g", r[1].name + "." + r[2])
            return Val({o}, {o})
        return FRESH

    def e_Attribute(self, e, env):
        if isinstance(e.value, ast.Name) and e.value.id not in env:
            r = self.N.resolve(self.s, e.value)
            if isinstance(r, Mod):
                x = self.A.prog.module_attr(r.name, e.attr)
                return self.table(x, e)
            if isinstance(r, Cls):
                return self.classvar(r, e.attr)
        v = self.ev(e.value, env)
        if isinstance(e.value, ast.Name) and e.value.id == self.selfname and \
                ("p", self.selfname) in v.own:
            o = ("f", e.attr)
            if self.cls is not None:
                c = self.classvar(self.cls, e.attr)
                if c.own:
                    return c
            x = env.get("." + e.attr, FRESH)      # what this call has put there
            return Val({o} | x.own, {o, ("p", self.selfname)} | x.inner)
        return part(v)

    def classvar(self, c, attr):
        l = self.A.prog.lookup(c, attr)
        if l is not None and l[0] != "ext" and not isinstance(l[1], (Func, Cls)) and \
                isinstance(l[1], ast.expr):
            fam = {l[0].qual} | {d.qual for d in self.A.prog.subclasses.get(l[0].qual, [])}
            if not (self.A.assigned.get(attr, set()) & fam) and mutable_expr(l[1]):
                o = ("g", l[0].qual + "." + attr)
                return Val({o}, {o})
        return FRESH

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        self.ev(e.slice, env)
        if isinstance(e.slice, ast.Slice):
            return Val(E, v.inner, v.kind, v.elem)
        return part(v)

    def e_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env)
        return FRESH

    def seq(self, e, env, kind):
        return holding(kind, [part(self.ev(x.value, env)) if isinstance(x, ast.Starred)
                              else self.ev(x, env) for x in e.elts])

    def e_List(self, e, env):
        return self.seq(e, env, "list")

    def e_Tuple(self, e, env):
        return self.seq(e, env, "tuple")

    def e_Set(self, e, env):
        return self.seq(e, env, "set")

    def e_Dict(self, e, env):
        return holding("dict", [self.ev(x, env) for x in e.values])

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def comp(self, e, env, elts, kind):
        env = dict(env)
        for c in e.generators:
            self.bind(c.target, part(self.ev(c.iter, env)), env)
            for x in c.ifs:
                self.ev(x, env)
        return holding(kind, [self.ev(x, env) for x in elts])

    def e_ListComp(self, e, env):
        return self.comp(e, env, [e.elt], "list")

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, [e.elt], None)

    def e_SetComp(self, e, env):
        return self.comp(e, env, [e.elt], "set")

    def e_DictComp(self, e, env):
        return self.comp(e, env, [e.value], "dict")

    def e_Lambda(self, e, env):
        return FRESH

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            w = self.ev(x, env)
            v = w if v is None else v | w
        return v

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub)):
            k = a.kind or b.kind
            if a.elem is not None or b.elem is not None:
                return holding(k, [part(a), part(b)])
            return Val(E, a.inner | b.inner, k)
        if isinstance(e.op, ast.Mod):
            return Val(kind="str")
        return Val(E, a.inner | b.inner if isinstance(e.op, ast.Mult) else E,
                   a.kind or b.kind)

    def e_Yield(self, e, env):
        if e.value is not None:
            v = self.ev(e.value, env)
            self.ret = self.ret | Val(E, v.own | v.inner)
        return FRESH

    def e_Call(self, e, env):
        f = e.func
        if self.selfname and any(isinstance(x, ast.Name) and x.id == self.selfname
                                 for x in list(e.args) + [k.value for k in e.keywords] +
                                 ([f.value] if isinstance(f, ast.Attribute) else [f])):
            # may put something else in the attributes
            for k in [k for k in env if k[0] == "."]:
                del env[k]
        args = [(None, self.ev(a, env), isinstance(a, ast.Starred)) for a in e.args]
        kws = [(k.arg, self.ev(k.value, env), False) for k in e.keywords]
        r = None
        if not (isinstance(f, ast.Name) and f.id in env) and not (
                isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and
                f.value.id in env):
            r = self.N.resolve(self.s, f)
        if isinstance(r, Func):
            off = None
            if r.cls is not None and not r.static and not r.classm:
                return self.apply([r], None, args, kws, e)      # explicit object
            return self.apply([r], "skip" if r.classm else None, args, kws, e)
        if isinstance(r, Cls):
            l = self.A.prog.lookup(r, "__init__")
            inner = E
            for _, v, _s in args + kws:
                inner |= v.own | v.inner
            if l is not None and l[0] != "ext" and isinstance(l[1], Func):
                self.apply([l[1]], Val(), args, kws, e)
            return FRESH
        if isinstance(r, tuple) and r[0] == "ext":
            return self.builtin(r[1].split(".", 1)[1] if r[1].startswith("__builtin__.")
                                else r[1], args, kws, e)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and \
                    f.value.func.id == "super":
                recv = env.get(self.selfname, FRESH) if self.selfname else FRESH
                recv = Val({("p", self.selfname)}, recv.inner) if self.selfname else FRESH
                if f.attr in MUTATORS:
                    self.hit(recv, e, f.attr)
                return part(recv)
            recv = self.ev(f.value, env)
            return self.method(e, f.attr, recv, args, kws, f.value, env)
        self.ev(f, env)
        return FRESH

    def builtin(self, n, args, kws, e):
        vs = [v for _, v, _s in args] + [v for _, v, _s in kws]
        inner = E
        for v in vs:
            inner |= v.inner
        if n in ("list", "tuple", "sorted", "set", "frozenset", "reversed", "iter") and \
                vs and vs[0].elem is not None:
            return Val(E, inner, FRESH_KINDS[n], vs[0].elem)
        last = n.split(".")[-1]
        if last in ("enumerate", "zip", "izip"):
            return holding("list", [holding("tuple", ([FRESH] if last == "enumerate" else []) +
                                            [part(v) for v in vs[:1 if last == "enumerate"
                                                                 else None]])])
        if n in ("map", "itertools.imap") and e.args:
            g = self.N.resolve(self.s, e.args[0])
            if isinstance(g, tuple) and g[0] == "ext":
                g = g[1].split(".")[-1]
                if g in FRESH_KINDS:
                    items = [part(v) for v in vs[1:]]
                    return holding("list", [Val(E, frozenset().union(
                        *[i.inner for i in items]) if items else E, FRESH_KINDS[g],
                        items[0].elem if items else None)])
        if n in FRESH_KINDS:
            return Val(E, inner if FRESH_KINDS[n] not in ("str", "num") else E, FRESH_KINDS[n])
        if n == "copy.copy":
            return Val(E, inner, None, vs[0].elem if vs else None)
        if n in ("min", "max", "next", "getattr", "reduce"):
            own = E
            for v in vs:
                own |= v.inner
            return Val(own, own)
        if n in ("setattr", "delattr") and vs:
            self.hit(vs[0], e, n)
        if n in ("random.shuffle", "heapq.heapify", "heapq.heappush", "heapq.heappop",
                 "bisect.insort") and vs:
            self.hit(vs[0], e, n)
        if n.split(".")[-1] in ("izip", "chain", "islice", "groupby", "product", "combinations",
                                "permutations", "OrderedDict", "Counter", "defaultdict",
                                "deque", "ifilter", "imap"):
            return Val(E, inner)
        # unbound methods of built-in types: list.append(x, ..)
        p = n.split(".")
        if len(p) == 2 and p[0] in ("list", "dict", "set") and vs and p[1] in MUTATORS | {
                "__setitem__", "__delitem__", "__iadd__", "__setslice__", "__delslice__"}:
            self.hit(vs[0], e, n)
        return FRESH

    def apply(self, cands, recv, args, kws, e):
        """the effect of calling any of the candidates; only what all of them modify
        counts, what any of them returns may be returned"""
        ret = None
        hits = None
        for f in cands:
            mut, rv = self.A.summary(f.node)
            names = [x.arg for x in f.node.args.args]
            m = {}
            if recv is not None and names:
                if recv != "skip":
                    m[names[0]] = recv
                names = names[1:]
            pos = [v for _, v, st in args if not st]
            for nm, v in zip(names, pos):
                m[nm] = v
            for k, v, _ in kws:
                if k in names:
                    m[k] = v
            if f.node.args.vararg:
                rest = pos[len(names):]
                iv = E
                for v in rest:
                    iv |= v.own | v.inner
                m[f.node.args.vararg.arg] = Val(E, iv)
            here = set()
            for o in mut:
                if o[0] == "p" and o[1] in m:
                    here |= {(x, o[1]) for x in m[o[1]].own}
                elif o[0] == "f" and recv not in (None, "skip"):
                    here |= {(x, "self") for x in recv.own}
            hits = here if hits is None else hits & here
            own = inner = E
            for os_, tgt in ((rv.own, "own"), (rv.inner, "inner")):
                acc = E
                for o in os_:
                    if o[0] == "p" and o[1] in m:
                        acc |= m[o[1]].own if tgt == "own" else m[o[1]].own | m[o[1]].inner
                    elif o[0] == "g":
                        acc |= {o}
                    elif o[0] == "f" and recv not in (None, "skip"):
                        acc |= recv.inner
                        if recv.own == {("p", self.selfname)}:
                            acc |= {o}
                if tgt == "own":
                    own = acc
                else:
                    inner = acc
            v = Val(own, inner, rv.kind)
            ret = v if ret is None else ret | v
        if hits:
            for o, p in hits:
                self.hit(Val({o}), e, "%s() modifies its argument %s" % (cands[0].name, p)
                         if p != "self" else "%s() modifies its object" % cands[0].name)
        return ret or FRESH

    def method(self, e, name, recv, args, kws, rexpr, env):
        A = self.A
        if name in MUTATORS and recv.kind not in ("str", "num", "tuple"):
            if recv.own:
                self.hit(recv, e, "%s()" % name)
            if name in ("append", "add", "insert", "setdefault", "set", "extend", "update",
                        "appendleft") and isinstance(rexpr, ast.Name) and rexpr.id in env:
                new = [part(v) if name in ("extend", "update") else v
                       for _, v, _s in args + kws]
                inner = E
                for v in new:
                    inner |= v.own | v.inner
                elem = None
                if not recv.inner or recv.elem is not None:
                    h = holding(None, new)
                    elem = h.elem if recv.elem is None else recv.elem | h.elem
                env[rexpr.id] = Val(recv.own, recv.inner | inner, recv.kind, elem)
                recv = env[rexpr.id]
        cands = None
        if isinstance(rexpr, ast.Name) and rexpr.id == self.selfname and self.cls is not None:
            cands = []
            for d in [self.cls] + list(A.prog.subclasses.get(self.cls.qual, [])):
                l = A.prog.lookup(d, name)
                if l is not None and l[0] != "ext" and isinstance(l[1], Func) and \
                        l[1] not in cands:
                    cands.append(l[1])
        elif name in A.byname and (name not in self.N.lib or recv.kind is None and
                                   name not in MUTATORS | INNER | SPREAD):
            cands = A.byname[name]
        if cands:
            cands = [c for c in cands if not c.static] or cands
            r = self.apply(cands, recv if not cands[0].static else "skip", args, kws, e)
            return r
        if name in INNER:
            v = part(recv)
            for _, x, _s in args[1:]:
                v = v | x
            return v
        if name in SPREAD:
            if name in ("items", "iteritems") and recv.elem is not None:
                return holding("list", [holding("tuple", [FRESH, recv.elem])])
            return Val(E, recv.inner, "list" if name != "copy" else recv.kind,
                       recv.elem if name in ("copy", "values", "itervalues") else None)
        if name in ("split", "splitlines", "rsplit"):
            return Val(kind="list")
        if name in ("join", "strip", "lower", "upper", "format", "replace", "encode", "decode"):
            return Val(kind="str")
        return FRESH

    # -- statements -----------------------------------------------------------------
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, part(v), env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            if isinstance(t.value, ast.Name) and t.value.id == self.selfname and \
                    ("p", self.selfname) in b.own:
                self.store_field(t.attr, v)
                env["." + t.attr] = v
                if not self.A.new_field(t.attr):
                    self.mut.setdefault(("p", self.selfname),
                                        (t.lineno, "assigns ." + t.attr))
            elif self.A.new_field(t.attr):
                pass
            else:
                self.hit(b, t, "assigns .%s" % t.attr)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.hit(b, t, "assigns an item")
            if isinstance(t.value, ast.Name) and t.value.id in env:
                elem = None
                if not b.inner or b.elem is not None:
                    elem = v if b.elem is None else b.elem | v
                env[t.value.id] = Val(b.own, b.inner | v.own | v.inner, b.kind, elem)

    def join(self, *envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = v | out[k] if k in out else v
        return out

    def block(self, body, env):
        for st in body:
            if env is None:
                return None
            env = self.stmt(st, env)
        return env

    def stmt(self, n, env):
        t = type(n)
        if t is ast.Assign:
            if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and \
                    isinstance(n.value, (ast.Tuple, ast.List)) and \
                    len(n.value.elts) == len(n.targets[0].elts):
                vs = [self.ev(x, env) for x in n.value.elts]
                for x, v in zip(n.targets[0].elts, vs):
                    self.bind(x, v, env)
                return env
            v = self.ev(n.value, env)
            for x in n.targets:
                self.bind(x, v, env)
            return env
        if t is ast.AugAssign:
            v = self.ev(n.value, env)
            if isinstance(n.target, ast.Name):
                b = self.ev(n.target, env)
                mutable = v.kind in ("list", "dict", "set") or b.kind in ("list", "dict", "set")
                if mutable and isinstance(n.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub,
                                                 ast.Mult)):
                    self.hit(b, n, "is changed in place")
                    env[n.target.id] = Val(b.own, b.inner | v.inner, b.kind, (
                        part(b) | part(v)) if b.elem is not None else None)
                else:
                    env[n.target.id] = Val(E, b.inner | v.inner, b.kind or v.kind)
            elif isinstance(n.target, ast.Attribute):
                b = self.ev(n.target.value, env)
                if v.kind in ("list", "dict", "set"):
                    self.hit(self.ev(n.target, env), n, "is changed in place")
                if isinstance(n.target.value, ast.Name) and \
                        n.target.value.id == self.selfname:
                    if not self.A.new_field(n.target.attr):
                        self.mut.setdefault(("p", self.selfname), (n.lineno, "assigns"))
                else:
                    self.hit(b, n, "assigns .%s" % n.target.attr)
            else:
                b = self.ev(n.target.value, env)
                self.hit(b, n, "assigns an item")
            return env
        if t is ast.Delete:
            for x in n.targets:
                if isinstance(x, ast.Name):
                    env.pop(x.id, None)
                elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                        x.value.id == self.selfname:
                    self.mut.setdefault(("p", self.selfname), (n.lineno, "deletes"))
                elif isinstance(x, (ast.Subscript, ast.Attribute)):
                    self.hit(self.ev(x.value, env), n, "loses an item")
            return env
        if t is ast.Return:
            if n.value is not None:
                self.ret = self.ret | self.ev(n.value, env) if self.ret is not FRESH else \
                    self.ev(n.value, env)
            return None
        if t is ast.Raise:
            if n.exc is not None:
                self.ev(n.exc, env)
            return None
        if t in (ast.Break, ast.Continue):
            if self.jumps:
                self.jumps[-1].append(dict(env))
            return None
        if t is ast.If:
            self.ev(n.test, env)
            a, b = dict(env), dict(env)
            self.narrow(n.test, True, a)
            self.narrow(n.test, False, b)
            return self.join(self.block(n.body, a), self.block(n.orelse, b))
        if t in (ast.For, ast.While):
            it = self.ev(n.iter if t is ast.For else n.test, env)
            cur = env
            self.jumps.append([])
            for _ in range(2):
                e = dict(cur)
                if t is ast.For:
                    it = self.ev(n.iter, e)
                    self.bind(n.target, part(it), e)
                out = self.block(n.body, e)
                cur = self.join(cur, out, *self.jumps[-1])
            self.jumps.pop()
            if n.orelse:
                return self.block(n.orelse, cur)
            return cur
        if t is ast.Try:
            before = dict(env)
            body = self.block(n.body, dict(env))
            # a handler may start anywhere in the body
            start = self.join(before, body)
            out = body
            if n.orelse and body is not None:
                out = self.block(n.orelse, dict(body))
            outs = [out]
            for h in n.handlers:
                e = dict(start)
                if h.name:
                    e[h.name] = FRESH
                outs.append(self.block(h.body, e))
            res = self.join(*outs)
            if n.finalbody:
                if res is None:
                    self.block(n.finalbody, dict(start))
                    return None
                return self.block(n.finalbody, res)
            return res
        if t is ast.With:
            for i in n.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            return self.block(n.body, env)
        if t in (ast.FunctionDef, ast.ClassDef):
            env.pop(n.name, None)
            return env
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return env

    jumps = None

    def narrow(self, t, val, env):
        """tests after which a variable holds nothing that can be modified"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(t.operand, not val, env)
        if isinstance(t, ast.BoolOp) and (isinstance(t.op, ast.And) and val or
                                          isinstance(t.op, ast.Or) and not val):
            for v in t.values:
                self.narrow(v, val, env)
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and \
                t.comparators[0].value is None:
            if isinstance(t.ops[0], (ast.Is, ast.Eq)) == val and t.left.id in env:
                env[t.left.id] = FRESH
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and \
                t.func.id == "isinstance" and val and len(t.args) == 2 and isinstance(
                    t.args[0], ast.Name) and t.args[0].id in env:
            ns = {x.id for x in ast.walk(t.args[1]) if isinstance(x, ast.Name)}
            if ns and ns <= {"str", "unicode", "basestring", "int", "float", "long", "tuple"}:
                env[t.args[0].id] = Val(kind="str" if ns <= {"str", "unicode", "basestring"}
                                        else "num" if ns <= {"int", "float", "long"}
                                        else "tuple")


_init = Flow.__init__


def __init__(self, A, s):
    self.jumps = []
    _init(self, A, s)


Flow.__init__ = __init__
