"""More built-in functions, container/string methods, library calls."""
import sys
import ast
import math

from .model import Func, Cls, ORDERED
from .state import (Ty, assume, truth_atom, lt, zero_formula, seq_truth, entails)
from .binders import sorted_of, member
from .terms import (REBUILD, mkslice, T, mk, C, NONE, TRUE, FALSE, EMPTY, isc, isnum, isstr,
                    f_not, f_and, f_or, eq, kind, add, mul, neg, subst, ratio)
from .util import STR_METHODS, map_tree
from .nxmodel import Networkx
from .containers import Containers, DICT_ONLY


BUILTINS = {"list": list, "dict": dict, "set": set, "str": str}
PURE_METHODS = set("""get keys values items copy getroot strftime isoformat
nodes edges successors predecessors has_node has_edge""".split())


class Methods(Containers, Networkx):
    # -- aggregates ------------------------------------------------------------------
    def b_sorted(self, args, kw, st, n):
        extra = [mk("kw", k, self.freeze(v, st)) for k, v in sorted(kw.items())
                 if not (k == "reverse" and v is FALSE)]
        extra += [self.freeze(a, st) for a in args[1:]]
        out = []
        for s, l in self.b_list([args[0]], {}, st, n):
            if self.content(l, s) is EMPTY:
                out += self.fresh_list([], s)
                continue
            out.append((s, sorted_of(self.freeze(l, s), *extra)))
        return out

    def b_sum(self, args, kw, st, n):
        from .binders import sum_parts
        start = args[1] if len(args) > 1 else C(0)
        out = []
        for s, l in self.b_list([args[0]], {}, st, n):
            c = self.freeze_content(self.content(l, s), s)
            if c.op == "seq":
                v = sum_parts(c, self.depth, lambda x: x, self)
                if v is not None:
                    out.append((s, add(start, v)))
                    continue
            out.append((s, mk("sumof", self.freeze(l, s), start)))
        return out

    def minmax(self, name, args, kw, st, n):
        if "key" in kw:
            return None
        if len(args) > 1:
            fa = [self.freeze(a, st) for a in args]
            return [(st, self.mm(name, fa))]
        its = self.items_of(args[0], st)
        if its:
            return [(st, self.mm(name, [self.freeze(x, st) for x in its]))]
        out = []
        for s, l in self.b_list([args[0]], {}, st, n):
            f = self.freeze(l, s)
            for s2 in self.may_raise(s, "ValueError", f_not(truth_atom(f)), n):
                out.append((s2, mk(name, f) if f.op == "list" else mk(name, mk("list", mk("splice", f)))))
        return out

    def mm(self, name, fa):
        flat = []
        for x in fa:
            for y in (x.args if x.op == name and not (len(x.args) == 1) else (x,)):
                if y not in flat:
                    flat.append(y)
        if all(isnum(x) for x in flat):
            return C({"max": max, "min": min}[name](x.args[0] for x in flat))
        return flat[0] if len(flat) == 1 else REBUILD[name](*flat)

    def b_max(self, args, kw, st, n):
        return self.minmax("max", args, kw, st, n)

    def b_min(self, args, kw, st, n):
        return self.minmax("min", args, kw, st, n)

    def quant(self, args, st, n, want):
        """any (want=True) / all (want=False) as search loops"""
        t = ast.Name(id=".q", ctx=ast.Store())
        ast.copy_location(t, n)
        fr = self.fr()
        saved = fr.locals
        fr.locals = set(saved) | {".q"}

        def body(s):
            out = []
            for s2, b in self.truth_states(s.env[".q"], s, n):
                out.append(("break" if b == want else "fall", s2, None, None))
            return out
        try:
            res = self.for_loop(t, args[0], body, st, n, comp=True, raw=True)
        finally:
            fr.locals = saved
        out = []
        for k, s, v, l in res:
            s = s.clone()
            s.env.pop(".q", None)
            out.append((s, TRUE if (k == "break") == want else FALSE))
        return out

    def b_any(self, args, kw, st, n):
        return self.quant(args, st, n, True)

    def b_all(self, args, kw, st, n):
        return self.quant(args, st, n, False)

    def b_map(self, args, kw, st, n):
        if len(args) != 2:
            return None
        return self.mapfilter(args[0], args[1], st, n, False)

    def b_filter(self, args, kw, st, n):
        return self.mapfilter(args[0], args[1], st, n, True)

    def mapfilter(self, f, src, st, n, filt):
        o = self.new("list")
        st = st.clone()
        st.content[o] = EMPTY
        t = ast.Name(id=".m", ctx=ast.Store())
        ast.copy_location(t, n)
        fr = self.fr()
        saved = fr.locals
        fr.locals = set(saved) | {".m"}

        def body(s):
            x = s.env[".m"]
            out = []
            res = [(s, x)] if f is NONE else self.apply(f, [x], {}, s, n)
            for s2, v in res:
                if filt:
                    for s3, b in self.truth_states(v, s2, n):
                        if b:
                            s3 = s3.clone()
                            c = self.content(o, s3)
                            s3.content[o] = mk("seq", *(c.args + (mk("item", x),)))
                        out.append(("fall", s3, None, None))
                else:
                    s2 = s2.clone()
                    c = self.content(o, s2)
                    s2.content[o] = mk("seq", *(c.args + (mk("item", v),)))
                    out.append(("fall", s2, None, None))
            return out
        try:
            res = self.for_loop(t, src, body, st, n, comp=True)
        finally:
            fr.locals = saved
        out = []
        for k, s, v, l in res:
            s = s.clone()
            s.env.pop(".m", None)
            out.append((s, o))
        return out

    def b_reduce(self, args, kw, st, n):
        its = self.items_of(args[1], st)
        if its is None:
            return None
        its = ([args[2]] if len(args) > 2 else []) + list(its)
        if not its:
            return None
        cur = [(st, its[0])]
        for x in its[1:]:
            cur = [r for s, a in cur for r in self.apply(args[0], [a, x], {}, s, n)]
        return cur

    # -- reflection ----------------------------------------------------------------------
    def b_isinstance(self, args, kw, st, n):
        x, k = args
        ks = list(k.args) if k.op == "tuple" else [k]
        names = []
        for c in ks:
            if c.op == "cls":
                names.append(c.args[0])
            elif c.op in ("builtin", "ext"):
                names.append({"unicode": "str", "basestring": "str",
                              "StringTypes": "str"}.get(c.args[0].split(".")[-1],
                                                        c.args[0]))
            else:
                names.append("?" + c.d)
        c = self.cls_of(x)
        fs = []
        for nm in sorted(set(names)):
            if x.op == "obj" or x.op == "inst" or c is not None and x.op != "param":
                if c is not None:
                    mro = [(b.qual if isinstance(b, Cls) else b) for b in c.mro]
                    if nm in mro:
                        fs.append(TRUE)
                        continue
                    if x.op in ("obj", "inst"):
                        continue
                elif isinstance(self.objcls.get(x), str) and "." not in nm and \
                        nm in ("list", "dict", "set", "str"):
                    fs.append(TRUE if self.objcls[x] == nm else FALSE)
                    continue
            if isc(x) or kind(x) in ("s", "i", "f", "b"):
                kd = kind(x)
                if nm in ("str", "int", "float", "list", "tuple", "dict", "long", "bool", "set"):
                    fs.append(TRUE if {"s": "str", "i": "int", "f": "float",
                                       "b": "bool"}.get(kd) == nm else FALSE)
                    continue
            if x.op == "tuple" and nm in ("tuple", "list", "str", "dict"):
                fs.append(TRUE if nm == "tuple" else FALSE)
                continue
            p = self.pytype(x)
            if p is not None and nm in ("str", "int", "float", "list", "tuple", "dict",
                                        "long", "bool", "set", "slice"):
                fs.append(TRUE if p == nm else FALSE)
                continue
            fs.append(mk("isinst", self.freeze(x, st), nm))
        return [(s, TRUE if b else FALSE) for s, b in self.split(f_or(*fs), st)]

    def b_hasattr(self, args, kw, st, n):
        x, a = args
        if isstr(a):
            if (x, a.args[0]) in st.attrs:
                return [(st, TRUE if st.attrs[(x, a.args[0])].op != "deleted" else FALSE)]
            c = self.cls_of(x)
            if c is not None and self.prog.lookup(c, a.args[0]) is not None:
                return [(st, TRUE)]
            if x.op == "obj" and c is not None:
                return [(st, FALSE)]
            kd = self.container_kind(x, st, None)
            if kd in BUILTINS and (kd == "str" or x.op in ("obj", "dictv", "list", "setv")):
                return [(st, TRUE if hasattr(BUILTINS[kd], a.args[0]) else FALSE)]
            if self.is_file(x):
                return [(st, TRUE if hasattr(sys.stdout, a.args[0]) else FALSE)]
        f = mk("hasattr", self.freeze(x, st), a)
        return [(s, TRUE if b else FALSE) for s, b in self.split(f, st)]

    def b_getattr(self, args, kw, st, n):
        if len(args) >= 2 and isstr(args[1]):
            if len(args) == 2:
                return self.getattr_(args[0], args[1].args[0], st, n)
            out = []
            for s, h in self.b_hasattr(args[:2], {}, st, n):
                if h is TRUE:
                    out.extend(self.getattr_(args[0], args[1].args[0], s, n))
                else:
                    out.append((s, args[2]))
            return out
        fa = [self.freeze(a, st) for a in args]
        if len(args) == 2:
            out = []
            for s in self.may_raise(st, "AttributeError",
                                    f_not(mk("hasattr", fa[0], fa[1])), n):
                out.append((s, mk("getattr", *fa)))
            return out
        return [(st, mk("getattr", *fa))]

    def b_setattr(self, args, kw, st, n):
        if isstr(args[1]):
            return [(s, NONE) for s in self.setattr_(args[0], args[1].args[0], args[2], st, n)]
        st = st.clone()
        st.event("setattr", (self.freeze(args[0], st), self.freeze(args[1], st),
                             self.freeze(args[2], st)), self.loc(n))
        return [(st, NONE)]

    def b_type(self, args, kw, st, n):
        c = self.cls_of(args[0])
        if c is not None:
            return [(st, mk("cls", c.qual))]
        p = self.pytype(args[0])
        if p:
            return [(st, mk("builtin", p))]
        return [(st, mk("typeof", self.freeze(args[0], st)))]

    def pytype(self, t):
        """name of the built-in type of a value, when known"""
        if isc(t):
            return {"NoneType": None}.get(type(t.args[0]).__name__, type(t.args[0]).__name__)
        if t.op in ("tuple", "tupof"):
            return "tuple"
        if t.op == "slice":
            return "slice"
        if t.op in ("list", "seq"):
            return "list"
        if t.op in ("concat", "fmt", "repeat"):
            return "str"
        ty = self.typeof(t)
        if ty is not None and ty.name in ("list", "tuple", "dict", "set", "str"):
            return ty.name
        return None

    def b_cmp(self, args, kw, st, n):
        a, b = [self.freeze(x, st) for x in args]
        if a.op == "neg_" :
            pass
        if b.d < a.d:
            return [(st, neg(mk("cmp", b, a)))]
        if a is b:
            return [(st, C(0))]
        return [(st, mk("cmp", a, b))]

    def b_slice(self, args, kw, st, n):
        if kw or not 1 <= len(args) <= 3:
            return None
        a = [self.freeze(x, st) for x in args]
        a = [NONE] + a if len(a) == 1 else a
        return [(st, mkslice(*(a + [NONE])[:3]))]

    def b_round(self, args, kw, st, n):
        return [(st, mk("round", *self.fz(args, kw, st)))]

    def b_open(self, args, kw, st, n):
        o = self.new("ext:file")
        st = st.clone()
        fa = self.fz(args, kw, st)
        st.event("open", (o,) + tuple(fa), self.loc(n) if n is not None else None)
        st.attrs[(o, "name")] = fa[0] if fa else NONE
        if len(fa) > 1:
            st.attrs[(o, ".mode")] = fa[1]
        out = []
        for s in self.may_raise(st, "IOError", mk("raises", "IOError", mk("open", *fa)), n):
            out.append((s, o))
        return out

    b_file = b_open

    # -- methods of unmodelled or built-in values -------------------------------------------
    def method(self, b, name, args, kw, st, n, base):
        """built-in method `name` on value b"""
        h = self.hooks.get("." + name)
        if h is not None:
            r = h(self, b, args, kw, st, n)
            if r is not None:
                return r
        if name != "__init__" and self.is_graph(b, base):
            r = self.nx_method(b, name, args, kw, st, n)
            if r is not None:
                return r
        if name == "next" and not args and not kw:
            r = self.first_of([b], st, n)
            if r is not None:
                return r
        kd = self.container_kind(b, st, base)
        if name == "__init__":
            if kd == "list" and len(args) == 1 and b.op == "obj":
                return [(s, NONE) for s, _ in self.fill_list(b, args[0], st, n)]
            if kd in ("list", "dict", "set") and not args and not kw:
                return [(st, NONE)]
            if base in ("object", None, "dict", "set") or base == ORDERED and not args:
                return [(st, NONE)]
            st = st.clone()
            st.event("call", (mk("extbound", base, name, b),) + tuple(self.fz(args, kw, st)),
                     self.loc(n) if n is not None else None)
            return [(st, NONE)]
        r = None
        if name in STR_METHODS and (kd is None or kd == "str"):
            return self.str_method(b, name, args, kw, st, n)
        if base == "list" and name.startswith("__") and not kw:
            r = self.list_special(b, name, args, st, n)
            if r is not None:
                return r
        if kd == "list" or (kd is None and name in ("append", "extend", "insert", "sort",
                                                     "reverse") and b.op != "ext"
                            and (self.typeof(b) is None or self.typeof(b).name == "list")):
            r = self.list_method(b, name, args, kw, st, n)
        elif kd == "dict" or (kd is None and name in DICT_ONLY and self.typeof(b) is None):
            r = self.dict_method(b, name, args, kw, st, n)
        elif kd == "set":
            r = self.set_method(b, name, args, kw, st, n)
        elif kd == "element":
            r = self.element_method(b, name, args, kw, st, n)
        elif kd == "file":
            r = self.file_method(b, name, args, kw, st, n)
        if r is None and name in ("__getitem__", "__getslice__") and not kw:
            i = args[0] if name == "__getitem__" else mkslice(args[0], args[1], NONE)
            return self.getitem0(b, i, st, n)
        if r is None and name == "__setitem__":
            return [(s, NONE) for s in self.setitem0(b, args[0], args[1], st, n)]
        if r is None and name == "__setslice__":
            return [(s, NONE) for s in self.setitem0(
                b, mkslice(args[0], args[1], NONE),
                args[2], st, n)]
        if r is None and name == "__setattr__" and isstr(args[0]):
            return [(s, NONE) for s in self.setattr_(b, args[0].args[0], args[1], st, n)]
        if r is None and name == "__eq__" or name == "__ne__":
            f = eq(mk("base", self.freeze(b, st)), mk("base", self.freeze(args[0], st)))
            return [(s, TRUE if x == (name == "__eq__") else FALSE)
                    for s, x in self.split(f, st)]
        if r is None and name == "__len__":
            return [(st, self.len_of(b, st))]
        if r is None and name == "__contains__":
            return [(s, TRUE if x else FALSE) for s, x in
                    self.split(member(self.freeze(args[0], st), self.freeze(b, st)), st)]
        if r is None and name == "getchildren" and not args and not kw and kd is None:
            return self.b_list([b], {}, st, n)       # only elements have it
        if r is not None:
            return r
        fb = self.freeze(b, st)
        f = mk("meth", fb, name)
        return self.opaque_call(f, args, kw, st, n, pure=name in PURE_METHODS)

    def list_special(self, b, name, args, st, n):
        """list.__op__(b, ...): the operation of the list type itself"""
        i = args[0] if args else None
        if name == "__add__" and len(args) == 1:
            return [self.plus(self.plain(b, st), i, st)]
        if name in ("__mul__", "__rmul__") and len(args) == 1:
            return self.binop(ast.Mult(), self.plain(b, st), i, st, n)
        if name == "__imul__" and len(args) == 1:
            out = []
            for s, v in self.binop(ast.Mult(), self.plain(b, st), i, st, n):
                s = s.clone()
                s.content[b] = self.content(v, s)
                self.changed(b, name, args, s, n)
                out.append((s, b))
            return out
        if name == "__iter__" and not args:
            return [(st, mk("iter", self.plain(b, st)))]
        if name == "__reversed__" and not args:
            return [(st, mk("reversed", self.freeze(b, st)))]
        if name == "__delitem__" and len(args) == 1:
            return [(s, NONE) for s in self.delitem0(b, i, st, n)]
        if name == "__delslice__" and len(args) == 2:
            return [(s, NONE) for s in self.delitem0(b, mkslice(i, args[1], NONE), st, n)]
        if name in ("__lt__", "__le__", "__gt__", "__ge__") and len(args) == 1:
            x, y = mk("base", self.freeze(b, st)), mk("base", self.freeze(i, st))
            if name in ("__gt__", "__ge__"):
                x, y = y, x
            a = mk("lt" if name in ("__lt__", "__gt__") else "le", x, y)
            return [(s, TRUE if v else FALSE) for s, v in self.split(a, st)]
        if name in ("__repr__", "__str__") and not args:
            return [(st, mk("baserepr", self.freeze(b, st)))]
        return None

    def plain(self, b, st):
        """the items of b as a plain list value"""
        c = self.content(b, st)
        return mk("list", *c.args) if c.op == "seq" else mk("list", mk("splice", b))

    def container_kind(self, b, st, base):
        if isstr(b):
            return "str"
        if b.op == "obj":
            c = self.objcls.get(b)
            if isinstance(c, str):
                if c in ("list", "dict", "set"):
                    return c
                if c == "ext:Element":
                    return "element"
                if c == "ext:file":
                    return "file"
                return c
        if base in ("list", "dict", "set", "str"):
            return base
        if base == ORDERED:
            return "dict"
        if b.op in ("list", "seq"):
            return "list"
        if b.op in ("dictv", "ordered"):
            return "dict"
        if b.op in ("setv", "setof"):
            return "set"
        k = kind(b)
        if k == "s":
            return "str"
        if k == "d":
            return "dict"
        ty = self.typeof(b)
        if ty is not None:
            if ty.name in ("list", "dict", "set", "str"):
                return ty.name
            if ty.name == "ext:Element":
                return "element"
            if ty.name == "ext:file":
                return "file"
            if ty.name.startswith("ext:"):
                return ty.name
        if b in st.content:
            c = st.content[b]
            if c.op == "seq":
                return "list"
            if c.op == "upd":
                return None
        if b.op == "gvar" and b in self.ginit:
            return {"list": "list", "dictv": "dict", "setv": "set"}.get(self.ginit[b].op)
        return None

    # strings
    def str_method(self, b, name, args, kw, st, n):
        fb = self.freeze(b, st)
        if name == "join" and len(args) == 1:
            out = []
            its = self.items_of(args[0], st)
            if its is not None and isstr(fb) and all(isstr(x) for x in its):
                return [(st, C(fb.args[0].join(x.args[0] for x in its)))]
            if its and isstr(fb):
                parts = [self.freeze(its[0], st)]
                for x in its[1:]:
                    parts += [fb, self.freeze(x, st)]
                return [(st, self.concat(parts))]
            for s, l in self.b_list([args[0]], {}, st, n):
                out.append((s, mk("join", fb, self.freeze(l, s))))
            return out
        fa = self.fz(args, kw, st)
        if isstr(fb) and all(isc(x) for x in fa) and not kw and name not in ("encode", "decode"):
            try:
                v = getattr(fb.args[0], name)(*[x.args[0] for x in fa])
                if isinstance(v, (str, int, bool)):
                    return [(st, C(v))]
                if isinstance(v, list):
                    return self.fresh_list([C(x) for x in v], st)
                if isinstance(v, tuple):
                    return [(st, mk("tuple", *[C(x) for x in v]))]
            except Exception:
                pass
        if name == "format" and isstr(fb):
            r = self.fmt_brace(fb.args[0], args, kw, st)
            if r is not None:
                return [(st, r)]
        if name == "split" and not kw and (not fa or fa[0] is NONE) and fb.op == "smeth" and \
                fb.args[0] in ("strip", "lstrip", "rstrip") and len(fb.args) == 2 and \
                (len(fa) < 2 or fb.args[0] != "rstrip" and fb.args[0] != "strip"):
            fb = fb.args[1]         # splits at white space, at either end too
        v = mk("smeth", name, fb, *fa)
        if name in ("startswith", "endswith", "isalnum", "isalpha", "isdigit", "islower",
                    "isspace", "istitle", "isupper"):
            return [(s, TRUE if x else FALSE) for s, x in self.split(mk("truth", v), st)]
        if name in ("index", "rindex"):
            return [(s, v) for s in self.may_raise(st, "ValueError",
                                                   mk("raises", "ValueError", v), n)]
        if name in ("encode", "decode"):
            return [(s, v) for s in self.may_raise(st, "UnicodeError",
                                                   mk("raises", "UnicodeError", v), n)]
        return [(st, v)]
