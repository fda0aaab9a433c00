"""Calls: inlining, instantiation, opaque calls, freezing of heap values."""
import ast
import json
import os
from fnmatch import fnmatchcase

from .model import Func, Cls, Mod
from .state import Ty, assume, truth_atom, lt, zero_formula
from .binders import spread
from .terms import (SETS, upto, REBUILD, setof, T, mk, C, NONE, TRUE, FALSE, EMPTY, isc, isnum, isstr,
                    f_not, f_and, f_or, eq, kind, add, mul, subst, HINTS)
from .builtin import Builtin
from .binders import TooComplex


# the functions and classes of the pinned tree; others (extracted since then) are never opaque
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "arguments.json")) as fh:
    PINNED = frozenset(json.load(fh)["pinned"])


def in_any_order(c):
    """the content of a dictionary with constant keys; their order means nothing"""
    if c.op == "upd" and c.args[0].op == "dempty":
        kvs = c.args[1:]
        if all(k.op == "kv" and isinstance(k.args[0], T) and k.args[0].op == "c"
               for k in kvs) and len({k.args[0] for k in kvs}) == len(kvs):
            return mk("upd", c.args[0], *sorted(kvs, key=lambda k: repr(k.args[0].args[0])))
    return REBUILD["upd"](*c.args) if c.op == "upd" else c


# parameters of what the standard library provides
STANDARD = {"zipfile.ZipFile": ("file", "mode", "compression", "allowZip64"),
            "pickle.dump": ("obj", "file", "protocol"), "cPickle.dump": ("obj", "file", "protocol"),
            "os.makedirs": ("name", "mode"), "os.mkdir": ("path", "mode"),
            "open": ("name", "mode", "buffering"), "codecs.open": (
                "filename", "mode", "encoding", "errors", "buffering"),
            "xml.etree.ElementTree.parse": ("source", "parser"),
            "xml.etree.cElementTree.parse": ("source", "parser"),
            "shutil.copy": ("src", "dst"), "shutil.move": ("src", "dst"),
            "shutil.copytree": ("src", "dst", "symlinks", "ignore"),
            "shutil.rmtree": ("path", "ignore_errors", "onerror")}

RECURSIVE = set()       # functions that were called recursively


class Calls(Builtin):
    rettypes = {}
    opened = ()
    never_big = frozenset()

    # -- freezing: heap values to pure terms -------------------------------------
    def freeze(self, t, st, busy=()):
        if not isinstance(t, T):
            return t
        if t.op == "range" and t.args[2] is C(1):
            lo = self.freeze(t.args[0], st, busy)
            d = 1 + lo.ht
            return mk("list", mk("each", upto(add(self.freeze(t.args[1], st, busy), lo, -1)), d,
                                 mk("seq", mk("item", add(lo, mk("lv", d))))))
        if not t.hasobj and not st.content and t.op != "clo":
            return t
        o = t.op
        if o == "obj" or (t in st.content and o not in ("seq",)):
            if t in busy:
                # the contents that a parameter had at the start
                return t if o != "obj" else mk("cyc", len(busy))
            busy = busy + (t,)
            c = self.objcls.get(t) if o == "obj" else None
            ct = st.content.get(t)
            fc = self.freeze_content(ct, st, busy) if ct is not None else None
            if isinstance(c, Cls) or (isinstance(c, str) and c.startswith("ext:")):
                at = []
                for (b, nm), v in st.attrs.items():
                    if b is t and not nm.startswith(".new:"):
                        at.append(mk("kv", nm, self.freeze(v, st, busy)))
                at.sort(key=lambda x: x.args[0])
                q = c.qual if isinstance(c, Cls) else c
                if fc is not None:
                    return mk("inst", q, mk("attrs", *at), fc)
                return mk("inst", q, mk("attrs", *at))
            if fc is None:
                return t
            if fc.op == "seq":
                if o != "obj" and len(fc.args) == 1 and fc.args[0].op == "splice" \
                        and fc.args[0].args[0] is t:
                    return t
                if len(fc.args) == 1 and fc.args[0].op == "splice":
                    ty = self.typeof(fc.args[0].args[0])
                    if ty is not None and ty.name == "list":
                        return fc.args[0].args[0]
                return mk("list", *spread(fc.args))
            if fc.op in SETS:
                return mk("setv", fc)
            if (t, ".ordered") in st.attrs:
                return mk("ordered", mk("dictv", fc))
            return mk("dictv", in_any_order(fc))
        if o == "clo":
            return self.freeze_closure(t, st, busy)
        if not t.hasobj and not any(
                isinstance(a, T) and self._touched(a, st) for a in t.args):
            return t
        if o == "num":
            return t
        na = [self.freeze(a, st, busy) if isinstance(a, T) else a for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            return t
        return mk(o, *na)

    def _touched(self, a, st):
        if a in st.content or a.op == "clo" or a.hasobj:
            return True
        if a.op in ("tuple", "item", "kv", "list", "seq", "splice", "bound", "dictv"):
            return any(isinstance(x, T) and self._touched(x, st) for x in a.args)
        return False

    def freeze_content(self, c, st, busy=()):
        na = [self.freeze(a, st, busy) if isinstance(a, T) else a for a in c.args]
        # splice of a frozen list is the list's own parts
        if c.op == "seq":
            flat = []
            for p in na:
                if p.op == "splice" and p.args[0].op == "list":
                    flat.extend(p.args[0].args)
                elif p.op == "splice" and p.args[0].op == "tuple":
                    flat.extend(mk("item", x) for x in p.args[0].args)
                else:
                    flat.append(p)
            na = flat
        if len(na) == len(c.args) and all(x is y for x, y in zip(na, c.args)):
            return c
        return mk(c.op, *na)

    def freeze_closure(self, t, st, busy):
        node, env, fr = self.closures[t]
        if t in busy or not isinstance(node, ast.Lambda):
            return mk("lam", getattr(node, "name", "<lambda>"))
        args = node.args.args
        if len(busy) > 6:
            return mk("lam", "<deep>")
        ps = [mk("lp", len(busy), i) for i in range(len(args))]
        saved = (self.sink, self.watch)
        self.sink, self.watch = [], []
        try:
            r = self.call_closure(t, ps, {}, st.clone(), node)
        finally:
            self.sink, self.watch = saved
        if len(r) == 1:
            return mk("lam", len(ps), self.freeze(r[0][1], r[0][0], busy + (t,)))
        from .binders import decide
        alts = [(dict((k, v) for k, v in s.pc.items() if k not in st.pc),
                 self.freeze(v, s, busy + (t,))) for s, v in r]
        return mk("lam", len(ps), decide(alts))

    # -- calls ----------------------------------------------------------------------
    def e_Call(self, n, st):
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == "super" and len(n.args) == 2:
            for s, vs in self.evs(n.args, st):
                if vs[0].op == "cls":
                    out.append((s, mk("super", vs[0].args[0], vs[1])))
                else:
                    out.append((s, self.unk(s, "super", n)))
            return out
        if isinstance(n.func, ast.Attribute):
            for s, b in self.ev(n.func.value, st):
                for s2, (args, kw) in self.call_args(n, s):
                    out.extend(self.call_method(b, n.func.attr, args, kw, s2, n))
            return out
        for s, f in self.ev(n.func, st):
            for s2, (args, kw) in self.call_args(n, s):
                out.extend(self.apply(f, args, kw, s2, n))
        return out

    def call_args(self, n, st):
        cur = [(st, [], {})]
        for a in n.args:
            nxt = []
            for s, args, kw in cur:
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, s):
                        its = self.items_of(v, s2)
                        if its is not None:
                            nxt.append((s2, args + its, kw))
                        else:
                            nxt.append((s2, args + [mk("star", self.freeze(v, s2))], kw))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, args + [v], kw))
            cur = nxt
        for k in n.keywords:
            nxt = []
            for s, args, kw in cur:
                for s2, v in self.ev(k.value, s):
                    kw2 = dict(kw)
                    if k.arg is None:
                        d = self.const_dict(v, s2)
                        if d is not None:
                            kw2.update(d)
                        else:
                            kw2["**"] = v
                    else:
                        kw2[k.arg] = v
                    nxt.append((s2, args, kw2))
            cur = nxt
        return [(s, (a, k)) for s, a, k in cur]

    def const_dict(self, v, st):
        """dict with known constant string keys -> {key: value} or None"""
        c = self.content(v, st)
        if c.op != "upd" or c.args[0].op != "dempty":
            return None
        d = {}
        for w in c.args[1:]:
            if w.op == "kv" and isstr(w.args[0]):
                d[w.args[0].args[0]] = w.args[1]
            else:
                return None
        return d

    def call_method(self, b, name, args, kw, st, n):
        """call of attribute `name` of value `b`"""
        out = []
        if b.op in ("mod", "ext", "cls", "super", "builtin") or (b, name) in st.attrs:
            for s, f in self.getattr_(b, name, st, n):
                out.extend(self.apply(f, args, kw, s, n))
            return out
        c = self.cls_of(b)
        if c is not None:
            l = self.prog.lookup(c, name)
            if l is not None:
                if l[0] == "ext":
                    return self.method(b, name, args, kw, st, n, l[1])
                for s, f in self.getattr_(b, name, st, n):
                    out.extend(self.apply(f, args, kw, s, n))
                return out
            ext = [x for x in c.mro if not isinstance(x, Cls) and x != "object"]
            if ext:
                return self.method(b, name, args, kw, st, n, ext[0])
        if b.op == "inst":
            for s, f in self.getattr_(b, name, st, n):
                if f.op != "attr":
                    return self.apply(f, args, kw, s, n)
        if b is NONE:
            for s in self.may_raise(st, "AttributeError", TRUE, n):
                out.append((s, self.unk(s, "method of None", n)))
            return out
        sts = [st]
        if self.watched("AttributeError") and self.noneable(b, st) and c is None:
            sts = self.may_raise(st, "AttributeError", mk("is", b, NONE), n)
        for s in sts:
            out.extend(self.method(b, name, args, kw, s, n, None))
        return out

    def apply(self, f, args, kw, st, n):
        o = f.op
        h = self.hooks.get(f.args[0]) if f.args and isinstance(f.args[0], str) else None
        if h is not None:
            r = h(self, f, args, kw, st, n)
            if r is not None:
                return r
        if o == "fn":
            return self.call_fn(self.prog.find(f.args[0]), args, kw, st, n)
        if o == "bound":
            return self.call_fn(self.prog.find(f.args[0]), [f.args[1]] + args, kw, st, n)
        if o == "cls":
            return self.instantiate(self.prog.find(f.args[0]), args, kw, st, n)
        if o == "clo":
            return self.call_closure(f, args, kw, st, n)
        if o == "builtin":
            return self.builtin(f.args[0], args, kw, st, n)
        if o == "extm":
            if f.args == ("dict", "fromkeys") and 1 <= len(args) <= 2 and not kw:
                return self.fromkeys(args, st, n)
            if not args:
                return self.ext_call(f.args[0] + "." + f.args[1], args, kw, st, n)
            return self.method(args[0], f.args[1], args[1:], kw, st, n, f.args[0])
        if o == "extbound":
            return self.method(f.args[2], f.args[1], args, kw, st, n, f.args[0])
        if o == "ext":
            return self.ext_call(f.args[0], args, kw, st, n)
        if o == "attr":
            return self.method(f.args[0], f.args[1], args, kw, st, n, None)
        if o == "clsof" or o == "typeof":
            return self.opaque_call(f, args, kw, st, n)
        return self.opaque_call(f, args, kw, st, n)

    def fz(self, args, kw, st):
        out = [self.freeze(a, st) for a in args]
        out += [mk("kw", k, self.freeze(v, st)) for k, v in sorted(kw.items())]
        return out

    def opaque_call(self, f, args, kw, st, n, pure=False):
        """call of something that is not looked into"""
        x = self.tool_call(f, args, kw, st)
        if x is not None:
            return x
        fa = self.normal_args(f, args, kw, st, n)
        f0 = self.freeze(f, st) if isinstance(f, T) else f
        v = mk("call", f0, *fa)
        if not pure and not self.is_pure(f):
            st = st.clone()
            st.event("call", (f0,) + tuple(fa), self.loc(n) if n is not None else None)
        name = f if isinstance(f, str) else (
            f.args[0] if f.op in ("fn", "ext", "bound") else
            "." + f.args[1] if f.op in ("attr", "meth") else None)
        ty = self.rettypes.get(name)
        if ty is not None:
            self.types[v] = ty
            if ty.name == "set":
                HINTS.setdefault(v, "S")
        return [(st, v)]

    def is_pure(self, f):
        """declared by the check to have no effect worth comparing"""
        if not self.pure_pats or not isinstance(f, T) or f.op not in ("fn", "bound", "attr", "meth", "cls"):
            return False
        nm = f.args[1] if f.op in ("attr", "meth") else f.args[0].split(".")[-1]
        return any(fnmatchcase(nm, p) for p in self.pure_pats)

    def is_opaque(self, d):
        if d.qual in self.opened:
            return False
        return d.qual in self.opaque or d.name in self.opaque or \
            bool(self.opaque_in) and d.qual.startswith(self.opaque_in) and \
            (d.qual in PINNED or ".thirdparty." in d.qual) and not d.is_local

    def normal_args(self, f, args, kw, st, n):
        """arguments in the order of the parameters, with the defaults"""
        d = None
        if isinstance(f, T) and f.op in ("fn", "cls"):
            d = self.prog.find(f.args[0])
        pre = []
        if isinstance(f, T) and f.op == "meth" and f.args[1] == "__class__":
            d = self.cls_of(f.args[0])      # a subclass may be called, in the same way
        if isinstance(d, Cls):
            l = self.prog.lookup(d, "__init__")
            d = l[1] if l is not None and l[0] != "ext" else None
            pre = [NONE]
        if not isinstance(d, Func) or "**" in kw or any(
                isinstance(x, T) and x.op == "star" for x in args):
            if isinstance(f, T) and f.op == "ext" and f.args[0] in STANDARD and "**" not in kw:
                ps = STANDARD[f.args[0]]
                while len(args) < len(ps) and ps[len(args)] in kw:
                    args, kw = list(args) + [kw[ps[len(args)]]], {
                        k: v for k, v in kw.items() if k != ps[len(args)]}
            return self.fz(args, kw, st)
        b = self.bind(d, pre + list(args), kw, st, n)
        if isinstance(b, str):
            return self.fz(args, kw, st)
        env, s2 = b
        a = d.node.args
        names = [x.arg for x in a.args][len(pre):]
        if any(nm not in env for nm in names):
            return self.fz(args, kw, st)
        out = [env[nm] for nm in names]
        for v in (a.vararg, a.kwarg):
            if v is not None:
                if v.arg not in env:
                    return self.fz(args, kw, st)
                out.append(env[v.arg])
        return [self.freeze(v, s2) for v in out]

    def tool_call(self, f, args, kw, st):
        """declaration of the command line of a tool"""
        q = f.args[0] if isinstance(f, T) and f.op in ("fn", "cls") else None
        if not isinstance(q, str) or "arg" not in q.lower():
            return None
        last = q.split(".")[-1]
        if f.op == "cls" and last in ("DaesoArgParser", "ArgumentParser"):
            return [(st, mk("param", "parser"))]
        if last == "parse_args":
            return [(st, mk("param", "args"))]
        if last == "add_argument":
            return [(st, NONE)]
        return None

    # -- repository functions ------------------------------------------------------
    def bind(self, fn, args, kw, st, n):
        """-> (env, state) or an error string"""
        node = fn.node
        a = node.args
        names = [p.arg for p in a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        if any(isinstance(x, T) and x.op == "star" for x in args) or "**" in kw:
            # unknown number of arguments
            k = 0
            while k < len(args) and args[k].op != "star" and k < len(names):
                env[names[k]] = args[k]
                k += 1
            rest = args[k:]
            if rest and k >= len(names) and a.vararg:
                if len(rest) == 1 and rest[0].op == "star":
                    env[a.vararg.arg] = rest[0].args[0]
                else:
                    env[a.vararg.arg] = mk("tupof", mk("seq", *[
                        mk("splice", x.args[0]) if x.op == "star" else mk("item", x)
                        for x in rest]))
            elif rest and not (len(rest) == 1 and rest[0].op == "star"):
                return "star arguments"
            elif rest:
                src = rest[0].args[0]
                j = 0
                for p in names[k:]:
                    if p not in kw:
                        env[p] = self.sub(src, C(j), st)
                    j += 1
                if a.vararg:
                    env[a.vararg.arg] = mk("sub", src, mk("slice", C(j), NONE, NONE)) if j else src
            elif a.vararg:
                env.setdefault(a.vararg.arg, mk("tuple"))
            star = kw.pop("**", None)
            for p in names:
                if p in kw:
                    env[p] = kw.pop(p)
            if a.kwarg:
                if star is not None and not kw:
                    env[a.kwarg.arg] = star
                elif star is not None:
                    # the names are different, otherwise the call fails
                    o = self.new("dict")
                    st = st.clone()
                    st.content[o] = mk("upd", mk("seq", mk("splice", star)), *[
                        mk("kv", C(k2), v) for k2, v in sorted(kw.items())])
                    env[a.kwarg.arg] = o
            elif star is not None:
                for p in names:
                    if p not in env:
                        env[p] = mk("kwget", star, p)
            if a.kwarg and a.kwarg.arg not in env:
                o = self.new("dict")
                st = st.clone()
                st.content[o] = mk("upd", mk("dempty"), *[mk("kv", C(k2), v)
                                                          for k2, v in sorted(kw.items())])
                env[a.kwarg.arg] = o
        else:
            if len(args) > len(names) and not a.vararg:
                return "too many arguments for %s" % fn.qual
            for p, v in zip(names, args):
                env[p] = v
            if a.vararg:
                env[a.vararg.arg] = mk("tuple", *args[len(names):])
            extra = {}
            for k, v in kw.items():
                if k in names:
                    if k in env:
                        return "repeated argument %s of %s" % (k, fn.qual)
                    env[k] = v
                else:
                    extra[k] = v
            if extra and not a.kwarg:
                return "unexpected keyword %s of %s" % (sorted(extra), fn.qual)
            if a.kwarg:
                o = self.new("dict")
                st = st.clone()
                st.content[o] = mk("upd", mk("dempty"), *[mk("kv", C(k), v)
                                                          for k, v in sorted(extra.items())])
                env[a.kwarg.arg] = o
        nd = len(a.defaults)
        for p, d in zip(names[len(names) - nd:], a.defaults):
            if p not in env:
                env[p] = self.default(fn, p, d)
        for p in names:
            if p not in env:
                return "missing argument %s of %s" % (p, fn.qual)
        return env, st

    _dcache = {}

    def default(self, fn, p, d):
        k = (fn.qual, p, id(fn.node))
        if k in self._dcache:
            return self._dcache[k]
        v = self.const_eval(d, fn.mod, fn.cls) if fn.mod is not None else None
        if fn.cls is not None and isinstance(d, ast.Name) and d.id in fn.cls.members:
            v = self.class_member(fn.cls, d.id, None, d)
        if v is None:
            v = mk("default", fn.qual, p)
        elif v.op in ("list", "dictv", "setv"):
            g = mk("gvar", fn.qual + "." + p)
            self.ginit[g] = v
            v = g
        self._dcache[k] = v
        return v

    def is_file(self, a):
        """a file that the code under analysis has opened"""
        ty = self.typeof(a) if a.op == "obj" else None
        return ty is not None and ty.name == "ext:file"

    @staticmethod
    def arity(fn):
        """the length of the tuples that a function returns, if it always returns those"""
        body = fn.node.body
        if not isinstance(body, list) or not isinstance(body[-1], ast.Return):
            return None
        sizes = set()
        todo = list(body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(x, ast.Return):
                v = x.value
                sizes.add(len(v.elts) if isinstance(v, ast.Tuple) and not any(
                    isinstance(e, ast.Starred) for e in v.elts) else None)
            todo.extend(ast.iter_child_nodes(x))
        return sizes.pop() if len(sizes) == 1 else None

    def call_fn(self, fn, args, kw, st, n):
        if self.is_opaque(fn) or \
                len(self.stack) > self.max_depth or fn.qual in self.big:
            k = self.arity(fn)
            return [(s, v if k is None else mk("tuple", *[mk("sub", v, C(i)) for i in range(k)]))
                    for s, v in self.opaque_call(mk("fn", fn.qual), args, kw, st, n)]
        if fn in self.stack:
            again = fn.name in ("__eq__", "__ne__") or any(self.is_file(a) for a in args)
            if self.stack.count(fn) >= (2 if again else 1):
                RECURSIVE.add(fn.qual)
                return self.opaque_call(mk("fn", fn.qual), args, kw, st, n)
        if fn.classm and args and args[0].op != "cls":
            c = self.cls_of(args[0])
            args = [mk("cls", (c or fn.cls).qual)] + list(args[1:])
        b = self.bind(fn, args, kw, st, n)
        if isinstance(b, str):
            st = st.clone()
            return [(st, self.unk(st, b, n))]
        env, st = b
        from .interp import Frame, local_names
        saved_env = st.env
        s = st.clone()
        s.env = env
        frame = Frame(fn.mod, fn, fn.cls, None, local_names(fn.node))
        keep = (self.max_steps, len(self.frames), len(self.stack), self.sink, self.depth,
                len(self.watch), len(self.handling), len(self.yields))
        self.max_steps = min(self.max_steps, self.steps + self.callee_steps)
        try:
            outs = self.body_outcomes(fn, frame, s)
            if len(outs) > self.callee_outs and fn.qual not in self.never_big:
                raise TooComplex("%d outcomes of %s" % (len(outs), fn.qual))
        except TooComplex as e:
            self.max_steps = keep[0]
            if self.steps > self.max_steps or fn.qual in self.never_big:
                raise
            del self.frames[keep[1]:]
            del self.stack[keep[2]:]
            self.sink = keep[3]
            self.depth = keep[4]
            del self.watch[keep[5]:]
            del self.handling[keep[6]:]
            del self.yields[keep[7]:]
            self.big.add(fn.qual)
            self.reasons.append("call of %s kept opaque (%s)" % (fn.qual, e))
            s0 = st.clone()
            s0.env = saved_env
            s0.und = s0.und + ("call of %s kept opaque" % fn.qual,)
            return self.opaque_call(mk("fn", fn.qual), args, kw, s0, n)
        finally:
            self.max_steps = keep[0]
        return self.after_call(outs, saved_env)

    def after_call(self, outs, saved_env):
        res = []
        for o in outs:
            s2 = o.st.clone()
            s2.env = saved_env
            if o.kind == "return":
                res.append((s2, o.val))
            else:
                o2 = o.__class__("raise", s2, o.val, o.loc)
                self.sink.append(o2)
        return self.merge_results(res)

    def merge_results(self, res):
        """join results with the same value whose states join"""
        if len(res) < 2 or len(res) > 60:
            return res
        by = {}
        order = []
        for s, v in res:
            if v not in by:
                by[v] = []
                order.append(v)
            by[v].append(s)
        out = []
        for v in order:
            ss = by[v]
            for s in (self.merge(ss) if len(ss) > 1 else ss):
                out.append((s, v))
        return out

    def call_closure(self, f, args, kw, st, n):
        node, env, fr = self.closures[f]
        from .interp import Frame, local_names
        if len(self.frames) > 40:
            return self.opaque_call(mk("lam", "deep"), args, kw, st, n)
        fake = Func.__new__(Func)
        fake.__dict__.update(fr.fn.__dict__ if fr.fn is not None else {})
        fake.node = node
        fake.mod = fr.mod
        fake.cls = fr.cls
        fake.static = True
        fake.classm = fake.prop = False
        fake.name = getattr(node, "name", "<lambda>")
        fake.qual = (fr.fn.qual if fr.fn else fr.mod.name) + "." + fake.name
        fake._gen = not isinstance(node, ast.Lambda) and any(
            isinstance(x, ast.Yield) for x in ast.walk(node))
        # defaults of closures are evaluated in the defining environment
        a = node.args
        names = [p.arg for p in a.args]
        kw = dict(kw)
        nd = len(a.defaults)
        for i, (p, d) in enumerate(zip(names[len(names) - nd:], a.defaults)):
            if len(args) <= len(names) - nd + i and p not in kw:
                s0 = st.clone()
                s0.env = dict(env[0])
                self.frames.append(fr)
                try:
                    r = self.ev(d, s0)
                finally:
                    self.frames.pop()
                if len(r) == 1:
                    kw[p] = r[0][1]
        b = self.bind(fake, args, kw, st, n)
        if isinstance(b, str):
            st = st.clone()
            return [(st, self.unk(st, b, n))]
        env2, st = b
        saved = st.env
        s = st.clone()
        s.env = env2
        frame = Frame(fr.mod, fr.fn, fr.cls, env, local_names(node))
        if isinstance(node, ast.Lambda):
            cur = [s]
            self.frames.append(frame)
            try:
                for pre in getattr(node, "pre", ()) or ():
                    cur = [r[1] for x in cur for r in self.stmt(pre, x)]
                res = [rv for x in cur for rv in self.ev(node.body, x)]
            finally:
                self.frames.pop()
            out = []
            for s2, v in res:
                s2 = s2.clone()
                s2.env = saved
                out.append((s2, v))
            return out
        frame.fn = fake
        outs = self.body_outcomes(fake, frame, s)
        return self.after_call(outs, saved)

    # -- instantiation ---------------------------------------------------------------
    def instantiate(self, c, args, kw, st, n):
        if self.is_exception(c):
            return [(st, mk("exc", c.qual, *self.fz(args, kw, st)))]
        if self.is_opaque(c):
            r = self.opaque_call(mk("cls", c.qual), args, kw, st, n)
            for _, v in r:
                self.types[v] = Ty(c.qual)
            return r
        o = self.new(c)
        st = st.clone()
        base = [b for b in c.mro if not isinstance(b, Cls) and b != "object"]
        bname = base[0].split(".")[-1] if base else None
        bname = "dict" if bname == "OrderedDict" else bname
        if bname in ("list", "set", "dict"):
            st.content[o] = {"list": EMPTY, "set": setof(EMPTY),
                             "dict": mk("upd", mk("dempty"))}[bname]
        l = self.prog.lookup(c, "__init__")
        if l is None:
            return [(st, o)]
        if l[0] == "ext":
            return [(s, o) for s, _ in self.method(o, "__init__", args, kw, st, n, l[1])]
        return [(s, o) for s, _ in self.call_fn(l[1], [o] + list(args), kw, st, n)]

    def is_exception(self, c):
        return any((b if isinstance(b, str) else b.name).split(".")[-1] in
                   ("Exception", "StandardError", "BaseException", "NetworkXError",
                    "ValueError", "TypeError", "KeyError", "AssertionError",
                    "Warning", "UserWarning", "RuntimeError")
                   for b in c.mro)
