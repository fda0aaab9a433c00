"""Models of the built-in functions, containers and strings of Python 2."""
import ast
import math

from .model import Func, Cls
from .state import (clip, Ty, assume, truth_atom, lt, zero_formula, seq_truth, entails)
from .terms import (REBUILD, setof, T, mk, C, NONE, TRUE, FALSE, EMPTY, isc, isnum, isstr,
                    f_not, f_and, f_or, eq, kind, add, mul, neg, subst, ratio)

from .util import map_tree, STR_METHODS, PURE_BUILTINS
from .methods import Methods


class Builtin(Methods):
    # -- lengths ---------------------------------------------------------------------
    def len_of(self, t, st=None):
        if t.op == "nxdata":
            return mk("len", mk("nxedges", t.args[0]))
        if t.op in ("nxsucc", "nxpred"):
            return mk("len", mk("nxnode", t.args[0]))
        if st is not None and (t in st.content or t.op == "gvar"):
            c = self.content(t, st)
            if c.op == "seq":
                return self.len_parts(c, t, st)
            if c.op == "upd" and c.args[0].op == "dempty" and all(
                    w.op == "kv" and isc(w.args[0]) for w in c.args[1:]):
                return C(len({w.args[0] for w in c.args[1:]}))
            if c.op == "upd" and c.args[0].op == "seq" and all(
                    w.op == "kv" and w.args[0].op != "slice" for w in c.args[1:]) \
                    and self.seqlike(t):
                return self.len_parts(c.args[0], t, st)
            return REBUILD["len"](self.freeze(t, st))
        if isstr(t):
            return C(len(t.args[0]))
        if t.op in ("seq", "list"):
            return self.len_parts(t, t, st)
        if t.op == "tuple":
            return C(len(t.args))
        if t.op in ("keys", "values", "items", "reversed", "sortedof", "iter", "listof"):
            # what the keys are of is a snapshot
            return self.len_of(t.args[0], None if t.op in ("keys", "values", "items") else st)
        if t.op == "range":
            return self.range_len(t)
        if t.op == "zip" and st is not None:
            segs = self.segments(t, st, None)
            if len(segs) == 1 and len(segs[0][1]) == 1 and segs[0][1][0][1].op == "upto":
                return segs[0][1][0][1].args[0]
        return REBUILD["len"](self.freeze(t, st) if st is not None else t)

    def seqlike(self, t):
        return t.op == "obj" and self.objcls.get(t) == "list" or t.op in ("list", "seq")

    def len_parts(self, c, t, st):
        from .binders import sum_term
        tot = C(0)
        for p in c.args:
            if p.op == "item":
                tot = add(tot, C(1))
            elif p.op == "splice":
                if p.args[0] is t:
                    tot = add(tot, mk("len", t))
                else:
                    tot = add(tot, self.len_of(p.args[0], st))
            elif p.op == "each":
                def count(leaf):
                    if leaf.op == "seq":
                        return self.len_parts(leaf, leaf, st)
                    return C(0)
                tot = add(tot, sum_term(p.args[0], p.args[1], map_tree(p.args[2], count)))
            else:
                tot = add(tot, mk("len", p))
        return tot

    def range_len(self, t):
        lo, hi, step = t.args
        if step is C(1):
            return clip(add(hi, lo, -1))
        if step is C(-1):
            return clip(add(lo, hi, -1))
        return REBUILD["len"](t)

    # -- builtin functions -------------------------------------------------------------
    def builtin(self, name, args, kw, st, n):
        m = getattr(self, "b_" + name, None)
        if m is not None:
            r = m(args, kw, st, n)
            if r is not None:
                return r
        if name in ("AssertionError", "Exception") or name.endswith("Error") or \
                name in ("StopIteration", "SystemExit", "KeyboardInterrupt", "Warning",
                         "UserWarning"):
            return [(st, mk("exc", name, *self.fz(args, kw, st)))]
        return self.opaque_call(mk("builtin", name), args, kw, st, n,
                                pure=name in PURE_BUILTINS)

    def b_exit(self, args, kw, st, n):
        from .interp import Outcome
        self.sink.append(Outcome("raise", st, mk("exc", "SystemExit", *self.fz(args, kw, st)),
                                 self.loc(n) if n is not None else None))
        return []

    b_quit = b_exit

    def b_vars(self, args, kw, st, n):
        if self.one(args, kw):
            return self.getattr_(args[0], "__dict__", st, n)
        return None

    def one(self, args, kw, k=1):
        return len(args) == k and not kw and not any(a.op == "star" for a in args)

    def b_len(self, args, kw, st, n):
        if not self.one(args, kw):
            return None
        a = args[0]
        c = self.cls_of(a)
        if c is not None:
            l = self.prog.lookup(c, "__len__")
            if l is not None and l[0] != "ext":
                return self.call_fn(l[1], [a], {}, st, n)
            if self.is_graph(a):
                return [(st, mk("len", mk("nxnode", self.nxg(a, st))))]
        return [(st, self.len_of(a, st))]

    def b_float(self, args, kw, st, n):
        if not args:
            return [(st, C(0.0))]
        a = self.freeze(args[0], st)
        if isnum(a):
            return [(st, C(float(a.args[0])))]
        out = []
        for s in ([st] if kind(a) in ("i", "f", "b") else
                  self.may_raise(st, "ValueError", mk("raises", "ValueError", mk("float", a)), n)):
            if kind(a) == "f":
                out.append((s, a))
            elif a.op == "num":
                from .terms import mknum, _tp
                out.append((s, mknum(_tp(a.args[0]), _tp(a.args[1]), "f")))
            else:
                out.append((s, mk("float", a)))
        return out

    def b_int(self, args, kw, st, n):
        if not args:
            return [(st, C(0))]
        a = self.freeze(args[0], st)
        if len(args) == 1 and isnum(a):
            return [(st, C(int(a.args[0])))]
        if len(args) == 1 and kind(a) in ("i",):
            return [(st, a)]
        out = []
        f = mk("raises", "ValueError", mk("int", *[self.freeze(x, st) for x in args]))
        for s in ([st] if kind(a) in ("i", "f", "b") else self.may_raise(st, "ValueError", f, n)):
            out.append((s, mk("int", *[self.freeze(x, st) for x in args])))
        return out

    def b_str(self, args, kw, st, n):
        if not args:
            return [(st, C(""))]
        a = args[0]
        c = self.cls_of(a)
        if c is not None:
            l = self.prog.lookup(c, "__str__")
            if l is not None and l[0] != "ext" and l[1] not in self.stack:
                return self.call_fn(l[1], [a], {}, st, n)
        a = self.freeze(a, st)
        if isstr(a):
            return [(st, a)]
        if isnum(a) and isinstance(a.args[0], int):
            return [(st, C(str(a.args[0])))]
        if kind(a) == "s":
            return [(st, a)]
        return [(st, mk("str", a))]

    def b_unicode(self, args, kw, st, n):
        if len(args) == 1:
            a = self.freeze(args[0], st)
            if isstr(a):
                return [(st, a)]
            if kind(a) == "s":
                return [(st, a)]
            return [(st, mk("str", a))]
        return None

    def b_repr(self, args, kw, st, n):
        return [(st, mk("repr", *self.fz(args, kw, st)))]

    def b_bool(self, args, kw, st, n):
        if not args:
            return [(st, FALSE)]
        return [(s, TRUE if b else FALSE) for s, b in self.truth_states(args[0], st, n)]

    def b_abs(self, args, kw, st, n):
        a = args[0]
        if isnum(a):
            return [(st, C(abs(a.args[0])))]
        if a.op == "num" and ratio(a)[0] and ratio(a)[0][0][1] < 0:
            a = neg(a)
        return [(st, mk("abs", a))]

    def b_range(self, args, kw, st, n):
        a = list(args)
        if len(a) == 1:
            a = [C(0), a[0], C(1)]
        elif len(a) == 2:
            a = a + [C(1)]
        if all(isnum(x) for x in a) and abs(a[1].args[0] - a[0].args[0]) <= 64 \
                and a[2].args[0]:
            o = self.new("list")
            st = st.clone()
            st.content[o] = mk("seq", *[mk("item", C(i)) for i in
                                        range(*[x.args[0] for x in a])])
            return [(st, o)]
        return [(st, mk("range", *a))]

    b_xrange = b_range

    def b_reversed(self, args, kw, st, n):
        its = self.items_of(args[0], st)
        if its is not None:
            o = self.new("list")
            st = st.clone()
            st.content[o] = mk("seq", *[mk("item", x) for x in reversed(its)])
            return [(st, o)]
        a = self.freeze(args[0], st)
        if a.op == "range" and isnum(a.args[2]) and a.args[2].args[0] in (1, -1):
            lo, hi, step = a.args
            return [(st, mk("range", add(hi, step, -1), add(lo, step, -1), neg(step)))]
        if a.op == "reversed":
            return [(st, a.args[0])]
        return [(st, mk("reversed", a))]

    def b_enumerate(self, args, kw, st, n):
        start = args[1] if len(args) > 1 else kw.get("start", C(0))
        its = self.items_of(args[0], st)
        if its is not None:
            return self.fresh_list([mk("tuple", add(start, C(i)), x)
                                    for i, x in enumerate(its)], st)
        return [(st, mk("enumerate", args[0], start))]

    def fresh_list(self, items, st):
        o = self.new("list")
        st = st.clone()
        st.content[o] = mk("seq", *[mk("item", x) for x in items])
        return [(st, o)]

    def b_zip(self, args, kw, st, n):
        its = [self.items_of(a, st) if a.op != "star" and (
            a.op != "attr" or not self.stored_pair(a)) else None for a in args]
        if args and all(i is not None for i in its):
            return self.fresh_list([mk("tuple", *x) for x in zip(*its)], st)
        return [(st, mk("zip", *args))]

    def b_iter(self, args, kw, st, n):
        if len(args) == 1 and args[0].op == "tuple":
            return self.fresh_list(list(args[0].args), st)      # as a generator
        if len(args) == 1:
            return [(st, mk("iter", args[0]))]
        return None

    def first_of(self, args, st, n):
        """the first item of an iterator that nothing else holds on to"""
        call = n if isinstance(n, ast.Call) else None
        src = call.func.value if call is not None and isinstance(call.func, ast.Attribute) \
            else call.args[0] if call is not None and call.args else None
        if isinstance(src, ast.Name) and self.fr().fn is not None:
            body = list(ast.walk(self.fr().fn.node))
            if any(isinstance(x, (ast.For, ast.While)) for x in body) or sum(
                    1 for x in body if isinstance(x, ast.Name) and x.id == src.id and
                    isinstance(x.ctx, ast.Load)) != 1 or src.id in [
                        a.arg for a in self.fr().fn.node.args.args]:
                return None
        elif not isinstance(src, (ast.Call, ast.GeneratorExp)):
            return None
        it = args[0]
        while it.op == "iter":
            it = it.args[0]
        if it.op == "keys":
            f = self.freeze(it, st)
            out = []
            if len(args) > 1:
                return [(s, mk("sub", f, C(0)) if x else args[1])
                        for s, x in self.split(truth_atom(f), st)]
            for s in self.may_raise(st, "StopIteration", f_not(truth_atom(f)), n):
                out.append((s, mk("sub", f, C(0))))
            return out
        return None

    def b_next(self, args, kw, st, n):
        r = self.first_of(args, st, n)
        if r is not None:
            return r
        st = st.clone()
        self.uid += 1
        f = self.freeze(args[0], st)
        st.event("next", (f,), self.loc(n) if n is not None else None)
        v = mk("next", f, sum(1 for e in st.ev if e.kind == "next" and e.args[0] is f))
        if len(args) > 1:
            v = mk("nextor", f, args[1])
            return [(st, v)]
        out = []
        for s in self.may_raise(st, "StopIteration", mk("raises", "StopIteration", v), n):
            out.append((s, v))
        return out

    def b_list(self, args, kw, st, n):
        o = self.new("list")
        st = st.clone()
        if not args:
            st.content[o] = EMPTY
            return [(st, o)]
        return self.fill_list(o, args[0], st, n)

    def fill_list(self, o, src, st, n):
        """content of list object `o` := elements of `src`"""
        c = self.iter_content(src, st)
        if c is not None:
            st = st.clone()
            st.content[o] = c
            return [(st, o)]
        # general: run a loop that appends every element
        st = st.clone()
        st.content[o] = EMPTY
        return self.append_all(o, src, st, n)

    def append_all(self, o, src, st, n):
        t = ast.Name(id=".elem", ctx=ast.Store())
        ast.copy_location(t, n) if n is not None and hasattr(n, "lineno") else None
        fr = self.fr()
        saved = fr.locals
        fr.locals = set(saved) | {".elem"}

        def body(s):
            s = s.clone()
            c = self.content(o, s)
            v = s.env[".elem"]
            if c.op == "seq":
                s.content[o] = mk("seq", *(c.args + (mk("item", v),)))
            return [("fall", s, None, None)]
        try:
            res = self.for_loop(t, src, body, st, n, comp=True)
        finally:
            fr.locals = saved
        out = []
        for k, s, v, l in res:
            s = s.clone()
            s.env.pop(".elem", None)
            out.append((s, o))
        return out

    def iter_content(self, src, st):
        """content of a list made from iterating `src`, when simple"""
        if src.op == "obj" or src in st.content:
            c = self.content(src, st)
            cl = self.cls_of(src)
            if cl is not None and self.prog.lookup(cl, "__iter__") is not None and \
                    self.prog.lookup(cl, "__iter__")[0] != "ext":
                return None
            if c.op == "seq":
                return c
            if c.op in ("setof",):
                its = c.args[0]
                if its.args == ():
                    return EMPTY
                return mk("seq", mk("splice", self.freeze(src, st)))
            if c.op == "upd":
                if len(c.args) == 1 and c.args[0].op == "dempty":
                    return EMPTY
                if c.args[0].op == "dempty" and all(
                        w.op == "kv" and isc(w.args[0]) for w in c.args[1:]):
                    return mk("seq", *[mk("item", w.args[0]) for w in c.args[1:]])
                if c.args[0].op == "seq":
                    return c
                return mk("seq", mk("splice", mk("keys", self.freeze(src, st))))
            return None
        if src.op in ("tuple", "list", "seq"):
            return self.content(src, st)
        if src.op in ("enumerate", "zip", "range", "iter", "nxdata"):
            return None
        if self.cls_of(src) is not None:
            l = self.prog.lookup(self.cls_of(src), "__iter__")
            if l is not None and l[0] != "ext":
                return None
        return mk("seq", mk("splice", self.freeze(src, st)))

    def b_tuple(self, args, kw, st, n):
        if not args:
            return [(st, mk("tuple"))]
        its = self.items_of(args[0], st)
        if its is not None:
            return [(st, mk("tuple", *its))]
        out = []
        for s, o in self.b_list(args, kw, st, n):
            out.append((s, mk("tupof", self.freeze_content(self.content(o, s), s))))
        return out

    def b_dict(self, args, kw, st, n):
        o = self.new("dict")
        st = st.clone()
        base = mk("upd", mk("dempty"))
        if args:
            a = args[0]
            c = self.content(a, st)
            if c.op == "upd":
                base = c
            elif self.items_of(a, st) is not None:
                ws = []
                for it in self.items_of(a, st):
                    x = self.items_of(it, st)
                    if x is None or len(x) != 2:
                        return None
                    ws.append(mk("kv", *x))
                base = mk("upd", mk("dempty"), *ws)
            elif self.typeof(a) is not None and self.typeof(a).name == "dict" or \
                    kind(a) == "d" or a.op in ("param", "attr"):
                base = mk("upd", mk("seq", mk("splice", self.freeze(a, st))))
            else:
                # pairs
                st.content[o] = base
                t = ast.Tuple(elts=[ast.Name(id=".k", ctx=ast.Store()),
                                    ast.Name(id=".v", ctx=ast.Store())], ctx=ast.Store())
                fr = self.fr()
                saved = fr.locals
                fr.locals = set(saved) | {".k", ".v"}

                def body(s):
                    return [("fall", x, None, None) for x in
                            self.setitem0(o, s.env[".k"], s.env[".v"], s, n)]
                try:
                    res = self.for_loop(t, a, body, st, n, comp=True)
                finally:
                    fr.locals = saved
                return [(s, o) for k, s, v, l in res]
        st.content[o] = mk("upd", *(base.args + tuple(
            mk("kv", C(k), v) for k, v in sorted(kw.items()))))
        return [(st, o)]

    def fromkeys(self, args, st, n):
        """dict.fromkeys"""
        o = self.new("dict")
        st = st.clone()
        st.content[o] = mk("upd", mk("dempty"))
        v = args[1] if len(args) > 1 else NONE
        xs = self.items_of(args[0], st)
        if xs is not None:
            st.content[o] = mk("upd", mk("dempty"), *[mk("kv", x, v) for x in xs])
            return [(st, o)]
        t = ast.Name(id=".k", ctx=ast.Store())
        fr = self.fr()
        saved = fr.locals
        fr.locals = set(saved) | {".k"}

        def body(s):
            return [("fall", x, None, None) for x in self.setitem0(o, s.env[".k"], v, s, n)]
        try:
            res = self.for_loop(t, args[0], body, st, n, comp=True)
        finally:
            fr.locals = saved
        return [(s, o) for k, s, v, l in res]

    def b_set(self, args, kw, st, n):
        o = self.new("set")
        st = st.clone()
        if not args:
            st.content[o] = setof(EMPTY)
            return [(st, o)]
        a = args[0]
        c = self.iter_content(a, st)
        if c is None:
            out = []
            for s, l in self.b_list(args, kw, st, n):
                s = s.clone()
                s.content[o] = setof(self.freeze_content(self.content(l, s), s))
                out.append((s, o))
            return out
        if c.op == "seq":
            if len(c.args) == 1 and c.args[0].op == "splice" and \
                    c.args[0].args[0].op == "setv":
                st.content[o] = c.args[0].args[0].args[0]
            else:
                st.content[o] = setof(self.freeze_content(c, st))
        else:
            st.content[o] = setof(mk("seq", mk("splice", self.freeze(a, st))))
        return [(st, o)]

    b_frozenset = b_set


