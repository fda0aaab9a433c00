"""Loops: iteration domains, one generic iteration, summaries of its effects."""
import ast

from . import tally, machine
from .model import Func, Cls, ORDERED
from .machine import Machine, WHILE
from .fields import FIELDS
from .state import (State, Ty, Ev, LoopEv, assume, truth_atom, lt, zero_formula,
                    entails, nonneg)
from .terms import (REBUILD, SETS, mkset, upto, setof, T, mk, C, NONE, TRUE, FALSE, EMPTY, isc, isnum, isstr, HINTS,
                    f_not, f_and, f_or, eq, kind, add, mul, neg, subst, leaves,
                    NUMK)
from .binders import (decide, bind, open_, paths, map_tree, mk_each, sum_loop,
                      exists_formula, first_term, has, UNDEF, isnum_dom, ite)


REBUILD["writes"] = lambda *a: mk("writes", *sorted(a))


def ev_subst(e, m):
    f = (lambda a: subst(a, m) if isinstance(a, T) else a)
    if isinstance(e, LoopEv):
        return LoopEv(f(e.args[0]), e.args[1], [
            (tuple((f(a), v) for a, v in g), tuple(ev_subst(y, m) for y in evs))
            for g, evs in e.alts], e.loc)
    return Ev(e.kind, tuple(f(a) for a in e.args), e.loc)


def apart(a, b):
    """two keys that are never equal"""
    if eq(a, b) is FALSE:
        return True
    xs, ys = [t.args if t.op == "tuple" else (t,) for t in (a, b)]
    return len(xs) == len(ys) and any(
        kind(x) == kind(y) == "i" and (nonneg(add(add(x, y, -1), C(-1))) or
                                       nonneg(add(add(y, x, -1), C(-1))))
        for x, y in zip(xs, ys))


class Loops(Machine):
    def s_For(self, n, st):
        out = []
        for s, it in self.ev(n.iter, st):
            res = self.for_loop(n.target, it, lambda x: self.block(n.body, [x]), s, n, raw=True)
            out.extend(self.loop_end(n, res))
        return out

    def loop_end(self, n, res):
        out = []
        falls = []
        for k, s, v, l in res:
            if k == "break":
                out.append(("fall", s, None, None))
            elif k == "fall":
                falls.append(s)
            else:
                out.append((k, s, v, l))
        if n.orelse and falls:
            out.extend(self.block(n.orelse, falls))
        else:
            out.extend(("fall", s, None, None) for s in falls)
        return out

    # -- domains ------------------------------------------------------------------------
    def segments(self, it, st, n):
        """iteration of `it` as [(state, [segment])]; a segment is
        ("item", value) | ("gen", dom, f(i) -> value) | ("each", dom, h, tree)"""
        h = self.hooks.get("iter")
        if h is not None:
            r = h(self, it, st, n)
            if r is not None:
                return r
        o = it.op
        c = self.cls_of(it)
        if c is not None:
            l = self.prog.lookup(c, "__iter__")
            if n is not None and o == "attr" and self.stored_pair(it) and self.has_loop(n):
                return [(st, [self.gen_of(it, st)])]      # two rounds of a complex body
            if l is not None and l[0] != "ext" and l[1] not in self.stack:
                out = []
                for s, v in self.call_fn(l[1], [it], {}, st, n):
                    out.extend(self.segments(v, s, n))
                return out
        if o == "iter":
            return self.segments(it.args[0], st, n)
        if o == "nxdata":
            return [(st, [("gen", upto(mk("len", mk("nxedges", it.args[0]))),
                           lambda i: self.sub(it, i, st))])]
        if c is not None and self.is_graph(it):
            return self.segments(mk("keys", mk("nxnode", self.nxg(it, st))), st, n)
        if o == "range":
            lo, hi, step = it.args
            if step is C(1) or step is C(-1):
                nn = add(hi, lo, -1) if step is C(1) else add(lo, hi, -1)
                return [(st, [("gen", upto(nn),
                               lambda i: add(lo, i if step is C(1) else neg(i)))])]
            return [(st, [("gen", upto(mk("len", it)),
                           lambda i: add(lo, mul(i, step)))])]
        if o == "enumerate":
            src, start = it.args
            out = []
            for s, segs in self.segments(src, st, n):
                off = start
                res = []
                for g in segs:
                    if g[0] == "item":
                        res.append(("item", mk("tuple", off, g[1])))
                        off = add(off, C(1))
                    elif g[0] == "gen":
                        res.append(("gen", g[1], lambda i, g=g, off=off: mk(
                            "tuple", add(off, i), g[2](i))))
                        off = add(off, g[1].args[0]) if g[1].op == "upto" else mk("unk", -2)
                    else:
                        b = self.single(g)
                        if b is not None and g[1].op == "upto":
                            res.append(("gen", g[1], lambda i, b=b, off=off: mk(
                                "tuple", add(off, i), b(i))))
                            off = add(off, g[1].args[0])
                        else:
                            f = self.freeze(src, s)
                            res = [("gen", upto(self.len_of(f, s)), lambda i: mk(
                                "tuple", add(start, i), self.sub(f, i, s)))]
                            break
                out.append((s, res))
            return out
        if o == "zip":
            cur = [(st, [])]
            for a in it.args:
                nxt = []
                for s, fs in cur:
                    if a.op == "star":
                        f = self.freeze(it, s)
                        return [(st, [("gen", upto(mk("len", f)),
                                       lambda i: mk("sub", f, i))])]
                    for s2, segs in self.segments(a, s, n):
                        fs2 = self.indexable(a, segs, s2)
                        nxt.append((s2, fs + [fs2]))
                cur = nxt
            out = []
            for s, fs in cur:
                lens = [l for l, _ in fs]
                # sorted prefix min: equal lengths collapse
                u = []
                for l in lens:
                    if l not in u:
                        u.append(l)
                ln = self.mm("min", u)
                out.append((s, [("gen", upto(ln), lambda i, fs=fs: mk(
                    "tuple", *[f(i) for _, f in fs]))]))
            return out
        if o in ("items", "values", "keys") and it not in st.content:
            src = it.args[0]
            kvs = self.only_entries(self.content(src, st))
            if kvs is not None:
                return [(st, [("item", k if o == "keys" else v if o == "values" else
                               mk("tuple", k, v)) for k, v in kvs])]
            ty = self.typeof(src)
            ks = mk("keys", src) if ty is not None or kind(src) == "d" or src.hasobj or \
                src in st.content or self.is_mapping(src) else src
            ln = self.len_of(src, st)
            if o == "keys":
                f = lambda i: mk("sub", ks, i)
            elif o == "values":
                f = lambda i: self.sub(src, mk("sub", ks, i), st)
            else:
                f = lambda i: mk("tuple", mk("sub", ks, i), self.sub(src, mk("sub", ks, i), st))
            return [(st, [("gen", upto(ln), f)])]
        if o == "reversed":
            src = it.args[0]
            ln = self.len_of(src, st)
            return [(st, [("gen", upto(ln), lambda i: self.sub(
                src, add(add(ln, C(1), -1), i, -1), st))])]
        if o == "sub" and it.args[1].op == "slice" and it not in st.content:
            lo, hi, step = it.args[1].args
            src = it.args[0]
            if hi is NONE and step is NONE and (isnum(lo) and lo.args[0] >= 0 or
                                                kind(lo) == "i"):
                ln = add(self.len_of(src, st), lo, -1)
                return [(st, [("gen", upto(ln), lambda i: self.sub(
                    src, add(lo, i), st))])]
        if isstr(it) and len(it.args[0]) > 12:
            return [(st, [("gen", upto(C(len(it.args[0]))), lambda i: mk("sub", it, i))])]
        cont = self.content(it, st)
        if cont.op == "upd" and cont.args[0].op == "dempty" and all(
                w.op == "kv" and isc(w.args[0]) for w in cont.args[1:]):
            seen = []
            for w in cont.args[1:]:
                if w.args[0] not in seen:
                    seen.append(w.args[0])
            return [(st, [("item", k) for k in seen])]
        kvs = self.only_entries(cont)
        if kvs is not None:
            return [(st, [("item", k) for k, _ in kvs])]
        if cont.op == "seq":
            segs = []
            for p in cont.args:
                if p.op == "item":
                    segs.append(("item", p.args[0]))
                elif p.op == "splice":
                    x = p.args[0]
                    if x is it or x.op in ("attr", "param", "sub", "call", "carry", "unk",
                                           "gvar", "c"):
                        segs.append(self.gen_of(x, st))
                    else:
                        for s2, sg in self.segments(x, st, n):
                            segs.extend(sg)
                elif p.op == "each":
                    segs.append(("each", p.args[0], p.args[1], p.args[2]))
                else:
                    f = self.freeze(it, st)
                    return [(st, [("gen", upto(self.len_of(f, st)),
                                   lambda i: mk("sub", f, i))])]
            return [(st, segs)]
        if cont.op == "setof" and cont.args[0].op == "seq" and all(
                p.op == "item" for p in cont.args[0].args) and len(cont.args[0].args) < 2:
            return [(st, [("item", p.args[0]) for p in cont.args[0].args])]
        return [(st, [self.gen_of(self.freeze(it, st), st)])]

    def stored_pair(self, t):
        return t.args[1] in FIELDS.get("daeso.pgc.graphpair.GraphPairBase", {}) and \
            self.cls_of(t) is not None and self.cls_of(t).name == "Pair"

    _loopy = {}

    def has_loop(self, n):
        """do the rounds of a loop have loops of their own?"""
        fr = self.fr()
        mod = fr.mod
        k = (id(mod), getattr(n, "lineno", 0), getattr(n, "col_offset", 0))
        r = self._loopy.get(k)
        if r is None or r[0] is not n:
            parts = n.body if isinstance(n, ast.For) else \
                [getattr(n, "elt", None) or getattr(n, "value", n)] + [
                    f for g in getattr(n, "generators", ()) for f in g.ifs]
            r = self._loopy[k] = (n, self.loopy(parts, mod, set()))
        return r[1]

    def loopy(self, parts, mod, seen):
        for p in parts:
            for x in ast.walk(p):
                if isinstance(x, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp,
                                  ast.SetComp, ast.DictComp)):
                    return True
                if isinstance(x, ast.Call):
                    nm = x.func.attr if isinstance(x.func, ast.Attribute) else \
                        x.func.id if isinstance(x.func, ast.Name) else None
                    if nm is None or nm in seen:
                        continue
                    seen.add(nm)
                    for f in ast.walk(mod.tree):
                        if isinstance(f, ast.FunctionDef) and f.name == nm and \
                                self.loopy(f.body, mod, seen):
                            return True
        return False

    @staticmethod
    def only_entries(cont):
        """the entry of a dictionary that has one"""
        if cont.op == "upd" and cont.args[0].op == "dempty" and len(cont.args) == 2 and \
                cont.args[1].op == "kv":
            return [cont.args[1].args]
        return None

    def is_mapping(self, x, of=("dict", ORDERED)):
        """an instance of a class derived from a dictionary, which goes over its keys"""
        c = self.cls_of(x)
        l = self.prog.lookup(c, "__iter__") if c is not None else None
        return l is not None and l[0] == "ext" and l[1] in of

    def gen_of(self, x, st):
        ty = self.typeof(x)
        kd = kind(x)
        src = x
        if (ty is not None and ty.name == "dict") or kd == "d" or self.is_mapping(x):
            src = mk("keys", x)
        return ("gen", upto(self.len_of(x)), lambda i: self.sub(src, i, st))

    def single(self, g):
        """each-segment producing exactly one item per index -> f(i)"""
        t = g[3]
        if t.op == "seq" and len(t.args) == 1 and t.args[0].op == "item":
            return lambda i: subst(t.args[0].args[0], {mk("lv", g[2]): i})
        return None

    def indexable(self, a, segs, st):
        """(length, f(i)) of an iterable"""
        if len(segs) == 1:
            g = segs[0]
            if g[0] == "gen" and g[1].op == "upto":
                return g[1].args[0], g[2]
            if g[0] == "each" and g[1].op == "upto":
                f = self.single(g)
                if f is not None:
                    return g[1].args[0], f
        f = self.freeze(a, st)
        return self.len_of(f, st), lambda i: self.sub(f, i, st)

    # -- running ------------------------------------------------------------------------
    def for_loop(self, target, it, body, st, n, comp=False, raw=False):
        out = []
        for s, segs in self.segments(it, st, n):
            out.extend(self.run_segs(segs, target, body, s, n))
        if not raw:
            out = [("fall" if k == "break" else k, s, v, l) for k, s, v, l in out]
        return out

    def run_segs(self, segs, target, body, st, n):
        out = []
        cur = [st]
        for g in segs:
            if not cur:
                break
            self.check(cur)
            nxt = []
            for s in cur:
                for r in self.run_seg(g, target, body, s, n):
                    if r[0] in ("fall", "continue"):
                        nxt.append(r[1])
                    else:
                        out.append(r)
            cur = self.merge(nxt) if len(nxt) > 1 else nxt
        out.extend(("fall", s, None, None) for s in cur)
        return out

    def run_seg(self, g, target, body, st, n):
        if g[0] == "item":
            out = []
            for s in self.assign(target, g[1], st):
                out.extend(body(s))
            return out
        if g[0] == "gen":
            k = isnum_dom(g[1])
            if k is not None and k <= 8:
                return self.run_segs([("item", g[2](C(i))) for i in range(k)],
                                     target, body, st, n)

            def it1(s, bv):
                out = []
                for s2 in self.assign(target, g[2](bv), s):
                    out.extend(body(s2))
                return out
            return self.loop_generic(st, g[1], it1, n, target)
        # each
        dom, h, tree = g[1:4]

        def it2(s, bv):
            out = []
            t = subst(tree, {mk("lv", h): bv})
            for facts, leaf in paths(t):
                cur = [s]
                for a, v in facts.items():
                    cur = [y for x in cur for y in assume(x, a, v)]
                for x in cur:
                    if leaf.op != "seq":
                        self.unk(x, "iteration over %s" % leaf.op, n)
                        out.append(("fall", x, None, None))
                        continue
                    o = self.new("list")
                    x = x.clone()
                    x.content[o] = leaf
                    for s2, segs in self.segments(o, x, n):
                        out.extend(self.run_segs(segs, target, body, s2, n))
            return out
        return self.loop_generic(st, dom, it2, n, target)

    # -- the generic iteration ----------------------------------------------------------
    def target_names(self, target):
        return {x.id for x in ast.walk(target) if isinstance(x, ast.Name)} if target else set()

    def cells(self, a, b, uid0, d, skip):
        """cells whose value differs between states a (before) and b (after)"""
        out = set()
        for k, v in b.env.items():
            if k not in skip and a.env.get(k) is not v:
                out.add(("env", k))
        for k, v in b.attrs.items():
            if a.attrs.get(k) is not v and not self.inner(k[0], uid0) and k[0].mbv < d and \
                    not k[1].startswith(".new:"):
                out.add(("attr",) + k)
        for k, v in b.content.items():
            if a.content.get(k) is not v and not self.inner(k, uid0) and k.mbv < d:
                out.add(("content", k))
        return out

    def inner(self, t, uid0):
        return t.op in ("obj", "carry") and t.args[-1] > uid0

    def get_cell(self, s, c):
        if c[0] == "env":
            return s.env.get(c[1])
        if c[0] == "attr":
            v = s.attrs.get((c[1], c[2]))
            if v is None:
                v = mk("attr", c[1], c[2])
            return v
        v = s.content.get(c[1])
        if v is None:
            v = self.content(c[1], s)
        return v

    def set_cell(self, s, c, v):
        if c[0] == "env":
            if v is None:
                s.env.pop(c[1], None)
            else:
                s.env[c[1]] = v
        elif c[0] == "attr":
            s.attrs[(c[1], c[2])] = v
        else:
            s.content[c[1]] = v

    def loop_generic(self, st, dom, iterate, n, target=None):
        d = self.depth
        bv = mk("bv", d)
        skip = self.target_names(target)
        uid0 = self.uid
        carried = {}
        if dom.op == "upto" and isnum(dom.args[0]) and dom.args[0].args[0] <= 0:
            return [("fall", st, None, None)]
        self.depth += 1
        if self.depth > 6:
            self.depth -= 1
            from .binders import TooComplex
            raise TooComplex("loop nesting")
        try:
            for rnd in range(6):
                s0 = st.clone()
                s0.ev = ()
                for c, cv in carried.items():
                    self.set_cell(s0, c, self.havoc(self.get_cell(st, c), cv, c))
                saved = self.sink
                self.sink = []
                try:
                    res = iterate(s0.clone(), bv)
                    raised = self.sink
                finally:
                    self.sink = saved
                new = set()
                for k, s, v, l in res:
                    if k in ("fall", "continue"):
                        new |= self.cells(s0, s, uid0, d, skip)
                new = {c for c in new if c not in carried}
                kinds_ok = self.update_kinds(carried, st, res)
                if not new and kinds_ok:
                    break
                for c in sorted(new, key=str):
                    init = self.get_cell(st, c)
                    if init is None:
                        continue
                    self.uid += 1
                    cv = mk("carry", d, c[1] if c[0] == "env" else c[-1] if c[0] == "attr"
                            else "content", self.uid)
                    carried[c] = cv
                if not any(c in carried for c in new) and kinds_ok:
                    break
            else:
                st = st.clone()
                self.unk(st, "loop state does not stabilise", n)
        finally:
            self.depth -= 1
        return self.summarise(st, s0, dom, d, carried, res, raised, n, uid0, skip)

    def update_kinds(self, carried, st, res):
        """numeric kind of carried variables: join of initial and new values"""
        ok = True
        for c, cv in carried.items():
            if c[0] == "content":
                continue
            init = self.get_cell(st, c)
            ks = {kind(init)}
            for k, s, v, l in res:
                if k in ("fall", "continue"):
                    x = self.get_cell(s, c)
                    if x is not None and x is not cv:
                        ks.add(kind(x))
            ks.discard("?") if len(ks) > 1 and "?" in ks and HINTS.get(cv) else None
            if len(ks) == 1:
                k = next(iter(ks))
            elif ks <= {"i", "f"}:
                k = "f" if False else "?"
            else:
                k = "?"
            if k == "?":
                if HINTS.get(cv):
                    del HINTS[cv]
                    ok = False
            elif HINTS.get(cv) != k:
                if cv not in HINTS:
                    # was optimistic already when introduced
                    pass
                HINTS[cv] = k
        return ok

    def havoc(self, init, cv, cell):
        if cell[0] == "content":
            if init.op in SETS:
                return setof(mk("seq", mk("splice", cv)))
            if init.op == "upd" and not (init.args[0].op == "seq"):
                return mk("upd", cv)
            if init.op == "upd":
                return mk("upd", mk("seq", mk("splice", cv)))
            return mk("seq", mk("splice", cv))
        ty = self.typeof(init) if init is not None else None
        if ty is not None and cv not in self.types:
            self.types[cv] = ty
        if cv not in HINTS and kind(init) in ("i", "f", "s"):
            HINTS[cv] = kind(init)
        return cv

    # -- summaries --------------------------------------------------------------------
    def guard(self, s0, s):
        return {a: v for a, v in s.pc.items() if a not in s0.pc}

    def frozen_new(self, v, s, uid0):
        """freeze objects made in this iteration, keep older ones"""
        if v is None or not isinstance(v, T):
            return v
        new = [x for x in leaves(v) if x.op == "clo" or (x.op == "obj" and x.args[0] > uid0)]
        if not new:
            return v
        if v.op in ("obj", "clo"):
            return self.freeze(v, s)
        return subst(v, {x: self.freeze(x, s) for x in new})

    def carries(self, t, cvs):
        if t is None or not t.car:
            return False
        return any(x in cvs for x in leaves(t) if x.op == "carry")

    def summarise(self, st, s0, dom, d, carried, res, raised, n, uid0, skip):
        bv = mk("bv", d)
        cvs = set(carried.values())
        cont = [(self.guard(s0, s), s) for k, s, v, l in res if k in ("fall", "continue")]
        exits = [(k, self.guard(s0, s), s, v, l) for k, s, v, l in res
                 if k not in ("fall", "continue")]
        exits += [("raise", self.guard(s0, o.st), o.st, o.val, o.loc) for o in raised]
        und = []
        for g, s in cont:
            self.iteration_writes(s, s0, d, uid0, n)
        for g, s in cont:
            und += [u for u in s.und if u not in s0.und and u not in und]
        for e in exits:
            und += [u for u in e[2].und if u not in s0.und and u not in und]
        out = []
        E = FALSE
        fi = None
        dom0 = dom
        if exits:
            tree = decide([(g, FALSE) for g, _ in cont] + [(e[1], TRUE) for e in exits])
            cd = any(self.carries(a, cvs) for e in exits for a in e[1]) or \
                any(self.carries(a, cvs) for g, _ in cont for a in g if tree.op == "ite")
            if cd and self.carries(tree, cvs):
                alts = [("next", g, x, None, None) for g, x in cont] + list(exits)
                return self.run_machine(st, dom, d, carried, alts, n, uid0, und)
            else:
                E = exists_formula(dom, d, tree)
                fi = first_term(dom, d, tree)
        # normal completion
        if cont or dom.op == "upto":
            ss = [st] if E is FALSE else assume(st, E, False)
            if not cont:
                ss = [x for s in ss for x in assume(s, zero_formula(dom.args[0]), True)]
            for s in ss:
                s = s.clone()
                if cont:
                    self.apply_summary(s, st, dom, d, carried, cont, uid0, skip, n)
                    self.loop_events(s, dom, d, cont, st, carried, uid0)
                s.und = s.und + tuple(u for u in und if u not in s.und)
                out.append(("fall", s, None, None))
        # early exits
        for k, g, se, v, l in exits:
            base = assume(st, E, True)
            for s in base:
                s = s.clone()
                m = {bv: fi}
                if cont and not (isnum(fi) and fi.args[0] == 0):
                    pre = s.clone()
                    pdom = upto(fi)
                    self.apply_summary(pre, st, pdom, d, carried, cont, uid0, skip, n)
                    self.loop_events(s, pdom, d, cont, st, carried, uid0)
                else:
                    pre = st
                for c, cv in carried.items():
                    x = self.get_cell(pre, c)
                    if c[0] == "content" and x is not None:
                        if x.op == "seq":
                            x = mk("list", *x.args)
                        elif x.op == "setof":
                            x = mk("setv", x)
                    m[cv] = x if x is not None else UNDEF
                memo = {}
                ok = [s]
                for a, val in g.items():
                    a2 = subst(a, m, memo)
                    ok = [y for x in ok for y in assume(x, a2, val)]
                for s1 in ok:
                    s1 = s1.clone()
                    s1.ev = s1.ev + tuple(self.subst_ev(e, m, memo) for e in se.ev)
                    s1.env = {x: subst(y, m, memo) for x, y in se.env.items()}
                    s1.attrs = {(subst(a, m, memo), nm): subst(y, m, memo)
                                for (a, nm), y in se.attrs.items()}
                    s1.content = {subst(a, m, memo): self.flat(subst(y, m, memo))
                                  for a, y in se.content.items()}
                    s1.und = s1.und + tuple(u for u in und if u not in s1.und)
                    v1 = subst(v, m, memo) if isinstance(v, T) else v
                    if k == "raise":
                        from .interp import Outcome
                        self.sink.append(Outcome("raise", s1, v1, l))
                    else:
                        out.append((k, s1, v1, l))
        return out

    def iteration_writes(self, s, s0, d, uid0, n):
        """changes of values that depend on the iteration, as an effect of it"""
        ws = []
        for (b, name), v in s.attrs.items():
            if b.mbv >= d and not self.inner(b, uid0) and not name.startswith(".") and \
                    s0.attrs.get((b, name)) is not v and v is not mk("attr", b, name):
                ws.append((b, C(name), v, self.freeze(v, s)))
        for b, v in s.content.items():
            if b.mbv >= d and not self.inner(b, uid0) and s0.content.get(b) is not v and \
                    v is not mk("seq", mk("splice", b)):
                ws.append((b, C("[]"), v, self.freeze_content(v, s, (b,))))
        out = []
        for b, k, v, f in ws:
            if b.hasobj:
                self.unk(s, "a write into a nested container", n)
            else:
                out.append(mk("w", b, k, f))
        if out:
            s.event("cells", (mk("writes", *sorted(out)),), self.loc(n))

    def flat(self, c):
        """splices of literal lists are spliced in"""
        if c.op == "seq":
            ps = []
            for p in c.args:
                if p.op == "splice" and p.args[0].op == "list":
                    ps.extend(p.args[0].args)
                else:
                    ps.append(p)
            return mk("seq", *ps)
        if c.op == "setof" and c.args[0].op == "seq":
            ps = []
            for p in c.args[0].args:
                if p.op == "splice" and p.args[0].op == "setv" and \
                        p.args[0].args[0].op == "setof":
                    ps.extend(p.args[0].args[0].args[0].args)
                else:
                    ps.append(p)
            return setof(mk("seq", *ps))
        if c.op == "upd" and c.args[0].op == "upd":
            return mk("upd", *(c.args[0].args + c.args[1:]))
        return c

    def subst_ev(self, e, m, memo):
        if isinstance(e, LoopEv):
            return LoopEv(subst(e.args[0], m, memo), e.args[1], [
                (tuple((subst(a, m, memo), v) for a, v in g),
                 tuple(self.subst_ev(x, m, memo) for x in evs)) for g, evs in e.alts], e.loc)
        return Ev(e.kind, tuple(subst(a, m, memo) if isinstance(a, T) else a for a in e.args),
                  e.loc)

    def ev_carries(self, e, cvs):
        if isinstance(e, LoopEv):
            return self.carries(e.args[0], cvs) or any(
                any(self.carries(a, cvs) for a, _ in g) or
                any(self.ev_carries(x, cvs) for x in evs) for g, evs in e.alts)
        return any(isinstance(a, T) and self.carries(a, cvs) for a in e.args)

    def counting(self, st, dom, d, carried, cont, uid0):
        """the iterations, with variables that only count them replaced by the index"""
        if dom.op != "upto" or not machine.ELIMINATE[0]:
            return cont
        m = {}
        for c, cv in carried.items():
            if c[0] != "env":
                continue
            init = self.get_cell(st, c)
            ks = set()
            for _, x in cont:
                v = self.frozen_new(self.get_cell(x, c), x, uid0)
                ks.add(add(v, cv, -1) if isinstance(v, T) else None)
            k = next(iter(ks)) if len(ks) == 1 else None
            if k is not None and isnum(k) and kind(init) in ("i", "f"):
                m[cv] = add(init, mul(k, mk("bv", d)))
        if not m or not any(self.carries(a, set(m)) for g, x in cont for a in g) and not any(
                self.ev_carries(e, set(m)) for _, x in cont for e in x.ev):
            return cont
        machine.ELIMINATED[0] = True
        out = []
        for g, x in cont:
            x = x.clone()
            x.ev = tuple(ev_subst(e, m) for e in x.ev)
            out.append(({subst(a, m): v for a, v in g.items()}, x))
        return out

    def loop_events(self, s, dom, d, cont, st, carried, uid0):
        if not any(x.ev for _, x in cont):
            return
        cont = self.counting(st, dom, d, carried, cont, uid0)
        cvs = set(carried.values())
        if self.tally:
            tally.loop_check(self, cont, s)
        if any(self.carries(a, cvs) for g, x in cont for a in g) or any(
                self.ev_carries(e, cvs) for _, x in cont for e in x.ev):
            self.machine_events(s, st, dom, d, carried, [
                ("next", g, x, None, None) for g, x in cont], uid0,
                next(e.loc for _, x in cont for e in x.ev))
            return
        alts = []
        for g, x in cont:
            gg = tuple(sorted(g.items(), key=lambda kv: kv[0].d))
            evs = tuple(x.ev)
            alts.append((gg, evs))
        loc = next(e.loc for _, x in cont for e in x.ev)
        s.ev = s.ev + (LoopEv(dom, d, alts, loc),)

    def apply_summary(self, s, st, dom, d, carried, cont, uid0, skip, n):
        """write the closed effect of the iterations over `dom` into state s"""
        bv = mk("bv", d)
        cvs = set(carried.values())
        self.mach = (st, dom, d, carried, [("next", g, x, None, None) for g, x in cont], uid0)
        for c, cv in carried.items():
            init = self.get_cell(st, c)
            alts = [(g, self.frozen_new(self.get_cell(x, c), x, uid0)) for g, x in cont]
            v = self.summary(c, cv, init, alts, dom, d, cvs, s, n)
            self.set_cell(s, c, v)
        # names first bound in the loop, and its targets
        names = set()
        for g, x in cont:
            for k, v in x.env.items():
                if ("env", k) not in carried and st.env.get(k) is not v:
                    names.add(k)
        if dom.op == "upto":
            last = add(dom.args[0], C(1), -1)
        else:
            last = mk("lastidx", dom)
        m = {bv: last}
        for k in names:
            vals = {self.frozen_new(x.env.get(k), x, uid0) for g, x in cont}
            if len(vals) == 1:
                v = next(iter(vals))
                if v is not None and not self.carries(v, cvs):
                    v = subst(v, m)
                    if k in st.env and dom.op == "upto":
                        z = zero_formula(dom.args[0])
                        e = z is TRUE or entails(s.pc, z)
                        if z is not FALSE and e is not False:
                            old = st.env[k]
                            if isinstance(old, T) and z.op in ("not",):
                                v = ite(z.args[0], v, old)
                            elif z.op not in ("and", "or"):
                                v = ite(z, old, v)
                    s.env[k] = v
                    continue
            self.uid += 1
            c = ("env", k)
            cc = dict(carried)
            cc[c] = mk("carry", d, k, self.uid)
            s.env[k] = self.after(st, dom, d, cc, self.mach[4], uid0, c)
        # effects on elements of the iteration are kept as events only
        for mp in (s.attrs, s.content):
            for key in [q for q in mp if (q[0] if isinstance(q, tuple) else q).mbv >= d]:
                del mp[key]

    def summary(self, c, cv, init, alts, dom, d, cvs, s, n):
        bv = mk("bv", d)
        if all(v is cv for _, v in alts):
            return init
        gcar = any(self.carries(a, cvs) for g, _ in alts for a in g)
        if gcar and all(v is not None for _, v in alts):
            # does what happens to this cell depend on the carried facts at all?
            few = list(paths(decide(alts)))
            if not any(self.carries(a, cvs) for g, _ in few for a in g):
                alts, gcar = few, False
        if c[0] == "content":
            r = self.content_summary(cv, init, alts, dom, d, cvs, gcar)
            if r is not None:
                return r
            return self.after(*(self.mach + (c,)))
        if init is None:
            init = UNDEF
        if init.op == "obj" and self.objcls.get(init) == "set":
            init = self.freeze(init, s)
        if not gcar and init.op == "setv" and all(
                v is cv or v is not None and v.op == "setv" for _, v in alts):
            r = self.set_summary(cv, init.args[0], [
                (g, v.args[0] if v.op == "setv" else self.as_content("S", v))
                for g, v in alts], dom, d, cvs)
            if r is not None:
                return mk("setv", r)
        if not gcar:
            # accumulation
            deltas = []
            for g, v in alts:
                if v is None:
                    break
                if v is cv:
                    deltas.append((g, C(0)))
                    continue
                if v.op == "num":
                    dl = add(v, cv, -1)
                    if not self.carries(dl, cvs):
                        deltas.append((g, dl))
                        continue
                break
            else:
                return add(init, sum_loop(dom, d, deltas))
            # string building
            if all(v is cv or (v.op == "concat" and v.args[0] is cv and not any(
                    self.carries(x, cvs) for x in v.args[1:])) for _, v in alts if v):
                part = mk_each(dom, d, [(g, EMPTY if v is cv else mk("seq", *[
                    mk("item", x) for x in v.args[1:]])) for g, v in alts])
                j = mk("join", C(""), mk("list", part)) if part is not None else C("")
                return mk("concat", init, j) if init is not C("") else j
            # plain assignment
            if all(v is cv or (v is not None and not self.carries(v, cvs)) for _, v in alts):
                keep = any(v is cv for _, v in alts)
                vals = {v for _, v in alts if v is not cv}
                if keep and len(vals) == 1:
                    v = next(iter(vals))
                    tree = decide([(g, FALSE if x is cv else TRUE) for g, x in alts])
                    if v.mbv < d:
                        from .binders import rebuild_ite
                        return rebuild_ite(exists_formula(dom, d, tree), v, init)
                if not keep:
                    tree = decide(alts)
                    last = add(dom.args[0], C(1), -1) if dom.op == "upto" else mk("lastidx", dom)
                    v = subst(tree, {bv: last})
                    if dom.op == "upto":
                        from .binders import rebuild_ite
                        z = zero_formula(dom.args[0])
                        e = entails(s.pc, z) if z.op not in ("c", "not") else None
                        if z.op == "not":
                            e = entails(s.pc, z.args[0])
                            e = None if e is None else not e
                        if z is FALSE or e is False:
                            return v
                        return rebuild_ite(z, init, v)
                    return v
                tree = decide([(g, mk("keep") if x is cv else x) for g, x in alts])
                return bind("lastof", dom, d, tree, init)
        # running maximum / minimum
        r = self.extremum(cv, init, alts, dom, d, cvs)
        if r is not None:
            return r
        return self.after(*(self.mach + (c,)))

    def extremum(self, cv, init, alts, dom, d, cvs):
        upd = None
        which = None
        rest = []
        for g, v in alts:
            ca = {a: b for a, b in g.items() if self.carries(a, cvs)}
            ng = {a: b for a, b in g.items() if a not in ca}
            if v is None or len(ca) > 1:
                return None
            if v is not cv:
                if self.carries(v, cvs) or (upd is not None and upd is not v):
                    return None
                upd = v
            rest.append((ng, ca, v))
        if upd is None:
            return None

        def lit(f):
            return (f.args[0], False) if f.op == "not" else (f, True)
        gt, le = lit(lt(cv, upd)), lit(f_not(lt(cv, upd)))
        ltt, ge = lit(lt(upd, cv)), lit(f_not(lt(upd, cv)))
        out = []
        for ng, ca, v in rest:
            if not ca:
                if v is not cv:
                    return None
                out.append((ng, EMPTY))
                continue
            p = next(iter(ca.items()))
            if v is not cv:
                w = "max" if p in (gt, ge) else "min" if p in (ltt, le) else None
                if w is None or which not in (None, w):
                    return None
                which = w
                out.append((ng, mk("seq", mk("item", upd))))
            else:
                out.append((ng, None))
        upds = [g for g, x in out if x is not None and x is not EMPTY]
        fin = []
        for g, x in out:
            if x is None:
                if g not in upds:
                    return None
                continue
            fin.append((g, x))
        part = mk_each(dom, d, fin)
        ps = (mk("item", init),) + ((part,) if part is not None else ())
        return mk(which, mk("list", *ps))

    def content_summary(self, cv, init, alts, dom, d, cvs, gcar):
        if gcar:
            return self.unseen(cv, init, alts, dom, d, cvs)
        bv = mk("bv", d)
        kinds = {v.op for _, v in alts}
        sp = mk("splice", cv)
        if kinds == {"seq"}:
            if all(v.args and v.args[0] is sp and not any(
                    self.carries(p, cvs) for p in v.args[1:]) for _, v in alts):
                part = mk_each(dom, d, [(g, mk("seq", *v.args[1:])) for g, v in alts])
                if part is None:
                    return init
                base = init.args if init.op == "seq" else None
                if base is None:
                    return None
                return self.flat(mk("seq", *(base + (part,))))
            if all(v.args and v.args[-1] is sp and not any(
                    self.carries(p, cvs) for p in v.args[:-1]) for _, v in alts) \
                    and dom.op == "upto" and init.op == "seq":
                back = {bv: add(add(dom.args[0], C(1), -1), bv, -1)}
                part = mk_each(dom, d, [({subst(a, back): b for a, b in g.items()},
                                         subst(mk("seq", *v.args[:-1]), back))
                                        for g, v in alts])
                return mk("seq", *(((part,) if part is not None else ()) + init.args))
            return None
        if kinds <= {"setof", "union", "inter", "diff"}:
            return self.set_summary(cv, init, alts, dom, d, cvs)
        if kinds <= {"upd", "seq"}:
            al = []
            for g, v in alts:
                if v.op == "seq":
                    if v.args != (sp,):
                        return None
                    al.append((g, EMPTY))
                    continue
                b = v.args[0]
                if not (b is cv or b == mk("seq", sp)):
                    return None
                new = v.args[1:]
                if any(self.carries(w, cvs) for w in new):
                    if len(alts) == 1 and not g and len(new) == 1 and dom.op == "upto":
                        new = self.running(cv, init, new[0], d, cvs)
                    else:
                        return None
                    if new is None:
                        return None
                al.append((g, mk("seq", *new)))
            part = mk_each(dom, d, al)
            if part is None:
                return init
            if init.op == "upd":
                return mk("upd", *(init.args + (part,)))
            return mk("upd", init, part)
        return None

    def unseen(self, cv, init, alts, dom, d, cvs):
        """a list to which every iteration adds an item unless it is there already"""
        sp = mk("splice", cv)
        known = None
        new, old = [], []
        for g, v in alts:
            ca = [a for a in g if self.carries(a, cvs)]
            if v.op != "seq" or v.args[:1] != (sp,) or len(ca) > 1 or init.op != "seq":
                return None
            if not ca:
                if len(v.args) > 1:
                    return None
                new.append((g, EMPTY))
                continue
            a = ca[0]
            if a.op != "in" or not (a.args[1] is cv or a.args[1].op == "inst" and
                                    mk("seq", sp) in a.args[1].args) or self.carries(a.args[0], cvs) or \
                    known not in (None, a):
                return None
            known = a
            rest = {f: x for f, x in g.items() if f is not a}
            if g[a]:
                if len(v.args) > 1:
                    return None
                old.append(rest)
            else:
                if v.args[1:] != (mk("item", a.args[0]),):
                    return None
                new.append((rest, mk("seq", mk("item", a.args[0]))))
        if any(g not in [h for h, _ in new] for g in old):
            return None
        part = mk_each(dom, d, new)
        if part is None:
            return init
        return mk("seq", *(init.args + (mk("splice", mk("unseen", mk("list", *init.args),
                                                        mk("list", part))),)))

    def running(self, cv, init, entry, d, cvs):
        """entries that each add something to the one before: running totals"""
        if entry.op != "kv" or init.op != "upd":
            return None
        key, val = entry.args
        bv = mk("bv", d)
        keys = key.args if key.op == "tuple" else (key,)
        if sum(k.mbv >= d for k in keys) != 1 or any(self.carries(k, cvs) for k in keys):
            return None
        if not all(k.mbv < d or isnum(add(k, bv, -1)) for k in keys):
            return None
        before = subst(key, {bv: add(bv, C(1), -1)})
        start = subst(before, {bv: C(0)})
        old = None
        for p in reversed(init.args[1:]):
            if p.op != "kv":
                q = p
                while q.op in ("each", "seq"):
                    if q.op == "seq" and len(q.args) != 1:
                        return None
                    q = q.args[2] if q.op == "each" else q.args[0]
                if q.op != "kv" or not apart(q.args[0], start):
                    return None
                continue
            e = eq(p.args[0], start)
            if e is TRUE:
                old = p.args[1]
                break
            if not apart(p.args[0], start):
                return None
        if old is None:
            return None
        read = mk("sub", cv, before)
        vals = val.args if val.op == "tuple" else (val,)
        for i, v in enumerate(vals):
            here, zero = read, old
            if val.op == "tuple":
                here = mk("sub", read, C(i))
                zero = old.args[i] if old.op == "tuple" and i < len(old.args) else None
            step = add(v, here, -1) if zero is not None and v.op == "num" else None
            if step is None or self.carries(step, cvs):
                continue
            inner = subst(step, {bv: mk("bv", d + 1)})
            if step.mbv > d or not self.numeric(zero):
                return None
            total = add(zero, sum_loop(mk("upto", bv), d + 1, [({}, inner)]))
            new = subst(val, {here: total})
            if val.op == "tuple":
                new = mk("tuple", *[add(total, step) if j == i else subst(x, {here: total})
                                    for j, x in enumerate(vals)])
            else:
                new = add(total, step)
            return None if self.carries(new, cvs) else (mk("kv", key, new),)
        return None

    def set_summary(self, cv, init, alts, dom, d, cvs):
        """a set to which every iteration adds, or which every iteration cuts down"""
        cell = self.as_content("S", cv)
        sp = mk("splice", cv)
        add_, cut, drop = [], [], []
        for g, v in alts:
            if v is cell:
                new = common = less = EMPTY
            elif v.op in ("setof", "union"):
                common = less = EMPTY
                ps = []
                found = False
                for x in (v.args if v.op == "union" else (v,)):
                    if x.op == "setof" and x.args[0].op == "seq":
                        q = [p for p in x.args[0].args if p is not sp]
                        found = found or len(q) < len(x.args[0].args)
                        ps.extend(q)
                    else:
                        ps.append(mk("splice", mk("setv", x)))
                if not found:
                    return None
                new = mk("seq", *ps)
            elif v.op == "inter" and cell in v.args:
                new = less = EMPTY
                common = mkset("inter", *[x for x in v.args if x is not cell])
            elif v.op == "diff" and v.args[0] is cell:
                new = common = EMPTY
                less = mk("seq", *[mk("splice", mk("setv", x)) for x in v.args[1:]])
            else:
                return None
            if any(self.carries(x, cvs) for x in (new, common, less)):
                return None
            add_.append((g, new))
            cut.append((g, common))
            drop.append((g, less))
        if sum(any(x is not EMPTY for _, x in xs) for xs in (add_, cut, drop)) != 1:
            return None
        if any(x is not EMPTY for _, x in cut):
            return mkset("inter", init, bind("interof", dom, d, decide(cut)))
        less = any(x is not EMPTY for _, x in drop)
        part = mk_each(dom, d, drop if less else add_)
        if part is None:
            return init
        if less:
            return mkset("diff", init, setof(mk("seq", part)))
        if init.op != "setof" or init.args[0].op != "seq":
            return mkset("union", init, setof(mk("seq", part)))
        return setof(mk("seq", *(init.args[0].args + (part,))))

    # -- while ------------------------------------------------------------------------
    def s_While(self, n, st):
        r = self.while_index(n, st)
        if r is None:
            r = self.while_generic(n, st)
        return self.loop_end(n, r)

    def assigned(self, n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
                and isinstance(x.ctx, ast.Store)}

    def while_index(self, n, st):
        """`while i < N: ... i += 1` as an iteration over 0..N-i-1"""
        cands = []
        for x in n.body:
            if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and \
                    isinstance(x.target, ast.Name) and isinstance(x.value, ast.Constant) \
                    and x.value.value == 1:
                cands.append(x.target.id)
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BinOp) and \
                    isinstance(x.value.op, ast.Add):
                cands.append(x.targets[0].id)
        if any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b)):
            return None
        for i in cands:
            stores = [x for b in n.body for x in ast.walk(b)
                      if isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Store)]
            init = st.env.get(i)
            if len(stores) != 1 or init is None:
                continue
            u = self.uid = self.uid + 1
            probe = mk("carry", self.depth, i, u)
            HINTS[probe] = "i"
            s = st.clone()
            s.env[i] = probe
            for nm in self.assigned(n) - {i}:
                if nm in s.env:
                    self.uid += 1
                    s.env[nm] = mk("unk", self.uid)
            saved = (self.sink, self.reasons)
            self.sink, self.reasons = [], []
            try:
                pos = [x for x, b in self.cond(n.test, s) if b]
            finally:
                self.sink, self.reasons = saved
            common = None
            for x in pos:
                found = []
                for a, v in x.pc.items():
                    if a in st.pc:
                        continue
                    p = a.args[0] if a.op == "pos" else None
                    if p is None:
                        continue
                    # v: p > 0 ; not v: p <= 0, i.e. 1 - p > 0
                    e = p if v else add(C(1), p, -1)
                    N = add(e, probe)            # e = N - i
                    if not N.car and not N.unk and e.car:
                        found.append(N)
                common = found if common is None else [N for N in common if N in found]
            if not common:
                continue
            bound = common[0] if len(common) == 1 else self.mm("min", common)
            dom = upto(add(bound, init, -1))

            def iterate(s, bv):
                s = s.clone()
                s.env[i] = add(init, bv)
                fact = lt(s.env[i], bound)
                out = []
                pre = assume(s, fact, True)
                for s1 in pre:
                    known = [a for a in s1.pc if a not in s.pc]
                    for s2, b in self.cond(n.test, s1):
                        res = self.block(n.body, [s2]) if b else [("break", s2, None, None)]
                        for k, s3, v, l in res:
                            s3 = s3.clone()
                            for a in known:
                                s3.pc.pop(a, None)
                            out.append((k, s3, v, l))
                return out
            tgt = ast.Name(id=i, ctx=ast.Store())
            k = isnum_dom(dom)
            if k is not None and k <= 8:
                return self.while_unrolled(n, st, i, init, k)
            res = self.loop_generic(st, dom, iterate, n, tgt)
            out = []
            for k, s, v, l in res:
                if k == "fall":
                    s = s.clone()
                    s.env[i] = bound if True else None
                out.append((k, s, v, l))
            return out
        return None

    def while_unrolled(self, n, st, i, init, k):
        """a loop that is known to run at most k times"""
        out = []
        cur = [st]
        for j in range(k):
            nxt = []
            for s in cur:
                for s2, b in self.cond(n.test, s):
                    if not b:
                        out.append(("fall", s2, None, None))
                        continue
                    for r in self.block(n.body, [s2]):
                        if r[0] in ("fall", "continue"):
                            nxt.append(r[1])
                        else:
                            out.append(r)
            cur = self.merge(nxt) if len(nxt) > 1 else nxt
            if not cur:
                break
        for s in cur:
            for s2, b in self.cond(n.test, s):
                if b:
                    self.unk(s2, "a loop that runs on", n)
                out.append(("fall", s2, None, None))
        return out

    def while_generic(self, n, st):
        uid0 = self.uid
        d = self.depth
        self.depth += 1
        carried = {}
        try:
            for rnd in range(6):
                s0 = st.clone()
                s0.ev = ()
                for c, cv in carried.items():
                    self.set_cell(s0, c, self.havoc(self.get_cell(st, c), cv, c))
                saved = self.sink
                self.sink = []
                res = []
                stops = []
                try:
                    for s, b in self.cond(n.test, s0.clone()):
                        if b:
                            res.extend(self.block(n.body, [s]))
                        else:
                            stops.append(s)
                    raised = self.sink
                finally:
                    self.sink = saved
                new = set()
                for k, s, v, l in res:
                    if k in ("fall", "continue"):
                        new |= self.cells(s0, s, uid0, d, ())
                new = {c for c in new if c not in carried and
                       self.get_cell(st, c) is not None}
                kinds_ok = self.update_kinds(carried, st, res)
                if not new and kinds_ok:
                    break
                for c in sorted(new, key=str):
                    self.uid += 1
                    carried[c] = mk("carry", d, c[1] if c[0] == "env" else c[-1]
                                    if c[0] == "attr" else "content", self.uid)
        finally:
            self.depth -= 1
        alts = []
        for k, s, v, l in res:
            alts.append(("next" if k in ("fall", "continue") else k, self.guard(s0, s), s, v, l))
        for s in stops:
            alts.append(("stop", self.guard(s0, s), s, None, None))
        for o in raised:
            alts.append(("raise", self.guard(s0, o.st), o.st, o.val, o.loc))
        und = []
        for a in alts:
            und += [u for u in a[2].und if u not in s0.und and u not in und]
        if not any(a[0] == "next" for a in alts):
            # at most one iteration
            out = []
            for k, g, s, v, l in alts:
                s = s.clone()
                s.ev = st.ev + s.ev
                if k == "raise":
                    from .interp import Outcome
                    self.sink.append(Outcome("raise", s, v, l))
                else:
                    out.append(("fall" if k == "stop" else k, s, v, l))
            return out
        return self.run_machine(st, WHILE, d, carried, alts, n, uid0, und)
