"""Abstract interpreter: statements, functions, exceptions.

It walks syntax trees over the value-numbering domain of terms.py, keeps the
alternatives of a function apart by their branch facts (trace partitioning),
inlines the repository's own functions, and summarises every loop by one
generic iteration.  No input value is ever chosen, no path is handed to a
solver.
"""
import ast

from .load import Print, Exec, AnalysisError
from .model import Func, Cls, Mod, walk_fn
from .state import State, Ty, Ev, LoopEv, assume, entails, truth_atom
from .terms import (neg, T, mk, C, NONE, TRUE, FALSE, EMPTY, isc, isnum, isstr,
                    f_not, f_and, f_or, eq, subst)
from . import tally
from .exprs import Exprs
from .calls import Calls
from .loops import Loops


from .binders import TooComplex

BASES = {
    "Exception": "BaseException", "StandardError": "Exception",
    "ArithmeticError": "StandardError", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "LookupError": "StandardError",
    "KeyError": "LookupError", "IndexError": "LookupError",
    "ValueError": "StandardError", "UnicodeError": "ValueError",
    "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "TypeError": "StandardError", "AttributeError": "StandardError",
    "NameError": "StandardError", "AssertionError": "StandardError",
    "EnvironmentError": "StandardError", "IOError": "EnvironmentError",
    "OSError": "EnvironmentError", "ImportError": "StandardError",
    "EOFError": "StandardError", "RuntimeError": "StandardError",
    "NotImplementedError": "RuntimeError", "StopIteration": "Exception",
    "Warning": "Exception", "UserWarning": "Warning",
    "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "NetworkXError": "Exception", "NetworkXException": "Exception",
    "SyntaxError": "StandardError", "ParseError": "SyntaxError",
    "ExpatError": "Exception", "ArgumentTypeError": "Exception",
}


ASSERTED = mk("asserted")    # raised by an assert statement


class Frame:
    """static context of the code being walked"""

    def __init__(self, mod, fn=None, cls=None, outer=None, locals_=()):
        self.mod = mod
        self.fn = fn
        self.cls = cls
        self.outer = outer          # closure environment (dict) or None
        self.locals = locals_


class Outcome:
    __slots__ = ("kind", "st", "val", "loc", "interp")

    def __init__(self, kind, st, val=None, loc=None):
        self.kind = kind       # "return" | "raise"
        self.st = st
        self.val = val
        self.loc = loc

    def __repr__(self):
        return "<%s %s | %s | %s>" % (
            self.kind, self.val,
            " & ".join(("" if v else "!") + str(a) for a, v in self.st.pc.items()),
            list(self.st.ev))


_localcache = {}


def local_names(node):
    r = _localcache.get(node)
    if r is not None:
        return r
    names = set()
    glob = set()
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for x in a.args:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add(al.asname or al.name.split(".")[0])
        todo.extend(ast.iter_child_nodes(n))
    r = _localcache[node] = names - glob
    return r


class Interp(Exprs, Calls, Loops):
    def __init__(self, prog, types=None, opaque=(), watch=(), max_states=3000,
                 max_depth=14, pure_calls=(), hooks=None, max_steps=400000):
        self.prog = prog
        self.fieldty = types or {}      # class qual -> {field: Ty}
        self.opaque = set(opaque)       # method/function names not to inline
        self.opaque_in = tuple(o[:-1] for o in self.opaque if o.endswith(".*"))
        self.watch_all = set(watch)     # implicit exceptions always explored
        self.max_states = max_states
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.hooks = hooks or {}
        self.steps = 0
        self.uid = 0
        self.types = {}                 # term -> Ty
        self.objcls = {}                # obj term -> Cls or external name
        self.closures = {}
        self.frames = []
        self.stack = []                 # Func being inlined
        self.sink = []                  # raise outcomes of the current region
        self.watch = []                 # handler class names, innermost last
        self.depth = 0                  # loop nesting level
        self.handling = []              # exception being handled
        self.yields = []                # generator collectors
        self.reasons = []
        self.analysed = set()           # functions walked
        self.nsites = 0
        self.pure_calls = set(pure_calls)
        self.pure_pats = [p for p in pure_calls if "." not in p]
        self.loopnew = set()
        self.dests = None               # attributes of the parsed command line
        self.curloc = None
        self.tally = False
        self.big = set()                # callees given up on (kept opaque)
        self.callee_steps = 6000
        self.callee_outs = 48

    # -- helpers -------------------------------------------------------------
    def fr(self):
        return self.frames[-1]

    def loc(self, node):
        f = self.fr()
        return (f.mod.rel, getattr(node, "lineno", 0) or 0,
                f.fn.qual if f.fn else f.mod.name)

    def unk(self, st, why, node=None):
        self.uid += 1
        if node is not None:
            l = self.loc(node)
            why = "%s (%s:%s in %s)" % (why, l[0], l[1], l[2])
        st.und = st.und + (why,)
        self.reasons.append(why)
        return mk("unk", self.uid)

    def new(self, cls):
        self.uid += 1
        t = mk("obj", self.uid)
        self.objcls[t] = cls
        return t

    def step(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise TooComplex("step budget")

    def check(self, states):
        if len(states) > self.max_states:
            raise TooComplex("too many alternatives (%d) at %s" % (
                len(states), self.curloc))
        return states

    # -- types -----------------------------------------------------------------
    def typeof(self, t):
        ty = self.types.get(t)
        if ty is not None:
            return ty
        o = t.op
        if o.startswith("nx"):
            return self.nx_type(t)
        if o == "obj":
            c = self.objcls.get(t)
            if isinstance(c, Cls):
                return Ty(c.qual)
            return Ty(c) if c else None
        if o == "inst":
            return Ty(t.args[0])
        if o == "attr":
            b = self.typeof(t.args[0])
            if b is not None:
                f = b.fields.get(t.args[1])
                if f is not None:
                    return f
                return self.field_type(b.name, t.args[1])
            return None
        if o == "sub":
            b = self.typeof(t.args[0])
            if b is not None and t.args[1].op == "slice":
                return b
            if b is not None and b.elem is not None:
                if isinstance(b.elem, dict):
                    k = t.args[1]
                    return b.elem.get(k.args[0]) if isc(k) else b.elem.get("*")
                return b.elem
            if b is not None:
                e = self.field_type(b.name, "[]")
                return e
            return None
        if o in ("reversed", "sortedof", "iter"):
            ty = self.typeof(t.args[0])
            return None if ty is not None and (ty.name == "dict" or self.is_mapping(t.args[0])) \
                else ty
        if o == "first":
            return None
        return None

    def field_type(self, clsname, field):
        c = self.prog.find(clsname) if "." in clsname else None
        if isinstance(c, Cls):
            for b in c.mro:
                q = b.qual if isinstance(b, Cls) else b
                ft = self.fieldty.get(q)
                if ft and field in ft:
                    return ft[field]
            return None
        ft = self.fieldty.get(clsname)
        return ft.get(field) if ft else None

    def cls_of(self, t):
        """repository class of a value, or None"""
        ty = self.typeof(t)
        if ty is not None and "." in ty.name:
            c = self.prog.find(ty.name)
            if isinstance(c, Cls):
                return c
        return None

    # -- exceptions ------------------------------------------------------------
    def exc_bases(self, name):
        out = []
        c = self.prog.find(name) if "." in name else None
        if isinstance(c, Cls):
            for b in c.mro:
                if isinstance(b, Cls):
                    out.append(b.qual)
                else:
                    out.extend(self.exc_bases(b))
            return out
        n = name.split(".")[-1]
        while n:
            out.append(n)
            n = BASES.get(n)
        return out

    def catches(self, handler, exc):
        """handler: set of class names or None (bare)"""
        if handler is None:
            return True
        bs = self.exc_bases(exc)
        for h in handler:
            if h in bs or h.split(".")[-1] in bs:
                return True
        return False

    def watched(self, exc):
        if exc in self.watch_all:
            return True
        for hs in reversed(self.watch):
            for h in hs:
                if self.catches(h, exc):
                    return True
        return False

    def may_raise(self, st, exc, formula, node):
        """fork on an implicit exception when someone is interested in it"""
        if not self.watched(exc):
            return [st]
        for s in assume(st, formula, True):
            s = s.clone()
            self.sink.append(Outcome("raise", s, mk("exc", exc), self.loc(node)))
        return [s for s in assume(st, formula, False)]

    # -- entry --------------------------------------------------------------------
    def run(self, fn, args=None, kwargs=None, st=None, selfty=None):
        """analyse function `fn` with symbolic parameters -> [Outcome]"""
        st = st or State()
        node = fn.node
        a = node.args
        args = dict(args or {})
        vals = []
        frame = Frame(fn.mod, fn, fn.cls, None, local_names(node))
        env = {}
        for i, p in enumerate(a.args):
            if p.arg in args:
                v = args[p.arg]
            else:
                v = mk("param", p.arg)
                if i == 0 and fn.cls is not None and not fn.static:
                    if fn.classm:
                        v = mk("cls", (selfty or fn.cls.qual))
                    elif v not in self.types:
                        self.types[v] = Ty(selfty or fn.cls.qual)
            env[p.arg] = v
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, mk("param", a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, mk("param", a.kwarg.arg))
        s = st.clone()
        s.env = env
        return self.body_outcomes(fn, frame, s)

    def body_outcomes(self, fn, frame, st):
        node = fn.node
        self.analysed.add(fn.qual)
        self.frames.append(frame)
        self.stack.append(fn)
        saved = self.sink
        self.sink = []
        gen = None
        if fn.is_gen:
            gen = self.new("list")
            st.content[gen] = EMPTY
            self.yields.append(gen)
        try:
            outs = []
            for k, s, v, l in self.block(node.body, [st]):
                if k == "fall":
                    outs.append(Outcome("return", s, gen if gen is not None else NONE,
                                        (fn.mod.rel, getattr(node.body[-1], "lineno", 0),
                                         fn.qual)))
                elif k == "return":
                    outs.append(Outcome("return", s, gen if gen is not None else v, l))
                else:
                    outs.append(Outcome("return", s, self.unk(s, k), l))
            outs.extend(self.sink)
            return outs
        finally:
            self.sink = saved
            self.frames.pop()
            self.stack.pop()
            if gen is not None:
                self.yields.pop()

    # -- statements -----------------------------------------------------------------
    # block: list of states -> list of (kind, state, value, loc)
    # kinds: fall, return, break, continue     (raise goes to self.sink)

    def block(self, body, states):
        out = []
        cur = states
        for stmt in body:
            if not cur:
                break
            self.check(cur)
            nxt = []
            for s in cur:
                self.step()
                for r in self.stmt(stmt, s):
                    if r[0] == "fall":
                        nxt.append(r[1])
                    else:
                        out.append(r)
            cur = self.merge(nxt) if len(nxt) > 1 else nxt
        out.extend(("fall", s, None, None) for s in cur)
        return self.check(out)

    def merge(self, states):
        """join states that differ in nothing but the polarity of one fact"""
        n = len(states)
        if n < 2 or n > 400:
            return states
        groups = {}
        order = []
        for s in states:
            k = (frozenset(s.env.items()), frozenset(s.attrs.items()),
                 frozenset(s.content.items()),
                 tally.others(s.ev) if self.tally else s.ev, s.und)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        out = []
        for k in order:
            g = groups[k]
            changed = len(g) > 1
            while changed:
                changed = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        a, b = g[i].pc, g[j].pc
                        if a == b:
                            if g[i].ev != g[j].ev:
                                continue
                            del g[j]
                            changed = True
                            break
                        if len(a) == len(b):
                            diff = [x for x in a if x not in b or b[x] != a[x]]
                            if len(diff) == 1 and diff[0] in b:
                                s = g[i].clone()
                                if s.ev != g[j].ev:
                                    s.ev = tally.either(diff[0], a[diff[0]], s.ev, g[j].ev)
                                del s.pc[diff[0]]
                                g[i] = s
                                del g[j]
                                changed = True
                                break
                    if changed:
                        break
            out.extend(g)
        return out

    def stmt(self, n, st):
        self.curloc = self.loc(n)
        m = getattr(self, "s_" + n.__class__.__name__, None)
        if m is None:
            self.unk(st, "statement " + n.__class__.__name__, n)
            return [("fall", st, None, None)]
        return m(n, st)

    def falls(self, states):
        return [("fall", s, None, None) for s in states]

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return self.falls([st])
        return self.falls([s for s, _ in self.ev(n.value, st)])

    def s_Pass(self, n, st):
        return self.falls([st])

    def s_Global(self, n, st):
        return self.falls([st])

    def s_Import(self, n, st):
        st = st.clone()
        for a in n.names:
            if a.asname:
                st.env[a.asname] = self.binding(self.prog.mod_or_ext(a.name), a.name)
            else:
                top = a.name.split(".")[0]
                st.env[top] = self.binding(self.prog.mod_or_ext(top), top)
        return self.falls([st])

    def s_ImportFrom(self, n, st):
        st = st.clone()
        mod = self.prog._absmod(self.fr().mod, n)
        for a in n.names:
            st.env[a.asname or a.name] = self.binding(
                self.prog.module_attr(mod, a.name), mod + "." + a.name)
        return self.falls([st])

    def s_FunctionDef(self, n, st):
        st = st.clone()
        st.env[n.name] = self.closure(n, st)
        return self.falls([st])

    def s_ClassDef(self, n, st):
        st = st.clone()
        st.env[n.name] = self.unk(st, "local class", n)
        return self.falls([st])

    def s_Return(self, n, st):
        l = self.loc(n)
        if n.value is None:
            return [("return", st, NONE, l)]
        return [("return", s, v, l) for s, v in self.ev(n.value, st)]

    def s_Break(self, n, st):
        return [("break", st, None, self.loc(n))]

    def s_Continue(self, n, st):
        return [("continue", st, None, self.loc(n))]

    def s_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            cur = [s]
            for t in n.targets:
                cur = [s3 for s2 in cur for s3 in self.assign(t, v, s2)]
            out.extend(cur)
        return self.falls(out)

    def s_AugAssign(self, n, st):
        out = []
        t = n.target
        if isinstance(t, ast.Name):
            load = ast.Name(id=t.id, ctx=ast.Load())
            ast.copy_location(load, t)
            for s, old in self.ev(load, st):
                for s2, v in self.ev(n.value, s):
                    for s3, r in self.inplace(n.op, old, v, s2, n):
                        out.extend(self.assign(t, r, s3))
        elif isinstance(t, ast.Attribute):
            for s, b in self.ev(t.value, st):
                for s1, old in self.getattr_(b, t.attr, s, t):
                    for s2, v in self.ev(n.value, s1):
                        for s3, r in self.inplace(n.op, old, v, s2, n):
                            out.extend([s3] if r is old and not isc(r) else
                                       self.setattr_(b, t.attr, r, s3, n))
        elif isinstance(t, ast.Subscript):
            for s, b in self.ev(t.value, st):
                for s0, i in self.ev(t.slice, s):
                    if self.tally and not self.fresh(b) and tally.target(n.op) and \
                            self.cls_of(b) is None:
                        for s2, v in self.ev(n.value, s0):
                            if isinstance(n.op, ast.Sub):
                                v = neg(v)
                            s2 = s2.clone()
                            s2.event("inc", (mk("sub", b, i), v), self.loc(n))
                            out.append(s2)
                        continue
                    for s1, old in self.getitem(b, i, s0, t):
                        for s2, v in self.ev(n.value, s1):
                            for s3, r in self.inplace(n.op, old, v, s2, n):
                                out.extend(self.setitem(b, i, r, s3, n))
        else:
            self.unk(st, "augmented assignment", n)
            out.append(st)
        return self.falls(out)

    def s_Delete(self, n, st):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s = s.clone()
                    s.env.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.ev(t.value, s):
                        s1 = s1.clone()
                        s1.attrs[(b, t.attr)] = mk("deleted")
                        s1.event("delattr", (b, t.attr), self.loc(n))
                        nxt.append(s1)
                elif isinstance(t, ast.Subscript):
                    for s1, b in self.ev(t.value, s):
                        for s2, i in self.ev(t.slice, s1):
                            nxt.extend(self.delitem(b, i, s2, n))
                else:
                    self.unk(s, "del", n)
                    nxt.append(s)
            cur = nxt
        return self.falls(cur)

    def s_If(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            out.extend(self.block(n.body if b else n.orelse, [s]))
        falls = [r[1] for r in out if r[0] == "fall"]
        if len(falls) > 1:
            rest = [r for r in out if r[0] != "fall"]
            out = rest + self.falls(self.merge(falls))
        return out

    def s_Assert(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            if b:
                out.append(s)
            else:
                self.sink.append(Outcome("raise", s, mk("exc", "AssertionError", ASSERTED),
                                         self.loc(n)))
        return self.falls(out)

    def s_Raise(self, n, st):
        l = self.loc(n)
        if n.exc is None:
            e = self.handling[-1] if self.handling else mk("exc", "RuntimeError")
            self.sink.append(Outcome("raise", st, e, l))
            return []
        for s, v in self.ev(n.exc, st):
            if v.op in ("cls",):
                v = mk("exc", v.args[0])
            elif v.op == "builtin" or v.op == "ext":
                v = mk("exc", v.args[0].split(".")[-1])
            elif v.op == "obj" and self.cls_of(v) is not None:
                v = mk("exc", self.cls_of(v).qual)
            elif v.op == "call" and isinstance(v.args[0], str):
                v = mk("exc", v.args[0].split(".")[-1], *v.args[1:])
            elif v.op != "exc":
                v = mk("exc", "?", v)
            self.sink.append(Outcome("raise", s, v, l))
        return []

    def s_Print(self, n, st):
        exprs = list(n.values)
        if n.dest is not None:
            exprs = [n.dest] + exprs
        out = []
        for s, vs in self.evs(exprs, st):
            s = s.clone()
            dest = vs[0] if n.dest is not None else mk("ext", "sys.stdout")
            vals = vs[1:] if n.dest is not None else vs
            fv = tuple(self.freeze(v, s) for v in vals)
            s.event("write", (dest, mk("printed", *fv)), self.loc(n))
            out.append(s)
        return self.falls(out)

    def s_Exec(self, n, st):
        self.unk(st, "exec", n)
        return self.falls([st])

    def s_With(self, n, st):
        cur = [st]
        mgrs = []
        for i in n.items:
            nxt = []
            for s in cur:
                for s2, v in self.ev(i.context_expr, s):
                    if i.optional_vars is not None:
                        for s3 in self.assign(i.optional_vars, v, s2):
                            nxt.append(s3)
                    else:
                        nxt.append(s2)
                    mgrs.append(v)
            cur = nxt
        saved = self.sink
        self.sink = []
        res = self.block(n.body, cur)
        inner = self.sink
        self.sink = saved

        def close(s):
            s = s.clone()
            for v in mgrs:
                ty = self.typeof(v)
                if ty is not None and ty.name == "ext:file":
                    s.event("close", (v,), self.loc(n))
            return s
        for o in inner:
            self.sink.append(Outcome("raise", close(o.st), o.val, o.loc))
        return [(k, close(s), v, l) for k, s, v, l in res]

    def handler_classes(self, h):
        if h.type is None:
            return None
        out = set()
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            r = None
            fr = self.fr()
            if isinstance(t, (ast.Name, ast.Attribute)):
                r = self.prog.resolve_expr(fr.mod, t)
            if isinstance(r, Cls):
                out.add(r.qual)
            elif isinstance(r, str):
                out.add(r.split(".")[-1])
            else:
                out.add(ast.unparse(t).split(".")[-1])
        return out

    def s_Try(self, n, st):
        handlers = [(self.handler_classes(h), h) for h in n.handlers]
        saved = self.sink
        self.sink = []
        self.watch.append([h for h, _ in handlers])
        try:
            res = self.block(n.body, [st])
        finally:
            self.watch.pop()
        raised = self.sink
        self.sink = []
        out = []
        falls = []
        for r in res:
            (falls if r[0] == "fall" else out).append(r)
        if n.orelse and falls:
            for r in self.block(n.orelse, [r[1] for r in falls]):
                out.append(r)
        else:
            out.extend(falls)
        pending = []
        for o in raised:
            name = o.val.args[0] if o.val.op == "exc" else "?"
            for hs, h in handlers:
                if self.catches(hs, name):
                    s = o.st.clone()
                    if h.name:
                        s.env[h.name] = o.val
                    self.handling.append(o.val)
                    try:
                        out.extend(self.block(h.body, [s]))
                    finally:
                        self.handling.pop()
                    break
            else:
                pending.append(o)
        pending.extend(self.sink)
        self.sink = saved
        if not n.finalbody:
            self.sink.extend(pending)
            return out
        fin = []
        for k, s, v, l in out:
            for k2, s2, v2, l2 in self.block(n.finalbody, [s]):
                fin.append((k, s2, v, l) if k2 == "fall" else (k2, s2, v2, l2))
        for o in pending:
            for k2, s2, v2, l2 in self.block(n.finalbody, [o.st]):
                if k2 == "fall":
                    self.sink.append(Outcome("raise", s2, o.val, o.loc))
                else:
                    fin.append((k2, s2, v2, l2))
        return fin

    # -- assignment ---------------------------------------------------------------
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = self.fr()
            st = st.clone()
            if t.id in fr.locals or fr.fn is None:
                st.env[t.id] = v
            else:
                g = mk("gvar", fr.mod.name + "." + t.id)
                st.event("setglobal", (g, v), self.loc(t))
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st):
                out.extend(self.setattr_(b, t.attr, v, s, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st):
                for s2, i in self.ev(t.slice, s):
                    out.extend(self.setitem(b, i, v, s2, t))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for s, vals in self.unpack(v, len(t.elts), st, t):
                cur = [s]
                for e, x in zip(t.elts, vals):
                    cur = [s3 for s2 in cur for s3 in self.assign(e, x, s2)]
                out.extend(cur)
            return out
        self.unk(st, "assignment target", t)
        return [st]
