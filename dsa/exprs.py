"""Expressions: names, attributes, subscripts, operators, comprehensions."""
import ast
import re
import string

from . import tally
from .model import Func, Cls, Mod
from .state import (State, Ty, Ev, assume, entails, truth_atom, zero_formula,
                    lt, seq_truth, never_none, root)
from .binders import member, nx_sub, getor, _sub
from .terms import (SETS, mkslice, upto, setof, T, mk, C, NONE, TRUE, FALSE, EMPTY, isc, isnum, isstr,
                    f_not, f_and, f_or, eq, kind, add, mul, tdiv, neg, power,
                    subst, NUMK, ratio)

BUILTINS = set("""abs all any apply basestring bool buffer bytearray bytes
callable chr classmethod cmp coerce compile complex delattr dict dir divmod
enumerate eval execfile exit file filter float format frozenset getattr globals
hasattr hash help hex id input int intern isinstance issubclass iter len list
locals long map max memoryview min next object oct open ord pow print property
quit range raw_input reduce reload repr reversed round set setattr slice sorted
staticmethod str sum super tuple type unichr unicode vars xrange zip
__import__ NotImplemented Ellipsis __name__ __file__ __doc__ __debug__
Exception BaseException StandardError ArithmeticError AssertionError
AttributeError BufferError BytesWarning DeprecationWarning EOFError
EnvironmentError FloatingPointError FutureWarning GeneratorExit IOError
ImportError ImportWarning IndentationError IndexError KeyError
KeyboardInterrupt LookupError MemoryError NameError NotImplementedError OSError
OverflowError PendingDeprecationWarning ReferenceError RuntimeError
RuntimeWarning StopIteration SyntaxError SyntaxWarning SystemError SystemExit
TabError TypeError UnboundLocalError UnicodeDecodeError UnicodeEncodeError
UnicodeError UnicodeTranslateError UnicodeWarning UserWarning ValueError
Warning ZeroDivisionError""".split())

COMPARE = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=",
           ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
           ast.In: "in", ast.NotIn: "not in"}


class Exprs:
    # -- evaluation ------------------------------------------------------------
    def ev(self, n, st):
        m = getattr(self, "e_" + n.__class__.__name__, None)
        self.step()
        if m is None:
            return [(st, self.unk(st, "expression " + n.__class__.__name__, n))]
        return m(n, st)

    def evs(self, nodes, st):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, n, st):
        return [(st, C(n.value))]

    def e_Name(self, n, st):
        fr = self.fr()
        v = st.env.get(n.id)
        if v is not None:
            return [(st, v)]
        if n.id in fr.locals and fr.fn is not None:
            st = st.clone()
            st.event("undef", (C(n.id),), self.loc(n))
            return [(st, self.unk(st, "unbound local %s" % n.id, n))]
        o = fr.outer
        while o is not None:
            if n.id in o[0]:
                return [(st, o[0][n.id])]
            o = o[1]
        return [(st, self.global_name(n.id, st, n))]

    def global_name(self, name, st, node=None):
        fr = self.fr()
        r = self.prog.module_attr(fr.mod.name, name)
        if r is None:
            if name in BUILTINS:
                return mk("builtin", name)
            return self.unk(st, "undefined name %s" % name, node)
        return self.binding(r, fr.mod.name + "." + name)

    def binding(self, r, name):
        if isinstance(r, Func):
            return mk("fn", r.qual)
        if isinstance(r, Cls):
            return mk("cls", r.qual)
        if isinstance(r, Mod):
            return mk("mod", r.name)
        if isinstance(r, tuple):
            if r[0] == "ext":
                return self.extval(r[1])
            if r[0] == "pkg":
                return mk("mod", r[1])
            if r[0] == "var":
                return self.module_var(r[1], r[2])
        return mk("missing", name)

    def extval(self, name):
        for a, b in (("posixpath.", "os.path."), ("ntpath.", "os.path."),
                     ("xml.etree.cElementTree", "et"), ("xml.etree.ElementTree", "et"),
                     ("elementtree.ElementTree", "et")):
            if name.startswith(a) or name == a.rstrip("."):
                name = b + name[len(a):]
        if name == "sys.maxint":
            return C(2147483647)
        if name.startswith("itertools.i") and name[10:] in ("izip", "imap", "ifilter"):
            return mk("builtin", name[11:])
        return mk("ext", name)

    _mvcache = None

    def module_var(self, m, name):
        """value of a module-level variable (constant folded when immutable)"""
        if self._mvcache is None:
            self._mvcache = {}
        k = (m.name, name)
        if k in self._mvcache:
            return self._mvcache[k]
        g = mk("gvar", m.name + "." + name)
        self._mvcache[k] = g
        ds = [d for d in m.bind.get(name, ()) if d[0] != "global"]
        if len(ds) == 1 and ds[0][0] == "assign" and len(m.bind[name]) == 1:
            v = self.const_eval(ds[0][1], m, None)
            if v is not None:
                if v.op in ("c", "tuple", "fn", "cls", "ext", "builtin", "mod") or \
                        v.op == "dictv" and self.only_read(m, name):
                    self._mvcache[k] = v
                    return v
                self.ginit[g] = v
        return g

    ginit = {}

    def only_read(self, m, name):
        """a private name of a module that is looked up in and nothing else"""
        if not name.startswith("_"):
            return False
        k = ("only_read", m.name, name)
        if k not in self._mvcache:
            looked = set()
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
                    looked.add(id(x.value))
                elif isinstance(x, ast.Compare) and isinstance(x.ops[-1], (ast.In, ast.NotIn)):
                    looked.add(id(x.comparators[-1]))
                elif isinstance(x, ast.Attribute) and x.attr in ("get", "has_key"):
                    looked.add(id(x.value))
            self._mvcache[k] = all(
                id(x) in looked for x in ast.walk(m.tree)
                if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Store))
        return self._mvcache[k]

    def const_eval(self, node, m, cls, env=None):
        """evaluate a module/class level expression; returns a frozen value or
        None when it is not a plain constant structure"""
        from .interp import Frame
        saved = (self.sink, self.watch, self.depth, self.reasons)
        self.sink, self.watch, self.depth = [], [], 0
        self.reasons = list(self.reasons)
        self.frames.append(Frame(m, None, cls))
        try:
            s = State()
            s.env = dict(env or {})
            r = self.ev(node, s)
            if len(r) != 1 or self.sink or r[0][0].und:
                return None
            s, v = r[0]
            if s.ev:
                return None
            return self.freeze(v, s)
        finally:
            self.frames.pop()
            self.sink, self.watch, self.depth, self.reasons = saved

    # -- attributes ---------------------------------------------------------------
    def e_Attribute(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            out.extend(self.getattr_(b, n.attr, s, n))
        return out

    def class_member(self, c, name, st, node):
        l = self.prog.lookup(c, name)
        if l is None:
            return None
        if l[0] == "ext":
            return mk("extm", l[1], name)
        owner, mem = l
        if isinstance(mem, Func):
            return mk("fn", mem.qual)
        if isinstance(mem, ast.ClassDef):
            return mk("unk", -1)
        k = (owner.qual, name)
        if self._mvcache is None:
            self._mvcache = {}
        if k in self._mvcache:
            return self._mvcache[k]
        env = {}
        g = mk("gvar", owner.qual + "." + name)
        self._mvcache[k] = g
        for x in ast.walk(mem):
            if isinstance(x, ast.Name) and x.id in owner.members and x.id != name:
                env[x.id] = self.class_member(owner, x.id, st, node)
        v = self.const_eval(mem, owner.mod, owner, env)
        if v is not None:
            if v.op in ("c", "tuple", "fn", "cls", "ext", "builtin", "mod"):
                self._mvcache[k] = v
                return v
            self.ginit[g] = v
        return g

    def args_dict(self, b, st, n):
        """the parsed command line as a dictionary"""
        e = ast.Dict(keys=[ast.Constant(value=d) for d in self.dests],
                     values=[ast.Attribute(value=ast.Name(id=".args", ctx=ast.Load()), attr=d,
                                           ctx=ast.Load()) for d in self.dests])
        for x in ast.walk(e):
            ast.copy_location(x, n) if n is not None else None
        st = st.clone()
        st.env[".args"] = b
        return self.ev(e, st)

    def getattr_(self, b, name, st, n):
        v = st.attrs.get((b, name))
        if v is not None:
            return [(st, v)]
        if self.new_field(b, name):
            v = st.attrs.get((b, ".new:" + name))
            if v is None or self.depth or name in self.loopnew:
                st = st.clone()
                v = self.unk(st, "the new field %s" % name, n)
            return [(st, v)]
        o = b.op
        if name == "__dict__" and o == "param" and b.args[0] == "args" and \
                self.dests is not None:
            return self.args_dict(b, st, n)
        if o == "mod":
            if b.args[0] in self.prog.mods:
                r = self.prog.module_attr(b.args[0], name)
                if r is None:
                    return [(st, mk("missing", b.args[0] + "." + name))]
                return [(st, self.binding(r, b.args[0] + "." + name))]
            return [(st, self.binding(self.prog.mod_or_ext(b.args[0] + "." + name),
                                      b.args[0] + "." + name))]
        if o == "ext":
            return [(st, self.extval(b.args[0] + "." + name))]
        if o == "builtin":
            return [(st, mk("extm", b.args[0], name))]
        if o == "cls":
            c = self.prog.find(b.args[0])
            if name == "__name__":
                return [(st, C(c.name))]
            r = self.class_member(c, name, st, n)
            if r is not None:
                return [(st, r)]
            return [(st, mk("attr", b, name))]
        if o == "super":
            c = self.prog.find(b.args[0])
            i = c
            mro = self.cls_of(b.args[1]).mro if self.cls_of(b.args[1]) else c.mro
            rest = mro[mro.index(c) + 1:] if c in mro else []
            for k in rest:
                if isinstance(k, Cls):
                    if name in k.members and isinstance(k.members[name], Func):
                        return [(st, mk("bound", k.members[name].qual, b.args[1]))]
                elif k != "object":
                    return [(st, mk("extbound", k, name, b.args[1]))]
            return [(st, mk("extbound", "object", name, b.args[1]))]
        if o == "inst":
            for a in b.args[1].args:
                if a.args[0] == name:
                    return [(st, a.args[1])]
        c = self.cls_of(b)
        if c is not None:
            if name == "__class__" and b.op in ("obj", "inst"):
                return [(st, mk("cls", c.qual))]
            l = self.prog.lookup(c, name)
            if l is not None and l[0] != "ext":
                mem = l[1]
                if isinstance(mem, Func):
                    if mem.prop:
                        return self.call_fn(mem, [b], {}, st, n)
                    if mem.static:
                        return [(st, mk("fn", mem.qual))]
                    if mem.classm:
                        return [(st, mk("bound", mem.qual, mk("cls", c.qual)))]
                    return [(st, mk("bound", mem.qual, b))]
                # class variable, unless the instance may shadow it
                if not self.instance_assigns(c, name) or o == "obj":
                    r = self.class_member(c, name, st, n)
                    if r is not None:
                        return [(st, r)]
        r = self.nx_attr(b, name, st)
        if r is not None:
            return [(st, r)]
        if o == "obj" and name == "text" and self.objcls.get(b) == "ext:Element":
            return [(st, NONE)]
        if name == "__class__":
            return [(st, mk("meth", self.freeze(b, st), name))]
        a = mk("attr", b, name)
        if b is NONE or self.noneable(b, st):
            out = []
            for s in self.may_raise(st, "AttributeError", mk("is", b, NONE)
                                    if b is not NONE else TRUE, n):
                out.append((s, a))
            return out
        return [(st, a)]

    def noneable(self, b, st):
        if b.op == "param" and b.args[0] == "self" and self.cls_of(b) is not None:
            return False
        if b.op in ("obj", "tuple", "inst", "param", "cls", "fn", "bv", "seq"):
            return b.op == "param"
        return True

    _iacache = {}

    def instance_assigns(self, c, name):
        k = (c.qual, name)
        if k in self._iacache:
            return self._iacache[k]
        r = False
        for b in c.mro:
            if not isinstance(b, Cls):
                continue
            for f in b.members.values():
                if isinstance(f, Func):
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Attribute) and x.attr == name and \
                                isinstance(x.ctx, ast.Store):
                            r = True
        self._iacache[k] = r
        return r

    def new_field(self, b, name):
        """a field that the pinned classes do not have is nobody's business"""
        if name in self.prog.known_fields or b.op in ("mod", "ext", "cls", "builtin"):
            return False
        c = self.cls_of(b)
        l = self.prog.lookup(c, name) if c is not None else None
        if l is not None and (l[0] != "ext" or not name.startswith("_")):
            return False
        return isinstance(c, Cls) and any(
            isinstance(k, Cls) and k.qual in self.prog.pinned for k in c.mro)

    def setattr_(self, b, name, v, st, n):
        st = st.clone()
        c = self.cls_of(b)
        if self.new_field(b, name):
            if self.depth:
                self.loopnew.add(name)
            st.attrs[(b, ".new:" + name)] = v
            return [st]
        if c is not None and b.op == "obj":
            l = self.prog.lookup(c, name)
            if l is not None and l[0] != "ext" and isinstance(l[1], Func) and l[1].prop:
                self.unk(st, "property store", n)
        st.attrs[(b, name)] = v
        if not self.fresh(b):
            st.event("setattr", (b, C(name), v), self.loc(n))
        return [st]

    def fresh(self, b):
        return b.op == "obj"

    # -- containers ------------------------------------------------------------------
    def content(self, t, st):
        """content term of a container value"""
        c = st.content.get(t)
        if c is not None:
            return c
        if t.op == "gvar" and t in self.ginit:
            t = self.ginit[t]
        if t.op == "list":
            return mk("seq", *t.args)
        if t.op in ("seq", "upd") or t.op in SETS:
            return t
        if t.op == "tuple":
            return mk("seq", *[mk("item", x) for x in t.args])
        if t.op == "tupof":
            return t.args[0]
        if t.op == "dictv":
            return t.args[0]
        if t.op == "ordered":
            return self.content(t.args[0], st)
        if t.op == "setv":
            return t.args[0]
        if isstr(t):
            if len(t.args[0]) <= 12:
                return mk("seq", *[mk("item", C(x)) for x in t.args[0]])
        if t.op == "inst" and len(t.args) > 2 and t.args[2].op != "c":
            return t.args[2]
        return mk("seq", mk("splice", t))

    def items_of(self, t, st):
        """list of known elements or None"""
        if t.op == "inst" or (t.op == "obj" and isinstance(self.objcls.get(t), Cls)) \
                or (t.op != "tuple" and self.cls_of(t) is not None):
            c = self.cls_of(t)
            if c is not None:
                l = self.prog.lookup(c, "__iter__")
                if l is not None and l[0] != "ext" and not self.is_opaque(l[1]):
                    r = self.call_fn(l[1], [t], {}, st, None)
                    if len(r) == 1:
                        return self.items_of(r[0][1], r[0][0])
        c = self.content(t, st)
        if c.op == "seq" and all(p.op == "item" for p in c.args):
            return [p.args[0] for p in c.args]
        return None

    def unpack(self, v, k, st, n):
        it = self.items_of(v, st)
        if it is not None:
            if len(it) != k:
                return [(st, [self.unk(st, "unpack arity", n) for _ in range(k)])]
            return [(st, it)]
        out = []
        for s in self.may_raise(st, "ValueError", mk("raises", "ValueError", v), n):
            out.append((s, [self.sub(v, C(i), s) for i in range(k)]))
        return out

    def sub(self, v, i, st):
        """pure subscript of an opaque value"""
        if v.op == "tuple" and isnum(i) and isinstance(i.args[0], int):
            k = i.args[0]
            if -len(v.args) <= k < len(v.args):
                return v.args[k]
        return _sub(v, i)

    def e_Subscript(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            for s2, i in self.ev(n.slice, s):
                out.extend(self.getitem(b, i, s2, n))
        return out

    def simple_slice(self, i, n):
        """x[i:j], which Python 2 sends to __getslice__, as opposed to x[i:j:]"""
        if i.op != "slice" or i.args[2] is not NONE:
            return False
        sl = getattr(n, "slice", None)
        return not (isinstance(sl, ast.Slice) and sl.step is not None)

    def e_Slice(self, n, st):
        out = []
        for s, vs in self.evs([x for x in (n.lower, n.upper, n.step) if x is not None], st):
            it = iter(vs)
            a = [next(it) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
            out.append((s, mkslice(*a)))
        return out

    def getitem(self, b, i, st, n):
        c = self.cls_of(b)
        if c is not None:
            nm = "__getslice__" if self.simple_slice(i, n) else "__getitem__"
            for meth in (nm, "__getitem__"):
                l = self.prog.lookup(c, meth)
                if l is not None and l[0] != "ext":
                    if l[1] in self.stack:
                        break
                    if meth == "__getslice__":
                        lo = i.args[0] if i.args[0] is not NONE else C(0)
                        hi = i.args[1] if i.args[1] is not NONE else C(2147483647)
                        return self.call_fn(l[1], [b, lo, hi], {}, st, n)
                    return self.call_fn(l[1], [b, i], {}, st, n)
            if self.is_graph(b) and i.op != "slice":
                return self.getitem0(mk("nxsucc", self.nxg(b, st)), i, st, n)
        return self.getitem0(b, i, st, n)

    def getitem0(self, b, i, st, n):
        if self.tally and not self.fresh(b) and st.ev and i.op != "slice":
            loc = mk("sub", b, i)
            if tally.relevant(self, loc, st):
                return [(st, tally.value(self, loc, st, loc))]
        if isstr(b) and isnum(i):
            try:
                return [(st, C(b.args[0][i.args[0]]))]
            except (IndexError, TypeError):
                pass
        if i.op == "slice":
            return self.getslice(b, i, st, n)
        if b.op in ("zip", "values", "items", "enumerate", "range") and (
                i.op in ("lv", "bv") or isnum(i) and i.args[0] >= 0):
            segs = self.segments(b, st, n)
            if len(segs) == 1 and len(segs[0][1]) == 1 and segs[0][1][0][0] == "gen":
                return [(segs[0][0], segs[0][1][0][2](i))]
        c = self.content(b, st)
        if c.op == "upd":
            return self.dict_get(b, c, i, st, n)
        if c.op == "seq":
            ps = c.args
            if isnum(i) and isinstance(i.args[0], int):
                k = i.args[0]
                if 0 <= k < len(ps) and all(p.op == "item" for p in ps[:k + 1]):
                    return [(st, ps[k].args[0])]
                if k < 0 and -k <= len(ps) and all(p.op == "item" for p in ps[k:]):
                    return [(st, ps[k].args[0])]
                if len(ps) == 1 and ps[0].op == "splice":
                    src = ps[0].args[0]
                    if k in (0, -1):
                        ss = self.may_raise(st, "IndexError", f_not(truth_atom(src)), n)
                    else:
                        need = C(k + 1 if k >= 0 else -k)
                        ss = self.may_raise(st, "IndexError", lt(self.len_of(src), need), n)
                    if self.watched("KeyError"):
                        ss = [x for s in ss for x in self.may_raise(
                            s, "KeyError", f_not(member(i, src)), n)]
                    return [(s, self.sub(src, i, s)) for s in ss]
                if all(p.op == "item" for p in ps):
                    for s in self.may_raise(st, "IndexError", TRUE, n):
                        pass
                    if not ps and self.watched("IndexError"):
                        return []
            src = b
            if len(ps) == 1 and ps[0].op == "splice":
                src = ps[0].args[0]
            elif len(ps) == 1 and ps[0].op == "each":
                r = self.each_at(ps[0], i)
                if r is not None:
                    return [(st, r)]
                src = self.freeze(b, st)
            else:
                src = self.freeze(b, st)
            ss = [st]
            if self.watched("KeyError") and not self.listlike(src):
                ss = self.may_raise(st, "KeyError", f_not(member(i, src)), n)
            ty = self.typeof(src)
            if self.watched("IndexError") and kind(i) in ("i", "?") and not isstr(i) and \
                    not (ty is not None and ty.name in ("dict", "OrderedDict")):
                ss = [x for s in ss for x in self.may_raise(
                    s, "IndexError", mk("raises", "IndexError", mk("sub", src, i)), n)]
            return [(s, self.sub(src, i, s)) for s in ss]
        return [(st, self.sub(self.freeze(b, st), i, st))]

    def listlike(self, t):
        return kind(t) in ("l", "t", "s") or t.op in ("list", "tuple")

    def each_at(self, p, i):
        """element i of a one-to-one mapped sequence"""
        dom, h, body = p.args
        if dom.op == "upto" and body.op == "seq" and len(body.args) == 1 and \
                body.args[0].op == "item" and not (isnum(i) and i.args[0] < 0):
            return subst(body.args[0].args[0], {mk("lv", h): i})
        return None

    def getslice(self, b, sl, st, n):
        c = self.content(b, st)
        lo, hi, step = sl.args
        if c.op == "seq":
            ps = c.args
            if sl.args == (NONE, NONE, NONE):
                o = self.new("list")
                s = st.clone()
                s.content[o] = c
                if b.op == "tuple":
                    return [(st, b)]
                if isstr(b) or kind(b) == "s":
                    return [(st, b)]
                return [(s, o)]
            if all(p.op == "item" for p in ps) and all(
                    x is NONE or isnum(x) for x in sl.args):
                k = slice(*[None if x is NONE else x.args[0] for x in sl.args])
                if isstr(b):
                    return [(st, C(b.args[0][k]))]
                if b.op == "tuple":
                    return [(st, mk("tuple", *b.args[k]))]
                o = self.new("list")
                s = st.clone()
                s.content[o] = mk("seq", *ps[k])
                return [(s, o)]
        if isstr(b) and all(x is NONE or isnum(x) for x in sl.args):
            k = slice(*[None if x is NONE else x.args[0] for x in sl.args])
            return [(st, C(b.args[0][k]))]
        if lo is C(0):
            lo = NONE
        src = self.freeze(b, st)
        if hi is not NONE and teq_len(hi, src):
            hi = NONE
        if step is C(1):
            step = NONE
        if lo is NONE and hi is NONE and step is C(-1) and src.op == "list":
            return [(st, mk("list", mk("splice", mk("reversed", src))))]
        return [(st, mk("sub", src, mk("slice", lo, hi, step)))]

    def dict_get(self, b, c, i, st, n, default=None):
        """lookup in a container content upd(base, writes...)"""
        base, writes = c.args[0], list(c.args[1:])
        out = []
        # a table of constants is a case distinction
        table = base.op == "dempty" and len(writes) <= 6 and all(
            w.op == "kv" and isc(w.args[0]) and isc(w.args[1]) for w in writes)
        # exact or decidable writes from the latest to the first
        states = [st]
        for w in reversed(writes):
            if w.op == "kv":
                k, v = w.args
                e = eq(k, i)
                if k is i or e is TRUE:
                    return out + [(s, v) for s in states]
                if e is FALSE:
                    continue
                d = entails(st.pc, e)
                if d is True:
                    return out + [(s, v) for s in states]
                if d is False:
                    continue
                if isc(k) and (self.callable(v) or table):
                    nxt = []
                    for s in states:
                        out.extend((x, v) for x in assume(s, e, True))
                        nxt.extend(assume(s, e, False))
                    states = nxt
                    continue
                if k.mbv >= 0 or i.mbv >= 0 or True:
                    src = self.freeze(b, st)
                    if default is not None:
                        return out + [y for s in states for y in self.get_or(src, i, default, s)]
                    ss = states
                    if self.watched("KeyError"):
                        ss = [x for s in ss for x in self.may_raise(
                            s, "KeyError", f_not(member(i, src)), n)]
                    return out + [(s, mk("sub", src, i)) for s in ss]
            elif w.op == "del":
                k = w.args[0]
                if k is i:
                    res = []
                    for s in states:
                        for s2 in self.may_raise(s, "KeyError", TRUE, n):
                            res.append((s2, self.unk(s2, "deleted key", n)))
                    return out + res
                if eq(k, i) is FALSE:
                    continue
                src = self.freeze(b, st)
                return out + [(s, mk("sub", src, i)) for s in states]
            else:
                src = self.freeze(b, st)
                if default is not None:
                    return out + [y for s in states for y in self.get_or(src, i, default, s)]
                ss = states
                if self.watched("KeyError"):
                    ss = [x for s in ss for x in self.may_raise(
                        s, "KeyError", f_not(member(i, src)), n)]
                return out + [(s, mk("sub", src, i)) for s in ss]
        if base.op == "dempty":
            if default is not None:
                return out + [(s, default) for s in states]
            for s in states:
                self.may_raise(s, "KeyError", TRUE, n)
                if not self.watched("KeyError"):
                    from .interp import Outcome
                    self.sink.append(Outcome("raise", s, mk("exc", "KeyError"), self.loc(n)
                                             if n is not None else None))
            return out
        for s in states:
            if base.op == "seq":
                src = base.args[0].args[0] if len(base.args) == 1 and \
                    base.args[0].op == "splice" else base
            else:
                src = base
            if default is not None:
                out.extend(self.get_or(src, i, default, s))
                continue
            ss = [s]
            if self.watched("KeyError"):
                ss = self.may_raise(s, "KeyError", f_not(member(i, src)), n)
            if src.op in ("seq", "list") and isnum(i) and i.args[0] < len(src.args) \
                    and i.args[0] >= 0 and all(p.op == "item" for p in src.args[:i.args[0] + 1]):
                out.extend((x, src.args[i.args[0]].args[0]) for x in ss)
            else:
                out.extend((x, self.sub(src, i, x)) for x in ss)
        return out

    def callable(self, v):
        return v.op in ("fn", "cls", "bound", "clo")

    def setitem(self, b, i, v, st, n):
        c = self.cls_of(b)
        if c is not None:
            names = ("__setslice__", "__setitem__") if \
                self.simple_slice(i, n) else ("__setitem__",)
            for meth in names:
                l = self.prog.lookup(c, meth)
                if l is not None and l[0] != "ext" and l[1] not in self.stack:
                    if meth == "__setslice__":
                        lo = i.args[0] if i.args[0] is not NONE else C(0)
                        hi = i.args[1] if i.args[1] is not NONE else C(2147483647)
                        return [s for s, _ in self.call_fn(l[1], [b, lo, hi, v], {}, st, n)]
                    return [s for s, _ in self.call_fn(l[1], [b, i, v], {}, st, n)]
        return self.setitem0(b, i, v, st, n)

    def setitem0(self, b, i, v, st, n):
        st = st.clone()
        if self.tally and not self.fresh(b):
            a = tally.amount(self, b, i, v, st)
            if a is not None:
                st.event("inc", (mk("sub", b, i), a), self.loc(n))
                return [st]
        fv = v
        c = self.content(b, st)
        if i.op == "slice":
            st.content[b] = mk("upd", c, mk("kv", i, self.freeze(v, st)))
            if not self.fresh(b):
                st.event("setitem", (b, i, self.freeze(v, st)), self.loc(n))
            return [st]
        done = False
        if c.op == "seq" and isnum(i) and isinstance(i.args[0], int):
            k = i.args[0]
            ps = list(c.args)
            if 0 <= k < len(ps) and all(p.op == "item" for p in ps[:k + 1]):
                ps[k] = mk("item", v)
                st.content[b] = mk("seq", *ps)
                done = True
            elif k < 0 and -k <= len(ps) and all(p.op == "item" for p in ps[k:]):
                ps[k] = mk("item", v)
                st.content[b] = mk("seq", *ps)
                done = True
        if not done:
            if c.op == "upd":
                ws = [w for w in c.args[1:] if not (w.op == "kv" and w.args[0] is i)]
                if len(ws) != len(c.args) - 1 and any(
                        w.op != "kv" or not (isc(w.args[0]) and isc(i)) for w in ws):
                    ws = list(c.args[1:])
                    # replace in place when it is the last write
                    if ws and ws[-1].op == "kv" and ws[-1].args[0] is i:
                        ws = ws[:-1]
                st.content[b] = mk("upd", c.args[0], *(ws + [mk("kv", i, v)]))
            else:
                st.content[b] = mk("upd", c, mk("kv", i, v))
        if not self.fresh(b):
            st.event("setitem", (b, i, self.freeze(v, st)), self.loc(n))
        return [st]

    def delitem(self, b, i, st, n):
        c = self.cls_of(b)
        if c is not None:
            names = ("__delslice__", "__delitem__") if \
                self.simple_slice(i, n) else ("__delitem__",)
            for meth in names:
                l = self.prog.lookup(c, meth)
                if l is not None and l[0] != "ext" and l[1] not in self.stack:
                    if meth == "__delslice__":
                        lo = i.args[0] if i.args[0] is not NONE else C(0)
                        hi = i.args[1] if i.args[1] is not NONE else C(2147483647)
                        return [s for s, _ in self.call_fn(l[1], [b, lo, hi], {}, st, n)]
                    return [s for s, _ in self.call_fn(l[1], [b, i], {}, st, n)]
        return self.delitem0(b, i, st, n)

    def delitem0(self, b, i, st, n):
        st = st.clone()
        ct = self.content(b, st)
        if ct.op == "seq" and i.op == "slice" and i.args == (NONE, NONE, NONE):
            st.content[b] = EMPTY
        elif ct.op == "upd":
            st.content[b] = mk("upd", ct.args[0], *(ct.args[1:] + (mk("del", i),)))
        else:
            st.content[b] = mk("upd", ct, mk("del", i))
        if not self.fresh(b):
            st.event("delitem", (b, i), self.loc(n))
        return [st]

    # -- literals -----------------------------------------------------------------
    def e_Tuple(self, n, st):
        return [(s, mk("tuple", *vs)) for s, vs in self.evs(n.elts, st)]

    def e_List(self, n, st):
        out = []
        for s, vs in self.evs(n.elts, st):
            o = self.new("list")
            s = s.clone()
            s.content[o] = mk("seq", *[mk("item", v) for v in vs])
            out.append((s, o))
        return out

    def e_Set(self, n, st):
        out = []
        for s, vs in self.evs(n.elts, st):
            o = self.new("set")
            s = s.clone()
            s.content[o] = setof(mk("seq", *[mk("item", v) for v in vs]))
            out.append((s, o))
        return out

    def e_Dict(self, n, st):
        out = []
        for s, ks in self.evs(n.keys, st):
            for s2, vs in self.evs(n.values, s):
                o = self.new("dict")
                s2 = s2.clone()
                s2.content[o] = mk("upd", mk("dempty"),
                                   *[mk("kv", k, v) for k, v in zip(ks, vs)])
                out.append((s2, o))
        return out

    def e_Lambda(self, n, st):
        return [(st, self.closure(n, st))]

    def closure(self, n, st):
        self.uid += 1
        t = mk("clo", self.uid)
        fr = self.fr()
        self.closures[t] = (n, (st.env, fr.outer), fr)
        return t

    def e_IfExp(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            out.extend(self.ev(n.body if b else n.orelse, s))
        return out

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_JoinedStr(self, n, st):
        return [(st, self.unk(st, "f-string", n))]

    def e_Yield(self, n, st):
        out = []
        res = self.ev(n.value, st) if n.value is not None else [(st, NONE)]
        for s, v in res:
            s = s.clone()
            g = self.yields[-1]
            s.content[g] = mk("seq", *(s.content[g].args + (mk("item", v),)))
            out.append((s, NONE))
        return out

    # -- operators ------------------------------------------------------------------
    def e_BinOp(self, n, st):
        out = []
        for s, a in self.ev(n.left, st):
            for s2, b in self.ev(n.right, s):
                out.extend(self.binop(n.op, a, b, s2, n))
        return out

    def numeric(self, t):
        return isnum(t) or kind(t) in NUMK or t.op in ("num", "float")

    def is_list(self, t, st):
        if t.op == "obj":
            return self.objcls.get(t) in ("list",)
        if t.op in ("list", "seq", "values", "keys", "items"):
            return True
        ty = self.typeof(t)
        return ty is not None and ty.name == "list"

    def binop(self, op, a, b, st, n):
        k = op.__class__.__name__
        # overloaded operators of repository classes
        dn = {"Add": "__add__", "Mult": "__mul__", "Sub": "__sub__"}.get(k)
        c = self.cls_of(a)
        if c is not None and dn:
            l = self.prog.lookup(c, dn)
            if l is not None and l[0] != "ext":
                return self.call_fn(l[1], [a, b], {}, st, n)
        c = self.cls_of(b)
        if c is not None and k == "Mult":
            l = self.prog.lookup(c, "__rmul__")
            if l is not None and l[0] != "ext":
                return self.call_fn(l[1], [b, a], {}, st, n)
        if k == "Add":
            return [self.plus(a, b, st)]
        if k == "Mod" and (isstr(a) or kind(a) == "s"):
            return [(st, self.fmt_mod(a, b, st))]
        if k == "Mult":
            for x, y in ((a, b), (b, a)):
                if self.is_list(x, st) or self.pytype(x) == "tuple":
                    its = self.items_of(x, st)
                    if its is not None and isnum(y) and isinstance(y.args[0], int) \
                            and 0 <= y.args[0] * len(its) <= 64:
                        r = its * y.args[0]
                        if self.pytype(x) == "tuple":
                            return [(st, mk("tuple", *r))]
                        o = self.new("list")
                        s = st.clone()
                        s.content[o] = mk("seq", *[mk("item", v) for v in r])
                        return [(s, o)]
                    # repetition = one round of the items for every index
                    from .binders import mk_each
                    d = self.depth
                    ct = self.content(x, st)
                    if ct.op == "seq":
                        fz = self.freeze_content(ct, st)
                        part = mk_each(upto(y), d, [({}, fz)])
                        if self.pytype(x) == "tuple":
                            return [(st, mk("tupof", mk("seq", part)))]
                        o = self.new("list")
                        s = st.clone()
                        s.content[o] = mk("seq", part)
                        return [(s, o)]
                    return [(st, mk("repeat", self.freeze(x, st), y))]
            for x, y in ((a, b), (b, a)):
                if isstr(x) or kind(x) == "s":
                    if isstr(x) and isnum(y) and y.args[0] * len(x.args[0]) < 300:
                        return [(st, C(x.args[0] * y.args[0]))]
                    return [(st, mk("repeat", x, y))]
            return [(st, mul(a, b))]
        if k == "Sub":
            if a.op in ("obj", "setof", "setv") and (self.objcls.get(a) == "set" or a.op != "obj"):
                return [(st, mk("diff", self.freeze(a, st), self.freeze(b, st)))]
            return [(st, add(a, b, -1))]
        if k in ("Div", "FloorDiv", "Mod"):
            out = []
            if b.op == "divzero":
                return [(st, b)]
            for s in self.may_raise(st, "ZeroDivisionError", zero_formula(b), n):
                ka, kb = kind(a), kind(b)
                if isnum(b) and b.args[0] == 0:
                    out.append((s, self.unk(s, "division by zero", n)))
                elif k == "Mod":
                    out.append((s, mk("mod_", a, b)))
                elif k == "FloorDiv":
                    out.append((s, mk("idiv", a, b)))
                elif ka == "f" or kb == "f" or self.fr().mod.future_div:
                    out.append((s, tdiv(a, b)))
                elif ka in ("i", "b") and kb in ("i", "b"):
                    if isnum(a) and isnum(b):
                        out.append((s, C(a.args[0] // b.args[0])))
                    else:
                        out.append((s, mk("idiv", a, b)))
                else:
                    # operands of unknown kind: exact only for floats
                    out.append((s, mk("pydiv", a, b)))
            return out
        if k == "Pow":
            if isnum(b) and isinstance(b.args[0], int) and 0 <= b.args[0] <= 6:
                return [(st, power(a, b.args[0]))]
            if isnum(b) and b.args[0] == 0.5:
                return [(st, root(a))]
            return [(st, mk("pow", a, b))]
        if k in ("BitAnd", "BitOr") and self.setlike(a, st):
            return [(st, self.set_op("inter" if k == "BitAnd" else "union",
                                     [a, b], st))]
        return [(st, mk("bin", k, a, b))]

    def plus(self, a, b, st):
        la, lb = self.is_list(a, st), self.is_list(b, st)
        if la or lb:
            ca, cb = self.content(a, st), self.content(b, st)
            if ca.op == "seq" and cb.op == "seq":
                o = self.new("list")
                s = st.clone()
                s.content[o] = mk("seq", *(ca.args + cb.args))
                return (s, o)
            return (st, mk("listadd", self.freeze(a, st), self.freeze(b, st)))
        if a.op == "tuple" and b.op == "tuple":
            return (st, mk("tuple", *(a.args + b.args)))
        if isstr(a) and isstr(b):
            return (st, C(a.args[0] + b.args[0]))
        if kind(a) == "s" or kind(b) == "s":
            return (st, self.concat((a, b)))
        if self.numeric(a) or self.numeric(b):
            return (st, add(a, b))
        if self.pytype(a) == "tuple" or self.pytype(b) == "tuple":
            ca, cb = self.content(a, st), self.content(b, st)
            return (st, mk("tupof", mk("seq", *(ca.args + cb.args))))
        return (st, mk("add", self.freeze(a, st), self.freeze(b, st)))

    def inplace(self, op, old, v, st, n):
        k = op.__class__.__name__
        c = self.cls_of(old)
        dn = {"Add": "__iadd__", "Mult": "__imul__"}.get(k)
        if c is not None and dn:
            l = self.prog.lookup(c, dn)
            if l is not None and l[0] != "ext":
                return self.call_fn(l[1], [old, v], {}, st, n)
        if k == "Add" and (self.is_list(old, st) or
                           c is not None and any(b in ("list", "__builtin__.list")
                                                 for b in c.mro) or old.op in ("attr", "sub") and
                           self.cls_of(old) is None and self.typeof(old) is None and
                           self.is_list(v, st)):
            r = self.list_method(old, "extend", [v], {}, st, n)
            return [(s, old) for s, _ in r]
        if k in ("BitOr", "BitAnd") and self.setlike(old, st):
            nm = "update" if k == "BitOr" else "intersection_update"
            r = self.set_method(old, nm, [v], {}, st, n)
            if r is not None:
                return [(s, old) for s, _ in r]
        return self.binop(op, old, v, st, n)

    def concat(self, parts):
        """strings one after the other"""
        ps = []
        for x in parts:
            for y in (x.args if x.op == "concat" else (x,)):
                if kind(y) != "s":
                    if len(parts) == 2 and any(isstr(z) and z.args[0] == "" for z in parts):
                        return y
                    y = mk("str", y)         # it has to be a string already
                if ps and isstr(ps[-1]) and isstr(y):
                    ps[-1] = C(ps[-1].args[0] + y.args[0])
                elif not (isstr(y) and y.args[0] == ""):
                    ps.append(y)
        return C("") if not ps else ps[0] if len(ps) == 1 else mk("concat", *ps)

    def fmt_mod(self, a, b, st):
        args = b.args if b.op == "tuple" else (b,)
        args = [self.freeze(x, st) for x in args]
        if isstr(a) and all(isc(x) for x in args):
            try:
                return C(a.args[0] % tuple(x.args[0] for x in args))
            except (TypeError, ValueError):
                pass
        if isstr(a) and a.args[0] == "%d" and len(args) == 1:
            return mk("str", args[0])
        if isstr(a) and a.args[0] == "%s" and len(args) == 1:
            return mk("str", args[0])
        if isstr(a) and a.args[0] == "%r" and len(args) == 1:
            return mk("repr", args[0])
        if isstr(a):
            ps = re.split(r"(%[#0\- +]*\d*(?:\.\d+)?[a-zA-Z%])", a.args[0])
            n = sum(x != "%%" for x in ps[1::2])
            if n == len(args) and len(ps) > 1 and (n > 1 or ps[0] or ps[-1] or len(ps) > 3) and \
                    "%" not in "".join(ps[::2]):
                todo, parts = list(args), []
                for i, p in enumerate(ps):
                    if i % 2 == 0:
                        parts.append(C(p))
                    elif p == "%%":
                        parts.append(C("%"))
                    else:
                        x = todo.pop(0)
                        parts.append(x if p == "%s" and (isstr(x) or kind(x) == "s")
                                     else self.fmt_mod(C(p), mk("tuple", x), st))
                return self.concat(parts)
        return mk("fmt", a, *args)

    def fmt_brace(self, text, args, kw, st):
        """str.format, when every field is a value, an attribute or an item"""
        parts, auto = [], 0
        try:
            fields = list(string.Formatter().parse(text))
        except ValueError:
            return None
        for lit, name, spec, conv in fields:
            parts.append(C(lit))
            if name is None:
                continue
            m = re.match(r"(\w*)((?:\.\w+)*)$", name)
            if m is None or conv not in (None, "r", "s"):
                return None
            if not m.group(1):
                key, auto = auto, auto + 1
            elif m.group(1).isdigit():
                key = int(m.group(1))
            else:
                key = m.group(1)
            if isinstance(key, int) and key < len(args):
                x = args[key]
            elif key in kw:
                x = kw[key]
            else:
                return None
            for at in m.group(2).split(".")[1:]:
                got = self.getattr_(x, at, st, None)
                if len(got) != 1 or got[0][0] is not st:
                    return None
                x = got[0][1]
            x = self.freeze(x, st)
            if conv == "r":
                x = mk("repr", x)
            if not spec:
                parts.append(x if isstr(x) or kind(x) == "s" else mk("str", x))
            elif conv is None and re.match(r"0?\d*d$|0?\d*(\.\d+)?[fFeEgG]$", spec):
                parts.append(self.fmt_mod(C("%" + spec), mk("tuple", x), st))
            else:
                return None
        return self.concat(parts)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return [(s, FALSE if b else TRUE) for s, b in self.cond(n.operand, st)]
        out = []
        for s, a in self.ev(n.operand, st):
            if isinstance(n.op, ast.USub):
                out.append((s, neg(a)))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, a))
            else:
                out.append((s, mk("invert", a)))
        return out

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        out = []
        cur = [st]
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in cur:
                if last:
                    out.extend(self.ev(x, s))
                else:
                    for s2, v in self.ev(x, s):
                        for s3, b in self.truth_states(v, s2, x):
                            if b == isand:
                                nxt.append(s3)
                            else:
                                if kind(v) == "b":
                                    v3 = TRUE if b else FALSE
                                else:
                                    v3 = v
                                out.append((s3, v3))
            cur = nxt
        return out

    def e_Compare(self, n, st):
        out = []
        for s, b in self.cond(n, st):
            out.append((s, TRUE if b else FALSE))
        return out

    # -- conditions --------------------------------------------------------------
    def cond(self, n, st):
        """-> [(state, bool)]"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            out = []
            cur = [st]
            for x in n.values:
                nxt = []
                for s in cur:
                    for s2, b in self.cond(x, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            out.extend((s, isand) for s in cur)
            return out
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, not b) for s, b in self.cond(n.operand, st)]
        if isinstance(n, ast.Compare):
            return self.compare(n, st)
        out = []
        for s, v in self.ev(n, st):
            out.extend(self.truth_states(v, s, n))
        return out

    def truth_states(self, v, st, n):
        c = self.cls_of(v)
        if c is not None:
            for nm in ("__nonzero__", "__len__"):
                l = self.prog.lookup(c, nm)
                if l is not None and l[0] != "ext":
                    if self.is_opaque(l[1]):
                        break
                    out = []
                    for s, r in self.call_fn(l[1], [v], {}, st, n):
                        out.extend(self.split(truth_atom(r), s))
                    return out
                if l is not None and l[0] == "ext":
                    break
            else:
                if v.op in ("obj", "inst"):
                    return [(st, True)]
                # may be None
                return self.split(f_not(mk("is", v, NONE)), st)
        return self.split(self.truth_of(v, st), st)

    def truth_of(self, v, st):
        if v.op == "obj":
            c = self.content(v, st)
            if c.op == "seq" and not (c.args and c.args[0].op == "splice"
                                      and c.args[0].args[0] is v):
                return seq_truth(c)
            if c.op == "upd":
                if any(w.op in ("kv",) for w in c.args[1:]):
                    return TRUE
                if len(c.args) == 1 and c.args[0].op == "dempty":
                    return FALSE
                return mk("truth", self.freeze(v, st))
            if c.op in SETS:
                return truth_atom(self.freeze_content(c, st))
            return TRUE
        if v.op == "tuple":
            return TRUE if v.args else FALSE
        if v in st.content:
            c = st.content[v]
            if c.op == "seq":
                return seq_truth(self.freeze_content(c, st))
            if c.op == "upd" and any(w.op == "kv" for w in c.args[1:]):
                return TRUE
        if v.op in ("fn", "cls", "ext", "builtin", "bound", "clo", "mod"):
            return TRUE
        return truth_atom(v)

    def split(self, f, st):
        out = []
        for s in assume(st, f, True):
            out.append((s, True))
        for s in assume(st, f, False):
            out.append((s, False))
        return out

    def compare(self, n, st):
        out = []
        ops = list(zip(n.ops, n.comparators))
        cur = [(st, None)]
        if len(ops) > 1 and all(isinstance(op, ast.Eq) for op in n.ops) and \
                isinstance(n.comparators[-1], (ast.Name, ast.Constant)):
            # a == b == x: a and b are both x
            last = n.comparators[-1]
            for x in [n.left] + n.comparators[:-1]:
                nxt = []
                for s, b in cur:
                    both = ast.copy_location(ast.Compare(x, [ast.Eq()], [last]), n)
                    for s2, r in self.compare(both, s):
                        if r:
                            nxt.append((s2, b))
                        else:
                            out.append((s2, False))
                cur = nxt
            out.extend((s, True) for s, _ in cur)
            return out
        cur = [(s, v) for s, v in self.ev(n.left, st)]
        for i, (op, right) in enumerate(ops):
            nxt = []
            for s, a in cur:
                for s2, b in self.ev(right, s):
                    for s3, r in self.cmp1(op, a, b, s2, n):
                        if r:
                            nxt.append((s3, b))
                        else:
                            out.append((s3, False))
            cur = nxt
        out.extend((s, True) for s, _ in cur)
        return out

    def cmp1(self, op, a, b, st, n):
        k = COMPARE[type(op)]
        if k in ("is", "is not"):
            f = self.is_formula(a, b, st)
            return [(s, r == (k == "is")) for s, r in self.split(f, st)]
        if k in ("==", "!="):
            res = self.equal(a, b, st, n, k)
            return res
        if k in ("in", "not in"):
            res = self.contains(a, b, st, n)
            return [(s, r == (k == "in")) for s, r in res]
        if k == ">":
            f = lt(b, a)
        elif k == "<":
            f = lt(a, b)
        elif k == ">=":
            f = f_not(lt(a, b))
        else:
            f = f_not(lt(b, a))
        return self.split(f, st)

    def held(self, x):
        """what a container of a declared type holds: not None"""
        ty = self.typeof(x.args[0])
        return ty is not None and isinstance(ty.elem, Ty) and \
            ("." in ty.elem.name or ty.elem.name in ("str", "list", "int"))

    def is_formula(self, a, b, st):
        if a is b:
            return TRUE
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            if never_none(x):
                return FALSE
            if x.op == "ite" and x.args[2] is NONE and x.args[0].op == "in" and \
                    x.args[1].op == "sub" and self.held(x.args[1]):
                return f_not(x.args[0])
            return mk("is", x, NONE)
        if a.op == "obj" and (b.op == "obj" or b.op in ("param", "attr", "c")):
            return FALSE
        if b.op == "obj" and a.op in ("param", "attr", "c"):
            return FALSE
        if isc(a) and isc(b):
            return FALSE
        if a.op in ("builtin", "cls", "fn") and b.op in ("builtin", "cls", "fn"):
            return FALSE
        if b.d < a.d:
            a, b = b, a
        return mk("is", a, b)

    def equal(self, a, b, st, n, k="=="):
        want = k == "=="
        c = self.cls_of(a)
        if c is not None:
            nm = "__eq__" if want else "__ne__"
            l = self.prog.lookup(c, nm)
            if l is not None and l[0] != "ext" and not self.is_opaque(l[1]):
                if l[1] in self.stack and self.stack.count(l[1]) > 2:
                    return self.split(mk("eq", *sorted((a, b))), st) if want else \
                        [(s, not r) for s, r in self.split(mk("eq", *sorted((a, b))), st)]
                out = []
                for s, v in self.call_fn(l[1], [a, b], {}, st, n):
                    out.extend(self.truth_states(v, s, n))
                return out
            if l is None or l[0] == "ext":
                if l is None and not want:
                    # Python 2: != without __ne__ compares identity
                    r = self.split(self.is_formula(a, b, st), st)
                    return [(s, not x) for s, x in r]
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        if (fa.op == "list" or fb.op == "list"):
            for x, y in ((fa, fb), (fb, fa)):
                if x.op == "list" and not x.args and y.op != "list":
                    f = f_not(truth_atom(y))
                    return [(s, r == want) for s, r in self.split(f, st)]
        if isnum(fa) or isnum(fb) or fa.op == "num" or fb.op == "num" or \
                (kind(fa) in ("i", "f") and kind(fb) in ("i", "f")):
            if not (isc(fa) and not isnum(fa)) and not (isc(fb) and not isnum(fb)):
                z = None
                if isnum(fb) and fb.args[0] == 0:
                    z = zero_formula(fa)
                elif isnum(fa) and fa.args[0] == 0:
                    z = zero_formula(fb)
                elif not isc(fa) or not isc(fb):
                    if fa.op == "num" or fb.op == "num" or \
                            fa.op in ("len", "float", "sum") or fb.op in ("len", "float", "sum"):
                        d = add(fa, fb, -1)
                        z = zero_formula(d)
                if z is not None:
                    return [(s, r == want) for s, r in self.split(z, st)]
        if isstr(fa) and fa.args[0] == "" and kind(fb) == "s":
            return [(s, r == want) for s, r in self.split(f_not(truth_atom(fb)), st)]
        f = eq(fa, fb)
        return [(s, r == want) for s, r in self.split(f, st)]

    def contains(self, a, b, st, n):
        c = self.cls_of(b)
        if c is not None:
            l = self.prog.lookup(c, "__contains__")
            if l is not None and l[0] != "ext" and l[1] not in self.stack:
                out = []
                for s, v in self.call_fn(l[1], [b, a], {}, st, n):
                    out.extend(self.truth_states(v, s, n))
                return out
        if self.is_graph(b):
            return self.split(mk("in", self.freeze(a, st), self.nxg(b, st)), st)
        ct = self.content(b, st)
        if ct.op == "seq" and all(p.op == "item" for p in ct.args) and not isstr(b):
            f = f_or(*[eq(self.freeze(a, st), self.freeze(p.args[0], st)) for p in ct.args])
            return self.split(f, st)
        if isstr(a) and isstr(b):
            return [(st, a.args[0] in b.args[0])]
        if isstr(b) and len(b.args[0]) <= 8 and a.op == "sub" and kind(a.args[0]) == "s" and \
                a.args[1].op != "slice":
            # one character
            return self.split(f_or(*[eq(a, C(x)) for x in b.args[0]]), st)
        if ct.op == "upd":
            fs = []
            decided = True
            for w in reversed(ct.args[1:]):
                if w.op == "kv":
                    e = eq(w.args[0], a)
                    if e is TRUE:
                        return [(st, True)]
                    if e is FALSE:
                        continue
                    fs.append(e)
                else:
                    decided = False
                    break
            if decided:
                base = ct.args[0]
                if base.op == "dempty":
                    return self.split(f_or(*fs), st)
                src = base
                if base.op == "seq" and len(base.args) == 1 and base.args[0].op == "splice":
                    src = base.args[0].args[0]
                return self.split(f_or(*(fs + [member(a, src)])), st)
        src = self.freeze(b, st)
        if src.op == "keys":
            src = src.args[0]
        if src.op == "list" and len(src.args) == 1 and src.args[0].op == "splice":
            src = src.args[0].args[0]
        return self.split(member(self.freeze(a, st), src), st)

    # -- comprehensions -----------------------------------------------------------
    def e_ListComp(self, n, st):
        return self.comp(n, n.generators, st, "list")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, n.generators, st, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, n.generators, st, "set")

    def e_DictComp(self, n, st):
        return self.comp(n, n.generators, st, "dict")

    def comp(self, n, gens, st, what):
        """comprehensions are loops that fill a fresh container"""
        o = self.new("list" if what == "list" else what)
        st = st.clone()
        if what == "list":
            st.content[o] = EMPTY
        elif what == "set":
            st.content[o] = setof(EMPTY)
        else:
            st.content[o] = mk("upd", mk("dempty"))

        def fill(s):
            out = []
            if what == "dict":
                for s1, k in self.ev(n.key, s):
                    for s2, v in self.ev(n.value, s1):
                        out.extend(self.setitem0(o, k, v, s2, n))
                return [("fall", x, None, None) for x in out]
            for s1, v in self.ev(n.elt, s):
                s1 = s1.clone()
                c = s1.content[o]
                if what == "list":
                    s1.content[o] = mk("seq", *(c.args + (mk("item", v),)))
                else:
                    s1.content[o] = self.set_add(c, v, s1)
                out.append(("fall", s1, None, None))
            return out

        def gen(i):
            def run(s):
                if i == len(gens):
                    return fill(s)
                g = gens[i]
                out = []
                for s1, it in self.ev(g.iter, s):
                    def body(s2, g=g):
                        cur = [s2]
                        for c in g.ifs:
                            cur = [s3 for x in cur for s3, b in self.cond(c, x) if b]
                            # states in which the filter is false skip the element
                        res = []
                        for x in cur:
                            res.extend(gen(i + 1)(x))
                        cur = [s2]
                        for c in g.ifs:
                            nxt = []
                            for x in cur:
                                for s3, b in self.cond(c, x):
                                    if b:
                                        nxt.append(s3)
                                    else:
                                        res.append(("fall", s3, None, None))
                            cur = nxt
                        return res
                    for r in self.for_loop(g.target, it, body, s1, n, comp=True):
                        out.append(r)
                return out
            return run
        fr = self.fr()
        saved_locals = fr.locals
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        fr.locals = set(saved_locals) | names
        saved_env = {k: st.env.get(k) for k in names}
        try:
            res = gen(0)(st)
        finally:
            fr.locals = saved_locals
        out = []
        for k, s, v, l in res:
            if k == "fall":
                s = s.clone()
                for x, val in saved_env.items():
                    if val is None:
                        s.env.pop(x, None)
                    else:
                        s.env[x] = val
                out.append((s, o))
        return out


def teq_len(hi, src):
    return hi.op == "len" and hi.args[0] is src
