"""Methods of lists, dictionaries, sets, files, XML elements; library calls."""
import math

from .model import Func, Cls
from .state import Ty, assume, truth_atom, lt, seq_truth, entails, root
from .binders import sorted_of, getor, member
from .terms import (SETS, setof, T, mkset, mk, C, NONE, TRUE, FALSE, EMPTY, isc, isnum, isstr,
                    f_not, f_and, f_or, eq, kind, add, neg)

DICT_ONLY = set("""get has_key items iteritems iterkeys itervalues keys setdefault
values viewitems viewkeys viewvalues""".split())


class Containers:
    def changed(self, b, name, args, st, n):
        """record a mutation of a container that is not fresh here"""
        if not self.fresh(b):
            st.event("mutate", (b, C(name)) + tuple(self.freeze(a, st) for a in args),
                     self.loc(n) if n is not None and hasattr(n, "lineno") else None)

    # -- lists -------------------------------------------------------------------------
    def list_method(self, b, name, args, kw, st, n):
        c = self.content(b, st)
        if name == "append" and len(args) == 1:
            st = st.clone()
            if c.op == "seq":
                st.content[b] = mk("seq", *(c.args + (mk("item", args[0]),)))
            else:
                st.content[b] = mk("seq", mk("splice", self.freeze(b, st)), mk("item", args[0]))
            self.changed(b, name, args, st, n)
            return [(st, NONE)]
        if name in ("extend", "__iadd__") and len(args) == 1:
            out = []
            for s, l in self.b_list([args[0]], {}, st, n):
                s = s.clone()
                x = self.content(l, s)
                parts = x.args if x.op == "seq" else (mk("splice", self.freeze(l, s)),)
                c = self.content(b, s)
                head = c.args if c.op == "seq" else (mk("splice", self.freeze(b, s)),)
                s.content[b] = mk("seq", *(head + parts))
                self.changed(b, "extend", [args[0]], s, n)
                out.append((s, NONE if name == "extend" else b))
            return out
        if name == "insert" and len(args) == 2:
            st = st.clone()
            i = args[0]
            its = all(p.op == "item" for p in c.args) if c.op == "seq" else False
            if c.op == "seq" and i is C(0):
                st.content[b] = mk("seq", *((mk("item", args[1]),) + c.args))
            elif its and isnum(i):
                l = list(c.args)
                l.insert(i.args[0], mk("item", args[1]))
                st.content[b] = mk("seq", *l)
            else:
                st.content[b] = mk("upd", c, mk("ins", i, self.freeze(args[1], st)))
            self.changed(b, name, args, st, n)
            return [(st, NONE)]
        if name == "pop" and len(args) <= 1:
            i = args[0] if args else C(-1)
            out = []
            for s, v in self.getitem0(b, i, st, n):
                s = s.clone()
                c = self.content(b, s)
                if c.op == "seq" and isnum(i) and i.args[0] < 0 and c.args and all(
                        p.op == "item" for p in c.args[i.args[0]:]) and -i.args[0] <= len(c.args):
                    l = list(c.args)
                    del l[i.args[0]]
                    s.content[b] = mk("seq", *l)
                elif c.op == "seq" and isnum(i) and i.args[0] >= 0 and all(
                        p.op == "item" for p in c.args[:i.args[0] + 1]) and \
                        i.args[0] < len(c.args):
                    l = list(c.args)
                    del l[i.args[0]]
                    s.content[b] = mk("seq", *l)
                else:
                    s.content[b] = mk("upd", c, mk("del", i))
                self.changed(b, name, args, s, n)
                out.append((s, v))
            return out
        if name == "remove" and len(args) == 1:
            st = st.clone()
            x = self.freeze(args[0], st)
            if c.op == "seq" and all(p.op == "item" for p in c.args):
                l = list(c.args)
                for p in l:
                    if p.args[0] is args[0]:
                        l.remove(p)
                        st.content[b] = mk("seq", *l)
                        self.changed(b, name, args, st, n)
                        return [(st, NONE)]
            out = []
            for s in self.may_raise(st, "ValueError", f_not(mk("in", x, self.freeze(b, st))), n):
                s = s.clone()
                s.content[b] = mk("upd", c, mk("rem", x))
                self.changed(b, name, args, s, n)
                out.append((s, NONE))
            return out
        if name == "reverse" and not args:
            st = st.clone()
            if c.op == "seq" and all(p.op == "item" for p in c.args):
                st.content[b] = mk("seq", *reversed(c.args))
            else:
                f = self.freeze(b, st)
                st.content[b] = mk("seq", mk("splice", mk("reversed", f)))
            self.changed(b, name, args, st, n)
            return [(st, NONE)]
        if name == "sort" and c is EMPTY:
            return [(st, NONE)]
        if name == "sort":
            st = st.clone()
            f = self.freeze(b, st)
            if kw.get("reverse") is FALSE:
                kw = {k: v for k, v in kw.items() if k != "reverse"}
            st.content[b] = mk("seq", mk("splice", sorted_of(f, *[
                mk("kw", k, self.freeze(v, st)) for k, v in sorted(kw.items())] + [
                self.freeze(a, st) for a in args])))
            self.changed(b, name, args, st, n)
            return [(st, NONE)]
        if name in ("index", "count"):
            f = self.freeze(b, st)
            v = mk("lindex" if name == "index" else "lcount", f, *self.fz(args, kw, st))
            if name == "index":
                return [(s, v) for s in self.may_raise(
                    st, "ValueError", f_not(mk("in", self.freeze(args[0], st), f)), n)]
            return [(st, v)]
        return None

    def get_or(self, src, k, d, st):
        """src.get(k, d); alternatives if d can be changed later"""
        c = src.args[0] if src.op == "dictv" else src
        table = c.op == "upd" and c.args[0].op == "dempty" and all(
            w.op == "kv" and isc(w.args[0]) and isc(w.args[1]) for w in c.args[1:])
        if d.op == "obj" or table:
            return [(s, self.sub(src, k, s) if x else d)
                    for s, x in self.split(member(k, src), st)]
        return [(st, getor(src, k, d))]

    # -- dictionaries --------------------------------------------------------------------
    def dict_method(self, b, name, args, kw, st, n):
        c = self.content(b, st)
        known = c.op == "upd" and c.args[0].op == "dempty" and all(
            w.op == "kv" and isc(w.args[0]) for w in c.args[1:])
        if name == "get":
            d = args[1] if len(args) > 1 else NONE
            if c.op == "upd":
                return self.dict_get(b, c, args[0], st, n, default=d)
            src = self.freeze(b, st)
            e = entails(st.pc, mk("in", self.freeze(args[0], st), src))
            if e is True:
                return [(st, self.sub(src, self.freeze(args[0], st), st))]
            if e is False:
                return [(st, d)]
            return self.get_or(src, self.freeze(args[0], st), d, st)
        if name in ("has_key", "__contains__"):
            return [(s, TRUE if r else FALSE) for s, r in self.contains(args[0], b, st, n)]
        if name in ("keys", "iterkeys", "__iter__", "viewkeys"):
            if known:
                return self.fresh_list([w.args[0] for w in c.args[1:]], st)
            return [(st, mk("keys", self.freeze(b, st)))]
        if name in ("values", "itervalues", "viewvalues"):
            if known:
                return self.fresh_list([w.args[1] for w in c.args[1:]], st)
            return [(st, mk("values", self.freeze(b, st)))]
        if name in ("items", "iteritems", "viewitems"):
            if known:
                return self.fresh_list([mk("tuple", *w.args) for w in c.args[1:]], st)
            return [(st, mk("items", self.freeze(b, st)))]
        if name == "setdefault":
            d = args[1] if len(args) > 1 else NONE
            out = []
            for s, r in self.contains(args[0], b, st, n):
                if r:
                    for s2, v in self.getitem0(b, args[0], s, n):
                        out.append((s2, v))
                else:
                    for s2 in self.setitem0(b, args[0], d, s, n):
                        out.append((s2, d))
            return out
        if name == "update":
            st = st.clone()
            ws = []
            if args:
                x = self.content(args[0], st)
                if x.op == "upd" and x.args[0].op == "dempty" and all(
                        w.op == "kv" for w in x.args[1:]):
                    ws = list(x.args[1:])
                else:
                    ws = [mk("merge", self.freeze(args[0], st))]
            for k, v in sorted(kw.items()):
                ws.append(mk("merge", v) if k == "**" else mk("kv", C(k), v))
            if c.op == "upd":
                old = list(c.args[1:])
                if all(w.op == "kv" and isc(w.args[0]) for w in old + ws):
                    new = {w.args[0] for w in ws}
                    old = [w for w in old if w.args[0] not in new]
                st.content[b] = mk("upd", c.args[0], *(old + ws))
            else:
                st.content[b] = mk("upd", c, *ws)
            self.changed(b, name, args, st, n)
            return [(st, NONE)]
        if name == "copy" and not args:
            o = self.new("dict")
            st = st.clone()
            st.content[o] = c if c.op == "upd" else mk("upd", c)
            return [(st, o)]
        if name == "pop":
            out = []
            fk = self.freeze(args[0], st)
            if len(args) > 1:
                res = self.get_or(self.freeze(b, st), fk, args[1], st)
            else:
                res = self.getitem0(b, args[0], st, n)
            for s, v in res:
                s = s.clone()
                c2 = self.content(b, s)
                s.content[b] = mk("upd", *((c2.args if c2.op == "upd" else (c2,)) +
                                           (mk("del", fk),)))
                self.changed(b, name, args, s, n)
                out.append((s, v))
            return out
        if name == "clear":
            st = st.clone()
            st.content[b] = mk("upd", mk("dempty"))
            self.changed(b, name, args, st, n)
            return [(st, NONE)]
        return None

    # -- sets ------------------------------------------------------------------------------
    def setlike(self, t, st):
        if t.op in SETS or t.op == "setv":
            return True
        if t.op == "obj":
            return self.objcls.get(t) == "set"
        ty = self.typeof(t)
        return ty is not None and ty.name == "set"

    def set_add(self, c, v, st):
        if c.op == "setof" and c.args[0].op == "seq":
            return setof(mk("seq", *(c.args[0].args + (mk("item", v),))))
        return setof(mk("seq", mk("splice", mk("setv", c)), mk("item", v)))

    def set_op(self, op, vals, st):
        cs = []
        for v in vals:
            c = self.content(v, st)
            if c.op in SETS:
                f = self.freeze_content(c, st)
                if f.op == "setof" and len(f.args[0].args) == 1 and \
                        f.args[0].args[0].op == "splice" and \
                        f.args[0].args[0].args[0].op == "setv":
                    f = f.args[0].args[0].args[0].args[0]
                cs.append(f)
            else:
                f = self.freeze(v, st)
                cs.append(f.args[0] if f.op == "setv" else setof(mk("seq", mk("splice", f))))
        return mk("setv", mkset(op, *cs))

    def set_method(self, b, name, args, kw, st, n):
        c = self.content(b, st)
        if name == "add":
            st = st.clone()
            st.content[b] = self.set_add(c, args[0], st)
            self.changed(b, name, args, st, n)
            return [(st, NONE)]
        if name in ("update", "intersection_update", "difference_update"):
            st = st.clone()
            v = b
            out = [(st, None)]
            op = {"update": "union", "intersection_update": "inter",
                  "difference_update": "diff"}[name]
            if name == "update" and c.op == "setof" and len(args) == 1:
                res = []
                for s, l in self.b_list([args[0]], {}, st, n):
                    s = s.clone()
                    x = self.content(l, s)
                    c2 = self.content(b, s)
                    parts = x.args if x.op == "seq" else (mk("splice", self.freeze(l, s)),)
                    s.content[b] = setof(mk("seq", *(c2.args[0].args + parts)))
                    self.changed(b, name, args, s, n)
                    res.append((s, NONE))
                return res
            r = self.set_op(op, [b] + list(args), st)
            st.content[b] = r.args[0]
            self.changed(b, name, args, st, n)
            return [(st, NONE)]
        if name in ("union", "intersection", "difference"):
            out = []
            vals = [b]
            cur = [(st, [b])]
            for a in args:
                nxt = []
                for s, vs in cur:
                    for s2, o in self.b_set([a], {}, s, n):
                        nxt.append((s2, vs + [o]))
                cur = nxt
            for s, vs in cur:
                r = self.set_op({"union": "union", "intersection": "inter",
                                 "difference": "diff"}[name], vs, s)
                out.append((s, r))
            return out
        if name in ("issubset", "issuperset", "isdisjoint"):
            f = mk("truth", mk("smeth", name, self.freeze(b, st), *self.fz(args, kw, st)))
            return [(s, TRUE if x else FALSE) for s, x in self.split(f, st)]
        if name in ("remove", "discard"):
            out = []
            x = self.freeze(args[0], st)
            sts = [st] if name == "discard" else self.may_raise(
                st, "KeyError", f_not(mk("in", x, self.freeze(b, st))), n)
            for s in sts:
                s = s.clone()
                s.content[b] = mk("diff", self.freeze_content(c, s),
                                  setof(mk("seq", mk("item", x))))
                self.changed(b, name, args, s, n)
                out.append((s, NONE))
            return out
        if name == "copy":
            o = self.new("set")
            st = st.clone()
            st.content[o] = c
            return [(st, o)]
        if name == "pop":
            st = st.clone()
            v = mk("setpop", self.freeze(b, st))
            st.content[b] = mk("diff", self.freeze_content(c, st),
                               setof(mk("seq", mk("item", v))))
            self.changed(b, name, args, st, n)
            return [(st, v)]
        return None

    # -- files -------------------------------------------------------------------------------
    def file_method(self, b, name, args, kw, st, n):
        st = st.clone()
        l = self.loc(n) if n is not None else None
        if name == "write":
            st.event("write", (b, self.freeze(args[0], st)), l)
            return [(st, NONE)]
        if name == "close":
            st.event("close", (b,), l)
            return [(st, NONE)]
        if name in ("read", "readline", "readlines"):
            st.event("read", (b,), l)
            return [(st, mk("call", mk("meth", b, name), *self.fz(args, kw, st)))]
        return None

    # -- XML elements ----------------------------------------------------------------------------
    def new_element(self, args, kw, st, n):
        o = self.new("ext:Element")
        st = st.clone()
        st.content[o] = EMPTY
        st.attrs[(o, "tag")] = args[0]
        at = self.new("dict")
        ws = [mk("kv", C(k), v) for k, v in sorted(kw.items()) if k != "**"]
        base = mk("upd", mk("dempty"))
        if len(args) > 1:
            c = self.content(args[1], st)
            base = c if c.op == "upd" else mk("upd", mk("seq", mk("splice", self.freeze(args[1], st))))
        if "**" in kw:
            ws.append(mk("merge", self.freeze(kw["**"], st)))
        st.content[at] = mk("upd", *(base.args + tuple(ws)))
        st.attrs[(o, "attrib")] = at
        return st, o

    def element_method(self, b, name, args, kw, st, n):
        if name == "set":
            out = []
            for s, at in self.getattr_(b, "attrib", st, n):
                for s2 in self.setitem0(at, args[0], args[1], s, n):
                    out.append((s2, NONE))
            return out
        if name == "get":
            out = []
            for s, at in self.getattr_(b, "attrib", st, n):
                out.extend(self.dict_method(at, "get", args, kw, s, n))
            return out
        if name in ("append", "extend", "insert", "remove"):
            return self.list_method(b, name, args, kw, st, n)
        if name == "clear" and b.op != "obj":
            st = st.clone()
            st.event("mutate", (b, C("clear")), self.loc(n))
            return [(st, NONE)]
        if name in ("getiterator", "iter"):
            return [(st, mk("eliter", self.freeze(b, st), *self.fz(args, kw, st)))]
        if name == "getchildren" and not args and not kw:
            return self.b_list([b], {}, st, n)
        if name in ("find", "findall", "findtext", "iterfind", "getchildren"):
            v = mk("el" + name, self.freeze(b, st), *self.fz(args, kw, st))
            if name == "find":
                self.types[v] = Ty("ext:Element")
            return [(st, v)]
        return None

    # -- library functions -----------------------------------------------------------------------
    def ext_call(self, name, args, kw, st, n):
        last = name.split(".")[-1]
        if name in ("math.sqrt",):
            a = self.freeze(args[0], st)
            if isnum(a):
                r = math.sqrt(a.args[0])
                return [(st, C(r))]
            return [(st, root(a))]
        if name == "collections.OrderedDict":
            r = self.b_dict(args, kw, st, n)
            for s, o in r or ():
                s.attrs[(o, ".ordered")] = TRUE
            return r
        if name == "math.log":
            fa = self.fz(args, kw, st)
            if len(fa) == 2:
                from .terms import tdiv
                return [(st, tdiv(mk("log", fa[0]), mk("log", fa[1])))]
            return [(s, mk("log", fa[0])) for s in [st]]
        if name in ("math.pow",):
            fa = self.fz(args, kw, st)
            return [(st, mk("pow", *fa))]
        if name in ("math.ceil", "math.floor", "math.fabs", "math.exp", "math.log10", "math.log1p"):
            fa = self.fz(args, kw, st)
            if name == "math.fabs":
                return self.b_abs(args, kw, st, n)
            return [(st, mk(last, *fa))]
        if name in ("copy.copy", "copy.deepcopy"):
            return self.copy_call(last, args, st, n)
        if name in ("et.Element",) and args:
            st, o = self.new_element(args, kw, st, n)
            return [(st, o)]
        if name == "et.SubElement":
            st, o = self.new_element(args[1:], kw, st, n)
            return [(s, o) for s, _ in self.list_method(args[0], "append", [o], {}, st, n)]
        if name in ("codecs.open", "gzip.open", "os.fdopen", "io.open"):
            r = self.b_open(args, kw, st, n)
            return r
        if name in ("itertools.chain",):
            o = self.new("list")
            cur = st.clone()
            cur.content[o] = EMPTY
            res = [cur]
            for a in args:
                res = [s2 for s in res for s2, _ in self.list_method(o, "extend", [a], {}, s, n)]
            return [(s, o) for s in res]
        if name in ("itertools.islice", "itertools.count", "itertools.combinations",
                    "itertools.product", "itertools.groupby", "itertools.permutations"):
            return [(st, mk(last, *self.fz(args, kw, st)))]
        if name in ("StringIO.StringIO", "cStringIO.StringIO"):
            o = self.new("ext:StringIO")
            return [(st, o)]
        if name == "collections.defaultdict" or name.endswith("defaultdict"):
            o = self.new("dict")
            st = st.clone()
            st.content[o] = mk("upd", mk("dempty"))
            fac = args[0] if args else NONE
            st.content[o] = mk("upd", mk("ddefault", self.freeze(fac, st)))
            return [(st, o)]
        if name.startswith("os.path."):
            fa = self.fz(args, kw, st)
            v = mk("call", mk("ext", name), *fa)
            if last in ("exists", "isfile", "isdir", "isabs", "samefile", "islink"):
                return [(s, TRUE if x else FALSE) for s, x in self.split(mk("truth", v), st)]
            if last in ("split", "splitext"):
                self.types[v] = Ty("tuple", elem={0: Ty("str"), 1: Ty("str")})
                return [(st, mk("tuple", mk("sub", v, C(0)), mk("sub", v, C(1))))]
            self.types[v] = Ty("str")
            return [(st, v)]
        if name == "sys.exit":
            return self.b_exit(args, kw, st, n)
        if name.split(".")[0] in ("operator",) and last in ("itemgetter", "attrgetter"):
            return [(st, mk("lam", 1, mk(last, *self.fz(args, kw, st))))]
        if self.is_ext_exception(name):
            return [(st, mk("exc", name.split(".")[-1], *self.fz(args, kw, st)))]
        if name in ("glob.glob", "os.listdir", "glob.iglob") and len(args) == 1:
            out = []
            for s, v in self.opaque_call(mk("ext", name.replace("iglob", "glob")), args, kw, st, n,
                                         pure=name in PURE_EXT or name in self.pure_calls):
                self.types[v] = Ty("list", elem=Ty("str"))
                out += self.b_list([v], {}, s, n)
            return out
        watched = [e for e in EXT_RAISES.get(name, ()) if self.watched(e)]
        out = []
        for s, v in self.opaque_call(mk("ext", name), args, kw, st, n,
                                     pure=name in PURE_EXT or name in self.pure_calls):
            cur = [s]
            for e in watched:
                cur = [x for y in cur for x in self.may_raise(
                    y, e, mk("raises", e, v), n)]
            out.extend((x, v) for x in cur)
        return out

    def is_ext_exception(self, name):
        last = name.split(".")[-1]
        return last.endswith("Error") or last.endswith("Exception") or last == "Warning"

    def copy_call(self, which, args, st, n):
        a = args[0]
        c = self.cls_of(a)
        if c is not None:
            l = self.prog.lookup(c, "__deepcopy__" if which == "deepcopy" else "__copy__")
            if l is not None and l[0] != "ext" and l[1] not in self.stack:
                extra = [args[1]] if len(args) > 1 else [mk("memo")]
                return self.call_fn(l[1], [a] + (extra if which == "deepcopy" else []),
                                    {}, st, n)
        f = self.freeze(a, st)
        if isc(f) or kind(f) in ("i", "f", "s", "b"):
            return [(st, f)]
        v = mk(which, f)
        ty = self.typeof(a)
        if ty is not None:
            self.types[v] = ty
        return [(st, v)]


PURE_EXT = set("""os.getcwd time.time locale.getpreferredencoding
sys.getfilesystemencoding re.compile""".split())
EXT_RAISES = {
    "os.makedirs": ("OSError",), "os.remove": ("OSError",), "os.chdir": ("OSError",),
    "et.parse": ("IOError", "ExpatError", "ParseError"), "et.iterparse": ("IOError",),
    "et.fromstring": ("ParseError",), "et.XML": ("ParseError",),
    "shutil.copy": ("IOError",), "os.rename": ("OSError",), "os.mkdir": ("OSError",),
}
