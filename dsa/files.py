"""Typestate of files opened from a path: closed on every normal way out.

Path-sensitive forward analysis of one function.  A state maps variables to the
resources they may hold, resources to open/closed, and remembers the truth of
conditions that were tested (by their text) until a variable in them changes.
"""
import ast
import itertools

from .names import own_walk, stored_in
from .model import Func, Cls

OPENERS = {"__builtin__.open", "__builtin__.file", "codecs.open", "io.open", "os.fdopen",
           "zipfile.ZipFile", "gzip.open", "bz2.BZ2File", "tarfile.open", "os.popen",
           "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "shelve.open"}
MAX = 60


class State:
    __slots__ = ("env", "res", "cond")

    def __init__(self, env=None, res=None, cond=None):
        self.env = env or {}        # variable -> resource id | ("const", truth)
        self.res = res or {}        # resource id -> "open" | "closed" | "gone" | "maybe"
        self.cond = cond or {}      # text -> bool

    def copy(self):
        return State(dict(self.env), dict(self.res), dict(self.cond))

    def key(self):
        return (tuple(sorted(self.env.items(), key=str)), tuple(sorted(self.res.items(),
                key=str)), tuple(sorted(self.cond.items())))


_nm = {}


def _names(text):
    r = _nm.get(text)
    if r is None:
        r = _nm[text] = {n.id for n in ast.walk(ast.parse(text)) if isinstance(n, ast.Name)}
    return r


def dedupe(states):
    out = {}
    for s in states:
        out.setdefault(s.key(), s)
    return list(out.values())[:MAX]


class Files:
    """all functions of the program; summaries are computed on demand"""

    def __init__(self, names):
        self.names = names
        self.scope = {}
        for b in names.mods.values():
            for s in b.all:
                if s.kind == "function":
                    self.scope[s.node] = s
        self.closes_memo = {}
        self.opens_memo = {}
        self.busy = set()

    def closes(self, fn, i):
        """does the function close its i-th parameter on every normal path?"""
        k = (fn.node, i)
        if k in self.closes_memo:
            return self.closes_memo[k]
        self.closes_memo[k] = False
        s = self.scope.get(fn.node)
        if s is None or i >= len(s.params):
            return False
        a = FileFlow(self, s, start=s.params[i])
        r = a.exits and all(st.res.get("start") == "closed" for st in a.exits)
        self.closes_memo[k] = bool(r)
        return bool(r)

    def opens(self, fn):
        """does the function return a file that it opened?"""
        if fn.node in self.opens_memo:
            return self.opens_memo[fn.node]
        self.opens_memo[fn.node] = False
        s = self.scope.get(fn.node)
        if s is None or not any(isinstance(n, ast.Call) for n in own_walk(fn.node.body)):
            return False
        a = FileFlow(self, s)
        self.opens_memo[fn.node] = a.returns_open
        return a.returns_open


class FileFlow:
    def __init__(self, files, scope, start=None):
        self.F, self.s = files, scope
        self.leaks = {}             # resource id -> (node, why)
        self.unsure = {}
        self.opened = {}            # resource id -> node
        self.exits = []
        self.returns_open = False
        self.foreign = []           # close() of a caller's file
        self.exc = []
        self.fin = []
        self.loops = []
        st = State()
        if start is not None:
            st.env[start] = "start"
            st.res["start"] = "open"
        self.closers = self._closers()
        out = self.block(scope.node.body, [st])
        for x in out:
            self.leave(x, None)

    def _closers(self):
        """names on which close() is called anywhere"""
        out = set()
        for n in own_walk(self.s.node.body):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr == "close" and isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
        return out

    # -- leaving ---------------------------------------------------------------
    def leave(self, st, keep):
        for f in reversed(self.fin):
            saved, self.fin = self.fin, []
            sts = self.block(f, [st.copy()])
            self.fin = saved
            if not sts:
                return
            st = sts[0]
        self.exits.append(st)
        for r, k in st.res.items():
            if r == "start" or r == keep:
                continue
            if k == "open":
                self.leaks.setdefault(r, "still open when the function returns")
            elif k == "maybe":
                self.unsure.setdefault(r, "closed under a condition")

    # -- expressions -------------------------------------------------------------
    def opener(self, e):
        if not isinstance(e, ast.Call):
            return False
        r = self.F.names.resolve(self.s, e.func)
        if isinstance(r, tuple) and r[0] == "ext":
            return r[1] in OPENERS
        from .names import callee
        f = callee(self.F.names, self.s, e)
        return f is not None and f.node is not self.s.node and self.F.opens(f)

    def value(self, e, st):
        """resource id of an expression's value (opening it if need be), or None"""
        if isinstance(e, ast.Name):
            r = st.env.get(e.id)
            return r if not isinstance(r, tuple) else None
        if self.opener(e):
            if e.args and isinstance(e.args[0], ast.Name):
                a = st.env.get(e.args[0].id)
                if a is not None and not isinstance(a, tuple):
                    return None         # wraps a file that is open already
            r = id(e)
            self.opened[r] = e
            st.res[r] = "open"
            return r
        if isinstance(e, ast.IfExp):
            return "?"
        return None

    def scan(self, e, st):
        """effects of evaluating an expression whose value is not a bare resource"""
        if e is None:
            return
        if isinstance(e, (ast.Lambda, ast.GeneratorExp, ast.FunctionDef)):
            for n in ast.walk(e):
                if isinstance(n, ast.Name):
                    self.escape(n.id, st)
            return
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute):
                if f.attr == "close" and isinstance(f.value, ast.Name):
                    r = st.env.get(f.value.id)
                    if r is not None and not isinstance(r, tuple):
                        st.res[r] = "closed"
                    elif r is None and f.value.id in self.s.params:
                        self.foreign.append((e, f.value.id, dict(st.cond)))
                    return
                if self.opener(f.value):
                    self.scan_args(f.value, st)
                    if f.attr != "close":
                        self.temp(f.value)
                else:
                    self.scan(f.value, st)
            keep = self.keeps(e)
            for i, a in enumerate(list(e.args) + [k.value for k in e.keywords]):
                if self.opener(a):
                    self.scan_args(a, st)
                    if keep or self.closing(e, i, a):
                        continue
                    self.temp(a)
                elif isinstance(a, ast.Name):
                    r = st.env.get(a.id)
                    if r is not None and not isinstance(r, tuple):
                        if self.closing(e, i, a):
                            st.res[r] = "closed"
                        elif keep:
                            st.res[r] = "gone"
                else:
                    self.scan(a, st)
            return
        if isinstance(e, (ast.Tuple, ast.List, ast.Dict, ast.Set)):
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.Name):
                    self.escape(c.id, st)
                elif not self.opener(c):
                    self.scan(c, st)
            return
        if isinstance(e, (ast.Yield,)):
            if isinstance(e.value, ast.Name):
                self.escape(e.value.id, st)
            else:
                self.scan(e.value, st)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.comprehension,)):
                if self.opener(c.iter):
                    self.temp(c.iter)
                else:
                    self.scan(c.iter, st)
            elif self.opener(c) and isinstance(e, ast.Attribute):
                self.temp(c)
            elif isinstance(c, ast.expr):
                self.scan(c, st)

    def scan_args(self, call, st):
        for a in list(call.args) + [k.value for k in call.keywords]:
            self.scan(a, st)

    def temp(self, e):
        self.opened[id(e)] = e
        self.leaks[id(e)] = "opened for one expression and never closed"

    def escape(self, name, st):
        r = st.env.get(name)
        if r is not None and not isinstance(r, tuple):
            st.res[r] = "gone"

    def keeps(self, call):
        """may the callee keep the file?  (constructors, container methods)"""
        f = call.func
        r = self.F.names.resolve(self.s, f)
        if isinstance(r, Cls):
            return True
        if isinstance(r, tuple) and r[0] == "ext":
            n = r[1]
            return n in OPENERS or n.split(".")[-1][:1].isupper() or n in (
                "csv.reader", "csv.writer", "codecs.getreader", "contextlib.closing",
                "codecs.getwriter")
        if isinstance(f, ast.Attribute) and f.attr in (
                "append", "add", "insert", "setdefault", "put", "push", "callback",
                "enter_context", "register"):
            return True
        if isinstance(f, ast.Name) and f.id == "setattr":
            return True
        if isinstance(f, ast.Call):
            return True             # codecs.getwriter(..)(f)
        return False

    def closing(self, call, i, a):
        from .names import callee
        f = callee(self.F.names, self.s, call)
        if f is None or i >= len(call.args):
            return False
        off = 1 if f.cls is not None and not f.static and \
            isinstance(call.func, ast.Attribute) else 0
        return self.F.closes(f, i + off)

    # -- conditions -----------------------------------------------------------------
    def truth(self, t, st):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.truth(t.operand, st)
            return None if r is None else not r
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.Name):
            v = st.env.get(t.id)
            if isinstance(v, tuple):
                return v[1]
            if v is not None and v in st.res:
                return True             # files are true
            txt = st.cond.get(t.id)
            return txt
        if isinstance(t, ast.BoolOp):
            rs = [self.truth(v, st) for v in t.values]
            if isinstance(t.op, ast.And):
                if any(r is False for r in rs):
                    return False
                return True if all(r is True for r in rs) else None
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            l, r = t.left, t.comparators[0]
            neg = isinstance(t.ops[0], (ast.IsNot, ast.NotEq))
            if isinstance(l, ast.Name) and isinstance(r, ast.Constant) and r.value is None:
                v = st.env.get(l.id)
                if v == ("const", False, "None"):
                    return not neg
                if v is not None and not isinstance(v, tuple):
                    return neg
            if isinstance(l, ast.Name) and isinstance(r, ast.Name):
                x, y = st.env.get(l.id), st.env.get(r.id)
                xs = self.same(l.id, st)
                if xs is not None and r.id in xs or self.same(r.id, st) is not None and \
                        l.id in self.same(r.id, st):
                    return not neg
                if (x is None) != (y is None):
                    return neg
        txt = st.cond.get(ast.unparse(t))
        if txt is None and isinstance(t, ast.Compare) and len(t.ops) == 1:
            flip = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq,
                    ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(t.ops[0]))
            if flip:
                o = st.cond.get(ast.unparse(ast.Compare(t.left, [flip()], t.comparators)))
                return None if o is None else not o
        return txt

    def same(self, name, st):
        v = st.env.get(name)
        if isinstance(v, tuple) and v[0] == "alias":
            return {v[2]}
        return None

    def assume(self, t, val, st):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, not val, st)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) and val or isinstance(t.op, ast.Or) and not val:
                for v in t.values:
                    self.assume(v, val, st)
                return
        st.cond[ast.unparse(t)] = val

    def free(self, t, before):
        """a test of parameters on which nothing else depends on this path"""
        ns = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        stored = stored_in(self.s.node.body)
        return bool(ns) and ns <= set(self.s.params) and not ns & stored and \
            not any(_names(c) & ns for c in before) and not any(
                isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)) for x in ast.walk(t))

    def kill(self, name, st):
        for k in [k for k in st.cond if name in _names(k)]:
            del st.cond[k]
        for v, x in list(st.env.items()):
            if isinstance(x, tuple) and x[0] == "alias" and x[2] == name:
                st.env[v] = ("other", None)

    # -- statements ------------------------------------------------------------------
    def block(self, stmts, states):
        for n in stmts:
            if not states:
                return []
            out = []
            for st in states:
                for e in self.exc:
                    e.append(st.copy())
                out.extend(self.stmt(n, st.copy()))
            states = dedupe(out)
        return states

    def bind(self, name, r, st, e=None):
        old = st.env.get(name)
        self.kill(name, st)
        if r is not None:
            st.env[name] = r
        else:
            st.env.pop(name, None)
            if isinstance(e, ast.Constant):
                st.env[name] = ("const", bool(e.value), repr(e.value))
            elif isinstance(e, ast.Name) and e.id != name:
                st.env[name] = ("alias", st.cond.get(e.id), e.id)
        if old is not None and not isinstance(old, tuple) and old != r and \
                old not in [v for v in st.env.values() if not isinstance(v, tuple)]:
            if st.res.get(old) == "open":
                st.res[old] = "lost"
                if old != "start":
                    self.leaks.setdefault(old, "the only name that holds it is bound to "
                                          "something else")

    def assign(self, t, value, st):
        if isinstance(t, ast.Name):
            t_ = value
            if isinstance(value, ast.IfExp) and (self.opener(value.body) or
                                                 self.opener(value.orelse)):
                return "fork"
            r = self.value(t_, st)
            if r is None:
                self.scan(value, st)
                if isinstance(value, (ast.Call,)):
                    pass
                # a flag computed from a condition
                if isinstance(value, (ast.UnaryOp, ast.Compare, ast.BoolOp, ast.Call)):
                    self.bind(t.id, None, st, value)
                    st.env.pop(t.id, None)
                    self.flags = getattr(self, "flags", {})
                    return None
            elif r == "?":
                r = None
            elif isinstance(value, ast.Call):
                self.scan_args(value, st)
            self.bind(t.id, r, st, value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for a, b in zip(t.elts, value.elts):
                    self.assign(a, b, st)
            else:
                self.scan(value, st)
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.bind(n.id, None, st)
        else:
            if isinstance(value, ast.Name):
                self.escape(value.id, st)
            elif self.opener(value):
                self.scan_args(value, st)       # kept in an attribute or container
            else:
                self.scan(value, st)
        return None

    def stmt(self, n, st):
        t = type(n)
        if t is ast.Assign:
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, ast.IfExp) and (
                        self.opener(n.value.body) or self.opener(n.value.orelse)):
                a = ast.Assign(targets=n.targets, value=n.value.body)
                b = ast.Assign(targets=n.targets, value=n.value.orelse)
                ast.copy_location(a, n)
                ast.copy_location(b, n)
                return self.stmt(ast.copy_location(ast.If(n.value.test, [a], [b]), n), st)
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, (ast.UnaryOp, ast.Compare, ast.BoolOp)) or \
                    isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and \
                    n.value.func.id in ("hasattr", "isinstance", "callable") and \
                    len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                name = n.targets[0].id
                out = []
                v = self.truth(n.value, st)
                for val in ((True, False) if v is None else (v,)):
                    x = st.copy()
                    self.assume(n.value, val, x)
                    old = dict(x.cond)
                    self.bind(name, None, x)
                    x.cond = {k: c for k, c in old.items() if k in x.cond or
                              name not in _names(k)}
                    x.env[name] = ("const", val, str(val))
                    out.append(x)
                return out
            for x in n.targets:
                self.assign(x, n.value, st)
            return [st]
        if t is ast.Expr:
            if self.opener(n.value):
                self.scan_args(n.value, st)
                self.temp(n.value)
            else:
                self.scan(n.value, st)
                from .names import is_exit
                if is_exit(n.value):
                    return []
            return [st]
        if t is ast.Return:
            if n.value is not None:
                r = None
                if isinstance(n.value, ast.Name):
                    r = self.value(n.value, st)
                elif self.opener(n.value):
                    self.returns_open = True
                else:
                    self.scan(n.value, st)
                if r is not None and st.res.get(r) == "open":
                    self.returns_open = self.returns_open or r != "start"
                    st.res[r] = "gone"
            self.leave(st, None)
            return []
        if t is ast.Raise:
            for e in self.exc:
                e.append(st.copy())
            return []
        if t is ast.If:
            self.scan(n.test, st)
            v = self.truth(n.test, st)
            before = list(st.cond)
            a, b = st, st.copy()
            self.assume(n.test, True, a)
            self.assume(n.test, False, b)
            outs = []
            x = self.block(n.body, [a]) if v is not False else []
            y = self.block(n.orelse, [b]) if v is not True else []
            if v is None:
                # closing under a condition that is not understood
                c1, c2 = self.closed_in(n.body), self.closed_in(n.orelse)
                for nm in c1 ^ c2:
                    for z in (y if nm in c1 else x):
                        r = z.env.get(nm)
                        if r is not None and not isinstance(r, tuple) and \
                                z.res.get(r) == "open" and not self.free(n.test, before):
                            z.res[r] = "maybe"
            return dedupe(x + y)
        if t in (ast.For, ast.While):
            it = n.iter if t is ast.For else n.test
            if t is ast.For and self.opener(it):
                self.scan_args(it, st)
                self.temp(it)
            else:
                self.scan(it, st)
            heads = [st]
            self.loops.append([[], []])
            outs = []
            cur = [st.copy()]
            for _ in range(2):
                nxt = []
                for x in cur:
                    x = x.copy()
                    for nm in stored_in([n.target]) if t is ast.For else ():
                        self.bind(nm, None, x)
                    nxt.extend(self.block(n.body, [x]))
                nxt += self.loops[-1][1]
                self.loops[-1][1] = []
                cur = dedupe(nxt)
                heads += cur
            brk = self.loops.pop()[0]
            endless = t is ast.While and isinstance(n.test, ast.Constant) and n.test.value
            outs = [] if endless else self.block(n.orelse, [h.copy() for h in dedupe(heads)]) \
                if n.orelse else dedupe(heads)
            return dedupe(outs + brk)
        if t is ast.Break:
            if self.loops:
                self.loops[-1][0].append(st)
            return []
        if t is ast.Continue:
            if self.loops:
                self.loops[-1][1].append(st)
            return []
        if t is ast.Try:
            self.exc.append([])
            if n.finalbody:
                self.fin.append(n.finalbody)
            body = self.block(n.body, [st.copy()])
            raised = dedupe(self.exc.pop())
            out = []
            body = self.block(n.orelse, body) if n.orelse else body
            out += body
            for h in n.handlers:
                out += self.block(h.body, [x.copy() for x in raised])
            if n.finalbody:
                self.fin.pop()
                for e in self.exc:      # an exception passes through
                    e.extend(self.block(n.finalbody, [x.copy() for x in raised]))
                out = self.block(n.finalbody, dedupe(out))
            return dedupe(out)
        if t is ast.With:
            rs = []
            for i in n.items:
                e = i.context_expr
                if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) \
                        and (getattr(e.func, "id", None) == "closing" or
                             getattr(e.func, "attr", None) == "closing") and e.args:
                    e = e.args[0]
                if self.opener(e):
                    self.scan_args(e, st)
                    r = id(e)
                    self.opened[r] = e
                    st.res[r] = "managed"
                    if isinstance(i.optional_vars, ast.Name):
                        self.bind(i.optional_vars.id, r, st)
                elif isinstance(e, ast.Name) and st.env.get(e.id) in st.res:
                    rs.append(st.env[e.id])
                    st.res[rs[-1]] = "managed"
                    if isinstance(i.optional_vars, ast.Name):
                        self.bind(i.optional_vars.id, rs[-1], st)
                else:
                    self.scan(e, st)
            return self.block(n.body, [st])
        if t in (ast.FunctionDef, ast.ClassDef):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    self.escape(x.id, st)
            return [st]
        if t is ast.AugAssign:
            self.scan(n.value, st)
            if isinstance(n.target, ast.Name):
                self.bind(n.target.id, None, st)
            return [st]
        if t is ast.Delete:
            for x in n.targets:
                if isinstance(x, ast.Name):
                    self.bind(x.id, None, st)
            return [st]
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.scan(c, st)
        return [st]

    def closed_in(self, body):
        out = set()
        for n in own_walk(body):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr == "close" and isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
            elif isinstance(n, ast.Call):
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Name) and self.closing(n, i, a):
                        out.add(a.id)
        return out
