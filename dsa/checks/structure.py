"""Rules on the whole program: names, files, shared state, errors."""
import ast

from . import check
from ..model import Func, Cls, Mod
from ..names import (Names, Reach, BUILTINS, MODS, find, star_has, fn_fits, sig_fits,
                     format_needs, noreturn, never_returns, own_walk, stored_in, ext_entry,
                     enclosing_class, ext_members, callee)
from ..load import AnalysisError


def loc(s, n):
    return (s.mod.rel, getattr(n, "lineno", 0), s.label)


def caught(guards, *names):
    for g in guards:
        if g & (set(names) | {"*", "Exception", "StandardError", "BaseException"}):
            return True
    return False


def guard_map(s):
    """node -> exception names handled around it, for the nodes of one scope"""
    out = {}

    def go(n, g):
        out[n] = g
        if isinstance(n, ast.Try):
            from ..names import handler_names
            inner = set()
            for h in n.handlers:
                inner |= handler_names(h)
            for x in n.body:
                go(x, g + (inner,))
            for f in ("handlers", "orelse", "finalbody"):
                for x in getattr(n, f):
                    go(x, g)
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.GeneratorExp,
                          ast.SetComp, ast.DictComp)) and n is not s.node:
            return
        for c in ast.iter_child_nodes(n):
            go(c, g)
    go(s.node, ())
    return out


@check("C01", "names, attributes and signatures")
def names(ctx):
    """Every name, module attribute, object attribute, local variable, call signature and
    format string of the library and the tools is resolved against the definitions of the
    whole program and of the installed standard library and networkx."""
    N = Names(ctx.prog)
    nr = noreturn(N)
    for b in N.mods.values():
        for s in b.all:
            _names(ctx, N, s)
            if s.kind == "function":
                ctx.functions.add(s.label)
                _locals(ctx, N, s, nr)
            _attributes(ctx, N, s)
    _imports(ctx, N)
    ctx.at_least("name", 300)
    ctx.at_least("attribute", 300)
    ctx.at_least("call", 300)


def _names(ctx, N, s):
    for n, guards in s.loads:
        if find(s, n.id) is not None or caught(guards, "NameError"):
            ctx.ok("name", s.label)
            continue
        sh = star_has(ctx.prog, s.mod, n.id)
        if n.id in BUILTINS or sh:
            ctx.ok("name", s.label)
        elif sh is None:
            ctx.maybe("name", "%s: %s" % (s.label, n.id), "a star import of an absent module")
        else:
            ctx.bad("name", "%s: %s" % (s.label, n.id),
                    "the name %r is not defined in this scope, the module or the builtins"
                    % n.id, loc(s, n))


def _imports(ctx, N):
    for b in N.mods.values():
        for s in b.all:
            b = getattr(s.node, "body", None)
            for n in own_walk(b if isinstance(b, list) else []):
                if not isinstance(n, ast.ImportFrom) or n.module == "__future__":
                    continue
                m = ctx.prog._absmod(s.mod, n)
                for a in n.names:
                    if a.name == "*":
                        continue
                    if m in ctx.prog.mods:
                        r = ctx.prog.module_attr(m, a.name)
                        if r is None and m + "." + a.name not in ctx.prog.mods:
                            if any(isinstance(t, ast.Try) and n in list(ast.walk(t))
                                   for t in own_walk(s.node.body)):
                                continue
                            ctx.bad("import", "%s: %s.%s" % (s.label, m, a.name),
                                    "module %s defines no %r" % (m, a.name), loc(s, n))
                            continue
                    elif m in MODS and a.name not in MODS[m] and \
                            m + "." + a.name not in MODS:
                        ctx.bad("import", "%s: %s.%s" % (s.label, m, a.name),
                                "module %s defines no %r" % (m, a.name), loc(s, n))
                        continue
                    ctx.ok("import", s.label)


# -- local variables ------------------------------------------------------------------

def _locals(ctx, N, s, nr):
    stop = lambda e: never_returns(N, s, e, nr)
    r = Reach(s, stop)
    gm = None
    seen = set()
    for n, name in r.never:
        if name in seen:
            continue
        seen.add(name)
        gm = gm or guard_map(s)
        if caught(gm.get(n, ()), "NameError", "UnboundLocalError"):
            continue
        ctx.bad("local", "%s: %s" % (s.label, name),
                "the local variable %r is read where no assignment can have happened"
                % name, loc(s, n))
    some = [(n, x) for n, x in r.some if x not in seen]
    if some:
        tries = {x for n, x in Reach(s, stop, True, True).some}
        ifs = {x for n, x in Reach(s, stop, True, False).some}
        loops = {x for n, x in Reach(s, stop, False, True).some}
        for n, name in some:
            if name in seen:
                continue
            seen.add(name)
            gm = gm or guard_map(s)
            if caught(gm.get(n, ()), "NameError", "UnboundLocalError"):
                continue
            what = "%s: %s" % (s.label, name)
            if name in tries:
                ctx.bad("local", what, "%r is unbound here when the statement that assigns it "
                        "inside `try` raises" % name, loc(s, n))
            elif name in ifs and _independent(s, n, name):
                ctx.bad("local", what, "%r is assigned under a condition only, and is read "
                        "without it" % name, loc(s, n))
            elif name in loops and _free_loop(s, n, name):
                ctx.bad("local", what, "%r is assigned in the body of a loop only, which need "
                        "not run" % name, loc(s, n))
            else:
                ctx.maybe("local", what, "assigned on some paths only; the conditions may "
                          "exclude the others")
    ctx.ok("local", s.label)


def parents(root):
    out = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def _conds(par, n):
    """(test, kind) of the conditions and loops around a node"""
    out = []
    while n in par:
        p = par[n]
        if isinstance(p, (ast.If, ast.While, ast.IfExp)) and n is not p.test:
            out.append(p.test)
        elif isinstance(p, ast.For) and n is not p.iter:
            out.append(p.iter)
        n = p
    return out


def _vars(e):
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add("." + n.attr)
    return out - {"self", "len", "isinstance", "not"}


def _stores(s, name):
    return [n for n in own_walk(s.node.body)
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]


def _tests(s):
    """all conditions that guard an early exit, and assertions"""
    out = set()
    for n in own_walk(s.node.body):
        if isinstance(n, ast.Assert):
            out |= _vars(n.test)
        elif isinstance(n, ast.If) and any(
                isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break))
                for x in own_walk(n.body + n.orelse)):
            out |= _vars(n.test)
    return out


def _independent(s, use, name):
    par = parents(s.node)
    need = set()
    for st in _stores(s, name):
        cs = _conds(par, st)
        if len(cs) != 1:
            return False            # chains of conditions may be exhaustive
        need |= _vars(cs[0])
    here = set()
    for c in _conds(par, use):
        here |= _vars(c)
    return not (need & (here | _tests(s)))


def _free_loop(s, use, name):
    par = parents(s.node)
    for st in _stores(s, name):
        n, it = st, None
        while n in par:
            p = par[n]
            if isinstance(p, ast.For):
                it = p
            elif isinstance(p, (ast.If, ast.While, ast.Try, ast.With)):
                return False
            n = p
        if it is None:
            return False
        e = it.iter
        if not (isinstance(e, ast.Name) and e.id in s.params or
                isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and
                e.value.id in s.params):
            return False
        if _vars(e) & _tests(s):
            return False
        for c in _conds(par, use):
            if c is not e and _vars(c) & _vars(e):
                return False
    return True


# -- attributes and calls ----------------------------------------------------------------

def _attributes(ctx, N, s):
    if not hasattr(s.node, "body"):
        body = [s.node]
    else:
        body = s.node.body if isinstance(s.node.body, list) else [s.node.body]
    if s.kind == "genexp":
        body = [s.node.elt] if hasattr(s.node, "elt") else [s.node.key, s.node.value]
        body += [x for c in s.node.generators for x in c.ifs]
        body += [c.iter for c in s.node.generators[1:]]
    gm = None
    local = _instances(N, s)
    for n in own_walk(body):
        if isinstance(n, ast.Attribute):
            if isinstance(n.ctx, ast.Store):
                continue
            gm = gm or guard_map(s)
            if caught(gm.get(n, ()), "AttributeError"):
                ctx.ok("attribute", s.label)
                continue
            _attribute(ctx, N, s, n, local)
        elif isinstance(n, ast.Call):
            gm = gm or guard_map(s)
            if caught(gm.get(n, ()), "TypeError"):
                continue
            _call(ctx, N, s, n, local)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            _format(ctx, N, s, n)


def _instances(N, s):
    """local names that can only hold a new instance of one class of the program"""
    if s.kind != "function":
        return {}
    got = {}
    for n in own_walk(s.node.body):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    c = None
                    if isinstance(n.value, ast.Call):
                        c = N.resolve(s, n.value.func)
                    got.setdefault(t.id, []).append(c if isinstance(c, Cls) else None)
    out = {}
    for name, cs in got.items():
        if len(cs) == len(_stores(s, name)) and len(set(map(id, cs))) == 1 \
                and cs[0] is not None and name not in s.params and name not in s.globals \
                and not any(name in stored_in([h]) for c in s.children
                            for h in [c.node] if c.kind == "function" and
                            any(isinstance(g, ast.Global) for g in ast.walk(h))):
            out[name] = cs[0]
    return out


def _attribute(ctx, N, s, n, local):
    what = "%s: %s" % (s.label, short(n))
    r = N.resolve(s, n)
    if isinstance(r, tuple) and r[0] in ("missing", "nomember"):
        owner = r[1] if isinstance(r[1], str) else r[1].qual
        if r[0] == "nomember" and not isinstance(r[1], str):
            ms = N.members(r[1])
            if ms is None or n.attr in ms:
                return
        ctx.bad("attribute", what, "%s has no %r" % (owner, r[2]), loc(s, n))
        return
    v = n.value
    if isinstance(v, ast.Name) and v.id == "self":
        c = enclosing_class(N, s)
        if c is not None and "self" not in stored_in_fn(s):
            ms = N.members(c)
            if ms is not None and n.attr not in ms:
                ctx.bad("attribute", what, "no class of %s's hierarchy defines %r"
                        % (c.qual, n.attr), loc(s, n))
                return
    if isinstance(v, ast.Name) and v.id in local:
        ms = N.members(local[v.id])
        if ms is not None and n.attr not in ms:
            ctx.bad("attribute", what, "%s has no %r" % (local[v.id].qual, n.attr), loc(s, n))
            return
    if r is None and n.attr not in N.u and not (n.attr.startswith("__")):
        ctx.bad("attribute", what, "no class or module of the program or its libraries "
                "defines %r" % n.attr, loc(s, n))
        return
    ctx.ok("attribute", s.label)


def stored_in_fn(s):
    f = s
    while f is not None and f.kind != "function":
        f = f.parent
    return stored_in(f.node.body) if f is not None else set()


def short(n, k=60):
    try:
        t = ast.unparse(n)
    except Exception:
        t = type(n).__name__
    return t if len(t) <= k else t[:k - 2] + ".."


def _bound_self(c, fn):
    return not fn.static


def _brace(ctx, N, s, call):
    """'...'.format(...) with a literal text"""
    import string
    t = call.func.value.value
    what = "%s: %s.format" % (s.label, short(call.func.value, 40))
    try:
        fields = [f for _, f, spec, _ in string.Formatter().parse(t) if f is not None]
        fields += [f for _, o, spec, _ in string.Formatter().parse(t) if spec
                   for _, f, _, _ in string.Formatter().parse(spec) if f is not None]
    except ValueError as e:
        ctx.bad("format", what, "malformed format: %s" % e, loc(s, call))
        return
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    kws = {k.arg for k in call.keywords}
    heads = [f.replace("[", ".").split(".")[0] for f in fields]
    auto = sum(1 for h in heads if h == "")
    nums = [int(h) for h in heads if h.isdigit()]
    if auto and nums:
        ctx.bad("format", what, "automatic and numbered fields are mixed", loc(s, call))
        return
    n = max([auto] + [x + 1 for x in nums])
    if n > len(call.args) and not star:
        ctx.bad("format", what, "the format needs %d values and gets %d" % (
            n, len(call.args)), loc(s, call))
        return
    miss = [h for h in heads if h and not h.isdigit() and h not in kws]
    if miss and not dstar:
        ctx.bad("format", what, "no value for %s" % ", ".join(sorted(set(miss))), loc(s, call))
        return
    ctx.ok("format", s.label)


def _call(ctx, N, s, call, local):
    if isinstance(call.func, ast.Attribute) and call.func.attr == "format" and \
            isinstance(call.func.value, ast.Constant) and \
            isinstance(call.func.value.value, str):
        _brace(ctx, N, s, call)
        return
    what = "%s: %s()" % (s.label, short(call.func))
    f = call.func
    res = None
    cands = None
    r = N.resolve(s, f)
    prog = ctx.prog
    if isinstance(r, Func):
        if r.decs and not (r.static or r.classm):
            return
        viacls = isinstance(f, ast.Attribute) and isinstance(N.resolve(s, f.value), Cls)
        cands = [(r, r.classm)] if viacls or r.cls is None else [(r, False)]
    elif isinstance(r, Cls):
        cands = _init(N, r)
    elif isinstance(r, tuple) and r[0] == "ext":
        e = ext_entry(r[1])
        if e is None and r[1].count(".") >= 2:
            k = ext_entry(r[1].rsplit(".", 1)[0])
            if k is not None and k["kind"] == "class":
                sg = k["msig"].get(r[1].rsplit(".", 1)[1])
                if sg:
                    why = sig_fits(sg, call)
                    if why:
                        ctx.bad("call", what, why, loc(s, call))
                        return
            return
        if e is not None and e.get("sig"):
            why = sig_fits(e["sig"], call)
            if why:
                ctx.bad("call", what, why, loc(s, call))
                return
        if e is not None:
            ctx.ok("call", s.label)
        return
    elif isinstance(f, ast.Attribute):
        v = f.value
        if isinstance(v, ast.Name) and v.id == "self" and "self" not in stored_in_fn(s):
            c = enclosing_class(N, s)
            if c is not None:
                cands = _methods(N, c, f.attr)
        elif isinstance(v, ast.Name) and v.id in local:
            cands = _methods(N, local[v.id], f.attr)
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" \
                and len(v.args) == 2:
            cands = _super(N, s, v, f.attr, ctx, what, call)
            if cands == "done":
                return
        if cands is None and r is None and f.attr in N.repo and f.attr not in N.lib \
                and f.attr not in N.stored:
            fs = N.repo[f.attr]
            if all(isinstance(x, Func) and not x.prop for x in fs) and \
                    not any(f.attr in m.bind for m in prog.own_mods(third=True)):
                cands = [(x, not x.static) for x in fs]
                # called through the class: the object is passed explicitly
                if isinstance(v, ast.Name) and v.id[:1].isupper():
                    cands += [(x, False) for x in fs]
    if not cands:
        return
    whys = [fn_fits(fn, call, bound) for fn, bound in cands]
    if all(whys):
        ctx.bad("call", what, "%s takes other arguments: %s" % (cands[0][0].qual, whys[0]),
                loc(s, call))
        return
    ctx.ok("call", s.label)


def _init(N, c):
    l = N.prog.lookup(c, "__init__")
    n = N.prog.lookup(c, "__new__")
    if n is not None and n[0] != "ext":
        return None
    if l is None:
        if N.prog.ext_bases(c) in ([], ["object"]):
            return [(_no_init(), True)]
        return None
    if l[0] == "ext" or not isinstance(l[1], Func):
        return None
    if l[1].decs:
        return None
    return [(l[1], True)]


class _NoInit:
    qual = "object.__init__"
    node = ast.parse("def __init__(self): pass").body[0]


def _no_init():
    return _NoInit


def _methods(N, c, attr):
    """the functions that obj.attr may run for an instance of c or a subclass"""
    out = []
    for d in [c] + list(N.prog.subclasses.get(c.qual, [])):
        l = N.prog.lookup(d, attr)
        if l is None or l[0] == "ext" or not isinstance(l[1], Func):
            return None
        fn = l[1]
        if fn.prop or (fn.decs and not fn.static and not fn.classm):
            return None
        out.append((fn, not fn.static))
    if attr in N.stored:
        return None
    return out


def _super(N, s, v, attr, ctx, what, call):
    r = N.resolve(s, v.args[0])
    if not isinstance(r, Cls):
        return None
    outer = enclosing_class(N, s)
    if outer is not None and outer is not r and isinstance(v.args[1], ast.Name) and \
            v.args[1].id == "self" and r not in outer.mro:
        ctx.bad("call", what, "super() of %s, which is no base of %s" % (r.qual, outer.qual),
                loc(s, call))
        return "done"
    for b in r.mro[1:]:
        if isinstance(b, Cls):
            x = b.members.get(attr)
            if isinstance(x, Func):
                return [(x, not x.static)]
            if x is not None:
                return None
        else:
            ms = ext_members(b)
            if b != "object" or ms is None:
                if ms is not None and attr not in ms and b == r.mro[-1]:
                    break
                return None
            if attr in ms:
                return None
    if N.prog.subclasses.get(r.qual):
        return None                 # another base may come in between
    ctx.bad("call", what, "no base class of %s has a method %r" % (r.qual, attr), loc(s, call))
    return "done"


def _format(ctx, N, s, n):
    if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes))):
        return
    t = n.left.value
    need = format_needs(t if isinstance(t, str) else t.decode("latin-1"))
    what = "%s: %s" % (s.label, short(n.left, 40))
    if need is None:
        return
    kind, k = need
    r = n.right
    if kind == "pos":
        if isinstance(r, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in r.elts):
                return
            if len(r.elts) != k:
                ctx.bad("format", what, "the format needs %d values and gets %d"
                        % (k, len(r.elts)), loc(s, n))
                return
        elif isinstance(r, (ast.Constant, ast.List, ast.ListComp)) and k != 1:
            ctx.bad("format", what, "the format needs %d values and gets one" % k, loc(s, n))
            return
        elif isinstance(r, ast.Name) and k == 0:
            ctx.bad("format", what, "the format takes no value", loc(s, n))
            return
    else:
        if isinstance(r, (ast.Tuple, ast.List, ast.Constant)):
            ctx.bad("format", what, "the format needs a mapping", loc(s, n))
            return
        if isinstance(r, ast.Dict) and all(isinstance(x, ast.Constant) for x in r.keys):
            miss = k - {x.value for x in r.keys}
            if miss:
                ctx.bad("format", what, "no value for %s" % ", ".join(sorted(miss)), loc(s, n))
                return
        if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in (
                "locals", "vars") and not r.args and s.kind == "function":
            miss = k - s.names
            if miss:
                ctx.bad("format", what, "no local variable %s" % ", ".join(sorted(miss)),
                        loc(s, n))
                return
    ctx.ok("format", s.label)


# -- files -------------------------------------------------------------------------------

@check("C02", "files are closed")
def files(ctx):
    """Typestate of every file that a function opens from a path: closed, handed to the
    caller or kept by an object on every normal path; a caller's file is left open."""
    from ..files import Files, FileFlow
    N = Names(ctx.prog)
    F = Files(N)
    n = 0
    for b in N.mods.values():
        for s in b.all:
            if s.kind != "function":
                continue
            ctx.functions.add(s.label)
            a = FileFlow(F, s)
            for r, e in a.opened.items():
                what = "%s: %s" % (s.label, short(e, 40))
                n += 1
                if r in a.leaks:
                    ctx.bad("closed", what, a.leaks[r], loc(s, e))
                elif r in a.unsure:
                    ctx.maybe("closed", what, a.unsure[r])
                else:
                    ctx.ok("closed", what)
            _foreign(ctx, s, a)
    _module_level(ctx, N, F)
    ctx.at_least("closed", 8)


def _foreign(ctx, s, a):
    """close() of a file that may be the caller's: the function accepts both"""
    both = set()
    for n in own_walk(s.node.body):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ("hasattr", "isinstance") and len(n.args) == 2 and \
                isinstance(n.args[0], ast.Name) and n.args[0].id in s.params:
            both.add(n.args[0].id)
    for e, name, cond in a.foreign:
        if name in both and not any(name in _vars(ast.parse(c)) for c in cond
                                    if "hasattr" not in c and "isinstance" not in c):
            ctx.bad("caller's file", "%s: %s.close()" % (s.label, name),
                    "closes a file object that the caller handed in", loc(s, e))


def _module_level(ctx, N, F):
    pass


# -- process state -------------------------------------------------------------------------

SETTERS = {"os.chdir": "cwd", "os.fchdir": "cwd", "os.umask": "umask",
           "locale.setlocale": "locale", "sys.setrecursionlimit": "recursion limit",
           "signal.signal": "signal handler", "os.putenv": "environment",
           "socket.setdefaulttimeout": "socket timeout", "os.unsetenv": "environment",
           "sys.setdefaultencoding": "default encoding", "random.seed": "random state",
           "decimal.setcontext": "decimal context", "sys.settrace": "trace function",
           "sys.setprofile": "profile function", "os.nice": "priority"}
GETTERS = {"cwd": {"os.getcwd", "os.getcwdu", "os.path.abspath", "os.path.realpath"},
           "umask": {"os.umask"}, "locale": {"locale.setlocale", "locale.getlocale"},
           "recursion limit": {"sys.getrecursionlimit"}, "signal handler": {
               "signal.signal", "signal.getsignal"},
           "random state": {"random.getstate"}}
OUTPUT = {"sys.stdout.write", "sys.stderr.write", "sys.stdout.writelines", "os.system",
          "os.popen", "pprint.pprint", "sys.exit", "__builtin__.exit", "__builtin__.quit",
          "__builtin__.raw_input", "__builtin__.input", "traceback.print_exc",
          "warnings.warn", "os._exit", "os.mkdir", "os.makedirs", "os.remove",
          "logging.basicConfig", "subprocess.call", "subprocess.Popen"}


def _effects(N, s, n):
    """process-wide settings changed by one statement or expression node"""
    if isinstance(n, ast.Call):
        r = N.resolve(s, n.func)
        if isinstance(r, tuple) and r[0] == "ext" and r[1] in SETTERS:
            if r[1] == "locale.setlocale" and len(n.args) < 2:
                return
            yield SETTERS[r[1]], n.args[0] if n.args else None
        if isinstance(n.func, ast.Attribute):
            b = N.resolve(s, n.func.value)
            t = _dotted(N, s, n.func.value)
            if t in ("os.environ", "sys.path", "sys.argv", "sys.modules") and n.func.attr in (
                    "update", "pop", "clear", "setdefault", "append", "insert", "remove",
                    "extend", "popitem", "reverse", "sort"):
                yield t, None
    elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
        ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
        for t in ts:
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and \
                        _dotted(N, s, x) in (
                            "sys.stdout", "sys.stderr", "sys.stdin", "sys.argv", "sys.path",
                            "os.environ", "sys.excepthook", "sys.displayhook"):
                    yield _dotted(N, s, x), getattr(n, "value", None)
                elif isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and \
                        _dotted(N, s, x.value) in ("os.environ", "sys.path", "sys.argv",
                                                   "sys.modules"):
                    yield _dotted(N, s, x.value), None


def _dotted(N, s, e):
    if isinstance(e, ast.Attribute):
        r = N.resolve(s, e.value)
        if isinstance(r, tuple) and r[0] == "ext" and r[1] in ("sys", "os"):
            return r[1] + "." + e.attr
    r = N.resolve(s, e)
    if isinstance(r, tuple) and r[0] == "ext":
        return r[1]
    return None


def _stmts(body, up=()):
    """(statement, path) where path lists (parent statement, field, sibling list, index)"""
    for i, st in enumerate(body):
        here = up + ((st, body, i),)
        yield st, here
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(st, f, None)
            if isinstance(b, list):
                yield from _stmts(b, here + ((f,),))
        for h in getattr(st, "handlers", []):
            yield from _stmts(h.body, here + (("handlers",),))


def _own_exprs(st):
    """the expressions of one statement, without nested statements"""
    yield st
    todo = [c for c in ast.iter_child_nodes(st) if isinstance(
        c, (ast.expr, ast.withitem, ast.keyword))]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.Lambda,)):
            todo.extend(c for c in ast.iter_child_nodes(n))


class Process:
    def __init__(self, ctx, N):
        self.ctx, self.N = ctx, N
        self.helper = {}            # function node -> kinds it leaves changed
        self.scopes = [s for b in N.mods.values() for s in b.all if s.kind == "function"]
        self.called = {}
        for b in N.mods.values():
            for s in b.all:
                for n in own_walk(getattr(s.node, "body", []) if isinstance(
                        getattr(s.node, "body", []), list) else [s.node.body]):
                    if isinstance(n, ast.Call):
                        f = callee(N, s, n)
                        if f is not None:
                            self.called.setdefault(f.node, []).append(s)
                    elif isinstance(n, ast.With):
                        pass
        for _ in range(3):
            before = {k: set(v) for k, v in self.helper.items()}
            for s in self.scopes:
                bad = {k for k, st, why in self.scan(s)}
                if bad and self.private(s):
                    self.helper[s.node] = bad
            if before == self.helper:
                break

    def private(self, s):
        return s.node.name.startswith("_") and s.node in self.called or \
            s.node.name == "__enter__"

    def effects(self, s, st):
        for n in _own_exprs(st):
            for k, arg in _effects(self.N, s, n):
                yield k, arg, n
            if isinstance(n, ast.Call):
                f = callee(self.N, s, n)
                if f is not None and f.node in self.helper and f.node is not s.node:
                    for k in self.helper[f.node]:
                        yield k, "?", n

    def scan(self, s, log=None):
        """[(kind, node, why)] for the settings that may be left changed at an exit; why is
        None where that is not understood"""
        return Restore(self, s).result(log)

    def saves(self, s, kind, arg, st):
        """is the value put back the one that was saved before?"""
        if arg == "?" or arg is None:
            return None
        if kind.startswith("sys.std") and _dotted(self.N, s, arg) == kind.replace(
                "sys.", "sys.__") + "__":
            return True
        if isinstance(arg, ast.Name):
            if arg.id in s.params:
                return None
            ok = found = False
            for n in own_walk(s.node.body):
                if isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == arg.id for t in n.targets):
                    found = True
                    v = n.value
                    if isinstance(v, ast.Call):
                        r = self.N.resolve(s, v.func)
                        if isinstance(r, tuple) and r[1] in GETTERS.get(kind, ()) or \
                                self.gets(kind, r):
                            if n.lineno > st.lineno:
                                return "the value put back is saved after the change"
                            ok = True
                        elif r is None or isinstance(r, Func):
                            return None
                    elif _dotted(self.N, s, v) == kind:
                        if n.lineno > st.lineno:
                            return "the value put back is saved after the change"
                        ok = True
                    elif not isinstance(v, (ast.Constant, ast.Name, ast.Attribute)):
                        return None
            if ok:
                return True
            return "the value put back is not the one that was there" if found else None
        if isinstance(arg, ast.Attribute):
            return None
        return "the value put back is not the one that was there"


    def gets(self, kind, f, depth=0):
        """does the function return the current setting?"""
        if not isinstance(f, Func) or depth > 4 or f.is_gen:
            return False
        rets = [x for x in own_walk(f.node.body) if isinstance(x, ast.Return)]
        s = next((x for x in self.scopes if x.node is f.node), None)
        if not rets or s is None:
            return False
        for x in rets:
            if not isinstance(x.value, ast.Call):
                return False
            r = self.N.resolve(s, x.value.func)
            if not (isinstance(r, tuple) and r[1] in GETTERS.get(kind, ()) or
                    self.gets(kind, r, depth + 1)):
                return False
        return True


class Restore:
    """Typestate of process-wide settings along every path of one function.

    state: kind -> (node of the change, its statement, reason); reason None: undecided
    """
    def __init__(self, P, s):
        self.P, self.s = P, s
        self.changes = {}           # kind -> first change
        self.left = {}              # (kind, node) -> (node, why)
        self.quiet = 0              # inside handlers and finally: cleaning up does not fail
        x = self.block(s.node.body, {})
        for k in ("fall", "return", "raise"):
            for st in x[k]:
                for kind, (n, _, why) in st.items():
                    old = self.left.get((kind, id(n)))
                    if old is None or old[1] is None:
                        self.left[(kind, id(n))] = (n, why)

    def result(self, log):
        if log is not None:
            bad = {k for k, _ in self.left}
            for kind, st in self.changes.items():
                if kind not in bad:
                    log.append((kind, st, True))
        return [(k[0], n, why) for k, (n, why) in self.left.items()]

    def exits(self):
        return {"fall": [], "return": [], "raise": [], "jump": []}

    def add(self, lst, st):
        for x in lst:
            if {k: v[0] for k, v in x.items()} == {k: v[0] for k, v in st.items()} and \
                    all((x[k][2] is None) == (st[k][2] is None) for k in x):
                return
        lst.append(st)

    def merge(self, x, y, skip=()):
        for k in y:
            if k not in skip:
                for st in y[k]:
                    self.add(x[k], st)

    def block(self, body, st):
        x = self.exits()
        cur = [st]
        for n in body:
            nxt = []
            for c in cur:
                y = self.stmt(n, c)
                self.merge(x, y, ("fall",))
                for z in y["fall"]:
                    self.add(nxt, z)
            cur = nxt
            if not cur:
                break
        x["fall"] = cur
        return x

    def simple(self, n, st):
        """effects of the expressions of one statement"""
        x = self.exits()
        after = dict(st)
        for kind, arg, e in self.P.effects(self.s, n):
            if kind in after:
                node, cst, why = after[kind]
                w = self.P.saves(self.s, kind, arg, cst)
                if w is True:
                    del after[kind]
                else:
                    after[kind] = (node, cst, w)
            else:
                w = self.P.saves(self.s, kind, arg, n) if not isinstance(
                    n, (ast.Assign,)) or arg is not None else False
                if w is True and any(k == kind for k in self.changes):
                    continue            # put back, though nothing is changed here
                self.changes.setdefault(kind, n)
                after[kind] = (e if hasattr(e, "lineno") else n, n,
                               "nothing restores it on every way out")
        if not self.quiet and not _harmless(n):
            # it may fail before it has any effect; a restoring call is taken to succeed
            if not (set(st) - set(after)):
                self.add(x["raise"], dict(st))
            for k in after:
                if k in st and after[k] == st[k]:
                    self.add(x["raise"], dict(after))
        x["fall"] = [after]
        return x

    def split(self, a, b, st):
        """two ways through a condition: a setting restored on one of them only may be
        restored exactly when it was changed"""
        ka = [set(z) for z in a["fall"]]
        kb = [set(z) for z in b["fall"]]
        for mine, other in ((a, kb), (b, ka)):
            for i, z in enumerate(mine["fall"]):
                for kind in list(z):
                    if kind in st and any(kind not in o for o in other) and \
                            z[kind][2] is not None:
                        z = dict(z)
                        z[kind] = (z[kind][0], z[kind][1], None)
                        mine["fall"][i] = z
        x = self.exits()
        self.merge(x, a)
        self.merge(x, b)
        return x

    def stmt(self, n, st):
        x = self.exits()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            x["fall"] = [st]
            return x
        if isinstance(n, ast.Try):
            return self.trial(n, st)
        y = self.simple(n, st)
        st = y["fall"][0]
        if isinstance(n, ast.If):
            x = self.split(self.block(n.body, dict(st)), self.block(n.orelse, dict(st)), st)
        elif isinstance(n, (ast.For, ast.While)):
            a = self.block(n.body, dict(st))
            x = self.exits()
            self.merge(x, a, ("fall", "jump"))
            ends = a["fall"] + a["jump"]
            if not (isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and
                    n.test.value):
                self.add(ends, st)
            for z in ends:
                if n.orelse:
                    b = self.block(n.orelse, dict(z))
                    self.merge(x, b)
                else:
                    self.add(x["fall"], z)
        elif isinstance(n, ast.With):
            x = self.block(n.body, st)
        elif isinstance(n, ast.Return):
            x["return"] = [st]
        elif isinstance(n, ast.Raise):
            x["raise"] = [st]
            y["raise"] = []
        elif isinstance(n, (ast.Break, ast.Continue)):
            x["jump"] = [st]
        else:
            x["fall"] = [st]
        self.merge(x, y, ("fall",))
        return x

    def trial(self, n, st):
        q, self.quiet = self.quiet, 0 if not self.quiet else self.quiet
        b = self.block(n.body, dict(st))
        self.quiet = q
        x = self.exits()
        self.merge(x, b, ("fall", "raise"))
        for z in b["fall"]:
            if n.orelse:
                y = self.block(n.orelse, dict(z))
                self.merge(x, y)
            else:
                self.add(x["fall"], z)
        caught = False
        for h in n.handlers:
            from ..names import handler_names
            if handler_names(h) & {"*", "Exception", "BaseException", "StandardError"}:
                caught = True
            self.quiet += 1
            for z in b["raise"]:
                y = self.block(h.body, dict(z))
                self.merge(x, y)
            self.quiet -= 1
        if not caught:
            for z in b["raise"]:
                self.add(x["raise"], z)
        if not n.finalbody:
            return x
        out = self.exits()
        self.quiet += 1
        for k in x:
            for z in x[k]:
                y = self.block(n.finalbody, dict(z))
                self.merge(out, y, ("fall",))
                for w in y["fall"]:
                    self.add(out[k], w)
        self.quiet -= 1
        return out


def _harmless(st):
    return isinstance(st, (ast.Pass, ast.Break, ast.Continue, ast.Global)) or \
        isinstance(st, ast.Assign) and isinstance(
            st.value, (ast.Constant, ast.Name)) and all(isinstance(t, ast.Name)
                                                        for t in st.targets) or \
        isinstance(st, ast.Return) and (st.value is None or isinstance(
            st.value, (ast.Constant, ast.Name)) or isinstance(st.value, ast.Tuple) and all(
                isinstance(v, (ast.Constant, ast.Name)) for v in st.value.elts)) or \
        isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) or \
        isinstance(st, (ast.If, ast.While)) and not any(isinstance(
            x, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp)) for x in ast.walk(st.test))


@check("C04", "silent imports, process state restored")
def process(ctx):
    """Effects of import-time code, through the functions it calls; changes of the working
    directory, standard streams and other process-wide settings inside functions must be
    undone by a `finally` with the value saved before."""
    N = Names(ctx.prog)
    P = Process(ctx, N)
    for s in P.scopes:
        ctx.functions.add(s.label)
        log = []
        for kind, n, why in P.scan(s, log):
            what = "%s: %s" % (s.label, kind)
            if s.node in P.helper:
                continue
            if why is None:
                ctx.maybe("restored", what, "the restoring code is not understood")
            else:
                ctx.bad("restored", what, "changes the %s; %s" % (kind, why), loc(s, n))
        for kind, st, _ in log:
            ctx.ok("restored", "%s: %s" % (s.label, kind))
    memo = {}
    for b in N.mods.values():
        if b.mod.name.startswith("bin."):
            continue
        hits = list(_import_time(ctx, N, P, b, memo))
        for n, what in hits:
            if what is None:
                continue
            ctx.bad("import", "%s: %s" % (b.mod.name, short(n) if isinstance(n, ast.expr)
                                          else type(n).__name__.lower()),
                    "importing the module %s" % what, loc(b.root, n))
        if not hits:
            ctx.ok("import", b.mod.name)
    ctx.at_least("import", 30)


def _main_guard(st):
    return isinstance(st, ast.If) and any(isinstance(n, ast.Name) and n.id == "__name__"
                                          for n in ast.walk(st.test))


def _import_time(ctx, N, P, b, memo):
    from ..load import Print

    def go(body, s):
        for st in body:
            if _main_guard(st):
                yield from go(st.orelse, s)
                continue
            if isinstance(st, ast.If) and isinstance(st.test, ast.Constant) and \
                    not st.test.value:
                yield from go(st.orelse, s)
                continue
            if isinstance(st, ast.FunctionDef):
                for d in st.decorator_list + st.args.defaults:
                    yield from expr(d, s)
                continue
            if isinstance(st, ast.ClassDef):
                inner = [c for c in s.children if c.node is st]
                yield from go(st.body, inner[0] if inner else s)
                continue
            if isinstance(st, Print):
                yield st, "prints"
                continue
            for n in _own_exprs(st):
                yield from one(n, s)
            for f in ("body", "orelse", "finalbody"):
                x = getattr(st, f, None)
                if isinstance(x, list):
                    yield from go(x, s)
            for h in getattr(st, "handlers", []):
                yield from go(h.body, s)

    def expr(e, s):
        for n in ast.walk(e):
            yield from one(n, s)

    def one(n, s):
        if not isinstance(n, ast.Call):
            for k, _ in _effects(N, s, n):
                yield n, "changes " + k
            return
        w = _noisy(N, s, n, memo)
        if w:
            yield n, w
        for k, _ in _effects(N, s, n):
            yield n, "changes the " + k
    yield from go(b.mod.tree.body, b.root)


def _noisy(N, s, call, memo):
    """what a call does to the outside, through functions of the program"""
    from ..load import Print
    r = N.resolve(s, call.func)
    if isinstance(r, tuple) and r[0] == "ext" and r[1] in OUTPUT:
        return "calls " + r[1]
    if isinstance(call.func, ast.Attribute):
        if call.func.attr in ("parse_args", "parse_known_args"):
            return "parses the command line"
        if call.func.attr in ("write", "writelines") and _dotted(N, s, call.func.value) in (
                "sys.stdout", "sys.stderr"):
            return "writes to " + _dotted(N, s, call.func.value)
    f = r if isinstance(r, Func) else None
    if isinstance(r, Cls):
        l = N.prog.lookup(r, "__init__")
        f = l[1] if l is not None and isinstance(l[1], Func) else None
    if f is None:
        f = callee(N, s, call)
    if f is None or f.mod.name.startswith("daeso.thirdparty"):
        return None
    if f.node in memo:
        return memo[f.node]
    memo[f.node] = None
    fs = None
    b = N.mods.get(f.mod.name)
    for x in (b.all if b else ()):
        if x.node is f.node:
            fs = x
    if fs is None:
        return None
    for n in own_walk(f.node.body):
        if isinstance(n, Print) and n.dest is None:
            memo[f.node] = "prints (in %s)" % fs.label
            break
        if isinstance(n, ast.Call):
            w = _noisy(N, fs, n, memo)
            if w:
                memo[f.node] = w
                break
    return memo[f.node]


# -- errors ------------------------------------------------------------------------------------

BLANKET = {"Exception", "BaseException", "StandardError"}
OSERRS = {"OSError", "IOError", "EnvironmentError"}


def _is_exc(N, s, e):
    """name of the exception class that an expression constructs, or None"""
    if not isinstance(e, ast.Call):
        return None
    return _exc_class(N, N.resolve(s, e.func))


def _exc_class(N, r):
    if isinstance(r, Cls):
        for b in N.prog.ext_bases(r):
            n = b if "." in b else "__builtin__." + b
            x = ext_entry(n)
            if x is not None and x.get("exc"):
                return r.qual
        return None
    if isinstance(r, tuple) and r[0] == "ext":
        x = ext_entry(r[1])
        if x is not None and x.get("exc"):
            return r[1].split(".")[-1]
    return None


@check("C05", "errors are raised")
def errors(ctx):
    """Every construction of an exception is followed to a raise; every handler of all
    exceptions and every handler of operating-system errors is examined for what it lets
    pass; no `finally` drops an exception."""
    N = Names(ctx.prog)
    nr = noreturn(N)
    for b in N.mods.values():
        for s in b.all:
            if s.kind not in ("function", "module", "class"):
                continue
            ctx.functions.add(s.label)
            _dropped(ctx, N, s)
            _handlers(ctx, N, s, nr)
    _makedirs(ctx, N)
    ctx.at_least("raised", 20)
    ctx.at_least("handler", 5)


def _dropped(ctx, N, s):
    body = s.node.body
    par = None
    for n in own_walk(body):
        c = _is_exc(N, s, n)
        if c is None:
            continue
        if c.split(".")[-1].endswith("Warning"):
            continue
        par = par or parents(s.node)
        p = par.get(n)
        what = "%s: %s" % (s.label, c)
        if isinstance(p, ast.Expr):
            ctx.bad("raised", what, "the exception is built and dropped", loc(s, n))
        elif isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(
                p.targets[0], ast.Name) and s.kind == "function":
            name = p.targets[0].id
            used = any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)
                       for x in ast.walk(s.node))
            if used or name in s.globals:
                ctx.ok("raised", what)
            else:
                ctx.bad("raised", what, "the exception is built and never used", loc(s, n))
        elif isinstance(p, ast.Return) and s.kind == "function":
            _returned(ctx, N, s, n, what)
        else:
            ctx.ok("raised", what)
    for n in own_walk(body):
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Name, ast.Attribute)):
            c = _exc_class(N, N.resolve(s, n.value))
            if c is not None:
                ctx.bad("raised", "%s: %s" % (s.label, c),
                        "the exception class is named and not raised", loc(s, n))


def _returned(ctx, N, s, n, what):
    """an exception that is returned: the callers must raise it"""
    fn = None
    sites = []
    for b in N.mods.values():
        for t in b.all:
            bd = getattr(t.node, "body", [])
            for x in own_walk(bd if isinstance(bd, list) else [bd]):
                if isinstance(x, ast.Call):
                    f = x.func
                    nm = f.id if isinstance(f, ast.Name) else getattr(f, "attr", None)
                    if nm == s.node.name:
                        sites.append((t, x))
    raised = dropped = 0
    for t, x in sites:
        p = parents(t.node).get(x)
        if isinstance(p, ast.Expr):
            dropped += 1
        else:
            raised += 1
    if sites and not raised:
        ctx.bad("raised", what, "the exception is returned to callers that drop it", loc(s, n))
    else:
        ctx.ok("raised", what)


def _handler_types(N, s, h):
    if h.type is None:
        return {"*"}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    out = set()
    for t in ts:
        r = N.resolve(s, t)
        if isinstance(r, tuple) and r[0] == "ext":
            out.add(r[1].split(".")[-1])
        elif isinstance(r, Cls):
            out.add(r.qual)
        else:
            out.add("?")
    return out


def _handlers(ctx, N, s, nr):
    from ..names import falls
    stop = lambda e: never_returns(N, s, e, nr)
    for n in own_walk(s.node.body):
        if not isinstance(n, ast.Try):
            continue
        for x in own_walk(n.finalbody):
            if isinstance(x, ast.Return) or isinstance(x, (ast.Break, ast.Continue)) and \
                    not _in_loop(n.finalbody, x):
                ctx.bad("finally", "%s: %s" % (s.label, type(x).__name__.lower()),
                        "leaving a `finally` this way drops the exception", loc(s, x))
        for h in n.handlers:
            ts = _handler_types(N, s, h)
            what = "%s: except %s" % (s.label, short(h.type) if h.type is not None else "")
            if not (ts & (BLANKET | {"*"})):
                if ts & OSERRS:
                    _oserror(ctx, N, s, n, h, what, stop)
                else:
                    ctx.ok("handler", what)
                continue
            always = not falls(h.body, stop) and not any(
                isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in own_walk(h.body))
            if always:
                ctx.ok("handler", what)
                continue
            used = h.name and any(isinstance(x, ast.Name) and x.id == h.name and
                                  isinstance(x.ctx, ast.Load) for x in own_walk(h.body))
            cond = any(isinstance(x, ast.Raise) for x in own_walk(h.body))
            if used:
                ctx.ok("handler", what)      # reported to the user
            elif cond:
                ctx.maybe("handler", what, "raises again under a condition")
            else:
                ctx.bad("handler", what, "swallows every kind of exception",
                        (s.mod.rel, getattr(h, "lineno", n.lineno), s.label))


def unread_files(ctx, mods):
    """A handler of file errors in a reader raises, or leaves a trace of the failure: one that
    only prints or warns gives a corpus without the graphs of that file."""
    from ..names import falls
    N = Names(ctx.prog)
    nr = noreturn(N)
    for b in N.mods.values():
        for s in b.all:
            if s.kind != "function" or not s.label.startswith(mods):
                continue
            for n in own_walk(s.node.body):
                if not isinstance(n, ast.Try):
                    continue
                for h in n.handlers:
                    if not _handler_types(N, s, h) & (OSERRS | BLANKET | {"*"}):
                        continue
                    what = "%s: except %s" % (s.label, short(h.type) if h.type is not None
                                              else "")
                    if not falls(h.body, lambda e: never_returns(N, s, e, nr)):
                        ctx.ok("file errors", what)
                    elif _no_trace(N, s, h):
                        ctx.bad("file errors", what, "reading goes on without the file",
                                (s.mod.rel, getattr(h, "lineno", n.lineno), s.label))
                    else:
                        ctx.maybe("file errors", what, "may go on without the file")


def _no_trace(N, s, h):
    """do the statements of a handler do nothing but print or warn?"""
    inside = set(own_walk(h.body))
    names = set()
    for x in inside:
        if isinstance(x, (ast.Raise, ast.Return, ast.Attribute, ast.Subscript)) and \
                not isinstance(getattr(x, "ctx", ast.Load()), ast.Load):
            return False
        if isinstance(x, (ast.Raise, ast.Return, ast.Break, ast.Yield, ast.Global)):
            return False
        if isinstance(x, ast.Call):
            r = N.resolve(s, x.func)
            ok = isinstance(r, tuple) and r[0] == "ext" and r[1] == "warnings.warn" or \
                isinstance(x.func, ast.Attribute) and x.func.attr in ("format", "write") or \
                isinstance(x.func, ast.Name) and x.func.id in ("str", "repr", "print")
            if not ok:
                return False
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            names.add(x.id)
    return not any(isinstance(x, ast.Name) and x.id in names and x not in inside and
                   isinstance(x.ctx, ast.Load) for x in own_walk(s.node.body))


def _in_loop(body, x):
    for n in own_walk(body):
        if isinstance(n, (ast.For, ast.While)) and x in list(ast.walk(n)):
            return True
    return False


def _oserror(ctx, N, s, t, h, what, stop):
    ctx.ok("handler", what)


class _Env:
    """evaluates the tests of a handler for one kind of failure"""

    def __init__(self, N, s, name, errno, isdir, exists):
        self.N, self.s, self.name = N, s, name
        self.errno, self.isdir, self.exists = errno, isdir, exists

    def val(self, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.name and e.attr == "errno":
                return self.errno
            r = self.N.resolve(self.s, e)
            if isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("errno."):
                import errno
                return getattr(errno, r[1].split(".")[1], None)
        if isinstance(e, ast.Name):
            r = self.N.resolve(self.s, e)
            if isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("errno."):
                import errno
                return getattr(errno, r[1].split(".")[1], None)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and \
                e.slice.value == 0:
            v = e.value
            if isinstance(v, ast.Attribute) and v.attr == "args":
                v = v.value
            if isinstance(v, ast.Name) and v.id == self.name:
                return self.errno
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            vs = [self.val(x) for x in e.elts]
            return None if any(v is None for v in vs) else tuple(vs)
        return None

    def truth(self, e):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.truth(e.operand)
            return None if r is None else not r
        if isinstance(e, ast.BoolOp):
            rs = [self.truth(v) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in rs else (None if None in rs else True)
            return True if True in rs else (None if None in rs else False)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.val(e.left), self.val(e.comparators[0])
            if a is None or b is None:
                return None
            op = e.ops[0]
            if isinstance(op, (ast.Eq, ast.Is)):
                return a == b
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return a != b
            if isinstance(op, ast.In):
                return a in b
            if isinstance(op, ast.NotIn):
                return a not in b
        if isinstance(e, ast.Call):
            r = self.N.resolve(self.s, e.func)
            if isinstance(r, tuple) and r[0] == "ext":
                return {"os.path.isdir": self.isdir, "os.path.exists": self.exists,
                        "os.path.lexists": self.exists,
                        "os.path.isfile": self.exists and not self.isdir}.get(r[1])
        if isinstance(e, ast.Constant):
            return bool(e.value)
        return None

    def run(self, body):
        """'raise' | 'pass' | '?'"""
        for st in body:
            if isinstance(st, ast.Raise):
                return "raise"
            if isinstance(st, (ast.Return, ast.Continue, ast.Break)):
                return "pass"
            if isinstance(st, ast.Pass):
                continue
            if isinstance(st, ast.If):
                t = self.truth(st.test)
                if t is None:
                    a, b = self.run(st.body), self.run(st.orelse)
                    if a == b == "raise":
                        return "raise"
                    if a == b == "fall" or a == b:
                        continue
                    return "?"
                r = self.run(st.body if t else st.orelse)
                if r != "fall":
                    return r
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if isinstance(st, (ast.Assign, ast.Expr)):
                if any(isinstance(x, ast.Call) for x in ast.walk(st)):
                    return "?"
                continue
            return "?"
        return "fall"


def _makedirs(ctx, N):
    """daeso.utils.opsys.makedirs: which failures pass"""
    f = ctx.need("daeso.utils.opsys.makedirs")
    s = [x for x in N.mods[f.mod.name].all if x.node is f.node][0]
    rule, q = "makedirs", "daeso.utils.opsys.makedirs"
    body = f.node.body
    calls = []
    par = parents(f.node)
    for n in own_walk(body):
        if isinstance(n, ast.Call):
            r = N.resolve(s, n.func)
            if isinstance(r, tuple) and r[0] == "ext" and r[1] in ("os.makedirs", "os.mkdir"):
                calls.append(n)
            elif isinstance(r, Func):
                ctx.maybe(rule, q, "the work is done by %s" % r.qual)
                return
    if len(calls) != 1:
        ctx.maybe(rule, q, "%d calls that create directories" % len(calls))
        return
    n = calls[0]
    tries = []
    while n in par:
        p = par[n]
        if isinstance(p, ast.Try) and any(n is x for x in p.body):
            tries.append(p)
        n = p
    cases = [("the directory exists", 17, True, True, "pass"),
             ("permission is denied", 13, False, False, "raise"),
             ("the disk is full", 28, False, False, "raise"),
             ("a parent is missing or no directory", 20, False, False, "raise"),
             ("a file of that name exists", 17, False, True, "raise")]
    for text, no, isdir, exists, want in cases:
        got = "raise"
        for t in tries:
            for h in t.handlers:
                ts = _handler_types(N, s, h)
                if ts & (OSERRS | BLANKET | {"*"}) - {"IOError"}:
                    got = _Env(N, s, h.name, no, isdir, exists).run(h.body)
                    break
                if "?" in ts:
                    got = "?"
            if got != "raise":
                break
        if got == "fall":
            got = "pass"
        if got == "?":
            ctx.maybe(rule, "%s when %s" % (q, text), "the handler is not understood")
        elif got != want:
            guarded = any(isinstance(x, ast.Call) and N.resolve(s, x.func) in (
                ("ext", "os.path.isdir"), ("ext", "os.path.exists")) for x in own_walk(body)
                if not any(x in list(ast.walk(h)) for t in tries for h in t.handlers))
            if want == "pass" and guarded:
                ctx.maybe(rule, "%s when %s" % (q, text), "tested before the call")
            else:
                ctx.bad(rule, "%s when %s" % (q, text), "the failure is %s" % (
                    "swallowed" if want == "raise" else "raised to the caller"),
                    loc(s, calls[0]))
        else:
            ctx.ok(rule, "%s when %s" % (q, text))


@check("C03", "what operations modify")
def effects(ctx):
    """The objects that every function may modify are computed from its source: through
    assignments, containers, attributes and calls. Module-level tables and default values
    must not be among them, nor the arguments that an operation is not meant to modify
    (dsa/arguments.json; functions that are not listed there are helpers, judged through
    their callers)."""
    from ..alias import Alias, default_of, mutable_expr
    import json
    import os
    N = Names(ctx.prog)
    A = Alias(N)
    with open(os.path.join(os.path.dirname(__file__), "..", "arguments.json")) as f:
        base = json.load(f)
    known, attrs = base["functions"], base["attributes"]
    for q in ("daeso.pgc.corpus.ParallelGraphCorpus.write", "daeso.string.ngram.pad",
              "daeso.graph.daesograph.DaesoGraph.terminals"):
        ctx.need(q)
    labels = {}
    for node, s in A.scope.items():
        labels.setdefault(s.label, []).append(node)

    def stored(cls, attr):
        out = set()
        c = ctx.prog.find(cls)
        fam = {cls}
        if isinstance(c, Cls):
            fam |= {b.qual for b in c.mro if isinstance(b, Cls)}
            fam |= {d.qual for d in ctx.prog.subclasses.get(cls, [])}
        for k in fam:
            out |= A.fields.get((k, attr), set())
        return out

    for node, s in sorted(A.scope.items(), key=lambda x: (x[1].label, x[0].lineno)):
        mut, _ = A.summary(node)
        ctx.functions.add(s.label)
        where = lambda o: (s.mod.rel, mut[o][0], s.label)
        tables = [o for o in mut if o[0] == "g"]
        for o in tables:
            ctx.bad("table", "%s in %s" % (o[1], s.label),
                    "a table shared by every caller is modified: %s" % mut[o][1], where(o))
        if not tables:
            ctx.ok("table", s.label)
        for p, d in sorted(default_of(node).items()):
            if not mutable_expr(d):
                continue
            o = ("p", p)
            if o in mut:
                ctx.bad("default", "%s of %s" % (p, s.label),
                        "the default value is modified: %s" % mut[o][1], where(o))
            else:
                ctx.ok("default", "%s of %s" % (p, s.label))
        for (cls, attr), (s2, n, why) in sorted(A.fmut.items(), key=lambda x: x[0]):
            if s2 is not s:
                continue
            bad = False
            for o in sorted(stored(cls, attr), key=str):
                what = None
                if o[0] == "g":
                    what = "the shared table %s" % o[1]
                elif o[0] == "p":
                    for nd in labels.get(o[1], ()):
                        d = default_of(nd).get(o[2])
                        if d is not None and mutable_expr(d):
                            what = "the default value of %s in %s" % (o[2], o[1])
                if what:
                    bad = True
                    ctx.bad("table", "%s.%s in %s" % (cls, attr, s.label),
                            "%s, kept in an attribute, is modified: %s" % (what, why),
                            (s2.mod.rel, n.lineno, s2.label))
            if not bad:
                ctx.ok("table", "%s.%s in %s" % (cls, attr, s.label))
        if s.label not in known or len(labels[s.label]) > 1:
            continue
        params, meant = known[s.label]
        if s.params != params:
            continue
        for p in params:
            if p in meant:
                ctx.ok("argument", "%s of %s (meant)" % (p, s.label))
                continue
            hit = None
            if p == "self" and s.params[0] == "self":
                cls = enclosing_class(N, s)
                old = set()
                for b in cls.mro if cls is not None else ():
                    old |= set(attrs.get(b.qual if isinstance(b, Cls) else b, ()))
                for o in mut:
                    if o[0] == "f" and o[1] in old and not s.label.endswith("__init__"):
                        hit = o
                    if o == ("p", "self") and (
                            not mut[o][1].startswith(("assigns", "deletes")) or
                            mut[o][1][len("assigns ."):] in old):
                        hit = o
            elif ("p", p) in mut:
                hit = ("p", p)
            if hit:
                ctx.bad("argument", "%s of %s" % (p, s.label),
                        "an operation that only reads modifies %s: %s" % (
                            "its object" if p == "self" else "its argument", mut[hit][1]),
                        where(hit))
            else:
                ctx.ok("argument", "%s of %s" % (p, s.label))
    ctx.at_least("table", 300)
    ctx.at_least("argument", 500)
