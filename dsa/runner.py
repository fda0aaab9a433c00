"""Check runner: obligations, known findings, evidence, exit status."""
import ast
import copy
import json
import os
import sys
import time
import traceback

from . import load, tools
from .load import AnalysisError
from .model import Program, Mod, Func, Cls
from .state import lt, Ty
from .terms import mk, eq, HINTS
from .compare import compare, Result, path_term
from .fields import FIELDS, PTYPES

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse_ty(s):
    """'list[daeso.x.Y]' -> Ty"""
    s = s.strip()
    if "[" in s and s.endswith("]"):
        name, inner = s.split("[", 1)
        inner = inner[:-1]
        if name == "tuple":
            return Ty("tuple", elem={i: parse_ty(x) for i, x in enumerate(split(inner))})
        if name == "dict" and ":" in inner:
            inner = inner.split(":", 1)[1]
        return Ty(name, elem=parse_ty(inner))
    return Ty(s)


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += ch == "["
        depth -= ch == "]"
        cur += ch
    return out + [cur]


class Finding:
    def __init__(self, rule, construct, message, loc=None):
        self.rule = rule
        self.construct = construct
        self.message = message
        self.loc = loc

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)

    def __str__(self):
        l = ""
        if self.loc:
            l = "%s:%s: " % (self.loc[0], self.loc[1])
            if len(self.loc) > 2:
                l += "in %s: " % self.loc[2]
        return "%s[%s] %s: %s" % (l, self.rule, self.construct, self.message)


class Ctx:
    def __init__(self, pid, prog):
        self.pid = pid
        self.prog = prog
        self.findings = []
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.sites = {}
        self.notes = {}
        self.samples = []
        self.functions = set()

    # -- results ------------------------------------------------------------
    def ok(self, rule, what, n=1):
        self.obligations += n
        self.discharged += n
        self.sites.setdefault(rule, []).append(str(what))

    def bad(self, rule, construct, message, loc=None):
        self.obligations += 1
        f = Finding(rule, construct, message, loc)
        self.findings.append(f)
        self.sites.setdefault(rule, []).append(construct)

    def maybe(self, rule, construct, why):
        self.obligations += 1
        self.undecided.append("%s %s: %s" % (rule, construct, why))
        self.sites.setdefault(rule, []).append(construct)

    def need(self, qual):
        """a public anchor that must exist"""
        f = self.prog.find(qual)
        if f is None:
            raise AnalysisError("anchor %s has vanished" % qual)
        return f

    def at_least(self, rule, n):
        """instance count confirmed by hand"""
        k = len(self.sites.get(rule, ()))
        if k < n:
            raise AnalysisError("rule %s matched %d sites, %d were confirmed" % (rule, k, n))

    # -- reference definitions -------------------------------------------------
    def specs(self, name, only=None, **over):
        path = os.path.join(HERE, "spec", name + ".py")
        modname = "spec." + name
        if modname in self.prog.mods:
            m = self.prog.mods[modname]
        else:
            tree = Printing().visit(ast.parse(open(path).read(), path))
            m = Mod(modname, path, tree, HERE)
            self.prog.mods[modname] = m
            self.prog._collect(m)
            m.future_div = True
            for c in m.classes.values():
                self.prog._bases(c)
            for c in m.classes.values():
                self.prog._mro(c)
        n = 0
        for fname, f in m.funcs.items():
            for d in f.node.decorator_list:
                if not (isinstance(d, ast.Call) and getattr(d.func, "id", "") == "of"):
                    continue
                target = d.args[0].value
                kw = {k.arg: literal(k.value, tree) for k in d.keywords}
                kw.update(over)
                if only is not None and target.split(".")[-1] not in only and \
                        fname not in only:
                    continue
                if self.pid not in kw.get("props", [self.pid]):
                    continue
                self.spec(target, f, kw)
                n += 1
        return n

    def spec(self, target, f, kw):
        if "@" in target:
            cls, slot = target.split("@")
            fn = handler(self.prog, self.need(cls), slot)
            if fn is None:
                self.maybe(kw.get("rule", "reference"), target, "not registered as a method")
                return
            kw = dict(kw, self=cls)
        elif "#" in target:
            q, part = target.split("#")
            fn = around_events(self.prog, self.need(q), part)
            if fn is None:
                self.maybe(kw.get("rule", "reference"), target, "no loop over events")
                return
        elif target.split(".")[-1][:1] == "_" != target.split(".")[-1][1:2] and self.prog.find(target) is None:
            self.maybe(kw.get("rule", "reference"), target, "an internal name that has vanished")
            return
        elif target.endswith("()"):
            fn = applied(self.need(target[:-2]), f)
        else:
            fn = self.need(target)
        if "#" in target or "@" in target:
            target += "".join(" %s=%s" % x for x in sorted(kw.get("let", {}).items()))
            target += "".join(" " + x for x in kw.get("given", ()))
        if isinstance(fn, Cls):
            fn = self.prog.lookup(fn, "__init__")[1]
        if isinstance(fn, Mod):
            kw = dict(kw)
            f, kw["dests"] = tools.adapt(self.prog, fn, f)
            kw["hints"] = dict(tools.kinds(self.prog, fn), **kw.get("hints", {}))
            fn = tools.main_func(fn)
            kw.setdefault("opaque", ("daeso.*",))
            kw["own_cells"] = [mk("param", x) for x in tools.MAIN]
        gone = ({n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)} |
                set(kw.get("opaque", ()))) & self.prog.gone_fields
        if gone:
            self.maybe(kw.get("rule", "reference"), target, "%s has vanished" % min(gone))
            return
        self.defaults(target, fn, f, kw)
        a = f.node.args
        names = [p.arg for p in a.args]
        let = kw.get("let", {})
        args = [mk("c", let[nm]) if nm in let else mk("param", nm) for nm in names]
        ptypes = {}
        tys = dict(PTYPES.get(target, {}))
        tys.update(kw.get("types", {}))
        for nm, ty in tys.items():
            ptypes[path_term(nm)] = parse_ty(ty)
        if fn.cls is not None and not fn.static and args and not fn.classm:
            ptypes.setdefault(args[0], Ty(kw.get("self", fn.cls.qual)))
        hints = {}
        for nm, k in kw.get("hints", {}).items():
            hints[path_term(nm)] = k
        saved = dict(HINTS)
        HINTS.clear()
        HINTS.update(hints)
        opts = dict(kw)
        opts["fields"] = FIELDS
        opts["ptypes"] = ptypes
        opts["rettypes"] = {k: parse_ty(v) for k, v in kw.get("rets", {}).items()}
        opts["assume"] = [given(x) for x in kw.get("given", ()) if " iff " not in x]
        opts["iff"] = [[given(y) for y in x.split(" iff ")]
                       for x in kw.get("given", ()) if " iff " in x]
        if "watch" not in opts:
            opts["watch"] = ("ZeroDivisionError",)
        try:
            res, stats = compare(self.prog, fn, f, args, opts)
        except AnalysisError:
            raise
        except Exception as e:       # an analysis that gives up is no verdict
            if os.environ.get("DSA_DEBUG"):
                traceback.print_exc()
            self.maybe(kw.get("rule", "reference"), target, "internal: %s: %s" % (
                type(e).__name__, e))
            return
        finally:
            HINTS.clear()
            HINTS.update(saved)
        rule = kw.get("rule", "reference")
        self.functions.update(stats.get("functions", ()))
        viol = [r for r in res if r.status == "violated"]
        gone = () if viol or not res or fn is not self.prog.find(target) else ignored(fn, f)
        if viol:
            self.bad(rule, target, viol[0].why, viol[0].loc)
        elif gone:
            self.bad(rule, target, "the argument %s has no effect; the reference uses it" %
                     gone[0], (fn.mod.rel, fn.node.lineno, fn.qual))
        elif res:
            self.maybe(rule, target, res[0].why)
        elif not stats["pairs"]:
            raise AnalysisError("no comparable alternatives for %s" % target)
        else:
            self.ok(rule, target)
            if len(self.samples) < 5:
                self.samples.append({"function": target, "alternatives":
                                     stats["impl_alternatives"], "pairs": stats["pairs"]})


    def defaults(self, target, fn, f, kw):
        """what an omitted argument means"""
        def of(x):
            ps = [p.arg for p in x.node.args.args]
            ds = x.node.args.defaults
            return ps, dict(zip(ps[len(ps) - len(ds):], ds))
        ps, mine = of(fn)
        _, ref = of(f)
        for p, d in sorted(ref.items()):
            if p not in ps or not isinstance(d, ast.Constant) or d.value is None:
                continue
            if p not in mine:
                if not fn.node.args.kwarg:
                    self.bad(kw.get("rule", "reference"), target,
                             "%s has no default value; %r is expected" % (p, d.value),
                             (fn.mod.rel, fn.node.lineno, fn.qual))
                continue
            try:
                v = literal(mine[p], fn.mod.tree)
            except (ValueError, AttributeError, TypeError):
                continue
            if v is not None and (v != d.value or isinstance(v, bool) !=
                                  isinstance(d.value, bool)):
                self.bad(kw.get("rule", "reference"), target,
                         "%s is %r when it is not given; %r is expected" % (p, v, d.value),
                         (fn.mod.rel, fn.node.lineno, fn.qual))


def reads(node, name):
    """is the variable read, or might it be?"""
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and (
                n.id == name and isinstance(n.ctx, ast.Load) or
                n.id in ("locals", "vars", "eval")) or isinstance(n, load.Exec):
            return True
        if isinstance(n, ast.AugAssign) and getattr(n.target, "id", "") == name:
            return True
    return False


def ignored(fn, ref):
    """optional arguments whose values no path through the function reads, though the
    reference does"""
    a = fn.node.args
    ps = [p.arg for p in a.args]
    out = []
    for i in range(len(ps) - len(a.defaults), len(ps)):
        if i >= len(ref.node.args.args) or not any(
                reads(st, ref.node.args.args[i].arg) for st in ref.node.body):
            continue
        for st in fn.node.body:
            if reads(st, ps[i]):
                break
            if isinstance(st, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == ps[i] for t in st.targets):
                out.append(ps[i])
                break
        else:
            out.append(ps[i])
    return out


class Printing(ast.NodeTransformer):
    """print(..., file=f) of a reference is the print statement of Python 2"""
    def visit_Expr(self, n):
        c = n.value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and
                c.func.id == "print"):
            return n
        p = load.Print()
        kw = {k.arg: k.value for k in c.keywords}
        p.dest = kw.get("file")
        p.values = c.args
        p.nl = "end" not in kw
        return ast.copy_location(p, n)


def literal(node, tree):
    """a literal, or the name of a module-level literal"""
    if isinstance(node, ast.Name):
        for st in tree.body:
            if isinstance(st, ast.Assign) and getattr(st.targets[0], "id", "") == node.id:
                return literal(st.value, tree)
    if isinstance(node, ast.Dict):
        d = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                d.update(literal(v, tree))
            else:
                d[literal(k, tree)] = literal(v, tree)
        return d
    if isinstance(node, ast.Call) and node.func.id == "dict":
        d = {}
        for a in node.args:
            d.update(literal(a, tree))
        d.update({k.arg: literal(k.value, tree) for k in node.keywords})
        return d
    return ast.literal_eval(node)


def handler(prog, cls, slot):
    """the method that the objects of the class register as a handler"""
    for c in cls.mro:
        for f in c.members.values() if isinstance(c, Cls) else ():
            if isinstance(f, Func) and f.node.args.args:
                me = f.node.args.args[0].arg
                me = {me} | {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and
                             getattr(n.value, "id", "") == me
                             for t in n.targets if isinstance(t, ast.Name)}
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(
                            isinstance(t, ast.Attribute) and t.attr == slot
                            for t in n.targets):
                        v = n.value
                        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) \
                                and v.value.id in me:
                            l = prog.lookup(cls, v.attr)
                            if l is not None and l[0] != "ext" and isinstance(l[1], Func):
                                return l[1]
                        return None
    return None


def event_loops(f):
    """[(loop, the pair of event and element in its target)] over what iterparse gives"""
    def parses(e):
        return any(getattr(n, "attr", getattr(n, "id", "")) == "iterparse"
                   for n in ast.walk(e))
    names = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and parses(n.value)
             for t in n.targets if isinstance(t, ast.Name)}
    out = []
    for n in ast.walk(f.node):
        if not isinstance(n, ast.For):
            continue
        it, target = n.iter, n.target
        if isinstance(it, ast.Call) and getattr(it.func, "id", "") in ("enumerate", "iter"):
            if it.func.id == "enumerate":
                if not isinstance(target, ast.Tuple) or len(target.elts) != 2:
                    continue
                target = target.elts[1]
            it = it.args[0]
        if isinstance(it, ast.Name) and it.id in names or isinstance(it, ast.Call) and parses(it):
            out.append((n, target))
    return out


def applied(fn, f):
    """what the function does that a factory makes: factory(first arguments)(the others)"""
    given = [a.arg for a in fn.node.args.args]
    ps = [a.arg for a in f.node.args.args]
    rest = ps[len(given):]
    src = "def %s(%s):\n    return %s(%s)(%s)" % (
        fn.name + "__applied", ", ".join(given + rest), fn.name, ", ".join(given), ", ".join(rest))
    node = ast.parse(src).body[0]
    for x in ast.walk(node):
        if hasattr(x, "lineno"):
            x.lineno = x.end_lineno = fn.node.lineno
    return Func(fn.mod, node)


def around_events(prog, fn, part):
    """the method that reads the events of an XML file: what it does with one event (part
    "event"), or all the rest ("rest")"""
    fns = [fn] + [f for f in (fn.cls.members.values() if fn.cls else ())
                  if isinstance(f, Func) and f is not fn]
    for f in fns:
        loops = event_loops(f)
        if not loops:
            continue
        if len(loops) != 1 or part == "rest" and f is not fn:
            return None
        loop, target = loops[0]
        if part == "rest":
            node = copy.deepcopy(fn.node)
            Without(loop.lineno).visit(node)
            return Func(fn.mod, node, fn.cls)
        me = f.node.args.args[0].arg
        before = [s for s in f.node.body if isinstance(s, ast.Assign) and
                  s.lineno < loop.lineno and all(isinstance(t, ast.Name) for t in s.targets)
                  and not any(getattr(n, "attr", "") == "iterparse" for n in ast.walk(s))]
        body = [Returning().visit(s) for s in copy.deepcopy(loop.body)]
        both = ast.Assign(targets=[copy.deepcopy(target)], value=ast.Tuple(
            elts=[ast.Name(id=x, ctx=ast.Load()) for x in (".event", ".elem")],
            ctx=ast.Load()))
        node = ast.FunctionDef(
            name=f.name, decorator_list=[], returns=None, type_params=[],
            args=ast.arguments(posonlyargs=[], args=[
                ast.arg(arg=x, annotation=None) for x in (me, ".event", ".elem")],
                vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
            body=before + [both] + body)
        ast.copy_location(node, loop)
        ast.copy_location(both, loop)
        ast.fix_missing_locations(node)
        return Func(fn.mod, node, fn.cls)
    return None


class Returning(ast.NodeTransformer):
    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_For


class Without(ast.NodeTransformer):
    def __init__(self, line):
        self.line = line

    def visit_For(self, n):
        if n.lineno == self.line:
            return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)


def given(s):
    """'a.b' (is true) or 'len(a) < len(b)' -> a fact"""
    if " in " in s:
        a, b = s.split(" in ")
        return mk("in", path_term(a), path_term(b)), True
    if " == " in s:
        a, b = s.split(" == ")
        return eq(path_term(a), mk("c", ast.literal_eval(b))), True
    if "<" in s:
        return lt(*[mk("len", path_term(x.strip()[4:-1])) for x in s.split("<")]), True
    if s.startswith("not hasattr("):
        t, v = given(s[4:])
        return t, not v
    if s.startswith("hasattr("):             # hasattr(a, name)
        a, name = s[8:-1].split(", ")
        return mk("hasattr", path_term(a), mk("c", name)), True
    if s.startswith("not "):
        return mk("truth", path_term(s[4:])), False
    return mk("truth", path_term(s)), True


# -- known findings ----------------------------------------------------------------

def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, desc = rest.split(" :: ", 1)
                out[key.strip()[4:] if key.startswith("key=") else key.strip()] = desc.strip()
    return out


def main(argv):
    from .checks import CHECKS
    tier = os.environ.get("VERIF_TIER", "quick")
    args = [a for a in argv if not a.startswith("--")]
    if "--thorough" in argv:
        tier = "thorough"
    pid = args[0]
    t0 = time.time()
    title, level, fn = CHECKS[pid]
    try:
        prog = Program(load.REPO)
        ctx = Ctx(pid, prog)
        ctx.tier = tier
        fn(ctx)
    except AnalysisError as e:
        print("ANALYSIS BROKEN property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS BROKEN property=%s: internal error" % pid)
        return 2
    kn = known(pid)
    viol = [f for f in ctx.findings if f.key not in kn]
    kf = [f for f in ctx.findings if f.key in kn]
    edir = os.environ.get("DSA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    cov = {
        "explanation": EXPLAIN.get(level, "") + " " + (fn.__doc__ or title).strip(),
        "obligations": ctx.obligations,
        "discharged": ctx.discharged,
        "undecided": ctx.undecided,
        "known_findings": [str(f) for f in kf],
        "functions_analysed": len(ctx.functions),
        "modules_parsed": len(list(prog.own_mods())),
        "rules": {r: {"sites": len(s), "instances": sorted(set(s))[:400]}
                  for r, s in sorted(ctx.sites.items())},
        "samples": ctx.samples or [str(f) for f in ctx.findings[:3]] or
        [r + ": " + s[0] for r, s in sorted(ctx.sites.items())[:5]],
    }
    cov.update(ctx.notes)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s: %d obligations, %d discharged, %d undecided, %.1f s" % (
        pid, ctx.obligations, ctx.discharged, len(ctx.undecided), time.time() - t0))
    for u in ctx.undecided:
        print("UNDECIDED " + u)
    for f in kf:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, f, kn[f.key]))
    if viol:
        rp = os.path.join(edir, pid + ".report.txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write("%s\n" % v)
        for v in viol:
            print(str(v))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


EXPLAIN = {"other": "Static analysis of the current source; nothing is executed."}
