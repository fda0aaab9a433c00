#!/usr/bin/env python3
"""Rewrite the whole repository (in memory) in ways that keep its behaviour,
and run the checks: every violation reported is a false alarm.

    refactor.py [transformation ...] [-p C10,C11]
"""
import ast
import copy
import os
import pickle
import sys
import threading
import time
import subprocess
from concurrent.futures import ThreadPoolExecutor

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, ".."))
from dsa import load                                    # noqa: E402
from dsa.model import Program                           # noqa: E402
from dsa.runner import Ctx                              # noqa: E402
from dsa.checks import CHECKS                           # noqa: E402


def name(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


class Base(ast.NodeTransformer):
    """statement lists are visited through `body`"""
    n = 0

    def fresh(self, stem="tmp"):
        self.n += 1
        return "%s_%d" % (stem, self.n)

    def visit_Lambda(self, n):
        return n

    def visit_FunctionDef(self, n):
        self.fn = n
        return self.generic_visit(n)


def ends(body):
    return body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class InvertIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
        return n


class ReturnTemp(Base):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
            return n
        v = self.fresh("result")
        return [ast.Assign([name(v, 1)], n.value), ast.Return(name(v))]


class CondTemp(Base):
    def visit_Module(self, n):
        for f in n.body:
            if isinstance(f, (ast.FunctionDef, ast.ClassDef)):
                self.generic_visit(f)
        return n

    def visit_If(self, n):
        elifs = len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)
        self.generic_visit(n)
        v = self.fresh("cond")
        t = n.test
        n.test = name(v)
        return [ast.Assign([name(v, 1)], t), n]


class IterTemp(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Name):
            return n
        v = self.fresh("items")
        t = n.iter
        n.iter = name(v)
        return [ast.Assign([name(v, 1)], t), n]


class Continue(Base):
    """for: if c: A   ->   for: if not c: continue; A"""

    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body[-1]
            n.body[-1:] = [ast.If(neg(i.test), [ast.Continue()], [])] + i.body
        return n


class ElseAfterReturn(Base):
    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and ends(s.body) and not s.orelse and i + 1 < len(body):
                s.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, f, self.block(b))
        return n


class NoElse(Base):
    """if c: return a else: B  ->  if c: return a; B"""

    def visit_If(self, n):
        self.generic_visit(n)
        if ends(n.body) and n.orelse:
            rest = n.orelse
            n.orelse = []
            return [n] + rest
        return n


class AugAssign(Base):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant) and \
                isinstance(n.value.value, (int, float)):
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
        return n


class SwapCompare(Base):
    MAP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt,
           ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.MAP and not (
                isinstance(n.left, (ast.Name, ast.Attribute)) and
                self.fn_name in ("__eq__", "__ne__")):
            return ast.Compare(n.comparators[0], [self.MAP[type(n.ops[0])]()], [n.left])
        return n

    fn_name = ""

    def visit_FunctionDef(self, n):
        old, self.fn_name = self.fn_name, n.name
        r = self.generic_visit(n)
        self.fn_name = old
        return r


class NegCompare(Base):
    MAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
           ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.MAP:
            k = self.MAP[type(n.ops[0])]
            if k in (ast.Eq, ast.NotEq) and not isinstance(n.comparators[0], ast.Constant):
                return n
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [k()], n.comparators))
        return n


class Nested(Base):
    """if a and b: X  ->  if a: if b: X"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for t in reversed(n.test.values):
                body = [ast.If(t, body, [])]
            return body[0]
        return n


class Merge(Base):
    """if a: if b: X  ->  if a and b: X"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and \
                not n.body[0].orelse:
            return ast.If(ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body, [])
        return n


class IfExp(Base):
    """x = a if c else b  ->  if c: x = a else: x = b"""

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and isinstance(n.targets[0], ast.Name):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)],
                          [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return n


class ToIfExp(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        a, b = n.body, n.orelse
        if len(a) == len(b) == 1:
            if isinstance(a[0], ast.Assign) and isinstance(b[0], ast.Assign) and \
                    len(a[0].targets) == 1 and ast.dump(a[0].targets[0]) == ast.dump(
                        b[0].targets[0] if len(b[0].targets) == 1 else n):
                return ast.Assign(a[0].targets, ast.IfExp(n.test, a[0].value, b[0].value))
            if isinstance(a[0], ast.Return) and isinstance(b[0], ast.Return) and \
                    a[0].value is not None and b[0].value is not None:
                return ast.Return(ast.IfExp(n.test, a[0].value, b[0].value))
        return n


class Comprehension(Base):
    """x = [e for ...]  ->  a loop"""

    def loop(self, v, c):
        body = [ast.Expr(ast.Call(ast.Attribute(name(v), "append", ast.Load()), [c.elt], []))]
        for g in reversed(c.generators):
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [ast.Assign([name(v, 1)], ast.List([], ast.Load()))] + body

    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp):
            v = self.fresh("acc")
            return self.loop(v, n.value) + [ast.Assign(n.targets, name(v))]
        return n

    def visit_Return(self, n):
        v = n.value
        if isinstance(v, ast.ListComp):
            x = self.fresh("acc")
            return self.loop(x, v) + [ast.Return(name(x))]
        if isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords and \
                isinstance(v.args[0], ast.ListComp) and isinstance(v.func, ast.Name):
            x = self.fresh("acc")
            r = self.loop(x, v.args[0])
            v.args[0] = name(x)
            return r + [n]
        return n


class TargetTemp(Base):
    """for a, b in xs  ->  for t in xs: a, b = t"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Tuple):
            v = self.fresh("item")
            n.body.insert(0, ast.Assign([n.target], name(v)))
            n.target = name(v, 1)
        return n


def local_names(fn):
    out = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name if isinstance(x.name, str) else "")
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split(".")[0] for a in x.names}
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
            out.add(x.name)
    for x in ast.walk(fn):
        if isinstance(x, ast.Global):
            out -= set(x.names)
    return out


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


class RenameLocals(Base):
    def visit_FunctionDef(self, n):
        if n.decorator_list or has(n, ast.Global, ast.Lambda) or any(
                isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n
                for x in ast.walk(n)) or "locals" in {x.id for x in ast.walk(n)
                                                     if isinstance(x, ast.Name)}:
            return n
        args = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
               isinstance(x.ctx, ast.Store)} - args
        loc -= {a for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom))
                for y in x.names for a in [y.asname or y.name.split(".")[0]]}
        loc = {x for x in loc if not x.startswith("_")}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "my_" + x.id
            elif isinstance(x, ast.ExceptHandler) and isinstance(x.name, str) and x.name in loc:
                x.name = "my_" + x.name
        return n


class Delegate(Base):
    """f(args): BODY  ->  f(args): return f_impl(args)    (functions of a module)"""

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg \
                    and not s.args.kwarg and not has(s, ast.Yield) and s.name != "main":
                impl = copy.deepcopy(s)
                impl.name = "_" + s.name + "_impl"
                impl.args.defaults = []
                s.body = [ast.Return(ast.Call(name(impl.name),
                                              [name(a.arg) for a in s.args.args], []))]
                out.append(impl)
            out.append(s)
        n.body = out
        return n


class DelegateMethod(Base):
    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg \
                    and not s.args.kwarg and not has(s, ast.Yield) and s.args.args and \
                    s.args.args[0].arg == "self" and not any(
                        isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s)) and \
                    not any(isinstance(x, ast.FunctionDef) and x is not s for x in ast.walk(s)):
                impl = copy.deepcopy(s)
                impl.name = "_do_" + n.name + s.name.strip("_")
                impl.args.defaults = []
                s.body = [ast.Return(ast.Call(
                    ast.Attribute(name("self"), impl.name, ast.Load()),
                    [name(a.arg) for a in s.args.args[1:]], []))]
                out.append(impl)
        n.body = out
        return n


class HelperExpr(Base):
    """some expressions become calls of new functions of the module"""

    def visit_Module(self, n):
        self.new = []
        self.depth = 0
        self.generic_visit(n)
        i = 0
        while i < len(n.body) and isinstance(n.body[i], (ast.Import, ast.ImportFrom, ast.Expr)):
            i += 1
        n.body[i:i] = self.new
        return n

    def visit_FunctionDef(self, n):
        if n.decorator_list:
            return n
        loc = local_names(n)
        if any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) and x is not n
               for x in ast.walk(n)):
            return n
        for st in ast.walk(n):
            for f in ("value", "test"):
                e = getattr(st, f, None)
                if not (isinstance(st, (ast.Assign, ast.If, ast.Return)) and
                        isinstance(e, ast.expr)):
                    continue
                if isinstance(e, (ast.Name, ast.Constant)) or has(e, ast.Yield):
                    continue
                bound = set()
                free = []
                for x in ast.walk(e):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        bound.add(x.id)
                for x in ast.walk(e):
                    if isinstance(x, ast.Name) and x.id in loc and x.id not in bound and \
                            x.id not in free:
                        free.append(x.id)
                h = self.fresh("_helper")
                new = ast.parse("def %s(%s): pass" % (h, ", ".join(free))).body[0]
                new.body = [ast.Return(e)]
                self.new.append(new)
                setattr(st, f, ast.Call(name(h), [name(x) for x in free], []))
        return n


class HelperLoop(Base):
    """bodies of loops that only call things become functions of the module"""

    def visit_Module(self, n):
        self.new = []
        self.generic_visit(n)
        i = 0
        while i < len(n.body) and isinstance(n.body[i], (ast.Import, ast.ImportFrom, ast.Expr)):
            i += 1
        n.body[i:i] = self.new
        return n

    def visit_FunctionDef(self, n):
        if n.decorator_list or any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda))
                                   and x is not n for x in ast.walk(n)):
            return n
        loc = local_names(n)
        for st in ast.walk(n):
            if isinstance(st, (ast.For, ast.If)) and st.body and not any(
                    has(x, ast.Return, ast.Continue, ast.Break, ast.Yield, ast.AugAssign)
                    for x in st.body):
                stored = {x.id for s in st.body for x in ast.walk(s) if isinstance(x, ast.Name)
                          and isinstance(x.ctx, ast.Store)}
                if stored or any(has(x, ast.Import, ast.ImportFrom) for x in st.body):
                    continue
                free = []
                for s in st.body:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name) and x.id in loc and x.id not in free:
                            free.append(x.id)
                h = self.fresh("_step")
                new = ast.parse("def %s(%s): pass" % (h, ", ".join(free))).body[0]
                new.body = st.body
                self.new.append(new)
                st.body = [ast.Expr(ast.Call(name(h), [name(x) for x in free], []))]
        return n


class LenTest(Base):
    """not needed statements: pass, bare docstring, assert True"""

    def visit_For(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Pass())
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body.insert(0 if not isinstance(n.body[0], ast.Expr) else 1,
                      ast.Assign([name("unused_", 1)], ast.Constant(None)))
        return n


class Enumerate(Base):
    """for x in xs -> for i, x in enumerate(xs)"""

    def visit_For(self, n):
        self.generic_visit(n)
        n.target = ast.Tuple([name(self.fresh("idx"), 1), n.target], ast.Store())
        n.iter = ast.Call(name("enumerate"), [n.iter], [])
        return n


class ForElse(Base):
    """a loop whose body ends with if c: break, else: ... stays; return in loop -> flag"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        # a last statement `for ..: if c: return K` + `return L`
        if len(n.body) >= 2 and isinstance(n.body[-2], ast.For) and not n.body[-2].orelse and \
                isinstance(n.body[-1], ast.Return) and isinstance(n.body[-1].value, ast.Constant):
            rets = [x for x in ast.walk(n.body[-2]) if isinstance(x, ast.Return)]
            loops = [x for x in ast.walk(n.body[-2]) if isinstance(x, (ast.For, ast.While))]
            if rets and len(loops) == 1 and not any(isinstance(x, ast.Try)
                                                    for x in ast.walk(n.body[-2])):
                v = self.fresh("answer")

                class R(ast.NodeTransformer):
                    def visit_Return(self, r):
                        return [ast.Assign([name(v, 1)], r.value or ast.Constant(None)),
                                ast.Break()]
                n.body[-2] = R().visit(n.body[-2])
                n.body.insert(-2, ast.Assign([name(v, 1)], n.body[-1].value))
                n.body[-1] = ast.Return(name(v))
        return n


class Keywords(Base):
    """positional constructor of nothing; *args unchanged: add parentheses only"""

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            v = self.fresh("ignored")
            return ast.Assign([name(v, 1)], n.value)
        return n


class SplitOr(Base):
    """if a or b: return X   ->   if a: return X; if b: return X"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or) \
                and ends(n.body):
            return [ast.If(t, copy.deepcopy(n.body), []) for t in n.test.values]
        return n


class Items(Base):
    """for k in d.keys()/iterkeys -> for k in d; iteritems -> items"""
    MAP = {"iteritems": "items", "itervalues": "values", "iterkeys": "keys",
           "items": "iteritems", "values": "itervalues"}

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and \
                n.iter.func.attr in ("iteritems", "itervalues", "iterkeys"):
            n.iter.func.attr = self.MAP[n.iter.func.attr]
        return n


class AnyAll(Base):
    """for x in xs: if c: return True / return False -> return any([...])"""

    def visit_FunctionDef(self, n):
        b = n.body
        if len(b) >= 2 and isinstance(b[-2], ast.For) and not b[-2].orelse and \
                len(b[-2].body) == 1 and isinstance(b[-2].body[0], ast.If) and \
                not b[-2].body[0].orelse and len(b[-2].body[0].body) == 1 and \
                isinstance(b[-2].body[0].body[0], ast.Return) and isinstance(b[-1], ast.Return):
            x, y = b[-2].body[0].body[0].value, b[-1].value
            if isinstance(x, ast.Constant) and isinstance(y, ast.Constant):
                t = b[-2].body[0].test
                g = [ast.comprehension(b[-2].target, b[-2].iter, [], 0)]
                if x.value is True and y.value is False:
                    b[-2:] = [ast.Return(ast.Call(name("any"), [ast.ListComp(t, g)], []))]
                elif x.value is False and y.value is True:
                    b[-2:] = [ast.Return(ast.UnaryOp(ast.Not(), ast.Call(
                        name("any"), [ast.ListComp(t, g)], [])))]
        return n


class Loops(Base):
    """acc = []; for x in xs: [if c:] acc.append(e)  ->  a comprehension"""

    def generic_visit(self, n):
        super().generic_visit(n)
        b = getattr(n, "body", None)
        if isinstance(b, list):
            i = 0
            while i + 1 < len(b):
                a, f = b[i], b[i + 1]
                if isinstance(a, ast.Assign) and isinstance(a.value, ast.List) and \
                        not a.value.elts and isinstance(a.targets[0], ast.Name) and \
                        isinstance(f, ast.For) and not f.orelse and len(f.body) == 1:
                    ifs, s = [], f.body[0]
                    while isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
                        ifs.append(s.test)
                        s = s.body[0]
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                            isinstance(s.value.func, ast.Attribute) and \
                            s.value.func.attr == "append" and \
                            ast.dump(s.value.func.value) == ast.dump(name(a.targets[0].id)):
                        elt = s.value.args[0]
                        b[i:i + 2] = [ast.Assign(a.targets, ast.ListComp(
                            elt, [ast.comprehension(f.target, f.iter, ifs, 0)]))]
                i += 1
        return n


class ArgTemp(Base):
    """arguments of calls that are calls themselves are computed before"""

    def visit_Expr(self, n):
        return self.do(n)

    def visit_Assign(self, n):
        return self.do(n)

    def visit_Return(self, n):
        return self.do(n)

    def do(self, n):
        c = n.value
        if not isinstance(c, ast.Call) or not isinstance(c.func, (ast.Name, ast.Attribute)):
            return n
        if isinstance(c.func, ast.Attribute) and has(c.func.value, ast.Call, ast.Subscript):
            return n
        pre = []
        for i, a in enumerate(c.args):
            if isinstance(a, (ast.Name, ast.Constant, ast.Starred)):
                continue
            v = self.fresh("arg")
            pre.append(ast.Assign([name(v, 1)], a))
            c.args[i] = name(v)
        return pre + [n]


class TryBody(Base):
    """keep only what may raise inside try? no: wrap a guard clause"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if len(n.body) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse and \
                not has(n, ast.Yield) and not n.decorator_list:
            i = n.body[-1]
            n.body[-1:] = [ast.If(neg(i.test), [ast.Return(None)], [])] + i.body
        return n


def is_list(e):
    """surely a list, in Python 2"""
    return isinstance(e, (ast.ListComp, ast.List)) or isinstance(e, ast.Call) and (
        isinstance(e.func, ast.Name) and e.func.id in ("range", "zip", "sorted", "list",
                                                       "filter", "map") or
        isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "values", "items",
                                                              "split", "splitlines"))


def call(f, *args):
    return ast.Call(name(f), list(args), [])


class ForIndex(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if is_list(n.iter):
            v, i = self.fresh("seq"), self.fresh("i")
            t = n.target
            pre = ast.Assign([name(v, 1)], n.iter)
            n.target = name(i, 1)
            n.iter = call("range", call("len", name(v)))
            n.body.insert(0, ast.Assign([t], ast.Subscript(name(v), name(i), ast.Load())))
            return [pre, n]
        return n


class WhileIndex(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if is_list(n.iter) and not n.orelse and not any(
                has(x, ast.Continue) for x in n.body):
            v, i = self.fresh("seq"), self.fresh("i")
            return [ast.Assign([name(v, 1)], n.iter), ast.Assign([name(i, 1)], ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [call("len", name(v))]),
                              [ast.Assign([n.target], ast.Subscript(name(v), name(i),
                                                                    ast.Load()))] + n.body +
                              [ast.AugAssign(name(i, 1), ast.Add(), ast.Constant(1))], [])]
        return n


def simple(e):
    return not has(e, ast.Call, ast.Subscript, ast.Yield, ast.Attribute, ast.BinOp,
                   ast.Compare) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) \
        and e.func.id in ("len",) and isinstance(e.args[0], ast.Name)


def names_in(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


class Reorder(Base):
    """swap adjacent independent assignments of names"""

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.Module, ast.ClassDef)):
            return n
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                i = 0
                while i + 1 < len(b):
                    x, y = b[i], b[i + 1]
                    if all(isinstance(z, ast.Assign) and len(z.targets) == 1 and
                           isinstance(z.targets[0], ast.Name) for z in (x, y)) and \
                            (simple(x.value) or simple(y.value)) and \
                            not (names_in(x.targets[0]) & names_in(y)) and \
                            not (names_in(y.targets[0]) & names_in(x)):
                        b[i], b[i + 1] = y, x
                        i += 1
                    i += 1
        return n


class ReorderFields(Base):
    """swap adjacent assignments of fields of self"""

    def generic_visit(self, n):
        super().generic_visit(n)
        if not isinstance(n, ast.FunctionDef):
            return n
        b = n.body
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(z, ast.Assign) and len(z.targets) == 1 and
                   isinstance(z.targets[0], ast.Attribute) and
                   isinstance(z.value, (ast.Name, ast.Constant, ast.List, ast.Dict))
                   for z in (x, y)) and x.targets[0].attr != y.targets[0].attr:
                b[i], b[i + 1] = y, x
                i += 1
            i += 1
        return n


class SumLoop(Base):
    def visit_Assign(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "sum" and \
                len(c.args) == 1 and isinstance(c.args[0], (ast.ListComp, ast.GeneratorExp)):
            v = self.fresh("total")
            body = [ast.AugAssign(name(v, 1), ast.Add(), c.args[0].elt)]
            for g in reversed(c.args[0].generators):
                for i in reversed(g.ifs):
                    body = [ast.If(i, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            return [ast.Assign([name(v, 1)], ast.Constant(0))] + body + \
                [ast.Assign(n.targets, name(v))]
        return n

    def visit_Return(self, n):
        if n.value is None:
            return n
        v = self.fresh("result")
        r = self.visit_Assign(ast.Assign([name(v, 1)], n.value))
        if isinstance(r, list):
            return r + [ast.Return(name(v))]
        return n


class Chained(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2:
            return ast.BoolOp(ast.And(), [
                ast.Compare(n.left, n.ops[:1], n.comparators[:1]),
                ast.Compare(copy.deepcopy(n.comparators[0]), n.ops[1:], n.comparators[1:])])
        return n


class DeMorgan(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in n.test.values]))
        return n


class TupleTemp(Base):
    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and \
                len(n.targets) == 1:
            vs = [self.fresh("part") for _ in n.value.elts]
            return [ast.Assign([name(v, 1)], e) for v, e in zip(vs, n.value.elts)] + \
                [ast.Assign([t], name(v)) for v, t in zip(vs, n.targets[0].elts)]
        return n


class Percent(Base):
    """"%s x" % a -> str(a) + " x" for strings known to be so: "a" + b -> "%s" """

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add) and (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or
                isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
            if has(n, ast.Mult):
                return n
            return ast.BinOp(ast.Constant("%s%s"), ast.Mod(),
                             ast.Tuple([n.left, n.right], ast.Load()))
        return n


class ExtendLoop(Base):
    """x.extend(y) / x += [..]: element by element"""

    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                c.func.attr == "extend" and len(c.args) == 1 and \
                isinstance(c.args[0], ast.ListComp):
            v = self.fresh("x")
            return ast.For(name(v, 1), c.args[0], [ast.Expr(ast.Call(
                ast.Attribute(c.func.value, "append", ast.Load()), [name(v)], []))], [])
        return n


class WithTry(Base):
    """with open(x) as f: B -> f = open(x); try: B finally: f.close()"""

    def visit_With(self, n):
        self.generic_visit(n)
        i = n.items[0]
        if len(n.items) == 1 and isinstance(i.context_expr, ast.Call) and \
                isinstance(i.context_expr.func, ast.Name) and \
                i.context_expr.func.id == "open" and isinstance(i.optional_vars, ast.Name):
            v = i.optional_vars.id
            return [ast.Assign([name(v, 1)], i.context_expr),
                    ast.Try(n.body, [], [], [ast.Expr(ast.Call(
                        ast.Attribute(name(v), "close", ast.Load()), [], []))])]
        return n


class Generator(Base):
    """list comprehensions consumed at once become generator expressions"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("sum", "any", "all", "max", "min",
                                                          "set", "dict", "sorted", "tuple") \
                and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp):
            n.args[0] = ast.GeneratorExp(n.args[0].elt, n.args[0].generators)
        return n


class MapFilter(Base):
    """[f(x) for x in xs] -> map(f, xs)"""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and isinstance(n.elt, ast.Call) and \
                isinstance(n.elt.func, ast.Name) and len(n.elt.args) == 1 and \
                not n.elt.keywords and isinstance(n.elt.args[0], ast.Name) and \
                isinstance(g.target, ast.Name) and n.elt.args[0].id == g.target.id:
            return call("map", n.elt.func, g.iter)
        return n


class SelfAlias(Base):
    """self.x read more than once before anything is called: no; alias self itself"""

    def visit_FunctionDef(self, n):
        if n.args.args and n.args.args[0].arg == "self" and not n.decorator_list and not any(
                isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not n
                for x in ast.walk(n)) and "super" not in names_in(n):
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and x.id == "self":
                        x.id = "this"
            n.body.insert(0, ast.Assign([name("this", 1)], name("self")))
        return n


class RenameFields(Base):
    """private fields get another name (methods keep theirs)"""
    methods = None

    def visit_Module(self, n):
        if RenameFields.methods is None:
            ms = set()
            for path, t in pickle.load(open("/tmp/dsa-trees.pkl", "rb")).items():
                for x in ast.walk(t):
                    if isinstance(x, ast.FunctionDef):
                        ms.add(x.name)
                    elif isinstance(x, ast.ClassDef):
                        ms |= {t.id for s in x.body if isinstance(s, ast.Assign)
                               for t in s.targets if isinstance(t, ast.Name)}
                    elif isinstance(x, ast.ImportFrom):
                        ms |= {a.name for a in x.names}
                    elif isinstance(x, ast.Attribute) and "thirdparty" in path:
                        ms.add(x.attr)
            RenameFields.methods = ms
        return self.generic_visit(n)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr.startswith("_") and not n.attr.startswith("__") and \
                n.attr not in self.methods and n.attr not in ("_fields", "_setroot"):
            n.attr += "_new"
        return n


class RenameMethods(Base):
    """private methods and functions get another name"""
    methods = None

    def visit_Module(self, n):
        if RenameMethods.methods is None:
            ms = set()
            for path, t in pickle.load(open("/tmp/dsa-trees.pkl", "rb")).items():
                if "thirdparty" in path:
                    continue
                for x in ast.walk(t):
                    if isinstance(x, ast.FunctionDef) and x.name.startswith("_") and \
                            not x.name.startswith("__"):
                        ms.add(x.name)
            RenameMethods.methods = ms
        return self.generic_visit(n)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in self.methods:
            n.attr += "_new"
        return n

    def visit_Name(self, n):
        if n.id in self.methods:
            n.id += "_new"
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in self.methods:
            n.name += "_new"
        return n

    def visit_alias(self, n):
        if n.name in self.methods:
            n.name += "_new"
        return n


class AddFields(Base):
    """methods count their calls in a private field"""
    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and s.args.args \
                    and s.args.args[0].arg == "self" and not s.name.startswith("__get"):
                first = s.body[0]
                at = 1 if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) else 0
                s.body[at:at] = ast.parse("self._last_called = %r" % s.name).body
                ast.copy_location(s.body[at], s)
        return n


class Nothing(Base):
    pass


ALL = {c.__name__: c for c in list(globals().values())
       if isinstance(c, type) and issubclass(c, Base) and c is not Base}


def checks_of(want):
    import json
    m = json.load(open(os.path.join(HERE, "..", "MANIFEST.json")))
    ids = [x["property"] for x in m["checks"]] if "checks" in m else sorted(CHECKS)
    return [i for i in want if i in CHECKS] if want else ids


def run(job):
    tname, pid = job
    out = []

    def go():
        trees = pickle.load(open("/tmp/dsa-trees.pkl", "rb"))
        new = {}
        for path, tree in trees.items():
            if "thirdparty" not in path:
                tree = ALL[tname]().visit(tree)
                ast.fix_missing_locations(tree)
            new[path] = tree
        t = time.time()
        try:
            prog = Program(load.REPO, new)
            ctx = Ctx(pid, prog)
            ctx.tier = "quick"
            CHECKS[pid][2](ctx)
            out.append(([str(f) for f in ctx.findings], ctx.undecided, ctx.obligations,
                        time.time() - t))
        except Exception as e:
            import traceback
            out.append((["BROKEN " + repr(e) + traceback.format_exc()[-800:]], [], 0,
                        time.time() - t))
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return out[0]


def spawn(job):
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "--one"] + list(job),
                       capture_output=True)
    try:
        return job, pickle.loads(r.stdout)
    except Exception:
        return job, (["BROKEN no answer: " + r.stderr.decode()[-500:]], [], 0, 0)


def main():
    args = sys.argv[1:]
    if args[:1] == ["--one"]:
        out, sys.stdout = sys.stdout, sys.stderr
        r = run(args[1:])
        out.buffer.write(pickle.dumps(r))
        out.flush()
        os._exit(0)
    pids = None
    if "-p" in args:
        i = args.index("-p")
        pids = args[i + 1].split(",")
        del args[i:i + 2]
    trees = load.parse_repo(load.REPO)
    pickle.dump(trees, open("/tmp/dsa-trees.pkl", "wb"))
    jobs = [(t, p) for t in (args or ALL) for p in checks_of(pids)]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for (t, p), (finds, und, n, secs) in ex.map(spawn, jobs):
            if finds or und or secs > 60 or "-v" in sys.argv:
                print("%s %s: %d obligations, %d undecided, %.0f s" % (t, p, n, len(und), secs))
            for f in finds:
                bad += 1
                print("   FALSE " + f[:600])
            if "-u" in os.environ.get("F", ""):
                for u in und:
                    print("   und " + u[:200])
            sys.stdout.flush()
    print("%d jobs, %d false alarms" % (len(jobs), bad))


if __name__ == "__main__":
    main()
