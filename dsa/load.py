"""Parse the repository's Python 2 sources (through Jython's own parser, the
one that the real build uses) into Python 3 `ast` trees.

Nothing of /repo is imported or run: jydump.py only calls ast.parse.
"""
import ast
import json
import os
import subprocess
import tempfile

REPO = os.environ.get("DSA_REPO", "/repo")
JYTHON = "/opt/jy/bin/jython2"


class Print(ast.stmt):
    _fields = ("dest", "values", "nl")


class Exec(ast.stmt):
    _fields = ("body", "globals", "locals")


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (broken anchor, no parser)"""


def source_files(repo=None):
    repo = repo or REPO
    out = []
    for top in ("lib", "bin"):
        base = os.path.join(repo, top)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".py"):
                    out.append(os.path.join(d, f))
    return out


def dump(files):
    work = tempfile.mkdtemp(prefix="dsa-")
    try:
        lst = os.path.join(work, "names")
        out = os.path.join(work, "out")
        with open(lst, "w") as fh:
            fh.write("\n".join(files))
        env = dict(os.environ)
        env.update(HOME=work, LANG="C.UTF-8", LC_ALL="C.UTF-8",
                   PATH="/opt/jy/bin:/usr/local/sbin:/usr/local/bin:"
                        "/usr/sbin:/usr/bin:/sbin:/bin")
        for k in ("PYTHONPATH", "JYTHONPATH", "JAVA_TOOL_OPTIONS", "CLASSPATH"):
            env.pop(k, None)
        script = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                              "jydump.py")
        r = subprocess.run([JYTHON, script, lst, out], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=300, cwd=work)
        if r.returncode or not os.path.exists(out):
            raise AnalysisError("the Jython parser failed: "
                                + r.stdout.decode("utf-8", "replace")[-2000:])
        with open(out) as fh:
            return [json.loads(l) for l in fh if l.strip()]
    finally:
        for f in os.listdir(work):
            p = os.path.join(work, f)
            if os.path.isfile(p):
                os.unlink(p)
        try:
            os.rmdir(work)
        except OSError:
            pass


_CONSTNAMES = {"None": None, "True": True, "False": False}


class Conv:
    def __init__(self, path):
        self.path = path
        self.n = 0

    def tmp(self):
        self.n += 1
        return ".t%d" % self.n

    def loc(self, node, d):
        node.lineno = d.get("lineno", 0) or 0
        node.col_offset = d.get("col_offset", 0) or 0
        node.end_lineno = node.lineno
        node.end_col_offset = node.col_offset
        return node

    def val(self, d):
        if isinstance(d, dict):
            k = d["_"]
            if k == "$str":
                return d["v"]
            if k == "$int":
                return int(d["v"])
            if k == "$float":
                return float(d["v"])
            if k == "$complex":
                return complex(d["v"].replace(" ", ""))
        return d

    def many(self, xs):
        out = []
        for x in xs or []:
            r = self.node(x)
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def node(self, d):
        if d is None:
            return None
        k = d["_"]
        m = getattr(self, "c_" + k, None)
        if m is not None:
            return m(d)
        cls = getattr(ast, k, None)
        if cls is None:
            raise AnalysisError("unknown syntax node %s in %s" % (k, self.path))
        n = cls()
        for f in cls._fields:
            v = d.get(f)
            if isinstance(v, list):
                setattr(n, f, self.many(v))
            elif isinstance(v, dict):
                if v["_"].startswith("$"):
                    setattr(n, f, self.val(v))
                else:
                    setattr(n, f, self.node(v))
            else:
                setattr(n, f, v)
        return self.loc(n, d)

    def c_Module(self, d):
        return ast.Module(body=self.many(d["body"]), type_ignores=[])

    def c_Name(self, d):
        s = self.val(d["id"])
        if s in _CONSTNAMES and d["ctx"]["_"] == "Load":
            return self.loc(ast.Constant(value=_CONSTNAMES[s]), d)
        ctx = {"Load": ast.Load, "Del": ast.Del}.get(d["ctx"]["_"], ast.Store)()
        return self.loc(ast.Name(id=s, ctx=ctx), d)

    def c_Str(self, d):
        return self.loc(ast.Constant(value=self.val(d["s"])), d)

    def c_Num(self, d):
        return self.loc(ast.Constant(value=self.val(d["n"])), d)

    def c_Repr(self, d):
        return self.loc(ast.Call(func=self.loc(ast.Name(id="repr", ctx=ast.Load()), d),
                                 args=[self.node(d["value"])], keywords=[]), d)

    def c_Index(self, d):
        return self.node(d["value"])

    def c_ExtSlice(self, d):
        return self.loc(ast.Tuple(elts=self.many(d["dims"]), ctx=ast.Load()), d)

    def c_AugStore(self, d):
        return ast.Store()

    def c_Param(self, d):
        return ast.Store()

    def c_Print(self, d):
        n = Print()
        n.dest = self.node(d["dest"])
        n.values = self.many(d["values"])
        n.nl = d["nl"]
        return self.loc(n, d)

    def c_Exec(self, d):
        n = Exec()
        n.body = self.node(d["body"])
        n.globals = self.node(d.get("globals"))
        n.locals = self.node(d.get("locals"))
        return self.loc(n, d)

    def c_Raise(self, d):
        t, i = self.node(d.get("type")), self.node(d.get("inst"))
        if t is not None and i is not None:
            t = self.loc(ast.Call(func=t, args=[i], keywords=[]), d)
        return self.loc(ast.Raise(exc=t, cause=None), d)

    def c_TryExcept(self, d):
        return self.loc(ast.Try(body=self.many(d["body"]),
                                handlers=self.many(d["handlers"]),
                                orelse=self.many(d["orelse"]),
                                finalbody=[]), d)

    def c_TryFinally(self, d):
        body = self.many(d["body"])
        if len(body) == 1 and isinstance(body[0], ast.Try) and not body[0].finalbody \
                and body[0].lineno == d.get("lineno"):
            body[0].finalbody = self.many(d["finalbody"])
            return body[0]
        return self.loc(ast.Try(body=body, handlers=[], orelse=[],
                                finalbody=self.many(d["finalbody"])), d)

    def c_ExceptHandler(self, d):
        name = None
        if d.get("name") is not None:
            nm = d["name"]
            if nm["_"] == "Name":
                name = self.val(nm["id"])
            elif nm["_"] == "$str":
                name = self.val(nm)
        return self.loc(ast.ExceptHandler(type=self.node(d.get("type")), name=name,
                                          body=self.many(d["body"])), d)

    def c_With(self, d):
        if d.get("items"):
            items = [ast.withitem(context_expr=self.node(i["context_expr"]),
                                  optional_vars=self.node(i.get("optional_vars")))
                     for i in d["items"]]
        else:
            items = [ast.withitem(context_expr=self.node(d["context_expr"]),
                                  optional_vars=self.node(d.get("optional_vars")))]
        return self.loc(ast.With(items=items, body=self.many(d["body"])), d)

    def args(self, d):
        pre = []
        names = []
        for a in d["args"]:
            if a["_"] == "Name":
                names.append((self.val(a["id"]), a))
            else:
                t = self.tmp()
                names.append((t, a))
                tgt = self.node(a)
                fix_store(tgt)
                pre.append(self.loc(ast.Assign(
                    targets=[tgt],
                    value=self.loc(ast.Name(id=t, ctx=ast.Load()), a)), a))
        va, kw = self.val(d.get("vararg")), self.val(d.get("kwarg"))
        if isinstance(va, dict):
            va = self.val(va["id"])
        if isinstance(kw, dict):
            kw = self.val(kw["id"])
        return ast.arguments(
            posonlyargs=[],
            args=[self.loc(ast.arg(arg=n, annotation=None), a) for n, a in names],
            vararg=ast.arg(arg=va, annotation=None) if va else None,
            kwonlyargs=[], kw_defaults=[],
            kwarg=ast.arg(arg=kw, annotation=None) if kw else None,
            defaults=self.many(d["defaults"])), pre

    def c_FunctionDef(self, d):
        a, pre = self.args(d["args"])
        return self.loc(ast.FunctionDef(
            name=self.val(d["name"]), args=a, body=pre + self.many(d["body"]),
            decorator_list=self.many(d["decorator_list"]), returns=None,
            type_params=[]), d)

    def c_Lambda(self, d):
        a, pre = self.args(d["args"])
        n = ast.Lambda(args=a, body=self.node(d["body"]))
        n.pre = pre
        return self.loc(n, d)

    def c_ClassDef(self, d):
        return self.loc(ast.ClassDef(
            name=self.val(d["name"]), bases=self.many(d["bases"]), keywords=[],
            body=self.many(d["body"]),
            decorator_list=self.many(d.get("decorator_list") or []),
            type_params=[]), d)

    def c_Call(self, d):
        args = self.many(d["args"])
        if d.get("starargs"):
            args.append(self.loc(ast.Starred(value=self.node(d["starargs"]),
                                             ctx=ast.Load()), d))
        kws = self.many(d["keywords"])
        if d.get("kwargs"):
            kws.append(ast.keyword(arg=None, value=self.node(d["kwargs"])))
        return self.loc(ast.Call(func=self.node(d["func"]), args=args,
                                 keywords=kws), d)

    def c_keyword(self, d):
        return ast.keyword(arg=self.val(d["arg"]), value=self.node(d["value"]))

    def c_alias(self, d):
        return ast.alias(name=self.val(d["name"]), asname=self.val(d["asname"]))

    def c_ImportFrom(self, d):
        m = self.val(d["module"])
        return self.loc(ast.ImportFrom(module=m, names=self.many(d["names"]),
                                       level=self.val(d["level"]) or 0), d)

    def c_Global(self, d):
        return self.loc(ast.Global(names=[self.val(x) for x in d["names"]]), d)

    def c_comprehension(self, d):
        return ast.comprehension(target=self.node(d["target"]),
                                 iter=self.node(d["iter"]),
                                 ifs=self.many(d["ifs"]), is_async=0)

    def c_Attribute(self, d):
        ctx = {"Load": ast.Load, "Del": ast.Del}.get(d["ctx"]["_"], ast.Store)()
        return self.loc(ast.Attribute(value=self.node(d["value"]),
                                      attr=self.val(d["attr"]), ctx=ctx), d)


def fix_store(n):
    if isinstance(n, ast.Constant):      # None/True/False never appear here
        return
    n.ctx = ast.Store()
    for c in ast.iter_child_nodes(n):
        if isinstance(c, ast.expr):
            fix_store(c)


def parse_repo(repo=None, extra=()):
    """-> {path: ast.Module}; raises AnalysisError when a file does not parse"""
    files = source_files(repo) + list(extra)
    if not files:
        raise AnalysisError("no Python source under %s" % (repo or REPO))
    trees = {}
    for rec in dump(files):
        if "error" in rec:
            raise AnalysisError("%s does not parse: %s" % (rec["file"], rec["error"]))
        trees[rec["file"]] = Conv(rec["file"]).node(rec["tree"])
    return trees
