#!/usr/bin/env python3
"""Mutate one place at a time (in memory) and list the mutants no check reports.

    mutate.py [-n N] [-s SEED] [-f SUBSTRING OF THE FUNCTION] [-j JOBS]

A survivor is not necessarily missed: it may be equivalent, or break nothing that a
property speaks about.  They are read by hand.
"""
import ast
import copy
import os
import pickle
import random
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from refactor import load, Program, Ctx, CHECKS, checks_of     # noqa: E402

TREES = "/tmp/dsa-mut.pkl"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is}
NAMES = {"source": "target", "target": "source", "from": "to", "min": "max", "max": "min",
         "true": "pred", "append": "insert0", "keys": "values", "predecessors": "successors",
         "successors": "predecessors"}


def sites(fn):
    """(description, function that changes the node) for every place of a function"""
    def put(n, **kw):
        def go():
            for k, v in kw.items():
                setattr(n, k, v)
        return go
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            yield "compare", n, put(n, ops=[CMP[type(n.ops[0])]()] + n.ops[1:])
        elif isinstance(n, ast.BoolOp):
            yield "and/or", n, put(n, op=ast.And() if isinstance(n.op, ast.Or) else ast.Or())
            yield "operand dropped", n, put(n, values=n.values[:-1] + [ast.Constant(
                isinstance(n.op, ast.And))])
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield "condition negated", n, put(n, test=ast.UnaryOp(ast.Not(), n.test))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            yield "constant", n, put(n, value=n.value + 1)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield "constant", n, put(n, value=not n.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and \
                len(n.value) < 30:
            yield "string", n, put(n, value=n.value + "x")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield "plus/minus", n, put(n, op=ast.Sub() if isinstance(n.op, ast.Add)
                                       else ast.Add())
        elif isinstance(n, ast.Call) and len(n.args) > 1:
            yield "arguments swapped", n, put(n, args=[n.args[1], n.args[0]] + n.args[2:])
        elif isinstance(n, ast.Call) and n.keywords:
            yield "keyword dropped", n, put(n, keywords=n.keywords[:-1])
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            yield "other attribute", n, put(n, attr=NAMES[n.attr])
        elif isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            yield "other name", n, put(n, id=NAMES[n.id])
        elif isinstance(n, ast.Break):
            yield "break", n, "continue"
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower:
            yield "lower bound", n.slice, put(n.slice, lower=None)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not isinstance(b, list) or isinstance(n, ast.Lambda):
                continue
            for i, s in enumerate(b):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or \
                        isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)) or \
                        type(s).__name__ == "Print":
                    continue

                def drop(b=b, i=i):
                    b[i] = ast.copy_location(ast.Pass(), b[i])
                yield "statement dropped", s, drop
                if isinstance(n, (ast.For, ast.While)) and i == len(b) - 1 and i:
                    def out(b=b, n=n, fn=fn):
                        x = b.pop()
                        for m in ast.walk(fn):
                            for g in ("body", "orelse", "finalbody"):
                                c = getattr(m, g, None)
                                if isinstance(c, list) and n in c:
                                    c.insert(c.index(n) + 1, x)
                                    return
                    yield "moved out of the loop", s, out
                if i + 1 < len(b) and not isinstance(b[i + 1], (ast.Return, ast.Raise)):
                    def swap(b=b, i=i):
                        b[i], b[i + 1] = b[i + 1], b[i]
                    yield "statements swapped", s, swap


def show(n):
    try:
        return ast.unparse(n).split("\n")[0][:110]
    except Exception:
        return type(n).__name__


def functions(trees):
    for path, t in sorted(trees.items()):
        if "thirdparty" in path or "/bin/" in path and False:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.FunctionDef):
                yield path, n


def apply(trees, path, line, nm, k):
    for p, f in functions(trees):
        if p == path and f.lineno == line and f.name == nm:
            d, n, go = list(sites(f))[k]
            text = show(n)
            if go == "continue":
                for m in ast.walk(f):
                    for g in ("body", "orelse"):
                        c = getattr(m, g, None)
                        if isinstance(c, list) and n in c:
                            c[c.index(n)] = ast.copy_location(ast.Pass(), n)
            else:
                go()
            ast.fix_missing_locations(trees[p])
            return d, text, getattr(n, "lineno", 0)


def run(job):
    out = []

    def go():
        hits, und, broken = [], [], []
        for pid in job["pids"]:
            trees = pickle.load(open(TREES, "rb"))
            what = apply(trees, *job["at"])
            try:
                ctx = Ctx(pid, Program(load.REPO, trees))
                ctx.tier = "quick"
                CHECKS[pid][2](ctx)
                if ctx.findings:
                    hits.append(pid)
                if ctx.undecided:
                    und.extend(ctx.undecided)
            except Exception as e:
                broken.append("%s: %r" % (pid, e))
        out.append((what, hits, und, broken))
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return out[0]


def spawn(job):
    try:
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "--one"],
                           input=pickle.dumps(job), capture_output=True, timeout=900)
        if not r.stdout:
            return job, (("?", "", 0), [], [], [r.stderr.decode()[:1500]])
        return job, pickle.loads(r.stdout)
    except Exception as e:
        return job, (("?", "", 0), [], [], [repr(e)])


def main():
    args = sys.argv[1:]
    if args[:1] == ["--one"]:
        job = pickle.loads(sys.stdin.buffer.read())
        out, sys.stdout = sys.stdout, sys.stderr
        r = run(job)
        out.buffer.write(pickle.dumps(r))
        out.flush()
        os._exit(0)
    opt = dict(zip(args[::2], args[1::2]))
    trees = load.parse_repo(load.REPO)
    pickle.dump(trees, open(TREES, "wb"))
    rnd = random.Random(int(opt.get("-s", 1)))
    base = {}
    for p in checks_of(None):
        ctx = Ctx(p, Program(load.REPO, copy.deepcopy(trees)))
        ctx.tier = "quick"
    jobs = []
    for path, f in functions(trees):
        q = path.split("/repo/")[-1] + ":" + f.name
        if opt.get("-f", "") not in q:
            continue
        k = len(list(sites(f)))
        for i in range(k):
            jobs.append({"at": (path, f.lineno, f.name, i), "q": q,
                         "pids": checks_of(opt["-p"].split(",") if "-p" in opt else None)})
    rnd.shuffle(jobs)
    jobs = jobs[:int(opt.get("-n", 100))]
    caught = 0
    with ThreadPoolExecutor(int(opt.get("-j", 7))) as ex:
        for job, (what, hits, und, broken) in ex.map(spawn, jobs):
            caught += bool(hits)
            tag = "caught" if hits else "BROKEN" if broken else "missed"
            u = [x for x in und if "etree.indent" not in x]
            print("%s %s line %s: %s: %s %s %s %s" % (
                tag, job["q"], what[2], what[0], what[1], ",".join(hits),
                ("UND " + u[0][:120]) if u and not hits else "", broken or ""))
            sys.stdout.flush()
    print("%d of %d" % (caught, len(jobs)))


if __name__ == "__main__":
    main()
