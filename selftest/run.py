#!/usr/bin/env python3
"""Run checks against small edits of a scratch copy of the repository.

selftest/*.txt hold edits:

    == <check id> bug|quiet <file>
    <old text>
    --
    <new text>

`bug` edits must make the check report a violation, `quiet` ones must not. Several checks are
separated by commas (each is to report) or bars (at least one is to report).
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SELFTEST_REPO", "/repo")


def load():
    for f in sorted(os.listdir(HERE)):
        if not f.endswith(".txt"):
            continue
        for block in open(os.path.join(HERE, f)).read().split("\n== "):
            block = block.lstrip("= ").rstrip("\n")
            if not block.strip():
                continue
            head, body = block.split("\n", 1)
            pids, kind, path = head.split()
            edits = []
            for b in body.split("\n&&\n"):
                old, _, new = b.partition("\n--\n")
                if b.endswith("\n--"):
                    old, new = b[:-3], ""
                edits.append((old, new))
            for pid in pids.split(","):
                yield f, pid, kind, path, edits


def source(s, qual):
    """text of function `qual` (or `Class.method`), decorators included"""
    lines = s.split("\n")
    lo = 0
    for part in qual.split("."):
        kind = "def" if part == qual.split(".")[-1] else "class"
        i = next(i for i in range(lo, len(lines))
                 if lines[i].lstrip().startswith((kind + " " + part + "(", kind + " " + part + ":",
                                                  kind + " " + part + " (")))
        lo = i + 1
    ind = len(lines[i]) - len(lines[i].lstrip())
    depth, j = 0, i
    while True:         # the header may take several lines
        depth += lines[j].count("(") - lines[j].count(")")
        j += 1
        if depth <= 0 and lines[j - 1].rstrip().split("#")[0].rstrip().endswith(":"):
            break
    while j < len(lines) and (not lines[j].strip() or lines[j].lstrip().startswith("#") or
                              len(lines[j].expandtabs()) - len(lines[j].lstrip()) > ind):
        j += 1
    while not lines[j - 1].strip() or lines[j - 1].startswith("#"):
        j -= 1
    while lines[i - 1].lstrip().startswith("@"):
        i -= 1
    return "\n".join(lines[i:j])


def one(x):
    f, pid, kind, path, edits = x
    d = tempfile.mkdtemp(prefix="dsa-selftest-")
    try:
        for sub in ("lib", "bin"):
            shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub))
        p = os.path.join(d, path)
        s = open(p, encoding="utf-8").read()
        for old, new in edits:
            if old.startswith("@") and "\n" not in old:
                old = source(s, old[1:])
            if s.count(old) < 1:
                return x, "BADEDIT", "text not found: %r" % old
            s = s.replace(old, new, 1)
        open(p, "w", encoding="utf-8").write(s)
        env = dict(os.environ, DSA_REPO=d, DSA_EVIDENCE=os.path.join(d, "ev"))
        out = ""
        for p in pid.split("|"):
            r = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), p],
                               env=env, capture_output=True, text=True, timeout=900)
            out += r.stdout + r.stderr
            if r.returncode:
                break
        if r.returncode == 1:
            res = "bug"
        elif r.returncode == 0:
            res = "quiet"
        else:
            res = "BROKEN"
        lines = [l for l in out.split("\n") if "[" in l or "UNDEC" in l or "BROKEN" in l or "Error" in l]
        return x, res, "\n      ".join(l[:400] for l in lines[:4])
    finally:
        shutil.rmtree(d)


def main():
    want = sys.argv[1:]
    todo = [x for x in load() if not want or x[0] in want or x[1] in want
            or x[0][:-4] in want]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for x, res, msg in ex.map(one, todo):
            good = res == x[2]
            bad += not good
            if not good or "-v" in sys.argv or os.environ.get("V"):
                print("%s %s %s %s -> %s\n      %r\n      %s" % (
                    "ok " if good else "BAD", x[1], x[2], x[3], res, x[4][0][1][:100], msg))
    print("%d edits, %d not as expected" % (len(todo), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
