"""Agreement of a repository function with a reference definition.

Both are brought to the same normal form (interp.py) over the same symbolic
parameters; every pair of alternatives whose branch facts do not contradict
each other must return the same value (or raise the same class of exception),
leave the same values in the observable cells of the parameters, and produce
the same observable effects.
"""
import ast
import os
import sys

from .model import Func, Cls, ORDERED
from .fields import RETURNS
from .state import (State, Ty, Ev, LoopEv, consistent, entails, zero_formula,
                    assume, truth_atom, lt)
from .terms import (SETS, T, mk, C, NONE, TRUE, FALSE, EMPTY, isc, isnum, isstr, subst, teq, show,
                    leaves, HINTS, f_not, f_and, f_or, ratio, add, neg, PONE, REBUILD, rebuild, upto)
from .interp import Interp, ASSERTED
from .calls import RECURSIVE, in_any_order
from .binders import simplify, TooComplex
from .canonical import canon
from . import diff, doubt, tally, machine

# operators without a canonical form: a difference that involves them on the
# side of the repository only is no evidence of a violation
VAGUE = {"unk", "fold", "choice", "lastof", "carry", "accv", "firstunk", "lastidx",
         "undefd", "deleted", "missing", "kwmerge", "starat", "pydiv", "cyc"}


class Result:
    def __init__(self, status, why="", loc=None):
        self.status = status        # "discharged" | "violated" | "undecided"
        self.why = why
        self.loc = loc


def fact_subst(pc):
    """substitution implied by the path facts"""
    m = {}
    for a, v in pc.items():
        if a.op == "truth" and v is False and a.args[0].op not in ("call", "smeth", "get"):
            x = a.args[0]
            if x.op in SETS and x.op != "setof":
                m[x] = mk("setof", EMPTY)
                x = mk("setv", x)
            m[mk("len", x)] = C(0)
            m[mk("setof", mk("seq", mk("splice", x)))] = mk("setof", EMPTY)
            m[mk("splice", x)] = mk("splice", mk("list"))
        elif a.op == "is" and v and a.args[1] is NONE:
            m[a.args[0]] = NONE
        elif a.op == "eq" and v:
            p, q = a.args
            if isc(p) and not isc(q):
                m[q] = p
            elif isc(q) and not isc(p):
                m[p] = q
            z = p if q is C(0) else q if p is C(0) else None
            if z is not None and z.op == "num":
                x = solve(z)
                if x is not None:
                    m[x[0]] = x[1]
                    m.pop(z, None)
    return m


def solve(z):
    """z == 0 -> (atom, its value) for the largest atom with a unit coefficient"""
    n, d, k = ratio(z)
    best = None
    for mo, c in n:
        if len(mo) == 1 and mo[0][1] == 1 and abs(c) == 1:
            t = mo[0][0]
            if sum(1 for m2, _ in n for x, _ in m2 if x is t) == 1:
                if best is None or t.d > best[0].d:
                    best = (t, c)
    if best is None:
        return None
    t, c = best
    rest = add(z, t, -1) if c > 0 else add(z, t)
    return t, (neg(rest) if c > 0 else rest)


def type_clash(pc, prog, types):
    """x is y, with y of a known class, against what is assumed of the type of x"""
    for a, v in pc.items():
        if a.op == "isinst" and v:
            c = prog.find(a.args[1]) if "." in a.args[1] else None
            if isinstance(c, Cls):
                for b in c.mro:
                    q = b.qual if isinstance(b, Cls) else b
                    if pc.get(mk("isinst", a.args[0], q)) is False:
                        return True
        if a.op == "is" and v:
            for x, y in (a.args, a.args[::-1]):
                ty = types.get(y)
                c = prog.find(ty.name) if ty is not None else None
                if not isinstance(c, Cls):
                    continue
                mro = [b.qual if isinstance(b, Cls) else b for b in c.mro]
                for f, w in pc.items():
                    if f.op == "isinst" and f.args[0] in (x, y) and f.args[1] in mro and not w:
                        return True
    return False


def contradictory(pc):
    m = fact_subst(pc)
    for a, v in pc.items():
        if a.op in ("is",) and a.args[0] in m:
            if a.args[0].op == "ite":
                others = {k: w for k, w in pc.items() if k is not a}
                b = simplify(a, others)
                e = True if b is TRUE else False if b is FALSE else entails(others, b)
                if e is not None and e != v:
                    return True
            continue
        if a.op == "truth" and v and a.args[0].op == "inter" and any(
                refuted(truth_atom(x), pc) for x in a.args[0].args):
            return True
        if a.op == "truth" and a.args[0].op == "sub" and a.args[0].args[1].op == "slice":
            f = truth_atom(bounded(a.args[0], pc))
            if f is not a:
                rest = {k: w for k, w in pc.items() if k is not a}
                f = flat(simplify(f if v else f_not(f), rest))
                if refuted(f, pc) or any(
                        flat(simplify(f_not(k) if w else k, {
                            x: y for x, y in rest.items() if x is not k})) is f
                        for k, w in rest.items() if any(
                            x.op in ("max", "min") for x in leaves(k))):
                    return True
        if a.op == "eq" and (a.args[0] in m or a.args[1] in m):
            continue
        b = a if a.op == "truth" and mk("len", a.args[0]) in m else subst(a, m)
        if any(x.op in ("max", "min", "ite") for x in leaves(b)):
            b = simplify(b, {k: w for k, w in pc.items() if k is not a})
        if b is TRUE and v is False or b is FALSE and v is True:
            return True
        if b is not a:
            x = b.args[0] if b.op == "not" else b
            e = entails({k: w for k, w in pc.items() if k is not a}, x)
            if e is not None:
                if b.op == "not":
                    e = not e
                if e != v:
                    return True
    return False


def bounded(t, pc):
    """a slice whose bounds the facts know not to be negative"""
    x, sl = t.args
    low = [REBUILD["max"](b, C(0)) if b is not NONE and refuted(lt(b, C(0)), pc) else b
           for b in sl.args[:2]]
    return mk("sub", x, mk("slice", *low, sl.args[2]))


def flat(f):
    """conjunctions and disjunctions rather than their negations"""
    if f.op == "not" and f.args[0].op in ("and", "or"):
        return (f_or if f.args[0].op == "and" else f_and)(*[f_not(x) for x in f.args[0].args])
    return f


def refuted(f, pc):
    """do the facts exclude a formula?"""
    if f.op == "not":
        return entails(pc, f.args[0]) is True
    return f is FALSE or entails(pc, f) is False


def missed(pc):
    """do the facts say that the first hit of a search is none?"""
    fs = {x for a in pc for x in leaves(a) if x.op == "first"}
    for f in fs:
        for a in [mk("exists", *f.args)] + [a for a, v in pc.items() if a.op == "exists" and
                                            not v and a.args[0] is f.args[0]]:
            t = simplify(subst(a.args[2], {mk("lv", a.args[1]): f}), pc)
            if t is (TRUE if a in pc and not pc[a] else FALSE):
                return True
    return False


def unzip(t):
    """a zip as the list that it is"""
    zs = [x for x in leaves(t) if x.op == "zip"]
    if not zs:
        return t
    m = {}
    for z in sorted(zs, key=lambda x: x.ht):
        if not z.args or any(a.op == "star" for a in z.args):
            continue
        xs = [subst(a, m) for a in z.args]
        h = 1 + max(a.ht for a in xs)
        n = [rebuild("len", [a]) for a in xs]
        m[z] = mk("list", mk("each", upto(rebuild("min", n) if len(set(n)) > 1 else n[0]), h,
                             mk("seq", mk("item", mk("tuple", *[
                                 rebuild("sub", [a, mk("lv", h)]) for a in xs])))))
    return subst(t, m)


def entry(x, key):
    """entry of a constant table, or None"""
    c = x.args[0]
    if isc(c) and isinstance(c.args[0], tuple):
        c = mk("tuple", *[C(v) for v in c.args[0]])
    if c.op == "tuple":
        n = key.args[0]
        return c.args[n] if isnum(key) and isinstance(n, int) and -len(c.args) <= n < len(c.args) \
            and not any(a.op == "star" for a in c.args) else None
    c = c.args[0] if c.op == "dictv" else c
    if c.op == "upd" and c.args[0].op == "dempty" and all(
            w.op == "kv" and isc(w.args[0]) for w in c.args[1:]):
        for w in c.args[1:]:
            if w.args[0] is key:
                return w.args[1]
    return None


def fixed(a):
    """(term, constant) of an equality"""
    if a.op == "eq":
        for x, y in (a.args, a.args[::-1]):
            if isc(y) and not isc(x):
                return x, y
    return None


def looked_up(t, pc):
    """entries of constant tables whose key is known"""
    tables = [x for x in leaves(t) if x.op == "sub" and x.args[0].op in ("dictv", "tuple", "c") and
              not isc(x.args[1])]
    if not tables:
        return t

    def entries(u, known):
        m = {}
        for x in tables:
            if x.args[1] in known:
                e = entry(x, known[x.args[1]])
                if e is not None:
                    m[x] = e
                    if isstr(e):
                        m[mk("str", x)] = e
        return subst(u, m) if m else u
    known = dict(k for k in (fixed(a) for a, v in pc.items() if v) if k)
    t = entries(t, known)
    keys = {x.args[1] for x in tables}
    for _ in range(3):
        m = {}
        for x in leaves(t):
            if x.op == "ite":
                k = fixed(x.args[0])
                if k and k[0] in keys:
                    a = entries(x.args[1], dict([k]))
                    if a is not x.args[1]:
                        m[x] = rebuild("ite", [x.args[0], a, x.args[2]])
        if not m:
            break
        t = subst(t, m)
    return t


def norm(t, pc, m):
    """normal form of a term under path facts"""
    if not isinstance(t, T):
        return t
    t = simplify(looked_up(unzip(t), pc), pc)
    if m:
        t2 = subst(t, m)
        if t2 is not t:
            t = simplify(t2, pc)
    return canon(t)


def vague(t, ref):
    """ops in t that admit no canonical form and that ref does not have"""
    if not isinstance(t, T):
        return None
    ops = {x.op for x in leaves(t)} & VAGUE
    if "unk" in ops:
        return "unk"
    if isinstance(ref, T):
        ms = {x for x in leaves(t) if x.op == "meth"}
        if ms:
            ms -= set(leaves(ref))
            fs = {x.args[0].split(".")[-1] for x in leaves(ref) if x.op == "fn"}
            if any(x.args[1] in fs for x in ms):
                return "a method of an unknown object"
    if RECURSIVE:
        ops |= {x.args[0] for x in leaves(t) if x.op == "fn"} & RECURSIVE
    if ops:
        rops = {x.op for x in leaves(ref)} if isinstance(ref, T) else set()
        rops |= {x.args[0] for x in leaves(ref) if x.op == "fn"} \
            if RECURSIVE and isinstance(ref, T) else set()
        ops -= rops
    return next(iter(ops)) if ops else None


PLAIN = {"c", "param", "attr", "list", "seq", "item", "inst", "attrs", "kv", "dictv", "upd",
         "dempty", "ext"}
LOOP = "a loop that has no counterpart in the reference"


KWARGS = mk("param", "**kwargs")       # a dictionary of the call itself


def loops_of(ts):
    out = set()
    for t in ts:
        if isinstance(t, T):
            out |= {x for x in leaves(t) if x.op == "loop"}
    return out


def innermost(ls):
    return sorted(x for x in ls
                  if not any(y in ls for a in x.args if isinstance(a, T) for y in leaves(a)))


def loops_differ(xs, ys, matched=None):
    """a loop on one side that no loop of the other side can be compared with

    Loops are compared from the inside out: two loops over the same domain that do
    something else are a difference, not a riddle, and so is what contains them.
    """
    xs, ys = [[t for t in ts if isinstance(t, T)] for ts in (xs, ys)]
    moved = set()
    for _ in range(24):
        a, b = loops_of(xs), loops_of(ys)
        a, b = a - b, b - a
        if not a and not b:
            return None
        p, q = innermost(a), innermost(b)
        m = {}
        for x in p:
            y = [y for y in q if comparable(x, y)]
            if y:
                m[x] = min(y, key=lambda z: (len(set(leaves(x)) ^ set(leaves(z))), z))
        if not m:
            if not a and {x.op for t in xs for x in leaves(t)} <= PLAIN | {
                    x.op for t in ys for x in leaves(t)}:
                return None     # a loop is missing
            if os.environ.get("DSA_LOOP"):
                for x in p:
                    print("LOOP", show(x)[:3000], file=sys.stderr)
                for y in q:
                    print("   ?", show(y)[:3000], file=sys.stderr)
            return LOOP
        starts = {y for x, y in m.items() if x.args[3] is not y.args[3]}
        if any(z in moved for y in starts for z in leaves(y)):
            return LOOP         # what is done before the inner loop may be done elsewhere
        moved |= starts
        if matched is not None:
            matched.append(m)
        xs = [canon(subst(t, m)) for t in xs]
    return LOOP


SLIGHT = 4          # nodes by which loops differ slightly


def comparable(x, y):
    """loops that differ in one component only, or slightly"""
    if len(x.args[3].args) != len(y.args[3].args):
        return False
    n = sum(1 for i in (0, 2, 3) if x.args[i] is not y.args[i])
    if n == 1:
        return True
    # the cells must be the same ones
    cells = x.args[3].args
    return x.args[3] is y.args[3] and len(set(cells)) == len(cells) and \
        x.args[0].op == y.args[0].op and max(diff.remainder(x, y)) <= SLIGHT


def first_diff(a, b, depth=0):
    """smallest differing subterms"""
    if not isinstance(a, T) or not isinstance(b, T) or depth > 12:
        return a, b
    if a.op != b.op or len(a.args) != len(b.args) or a.op in ("num", "c", "eq"):
        return a, b
    ds = [(x, y) for x, y in zip(a.args, b.args)
          if not (teq(x, y) if isinstance(x, T) and isinstance(y, T) else x == y)]
    if len(ds) == 1 and isinstance(ds[0][0], T) and isinstance(ds[0][1], T):
        return first_diff(ds[0][0], ds[0][1], depth + 1)
    return a, b


def observable_cells(o, uid_limit=None):
    """heap cells of values that exist outside the function"""
    cells = {}
    for (b, name), v in o.st.attrs.items():
        if b.op != "obj" and not name.startswith(".") and b not in o.interp.own_cells:
            cells[("attr", b, name)] = o.interp.freeze(v, o.st)
    for b, c in o.st.content.items():
        if b.op not in ("obj", "keys", "values", "items", "sortedof") and b is not KWARGS:
            c = o.interp.freeze_content(c, o.st, (b,))
            cells[("content", b)] = c if o.interp.is_mapping(b, (ORDERED,)) else in_any_order(c)
    return cells


def default_cell(k):
    if k[0] == "attr":
        return mk("attr", k[1], k[2])
    return mk("seq", mk("splice", k[1]))


def text_of(o, kind, args):
    """what an event writes to a stream: (stream, text)"""
    if kind == "write" and len(args) == 2 and isinstance(args[1], T) and args[1].op == "printed":
        parts = []
        for a in args[1].args:
            if parts and not (isstr(parts[-1]) and parts[-1].args[0][-1:].isspace()
                              and parts[-1].args[0][-1:] != " "):
                parts.append(C(" "))
            parts.append(a)
        return args[0], o.interp.concat(parts + [C("\n")])
    if kind == "call" and len(args) == 2 and isinstance(args[0], T):
        f, a = args
        if isinstance(a, T) and a.op != "kw":
            if f.op == "meth" and f.args[1] == "write":
                return f.args[0], o.interp.concat([a])
            if f.op == "ext" and f.args[0] in ("sys.stdout.write", "sys.stderr.write"):
                return mk("ext", f.args[0][:-6]), o.interp.concat([a])
    return None


def freeze_events(o, kinds):
    out = []
    said = "write" in kinds and "call" in kinds

    def fz(e):
        if isinstance(e, LoopEv):
            alts = []
            for g, evs in e.alts:
                sub = once([y for y in (fz(x) for x in evs) if y is not None], o.interp)
                alts.append((tuple(g), tuple(sub)))
            if not any(s for _, s in alts):
                return None
            return LoopEv(e.args[0], e.args[1], alts, e.loc)
        if e.kind == "call" and o.interp.mute and isinstance(e.args[0], T) and \
                e.args[0].op == "ext" and e.args[0].args[0].endswith((".write", ".writelines")) \
                and show(mk("ext", e.args[0].args[0].rsplit(".", 1)[0])) in o.interp.mute:
            e = Ev("write", (mk("ext", e.args[0].args[0].rsplit(".", 1)[0]),), e.loc)
        if e.kind not in ("loop", "cells") and e.kind not in kinds and (e.kind, "*") not in kinds:
            return None
        args = tuple(o.interp.freeze(a, o.st) if isinstance(a, T) else a for a in e.args)
        if e.kind == "write" and show(args[0]) in o.interp.mute:
            args = args[:1]         # that something is said, not what
        if e.kind == "call" and o.interp.only and callee(args[0]) not in o.interp.only:
            return None
        if said or e.kind == "call":
            x = text_of(o, e.kind, args)
            if x is not None and x[1] is C("") or len(args) == 1 and \
                    isinstance(args[0], T) and args[0].op == "meth" and args[0].args[1] == "flush":
                return None
            if x is not None and said:
                return Ev("text", x, e.loc)
        return Ev(e.kind, args, e.loc)
    for e in o.st.ev:
        f = fz(e)
        if f is not None:
            out.append(f)
    return once(out, o.interp)


def once(evs, interp):
    """messages on the same stream count once, texts on the same stream are one text"""
    out = []
    for e in evs:
        if out and not isinstance(e, LoopEv) and not isinstance(out[-1], LoopEv) and \
                e.kind == out[-1].kind == "text" and e.args[0] is out[-1].args[0]:
            out[-1] = Ev("text", (e.args[0], interp.concat([out[-1].args[1], e.args[1]])),
                         out[-1].loc)
            continue
        if not (out and not isinstance(e, LoopEv) and not isinstance(out[-1], LoopEv) and
                e.kind == out[-1].kind == "write" and len(e.args) == 1 and
                e.args == out[-1].args):
            out.append(e)
    return out


def callee(f):
    """bare name of what a call event calls"""
    if not isinstance(f, T):
        return str(f).split(".")[-1]
    if f.op in ("fn", "cls", "ext", "builtin", "bound"):
        return str(f.args[0]).split(".")[-1]
    if f.op in ("attr", "meth", "extm", "extbound"):
        return str(f.args[1])
    return f.op


def evs_term(evs, pc, m):
    """events as a term; loops in which nothing happens are none"""
    none = mk("evs")
    out = [ev_term(e, pc, m) for e in evs]
    return mk("evs", *[t for t in out if t is not none and not (
        t.op == "each" and t.args[2] is none)])


def ev_term(e, pc, m):
    """event as a term, in normal form"""
    if isinstance(e, LoopEv):
        from .binders import decide, bind
        alts = []
        for g, evs in e.alts:
            gg = guards(g, pc, m)
            if gg is not None:
                alts.append((gg, evs_term(evs, pc, m)))
        t = decide(alts)
        return bind("each", norm(e.args[0], pc, m), e.args[1], t)
    return mk("ev", e.kind, *[norm(a, pc, m) if isinstance(a, T) else a for a in e.args])


def path_term(s):
    """'a.b[].c()' -> term"""
    parts = s.replace("[]", ".[]").replace("()", ".()").split(".")
    t = mk("param", parts[0])
    for p in parts[1:]:
        t = mk("attr", t, p)
    return t


def outcomes(prog, fn, args, opts, spec=False):
    it = Interp(prog, types=opts.get("fields"), opaque=opts.get("opaque", ()),
                watch=opts.get("watch", ()), hooks=opts.get("hooks"),
                max_steps=opts.get("max_steps", 60000),
                pure_calls=opts.get("pure", ()))
    it.kinds = set(opts.get("events", ()))
    it.rettypes = dict(RETURNS, **opts.get("rettypes", {}))
    it.never_big = frozenset([fn.qual])
    it.opened = opts.get("opened", ())
    it.dests = opts.get("dests")
    it.own_cells = opts.get("own_cells", ())
    it.tally = opts.get("tally", False)
    it.mute = opts.get("mute", ())
    it.only = opts.get("only", ())
    for t, ty in opts.get("ptypes", {}).items():
        it.types[t] = ty
    a = fn.node.args
    env = {}
    names = [p.arg for p in a.args]
    nd = len(a.defaults)
    for i, nm in enumerate(names):
        if i < len(args):
            env[nm] = args[i]
        elif i >= len(names) - nd:
            env[nm] = it.default(fn, nm, a.defaults[i - (len(names) - nd)])
        else:
            env[nm] = mk("param", nm)
    if a.vararg:
        env[a.vararg.arg] = opts.get("vararg") or mk("param", "*args")
        it.types.setdefault(env[a.vararg.arg], Ty("tuple"))
    if a.kwarg:
        env[a.kwarg.arg] = opts.get("kwarg") or mk("param", "**kwargs")
        it.types.setdefault(env[a.kwarg.arg], Ty("dict"))
    st = State()
    for f, v in opts.get("assume", ()):
        st.pc[f] = v
    for path, v in opts.get("let", {}).items():
        t = path_term(path)
        if t.op != "param":
            st.attrs[(t.args[0], t.args[1])] = C(v)
    outs = it.run(fn, env, st=st)
    for o in outs:
        o.interp = it
    return it, outs


Outcome = None


def compare(prog, fn, spec, args, opts):
    """-> (list of Result, stats dict)"""
    res, stats = compare1(prog, fn, spec, args, opts)
    if any(r.why.endswith(LOOP) for r in res) and all(r.status != "violated" for r in res) and \
            machine.ELIMINATED[0]:
        # loops as they are written, with the variables that only count the iterations
        machine.ELIMINATE[0] = False
        try:
            res2, stats2 = compare1(prog, fn, spec, args, opts)
        finally:
            machine.ELIMINATE[0] = True
        if any(r.status == "violated" for r in res2):
            res, stats = res2, stats2
    if any(r.status == "violated" for r in res) and stats.get("only"):
        # what only one of the two calls is looked into on both sides
        res2, stats2 = compare1(prog, fn, spec, args, dict(opts, opened=stats["only"]))
        if stats2["pairs"] and not any(r.status == "violated" for r in res2):
            return res2, stats2
    return res, stats


def used(outs):
    """names of the functions and classes that alternatives mention"""
    ts = set()

    def take(e):
        if isinstance(e, LoopEv):
            for g, evs in e.alts:
                for x in evs:
                    take(x)
        for a in e.args:
            if isinstance(a, T):
                ts.add(a)
    for o in outs:
        for e in o.st.ev:
            take(e)
        if isinstance(o.val, T):
            ts.add(o.interp.freeze(o.val, o.st))
        for v in observable_cells(o).values():
            ts.add(v)
    return {x.args[0] for t in ts for x in leaves(t) if x.op == "fn"}


def compare1(prog, fn, spec, args, opts):
    machine.ELIMINATED[0] = False
    try:
        ri, ro = outcomes(prog, fn, args, opts)
        si, so = outcomes(prog, spec, args, opts, spec=True)
    except TooComplex as e:
        return [Result("undecided", "too complex: %s" % e)], {"pairs": 0}
    for o in so:
        if o.st.und:
            raise AssertionError("reference %s not understood: %s" % (spec.qual, o.st.und))
    res = []
    npairs = 0
    kinds = set(opts.get("events", ()))
    opts = dict(opts, asserts=any(
        o.kind == "raise" and o.val.args[0] == "AssertionError" and ASSERTED not in o.val.args
        for o in so))
    for o in ro + so:
        o.st.pc = {canon(f): v for f, v in o.st.pc.items()}
    for r in ro:
        for s in so:
            if not consistent(r.st.pc, s.st.pc):
                continue
            pc = dict(s.st.pc)
            pc.update(r.st.pc)
            if any(pc.get(f, u) == u and pc.get(g, v) != v and f in pc or
                   pc.get(f, not u) != u and pc.get(g, not v) == v and f in pc
                   for (f, u), (g, v) in opts.get("iff", ())):
                continue        # facts that come together
            if contradictory(pc) or missed(pc) or type_clash(pc, prog, opts.get("ptypes", {})):
                continue
            npairs += 1
            x = pair(r, s, pc, kinds, opts)
            if x is not None:
                res.append(x)
    return res, {"pairs": npairs, "impl_alternatives": len(ro),
                 "ref_alternatives": len(so), "reasons": ri.reasons[:5],
                 "functions": sorted(ri.analysed),
                 "only": used(ro) ^ used(so) if any(r.status == "violated" for r in res) else ()}


def spread(r, s, a, b):
    """why the disagreement of two alternatives is no evidence, or None"""
    ra = [f if v else mk("not", f) for f, v in r.st.pc.items() if s.st.pc.get(f) != v]
    sa = [f if v else mk("not", f) for f, v in s.st.pc.items() if r.st.pc.get(f) != v]
    ra = [f for f in ra if not _implied(f, s.st.pc)]
    sa = [f for f in sa if not _implied(f, r.st.pc)]
    ra, sa = [[f for f in x if diff.intricate(f)] for x in (ra, sa)]
    ps = (diff.sets(ra, sa), diff.remainder(a, b))
    if os.environ.get("DSA_SPREAD"):
        print("SPREAD - %s %s" % ps, *["\n    %s: %s" % (w, show(f)) for w, x in (("code", ra), ("ref", sa)) for f in x], file=sys.stderr)
    for p, limit in zip(ps, diff.LIMITS):
        if min(p) > limit:
            return "no counterpart in the reference"
    return None


def _implied(f, pc):
    v = f.op != "not"
    return entails(pc, f if v else f.args[0]) == v


def under(pc):
    return " when " + " and ".join(
        ("" if v else "not ") + show(a) for a, v in pc.items()) if pc else ""


def short(t, n=int(__import__("os").environ.get("DSA_WIDTH", "220"))):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + "..."


def as_bool(v, pc):
    """a result of which only the truth counts"""
    f = truth_atom(v)
    if f is TRUE or f is FALSE:
        return f
    x = f.args[0] if f.op == "not" else f
    e = entails(pc, x)
    if e is None:
        return f
    return TRUE if e == (f.op != "not") else FALSE


def same(a, b, pc, left):
    """do the decisions in two terms always lead to the same?"""
    if teq(a, b):
        return True
    left[0] -= 1
    if left[0] < 0:
        return False
    if a.op == "ite" or b.op == "ite":
        t = a if a.op == "ite" and (b.op != "ite" or a.args[0] < b.args[0]) else b
        f = t.args[0]
        for v in (True, False):
            e = entails(pc, f)
            if e is not None and e != v:
                continue
            p = dict(pc)
            p[f] = v
            if any(entails({k: w for k, w in p.items() if k is not x}, x) == (not y)
                   for x, y in p.items()):
                continue
            i = 1 if v else 2
            if not same(a.args[i] if a.op == "ite" and a.args[0] is f else a,
                        b.args[i] if b.op == "ite" and b.args[0] is f else b, p, left):
                return False
        return True
    if (a.op in ("num", "sum") and b.op in ("num", "sum")) and a is not b:
        d = sums(add(a, b, -1))
        if d is not None:
            return cancel(d, pc, left)
    if a.op != b.op or len(a.args) != len(b.args) or a.op in ("c", "ext", "fn", "cls"):
        return False
    if a.op == "num":
        x = [t for t in atoms(a) if t not in atoms(b)]
        y = [t for t in atoms(b) if t not in atoms(a)]
        if len(x) == len(y) == 1 and same(x[0], y[0], pc, left) and \
                teq(subst(a, {x[0]: y[0]}), b):
            return True
    return all(same(x, y, pc, left) if isinstance(x, T) and isinstance(y, T) else x == y
               for x, y in zip(a.args, b.args))


def sums(t):
    """[(coefficient, tree)] of a linear combination of sums over one domain, or None"""
    n, d, _ = ratio(t)
    if d != PONE:
        return None
    out = []
    for mo, c in n:
        if len(mo) != 1 or mo[0][1] != 1 or mo[0][0].op != "sum":
            return None
        out.append((c, mo[0][0]))
    if len({x.args[0] for _, x in out}) != 1:
        return None
    h = max(x.args[1] for _, x in out)
    lv = mk("lv", h)
    return [(c, x.args[2] if x.args[1] == h else subst(x.args[2], {mk("lv", x.args[1]): lv}))
            for c, x in out]


def cancel(cts, pc, left):
    """is the sum of coefficient * tree 0 on every path?"""
    left[0] -= 1
    if left[0] < 0:
        return False
    fs = [t.args[0] for _, t in cts if t.op == "ite"]
    if not fs:
        r = C(0)
        for c, t in cts:
            r = add(r, t, c)
        return r is C(0)
    f = min(fs)
    for v in (True, False):
        e = entails(pc, f)
        if e is not None and e != v:
            continue
        p = dict(pc)
        p[f] = v
        if any(entails({k: w for k, w in p.items() if k is not x}, x) == (not y)
               for x, y in p.items()):
            continue
        if not cancel([(c, t.args[1 if v else 2] if t.op == "ite" and t.args[0] is f else t)
                       for c, t in cts], p, left):
            return False
    return True


def atoms(t):
    n, d, _ = ratio(t)
    return [x for p in (n, d) for m, _ in p for x, _ in m]


def lengths(a, b):
    """both terms, with lists that are gone through in parallel taken to be equally long"""
    cls = {}
    for t in leaves(a) | leaves(b):
        if t.op == "upto" and t.args[0].op == "min":
            g = set(t.args[0].args)
            for x in t.args[0].args:
                g |= cls.get(x, set())
            for x in g:
                cls[x] = g
    if not cls:
        return NONE, TRUE
    z = {}
    for t in leaves(a) | leaves(b):
        if t.op == "upto":
            x = t.args[0].args[0] if t.args[0].op == "min" else t.args[0]
            if x in cls:
                z[t] = mk("upto", min(cls[x]))
    return subst(a, z), subst(b, z)


def frozen(e, o):
    if isinstance(e, LoopEv):
        return LoopEv(e.args[0], e.args[1], [(g, [frozen(x, o) for x in evs])
                                             for g, evs in e.alts], e.loc)
    return Ev(e.kind, tuple(o.interp.freeze(a, o.st) if isinstance(a, T) else a
                            for a in e.args), e.loc)


def cleaner(pc, m):
    """(normal form of a term, what is left of the guards of an alternative)"""
    return (lambda t: norm(t, pc, m)), (lambda g: guards(g, pc, m))


def guards(g, pc, m):
    gg = {}
    for a, v in g:
        a2 = norm(a, pc, m)
        if a2 is TRUE or a2 is FALSE:
            if (a2 is TRUE) != v:
                return None
            continue
        if a2.op == "not":
            a2, v = a2.args[0], not v
        en = entails(pc, a2)
        if en is not None:
            if en != v:
                return None
            continue
        gg[a2] = v
    return gg


def pair(r, s, pc, kinds, opts):
    m = fact_subst(pc)
    und = r.st.und[0] if r.st.und else None
    said = opts.get("asserts") and not any(ASSERTED in o.val.args for o in (r, s)
                                           if o.kind == "raise")
    if not said and any(o.kind == "raise" and o.val.args[0] == "AssertionError"
                        for o in (r, s)):
        return None          # assertions state what callers have to provide
    if r.kind != s.kind:
        und = und or loops_differ(r.st.pc, s.st.pc)
        if und or any(a.unk for a in r.st.pc):
            return Result("undecided", und or "unknown branch")
        if s.kind == "raise" and s.val.args[0] in ("AnyError",) and r.kind == "raise":
            return None
        und = spread(r, s, NONE, NONE)
        if und:
            return Result("undecided", und)
        w = "raises %s" % r.val.args[0] if r.kind == "raise" else "returns %s" % short(
            r.interp.freeze(r.val, r.st))
        e = "%s is expected" % s.val.args[0] if s.kind == "raise" else "%s is expected" % short(
            s.interp.freeze(s.val, s.st))
        return Result("violated", "%s where %s%s" % (w, e, under(pc)), r.loc)
    if r.kind == "raise":
        want = s.val.args[0].split(".")[-1]
        got = r.val.args[0]
        if want in ("AnyError",) or want in [x.split(".")[-1] for x in r.interp.exc_bases(got)]:
            pass
        elif got == "?":
            return Result("undecided", "unknown exception")
        else:
            return Result("violated", "raises %s where %s is expected%s" % (
                got, want, under(pc)), r.loc)
        if not opts.get("raise_cells"):
            return None
    checks = []
    if r.kind == "return" and opts.get("value", True):
        checks.append(("result", r.interp.freeze(r.val, r.st), s.interp.freeze(s.val, s.st)))
        checks = [("result",) + tuple(x.args[0] if x.op == "iter" and x.args[0].op == "list"
                                      else x for x in checks[0][1:])]     # a generator
        if opts.get("as_bool"):
            checks = [("result",) + tuple(as_bool(x, pc) for x in checks[0][1:])]
    if opts.get("cells", True):
        rc = observable_cells(r)
        sc = observable_cells(s)
        for k in sorted(set(rc) | set(sc), key=str):
            if k[0] == "attr" and k[2] in opts.get("ignore", ()):
                continue
            checks.append(("%s of %s" % (k[2] if k[0] == "attr" else "contents", show(k[1])),
                           rc.get(k, default_cell(k)), sc.get(k, default_cell(k))))
    if kinds or any(isinstance(e, LoopEv) or e.kind in ("loop", "cells")
                    for o in (r, s) for e in o.st.ev):
        re_ = evs_term(freeze_events(r, kinds), pc, m)
        se = evs_term(freeze_events(s, kinds), pc, m)
        checks.append(("effects", re_, se))
    if opts.get("tally"):
        clean = cleaner(pc, m)
        fz = [[frozen(e, o) for e in o.st.ev] for o in (r, s)]
        checks.append(("counts",) + tuple(tally.term(x, clean) for x in fz))
    worst = None
    for what, a, b in checks:
        a, b = norm(a, pc, m), norm(b, pc, m)
        if same(a, b, {}, [4000]):
            continue
        if same(*lengths(a, b), {}, [4000]):
            worst = worst or Result("undecided", "lists of equal length, or not", r.loc)
            continue
        v = doubt.alike(a, b, lambda x, y: same(x, y, {}, [4000]))
        if v:
            worst = worst or Result("undecided", v, r.loc)
            continue
        matched = []
        v = vague(a, b) or loops_differ([a] + list(r.st.pc), [b] + list(s.st.pc), matched)
        if v or und:
            worst = worst or Result("undecided", und or "%s involves %s" % (what, v), r.loc)
            continue
        if os.environ.get("DSA_DIFF"):
            for x, y in diff.parts(a, b, [], set())[:6]:
                print("DIFF\n   ", x, "\n   ", y)
            if os.environ["DSA_DIFF"] == "2":
                doubt.explain(a, b)
        x, y = first_diff(a, b)
        und = spread(r, s, a, b)
        if und and matched:
            # what differs is in loops that occur more than once
            a2 = a
            for z in matched:
                a2 = canon(subst(a2, z))
            if not any(min(diff.remainder(p, q)) > diff.LIMITS[1]
                       for z in matched for p, q in z.items()):
                und = spread(r, s, a2, b)
        if und:
            worst = worst or Result("undecided", und, r.loc)
            continue
        return Result("violated", "%s is %s where %s is expected%s" % (
            what, short(x), short(y), under(pc)), r.loc)
    return worst
