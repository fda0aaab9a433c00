"""Counters that are only ever added to.

`x[k] += v` on a container that exists outside the function is kept as an
increment: additions commute, so what counts is the total that is added to every
location, whatever the order of the statements, the number of loops they are in
and whether they are first added up in a local variable.
"""
import ast

from .state import Ev, LoopEv
from .terms import T, mk, C, add, isc, leaves, show, subst
from .binders import decide, ite, sum_loop, bind, has, getor


def incs(evs):
    for e in evs:
        if isinstance(e, LoopEv):
            for _, sub in e.alts:
                yield from incs(sub)
        elif e.kind == "inc":
            yield e


def relation(a, b):
    """True: the same location, False: different ones, None: unknown"""
    if a is b:
        return True
    if a.op != b.op:
        return False            # containers reached in different ways
    if a.op == "attr":
        return a.args[1] == b.args[1] and relation(a.args[0], b.args[0])
    if a.op == "sub":
        i, j = a.args[1], b.args[1]
        if i is not j and isc(i) and isc(j):
            return False
        r = relation(a.args[0], b.args[0])
        return r and (True if i is j else None)
    return None


def value(interp, loc, st, plain):
    """what a read of the location gives: its first value and what was added since"""
    tot = plain
    own = [e for e in incs(st.ev) if relation(e.args[0], loc) is not False]
    if not own:
        return plain
    if any(e.args[0] is not loc for e in own):
        return interp.unk(st, "a counter that may be another one")
    for prefix, l, amount in bag(st.ev):
        if l is loc:
            if prefix:
                return interp.unk(st, "counter")
            tot = add(tot, amount)
    return tot


def loop_check(interp, cont, st):
    """a loop whose course depends on a counter that it changes"""
    locs = {e.args[0] for _, x in cont for e in incs(x.ev)}
    if not locs:
        return

    def reads(t):
        return isinstance(t, T) and any(
            relation(y, l) is not False for l in locs for y in leaves(t)
            if y.op == l.op and (y is l or y.args[0].op == l.args[0].op))
    for g, x in cont:
        vals = list(g) + [a for e in x.ev if not isinstance(e, LoopEv)
                          for a in e.args[1 if e.kind == "inc" else 0:]]
        if any(reads(v) for v in vals):
            interp.unk(st, "a loop reads a counter that it changes")
            return


def bag(evs, clean=None):
    """-> [(enclosing loops, location, amount)], one per location"""
    out = {}
    for e in evs:
        if isinstance(e, LoopEv):
            dom, d = e.args
            bv = mk("bv", d)
            subs = []
            for g, x in e.alts:
                s = {}
                for p, l, a in bag(x, clean):
                    s[(p, l)] = a
                if clean:
                    g = clean[1](g)
                    if g is None:
                        continue
                subs.append((dict(g), s))
            if clean:
                dom = clean[0](dom)
            keys = []
            for _, s in subs:
                keys += [k for k in s if k not in keys]
            for p, l in keys:
                alts = [(g, s.get((p, l), C(0))) for g, s in subs]
                if has(l, bv) or any(has(q[0], bv) for q in p):
                    put(out, ((dom, d),) + p, l, decide(alts))
                else:
                    put(out, p, l, sum_loop(dom, d, alts))
        elif e.kind == "inc":
            l, a = e.args
            put(out, (), *(clean[0](l), clean[0](a)) if clean else (l, a))
    return [(p, l, a) for (p, l), a in out.items() if a is not C(0)]


def others(evs):
    return tuple(e for e in evs if e.kind != "inc")


def either(fact, v, a, b):
    """the events of two states that differ in one fact and in their increments"""
    ms = []
    for evs in (a, b):
        m = {}
        for e in evs:
            if e.kind == "inc":
                l, x = e.args
                m[l] = (add(m[l][0], x) if l in m else x, e.loc)
        ms.append(m)
    out = []
    for l in list(ms[0]) + [l for l in ms[1] if l not in ms[0]]:
        x, y = (m[l][0] if l in m else C(0) for m in ms)
        out.append(Ev("inc", (l, ite(fact, x, y) if v else ite(fact, y, x)),
                      (ms[0].get(l) or ms[1].get(l))[1]))
    return others(a) + tuple(out)


def put(out, p, l, a):
    k = (p, l)
    out[k] = add(out[k], a) if k in out else a


def term(evs, clean):
    """the bag as a term in normal form"""
    ts = []
    for p, l, a in bag(evs, clean):
        t = mk("inc", l, a)
        for dom, d in reversed(p):
            t = bind("each", dom, d, t)
        ts.append(t)
    return mk("bag", *sorted(ts, key=show))


def amount(interp, b, i, v, st):
    """the amount added if v is what b[i] holds (or 0), plus something"""
    if v.op != "num":
        return None
    x = mk("sub", b, i)
    for cur in (x, getor(b, i, C(0))):
        if relevant(interp, x, st):
            cur = subst(cur, {x: value(interp, x, st, x)})
        rest = add(v, cur, -1)
        if not any(y is x for y in leaves(rest)):
            return rest
    return None


def relevant(interp, loc, st):
    return any(relation(e.args[0], loc) is not False for e in incs(st.ev))


def target(op):
    return isinstance(op, (ast.Add, ast.Sub))
