"""Differences between loops that are no evidence of a violation.

Two loops may differ where no reachable state tells them apart: a counter that never
is negative, a step that is always one of the listed ones, or entries of a table that
are written in another order.  What the values can be is beyond the normal forms; where
nothing else differs, the obligation stays undecided.
"""
from .binders import UNDEF, ite
from .terms import T, mk, C, isc, isnum, isstr, leaves, subst, ratio, f_or, f_not, teq, PONE


def alike(a, b, same):
    """may a and b be the same, given what is known about the loops in them?"""
    if not any(x.op == "loop" for t in (a, b) for x in leaves(t)):
        return None
    a, b = signs(a), signs(b)
    if same(a, b):
        return "equal for counters and sizes that are not negative"
    pa, pb = listed(a), listed(b)
    if (pa is not a or pb is not b) and (same(pa, b) or same(a, pb) or same(pa, pb)):
        return "equal where the listed alternatives are the only ones"
    sa, sb = statements(pa), statements(pb)
    if sa == sb:
        return "the same steps in another order"
    return None


def signs(t):
    m = {}
    for x in leaves(t):
        if x.op == "pos":
            n, d, _ = ratio(x.args[0])
            if d == PONE and len(n) > 1 and all(c > 0 for _, c in n):
                m[x] = f_or(*[mk("pos", _mono(mo)) for mo, _ in n if mo])
        elif x.op == "truth" and x.args[0].op in ("sub", "cellv"):
            m[x] = mk("pos", x.args[0])
        elif x.op == "eq" and C(0) in x.args:
            y = x.args[0] if x.args[1] is C(0) else x.args[1]
            n, d, _ = ratio(y)
            if y.op in ("sub", "cellv", "after"):
                m[x] = f_not(mk("pos", y))
            elif d == PONE and len(n) > 1 and all(c > 0 and mo for mo, c in n):
                m[x] = f_not(f_or(*[mk("pos", _mono(mo)) for mo, _ in n]))
    return subst(t, m) if m else t


def _mono(mo):
    from .terms import mknum
    return mknum(((mo, 1),), PONE, "i")


def listed(t):
    for _ in range(6):
        m = {}
        for x in leaves(t):
            if x.op == "loop":
                tree = prune(x.args[2], {})
                if tree is not x.args[2] and tree is not UNDEF:
                    m[x] = mk("loop", x.args[0], x.args[1], tree, x.args[3])
        if not m:
            break
        inner = {x: y for x, y in m.items() if not any(
            z in m for z in leaves(x) if z is not x)}
        t = subst(t, inner)
    return t


def prune(tree, failed):
    if tree.op != "ite":
        return UNDEF if any(n > 1 for n in failed.values()) else tree
    a, hi, lo = tree.args
    if a.op == "eq" and any(isstr(x) for x in a.args):
        x = a.args[0] if isstr(a.args[1]) else a.args[1]
        f2 = dict(failed)
        f2[x] = f2.get(x, 0) + 1
        f1 = {k: v for k, v in failed.items() if k is not x}
        h2, l2 = prune(hi, f1), prune(lo, f2)
    else:
        h2, l2 = prune(hi, failed), prune(lo, failed)
    return tree if h2 is hi and l2 is lo else ite(a, h2, l2)


def statements(t):
    """what is done, under which conditions, for which indices"""
    out = set()
    _walk(t, {}, (), out, ())
    return out


def _walk(t, env, conds, out, doms):
    o = t.op
    if o in ("each", "loop"):
        dom, h, tree = t.args[:3]
        d = subst(dom, env)
        out.add((doms, conds, d))
        e2 = dict(env)
        e2[mk("lv", h)] = mk("index", d)
        for x in leaves(tree):
            if x.op == "cellv" and x.args[0] == h:
                e2[x] = mk("cell", x.args[2])
        _walk(tree, e2, conds, out, doms)
        if o == "loop":
            _walk(t.args[3], env, conds, out, doms)
        return
    if o == "ite":
        a = subst(_tables(t.args[0], env, conds, out, doms), env)
        for i, v in ((1, True), (2, False)):
            _walk(t.args[i], env, tuple(sorted(set(conds) | {(a, v)}, key=lambda c: (c[0].d, c[1]))),
                  out, doms)
        return
    if o in ("seq", "list", "upd", "next", "exit", "inits", "setof", "dictv", "setv", "tuple",
             "after"):
        for x in t.args:
            _walk(x, env, conds, out, doms)
        return
    if o in ("splice", "item") and t.args[0].op in ("after", "list", "dictv", "setv"):
        _walk(t.args[0], env, conds, out, doms)
        return
    if o in ("cellv", "dempty"):
        return
    out.add((doms, conds, subst(_tables(t, env, conds, out, doms), env)))


def _tables(t, env, conds, out, doms):
    """t without the loops that made what it looks up"""
    ls = [x for x in leaves(t) if x.op == "after"]
    m = {}
    for x in ls:
        if not any(y is not x and x in leaves(y) for y in ls):
            _walk(x, env, conds, out, doms)
            m[x] = mk("cell", "after")
    return subst(t, m) if m else t


def explain(a, b):
    """the steps of one side only (for debugging)"""
    a, b = statements(listed(signs(a))), statements(listed(signs(b)))
    for w, x in (("-", a - b), ("+", b - a)):
        for doms, conds, t in x:
            print(w, t, "WHEN", ", ".join(("" if v else "not ") + str(c) for c, v in conds))
