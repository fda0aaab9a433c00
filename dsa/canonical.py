"""Names of loop variables and loop cells that do not depend on how a term came about.

Substitution can leave a binder higher than what it contains asks for, and the cells of
a loop in an order that was settled before their values were known in full.
"""
from .machine import order
from .terms import T, BINDERS, mk, ratio, rebuild, subst, leaves, tdiv_like, C, add, mul, power

MEMO = {}


def canon(t):
    """t with minimal heights and ordered cells"""
    if not isinstance(t, T) or not t.ht:
        return t
    for _ in range(4):
        r = _canon(t)
        if r is t:
            break
        t = r
    return t


def _canon(t):
    if not t.ht:
        return t
    r = MEMO.get(t)
    if r is not None:
        return r
    if t.op == "num":
        n, d, k = ratio(t)
        r = tdiv_like(_poly(n), _poly(d), k)
    else:
        na = [_canon(a) if isinstance(a, T) else a for a in t.args]
        if any(x is not y for x, y in zip(na, t.args)):
            r = rebuild(t.op, na)
        elif t.op in BINDERS and t.args[1] > low(t.op, t.args):
            r = rebuild(t.op, list(t.args))
        else:
            r = t
        if r.op == "loop":
            r = ordered(r)
    MEMO[t] = r
    return r


def low(op, args):
    n = 3 if op == "loop" else len(args)
    return 1 + max([a.ht for a in args[2:n] if isinstance(a, T)])


def _poly(p):
    tot = C(0)
    for mo, c in p:
        v = C(int(c)) if c.denominator == 1 else C(float(c))
        for t, k in mo:
            v = mul(v, power(_canon(t), k))
        tot = add(tot, v)
    return tot


def ordered(t):
    """the cells of a loop but the first in the order of machine.order"""
    dom, h, tree, inits = t.args
    n = len(inits.args)
    if n < 3:
        return t
    cs = {}
    for x in leaves(tree):
        if x.op == "cellv" and x.args[0] == h:
            cs.setdefault(x.args[1], set()).add(x)
    if any(len(x) > 1 for x in cs.values()):
        return t
    tmp = {i: mk("cellv", -1, i, next(iter(cs[i])).args[2] if i in cs else "?") for i in range(n)}
    vals = []
    st = [tree]
    while st:
        x = st.pop()
        if x.op == "ite":
            st.extend(x.args[1:])
        elif x.op in ("next", "exit"):
            if len(x.args) < n:
                return t
            vals.append(x)
        elif x.op != "undefd":
            return t
    m = {mk("cellv", h, i, c.args[2]): c for i, c in tmp.items()}
    memo = {}
    alts = [{tmp[i]: subst(a, m, memo) for i, a in enumerate(x.args[len(x.args) - n:])}
            for x in sorted(set(vals))]
    S = order({c: (c.args[2], inits.args[i]) for i, c in tmp.items()}, alts, {tmp[0]})
    if [c.args[1] for c in S] == list(range(n)):
        return t
    back = {mk("cellv", h, i, tmp[i].args[2]): mk("cellv", h, j, tmp[i].args[2])
            for j, i in enumerate(c.args[1] for c in S)}

    def turned(x):
        if x.op == "ite":
            return mk("ite", subst(x.args[0], back), turned(x.args[1]), turned(x.args[2]))
        k = len(x.args) - n
        if x.op in ("next", "exit"):
            new = list(x.args[:k]) + [x.args[k + c.args[1]] for c in S]
            return mk(x.op, *[subst(a, back) for a in new])
        return x
    return rebuild("loop", [dom, h, turned(tree), mk("inits", *[inits.args[c.args[1]] for c in S])])
