"""Bound iteration variables: decision trees, sums, searches, mapped lists.

A binder is (op, domain, height, tree, ...): `lv(height)` is the bound index,
`upto(n)` the domain 0..n-1.  Heights are counted from inside out, so a closed
term looks the same wherever it was built.
"""
from .terms import (setof, SETS, upto, T, mk, C, NONE, TRUE, FALSE, EMPTY, isc, isnum, eq, f_not,
                    subst, ratio, mknum, leaves, add, mul, kind, REBUILD, PONE, _pnorm)
from .state import (rebind, State, entails, consistent, truth_atom, zero_formula, assume, nonneg, part,
                    never_none)

UNDEF = mk("undefd")


class TooComplex(Exception):
    """the analysis gives up on this function (never a verdict)"""


_budget = [0]


def decide(alts):
    """alternatives [(facts dict, value)] -> decision tree over the facts"""
    alts = [(g2, v) for g2, v in ((at_first(g), v) for g, v in alts) if g2 is not None]
    if len(alts) > 600:
        raise TooComplex("decision over %d alternatives" % len(alts))
    _budget[0] = 3000
    return _tree({}, alts, 0)


def _tree(pc, alts, depth):
    _budget[0] -= 1
    if _budget[0] < 0:
        raise TooComplex("decision tree")
    live = [(g, v) for g, v in alts if consistent(pc, g)]
    if not live:
        return UNDEF
    vals = {v for _, v in live}
    if len(vals) == 1:
        return live[0][1]
    atoms = set()
    for g, _ in live:
        for a in g:
            if a not in pc and entails(pc, a) is None:
                atoms.add(a)
    if not atoms or depth > 24:
        return mk("choice", *sorted(vals))
    a = min(atoms, key=_rank)       # whether there is one comes before what it is like
    p1 = dict(pc)
    p1[a] = True
    p2 = dict(pc)
    p2[a] = False
    hi = _tree(p1, live, depth + 1)
    lo = _tree(p2, live, depth + 1)
    return ite(a, hi, lo)


def _rank(a):
    return a.fst, a.d


def ite(a, hi, lo):
    if hi is lo or lo is UNDEF:
        return hi
    if hi is UNDEF:
        return lo
    if a.op == "pos" and _numeric(hi) and _numeric(lo):
        m = _minmax(a.args[0], hi, lo)
        if m is not None:
            return m
    if a.op == "lt":
        if lo.op == "ite" and under_fact(lo, a, True) is hi:
            return lo
        if hi.op == "ite" and under_fact(hi, a, False) is lo:
            return hi
    t = mk("ite", a, hi, lo)
    if hi.op == "ite" and _rank(hi.args[0]) < _rank(a) or \
            lo.op == "ite" and _rank(lo.args[0]) < _rank(a):
        return reorder(t)
    return t


def under_fact(t, a, v):
    """a decision tree where one fact is known"""
    if t.op != "ite":
        return t
    e = entails({a: v}, t.args[0])
    if e is not None:
        return under_fact(t.args[1] if e else t.args[2], a, v)
    hi, lo = under_fact(t.args[1], a, v), under_fact(t.args[2], a, v)
    if hi is t.args[1] and lo is t.args[2]:
        return t
    return hi if hi is lo else mk("ite", t.args[0], hi, lo)


_reordered = {}


def reorder(t):
    """a decision tree with its conditions in canonical order"""
    r = _reordered.get(t)
    if r is None:
        keep = _budget[0]
        try:
            ps = paths(t)
            r = decide(ps) if len(ps) <= 40 else t
        except TooComplex:
            r = t
        _budget[0] = keep
        _reordered[t] = _reordered[r] = r
    return r


def _numeric(t):
    return isnum(t) or kind(t) in ("i", "f", "n")


def _minmax(d, hi, lo):
    """d > 0 ? hi : lo as a minimum or maximum"""
    diff = add(hi, lo, -1)
    i = kind(d) == "i"
    one = add(d, C(1), -1)
    for e, op in ((diff, "max"), (add(lo, hi, -1), "min")):
        if e is d or i and e is one:
            return mk(op, *sorted((hi, lo)))
    return None


def rebuild_ite(a, hi, lo):
    # the atom may have become a formula after substitution
    if a is TRUE:
        return hi
    if a is FALSE:
        return lo
    if a.op == "not":
        return rebuild_ite(a.args[0], lo, hi)
    if a.op == "and":
        r = hi
        for x in reversed(a.args):
            r = rebuild_ite(x, r, lo)
        return r
    if a.op == "or":
        r = lo
        for x in reversed(a.args):
            r = rebuild_ite(x, hi, r)
        return r
    return ite(a, hi, lo)


REBUILD["ite"] = rebuild_ite


def renorm(op):
    """rebuild atoms whose arguments changed"""
    def f(*args):
        if op == "truth":
            return truth_atom(args[0])
        if op == "is":
            a, b = args
            if a is b:
                return TRUE
            if b is NONE and never_none(a):
                return FALSE
            return mk("is", a, b)
        if op == "pos":
            from .state import lt
            x = args[0]
            from .terms import f_and, f_or
            if x.op in ("min", "max") and len(x.args) > 1:
                return (f_and if x.op == "min" else f_or)(*[lt(C(0), y) for y in x.args])
            return lt(C(0), x)
        if op == "lt":
            from .state import lt
            return lt(*args)
        if op == "not":
            return f_not(args[0])
        return mk(op, *args)
    return f


for _op in ("truth", "is", "pos", "lt", "not"):
    REBUILD[_op] = renorm(_op)


def _sub(b, i):
    if b.op == "sortedof" and len(b.args) == 1 and isnum(i) and i.args[0] in (0, -1):
        # the first and the last of a sorted list
        x = b.args[0]
        return mk("max" if i.args[0] else "min", x if x.op == "list" else
                  mk("list", mk("splice", x)))
    if b.op in ("sub", "nxdata"):
        r = nx_sub(b, i)
        if r is not None:
            return r
    if i.op == "lv" and b.op == "sub" and b.args[1].op == "slice":
        p = part(b)
        if p is not None:
            return _sub(p[0], add(p[1], i))
    if b.op == "tuple" and isnum(i) and isinstance(i.args[0], int) \
            and -len(b.args) <= i.args[0] < len(b.args):
        return b.args[i.args[0]]
    if b.op in ("list", "seq") and len(b.args) == 1 and b.args[0].op == "splice" and \
            i.op != "slice":
        return _sub(b.args[0].args[0], i)
    if b.op == "list" and len(b.args) == 1 and b.args[0].op == "each" and i.op != "slice" \
            and not (isnum(i) and i.args[0] < 0):
        dom, h, body = b.args[0].args
        if body.op == "seq" and len(body.args) == 1 and body.args[0].op == "item":
            return subst(body.args[0].args[0], {mk("lv", h): i})
    if b.op == "list" and len(b.args) == 1 and b.args[0].op == "each" and i is C(0):
        r = first_item(b.args[0])
        if r is not None:
            return r
    return mk("sub", b, i)


def first_item(each):
    """first item of a filtered list"""
    dom, h, tree = each.args
    ls = [v for _, v in paths(tree)]
    if any(v.op != "seq" or len(v.args) > 1 or v.args and v.args[0].op != "item" for v in ls):
        return None
    cond = map_tree(tree, lambda v: TRUE if v.args else FALSE)
    if cond is FALSE or cond is TRUE:
        return None
    val = map_tree(tree, lambda v: v.args[0].args[0] if v.args else UNDEF)
    h2 = 1 + cond.ht
    f = mk("first", dom, h2, subst(cond, {mk("lv", h): mk("lv", h2)}))
    return subst(val, {mk("lv", h): f})


def at_first(g):
    """facts without those that hold at the first hit of a search anyway; None if they
    contradict the search"""
    out = None
    for a, v in list(g.items()):
        if not any(x.op == "first" for x in leaves(a)):
            continue
        for f in [x for x in leaves(a) if x.op == "first"]:
            w = hit(f).get(a)
            if w is None:
                continue
            if w != v:
                return None
            out = dict(g) if out is None else out
            out.pop(a, None)
    return g if out is None else out


_hits = {}


def hit(f):
    """facts that hold at the first hit of a search"""
    r = _hits.get(f)
    if r is None:
        r = _hits[f] = {}
        t = f.args[2]
        while t.op == "ite" and (t.args[1] is FALSE or t.args[2] is FALSE):
            v = t.args[2] is FALSE
            a = subst(t.args[0], {mk("lv", f.args[1]): f})
            if a.op == "not":
                a, v2 = a.args[0], not v
            else:
                v2 = v
            r[a] = v2
            t = t.args[1] if v else t.args[2]
    return r


def nx_sub(b, i):
    """pred[v][u] is succ[u][v]; an item of edges(data=True) is (u, v, succ[u][v])"""
    if b.op == "sub" and b.args[0].op == "nxpred":
        return mk("sub", mk("sub", mk("nxsucc", b.args[0].args[0]), i), b.args[1])
    if b.op == "nxdata" and i.op != "slice":
        e = mk("sub", mk("nxedges", b.args[0]), i)
        u, v = mk("sub", e, C(0)), mk("sub", e, C(1))
        return mk("tuple", u, v, mk("sub", mk("sub", mk("nxsucc", b.args[0]), u), v))
    return None


REBUILD["sub"] = _sub


def getor(src, k, default):
    """src.get(k, default)"""
    return rebuild_ite(member(k, src), _sub(src, k), default)


def bind(op, dom, d, tree, *rest):
    """close loop variable bv(d)"""
    h = 1 + max([tree.ht] + [r.ht for r in rest if isinstance(r, T)])
    while True:
        m = {mk("bv", d): mk("lv", h)}
        memo = {}
        tree1 = subst(tree, m, memo)
        rest1 = [subst(r, m, memo) if isinstance(r, T) else r for r in rest]
        n = max([tree1.ht] + [r.ht for r in rest1 if isinstance(r, T)])
        if n < h:
            break
        h = n + 1                   # inner binders became higher
    tree, rest = tree1, rest1
    t2 = in_range(dom, h, tree)
    if t2 is not tree:
        h2 = 1 + max([t2.ht] + [r.ht for r in rest if isinstance(r, T)])
        m = {mk("lv", h): mk("lv", h2)}
        tree = subst(t2, m)
        rest = [subst(r, m) if isinstance(r, T) else r for r in rest]
        h = h2
    return mk(op, dom, h, tree, *rest)


def in_range(dom, h, tree):
    """resolve comparisons that follow from 0 <= lv(h) < bound"""
    if dom.op != "upto" or not _has(tree, mk("lv", h)):
        return tree
    return _in_range(dom.args[0], mk("lv", h), tree)


def _in_range(n, lv, t):
    if t.op != "ite":
        return t
    a, hi, lo = t.args
    v = None
    if a.op == "pos" and _has(a, lv):
        e = a.args[0]
        up = add(e, lv, -1)            # e = lv + up
        dn = add(e, lv)                # e = dn - lv
        if not _has(up, lv):
            k = add(up, n)             # lv <= n - 1:  e <= k - 1
            if isnum(up) and up.args[0] > 0 or nonneg(add(up, C(1), -1)):
                v = True
            elif isnum(k) and k.args[0] <= 1:
                v = False
        elif not _has(dn, lv):
            k = add(dn, n, -1)         # e >= k + 1
            if isnum(k) and k.args[0] >= 0:
                v = True
            elif isnum(dn) and dn.args[0] <= 0:
                v = False
    if v is not None:
        return _in_range(n, lv, hi if v else lo)
    h2, l2 = _in_range(n, lv, hi), _in_range(n, lv, lo)
    if h2 is hi and l2 is lo:
        return t
    return ite(a, h2, l2)


def open_(t, v):
    """body of a binder with the bound index replaced by v"""
    return subst(t.args[2], {mk("lv", t.args[1]): v})


def paths(tree, pc=None):
    """tree -> [(facts, leaf)]"""
    pc = pc or {}
    if tree.op == "ite":
        out = []
        p = dict(pc)
        p[tree.args[0]] = True
        out.extend(paths(tree.args[1], p))
        p = dict(pc)
        p[tree.args[0]] = False
        out.extend(paths(tree.args[2], p))
        return out
    if tree is UNDEF:
        return []
    return [(pc, tree)]


def map_tree(t, f):
    if t.op == "ite":
        return ite(t.args[0], map_tree(t.args[1], f), map_tree(t.args[2], f))
    if t is UNDEF:
        return t
    return f(t)


# -- mapped lists -------------------------------------------------------------------

def mk_each(dom, d, alts):
    tree = decide([(g, v) for g, v in alts])
    return close_each(bind("each", dom, d, tree))


def close_each(p):
    dom, h, tree = p.args
    if tree is EMPTY:
        return None
    # identity copy of a sequence
    if dom.op == "upto" and tree.op == "seq" and len(tree.args) == 1 and \
            tree.args[0].op == "item":
        v = tree.args[0].args[0]
        if v.op == "sub" and v.args[1].op == "lv" and v.args[1].args[0] == h and \
                dom.args[0].op == "len" and dom.args[0].args[0] is v.args[0]:
            return mk("splice", v.args[0])
        if v.op == "sub" and v.args[1] is mk("lv", h) and v.args[0].op in ("sortedof", "reversed") \
                and dom.args[0] is mk("len", v.args[0].args[0]):
            return mk("splice", v.args[0])
        s = v.op == "sub" and section(dom.args[0], mk("lv", h), *v.args)
        if s:
            return mk("splice", s)
    return p


def key_parts(ps):
    """the keys that a sequence of writes to an empty dictionary leaves, or None"""
    out = []
    for p in ps:
        if p.op == "kv":
            out.append(mk("item", p.args[0]))
        elif p.op == "each":
            ts = {}
            for _, v in paths(p.args[2]):
                q = key_parts(v.args) if v.op == "seq" else None
                if q is None:
                    return None
                ts[v] = mk("seq", *q)
            q = close_each(mk("each", *rebind(p.args[0], p.args[1], map_tree(
                p.args[2], lambda v: ts[v]))))
            if q is not None:
                out.append(q)
        else:
            return None
    return out


def sorted_of(x, *extra):
    """a sorted list; the keys of a dictionary are a set; the order of its parts is lost"""
    if not extra:
        x = unsorted(x)
    t = mk("sortedof", x, *extra)
    x = t.args[0]
    if x.op == "dictv" and x.args[0].op == "upd" and x.args[0].args[0].op == "dempty":
        ps = key_parts(x.args[0].args[1:])
        if ps is not None:
            return mk("sortedof", mk("setv", setof(mk("seq", *ps))), *extra)
    return t


def unsorted(t):
    """a list that will be sorted, without the sorting of its parts"""
    if t.op == "list":
        return mk("list", *map(unsorted, t.args))
    if t.op == "splice" and t.args[0].op in ("sortedof", "reversed") and \
            len(t.args[0].args) == 1:
        return mk("splice", t.args[0].args[0])
    if t.op == "each":
        return mk("each", t.args[0], t.args[1], map_tree(
            t.args[2], lambda v: mk(v.op, *map(unsorted, v.args)) if v.op == "seq" else v))
    return t


def section(n, lv, x, i):
    """the n items x[i] with i counting up from a first index, as one slice of x"""
    if not _has(i, lv):
        return None
    first = add(i, lv, -1)
    if _has(first, lv) or _has(x, lv) or not nonneg(first):
        return None
    end = add(n, first)
    size = REBUILD["len"](x)
    if end is size:
        end = NONE
    elif end.op == "min" and size in end.args and len(end.args) == 2:
        end = end.args[0] if end.args[1] is size else end.args[1]
        if not nonneg(end):
            return None
    else:
        return None
    return mk("sub", x, mk("slice", NONE if first is C(0) else first, end, NONE))


def segments(dom, h, tree):
    """iteration over a list of known segments -> [(dom or None, tree)] or None"""
    from .terms import leaves
    if dom.op != "upto":
        return None
    lv = mk("lv", h)
    for x in leaves(tree):
        if x.op == "sub" and x.args[1] is lv and x.args[0].op in ("list", "tupof"):
            parts = x.args[0].args if x.args[0].op == "list" else x.args[0].args[0].args
            if len(parts) < 2 or not all(p.op in ("item", "splice") for p in parts):
                continue
            tot = C(0)
            for p in parts:
                tot = add(tot, C(1) if p.op == "item" else mk("len", p.args[0]))
            if tot is not dom.args[0]:
                continue
            off = C(0)
            out = []
            for p in parts:
                if p.op == "item":
                    t = subst(tree, {x: p.args[0], lv: off})
                    out.append((None, 0, t))
                    off = add(off, C(1))
                else:
                    t = subst(tree, {x: mk("sub", p.args[0], lv), lv: add(off, lv)})
                    h2 = 1 + max(t.ht, 0) if not _has(t, lv) else h
                    out.append((mk("upto", mk("len", p.args[0])), h2, t))
                    off = add(off, mk("len", p.args[0]))
            return out
    return None


def spread(parts):
    """expand iterations over lists of known segments"""
    out = []
    for p in parts:
        sg = segments(*p.args) if p.op == "each" else None
        if sg is None:
            out.append(p)
            continue
        for dom, h, t in sg:
            if dom is None:
                if t.op == "seq":
                    out.extend(t.args)
                else:
                    out.append(mk("each", mk("upto", C(1)), 1 + t.ht, t))
            else:
                from .state import rebind
                q = _each_rebuild(*rebind(dom, h, t))
                out.extend(spread([q]) if q is not p else [q])
    return out


REBUILD["seq"] = lambda *a: mk("seq", *spread(a))
REBUILD["list"] = lambda *a: mk("list", *spread(a))


def _each_rebuild(dom, h, tree):
    p = mk("each", dom, h, tree)
    if isnum_dom(dom) == 0:
        return mk("splice", mk("list"))
    r = close_each(p)
    return p if r is None else r


REBUILD["each"] = _each_rebuild


def isnum_dom(dom):
    if dom.op == "upto" and isnum(dom.args[0]):
        return max(0, dom.args[0].args[0])
    return None


# -- sums -----------------------------------------------------------------------------

def sum_term(dom, h, tree):
    """sum over the bound variable lv(h) of a numeric decision tree"""
    lv = mk("lv", h)
    leaves = paths(tree)
    if not leaves:
        return C(0)
    kinds = {kind(v) for _, v in leaves}
    kd = "f" if "f" in kinds and kinds <= {"f", "i", "b"} else (
        "i" if kinds <= {"i", "b"} else "?")
    # monomials by their part that depends on the bound variable
    table = {}
    for idx, (g, v) in enumerate(leaves):
        n, dn, k = ratio(v)
        if any(_has(t, lv) for m, _ in dn for t, _ in m):
            n, dn = ((((v, 1),), 1),), PONE
            n = tuple((m, __import__("fractions").Fraction(c)) for m, c in n)
        den = mknum(dn, PONE, "i")
        for m, c in n:
            dep = tuple((t, e) for t, e in m if _has(t, lv))
            ind = tuple((t, e) for t, e in m if not _has(t, lv))
            coef = mknum(_pnorm({ind: c}), dn, k)
            row = table.setdefault(dep, {})
            row[idx] = add(row.get(idx, C(0)), coef)
    total = C(0.0 if kd == "f" else 0)
    for dep in sorted(table, key=lambda m: [(t.d, e) for t, e in m]):
        row = table[dep]
        ct = decide([(g, row.get(i, C(0))) for i, (g, v) in enumerate(leaves)])
        body = mknum(_pnorm({dep: __import__("fractions").Fraction(1)}), PONE, "i") if dep else C(1)
        if dep and len(dep) == 1 and dep[0][1] == 1:
            body = dep[0][0]
        elif dep:
            ks = {kind(t) for t, _ in dep}
            body = mknum(_pnorm({dep: __import__("fractions").Fraction(1)}), PONE,
                         "f" if "f" in ks else ("i" if ks <= {"i", "b"} else "?"))
        total = add(total, _sum1(dom, h, ct, body))
    if kd == "f" and kind(total) != "f":
        from .terms import _tp
        n, dn, _ = ratio(total)
        total = mknum(n, dn, "f")
    return total


def lowest(dom, h, t, kd):
    """sum of t, numbered by the binders that t still has"""
    h2 = 1 + t.ht
    if h2 < h:
        t = subst(t, {mk("lv", h): mk("lv", h2)})
        h = h2
    return mk("sum", dom, h, t, kd)


def _sum1(dom, h, ct, body):
    """sum of body * coefficient tree"""
    lv = mk("lv", h)
    ls = [v for _, v in paths(ct)]
    nz = {v for v in ls if not (isnum(v) and v.args[0] == 0)}
    if not nz:
        return C(0)
    if len(nz) == 1:
        c = next(iter(nz))
        t = map_tree(ct, lambda v: C(0) if isnum(v) and v.args[0] == 0 else body)
        if not _has(t, lv) and not t.op == "ite":
            # constant over the domain
            if dom.op == "upto":
                from .state import clip
                return mul(c, mul(body, clip(dom.args[0])))
        if t.op == "ite" and body is C(1):
            s = _setcount(dom, lv, t)
            if s is not None:
                return mul(c, s)
            return mul(c, lowest(dom, h, t, "i"))
        return mul(c, lowest(dom, h, t, kind(body)))
    t = map_tree(ct, lambda v: mul(v, body))
    return lowest(dom, h, t, kind(body))


def _setcount(dom, lv, t):
    """number of members of a set that are in another container"""
    if dom.op != "upto" or dom.args[0].op != "len" or \
            dom.args[0].args[0].op != "setv" and kind(dom.args[0].args[0]) != "S":
        return None
    sv = dom.args[0].args[0]
    a, hi, lo = t.args
    el = mk("sub", sv, lv)
    if a.op == "in" and a.args[0] is el and not _has(a.args[1], lv) and \
            hi is C(1) and lo is C(0):
        from .terms import mkset
        return mk("len", mk("setv", mkset("inter", _content_of(sv), _content_of(a.args[1]))))
    return None


def _content_of(x):
    from .terms import rebuild
    if x.op == "setv":
        return x.args[0]
    return rebuild("setof", [mk("seq", mk("splice", x))])


_hm = {}


def _has(t, lv):
    """does lv occur in t (bound heights below it are different variables)?"""
    if t is lv:
        return True
    k = (t, lv)
    r = _hm.get(k)
    if r is None:
        r = any(isinstance(a, T) and _has(a, lv) for a in t.args)
        _hm[k] = r
    return r


def has(t, x):
    return _has(t, x)


def _sum_rebuild(dom, h, tree, kd):
    return sum_term(dom, h, tree)


REBUILD["sum"] = _sum_rebuild


def sum_loop(dom, d, alts):
    """sum over loop variable bv(d) of alternatives [(facts, numeric term)]"""
    tree = decide(alts)
    h = 1 + tree.ht
    return sum_term(dom, h, subst(tree, {mk("bv", d): mk("lv", h)}))


def sum_parts(c, d, f, interp):
    """sum of f(item) over the parts of a sequence term, or None"""
    tot = C(0)
    for p in c.args:
        if p.op == "item":
            tot = add(tot, f(p.args[0]))
        elif p.op == "splice":
            x = p.args[0]
            dom = upto(interp.len_of(x))
            tot = add(tot, sum_loop(dom, d, [({}, f(mk("sub", x, mk("bv", d))))]))
        elif p.op == "each":
            t = p.args[2]
            ls = [v for _, v in paths(t)]
            if not all(v.op == "seq" for v in ls):
                return None
            vals = []
            for g, v in paths(t):
                s = sum_parts(v, d, f, interp)
                if s is None:
                    return None
                vals.append((g, s))
            tree = decide(vals)
            # inner sums may have raised the height
            h = p.args[1]
            h2 = 1 + tree.ht
            if h2 != h:
                tree = subst(tree, {mk("lv", h): mk("lv", h2)})
            tot = add(tot, sum_term(p.args[0], h2, tree))
        else:
            return None
    return tot


# -- searches -----------------------------------------------------------------------------

def exists_formula(dom, d, tree):
    """formula: some index satisfies the (boolean) decision tree"""
    t = bind("exists", dom, d, tree)
    return close_exists(t)


def close_exists(t):
    dom, h, tree = t.args[:3]
    if tree is FALSE or tree is UNDEF:
        return FALSE
    n = isnum_dom(dom)
    if n == 0:
        return FALSE
    lv = mk("lv", h)
    if not _has(tree, lv):
        if dom.op == "upto":
            from .state import clip
            ne = f_not(zero_formula(clip(dom.args[0])))
            if tree is TRUE:
                return ne
            from .terms import f_and
            return f_and(ne, rebuild_ite(tree, TRUE, FALSE) if tree.op != "ite"
                         else _form(tree))
    # membership
    if tree.op == "ite" and tree.args[1] is TRUE and tree.args[2] is FALSE and \
            tree.args[0].op == "eq" and dom.op == "upto" and dom.args[0].op == "len":
        xs = dom.args[0].args[0]
        el = mk("sub", xs, lv)
        a, b = tree.args[0].args
        if a is el and not _has(b, lv):
            return member(b, xs)
        if b is el and not _has(a, lv):
            return member(a, xs)
    return t


def formula_tree(f):
    """formula -> decision tree with leaves TRUE/FALSE"""
    if f in (TRUE, FALSE):
        return f
    if f.op in ("and", "or", "not"):
        if f.op == "not":
            return map_tree(formula_tree(f.args[0]), f_not)
        r = TRUE if f.op == "and" else FALSE
        for x in reversed(f.args):
            t = formula_tree(x)
            k = r
            if f.op == "and":
                r = map_tree(t, lambda l: k if l is TRUE else l)
            else:
                r = map_tree(t, lambda l: k if l is FALSE else l)
        return r
    return ite(f, TRUE, FALSE)


# -- membership ---------------------------------------------------------------------------

def member(x, xs):
    """formula: x is an item of the container xs"""
    from .terms import f_and, f_or
    o = xs.op
    if o in ("sortedof", "reversed", "keys", "listof"):
        return member(x, xs.args[0])
    if o == "setv":
        return member_content(x, xs.args[0])
    if o in SETS:
        return member_content(x, xs)
    if o in ("nxsucc", "nxpred", "nxnode"):
        return mk("in", x, xs.args[0])
    if o == "sub" and xs.args[0].op == "nxpred":
        return mk("in", xs.args[1], mk("sub", mk("nxsucc", xs.args[0].args[0]), x))
    if o == "tuple":
        return f_or(*[eq(x, y) for y in xs.args])
    if o in ("list", "seq"):
        return f_or(*[member_part(x, p) for p in xs.args])
    if o == "dictv" and xs.args[0].op == "upd":
        f = _key_of(x, xs.args[0])
        if f is not None:
            return f
    if isc(xs) and isc(x) and isinstance(xs.args[0], str) and isinstance(x.args[0], str):
        return TRUE if x.args[0] in xs.args[0] else FALSE
    return mk("in", x, xs)


def _key_of(x, u):
    """x is a key of a dict that is only used as a set: filled once, every value a constant"""
    from .terms import f_or
    if u.args[0].op == "dempty" and all(p.op == "kv" and isc(p.args[0]) for p in u.args[1:]):
        return f_or(*[eq(p.args[0], x) for p in u.args[1:]])
    if u.args[0].op != "dempty" or not any(p.op == "each" for p in u.args[1:]):
        return None
    ok = [True]

    def items(l):
        if l.op != "seq" or not all(q.op == "kv" and isc(q.args[1]) for q in l.args):
            ok[0] = False
            return l
        return mk("seq", *[mk("item", q.args[0]) for q in l.args])
    out = []
    for p in u.args[1:]:
        if p.op == "each":
            dom, h, tree = p.args
            out.append(mk("each", dom, h, map_tree(tree, items)))
        elif p.op == "kv" and isc(p.args[1]):
            out.append(mk("item", p.args[0]))
        else:
            return None
    if not ok[0]:
        return None
    return f_or(*[member_part(x, p) for p in out])


def member_part(x, p):
    if p.op == "item":
        return eq(x, p.args[0])
    if p.op == "splice":
        return member(x, p.args[0])
    if p.op == "each":
        dom, h, tree = p.args
        h2 = max(h, x.ht + 1)
        if h2 != h:
            tree = subst(tree, {mk("lv", h): mk("lv", h2)})

        def leaf(l):
            if l.op != "seq":
                return mk("in", x, mk("list", l))
            f = FALSE
            from .terms import f_or
            for q in l.args:
                f = f_or(f, member_part(x, q))
            return rebuild_ite(f, TRUE, FALSE) if f.op in ("and", "or", "not") else (
                f if f in (TRUE, FALSE) else ite(f, TRUE, FALSE))
        t = map_tree(tree, leaf)
        h3 = 1 + t.ht
        if h3 != h2:
            t = subst(t, {mk("lv", h2): mk("lv", h3)})
        return close_exists(mk("exists", dom, h3, t))
    return mk("in", x, mk("list", p))


def member_content(x, c):
    from .terms import f_and, f_or
    if c.op == "interof":
        dom, h, tree = c.args
        return f_not(close_exists(mk("exists", *rebind(dom, h, map_tree(
            tree, lambda v: FALSE if v is EMPTY else formula_tree(f_not(
                member_content(x, v))))))))
    if c.op == "inter":
        return f_and(*[member_content(x, y) for y in c.args])
    if c.op == "union":
        return f_or(*[member_content(x, y) for y in c.args])
    if c.op == "diff":
        return f_and(member_content(x, c.args[0]),
                     *[f_not(member_content(x, y)) for y in c.args[1:]])
    if c.op == "setof" and c.args[0].op == "seq":
        return member(x, c.args[0])
    return mk("in", x, mk("setv", c))


REBUILD["in"] = member


def _form(tree):
    from .terms import f_and, f_or
    if tree.op == "ite":
        return f_or(f_and(tree.args[0], _form(tree.args[1])),
                    f_and(f_not(tree.args[0]), _form(tree.args[2])))
    return tree


REBUILD["exists"] = lambda *a: close_exists(mk("exists", *a))


def first_term(dom, d, tree):
    if tree is TRUE:
        return C(0)
    t = bind("first", dom, d, tree)
    return t


REBUILD["first"] = lambda *a: C(0) if a[2] is TRUE else mk("first", *a)


# -- simplification under path facts -----------------------------------------------------

def simplify(t, pc, memo=None):
    """resolve decision nodes whose atom is decided by the path facts"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "ite":
        e = entails(pc, t.args[0])
        if e is not None:
            r = simplify(t.args[1] if e else t.args[2], pc, memo)
            memo[t] = r
            return r
    if t.op in ("max", "min") and len(t.args) == 2:
        from .state import lt
        x, y = t.args
        f = lt(x, y)
        e = None
        if f.op == "not":
            e = entails(pc, f.args[0])
            e = None if e is None else not e
        elif f not in (TRUE, FALSE):
            e = entails(pc, f)
        if e is not None:
            small, big = (x, y) if e else (y, x)
            r = memo[t] = simplify(small if t.op == "min" else big, pc, memo)
            return r
    if t.op in ("num", "c"):
        r = t
        if t.op == "num" and _anyite(t):
            m = {}
            for x in _ites(t):
                y = simplify(x, pc, memo)
                if y is not x:
                    m[x] = y
            r = subst(t, m) if m else t
    elif any(isinstance(a, T) for a in t.args):
        na = [simplify(a, pc, memo) if isinstance(a, T) else a for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        else:
            from .terms import rebuild
            r = rebuild(t.op, na)
    else:
        r = t
    memo[t] = r
    return r


def _anyite(t):
    return bool(_ites(t))


_im = {}


def _ites(t):
    r = _im.get(t)
    if r is None:
        from .terms import leaves
        r = _im[t] = [x for x in leaves(t) if x.op in ("ite", "sum", "each", "min", "max")]
    return r
