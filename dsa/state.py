"""Abstract states: environments, heap cells, path facts and effects."""
from .terms import (T, mk, C, NONE, TRUE, FALSE, isc, isnum, eq, f_not, f_and,
                    f_or, kind, ratio, add, NUMK, _tp, EMPTY, HINTS, generic, PONE, mul, REBUILD, mknum, tdiv)


class Ty:
    """declared or inferred type of a value"""
    __slots__ = ("name", "fields", "elem")

    def __init__(self, name, fields=None, elem=None):
        self.name = name
        self.fields = fields or {}
        self.elem = elem

    def __repr__(self):
        return "Ty(%s)" % self.name


class Ev:
    """one effect; `loc` is for reports and does not take part in equality"""
    __slots__ = ("kind", "args", "loc")

    def __init__(self, kind, args, loc=None):
        self.kind = kind
        self.args = args
        self.loc = loc

    def key(self):
        return (self.kind, self.args)

    def __eq__(self, o):
        return self.kind == o.kind and self.args == o.args

    def __hash__(self):
        return hash((self.kind, self.args))

    def __repr__(self):
        return "<%s %s>" % (self.kind, ", ".join(map(str, self.args)))


class LoopEv(Ev):
    """effects of one generic iteration: alternatives (guard, events)"""
    __slots__ = ("alts",)

    def __init__(self, dom, depth, alts, loc=None):
        self.kind = "loop"
        self.args = (dom, depth)
        self.alts = alts
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, LoopEv) and self.args == o.args and self.alts == o.alts

    def __hash__(self):
        return hash((self.kind, self.args, len(self.alts)))

    def __repr__(self):
        return "<loop %s: %s>" % (self.args[0], "; ".join(
            "[%s] %s" % (",".join(("" if b else "!") + str(a) for a, b in g), list(e))
            for g, e in self.alts))


class State:
    __slots__ = ("env", "attrs", "content", "pc", "ev", "und")

    def __init__(self):
        self.env = {}
        self.attrs = {}      # (base term, name) -> value
        self.content = {}    # container term -> content term
        self.pc = {}         # atom -> bool
        self.ev = ()
        self.und = ()        # reasons why this state is not fully understood

    def clone(self):
        s = State()
        s.env = dict(self.env)
        s.attrs = dict(self.attrs)
        s.content = dict(self.content)
        s.pc = dict(self.pc)
        s.ev = self.ev
        s.und = self.und
        return s

    def event(self, kind, args, loc=None):
        self.ev = self.ev + (Ev(kind, tuple(args), loc),)


# -- path facts ------------------------------------------------------------------

NONNEG = {"len", "count", "card", "cardv", "sqrt", "lent"}


def nonneg(t):
    if isnum(t):
        return t.args[0] >= 0
    if t.op in NONNEG or t.op in ("bv", "lv", "first", "lindex", "lcount"):
        return True
    if HINTS and (HINTS.get(t) or HINTS.get(generic(t))) == "n":
        return True
    if t.op in ("float", "int", "abs"):
        return t.op == "abs" or nonneg(t.args[0])
    if t.op == "max":
        return any(nonneg(a) for a in t.args)
    if t.op == "min":
        return all(nonneg(a) for a in t.args)
    if t.op == "sum":
        from .binders import paths
        return all(nonneg(v) for _, v in paths(t.args[2]))
    if t.op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op == "num":
        return all(c > 0 and all(e % 2 == 0 or nonneg(a) for a, e in m)
                   for p in (_tp(t.args[0]), _tp(t.args[1])) for m, c in p)
    return False


def clip(t):
    """max(0, t): the number of indices in upto(t)"""
    if isnum(t):
        return t if t.args[0] > 0 else C(0)
    if nonneg(t):
        return t
    if t.op == "max" and any(isnum(a) and a.args[0] >= 0 for a in t.args):
        return t
    return mk("max", *sorted((C(0), t)))


def root(a):
    """square root"""
    if a.op == "num":
        n, d = _tp(a.args[0]), _tp(a.args[1])
        if len(n) == 1 and n[0][1] == 1 and d == PONE and len(n[0][0]) > 1 and \
                all(e == 1 for x, e in n[0][0]) and \
                sum(not nonneg(x) for x, e in n[0][0]) <= 1:
            r = C(1)
            for x, _ in n[0][0]:
                r = mul(r, mk("sqrt", x))
            return r
    return mk("sqrt", a)


REBUILD["sqrt"] = root
_len0 = REBUILD["len"]


def part(x):
    """(list, from, to) of a slice with bounds from the left, or None"""
    if x.op == "sub" and x.args[1].op == "slice" and x.args[1].args[2] is NONE:
        lo, hi, _ = x.args[1].args
        lo = C(0) if lo is NONE else lo
        if nonneg(lo) and (hi is NONE or nonneg(hi)):
            return x.args[0], lo, hi
    return None


def length(x):
    p = part(x)
    if p is None:
        ps = x.args if x.op == "list" else x.args[0].args \
            if x.op == "tupof" and x.args[0].op == "seq" else ()
        if len(ps) > 1 and all(q.op in ("item", "splice") for q in ps):
            n = C(0)
            for q in ps:
                n = add(n, C(1) if q.op == "item" else length(q.args[0]))
            return n
        return _len0(x)
    n = length(p[0])
    if p[2] is not NONE:
        n = REBUILD["min"](n, p[2])
    return clip(add(n, p[1], -1))


REBUILD["len"] = length


def zero_formula(t):
    """formula for t == 0"""
    if t.op == "sum":
        dom, h, tree = t.args[:3]
        from .binders import map_tree, close_exists, paths, formula_tree
        if all(nonneg(v) for _, v in paths(tree)):
            return f_not(close_exists(mk("exists", *rebind(
                dom, h, map_tree(tree, lambda v: formula_tree(f_not(zero_formula(v))))))))
    if t.op == "max" and len(t.args) == 2 and C(0) in t.args:
        o = t.args[0] if t.args[1] is C(0) else t.args[1]
        return f_not(lt(C(0), o))
    if isnum(t):
        return TRUE if t.args[0] == 0 else FALSE
    if t.op == "len":
        return f_not(truth_atom(t.args[0]))
    if t.op in ("float", "sqrt", "abs"):
        return zero_formula(t.args[0])
    if t.op == "num":
        n = _tp(t.args[0])
        if len(n) == 1:
            return f_or(*[zero_formula(a) for a, _ in n[0][0]])
        if all(c > 0 for _, c in n) and all(e % 2 == 0 or nonneg(a) for m, _ in n for a, e in m):
            parts = []
            for m, c in n:
                if not m:
                    return FALSE
                parts.append(f_or(*[zero_formula(a) for a, _ in m]))
            return f_and(*parts)
        d = _tp(t.args[1])
        if len(d) != 1 or d[0][0]:
            return zero_formula(mknum(n, PONE, t.args[2]))
        common = set(a for a, _ in n[0][0]).intersection(*[[a for a, _ in m] for m, _ in n[1:]]) \
            if n else ()
        if common:
            q = C(1)
            for a in common:
                q = mul(q, a)
            return f_or(zero_formula(tdiv(mknum(n, PONE, t.args[2]), q)),
                        *[zero_formula(a) for a in sorted(common)])
        if len(n) == 2 and sorted(len(m) for m, _ in n) == [0, 1]:
            # one value and a number
            (m, c), (_, k) = sorted(n, key=lambda x: -len(x[0]))
            v = -k / c
            if m[0][1] == 1 and v.denominator == 1:
                return mk("eq", *sorted((m[0][0], C(int(v)))))
        dom = dominated(n)
        if dom is not None:
            return dom
        # canonical sign
        if n and n[0][1] < 0:
            from .terms import neg
            return zero_formula(neg(t))
        return mk("eq", *sorted((t, C(0))))
    if t.op == "min" and all(nonneg(a) for a in t.args):
        return f_or(*[zero_formula(a) for a in t.args])
    if t.op == "max" and all(nonneg(a) for a in t.args):
        return f_and(*[zero_formula(a) for a in t.args])
    if t.op == "setlen":
        pass
    return mk("eq", *sorted((t, C(0))))


def dominated(n):
    """sum of c_i*len(X_i) - k*|intersection of all X_i ..| with sum c_i > k:
    zero exactly when every X_i is empty"""
    pos, negs = [], []
    for m, c in n:
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "len":
            return None
        (pos if c > 0 else negs).append((m[0][0].args[0], c))
    if len(negs) != 1:
        if not pos and negs or not negs:
            return None
        return None
    i, k = negs[0]
    if i.op != "setv" or i.args[0].op != "inter":
        return None
    ops = set()
    for s in i.args[0].args:
        if s.op == "setof" and len(s.args[0].args) == 1 and s.args[0].args[0].op == "splice":
            ops.add(s.args[0].args[0].args[0])
        ops.add(mk("setv", s))
    if not all(x in ops and c >= 1 for x, c in pos) or sum(c for _, c in pos) <= -k:
        return None
    return f_and(*[f_not(truth_atom(x)) for x, _ in pos])


NOT_NONE = frozenset("""obj tuple inst list fn cls clo bound mod num fmt str concat len dictv
seq setv setof keys values items sortedof reversed nxsucc nxpred nxnode nxedges nxdata ordered
upto range attrs splitof join float sqrt abs count b""".split())


def never_none(x):
    """values that cannot be None (nodes of a graph are not)"""
    if isc(x):
        return x is not NONE
    if x.op in NOT_NONE or kind(x) in ("b", "i", "f", "s"):
        return True
    if x.op == "sub":
        b = x.args[0]
        if b.op in ("nxsucc", "nxpred", "nxnode", "nxedges", "nxdata"):
            return True
        if b.op == "dictv" and b.args[0].op == "upd" and b.args[0].args[0].op == "dempty" and all(
                w.op == "kv" and isc(w.args[1]) and w.args[1] is not NONE
                for w in b.args[0].args[1:]):
            return True             # an entry of a constant table
        if b.op == "sub" and b.args[0].op in ("nxsucc", "nxpred"):
            return True
        if b.op == "sub" and b.args[0].op in ("nxedges", "nxdata") and isc(x.args[1]):
            return True
        if b.op == "keys":
            d = b.args[0]
            return d.op in ("nxsucc", "nxpred", "nxnode") or \
                d.op == "sub" and d.args[0].op in ("nxsucc", "nxpred")
    if x.op == "ite":
        return never_none(x.args[1]) and never_none(x.args[2])
    return False


def truth_atom(t):
    """formula for the truth value of a term (no heap lookup)"""
    if isc(t):
        return TRUE if t.args[0] else FALSE
    o = t.op
    if o in ("eq", "lt", "is", "in", "isinst", "not", "and", "or", "exists",
             "hasattr", "raises", "truth", "b"):
        return t
    if o in ("len", "num", "float", "sqrt", "abs", "count", "sum", "max", "min") and not (
            o in ("max", "min") and len(t.args) == 1) or kind(t) in ("i", "f"):
        return f_not(zero_formula(t))
    if o == "tuple":
        return TRUE if t.args else FALSE
    if o in ("seq", "list"):
        return seq_truth(t)
    if o in ("setof", "setv"):
        return truth_atom(t.args[0])
    if o == "ite":
        a, hi, lo = t.args
        return f_or(f_and(a, truth_atom(hi)), f_and(f_not(a), truth_atom(lo)))
    if o == "dictv" and t.args[0].op == "upd" and any(
            w.op == "kv" for w in t.args[0].args[1:]):
        return TRUE
    if o in ("sortedof", "reversed", "keys", "values", "items"):
        return truth_atom(t.args[0])
    if o == "cls" or o == "fn" or o == "bound" or o == "clo" or o == "mod":
        return TRUE
    if o == "union":
        return f_or(*[truth_atom(a) for a in t.args])
    if o == "sub" and part(t) is not None:
        return f_not(zero_formula(length(t)))
    return mk("truth", t)


def seq_truth(t):
    fs = []
    for p in t.args:
        if p.op == "item":
            return TRUE
        if p.op == "splice":
            fs.append(truth_atom(p.args[0]))
        elif p.op == "list":
            fs.append(seq_truth(p))
        elif p.op == "each":
            from .binders import map_tree, close_exists, formula_tree
            dom, h, tree = p.args
            fs.append(close_exists(mk("exists", *rebind(
                dom, h, map_tree(tree, lambda l: formula_tree(
                    seq_truth(l) if l.op == "seq" else TRUE))))))
        else:
            fs.append(mk("truth", p))
    return f_or(*fs)


def rebind(dom, h, tree):
    """binder arguments with the height recomputed after the body changed"""
    h2 = 1 + tree.ht
    if h2 != h:
        from .terms import subst
        tree = subst(tree, {mk("lv", h): mk("lv", h2)})
    return dom, h2, tree


def lt(a, b):
    """a < b as formula over canonical atoms"""
    if a is b:
        return FALSE
    if isnum(a) and isnum(b):
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a.op == b.op == "tuple" and len(a.args) == len(b.args) <= 4 and \
            not any(x.op == "star" for x in a.args + b.args):
        # the first items that differ decide
        out = FALSE
        for x, y in reversed(list(zip(a.args, b.args))):
            out = f_or(lt(x, y), f_and(eq(x, y), out))
        return out
    for o, x in (("max", a), ("min", b)):
        if x.op == o and all(isinstance(z, T) and (kind(z) in NUMK or z.op == "num") for z in x.args):
            return f_and(*[lt(z, b) if x is a else lt(a, z) for z in x.args])
    for o, x in (("min", a), ("max", b)):
        if x.op == o and all(isinstance(z, T) and (kind(z) in NUMK or z.op == "num") for z in x.args):
            return f_or(*[lt(z, b) if x is a else lt(a, z) for z in x.args])
    ka, kb = kind(a), kind(b)
    if (ka in NUMK or isnum(a) or a.op == "num") and (kb in NUMK or isnum(b) or b.op == "num") \
            or isnum(a) or isnum(b):
        d = add(b, a, -1)              # 0 < d
        if isnum(d):
            return TRUE if d.args[0] > 0 else FALSE
        # integers: 0 < n - 0 with n a length -> nonempty
        if nonneg(d):
            if kind(d) == "i" or True:
                z = zero_formula(d)
                return f_not(z)
        n, den, k = ratio(d)
        if len(n) == 2 and den == PONE and a.op == b.op == "num":
            # -a < -b where nothing else says that these are numbers
            (m, c), (m2, c2) = n
            if {c, c2} == {1, -1} and len(m) == len(m2) == 1 and m[0][1] == m2[0][1] == 1 and \
                    not {kind(m[0][0]), kind(m2[0][0])} <= set(NUMK):
                x, y = (m, m2) if c == -1 else (m2, m)
                return lt(x[0][0], y[0][0])
        # -len(x) > 0 never;  1 - len(x) > 0 <-> len == 0
        from .terms import neg
        nd = neg(d)
        if nonneg(nd):
            return FALSE
        one = add(C(1), d, -1)         # 1 - d
        if k == "i" and nonneg(one) and not isnum(one):
            # d = 1 - e with e >= 0 integer:  d > 0 <-> e == 0
            return zero_formula(one)
        e1 = add(d, C(1))              # d + 1 ; d = e1 - 1 > 0 <-> e1 > 1
        # orientation: canonical form 0 < d; use the pair (d>0) or not(-d>=0)
        if k == "i":
            # 0 < d  <=>  not (d <= 0)  <=>  not (0 < 1 - d)
            alt = add(C(1), d, -1)
            if alt.d < d.d:
                return f_not(mk("pos", alt))
        return mk("pos", d)
    return mk("lt", a, b)


def entails(pc, a):
    """is atom `a` decided by the path facts? -> True/False/None"""
    v = pc.get(a)
    if v is not None:
        return v
    o = a.op
    if o == "truth":
        x = a.args[0]
        if pc.get(mk("is", x, NONE)):
            return False
        e = pc.get(_eqc(x, ""))
        if e:
            return False
        e = pc.get(_eqc(x, 0))
        if e is not None:           # what is compared with 0 is a number
            return not e
        for f, val in pc.items():
            if val and f.op == "eq":
                c = _const_side(f, x)
                if c is not None:
                    return bool(c.args[0])
        return None
    if o == "is" and a.args[1] is NONE:
        x = a.args[0]
        if pc.get(mk("truth", x)) or never_none(x):
            return False
        for f, val in pc.items():
            if not val:
                continue
            if f.op == "in" and f.args[1] is x:
                return False
            if f.op == "isinst" and f.args[0] is x:
                return False
            if f.op == "eq":
                c = _const_side(f, x)
                if c is not None:
                    return c is NONE
        return None
    if o == "in":
        x = mk("sub", a.args[1], a.args[0])     # an item that is looked at is there
        if pc.get(mk("truth", x)):
            return True
        for f, val in pc.items():
            if val and f.op == "eq" and (f.args[0] is x and isc(f.args[1]) or
                                         f.args[1] is x and isc(f.args[0])):
                return True
        return None
    if o == "eq":
        p, q = a.args
        z = p if q is C(0) else q if p is C(0) else None
        if z is not None:
            e = pc.get(mk("truth", z))
            if e is not None:
                return not e
        if z is not None and z.op == "num":
            for f, val in pc.items():
                if f.op == "eq" and val and f is not a:
                    z2 = f.args[0] if f.args[1] is C(0) else f.args[1] if f.args[0] is C(0) \
                        else None
                    if z2 is not None and z2.op == "num":
                        for k in (add(z, z2, -1), add(z, z2)):
                            if isnum(k):
                                return k.args[0] == 0
                elif f.op == "pos":
                    for k, sg in ((add(z, f.args[0], -1), 1), (add(z, f.args[0]), -1)):
                        # z = 0:  f.args[0] = -sg * k
                        if isnum(k) and (-sg * k.args[0] > 0) != val:
                            return False
        for x, c in ((p, q), (q, p)):
            if isc(c):
                if c is not NONE and pc.get(mk("is", x, NONE)):
                    return False
                if not c.args[0] and pc.get(mk("truth", x)):
                    return False
                if c.args[0] and pc.get(mk("truth", x)) is False:
                    return False
                for f, val in pc.items():
                    if val and f.op == "eq":
                        c2 = _const_side(f, x)
                        if c2 is not None and c2 is not c and not (c2.args[0] == c.args[0]):
                            return False
                return None
        if pc.get(mk("lt", p, q)) or pc.get(mk("lt", q, p)):
            return False
        if pc.get(mk("lt", p, q)) is False and pc.get(mk("lt", q, p)) is False:
            return True
        return None
    if o == "lt":
        p, q = a.args
        if pc.get(mk("lt", q, p)):
            return False
        if pc.get(mk("eq", *sorted((p, q)))):
            return False
        if pc.get(mk("eq", *sorted((p, q)))) is False and pc.get(mk("lt", q, p)) is False:
            return True
        return None
    if o == "pos":
        d = a.args[0]
        from .terms import neg
        n = neg(d)
        if pc.get(mk("pos", n)):
            return False
        z = zero_formula(d)
        if z.op == "eq" and pc.get(z):
            return False
        # implied by a stronger/weaker bound on the same polynomial
        for f, val in pc.items():
            if f.op == "pos":
                diff = add(d, f.args[0], -1)       # d = e + diff
                if isnum(diff):
                    if val and diff.args[0] >= 0:
                        return True
                    if not val and diff.args[0] <= 0:
                        return False
                summ = add(d, f.args[0])           # d = -e + summ
                if isnum(summ):
                    # f: e > 0 -> d = summ - e < summ
                    if val and summ.args[0] <= 0:
                        return False
                    if val and summ.args[0] <= 1 and ratio(d)[2] == "i":
                        return False
                    # not f: e <= 0 -> d >= summ
                    if not val and summ.args[0] > 0:
                        return True
        return None
    if o == "isinst":
        if pc.get(mk("is", a.args[0], NONE)):
            return False
        if a.args[1] in BASE:
            for f, val in pc.items():
                if val and f.op == "isinst" and f.args[0] is a.args[0] and \
                        f.args[1] in BASE and f.args[1] != a.args[1]:
                    return False
        return None
    return None


BASE = {"slice", "list", "tuple", "dict", "set", "str"}


def _eqc(x, v):
    return mk("eq", *sorted((x, C(v))))


def _const_side(f, x):
    p, q = f.args
    if p is x and isc(q):
        return q
    if q is x and isc(p):
        return p
    return None


def assume(st, f, val):
    """-> list of states in which formula f has truth value val"""
    if f is TRUE:
        return [st] if val else []
    if f is FALSE:
        return [] if val else [st]
    o = f.op
    if o == "not":
        return assume(st, f.args[0], not val)
    if (o == "and" and val) or (o == "or" and not val):
        out = [st]
        for g in f.args:
            out = [s2 for s in out for s2 in assume(s, g, val)]
        return out
    if o in ("and", "or"):
        # first decisive operand
        out = []
        cur = [st]
        for g in f.args:
            nxt = []
            for s in cur:
                out.extend(assume(s, g, val))
                nxt.extend(assume(s, g, not val))
            cur = nxt
        return out
    e = entails(st.pc, f)
    if e is not None:
        return [st] if e == val else []
    s = st.clone()
    s.pc[f] = val
    return [s]


def consistent(pc1, pc2):
    """can both sets of facts hold?  (only syntactic contradictions count)"""
    st = State()
    st.pc = dict(pc1)
    for a, v in pc2.items():
        e = entails(st.pc, a)
        if e is not None and e != v:
            return False
        st.pc[a] = v
    # second direction: a later fact may decide an earlier one
    for a, v in pc1.items():
        d = dict(st.pc)
        del d[a]
        e = entails(d, a)
        if e is not None and e != v:
            return False
    return True
