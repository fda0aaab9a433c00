"""Hash-consed value terms with normalising constructors.

A term is the abstract value of an expression: which inputs it is computed
from and by which operations, in a normal form (rational functions for
arithmetic, ordered operands for equality, canonical iteration domains for
sequences).  Terms are never evaluated on concrete inputs.
"""
import hashlib
from fractions import Fraction


class T:
    __slots__ = ("op", "args", "h", "d", "hasobj", "mbv", "unk", "ht", "car", "fst")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.d < o.d


_tab = {}
# binders: (op, domain, height, tree, ...); the bound index is lv(height)
SETS = {"setof", "inter", "interof", "union", "diff"}     # contents of a set
BINDERS = {"each", "sum", "exists", "first", "fold", "lastof", "interof"}
REBUILD = {}


def _only(t):
    """what a list built from one iterable goes over"""
    return t.args[0].args[0] if isinstance(t, T) and t.op in ("list", "tuple") and len(t.args) == 1 \
        and isinstance(t.args[0], T) and t.args[0].op == "splice" and len(t.args[0].args) == 1 else None


def _turned(t):
    """the reverse of a list that a loop appends to: the loop puts the items in front"""
    if t.op != "after" or t.args[0].op != "loop":
        return None
    dom, h, tree, inits = t.args[0].args
    n = len(inits.args)
    if not n or inits.args[0] is not EMPTY:
        return None
    cell = mk("cellv", h, 0, "L")
    sp = mk("splice", cell)

    def leaf(v):
        if v.op == "ite":
            a, hi, lo = v.args[0], leaf(v.args[1]), leaf(v.args[2])
            return None if hi is None or lo is None or cell in leaves(a) else \
                mk("ite", a, hi, lo)
        if v.op not in ("next", "exit") or len(v.args) < n:
            return None
        k = len(v.args) - n
        c = v.args[k]
        rest = v.args[:k] + v.args[k + 1:]
        if any(cell in leaves(x) for x in rest):
            return None
        if c is cell:
            return v
        if c.op != "seq" or not c.args or c.args[0] is not sp or any(
                p.op != "item" or cell in leaves(p) for p in c.args[1:]):
            return None
        return mk(v.op, *v.args[:k], mk("seq", *(tuple(reversed(c.args[1:])) + (sp,))),
                  *v.args[k + 1:])
    new = leaf(tree)
    return mk("after", mk("loop", dom, h, new, inits)) if new is not None else None


def mk(op, *args):
    if op == "sortedof":
        y = _only(args[0])
        if y is not None:
            args = (y,) + args[1:]
        if args[0].op == "keys":
            args = args[0].args + args[1:]
    elif op == "reversed":
        y = _only(args[0])
        if y is not None:
            args = (y,)
        if args[0].op == "reversed":
            return args[0].args[0]
        y = _turned(args[0])
        if y is not None:
            return y
    elif op == "list" and len(args) == 1 and isinstance(args[0], T) and args[0].op == "splice" \
            and args[0].args[0].op == "sortedof":
        return args[0].args[0]
    key = (op,) + tuple(
        (a if isinstance(a, T) else (type(a).__name__, a)) for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        h = hashlib.md5()
        h.update(op.encode())
        ho = op == "obj"
        mb = args[0] if op == "bv" else -1
        uk = op == "unk"
        car = op == "carry"
        fst = op == "first"
        ht = args[1] if op in BINDERS else 0
        for a in args:
            if isinstance(a, T):
                h.update(b"T" + a.d.encode())
                ho = ho or a.hasobj
                uk = uk or a.unk
                car = car or a.car
                fst = fst or a.fst
                if a.ht > ht:
                    ht = a.ht
                if a.mbv > mb:
                    mb = a.mbv
            else:
                h.update(("%s:%r|" % (type(a).__name__, a)).encode())
        t.d = h.hexdigest()
        t.h = hash(t.d)
        t.hasobj = ho
        t.mbv = mb
        t.unk = uk
        t.ht = ht
        t.car = car
        t.fst = fst
        _tab[key] = t
    return t


T.__hash__ = lambda s: s.h


def C(v):
    return mk("c", v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
EMPTY = mk("seq")


def isc(t):
    return t.op == "c"


def isnum(t):
    return t.op == "c" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


def isstr(t):
    return t.op == "c" and isinstance(t.args[0], str)


# -- kinds -------------------------------------------------------------------
_KINDS = {"len": "i", "count": "i", "float": "f", "round": "f", "int": "i",
          "fmt": "s", "repr": "s", "join": "s", "str": "s", "unicode": "s", "concat": "s",
          "seq": "l", "list": "l", "tuple": "t", "idiv": "i", "sqrt": "f",
          "log": "f", "sortedof": "l", "dictv": "d", "ordered": "d", "setv": "S",
          "setof": "S", "inter": "S", "interof": "S", "union": "S", "cardv": "i"}

HINTS = {}          # term -> kind, set by specifications ("n": a number of things)


def generic(t):
    """a chain of attributes and subscripts, with all subscripts alike"""
    if t.op == "attr":
        return mk("attr", generic(t.args[0]), t.args[1])
    if t.op == "sub":
        return mk("attr", generic(t.args[0]), "[]")
    if t.op == "call" and isinstance(t.args[0], T) and t.args[0].op in ("param", "attr"):
        return mk("attr", generic(t.args[0]), "()")
    return t


def kind(t):
    o = t.op
    if HINTS:
        h = HINTS.get(t) or (HINTS.get(generic(t)) if o in ("sub", "attr", "call")
                             else None)
        if h:
            return "i" if h == "n" else h
    if o == "c":
        v = t.args[0]
        if isinstance(v, bool):
            return "b"
        if isinstance(v, int):
            return "i"
        if isinstance(v, float):
            return "f"
        if isinstance(v, str):
            return "s"
        return "n" if v is None else "?"
    if o == "num":
        return t.args[2]
    if o in ("eq", "lt", "is", "in", "truth", "isinst", "not", "and", "or",
             "exists", "hasattr", "raises"):
        return "b"
    if o in ("bv", "lv", "first", "lindex", "lcount"):
        return "i"
    if o == "ite":
        a, b = kind(t.args[1]), kind(t.args[2])
        return a if a == b else ("f" if {a, b} == {"i", "f"} else "?")
    if o in ("sum", "max", "min", "abs"):
        ks = {kind(a) for a in t.args if isinstance(a, T)}
        if len(t.args) == 1 and t.args[0].op == "list":
            ks = {k for p in t.args[0].args for k in _partkinds(p)} or {"?"}
        if o == "sum":
            return t.args[-1] if isinstance(t.args[-1], str) else "?"
        if ks <= {"i"}:
            return "i"
        if "f" in ks and ks <= {"i", "f"}:
            return "f"
        return "?"
    if o == "mul":
        return kind(t.args[0])
    if o == "cellv":
        return t.args[2]
    if o == "after" and len(t.args) == 1 and t.args[0].op == "loop":
        # an accumulator that stays a number
        step, inits = t.args[0].args[2:]
        if step.op == "next" and len(step.args) == len(inits.args) == 1:
            a, b = kind(step.args[0]), kind(inits.args[0])
            return a if a == b and a in ("i", "f") else "?"
    return _KINDS.get(o, "?")


def _partkinds(p):
    """kinds of what a part of a list provides"""
    if p.op == "item":
        return [kind(p.args[0])]
    if p.op == "seq":
        return [k for q in p.args for k in _partkinds(q)]
    if p.op == "each":
        return _partkinds(p.args[2])
    if p.op == "ite":
        return _partkinds(p.args[1]) + _partkinds(p.args[2])
    return ["?"]


NUMK = ("i", "f", "b")


# -- polynomials ------------------------------------------------------------
# poly: tuple of (monomial, Fraction), monomial: tuple of (term, exp) sorted

def _pnorm(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: [(a.d, e) for a, e in mc[0]])
    return tuple(items)


def padd(a, b, s=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + s * c
    return _pnorm(d)


def pmul(a, b):
    d = {}
    for m1, c1 in a:
        for m2, c2 in b:
            e = dict(m1)
            for t, k in m2:
                e[t] = e.get(t, 0) + k
            m = tuple(sorted(((t, k) for t, k in e.items() if k), key=lambda x: x[0].d))
            d[m] = d.get(m, 0) + c1 * c2
    return _pnorm(d)


PONE = (((), Fraction(1)),)
PZERO = ()


class NumT:
    pass


def _pt(p):
    """poly as nested term (so that terms contain only terms and scalars)"""
    return mk("poly", *[mk("mono", str(c), *[mk("pw", t, k) for t, k in m])
                        for m, c in p])


def _tp(t):
    return tuple((tuple((pw.args[0], pw.args[1]) for pw in mo.args[1:]),
                  Fraction(mo.args[0])) for mo in t.args)


def ratio(t):
    """term -> (numer poly, denom poly, kind)"""
    if t.op == "num":
        return _tp(t.args[0]), _tp(t.args[1]), t.args[2]
    if isnum(t) or (isc(t) and isinstance(t.args[0], bool)):
        v = t.args[0]
        c = Fraction(v).limit_denominator(10 ** 9) if isinstance(v, float) else Fraction(v)
        return (((), c),) if c else PZERO, PONE, "f" if isinstance(v, float) else "i"
    if t.op == "float":
        n, d, k = ratio(t.args[0])
        return n, d, "f"
    return (((( t, 1),), Fraction(1)),), PONE, kind(t)


def _content(p):
    """gcd monomial and rational content of a polynomial"""
    if not p:
        return (), Fraction(0)
    from math import gcd
    mono = dict(p[0][0])
    num = 0
    den = 1
    for m, c in p:
        dm = dict(m)
        for t in list(mono):
            k = min(mono[t], dm.get(t, 0))
            if k <= 0:
                del mono[t]
            else:
                mono[t] = k
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    return tuple(sorted(mono.items(), key=lambda x: x[0].d)), Fraction(num, den)


def _pdivmono(p, mono, c):
    out = []
    dm = dict(mono)
    for m, k in p:
        e = dict(m)
        for t, x in dm.items():
            e[t] = e.get(t, 0) - x
        out.append((tuple(sorted(((t, x) for t, x in e.items() if x),
                                 key=lambda y: y[0].d)), k / c))
    return _pnorm(dict(out))


def mknum(n, d, k):
    if not n:
        return C(0.0 if k == "f" else 0)
    if len(n) > 1:
        n = _whole_sums(n)
    mn, cn = _content(n)
    md, cd = _content(d)
    common = {}
    dmd = dict(md)
    for t, e in mn:
        if t in dmd:
            common[t] = min(e, dmd[t])
    cm = tuple(sorted(common.items(), key=lambda x: x[0].d))
    n = _pdivmono(n, cm, cd)
    d = _pdivmono(d, cm, cd)
    # sign: leading coefficient of denominator positive
    if d and d[0][1] < 0:
        n = tuple((m, -c) for m, c in n)
        d = tuple((m, -c) for m, c in d)
    if n == d:
        return C(1.0 if k == "f" else 1)
    # proportional
    if len(n) == len(d) and d != PONE:
        r = n[0][1] / d[0][1]
        if n[0][0] == d[0][0] and all(a[0] == b[0] and a[1] == r * b[1] for a, b in zip(n, d)):
            n, d = ((((), r),)), PONE
    if d == PONE:
        if len(n) == 1 and n[0][0] == ():
            c = n[0][1]
            if k == "f":
                return C(float(c))
            return C(int(c)) if c.denominator == 1 else C(float(c))
        if len(n) == 1 and n[0][1] == 1 and len(n[0][0]) == 1 and n[0][0][0][1] == 1 \
                and (k != "f" or kind(n[0][0][0][0]) == "f"):
            return n[0][0][0][0]
    return mk("num", _pt(n), _pt(d), k)


def _whole_sums(n):
    """f(x[0]) + the sum of f over x[1:] is the sum of f over x"""
    for mo, c in n:
        if len(mo) != 1 or mo[0][1] != 1 or mo[0][0].op != "sum" or \
                mo[0][0].args[0].op != "upto":
            continue
        dom, h, tree = mo[0][0].args[:3]
        lv = mk("lv", h)
        for mo2, c2 in n:
            if c2 != c or len(mo2) != 1 or mo2[0][1] != 1 or mo2 is mo:
                continue
            a = mo2[0][0]
            if subst(tree, {lv: C(-1)}) is not a:
                continue
            k = add(dom.args[0], C(1))
            if k.op == "len" and mk("sub", k.args[0], C(0)) in leaves(a):
                whole = mk("sum", upto(k), h, subst(tree, {lv: add(lv, C(1), -1)}),
                           *mo[0][0].args[3:])
                return padd(tuple(x for x in n if x[0] is not mo and x[0] is not mo2),
                            ((((whole, 1),), c),))
    return n


def _jk(a, b):
    if "f" in (a, b):
        return "f"
    if a in ("i", "b") and b in ("i", "b"):
        return "i"
    return "?"


def add(a, b, s=1):
    n1, d1, k1 = ratio(a)
    n2, d2, k2 = ratio(b)
    if d1 == d2:
        return mknum(padd(n1, n2, s), d1, _jk(k1, k2))
    return mknum(padd(pmul(n1, d2), pmul(n2, d1), s), pmul(d1, d2), _jk(k1, k2))


def mul(a, b):
    n1, d1, k1 = ratio(a)
    n2, d2, k2 = ratio(b)
    return mknum(pmul(n1, n2), pmul(d1, d2), _jk(k1, k2))


def tdiv(a, b):
    n1, d1, k1 = ratio(a)
    n2, d2, k2 = ratio(b)
    if not n2:
        return mk("divzero", a)
    return mknum(pmul(n1, d2), pmul(d1, n2), "f")


def neg(a):
    n, d, k = ratio(a)
    return mknum(tuple((m, -c) for m, c in n), d, k)


def power(a, n):
    r = C(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def num_equal(a, b):
    """rational functions equal (ignoring int/float representation)"""
    n1, d1, _ = ratio(a)
    n2, d2, _ = ratio(b)
    return pmul(n1, d2) == pmul(n2, d1)


# -- equality modulo numeric representation -----------------------------------
_teq = {}


def teq(a, b):
    if a is b:
        return True
    k = (a, b)
    r = _teq.get(k)
    if r is None:
        r = _teq[k] = _teq0(a, b)
    return r


def _isnumeric(t):
    return t.op in ("num", "float") or isnum(t)


def _teq0(a, b):
    if a.unk or b.unk:
        return False
    if _isnumeric(a) or _isnumeric(b):
        if (isc(a) and not isnum(a)) or (isc(b) and not isnum(b)):
            return False
        n1, d1, _ = ratio(a)
        n2, d2, _ = ratio(b)
        if pmul(n1, d2) == pmul(n2, d1):
            return True
        # atoms may be equal only modulo teq: unify atoms
        atoms = _patoms(n1) | _patoms(d1)
        batoms = _patoms(n2) | _patoms(d2)
        m = {}
        for y in batoms - atoms:
            for x in atoms - batoms:
                if x.op == y.op and teq(x, y):
                    m[y] = x
                    break
        if not m:
            return False
        n2, d2 = _psub(n2, m), _psub(d2, m)
        return pmul(n1, d2) == pmul(n2, d1)
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    if a.op == "c":
        return a.args == b.args and type(a.args[0]) == type(b.args[0])
    if a.op in COMM:
        xs = list(a.args)
        for y in b.args:
            for i, x in enumerate(xs):
                if _sub(x, y):
                    del xs[i]
                    break
            else:
                return False
        return True
    return all(_sub(x, y) for x, y in zip(a.args, b.args))


COMM = {"eq", "and", "or", "inter", "union", "max", "min", "guard", "alts",
        "attrs", "attrib", "kws"}


def _sub(x, y):
    if isinstance(x, T):
        return isinstance(y, T) and teq(x, y)
    return type(x) == type(y) and x == y


def _patoms(p):
    return {t for m, _ in p for t, _ in m}


def _psub(p, m):
    out = {}
    for mo, c in p:
        e = {}
        for t, k in mo:
            t = m.get(t, t)
            e[t] = e.get(t, 0) + k
        mm = tuple(sorted(e.items(), key=lambda x: x[0].d))
        out[mm] = out.get(mm, 0) + c
    return _pnorm(out)


# -- substitution -------------------------------------------------------------

def subst(t, m, memo=None):
    """replace subterms; rebuilds numerics in normal form"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is None:
        if t.op == "num":
            n, d, k = ratio(t)
            r = tdiv_like(_evalp(n, m, memo), _evalp(d, m, memo), k)
        elif any(isinstance(a, T) for a in t.args):
            na = [subst(a, m, memo) if isinstance(a, T) else a for a in t.args]
            if all(x is y for x, y in zip(na, t.args)):
                r = t
            else:
                r = rebuild(t.op, na)
        else:
            r = t
    memo[t] = r
    return r


def _evalp(p, m, memo):
    tot = C(0)
    for mo, c in p:
        v = C(int(c)) if c.denominator == 1 else C(float(c))
        for t, k in mo:
            s = subst(t, m, memo)
            v = mul(v, power(s, k))
        tot = add(tot, v)
    return tot


def tdiv_like(n, d, k):
    n1, d1, _ = ratio(n)
    n2, d2, _ = ratio(d)
    if not n2:
        return mk("divzero", n)
    return mknum(pmul(n1, d2), pmul(d1, n2), k)


def setof(seq):
    return _setof(seq)


def mkset(op, *cs):
    """set content terms: setof(seq) | inter | union | diff, simplified"""
    flat = []
    for x in cs:
        if x.op == "setof" and len(x.args[0].args) == 1 and x.args[0].args[0].op == "splice" \
                and x.args[0].args[0].args[0].op == "setv":
            x = x.args[0].args[0].args[0].args[0]
        flat.extend(x.args if x.op == op and op != "diff" else (x,))
    none = mk("setof", EMPTY)
    if op == "diff":
        rest = [x for x in flat[1:] if x is not none]
        if flat[0] is none or flat[0] in rest:
            return none
        return mk("diff", flat[0], *sorted(set(rest))) if rest else flat[0]
    if op == "inter" and none in flat:
        return none
    if op == "union":
        flat = [x for x in flat if x is not none] or [none]
    if op == "inter":
        flat = from_first(flat)
    flat = sorted(set(flat))
    return flat[0] if len(flat) == 1 else mk(op, *flat)


def from_first(xs):
    """what all of x[1:] have in common, with x[0], is what all of x have in common"""
    out = list(xs)
    for p in xs:
        if p.op != "interof" or p.args[0].op != "upto":
            continue
        dom, h, tree = p.args
        lv = mk("lv", h)
        for q in out:
            if q is p or q.op == "interof":
                continue
            if subst(tree, {lv: C(-1)}) is q:
                out.remove(q)
                out.remove(p)
                out.append(mk("interof", upto(add(dom.args[0], C(1))), h,
                              subst(tree, {lv: add(lv, C(1), -1)})))
                break
            x = dom.args[0].op == "len" and mk("sub", dom.args[0].args[0], C(0))
            if x and subst(tree, {lv: C(0)}) is q and x in leaves(q):
                out.remove(q)
                break
    return out


def _loose(t):
    """what a set is made from: items of sets and lists within it are its items"""
    if t.op == "ite":
        hi, lo = _loose(t.args[1]), _loose(t.args[2])
        return t if hi is t.args[1] and lo is t.args[2] else \
            hi if hi is lo else mk("ite", t.args[0], hi, lo)
    if t.op == "each":
        b = _loose(t.args[2])
        if b is t.args[2]:
            return t
        h = 1 + b.ht
        if h != t.args[1]:
            b = subst(b, {mk("lv", t.args[1]): mk("lv", h)})
        return mk("each", t.args[0], h, b)
    if t.op != "seq":
        return t
    ps = []
    for p in t.args:
        if p.op == "splice":
            x = p.args[0]
            if x.op == "setv" and x.args[0].op == "setof" and x.args[0].args[0].op == "seq":
                ps.extend(_loose(x.args[0].args[0]).args)
                continue
            if x.op in ("list", "tuple") and all(
                    isinstance(y, T) and (x.op == "tuple" or y.op in ("item", "splice", "each"))
                    for y in x.args):
                ps.extend(_loose(mk("seq", *x.args)).args if x.op == "list" else
                          [mk("item", y) for y in x.args])
                continue
        ps.append(_loose(p) if p.op == "each" else p)
    return t if len(ps) == len(t.args) and all(x is y for x, y in zip(ps, t.args)) else \
        mk("seq", *ps)


def _whole_each(ps):
    """what x[0] contributes and what all of x[1:] contribute is what all of x do"""
    for p in ps:
        if p.op != "each" or p.args[0].op != "upto":
            continue
        dom, h, tree = p.args
        k = add(dom.args[0], C(1))
        if k.op != "len":
            continue
        lv = mk("lv", h)
        one = subst(tree, {lv: C(-1)})
        if one.op == "seq" and one.args and mk("sub", k.args[0], C(0)) in leaves(one) and \
                all(q in ps for q in one.args):
            return [q for q in ps if q is not p and q not in one.args] + [
                mk("each", upto(k), h, subst(tree, {lv: add(lv, C(1), -1)}))]
    return ps


def _setof(seq):
    seq = _loose(seq)
    ps = []
    for p in seq.args if seq.op == "seq" else ():
        if p.op == "splice" and p.args[0].op in ("list", "tuple") and not p.args[0].args:
            continue
        if p.op == "splice" and isc(p.args[0]) and p.args[0].args[0] == "":
            continue
        ps.append(p)
    if seq.op == "seq" and len(ps) != len(seq.args):
        seq = mk("seq", *ps)
    if len(ps) == 1 and ps[0].op == "splice" and ps[0].args[0].op == "setv":
        return ps[0].args[0].args[0]
    if len(ps) == 1 and ps[0].op == "each":
        # the items of one sequence that are in another container
        dom, h, t = ps[0].args
        if dom.op == "upto" and dom.args[0].op == "len" and t.op == "ite":
            el = mk("sub", dom.args[0].args[0], mk("lv", h))
            a, hi, lo = t.args
            if a.op == "in" and a.args[0] is el and hi is mk("seq", mk("item", el)) \
                    and lo is EMPTY:
                return mkset("inter", _setof(mk("seq", mk("splice", dom.args[0].args[0]))),
                             _setof(mk("seq", mk("splice", a.args[1]))))
    if len(ps) > 1:
        ps = _whole_each(ps)
        seq = mk("seq", *ps)
    if len(ps) > 1 and any(p.op == "splice" for p in ps) and not any(
            p.op == "splice" and (p.args[0].op in ("cellv", "carry") or p.args[0].car)
            for p in ps):
        rest = [p for p in ps if p.op != "splice"]
        return mkset("union", *[_setof(mk("seq", p)) for p in ps if p.op == "splice"] +
                     ([_setof(mk("seq", *rest))] if rest else []))
    return mk("setof", seq)


def _len(x):
    if x.op == "setv" and x.args[0] is mk("setof", EMPTY):
        return C(0)
    if x.op in ("tuple",):
        return C(len(x.args))
    if x.op == "list" and not x.args:
        return C(0)
    if isstr(x):
        return C(len(x.args[0]))
    if x.op == "setv" and x.args[0].op == "union" and len(x.args[0].args) == 2:
        a, b = x.args[0].args
        return add(add(_len(mk("setv", a)), _len(mk("setv", b))),
                   _len(mk("setv", mkset("inter", a, b))), -1)
    return mk("len", x)


def _mm(op):
    def f(*a):
        if len(a) == 1:
            if a[0].op != "list":
                return mk(op, *a)
            ps = [p for p in a[0].args if not (p.op == "splice" and p.args[0].op == "list" and
                                               not p.args[0].args)]
            if not ps or any(p.op != "item" for p in ps):
                return mk(op, mk("list", *ps))
            a = [p.args[0] for p in ps]
            if len(a) == 1:
                return a[0]
        flat = []
        for x in a:
            for y in (x.args if x.op == op and len(x.args) > 1 else (x,)):
                if y not in flat:
                    flat.append(y)
        if all(isnum(x) for x in flat):
            return C({"max": max, "min": min}[op](x.args[0] for x in flat))
        if op == "max" and any(x.op == "len" for x in flat):
            flat = [x for x in flat if not (isnum(x) and x.args[0] <= 0)]
        if op == "min" and any(isnum(x) and x.args[0] <= 0 for x in flat):
            flat = [x for x in flat if x.op != "len"]
        return _joined(op, flat) or (flat[0] if len(flat) == 1 else mk(op, *sorted(flat)))
    return f


def _joined(op, flat):
    """the largest of something and a list is the largest of a longer list"""
    ls = [x for x in flat if x.op == op and len(x.args) == 1 and x.args[0].op == "list"]
    if len(ls) != 1 or len(flat) == 1:
        return None
    return mk(op, mk("list", *([mk("item", x) for x in sorted(flat) if x is not ls[0]] +
                               list(ls[0].args[0].args))))


REBUILD["max"] = _mm("max")
REBUILD["min"] = _mm("min")


def _upd(base, *ws):
    """writes of different constant keys one after the other come in any order"""
    out, run = [base], []
    for w in ws + (None,):
        if w is not None and w.op == "kv" and isstr(w.args[0]):
            run.append(w)
            continue
        if len({x.args[0] for x in run}) == len(run):
            run.sort(key=lambda x: x.args[0].args[0])
        out += run
        run = []
        if w is not None:
            out.append(w)
    return mk("upd", *out)


REBUILD["upd"] = _upd
def upto(x):
    """domain 0 .. x-1, empty for x <= 0"""
    if x.op == "max" and len(x.args) == 2 and C(0) in x.args:
        x = x.args[0] if x.args[1] is C(0) else x.args[1]
    return mk("upto", x)


REBUILD["upto"] = upto
BIG = (2147483647, 9223372036854775807)


def mkslice(lo, hi, step):
    """slice with the default bounds written as None"""
    if step is C(1):
        step = NONE
    if step is NONE:
        if lo is C(0):
            lo = NONE
        if hi.op == "c" and hi.args[0] in BIG:
            hi = NONE
    return mk("slice", lo, hi, step)


REBUILD["slice"] = mkslice
REBUILD["inter"] = lambda *a: mkset("inter", *a)
REBUILD["union"] = lambda *a: mkset("union", *a)
REBUILD["diff"] = lambda *a: mkset("diff", *a)
REBUILD["setof"] = _setof
REBUILD["len"] = _len


def rebuild(op, args):
    if op == "eq" and len(args) == 2:
        return eq(*args)
    if op in BINDERS:
        n = 3 if op == "loop" else len(args)        # the initial values are outside
        h = 1 + max([a.ht for a in args[2:n] if isinstance(a, T)])
        if h != args[1]:
            inside = set().union(*[leaves(a) for a in args[2:n] if isinstance(a, T)])
            taken = {x.args[0] for x in inside if x.op in ("lv", "cellv")}
            while h != args[1] and h in taken:
                h += 1              # the variable of a binder around this one
            m = {mk("lv", args[1]): mk("lv", h)}
            if op == "loop":
                for x in leaves(args[2]):
                    if x.op == "cellv" and x.args[0] == args[1]:
                        m[x] = mk("cellv", h, *x.args[1:])
            args = [args[0], h] + [subst(a, m) if isinstance(a, T) else a
                                   for a in args[2:n]] + list(args[n:])
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


# -- boolean-ish atoms ----------------------------------------------------------

def eq(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        x, y = a.args[0], b.args[0]
        return TRUE if x == y else FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = f_and(r, eq(x, y))
        return r
    if a.op in ("builtin", "cls") and b.op in ("builtin", "cls"):
        return FALSE
    if a.op == b.op == "num":
        # -a == -b
        (n, d, _), (n2, d2, _) = ratio(a), ratio(b)
        if d == d2 == PONE and len(n) == len(n2) == 1 and n[0][1] == n2[0][1] and \
                all(len(x[0][0]) == 1 and x[0][0][0][1] == 1 for x in (n, n2)):
            return eq(n[0][0][0][0], n2[0][0][0][0])
    for x, y in ((a, b), (b, a)):
        if x.op == "typeof" and y.op in ("builtin", "cls"):
            nm = y.args[0]
            return mk("isinst", x.args[0], {"unicode": "str"}.get(nm, nm))
        # an item or a default that is not the constant
        if isc(y) and x.op == "ite" and isc(x.args[2]) and x.args[2].args[0] != y.args[0] and \
                x.args[0].op == "in" and x.args[1].op == "sub" and \
                x.args[0].args == x.args[1].args[::-1]:
            return eq(x.args[1], y)
        # a prefix or suffix of the length of the constant
        if isstr(y) and x.op == "sub" and x.args[1].op == "slice" and y.args[0]:
            n = len(y.args[0])
            if x.args[1] is mk("slice", NONE, C(n), NONE):
                return mk("truth", mk("smeth", "startswith", x.args[0], y))
            if x.args[1] is mk("slice", C(-n), NONE, NONE):
                return mk("truth", mk("smeth", "endswith", x.args[0], y))
    for x, y in ((a, b), (b, a)):
        if y is NONE:
            return mk("is", x, NONE)
    if b.d < a.d:
        a, b = b, a
    return mk("eq", a, b)


def f_not(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == "not":
        return f.args[0]
    return mk("not", f)


def f_and(*fs):
    out = []
    for f in fs:
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        if f.op == "and":
            out.extend(f.args)
        else:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def f_or(*fs):
    out = []
    for f in fs:
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        if f.op == "or":
            out.extend(f.args)
        else:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


# -- display ----------------------------------------------------------------------

def _pshow(p):
    if not p:
        return "0"
    parts = []
    for m, c in p:
        s = "*".join((show(t) + ("^%d" % k if k != 1 else "")) for t, k in m)
        if not s:
            s = str(c)
        elif c != 1:
            s = "%s*%s" % (c, s)
        parts.append(s)
    return " + ".join(parts)


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, str) else t
    if depth > 14:
        return "..."
    o = t.op
    a = t.args
    if o == "c":
        return repr(a[0])
    if o in ("param", "gvar", "bv", "lv", "obj", "carry"):
        return ("%s" % a[0]) if o in ("param", "gvar") else "%s%s" % (o, ".".join(str(x) for x in a))
    if o == "num":
        n, d = _tp(a[0]), _tp(a[1])
        s = _pshow(n)
        if d != PONE:
            s = "(%s)/(%s)" % (s, _pshow(d))
        return "{%s}" % s
    if o == "attr":
        return "%s.%s" % (show(a[0], depth + 1), a[1])
    if o == "sub":
        return "%s[%s]" % (show(a[0], depth + 1), show(a[1], depth + 1))
    if o == "eq":
        return "(%s == %s)" % (show(a[0], depth + 1), show(a[1], depth + 1))
    if o == "lt":
        return "(%s < %s)" % (show(a[0], depth + 1), show(a[1], depth + 1))
    if o == "not":
        return "not %s" % show(a[0], depth + 1)
    if o == "truth":
        return "bool(%s)" % show(a[0], depth + 1)
    if o == "tuple":
        return "(%s)" % ", ".join(show(x, depth + 1) for x in a)
    return "%s(%s)" % (o, ", ".join(show(x, depth + 1) for x in a))


def leaves(t, acc=None, seen=None):
    """all subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return seen
