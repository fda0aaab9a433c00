"""How much of two normal forms differs.

Normal forms of equivalent code are meant to be equal, but a rewriting system
for Python cannot be complete.  A violation is reported where the differing
remainder is small on at least one side (one condition, index, operand, call or
effect that is missing or another); where both remainders are large, the two
sides say something unrelated and the obligation stays undecided.  The same
holds for facts about whole collections, of which no simple theory tells
whether they exclude each other.
"""
from .binders import under_fact
from .terms import T, teq, leaves, neg

PLAIN = {"mono", "pw", "poly", "setv", "seq", "splice"}    # wrappers of normal forms
AC = {"poly", "mono", "writes", "and", "or", "eq", "union", "inter", "max", "min", "attrs"}


def remainder(a, b):
    """(size of what is only in a, size of what is only in b)"""
    return Diff(leaves(a) & leaves(b)).dist(a, b, 0)


def sets(xs, ys):
    """the same for two sets of facts"""
    a = set().union(*[leaves(x) for x in xs]) if xs else set()
    b = set().union(*[leaves(y) for y in ys]) if ys else set()
    return Diff(a & b).bag(list(xs), list(ys), 0)


def intricate(t):
    """a fact about a whole collection, or with alternatives of its own: no simple
    theory decides whether two such facts exclude each other"""
    r = _intr.get(t)
    if r is None:
        r = _intr[t] = any(x.op in INTRICATE for x in leaves(t))
    return r


_intr = {}
INTRICATE = {"exists", "ite", "each", "sum", "first", "loop", "count", "setof", "sortedof",
             "raises"}
import os as _o; LIMITS = tuple(map(int, _o.environ.get("DSA_LIMITS", "2,4").split(",")))


def tests(t):
    """conditions of a decision tree"""
    r = _tests.get(t)
    if r is None:
        r = []
        for x in t.args[1:]:
            if x.op == "ite":
                r += [c for c in tests(x) if c not in r]
        r = _tests[t] = ([t.args[0]] + r)[:40]
    return r


_tests = {}


def shared_test(a, b):
    other = tests(b)
    for c in tests(a):
        if c in other:
            return c


def mirrored(a, b):
    if a.op == b.op == "pos":
        return a.args[0] is neg(b.args[0])
    return a.op == b.op == "lt" and a.args[0] is b.args[1] and a.args[1] is b.args[0]


def turned(a, b):
    return a.op == "not" and mirrored(a.args[0], b)


class Diff:
    def __init__(self, common):
        self.common = common        # subterms of both sides cost nothing
        self.memo = {}
        self.sizes = {}
        self.budget = 4000

    def size(self, t):
        if not isinstance(t, T):
            return 1
        n = self.sizes.get(t)
        if n is None:
            n = self.sizes[t] = 1 + sum(1 for x in leaves(t) if x not in self.common and
                                        x.op not in PLAIN)
        return n

    def dist(self, a, b, depth):
        if a is b:
            return 0, 0
        if not isinstance(a, T) or not isinstance(b, T):
            return (0, 0) if a == b else (self.size(a), self.size(b))
        if teq(a, b):
            return 0, 0
        k = (a, b)
        if k in self.memo:
            return 0, 0         # counted before
        r = None
        if r is None:
            whole = (self.size(a), self.size(b))
            self.budget -= 1
            if self.budget < 0 or depth > 40:
                return whole
            r = self.memo[k] = self.best([whole] + self.ways(a, b, depth))
        return r

    @staticmethod
    def best(rs):
        return min(rs, key=lambda r: (min(r), r[0] + r[1]))

    def ways(self, a, b, depth):
        out = []
        if turned(a, b) or turned(b, a):
            out.append((1, 1))           # <= instead of <
        if a.op == b.op == "ite" and mirrored(a.args[0], b.args[0]):
            p, q = self.dist(a.args[1], b.args[2], depth + 1)
            p2, q2 = self.dist(a.args[2], b.args[1], depth + 1)
            out.append((p + p2 + 1, q + q2 + 1))
        if a.op == b.op == "ite" and a.args[0] is not b.args[0] and depth < 20:
            c = shared_test(a, b)
            if c is not None:        # decided in another order
                u = v = 0
                for t in (True, False):
                    p, q = self.dist(under_fact(a, c, t), under_fact(b, c, t), depth + 1)
                    u += p
                    v += q
                out.append((u, v))
        if a.op == b.op:
            if a.op in AC or len(a.args) != len(b.args):
                out.append(self.bag(a.args, b.args, depth, a.op not in AC))
            else:
                u = v = 0
                for x, y in zip(a.args, b.args):
                    p, q = self.dist(x, y, depth + 1)
                    u += p
                    v += q
                out.append((u, v))
                if len(a.args) > 1 and sorted(map(str, map(id, a.args))) == \
                        sorted(map(str, map(id, b.args))):
                    out.append((1, 1))       # another order
            if a.op == "ite" and a.args[0] is b.args[0]:
                p, q = self.dist(a.args[1], b.args[2], depth + 1)
                p2, q2 = self.dist(a.args[2], b.args[1], depth + 1)
                out.append((p + p2 + 1, q + q2 + 1))
        if depth < 12:
            # one side wraps the other
            n = self.size(a) - self.size(b)
            if n > 0 or not n and a.op != b.op:
                for x in a.args:
                    if isinstance(x, T) and (x.op == b.op or x is b):
                        p, q = self.dist(x, b, depth + 1)
                        out.append((p + self.size(a) - self.size(x), q))
            if n < 0 or not n and a.op != b.op:
                for y in b.args:
                    if isinstance(y, T) and (y.op == a.op or y is a):
                        p, q = self.dist(a, y, depth + 1)
                        out.append((p, q + self.size(b) - self.size(y)))
        return out

    def bag(self, xs, ys, depth, ordered=False):
        xs, ys = list(xs), list(ys)
        for x in list(xs):
            for y in ys:
                if x is y or isinstance(x, T) and isinstance(y, T) and teq(x, y) or \
                        not isinstance(x, T) and x == y:
                    xs.remove(x)
                    ys.remove(y)
                    break
        if not xs or not ys:
            return sum(map(self.size, xs)), sum(map(self.size, ys))
        u = v = 0
        if len(xs) > 8 or len(ys) > 8:
            return sum(map(self.size, xs)), sum(map(self.size, ys))
        while xs and ys:
            cands = []
            for i, x in enumerate(xs):
                for j, y in enumerate(ys):
                    p, q = self.dist(x, y, depth + 1)
                    cands.append((min(p, q), p + q - self.size(x) - self.size(y), i, j, p, q))
                if ordered:
                    break
            _, _, i, j, p, q = min(cands)
            u += p
            v += q
            xs.pop(i)
            ys.pop(j)
        return u + sum(map(self.size, xs)), v + sum(map(self.size, ys))


def parts(a, b, out, seen, depth=0):
    """innermost pairs of differing subterms (for debugging)"""
    if (a, b) in seen or teq(a, b):
        return out
    seen.add((a, b))
    if a.op != b.op or len(a.args) != len(b.args) or depth > 60:
        out.append((a, b))
        return out
    n = len(out)
    for x, y in zip(a.args, b.args):
        if isinstance(x, T) and isinstance(y, T):
            parts(x, y, out, seen, depth + 1)
    if len(out) == n:
        out.append((a, b))
    return out
