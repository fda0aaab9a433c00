"""Loops without a closed form, as transition systems in normal form.

loop(dom, h, tree, inits): `tree` decides, from the index lv(h) and the cells
cellv(h, i, kind), whether an iteration goes on -- next(values...) -- or leaves the
loop -- exit(...).  The cells are the asked one (number 0, if any) and those it
depends on, in an order that does not depend on their names.
"""
from .model import Cls
from .state import Ev, LoopEv, entails
from .terms import SETS, T, mk, C, NONE, EMPTY, setof, subst, leaves, kind, BINDERS, REBUILD, add, mul, isnum
from .binders import decide, paths, simplify, UNDEF, TooComplex

BINDERS.add("loop")
WHILE = mk("while")
ELIMINATE = [True]
ELIMINATED = [False]


def order(cells, vals, asked):
    """cells by colour: kind and initial value, refined by the transitions"""
    col = {c: ("0" if c in asked else "1", k, init.d) for c, (k, init) in cells.items()}
    for _ in range(3):
        ids = {c: i for i, c in enumerate(sorted(set(col.values())))}
        if len(ids) == len(cells):
            break
        m = {c: mk("colour", ids[col[c]]) for c in cells}
        new = {}
        for c in cells:
            sig = sorted(subst(v[c], m).d for v in vals if c in v)
            new[c] = col[c][:3] + ("".join(sig),)
        if len(set(new.values())) == len(set(col.values())):
            break
        col = new
    return sorted(cells, key=lambda c: col[c])


def close(dom, d, alts, cells, vals, asked):
    """alts [(facts, "next"|"exit", extra terms)], cells {cv: (kind, init)},
    vals [{cv: value}] parallel to alts -> loop term"""
    if dom.op == "upto" and ELIMINATE[0]:
        # a cell that only counts the iterations is an index
        m = {}
        for c in cells:
            if c not in asked:
                ks = {add(v[c], c, -1) for (g, k, x), v in zip(alts, vals) if k == "next"}
                k = next(iter(ks)) if len(ks) == 1 else None
                if k is not None and isnum(k) and not cells[c][1].unk:
                    m[c] = add(cells[c][1], mul(k, mk("bv", d)))
        if m:
            ELIMINATED[0] = True
            alts = [({subst(a, m): b for a, b in g.items()}, k, [subst(x, m) for x in extra])
                    for g, k, extra in alts]
            vals = [{c: subst(x, m) for c, x in v.items() if c not in m} for v in vals]
            cells = {c: x for c, x in cells.items() if c not in m}
    S = order(cells, vals, asked)
    h = 1
    for g, k, extra in alts:
        for a in list(g) + list(extra):
            h = max(h, 1 + a.ht)
    for v in vals:
        for x in v.values():
            h = max(h, 1 + x.ht)
    while True:
        tree = close_tree(d, h, alts, cells, vals, S)
        if tree.ht < h:
            break
        h = tree.ht + 1             # inner binders became higher
    return mk("loop", dom, h, tree, mk("inits", *[cells[c][1] for c in S]))


def close_tree(d, h, alts, cells, vals, S):
    m = {mk("bv", d): mk("lv", h)}
    for i, c in enumerate(S):
        m[c] = mk("cellv", h, i, cells[c][0])
    memo = {}
    out = []
    for (g, k, extra), v in zip(alts, vals):
        leaf = mk(k, *([subst(x, m, memo) for x in extra] + [subst(v[c], m, memo) for c in S]))
        gg = {}
        dead = False
        for a, b in g.items():
            f = subst(a, m, memo)
            if f.op == "not":
                f, b = f.args[0], not b
            if f.op == "c":
                dead = dead or bool(f.args[0]) != b
            else:
                gg[f] = b
        if not dead:
            out.append((gg, leaf))
    return decide(lifted(out))


def choices(t):
    """the facts that a value depends on, outside of loops of its own"""
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen or x.op in BINDERS:
            continue
        seen.add(x)
        if x.op == "ite" and x.args[0].op not in ("and", "or", "not", "c"):
            out.add(x.args[0])
        st.extend(x.args)
    return out


def lifted(alts):
    """alternatives without alternatives in their values"""
    out, todo = [], [(g, v) for g, v in alts]
    n = 0
    while todo:
        g, v = todo.pop()
        cs = choices(v)
        n += 1
        if not cs or n > 64:
            out.append((g, v))
            continue
        a = min(cs)
        for b in (True, False):
            e = entails(g, a)
            if e is not None and e != b:
                continue
            w = simplify(v, {a: b})
            if w is v:
                out.append((g, v))
                break
            todo.append((g | {a: b}, w))
    return out


def rebuild_loop(dom, h, tree, inits):
    try:
        tree = decide(lifted(paths(tree)))
    except TooComplex:
        pass
    return mk("loop", dom, h, tree, inits)


REBUILD["loop"] = rebuild_loop


class Machine:
    def content_kind(self, init):
        if init.op in SETS:
            return "S"
        if init.op == "upd":
            return "U" if init.args[0].op != "seq" else "L"
        return "L"

    def as_content(self, k, v):
        """content of a container whose value is the opaque term v"""
        if k == "S":
            return setof(mk("seq", mk("splice", v)))
        if k == "U":
            return mk("upd", v)
        return mk("seq", mk("splice", v))

    def cell_value(self, c, s, uid0):
        v = self.get_cell(s, c)
        if v is None:
            return UNDEF
        v = self.frozen_new(v, s, uid0)
        if v.hasobj:
            if c[0] == "content":
                v = self.freeze_content(v, s, (c[1],))
            else:
                v = self.freeze(v, s)
        return v

    def cell_init(self, c, st):
        v = self.get_cell(st, c)
        if v is None:
            return UNDEF
        if v.hasobj or v.op == "range":
            v = self.freeze_content(v, st, (c[1],)) if c[0] == "content" else self.freeze(v, st)
        return v

    def machine(self, st, dom, d, carried, alts, uid0, asked=None, extra=None):
        """loop term of `alts` [(kind, guard, state, value)]; asked: a cell;
        extra(alt) -> terms that take part in the leaf"""
        cvs = {cv: c for c, cv in carried.items()}
        S = []
        if asked is not None:
            S = [carried[asked]]
        ex = [list(extra(a)) if extra else [] for a in alts]
        vals = {}

        def value(cv, i):
            k = (cv, i)
            if k not in vals:
                c = cvs[cv]
                v = self.cell_value(c, alts[i][2], uid0)
                vals[k] = v
            return vals[k]
        lead = list(S)
        while True:
            tree = decide([(a[1], mk("next" if a[0] == "next" else "exit", *(
                ex[i] + [value(c, i) for c in S]))) for i, a in enumerate(alts)])
            used = {x for x in leaves(tree) if x.op == "carry" and x in cvs}
            new = [c for c in sorted(used) if c not in S]
            if not new:
                break
            S += new
            if len(S) > 12:
                raise TooComplex("loop state")
        cells = {}
        for cv in S:
            c = cvs[cv]
            init = self.cell_init(c, st)
            if c[0] == "content":
                k = self.content_kind(init)
            else:
                k = kind(cv)
            cells[cv] = (k, init)
        rel = []
        vs = []
        for i, a in enumerate(alts):
            rel.append((a[1], "next" if a[0] == "next" else "exit", ex[i]))
            vs.append({c: value(c, i) for c in S})
        return close(dom, d, rel, cells, vs, set(lead))

    def alt_events(self, a):
        """events of one iteration, as a term"""
        from .compare import ev_term, freeze_events
        kinds = getattr(self, "kinds", None)
        if kinds is None:
            kinds = {e.kind for e in a[2].ev}

        class O:
            st = a[2]
            interp = self
        return mk("evs", *[ev_term(e, {}, {}) for e in freeze_events(O, kinds)])

    def machine_events(self, s, st, dom, d, carried, alts, uid0, loc):
        evs = [self.alt_events(a) for a in alts]
        if all(e.args == () for e in evs):
            return
        idx = {id(a): e for a, e in zip(alts, evs)}
        f = self.machine(st, dom, d, carried, alts, uid0, extra=lambda a: [idx[id(a)]])
        s.ev = s.ev + (Ev("loop", (f,), loc),)

    def after(self, st, dom, d, carried, alts, uid0, c):
        """value of cell c after the loop"""
        f = self.machine(st, dom, d, carried, alts, uid0, asked=c)
        v = mk("after", f)
        if c[0] == "content":
            return self.as_content(self.content_kind(self.cell_init(c, st)), v)
        return v

    # -- a loop whose exits depend on its own state ---------------------------------------
    def run_machine(self, st, dom, d, carried, alts, n, uid0, und):
        """outcomes of the loop; alts [(kind, guard, state, value, loc)]"""
        from .state import assume
        from .interp import Outcome
        cvs = set(carried.values())
        bv = mk("bv", d)
        names = []
        info = []
        for a in alts:
            k, g, s, v = a[:4]
            nm = k
            if k == "raise":
                nm = "raise " + str(v.args[0] if v.args else v.op)
            elif k == "return":
                fv = self.freeze(v, s) if isinstance(v, T) else NONE
                if not self.carries(fv, cvs) and fv.mbv < d and not fv.unk:
                    nm = "return " + fv.d
            names.append(nm)
            info.append((nm, k, v, s, a[4]))
        exits = []
        for nm in names:
            if nm != "next" and nm not in exits:
                exits.append(nm)
        idx = {id(a): nm for a, nm in zip(alts, names)}
        # one way out is one way out, however it is written
        label = {nm: nm for nm in set(names)}
        if len(exits) == 1 and dom is not WHILE:
            label[exits[0]] = "exit"
        E = None
        if len(exits) > 1 or dom is not WHILE:
            E = self.machine(st, dom, d, carried, alts, uid0,
                             extra=lambda a: [C(label[idx[id(a)]])])
        kinds = sorted(exits)
        if dom is not WHILE:
            kinds.append("stop")
        out = []
        cont = any(x == "next" for x in names)
        for nm in kinds:
            states = [st]
            for o in kinds[:-1] if nm == kinds[-1] else kinds[:kinds.index(nm) + 1]:
                f = mk("exits", E, label.get(o, o))
                states = [y for s in states for y in assume(s, f, o == nm)]
            mine = [a for a in alts if idx[id(a)] == nm]
            for s in states:
                s = s.clone()
                for c in carried:
                    self.set_cell(s, c, self.after(st, dom, d, carried, alts, uid0, c))
                self.bound_names(s, st, dom, d, carried, alts, uid0)
                evloc = self.loc(n)
                self.machine_events(s, st, dom, d, carried, alts, uid0, evloc)
                s.und = s.und + tuple(u for u in und if u not in s.und)
                for mp in (s.attrs, s.content):
                    for key in [q for q in mp if (q[0] if isinstance(q, tuple) else q).mbv >= d]:
                        del mp[key]
                if nm in ("stop", "break"):
                    out.append(("fall" if nm == "stop" else "break", s, None, None))
                    continue
                k, v, se, loc = mine[0][0], mine[0][3], mine[0][2], mine[0][4]
                if k == "return":
                    if nm == "return":
                        r = self.machine(st, dom, d, carried, alts, uid0, extra=lambda a: [
                            self.freeze(a[3], a[2])] if idx[id(a)] == nm else [])
                        v = mk("retof", r)
                    else:
                        v = self.freeze(v, se) if isinstance(v, T) else NONE
                    out.append(("return", s, v, loc))
                elif k == "raise":
                    self.sink.append(Outcome("raise", s, v, loc))
                else:
                    out.append((k, s, None, None))
        return out

    def bound_names(self, s, st, dom, d, carried, alts, uid0):
        """names first bound inside the loop"""
        names = {}
        for a in alts:
            for k, v in a[2].env.items():
                if ("env", k) not in carried and st.env.get(k) is not v:
                    names[k] = True
        for k in names:
            self.uid += 1
            c = ("env", k)
            cc = dict(carried)
            cc[c] = mk("carry", d, k, self.uid)
            try:
                s.env[k] = self.after(st, dom, d, cc, alts, uid0, c)
            except TooComplex:
                self.uid += 1
                s.env[k] = mk("unk", self.uid)
