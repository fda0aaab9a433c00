"""networkx.DiGraph (1.9): reads in terms of three dictionaries, writes as events.

nxsucc(g), nxpred(g), nxnode(g) are the successor, predecessor and node
dictionaries of graph g; nxedges(g) the list of (source, target) pairs.  After a
change of g, reads are about nxv(g, k), k being the number of changes so far.
"""
from .model import Cls
from .state import Ty
from .terms import T, mk, C, NONE, TRUE, FALSE, isc, f_not, f_or, add, upto

DICTS = {"succ": "nxsucc", "adj": "nxsucc", "edge": "nxsucc", "pred": "nxpred",
         "node": "nxnode"}
WRITES = set("""add_edge add_edges_from remove_edge remove_edges_from add_node
add_nodes_from remove_node remove_nodes_from clear add_path add_cycle add_star
add_weighted_edges_from reverse""".split())
NXOPS = ("nxsucc", "nxpred", "nxnode", "nxedges", "nxdata")
GENERIC = "networkx.DiGraph"


class Networkx:
    def is_graph(self, b, base=None):
        if base is not None and base.startswith("networkx."):
            return True
        c = self.cls_of(b)
        return c is not None and any(
            isinstance(x, str) and x.split(".")[-1] in ("DiGraph", "Graph") for x in c.mro)

    def nxg(self, g, st):
        g = self.freeze(g, st) if g.op != "obj" else g
        v = st.attrs.get((g, ".nxver"))
        return g if v is None or v is C(0) else mk("nxv", g, v)

    def nx_attr(self, b, name, st):
        """value of b.succ etc., or None"""
        if name in DICTS and self.is_graph(b):
            return mk(DICTS[name], self.nxg(b, st))
        return None

    def nx_type(self, t):
        o = t.op
        if o in ("nxsucc", "nxpred"):
            return Ty("dict", elem=Ty("dict", elem=Ty("dict")))
        if o == "nxnode":
            return Ty("dict", elem=Ty("dict"))
        if o in ("nxedges", "nxdata"):
            return Ty("list", elem=Ty("tuple"))
        return None

    def nx_need(self, st, formula, n, exc="NetworkXError"):
        return self.may_raise(st, exc, f_not(formula), n)

    def nx_nodes(self, nb, st, n):
        """[(state, [node])] of a bunch of nodes that are in the graph"""

    def nx_method(self, b, name, args, kw, st, n):
        g = self.nxg(b, st)
        S, P, N = mk("nxsucc", g), mk("nxpred", g), mk("nxnode", g)
        fz = [self.freeze(a, st) for a in args]
        if name in WRITES:
            return self.nx_write(b, g, name, args, kw, st, n)
        if name in ("__getitem__",) and len(args) == 1:
            return self.getitem0(S, args[0], st, n)
        if name in ("neighbors", "neighbors_iter", "successors", "successors_iter") \
                and len(args) == 1:
            return [(s, mk("keys", self.sub(S, fz[0], s)))
                    for s in self.nx_need(st, mk("in", fz[0], g), n)]
        if name in ("predecessors", "predecessors_iter") and len(args) == 1:
            return [(s, mk("keys", self.sub(P, fz[0], s)))
                    for s in self.nx_need(st, mk("in", fz[0], g), n)]
        if name in ("__contains__", "has_node") and len(args) == 1:
            return [(s, TRUE if x else FALSE) for s, x in
                    self.split(mk("in", fz[0], g), st)]
        if name in ("has_edge", "has_successor", "has_predecessor") and len(args) == 2:
            u, v = fz if name != "has_predecessor" else fz[::-1]
            return [(s, TRUE if x else FALSE) for s, x in self.nx_edge(g, u, v, st)]
        if name == "get_edge_data" and 2 <= len(args) + len(kw) <= 3:
            d = args[2] if len(args) > 2 else kw.get("default", NONE)
            return [(s, self.sub(self.sub(S, fz[0], s), fz[1], s) if x else d)
                    for s, x in self.nx_edge(g, fz[0], fz[1], st)]
        if name in ("edges", "edges_iter"):
            nb = args[0] if args else kw.get("nbunch", NONE)
            data = args[1] if len(args) > 1 else kw.get("data", FALSE)
            if nb is NONE and data in (TRUE, FALSE) and set(kw) <= {"data", "nbunch"}:
                return [(st, mk("nxdata" if data is TRUE else "nxedges", g))]
            return None
        if name in ("nodes", "nodes_iter"):
            data = args[0] if args else kw.get("data", FALSE)
            if data is FALSE:
                return [(st, mk("keys", N))]
            if data is TRUE:
                return [(st, mk("items", N))]
            return None
        if name == "__iter__" and not args:
            return [(st, mk("keys", N))]
        if name in ("number_of_nodes", "order", "__len__") and not args:
            return [(st, self.len_of(N, st))]
        if name in ("number_of_edges", "size") and not args and not kw:
            return [(st, mk("len", mk("nxedges", g)))]
        if name in ("degree", "in_degree", "out_degree") and len(args) == 1 and not kw and \
                self.items_of(args[0], st) is None and args[0].op != "tuple":
            out = []
            for s in self.nx_need(st, mk("in", fz[0], g), n):
                i = mk("len", self.sub(P, fz[0], s))
                o = mk("len", self.sub(S, fz[0], s))
                out.append((s, i if name == "in_degree" else o if name == "out_degree"
                            else add(i, o)))
            return out
        if name in ("degree_iter", "in_degree_iter", "out_degree_iter") and len(args) == 1:
            its = self.items_of(args[0], st)
            if its is None or len(its) > 3:
                return None
            states = [(st, [])]
            for x in its:
                fx = self.freeze(x, st)
                i, o = mk("len", self.sub(P, fx, st)), mk("len", self.sub(S, fx, st))
                d = i if name[0] == "i" else o if name[0] == "o" else add(i, o)
                nxt = []
                for s, l in states:
                    for s2, yes in self.split(mk("in", fx, g), s):
                        nxt.append((s2, l + [mk("tuple", fx, d)] if yes else l))
                states = nxt
            out = []
            for s, l in states:
                out.extend(self.fresh_list(l, s))
            return out
        if name in ("nbunch_iter",) and not args:
            return [(st, mk("keys", N))]
        return None

    def nx_edge(self, g, u, v, st):
        """split on: u -> v is an edge of g"""
        out = []
        for s, x in self.split(mk("in", u, g), st):
            if not x:
                out.append((s, False))
                continue
            out.extend(self.split(mk("in", v, mk("sub", mk("nxsucc", g), u)), s))
        return out

    def nx_attrs(self, fa, ad, kw, st):
        """attr_dict and keyword attributes as one dictionary"""
        d = {}
        if ad is not NONE:
            f = self.freeze(ad, st)
            if f.op != "dictv" or f.args[0].op != "upd" or f.args[0].args[0].op != "dempty" or \
                    not all(w.op == "kv" and isc(w.args[0]) for w in f.args[0].args[1:]):
                return None
            for w in f.args[0].args[1:]:
                d[w.args[0].args[0]] = w.args[1]
        for k, v in kw.items():
            if k != "attr_dict":
                d[k] = self.freeze(v, st)
        return list(fa) + [mk("attrs", *[mk("kv", C(k), d[k]) for k in sorted(d)])]

    def nx_write(self, b, g, name, args, kw, st, n):
        fa = self.fz(args, kw, st)
        if name == "add_edge" and 2 <= len(args) <= 3:
            fa = self.nx_attrs(fa[:2], args[2] if len(args) > 2 else kw.get("attr_dict", NONE),
                               kw, st) or fa
        elif name == "add_node" and 1 <= len(args) <= 2:
            fa = self.nx_attrs(fa[:1], args[1] if len(args) > 1 else kw.get("attr_dict", NONE),
                               kw, st) or fa
        states = [st]
        if name == "remove_edge" and len(args) == 2:
            states = []
            for s, x in (self.nx_edge(g, fa[0], fa[1], st)
                         if self.watched("NetworkXError") else [(st, True)]):
                if x:
                    states.append(s)
                else:
                    self.may_raise(s, "NetworkXError", TRUE, n)
        elif name == "remove_node" and len(args) == 1:
            states = self.nx_need(st, mk("in", fa[0], g), n)
        elif name in ("reverse",):
            return None
        out = []
        for s in states:
            s = s.clone()
            if not self.fresh(b):
                s.event("nx", (b, C(name)) + tuple(fa),
                        self.loc(n) if n is not None and hasattr(n, "lineno") else None)
            key = (self.freeze(b, s) if b.op != "obj" else b, ".nxver")
            s.attrs[key] = add(s.attrs.get(key, C(0)), C(1))
            out.append((s, NONE))
        return out
