"""Reaction networks: generator, independent model of the graph, and brute-force path search."""
from collections import Counter
from itertools import combinations

from hypothesis import strategies as st
from pymatgen.core import Element
from rxn_network.costs.base import CostFunction
from rxn_network.costs.functions import Softplus
from rxn_network.network.network import ReactionNetwork, get_edge_weight
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet
from vp import gen, rsets
from vp.core import ensure
from vp.enums import ekey


class TableCost(CostFunction):
    """Cost stored with the reaction ("c" in its data, in sixteenths or finer)."""

    def __init__(self, base=1.0, div=16):
        self.base = base
        self.div = div

    def evaluate(self, rxn):
        return self.base + rxn.data.get("c", 0) / self.div


@st.composite
def network(draw, lo=4, hi=7, max_rxns=14, min_rxns=2, guided=st.booleans()):
    es = draw(rsets.entries(lo=lo, hi=hi, max_els=3, temps=(300, 900)))
    pick = st.tuples(st.integers(0, 999), st.integers(0, 99), st.integers(0, len(rsets.SCALES) - 1)).map(list)
    d = dict(es=es, picks=draw(st.lists(pick, min_size=min_rxns, max_size=max_rxns)), mix=draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99), st.integers(1, 3), st.integers(0, 99)).map(list), max_size=2)),
             dup=draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, len(rsets.SCALES) - 1), st.integers(0, 99)).map(list), max_size=2)), guided=draw(guided),
             P=draw(st.lists(st.integers(0, 30), min_size=1, max_size=draw(st.sampled_from([3, 3, 3, 5])))), cost=draw(st.sampled_from(["table", "table", "fine", "softplus"])))
    d["open"] = draw(st.sampled_from(sorted({e for x in es for e in x["c"]}))) if draw(st.integers(0, 3)) == 0 else None
    d["mu"] = draw(st.sampled_from([-0.5, 0.0, -2.0]))
    d["ct"] = draw(st.sampled_from([300, 300, 1000, 1600]))
    return d


class Model:
    """rxns: list of (reactant indices, product indices, {index: coefficient}, data)."""

    def __init__(self, d):
        self.d = d
        self.entries = gen.mk_entries(d["es"])
        self.keys = [ekey(e) for e in self.entries]
        comps = rsets.comps_of(d["es"])
        pairs = gen.balanced_pairs(comps, 2, 2, 400)
        n = len(self.entries)
        self.P0 = sorted({p % n for p in d["P"]})
        if d.get("hub"):  # most reactions give the same phase
            pairs = gen.balanced_pairs(comps, 2, 2, 1500)
            n_of = [len({x[1] for x in pairs if i in x[1]}) for i in range(n)]
            pairs = [x for x in pairs if n_of.index(max(n_of)) in x[1]]
        out, P0 = [], set(self.P0)
        made = [P0]
        for p, c, s in d["picks"]:
            pool = [x for x in pairs if any(set(x[0]) <= P0 | q for q in made)] if d["guided"] else pairs
            pool = pool or pairs
            if not pool:
                break
            a, b, k = pool[p % len(pool)]
            made.append(set(b))
            out.append((a, b, {i: x * rsets.SCALES[s] for i, x in zip(a + b, k)}, dict(c=c)))
        for k, c in d.get("given", []):  # reactions given as they are
            out.append((tuple(i for i, x in k if x < 0), tuple(i for i, x in k if x > 0), {i: float(x) for i, x in k}, dict(c=c)))
        for i, w, u, c in d["mix"]:  # several products from the same reactants, in two proportions
            by = {}
            for x in out:
                by.setdefault(frozenset(x[0]), []).append(x)
            cands = [(x, y) for v in by.values() for x, y in combinations(v, 2) if not set(x[1]) & set(y[1]) and len(set(x[1]) | set(y[1])) <= 3]
            cands = [(x, y) for x, y in cands if len({tuple(sorted(comps[q].items())) for q in set(x[1]) | set(y[1])}) == len(set(x[1]) | set(y[1]))]
            if not cands:
                break
            x, y = cands[i % len(cands)]
            for f in ((1, u), (u + 1, 1))[: 1 + w % 2]:
                k = {q: f[0] * x[2].get(q, 0) + f[1] * y[2].get(q, 0) for q in set(x[2]) | set(y[2])}
                out.append((x[0], tuple(sorted(set(x[1]) | set(y[1]))), k, dict(c=c)))
        for i, s, c in d["dup"]:
            if out:
                x = out[i % len(out)]
                out.append((x[0], x[1], {q: v * rsets.SCALES[s] for q, v in x[2].items()}, dict(c=c)))
        self.rxns = out
        self.used = sorted({i for x in out for i in x[2]})
        self.chempots = {Element(d["open"]): d.get("mu", -0.5)} if d["open"] else None
        self.cf = TableCost() if d["cost"] == "table" else TableCost(div=4096) if d["cost"] == "fine" else Softplus(d.get("ct", 300))
        self.objs = [self.make(x) for x in out]
        self.cost = [self.cf.evaluate(r) for r in self.objs]
        self.nodes = {("Reactants", frozenset(x[0])) for x in out} | {("Products", frozenset(x[1])) for x in out}

    @property
    def indistinct(self):
        es = self.entries
        if any(a.composition.reduced_formula == b.composition.reduced_formula and abs(a.energy_per_atom - b.energy_per_atom) < 1e-3 for a, b in combinations(es, 2)):
            return True
        by = {}
        for x in self.rxns:
            by.setdefault((x[0], x[1]), []).append(x[2])
        return any(sorted(round(v, 4) for v in k1.values()) == sorted(round(v, 4) for v in k2.values()) and any(abs(k1[q] - k2[q]) > 1e-4 for q in k1) for v in by.values() for k1, k2 in combinations(v, 2))

    def make(self, x):
        es, k = [self.entries[i] for i in x[2]], list(x[2].values())
        return OpenComputedReaction(es, k, dict(self.chempots), data=dict(x[3])) if self.chempots else ComputedReaction(es, k, data=dict(x[3]))

    def reaction_set(self):
        return ReactionSet.from_rxns(self.objs, filter_duplicates=False)

    def network(self):
        return ReactionNetwork(self.reaction_set(), self.cf)

    def min_of(self, formula):
        return min((i for i in self.used if self.entries[i].composition.reduced_formula == formula), key=lambda i: self.entries[i].energy_per_atom)

    def key(self, r):
        idx = {k: i for i, k in enumerate(self.keys)}
        return tuple(sorted((idx[ekey(e)], round(float(c), 6)) for e, c in zip(r.entries, r.coefficients)))

    def links(self, P=None):
        """Zero-cost links from product to reactant phases."""
        Rs, Qs = [x for t, x in self.nodes if t == "Reactants"], [x for t, x in self.nodes if t == "Products"]
        return {(q, r) for q in Qs for r in Rs if q == r or (P is not None and not r <= P and r <= P | q)}

    def check_graph(self, rn, P, T, when):
        g = rn.graph
        idx = {k: i for i, k in enumerate(self.keys)}
        node = {i: (g.get_node_data(i).description.name, frozenset(idx[ekey(e)] for e in g.get_node_data(i).entries)) for i in g.node_indices()}
        want = set(self.nodes)
        if P is not None:
            want.add(("Precursors", frozenset(P)))
        if T is not None:
            want.add(("Target", frozenset([T])))
        ensure(len(set(node.values())) == len(node), "%s: nodes are repeated: %s", when, list(node.values()))
        ensure(set(node.values()) == want, "%s: nodes differ: %s", when, set(node.values()) ^ want)
        for i in g.node_indices():
            n = g.get_node_data(i)
            els = sorted({e.symbol for x in n.entries for e in x.composition.elements})
            ensure(n.dim == len(els) and sorted(n.chemsys.split("-")) == els, "%s: %s has dimension %s and chemical system %s", when, n, n.dim, n.chemsys)
        rx, zero = Counter(), set()
        for (a, b), e in zip(g.edge_list(), g.edges()):
            if isinstance(e, str):
                zero.add((node[a], node[b]))
                ensure(get_edge_weight(e, rn.cost_function) == 0, "%s: link %s costs something", when, e)
            else:
                rx[(node[a], node[b], self.key(e))] += 1
                ensure(gen.close(get_edge_weight(e, rn.cost_function), self.cf.evaluate(e)), "%s: %s costs %s", when, e, get_edge_weight(e, rn.cost_function))
                c = [w for (x, w) in zip(self.rxns, self.cost) if tuple(sorted((i, round(v, 6)) for i, v in x[2].items())) == self.key(e)]
                ensure(any(gen.close(self.cf.evaluate(e), w) for w in c), "%s: %s costs %s rather than %s", when, e, self.cf.evaluate(e), c)
        wrx = Counter((("Reactants", frozenset(x[0])), ("Products", frozenset(x[1])), tuple(sorted((i, round(v, 6)) for i, v in x[2].items()))) for x in self.rxns)
        ensure(rx == wrx, "%s: reaction edges missing %s, unexpected %s", when, list((wrx - rx).items())[:3], list((rx - wrx).items())[:3])
        wz = {(("Products", q), ("Reactants", r)) for q, r in self.links(None if P is None else frozenset(P))}
        if P is not None:
            wz |= {(("Precursors", frozenset(P)), n) for n in self.nodes if n[0] == "Reactants" and n[1] <= set(P)}
        if T is not None:
            wz |= {(n, ("Target", frozenset([T]))) for n in self.nodes if n[0] == "Products" and T in n[1]}
        ensure(zero == wz, "%s: links missing %s, unexpected %s", when, list(wz - zero)[:3], list(zero - wz)[:3])

    def step_cost(self):
        best = {}
        for x, c in zip(self.rxns, self.cost):
            k = (frozenset(x[0]), frozenset(x[1]))
            best[k] = min(c, best.get(k, c))
        return best

    def reachable(self, P, q):
        """Whether a product node can be reached."""
        P = frozenset(P)
        links, ok = self.links(P), set()
        while True:
            new = {frozenset(x[1]) for x in self.rxns if frozenset(x[1]) not in ok and (frozenset(x[0]) <= P or any((o, frozenset(x[0])) in links for o in ok))}
            if not new:
                return frozenset(q) in ok
            ok |= new

    def paths(self, P, T, cap=4000, work=60000):
        """Costs of all simple paths from P to T (ascending); None when there are too many."""
        P = frozenset(P)
        best = self.step_cost()
        after = {}
        for r, q in best:
            after.setdefault(r, []).append(q)
        nxt = {}
        for q, r in self.links(P):
            nxt.setdefault(q, []).append(r)
        out, steps = [], 0
        stack = [(r, frozenset([("R", r)]), 0.0) for r in after if r <= P]
        while stack:
            r, seen, c = stack.pop()
            for q in after[r]:
                steps += 1
                if steps > work or len(out) > cap:
                    return None
                if ("Q", q) in seen:
                    continue
                c2, s2 = c + best[r, q], seen | {("Q", q)}
                if T in q:
                    out.append(c2)
                for r2 in nxt.get(q, ()):
                    if ("R", r2) not in s2:
                        stack.append((r2, s2 | {("R", r2)}, c2))
        return sorted(out)

    def check_path(self, p, P, T, best):
        """The pathway is a real simple path; returns its sequence of (reactants, products)."""
        P = frozenset(P)
        steps = []
        idx = {k: i for i, k in enumerate(self.keys)}
        rk = {tuple(sorted((i, round(v, 6)) for i, v in x[2].items())) for x in self.rxns}
        ensure(len(p.costs) == len(p.reactions) > 0, "%s reactions have %s costs", len(p.reactions), len(p.costs))
        for r, c in zip(p.reactions, p.costs):
            R, Q = (frozenset(idx[ekey(e)] for e in x) for x in (r.reactant_entries, r.product_entries))
            ensure(self.key(r) in rk, "%s is not a reaction of the network", r)
            ensure((R, Q) in best and gen.close(c, best[R, Q]), "%s costs %s in the path; the cheapest such reaction costs %s", r, c, best.get((R, Q)))
            w = [y for x, y in zip(self.rxns, self.cost) if tuple(sorted((i, round(v, 6)) for i, v in x[2].items())) == self.key(r)]
            ensure(any(gen.close(c, y) for y in w), "%s is given the cost %s", r, c)
            steps.append((R, Q))
        ensure(gen.close(p.total_cost, sum(p.costs)), "total cost %s", p.total_cost)
        ensure(steps[0][0] <= P, "the path starts with %s, not from the precursors", p.reactions[0])
        for (_, q), (r, _) in zip(steps, steps[1:]):
            ensure(q == r or (r <= P | q and not r <= P), "a step uses phases that neither the precursors nor the step before supply: %s", p)
        ensure(T in steps[-1][1], "the path does not end with the target: %s", p)
        ensure(len({r for r, _ in steps}) == len(steps) == len({q for _, q in steps}), "the path is not loop-free: %s", p)
        return tuple(steps)
