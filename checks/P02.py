"""P02: pathways report consistent costs, membership, balance and interdependence."""
from vp import fakeray

fakeray.install()
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from rxn_network.pathways.balanced import BalancedPathway  # noqa: E402
from rxn_network.pathways.basic import BasicPathway  # noqa: E402
from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from vp import gen, net, rsets  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "P02"
RULE = ("Pathways of one to six reactions over up to ten phases of two or three elements, chosen at random or so that each step starts from the phases made so far, with arbitrary multiplicities and costs; "
        "any set of precursors. Interdependence is compared with a search over the orders of the reactions. Non-trivial: at least three reactions with an intermediate.")


@st.composite
def case(draw):
    d = draw(net.network(lo=2, hi=6, max_rxns=6, min_rxns=draw(st.sampled_from([1, 3, 4])), guided=st.booleans()))
    d["w"] = draw(st.lists(st.integers(1, 12), min_size=12, max_size=12))
    d["cost"] = draw(st.sampled_from(["table", "softplus"]))
    d["extra"] = draw(st.lists(st.integers(0, 30), max_size=2))
    d["useP"] = draw(st.integers(0, 3)) > 0
    d["as"] = draw(st.sampled_from(["list", "set", "tuple"]))
    d["exp"] = draw(st.lists(st.sampled_from([None, False, True]), min_size=12, max_size=12))
    return d


def fn(d, rec):
    for x, t in zip(d["es"], d["exp"]):
        if t is not None:
            x["data"] = dict(x.get("data", {}), theoretical=t, icsd_ids=[] if t else [5])
    m = net.Model(d)
    if not m.rxns or m.indistinct:
        rec.label("indistinguishable or no reactions")
        return
    comps = [frozenset(c.items()) for c in rsets.comps_of(d["es"])]
    key = lambda c: frozenset(gen._reduce({e.symbol: int(round(a)) for e, a in c.items()})[0].items())
    rs, costs = m.objs, m.cost
    w = [x / 4 for x in d["w"]][: len(rs)] + [1.0] * max(0, len(rs) - 12)
    for p in (BasicPathway(list(rs), list(costs)), BalancedPathway(list(rs), w, list(costs))):
        ins = {comps[i] for x in m.rxns for i in x[0]}
        outs = {comps[i] for x in m.rxns for i in x[1]}
        for n, want in (("all_reactants", ins), ("all_products", outs), ("reactants", ins - outs), ("products", outs - ins), ("intermediates", ins & outs), ("compositions", ins | outs)):
            got = list(getattr(p, n))
            ensure({key(c) for c in got} == want and len(got) == len(want), "%s of the pathway are %s", n, got)
        ensure({net.ekey(e) for e in p.entries} == {m.keys[i] for i in m.used}, "entries are %s", p.entries)
        ensure(close(p.total_cost, sum(costs)), "total cost %s", p.total_cost)
        ensure(close(p.energy, sum(r.energy for r in rs), atol=1e-6) and close(p.energy_per_atom, sum(r.energy_per_atom for r in rs), atol=1e-6), "energy %s, %s", p.energy, p.energy_per_atom)
        ensure(bool(p.is_experimental) == all(m.entries[i].is_experimental for i in m.used), "is_experimental is %s", p.is_experimental)
    ensure(close(p.average_cost, sum(a * b for a, b in zip(w, costs)) / sum(w)), "average cost %s with multiplicities %s and costs %s", p.average_cost, w, costs)
    # the matrix of the mass balance
    M, order = np.array(p.get_comp_matrix(), dtype=float), [key(c) for c in p.compositions]
    ensure(M.shape == (len(rs), len(order)), "composition matrix has shape %s", M.shape)
    tot = {}
    for x, row, a in zip(m.rxns, M, w):
        k = {}
        for i, v in x[2].items():
            k[comps[i]] = k.get(comps[i], 0) + v
            tot[comps[i]] = tot.get(comps[i], 0) + v * a
        ensure(all(close(row[j], k.get(c, 0), atol=1e-6) for j, c in enumerate(order)), "row %s of the composition matrix does not describe its reaction", row)
    net_k = {c: v for c, v in tot.items() if abs(v) > 1e-6}
    if net_k and len(net_k) > 1 and min(net_k.values()) < 0 < max(net_k.values()):
        first = {c: i for i, c in reversed(list(enumerate(comps)))}
        nr = ComputedReaction([m.entries[first[c]] for c in net_k], list(net_k.values()))
        ensure(gen.allclose(M.T @ np.array(w), np.array(p.get_coeff_vector_for_rxn(nr), dtype=float), atol=1e-6), "the reactions do not add up to their net reaction %s", nr)
    # interdependence
    P = {comps[i] for i in m.P0} if d["useP"] else set()
    P |= {comps[i % len(comps)] for i in d["extra"]}
    have, left = P | (ins - outs), list(m.rxns)
    while True:
        go = [x for x in left if {comps[i] for i in x[0]} <= have]
        if not go:
            break
        left = [x for x in left if x not in go]
        have |= {comps[i] for x in go for i in x[1]}
    objs = [gen.mk_comp(dict(c)).reduced_composition for c in P]
    objs = {"list": list, "set": set, "tuple": tuple}[d["as"]](objs)
    got = p.contains_interdependent_rxns(objs)
    if len(rs) > 1:
        ensure(bool(got) == bool(left), "interdependent: %s; reactions that no order makes possible: %s (precursors %s)", got, [str(m.make(x)) for x in left], objs)
        rec.label("interdependent" if left else "sequential")
    rec.nontrivial(len(rs) >= 3 and bool(ins & outs))


FACETS = [Facet("pathway", case, fn, quick=500, thorough=12000, shards=6)]
