"""S04: tables and costs of a reaction set describe its reactions row by row."""
import math

from hypothesis import strategies as st

from vp import fakeray

fakeray.install()

from rxn_network.core import Composition  # noqa: E402
from rxn_network.costs.functions import Softplus, WeightedSum  # noqa: E402
from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.reaction_set import ReactionSet  # noqa: E402
from vp import gen, rsets  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "S04"
RULE = ("Reaction sets with per-reaction data and entry metadata (energy above hull, provenance), closed or open, tabulated repeatedly with different "
        "cost functions, targets and options. Every row is recomputed from the plain reaction it carries. Non-trivial: at least three reactions and "
        "two different tabulations.")


@st.composite
def case(draw):
    d = draw(rsets.rset(max_rxns=8, min_rxns=1, data=False))
    d["meta"] = draw(st.sampled_from(["none", "hull", "theoretical", "both"]))
    how = ["theoretical", "icsd", "both", "none"] if draw(st.booleans()) else [draw(st.sampled_from(["theoretical", "icsd", "both"]))]
    d["vals"] = draw(st.lists(st.tuples(st.sampled_from([None, 0.0, 0.25, 0.5]), st.booleans(), st.sampled_from(how), st.booleans()).map(list), min_size=3, max_size=6))
    d["gaps"] = draw(st.booleans())
    d["open"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 3), st.sampled_from([0.0, -0.75])).map(list)))
    call = st.tuples(st.sampled_from(["softplus", "sum", "sum+score"]), st.integers(-1, 6), st.booleans(), st.booleans(), st.sampled_from([300, 1000])).map(list)
    d["calls"] = draw(st.lists(call, min_size=1, max_size=4))
    d["stats"] = draw(st.booleans())
    return d


def fn(d, rec):
    picks = rsets.plain_rxns(d)
    if not picks:
        rec.label("no reactions")
        return
    comps = rsets.comps_of(d["entries"])
    ds = []
    for i, x in enumerate(d["entries"]):
        v, th, how, found = d["vals"][i % len(d["vals"])]
        data = {}
        if d["meta"] in ("hull", "both"):
            data["e_above_hull"] = 0.0 if v is None and i == 0 else v
        if d["meta"] in ("theoretical", "both"):
            if how in ("theoretical", "both"):
                data["theoretical"] = th
            if how in ("icsd", "both"):
                data["icsd_ids"] = [7 + i] if found else []
        ds.append(dict(x, data=data))
    if d["meta"] in ("hull", "both") and not d["gaps"] and any(x["data"]["e_above_hull"] is None for x in ds):
        for x in ds:  # either everything carries it or nothing: the column is decided by the first entry
            if x["data"]["e_above_hull"] is None:
                x["data"]["e_above_hull"] = 0.0
    ents = gen.mk_entries(ds)
    els = sorted({e for c in comps for e in c})
    rxns = []
    for n, (idx, k, _) in enumerate(picks):
        rxns.append(ComputedReaction([ents[i] for i in idx], k, data={"n": n, "score": (7 * n) % 5 / 4, "num_constraints": 1}))
    rs = ReactionSet.from_rxns(rxns)
    opens = {}
    if d["open"] and len(els) > 1:
        el = els[d["open"][0] % len(els)]
        if all(any(set(comps[i]) != {el} for i, x in zip(idx, k) if x < 0) and any(set(comps[i]) != {el} for i, x in zip(idx, k) if x > 0) for idx, k, _ in picks):
            opens = {el: d["open"][1]}
            rs = rs.set_chempot(*d["open"][1:0], el, d["open"][1])
    rec.label("open" if opens else "closed")
    rec.nontrivial(len(rxns) >= 3 and len({repr(c) for c in d["calls"]}) >= 2)

    def energy_pa(n):
        idx, k, _ = picks[n]
        nat = sum(x * sum(a for e, a in comps[i].items() if e not in opens) for i, x in zip(idx, k) if x > 0)
        return rsets.formula_energy(ents, idx, k, comps, opens) / nat

    def mk_cf(kind, T):
        if kind == "softplus":
            return Softplus(T), lambda n: math.log(1 + 273 / T * math.exp(energy_pa(n)))
        if kind == "sum":
            return WeightedSum(), energy_pa
        return WeightedSum(["energy_per_atom", "score"], [0.5, 2.0]), lambda n: 0.5 * energy_pa(n) + 2.0 * ((7 * n) % 5 / 4)

    cfs = {}
    order = [r.data["n"] for r in rs.get_rxns()]
    for kind, ti, unc, sep, T in d["calls"] + d["calls"][-1:]:
        cf, oracle = cfs.setdefault((kind, T), mk_cf(kind, T))
        target = comps[ti % len(comps)] if ti >= 0 else None
        fm = gen.mk_comp(target).reduced_formula if target else None
        sep = sep and all(any(comps[i] == target and x > 0 for i, x in zip(idx, k)) for idx, k, _ in picks)  # defined for reactions making the target
        df = rs.to_dataframe(cf, target=fm, calculate_uncertainties=unc, calculate_separable=sep)
        ensure(sorted(df["n"]) == list(range(len(rxns))), "rows %s", list(df["n"]))
        ensure(list(df.index) == list(range(len(df))), "index %s", list(df.index))
        ensure(all(a <= b + 1e-12 for a, b in zip(df["cost"], df["cost"][1:])), "not sorted by cost: %s", list(df["cost"]))
        cols = {"rxn", "energy", "cost", "n", "score", "max_num_precursor_elems"} | ({"dE"} if unc else set())
        if target:
            cols |= {"added_elems"} | ({"separable"} if sep else set())
        first = ds[picks[order[0]][0][0]]["data"]  # the first reaction decides on the columns
        hulls, theory = first.get("e_above_hull") is not None, bool({"theoretical", "icsd_ids"} & set(first))
        if hulls:
            cols |= {"max_e_hull_reactants", "max_e_hull_products"}
        if theory:
            cols |= {"num_theoretical_reactants", "num_theoretical_products"}
        ensure(set(df.columns) == cols, "columns %s, expected %s", list(df.columns), sorted(cols))
        for _, row in df.iterrows():
            n = row["n"]
            idx, k, _d = picks[n]
            r = row["rxn"]
            ensure(r.data["n"] == n and [e.entry_id for e in r.entries] == [ents[i].entry_id for i in idx] and gen.allclose(r.coefficients, k), "row %s carries %s", n, r)
            ensure(close(row["energy"], energy_pa(n), 1e-6, 1e-6), "row %s: energy %s, expected %s", n, row["energy"], energy_pa(n))
            ensure(close(row["cost"], oracle(n), 1e-6, 1e-6), "row %s: cost %s, expected %s (%s)", n, row["cost"], oracle(n), kind)
            ensure(row["score"] == (7 * n) % 5 / 4, "row %s: stored data", n)
            ins = [i for i, x in zip(idx, k) if x < 0]
            outs = [i for i, x in zip(idx, k) if x > 0]
            ensure(row["max_num_precursor_elems"] == max(len(comps[i]) for i in ins), "row %s: precursor elements %s", n, row["max_num_precursor_elems"])
            if unc:
                ensure(close(row["dE"], rxns[n].energy_uncertainty_per_atom if not opens else r.energy_uncertainty_per_atom, 1e-6), "row %s: uncertainty", n)
            if target:
                added = {e for i in idx for e in comps[i]} | set(opens)
                ensure(row["added_elems"] == "-".join(sorted(added - set(target))), "row %s: added elements %r", n, row["added_elems"])
                if sep:
                    try:
                        want = r.is_separable(Composition(target))
                    except Exception:  # noqa: BLE001
                        want = row["separable"]
                    ensure(row["separable"] == want, "row %s: separable", n)
            if hulls:
                above = lambda ii: max(ds[i]["data"]["e_above_hull"] or 0.0 for i in ii)
                ensure(row["max_e_hull_reactants"] == above(ins) and row["max_e_hull_products"] == above(outs), "row %s: energies above hull", n)
            if theory:
                unseen = lambda ii: sum(ds[i]["data"].get("theoretical", not ds[i]["data"].get("icsd_ids")) for i in ii)
                ensure(row["num_theoretical_reactants"] == unseen(ins) and row["num_theoretical_products"] == unseen(outs), "row %s: theoretical counts", n)
        costs = rs.calculate_costs(cf)
        ensure(gen.allclose(costs, [oracle(n) for n in order], 1e-6, 1e-6), "costs %s, expected %s", costs, [oracle(n) for n in order])
        if target:
            rec.label("target")
        df["cost"] = -1.0  # whatever is done to a table, later ones are right
        df["late"] = 0


FACETS = [Facet("table", case, fn, quick=1600, thorough=20000, shards=8)]
