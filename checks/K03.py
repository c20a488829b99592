"""K03: decorating calculators attach the value they define and nothing else."""
import json
import math
from itertools import combinations, product

from hypothesis import strategies as st
from monty.json import MontyEncoder
from pymatgen.analysis.phase_diagram import GrandPotPDEntry
from pymatgen.core.composition import Element
from rxn_network.costs.calculators import (
    ChempotDistanceCalculator,
    PrimaryCompetitionCalculator,
    SecondaryCompetitionAreaCalculator,
    SecondaryCompetitionCalculator,
    SecondaryCompetitionMaxCalculator,
    SecondaryCompetitionWithEhullCalculator,
)
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram
from vp import gen, ifc, rsets
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "K03"
RULE = ("Chemical-potential-distance calculators (sum, mean, max or a given function, closed or at a fixed chemical potential of one element) over "
        "generated reactions between stable and metastable phases, and the competition calculators over generated interfaces; decorated one by one and "
        "in bulk, from empty and non-empty data. The aggregate is recomputed from the pairwise distances and offsets of the diagram (whose geometry is "
        "T01), the others from the hull (H01). Non-trivial: at least three interfaces, or a metastable phase.")


def span(xs):
    xs = list(xs)
    return max(xs) - min(xs) + 2 * len(xs)


FUNCS = {"sum": math.fsum, "mean": lambda x: math.fsum(x) / len(x), "max": max, "span": span}


@st.composite
def case(draw):
    wide = draw(st.sampled_from([False, False, True]))
    d = draw(rsets.rset(max_rxns=4, min_rxns=1, lo=4 if wide else 3, hi=8 if wide else 6, max_els=4 if wide else 3, min_els=4 if wide else 2, extra_data=False, temps=(300,)))
    for x in d["entries"]:
        if len(x["c"]) > 1:
            x["e"] -= draw(st.integers(0, 97)) / 97 / 64
    d["max_p"] = 4 if wide else draw(st.sampled_from([2, 3, 3]))
    d["func"] = draw(st.sampled_from(list(FUNCS)))
    d["name"] = draw(st.sampled_from([None, "cpd", "energy_x"]))
    d["open"] = draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 3), st.sampled_from([0.0, -0.5])).map(list)))
    return d


def check_decorate(calc, rxns, name, values, rec):
    before = [json.dumps(r.as_dict(), cls=MontyEncoder, sort_keys=True) for r in rxns]
    outs = [calc.decorate(r) for r in rxns]
    many = calc.decorate_many(rxns)
    vals = calc.calculate_many(rxns)
    ensure(gen.allclose(vals, values), "calculate_many gives %s, expected %s", vals, values)
    ensure([json.dumps(r.as_dict(), cls=MontyEncoder, sort_keys=True) for r in rxns] == before, "decorating altered the original reactions")
    for r, a, b, v in zip(rxns, outs, many, values, strict=True):
        for o in (a, b):
            ensure(o is not r and o.data is not r.data, "decorating did not copy the reaction")
            ensure(set(o.data) == set(r.data or {}) | {name}, "decorated data has keys %s", set(o.data))
            ensure(close(o.data[name], v), "decorated with %s = %s, expected %s", name, o.data[name], v)
            ensure(all(o.data[k] == r.data[k] for k in (r.data or {}) if k != name), "other data changed")
            d1, d2 = o.as_dict(), r.as_dict()
            d1.pop("data"), d2.pop("data")
            ensure(json.dumps(d1, cls=MontyEncoder, sort_keys=True) == json.dumps(d2, cls=MontyEncoder, sort_keys=True), "decorating changed the reaction: %s to %s", r, o)
            ensure(o.energy == r.energy and type(o) is type(r), "decorating changed the energy or the class")


def cpd_fn(d, rec):
    picks = rsets.plain_rxns(d, max_p=d["max_p"])
    if not picks:
        rec.label("no reactions")
        return
    ents = gen.mk_entries(d["entries"])
    els = sorted({e for c in rsets.comps_of(d["entries"]) for e in c})
    mus = None
    if d["open"] and len(els) > 2:
        mus = {Element(els[d["open"][0] % len(els)]): d["open"][1]}
    rxns, mine = [], []
    for n, (idx, k, data) in enumerate(picks):
        es = [ents[i] for i in idx]
        if mus:
            es = [e for e in es]
            r = OpenComputedReaction(es, list(k), dict(mus), data=dict(data))
        else:
            r = ComputedReaction(es, list(k), data=dict(data) if n % 2 else None)
        rxns.append(r)
        mine.append([(e, x) for e, x in zip(es, k)])
    if mus:
        oel = next(iter(mus))
        pd_ents = [GrandPotPDEntry(e, mus) for e in ents if set(e.composition.elements) != {oel}]
        mine = [[(GrandPotPDEntry(e, mus), x) for e, x in m if set(e.composition.elements) != {oel}] for m in mine]
        rec.label("open")
    else:
        pd_ents = ents
    func = FUNCS[d["func"]] if d["func"] == "span" else d["func"]
    kw = {} if d["name"] is None else {"name": d["name"]}
    name = d["name"] or "chempot_distance"
    cpd = ChemicalPotentialDiagram(entries=list(pd_ents))
    try:
        calc = ChempotDistanceCalculator.from_entries(list(pd_ents), mu_func=func, **kw)
        ensure(calc.name == name, "name %s", calc.name)
        want = []
        for m in mine:
            R, P = [e for e, x in m if x < 0], [e for e, x in m if x > 0]
            pairs = list(product(R, P)) + list(combinations(P, 2))
            rec.nontrivial(len(pairs) >= 3)
            ds = []
            for a, b in pairs:
                oa, ob = cpd.get_offset(a), cpd.get_offset(b)
                rec.nontrivial(max(oa, ob) > 1e-4)
                ds.append(cpd.shortest_domain_distance(a.composition.reduced_formula, b.composition.reduced_formula) + oa + ob)
            want.append(FUNCS[d["func"]](ds) if ds else None)
    except ValueError as e:
        if "can not be created" in str(e) or "Failed even after" in str(e):
            rec.label("no metastable domain")  # a phase on the hull within rounding
            return
        raise
    ok = [i for i, w in enumerate(want) if w is not None]
    if not ok:
        return
    got = [calc.calculate(rxns[i]) for i in ok]
    for i, g in zip(ok, got):
        ensure(abs(g - want[i]) <= 6e-6 + 1e-6 * abs(want[i]), "%s of the distances of %s is %s, expected %s", d["func"], rxns[i], g, want[i])
    check_decorate(calc, [rxns[i] for i in ok], name, got, rec)


def hull_fn(d, rec):
    from checks import H01

    pts, h = H01.prepare(d)
    if pts is None or H01.fragile(pts, h):
        rec.label("skipped")
        return
    rxns, irh, _ = H01.build(d)
    i = d["seed"] % len(rxns)
    rs = [rxns[i]] + [r for r in rxns[:3] if r is not rxns[i]]
    rec.nontrivial(len(rs) > 2)
    for cls, name, f in ((PrimaryCompetitionCalculator, "primary_competition", irh.get_primary_competition),
                         (SecondaryCompetitionCalculator, "secondary_competition", irh.get_secondary_competition),
                         (SecondaryCompetitionWithEhullCalculator, "secondary_competition_with_ehull", lambda r: irh.get_secondary_competition(r, include_e_hull=True)),
                         (SecondaryCompetitionMaxCalculator, "secondary_competition_max", irh.get_secondary_competition_max_energy)):
        check_decorate(cls(irh), rs, name, [f(r) for r in rs], rec)
        check_decorate(cls(irh, name="zz"), rs, "zz", [f(r) for r in rs], rec)
    inner = [r for r, (x, _) in zip(rxns, pts) if 0.05 < x < 0.95][:2]
    if inner:
        a = SecondaryCompetitionAreaCalculator(irh)
        ensure(all(close(a.calculate(r), irh.get_secondary_competition_area(r), rtol=1e-3, atol=1e-4) for r in inner), "area calculator")


def bad_fn(d, rec):
    ents = gen.mk_entries([dict(kind="plain", c={"Li": 1}, e=0.0, v=1.0, T=300, id="a"), dict(kind="plain", c={"O": 1}, e=0.0, v=1.0, T=300, id="b")])
    try:
        ChempotDistanceCalculator.from_entries(ents, mu_func=d["name"])
    except ValueError:
        rec.nontrivial()
    else:
        ensure(False, "unknown aggregation %s accepted", d["name"])


FACETS = [Facet("distance", case, cpd_fn, quick=200, thorough=6000, shards=4), Facet("competition", ifc.interface(max_phases=5), hull_fn, quick=80, thorough=2500, shards=2),
          Facet("unknown", None, bad_fn, cases=lambda tier: [dict(name="median"), dict(name="")])]
