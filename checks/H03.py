"""H03: selectivities attached to reactions match an independent recomputation."""
from vp import fakeray

fakeray.install()
import json  # noqa: E402
import warnings  # noqa: E402
from itertools import product  # noqa: E402

import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from monty.json import MontyEncoder  # noqa: E402
from pymatgen.core import Element  # noqa: E402
from rxn_network.core import Composition  # noqa: E402
from rxn_network.costs.calculators import ChempotDistanceCalculator  # noqa: E402
from rxn_network.entries.entry_set import GibbsEntrySet  # noqa: E402
from rxn_network.jobs.core import CalculateCompetitionMaker  # noqa: E402
from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.hull import InterfaceReactionHull  # noqa: E402
from rxn_network.reactions.open import OpenComputedReaction  # noqa: E402
from rxn_network.reactions.reaction_set import ReactionSet  # noqa: E402
from vp import enums, gen  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "H03"
RULE = ("Reaction sets over a few precursors (all or some of the balanced reactions between them, plus foreign ones), split over one to three sets, closed or open to an element that may be a "
        "reactant, a product, both or neither; chunk sizes from 1, any CPU count and task order. Non-trivial: at least three reactions to the target, one of them with three or more competitors.")
TECHNIQUE = "property-based testing with generated schedules (Hypothesis driving a deterministic Ray stand-in)"


@st.composite
def case(draw, dist=False):
    op = draw(st.sampled_from([None, None, "O", "N"]))
    els, es = draw(enums.entries(2, 3, nmin=3, nmax=6, must=[op] if op else (), pool=["Li", "Fe", "Y", "Mn", "Ba", "C"]))
    return dict(es=es, op=op, mem=draw(st.sampled_from([None, None, 1, 2, 3])), tm=draw(st.sampled_from([1, 1, 2, 3])), mu=draw(st.integers(-384, 0)) / 128 if op else 0.0, pair=draw(st.tuples(st.integers(0, 99), st.integers(0, 99))), drop=draw(st.lists(st.integers(0, 60), max_size=12)),
                foreign=draw(st.integers(0, 6)), target=draw(st.integers(0, 99)), sets=draw(st.integers(1, 3)), data=draw(st.booleans()), chunk=draw(st.sampled_from([1, 1, 2, 3, 5, 100])),
                cpus=draw(st.integers(1, 8)), sched=draw(st.lists(st.integers(0, 20), max_size=12)), func=draw(st.sampled_from(["sum", "max", "mean"])))


VAL = {"F": 1, "Cl": 1, "O": 2, "S": 2, "N": 3, "Li": 1, "Na": 1, "K": 1, "Ca": 2, "Ba": 2, "Y": 3, "Al": 3, "Ti": 4, "C": 4, "B": 3, "Si": 4, "Os": 4, "Nb": 5, "Fe": 3, "V": 5, "P": 5, "Pb": 2, "W": 6, "H": 1, "Ho": 3, "I": 1, "In": 3, "Yb": 3,
       "Sc": 3}


def salt(a, b):
    x, y = VAL[b], VAL[a]
    k = np.gcd(x, y)
    return {a: int(x // k), b: int(y // k)}


@st.composite
def systems_case(draw):
    """Reactions to one target in two chemical systems, of elements with similar symbols."""
    short, long = draw(st.sampled_from([("C", "Ca"), ("B", "Ba"), ("Y", "Yb"), ("P", "Pb"), ("H", "Ho"), ("S", "Sc"), ("S", "Si"), ("N", "Na"), ("N", "Nb"), ("I", "In"), ("Li", "Na"), ("F", "Fe"), ("K", "Ca"), ("C", "Y")]))
    y = draw(st.sampled_from(["Al", "Ti", "K", "W", "Li"]))
    an = draw(st.permutations(["O", "Cl"]))
    x, z = an
    if short in ("N", "S", "I", "F") and y == short:
        y = "Ti"
    cs = [{e: 1} for e in dict.fromkeys([short, long, x, y, z])]
    comp = [salt(long, x), salt(y, z), salt(long, z), salt(y, x), salt(short, x)]
    cs += comp
    for _ in range(draw(st.integers(0, 3))):
        c = draw(gen.formula([long, x, y, z, short], max_amt=3, min_els=2))
        if c not in cs:
            cs.append(c)
    es = [dict(kind="gibbs", c=c, m=1, e=0.0 if len(c) == 1 else draw(st.integers(-384, -64)) / 128, v=12.0, T=300, id=f"mp-{i}") for i, c in enumerate(cs)]
    at = lambda c: cs.index(c)
    rx = [([at(comp[0]), at(comp[1])], [at(comp[2]), at(comp[3])]), ([at(comp[4]), at({y: 1})], [at(comp[3]), at({short: 1})]), ([at(comp[0]), at({y: 1})], [at(comp[3]), at({long: 1})]),
          ([at({x: 1}), at({y: 1})], [at(comp[3])])]
    rx = [r for r in rx if draw(st.integers(0, 4))] or rx
    op = draw(st.sampled_from([None, None, None, z]))
    return dict(es=es, op=op, mu=draw(st.integers(-384, 0)) / 128 if op else 0.0, rx=rx, goal=comp[3], sets=draw(st.integers(1, 2)), data=draw(st.booleans()), chunk=draw(st.sampled_from([1, 2, 100, 100])),
                cpus=draw(st.integers(1, 8)), sched=draw(st.lists(st.integers(0, 20), max_size=12)), func=draw(st.sampled_from(["sum", "max", "mean"])))


def reactions(d, comps, allow_three=False):
    """[(reactant indices, product indices, coefficients)] with at most two closed phases on each side."""
    opens = {i for i, c in enumerate(comps) if d["op"] and set(c) == {d["op"]}}
    o = min(opens) if opens else None
    closed = [i for i in range(len(comps)) if i not in opens]
    subs = [s for s in enums.subsets(closed, 2) if len({str(sorted(comps[i].items())) for i in s}) == len(s)]
    out = []
    for a, b in product(subs, subs):
        if {str(sorted(comps[i].items())) for i in a} & {str(sorted(comps[i].items())) for i in b}:
            continue
        if set().union(*(comps[i] for i in a)) - {d["op"]} != set().union(*(comps[i] for i in b)) - {d["op"]}:
            continue
        for left, right in [(a, b)] + ([(a + (o,), b), (a, b + (o,))] if o is not None else []):
            v, _ = gen.exact_balance([comps[i] for i in left], [comps[i] for i in right])
            if v is not None:
                out.append((left, right, [float(x) for x in v]))
    return out, opens


def key(r):
    return (tuple(sorted((enums.ekey(e), round(float(c), 6)) for e, c in zip(r.entries, r.coefficients))))


def setup(d, rec):
    es = gen.mk_entries(d["es"])
    comps = [gen._reduce(x["c"])[0] for x in d["es"]]
    if "rx" in d:
        uniq = [(tuple(a), tuple(b), [float(x) for x in v]) for a, b in d["rx"] for v in [gen.exact_balance([comps[i] for i in a], [comps[i] for i in b])[0]] if v is not None]
        return collect(d, es, uniq, enums.rf(d["goal"])) if uniq else None
    allr, opens = reactions(d, comps)
    if not allr:
        rec.label("no reactions")
        return None
    sides = sorted({tuple(i for i in a if i not in opens) for a, _, _ in allr}, key=lambda s: (len(s), s))
    big = [s for s in sides if len(s) == 2] or sides
    main = big[d["pair"][0] % len(big)]
    near = [r for r in allr if set(r[0]) - opens <= set(main)]
    far = [r for r in allr if r not in near]
    keep = [r for i, r in enumerate(near) if i not in set(d["drop"])] or near
    keep += [far[(d["pair"][1] + 7 * i) % len(far)] for i in range(d["foreign"])] if far else []
    seen, uniq = set(), []
    for r in keep:
        if (r[0], r[1]) not in seen:
            seen.add((r[0], r[1]))
            uniq.append(r)
    prods = sorted({enums.rf(comps[i]) for r in uniq for i in r[1] if i not in opens})
    return collect(d, es, uniq, prods[d["target"] % len(prods)])


def collect(d, es, uniq, target):
    rx = [ComputedReaction([es[i] for i in a + b], v, data={"n": n} if d["data"] else {}) for n, (a, b, v) in enumerate(uniq)]
    s = GibbsEntrySet(es)
    sets = [ReactionSet.from_rxns(rx[i::d["sets"]], entries=s) for i in range(d["sets"]) if rx[i::d["sets"]]]
    if d["op"]:
        ch = {Element(d["op"]): d["mu"]}
        ref = [OpenComputedReaction.from_computed_rxn(r, ch) for r in rx]
    else:
        ref = rx
    return s, sets, ref, target


def run(d, s, sets, target, **kw):
    mk = CalculateCompetitionMaker(open_elem=Element(d["op"]) if d["op"] else None, chempot=d["mu"], chunk_size=d["chunk"], **kw)
    low = d.get("mem")
    fakeray.S.reset(d["sched"], cpus=d["cpus"], **({"memory": 250 * sum(len(q) for q in sets) * low} if low else {}))
    m = d.get("tm", 1)
    text = target if m == 1 else "".join(f"{e}{int(a * m)}" for e, a in sorted(Composition(target).items(), key=lambda x: str(x[0])))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return mk.make.original(mk, sets, s, text)


def fr(r, d):
    return {c.reduced_formula for c in r.reactants} - ({enums.rf({d["op"]: 1})} if d["op"] else set())


def sides(r):
    """Formulas of a reaction: with the same energy, reactions of other polymorphs count as the same reaction."""
    return sorted(c.reduced_formula for c in r.reactants), sorted(c.reduced_formula for c in r.products)


def preserved(doc, ref, target, new, d):
    """Pairs (reaction with values attached, same reaction before)."""
    want = {key(r): r for r in ref if target in {c.reduced_formula for c in r.products}}
    got = list(doc.rxns.get_rxns())
    ensure(sorted(key(r) for r in got) == sorted(want), "reactions to %s: %s; returned: %s", target, [str(r) for r in want.values()], [str(r) for r in got])
    out = []
    for r in got:
        w = want[key(r)]
        ensure(type(r) is type(w) and close(r.energy_per_atom, w.energy_per_atom), "%s: energy %s, was %s", r, r.energy_per_atom, w.energy_per_atom)
        rest = {k: v for k, v in r.data.items() if k not in new and k != "num_constraints"}
        ensure(rest == {k: v for k, v in w.data.items() if k != "num_constraints"}, "%s: data %s, was %s", r, rest, w.data)
        ensure(all(k in r.data for k in new), "%s lacks one of %s: %s", r, new, r.data)
        out.append((r, w))
    ensure(doc.target_formula == target and doc.open_elem == (Element(d["op"]) if d["op"] else None) and doc.chempot == d["mu"], "the document describes another calculation")
    return out


def fn(d, rec):
    x = setup(d, rec)
    if x is None:
        return
    s, sets, ref, target = x
    before = [json.dumps(q.as_dict(), cls=MontyEncoder, sort_keys=True, default=str) for q in sets]
    doc = run(d, s, sets, target)
    ensure(before == [json.dumps(q.as_dict(), cls=MontyEncoder, sort_keys=True, default=str) for q in sets], "the reaction sets given were altered")
    most = 0
    pairs = preserved(doc, ref, target, ("primary_competition", "secondary_competition"), d)
    for r, w in pairs:
        F = fr(w, d)
        comp = [q for q in ref if fr(q, d) <= F]
        most = max(most, len(comp) - 1)
        e = w.energy_per_atom
        if len(F) == 1:
            others = [q.energy_per_atom for q in comp if sides(q) != sides(w) or not np.isclose(q.energy_per_atom, e)] + [0.0]
            p1 = e - min(others)
            p2 = max([0.0] + [e - o for o in others])
        else:
            a, b = sorted(F)
            irh = InterfaceReactionHull(a, b, comp)
            p1, p2 = irh.get_primary_competition(w), irh.get_secondary_competition(w)
        for n, p in (("primary", p1), ("secondary", p2)):
            g = r.data[n + "_competition"]
            ensure(abs(g - p) < 2e-4, "%s competition of %s is %s, recomputed %s (competitors: %s)", n, r, g, p, [str(q) for q in comp if q is not w][:6])
        rec.label("one precursor" if len(F) == 1 else "two precursors")
    rec.nontrivial(len(pairs) >= 3 and most >= 3)


def dist_fn(d, rec):
    x = setup(d, rec)
    if x is None:
        return
    s, sets, ref, target = x
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        def diagram(els):
            sub = [e for e in s if {str(q) for q in e.composition.elements} <= els | ({d["op"]} if d["op"] else set())]
            if d["op"]:
                sub = [e.to_grand_entry({Element(d["op"]): d["mu"]}) for e in sub if {str(q) for q in e.composition.elements} != {d["op"]}]
            return ChempotDistanceCalculator.from_entries(sub, mu_func=d["func"])

        want, systems = {}, {}
        for w in ref:
            if target not in {c.reduced_formula for c in w.products}:
                continue
            els = {str(e) for c in w.compositions for e in c.elements}
            if len(els - {d["op"]}) < 2:
                rec.label("too few elements for a diagram")
                return
            want[key(w)] = diagram(els).calculate(w)
            systems[key(w)] = els
    doc = run(d, s, sets, target, calculate_competition=False, calculate_chempot_distances=True, cpd_kwargs={"mu_func": d["func"]})
    pairs = preserved(doc, ref, target, ("chempot_distance",), d)
    for r, w in pairs:  # metastable phases are stabilised by about 1e-5 eV, which moves the corners of their domains by more
        g, o = r.data["chempot_distance"], want[key(w)]
        if abs(g - o) < 2e-3:
            continue
        with warnings.catch_warnings():  # ... and by another amount in the diagram of a larger system, which may be used instead
            warnings.simplefilter("ignore")
            larger = {tuple(sorted(v)) for v in systems.values() if v > systems[key(w)]}
            others = [diagram(set(v)).calculate(w) for v in sorted(larger)]
        ensure(any(abs(g - q) < 2e-3 and abs(q - o) < 0.05 * (abs(o) + 1) for q in others), "chemical potential distance of %s is %s, in the diagram of its chemical system %s", r, g, o)
        rec.label("distance in the diagram of a larger system")
    rec.nontrivial(len(pairs) >= 3)


FACETS = [Facet("competition", case, fn, quick=200, thorough=6000, shards=5), Facet("distances", lambda: case(dist=True), dist_fn, quick=100, thorough=2000, shards=3),
          Facet("systems", systems_case, dist_fn, quick=80, thorough=2000, shards=2)]
