"""B02: reaction transformations are algebraic; accessors agree with the coefficients."""
from hypothesis import strategies as st

from pymatgen.core.composition import Element
from pymatgen.entries.computed_entries import ComputedEntry
from rxn_network.core import Composition
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from vp import gen
from vp.core import Facet, ensure
from vp.gen import allclose, close

PROPERTY = "B02"
# the published list of common gases (as reduced formulas)
GASES = {"Ar", "BH3", "Br", "CO", "CO2", "CS2", "H2", "H2C", "H2N", "H2O", "H2S", "H2Se", "H3N", "H4C", "H5C2", "H8C3", "HCl", "HI", "He", "Kr",
         "N2", "N2O", "NO", "Ne", "O2", "PH3", "Rn", "SF6", "SO2", "SiH4", "WF6", "Xe"}
RULE = ("Balanced (and some identity / near-identity) reactions are built by construction with random phase order and scale, as basic, computed "
        "and open reactions, and taken through chains of reverse / copy / normalise. Accessors are recomputed from the plain coefficients. "
        "Non-trivial: at least three phases and a chain of at least two transformations, or an identity case.")


@st.composite
def case(draw):
    d = draw(gen.rxn_data(identity=True))
    d["cls"] = draw(st.sampled_from(["basic", "computed", "open"]))
    d["es"] = draw(st.lists(gen.entry_params(), min_size=1, max_size=4))
    d["open"] = [draw(st.integers(0, 3)), draw(st.sampled_from([0.0, -1.5, -3.25, 0.5]))]
    if d["cls"] == "basic" and draw(st.integers(0, 2)) == 0:  # phases written with several formula units
        first = {}
        for i, c in enumerate(d["c"]):
            m = first.setdefault(tuple(sorted(c.items())), draw(st.sampled_from([1, 2, 3])))
            d["c"][i] = {e: a * m for e, a in c.items()}
            d["k"][i] /= m
    d["ops"] = draw(st.lists(st.tuples(st.sampled_from(["reverse", "copy", "norm", "normel"]), st.integers(0, 5),
                                       st.sampled_from([1.0, 2.0, 0.5, 3.0, 0.25])), min_size=0, max_size=5))
    d["ops"] = [list(o) for o in d["ops"]]
    d["target"] = draw(st.integers(0, 5))
    return d


def build(d):
    kind = d.get("kind", "plain")
    ks = [int(x) for x in d["k"]] if d.get("target", 0) % 2 and all(x == int(x) for x in d["k"]) else list(d["k"])  # coefficients may be integers
    comps = [Composition(c) for c in d["c"]]
    if d["cls"] == "basic":
        return BasicReaction(comps, ks), []
    ents = gen.mk_entries(gen.rxn_entries(d, d["es"], kind=kind))
    if d.get("identity") is not False:  # phases appear twice: use the same entry on both sides, as the library does
        first = {}
        ents = [first.setdefault(tuple(sorted(c.items())), e) for c, e in zip(d["c"], ents)]
    if d["cls"] == "computed":
        return ComputedReaction(ents, ks), []
    els = sorted({e for c in d["c"] for e in c})
    oe = els[d["open"][0] % len(els)]
    if len(els) == 1:  # nothing would be left
        d["cls"] = "computed"
        return ComputedReaction(ents, ks), []
    return OpenComputedReaction(ents, ks, {Element(oe): d["open"][1]}), [oe]


def snapshot(r):
    return ([dict(c) for c in r.compositions], [float(x) for x in r.coefficients], r.balanced, dict(r.data),
            {k: float(v) for k, v in r.reactant_coeffs.items()}, {k: float(v) for k, v in r.product_coeffs.items()})


def accessors(r, comps, ks, cls, open_els, rec, repeated):
    """comps: plain dicts, ks: floats; the oracle for every derived quantity."""
    C = [Composition(c) for c in comps]
    ensure(list(r.compositions) == C, "compositions %s, expected %s", r.compositions, C)
    ensure(allclose(r.coefficients, ks), "coefficients %s, expected %s", list(r.coefficients), ks)
    tot = {}
    for c, k in zip(comps, ks):
        for e, a in c.items():
            tot[e] = tot.get(e, 0) + a * k
    ensure(set(r.reactants) == {c for c, k in zip(C, ks) if k < 0}, "reactants wrong")
    ensure(set(r.products) == {c for c, k in zip(C, ks) if k > 0}, "products wrong")
    ensure(len(r.reactants) == sum(k < 0 for k in ks) and len(r.products) == sum(k > 0 for k in ks), "side sizes wrong")
    bal = all(abs(v) < 1e-6 for v in tot.values())
    ensure(r.balanced == bal, "balanced=%s but element sums are %s", r.balanced, tot)
    els = {e for c in comps for e in c}
    ensure({str(e) for e in r.elements} == els - set(open_els), "elements %s, expected %s", r.elements, els)
    ensure(len(r.elements) == len(set(r.elements)), "element listed twice")
    ensure(r.chemical_system == "-".join(sorted(els - set(open_els))), "chemical system %s", r.chemical_system)
    if cls == "open":
        ensure(r.total_chemical_system == "-".join(sorted(els)), "total chemical system %s, expected all of %s", r.total_chemical_system, els)
    for e in sorted(els):
        want = sum(abs(k) * c.get(e, 0) for c, k in zip(comps, ks)) / 2
        ensure(close(r.get_el_amount(Element(e)), want), "element amount of %s: %s, expected %s", e, r.get_el_amount(Element(e)), want)
    if not repeated:
        for c, k in zip(C, ks):
            ensure(close(r.get_coeff(c), k), "coefficient of %s is %s, expected %s", c, r.get_coeff(c), k)
    natoms = sum(k * sum(a for e, a in c.items() if e not in open_els) for c, k in zip(comps, ks) if k > 0)
    ensure(close(r.num_atoms, natoms), "number of atoms %s, expected %s", r.num_atoms, natoms)
    if bal:
        for sign, at, mol in ((-1, r.reactant_atomic_fractions, r.reactant_molar_fractions), (1, r.product_atomic_fractions, r.product_molar_fractions)):
            side = [(c, abs(k)) for c, k in zip(comps, ks) if k * sign > 0]
            msum = sum(k for _, k in side)
            ensure(allclose([mol[Composition(c)] for c, _ in side], [k / msum for _, k in side]) and len(mol) == len(side), "molar fractions %s", mol)
            if natoms > 1e-9:
                want = [k * sum(a for e, a in c.items() if e not in open_els) / natoms for c, k in side]
                got = [at[Composition(c).reduced_composition] for c, _ in side]
                ensure(len(at) == len(side) and allclose(got, want), "atomic fractions %s, expected %s for %s", got, want, r)
                ensure(close(sum(at.values()), 1.0, atol=1e-6), "atomic fractions of one side sum to %s", sum(at.values()))


def check_case(d, rec):
    rxn, open_els = build(d)
    comps, ks = d["c"], list(d["k"])
    repeated = d["identity"] or len({tuple(sorted(c.items())) for c in comps}) < len(comps)
    rec.label(d["cls"])
    rec.nontrivial(len(comps) >= 3 and len(d["ops"]) >= 2 or repeated)
    accessors(rxn, comps, ks, d["cls"], open_els, rec, repeated)

    # identity
    left = {}
    for c, k in zip(comps, ks):
        key = tuple(sorted(c.items()))
        left.setdefault(key, [0, 0])[k > 0] += abs(k)
    want_id = all(close(a, b) for a, b in left.values())
    if rxn.balanced:
        rec.label("identity" if want_id else "not identity")
        ensure(bool(rxn.is_identity) == want_id, "is_identity=%s for %s", rxn.is_identity, rxn)

    # separability of a product
    prods = [c for c, k in zip(comps, ks) if k > 0]
    if not repeated and prods and not open_els:
        t = prods[d["target"] % len(prods)]
        others = [c for c in prods if c != t]
        want = all(Composition(c).reduced_formula in GASES or not set(c) & set(t) for c in others)
        got = rxn.is_separable(Composition(t))
        ensure(bool(got) == want, "is_separable(%s)=%s for %s", t, got, rxn)
        ensure(bool(rxn.is_separable(Composition(t).formula.replace(" ", ""))) == want, "separability by formula differs")
        if others:
            rec.label(f"separable={want}")
        try:
            rxn.is_separable("Og7Ts3")
        except ValueError:
            pass
        else:
            ensure(False, "a phase that does not take part is separable, or not")

    # chain of transformations
    cur, cks = rxn, list(ks)
    for op, i, f in d["ops"]:
        before = snapshot(cur)
        if op == "reverse":
            new, nks = cur.reverse(), [-k for k in cks]
        elif op == "copy":
            new, nks = cur.copy(), list(cks)
            ensure(new is not cur and new == cur and hash(new) == hash(cur), "a copy is not equal to its original")
        elif op == "norm":
            j = i % len(comps)
            # with a phase on both sides the first mention counts
            j = next(x for x in range(len(comps)) if comps[x] == comps[j])
            new = cur.normalize_to(Composition(comps[j]), f)
            s = f / abs(cks[j])
            nks = [k * s for k in cks]
        else:
            els = sorted({e for c in comps for e in c})
            e = els[i % len(els)]
            new = cur.normalize_to_element(Element(e), f)
            s = f / (sum(abs(k) * c.get(e, 0) for c, k in zip(comps, cks)) / 2)
            nks = [k * s for k in cks]
            ensure(close(new.get_el_amount(Element(e)), f), "normalised to %s %s but amount is %s", f, e, new.get_el_amount(Element(e)))
        ensure(snapshot(cur) == before, "%s altered the reaction it was applied to", op)
        oe = open_els if isinstance(new, OpenComputedReaction) else []
        if op in ("reverse", "copy"):
            ensure(type(new) is type(cur), "%s changed the class from %s to %s", op, type(cur).__name__, type(new).__name__)
        accessors(new, comps, nks, "open" if oe else "x", oe, rec, repeated)
        if not isinstance(cur, OpenComputedReaction) and isinstance(cur, ComputedReaction) and cur.balanced:
            sgn = -1 if op == "reverse" else 1
            ensure(isinstance(new, ComputedReaction), "class lost")
            if cur.num_atoms > 1e-9 and new.num_atoms > 1e-9:
                ensure(close(new.energy_per_atom, sgn * cur.energy_per_atom, rtol=1e-6), "energy per atom changed from %s to %s by %s", cur.energy_per_atom, new.energy_per_atom, op)
        cur, cks = new, nks
        if oe == [] and open_els:
            open_els = []
    ensure(rxn.reverse().reverse() == rxn and hash(rxn.reverse().reverse()) == hash(rxn), "reversing twice does not give the reaction back")
    if not want_id and not repeated:
        ensure(not (rxn.reverse() == rxn), "a reaction equals its reverse")

    # listing the phases in another order gives an equal reaction with an equal hash
    if not repeated:
        order = list(range(len(comps)))[::-1]
        d2 = dict(d, c=[comps[i] for i in order], k=[ks[i] for i in order], es=[d["es"][i % len(d["es"])] for i in order])
        r2, _ = build(d2)
        ensure(r2 == rxn and rxn == r2, "the same reaction listed in another order is not equal: %s vs %s", r2, rxn)
        ensure(hash(r2) == hash(rxn), "equal reactions with different hashes")
        d3 = dict(d, k=[k * 2 for k in ks])
        ensure(not (build(d3)[0] == rxn), "a reaction equals its double")
        if len(comps) >= 2:
            d4 = dict(d, c=[dict(comps[0], Zr=1)] + comps[1:])
            ensure(not (BasicReaction([Composition(c) for c in d4["c"]], ks) == BasicReaction([Composition(c) for c in comps], ks)), "different phases, yet equal")


@st.composite
def sep_case(draw):
    """A reaction releasing gases (which may share elements with the target) and other phases; possibly written with several formula units."""
    gases = sorted(g for g in GASES if len(g) > 1 and g not in ("Ar", "He", "Ne", "Kr", "Xe", "Rn", "Br"))
    target = draw(gen.formula(["Li", "C", "O", "N", "S", "H"], max_amt=3, min_els=2))
    prods = [draw(st.sampled_from(gases)) for _ in range(draw(st.integers(0, 2)))]
    other = draw(st.lists(gen.formula(["Na", "Cl", "K", draw(st.sampled_from(["O", "F"]))], max_amt=2), max_size=2))
    return dict(t=target, gases=prods, other=other, m=draw(st.lists(st.integers(1, 3), min_size=5, max_size=5)), spell=draw(st.integers(1, 3)))


def sep_fn(d, rec):
    comps = [{str(e): a for e, a in d["t"].items()}] + [{str(e): a for e, a in Composition(g).items()} for g in d["gases"]] + d["other"]
    seen, keep = set(), []
    for c in comps:
        r = Composition(c).reduced_composition
        if r not in seen:
            seen.add(r)
            keep.append(c)
    prods = [Composition({e: a * d["m"][i % 5] for e, a in c.items()}) for i, c in enumerate(keep)]
    total = {}
    for c in prods:
        for e, a in c.items():
            total[str(e)] = total.get(str(e), 0) + a
    rxn = BasicReaction([Composition(total), *prods], [-1] + [1] * len(prods))
    if Composition(total).reduced_composition in seen:
        rec.label("no reaction")
        return
    t = keep[0]
    want = all(Composition(c).reduced_formula in GASES or not set(c) & set(t) for c in keep[1:])
    rec.nontrivial(len(keep) >= 3 or any(set(c) & set(t) for c in keep[1:]))
    rec.label(f"separable={want}")
    ask = Composition({e: a * d["spell"] for e, a in t.items()})
    ensure(bool(rxn.is_separable(ask)) == want, "is_separable(%s)=%s for %s", ask, not want, rxn)
    ensure(bool(rxn.is_separable(ask.formula.replace(" ", ""))) == want, "separability by formula differs")
    es = [ComputedEntry(c, -1.0 * c.num_atoms) for c in rxn.compositions]
    cr = ComputedReaction(es, [-1] + [1] * len(prods))
    ensure(bool(cr.is_separable(ask)) == want, "computed: is_separable(%s)=%s for %s", ask, not want, cr)


FACETS = [Facet("separable", sep_case, sep_fn, quick=700, thorough=30000, shards=2),
          Facet("algebra", case, check_case, quick=3200, thorough=100000, shards=8)]
