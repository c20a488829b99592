"""C01: reaction energies are coefficient-weighted sums of the entry energies (grand potential with an open element)."""
import math

from hypothesis import strategies as st

from pymatgen.core.composition import Element
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from vp import gen
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "C01"
RULE = ("Balanced reactions over entries with random cell multiples, energies, up to two energy adjustments with (possibly undefined) uncertainties, "
        "closed or with one or two open elements at chemical potentials including zero. "
        "Energies are recomputed from the plain numbers. Non-trivial: at least three phases with some non-reduced cell.")


@st.composite
def case(draw):
    d = draw(gen.rxn_data())
    d["es"] = draw(st.lists(gen.entry_params(uncertainties=True), min_size=1, max_size=5))
    d["kind"] = draw(st.sampled_from(["plain", "gibbs", "interp"]))
    mu = st.one_of(st.sampled_from([0.0, -1.0]), st.integers(-640, 128).map(lambda i: i / 128))
    d["open"] = draw(st.lists(st.tuples(st.integers(0, 4), mu), min_size=0, max_size=2).map(lambda x: [list(t) for t in x]))
    d["f"] = draw(st.sampled_from([2.0, 0.5, 3.0, 10.0, 0.125]))
    return d


def fn(d, rec):
    if d["identity"]:
        rec.label("identity skipped")
        return
    ds = gen.rxn_entries(d, d["es"], kind=d["kind"])
    comps, ks = [dict(c) for c in d["c"]], list(d["k"])
    ents = gen.mk_entries(ds)
    els = sorted({e for c in comps for e in c})
    opens = {}
    for i, mu in d["open"]:
        opens[els[i % len(els)]] = mu
    if len(opens) >= len(els):
        opens.pop(next(iter(opens)))
    rec.nontrivial(len(comps) >= 3 and any(x["m"] > 1 for x in ds))
    rec.label("open" if opens else "closed")
    # energies per reduced formula unit, from entry energies alone
    efu, var = {}, {}
    for x, e, c in zip(ds, ents, comps):
        key = tuple(sorted(c.items()))
        nat = sum(c.values())
        v = e.energy / e.composition.num_atoms * nat
        if x["kind"] != "gibbs":
            ensure(close(e.energy, x["e"] * e.composition.num_atoms + sum(a for a, _ in x["adj"])), "entry energy")
        s = e.correction_uncertainty  # of the whole cell; pymatgen reports nan when nothing is known
        s = 0.0 if math.isnan(s) else s * nat / e.composition.num_atoms
        if s:
            rec.label("uncertain entries")
        if key not in efu or v < efu[key]:
            efu[key], var[key] = v, s
    keys = [tuple(sorted(c.items())) for c in comps]
    E = sum(k * efu[q] for k, q in zip(ks, keys))
    natoms = sum(k * sum(c.values()) for k, c in zip(ks, comps) if k > 0)
    r = ComputedReaction(ents, list(ks))
    ensure(close(r.energy, E, 1e-6), "energy %s, expected %s for %s", r.energy, E, r)
    ensure(close(r.energy_per_atom, E / natoms, 1e-6), "energy per atom %s, expected %s", r.energy_per_atom, E / natoms)
    ensure(close(r.reverse().energy, -E, 1e-6), "the reverse reaction has energy %s, not %s", r.reverse().energy, -E)
    f = d["f"]
    scaled = ComputedReaction(ents, [k * f for k in ks])
    ensure(close(scaled.energy, f * E, 1e-6) and close(scaled.energy_per_atom, r.energy_per_atom, 1e-6), "scaling by %s: energy %s -> %s", f, E, scaled.energy)
    ensure(close(ComputedReaction(ents[::-1], list(ks)[::-1]).energy, E, 1e-6), "energy depends on the order of entries")
    # uncertainties: independent entries combine in quadrature
    if len(set(keys)) == len(keys):
        unc = math.sqrt(sum((k * var[q]) ** 2 for k, q in zip(ks, keys)))
        ensure(close(r.energy_uncertainty, unc, 1e-6), "uncertainty %s, expected %s", r.energy_uncertainty, unc)
        ensure(close(r.energy_uncertainty_per_atom, unc / natoms, 1e-6), "uncertainty per atom wrong")
        ensure(close(scaled.energy_uncertainty_per_atom, unc / natoms, 1e-6), "uncertainty per atom depends on scale")
        ensure(r.reverse().energy_uncertainty >= 0, "negative uncertainty")
    if opens:
        def dn(c):
            return 0.0 if set(c) <= set(opens) and len(c) == 1 else sum(mu * c.get(e, 0) for e, mu in opens.items())

        Phi = sum(k * (efu[q] - dn(c)) for k, q, c in zip(ks, keys, comps))
        n2 = sum(k * sum(a for e, a in c.items() if e not in opens) for k, c in zip(ks, comps) if k > 0)
        cp = {Element(e): mu for e, mu in opens.items()}
        # entries of pure open elements keep their energy: the reservoir's zero is the element's own energy
        o = OpenComputedReaction(ents, list(ks), cp)
        ensure(close(o.energy, Phi, 1e-6), "grand potential change %s, expected %s at %s for %s", o.energy, Phi, opens, r)
        if n2 > 1e-9:
            ensure(close(o.energy_per_atom, Phi / n2, 1e-6), "grand potential per non-open atom %s, expected %s", o.energy_per_atom, Phi / n2)
            ensure(close(o.reverse().energy_per_atom, -Phi / n2, 1e-6), "reverse")
        ensure(close(o.reverse().energy, -Phi, 1e-6) and close(o.copy().energy, Phi, 1e-6), "reverse/copy lose the chemical potential")
        o2 = OpenComputedReaction.from_computed_rxn(r, cp)
        ensure(close(o2.energy, Phi, 1e-6), "conversion of a closed reaction gives %s, expected %s", o2.energy, Phi)
        ensure(o2.data is not r.data or not r.data, "data shared")
        z = OpenComputedReaction(ents, list(ks), {Element(e): 0.0 for e in opens})
        ensure(close(z.energy, E, 1e-6), "at zero chemical potential the grand potential change %s differs from the energy %s", z.energy, E)
        if any(len(c) == 1 and set(c) <= set(opens) for c in comps):
            rec.label("pure open phase involved")
    # with a data index the coefficients map to their entries
    for i, e in enumerate(ents):
        e.data["idx"] = 2 * i + 1
    v = r.get_entry_idx_vector(2 * len(ents) + 2)
    ensure(len(v) == 2 * len(ents) + 2 and all(close(v[2 * i + 1], k) for i, k in enumerate(ks)) and close(sum(abs(v)), sum(map(abs, ks))), "index vector %s for %s", v, ks)


FACETS = [Facet("energy", case, fn, quick=2800, thorough=80000, shards=8)]
