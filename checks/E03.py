"""E03: estimated Gibbs energies follow the published descriptor at every temperature."""
import json

from hypothesis import strategies as st
from monty.json import MontyDecoder, MontyEncoder
from pymatgen.core import Lattice, Structure
from pymatgen.core.composition import Element
from pymatgen.entries.computed_entries import ConstantEnergyAdjustment
from rxn_network.core import Composition
from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection
from rxn_network.entries.gibbs import GibbsComputedEntry
from vp import gen, thermo
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "E03"
RULE = ("Entries over all elements with tabulated references, one to five elements, arbitrary cells, volumes and formation energies, with and without "
        "further adjustments, at integer and fractional temperatures, taken through temperature changes, copies and serialisation; also built from "
        "structures. The descriptor is re-implemented from the paper over a frozen copy of the reference tables. Non-trivial: at least three elements or a "
        "non-tabulated temperature.")
POOL = sorted(thermo.tables("mu_elements.json")[300])
temps = st.one_of(st.integers(3, 20).map(lambda i: 100 * i), st.integers(3, 20).map(lambda i: 100.0 * i), st.integers(300, 2000), st.integers(3000, 20000).map(lambda i: i / 10),
                  st.sampled_from([300, 2000, 300.0001, 1999.99, 1000.0, 298 + 2]))


@st.composite
def case(draw):
    els = draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=5, unique=True))
    c = {e: draw(st.integers(1, 6)) for e in sorted(els)}
    d = dict(c=c, m=draw(st.integers(1, 4)), ef=draw(gen.energies()), v=draw(st.integers(40, 900)) / 16, T=draw(temps), T2=draw(st.lists(temps, min_size=1, max_size=3)))
    if draw(st.integers(0, 2)) == 0:
        d["T2"].append(min(2000, max(300, d["T"] + draw(st.sampled_from([-0.9, -0.4, -0.25, 0.25, 0.3, 0.5, 0.75])))))
    d["adj"] = draw(st.lists(st.tuples(st.sampled_from(["const", "carb", "co2"]), st.integers(-64, 64).map(lambda i: i / 32)).map(list), max_size=2))
    d["data"] = draw(st.fixed_dictionaries({}, optional={"theoretical": st.booleans(), "icsd_ids": st.sampled_from([[], [1]]), "oxidation_states": st.just("el"),
                                                         "e_above_hull": st.sampled_from([0.0, 0.125])}))
    d["id"] = draw(st.sampled_from([None, "mp-1", "mvc-22"]))
    return d


def comp(d, m=None):
    return {e: a * (d["m"] if m is None else m) for e, a in d["c"].items()}


def adjustments(d, m, T):
    out, tot = [], 0.0
    for kind, v in d["adj"]:
        if kind == "const":
            out.append(ConstantEnergyAdjustment(v * m, uncertainty=0.125, name="manual"))
            tot += v * m
        elif kind == "carb":
            out.append(CarbonateCorrection(2 * m))
            tot += 0.830 * 2 * m
        else:
            out.append(CarbonDioxideAtmosphericCorrection(3 * m, T))
            tot += 3 * m * thermo.co2_shift_per_atom(T)
    return out, tot


def make(d, m, T):
    data = {k: ({Element(e): 1.0 for e in d["c"]} if v == "el" else v) for k, v in d["data"].items()}
    adj, _ = adjustments(d, m, T)
    return GibbsComputedEntry(Composition(comp(d, m)), d["ef"], d["v"], T, energy_adjustments=adj or None, parameters={"run_type": "GGA"}, data=data, entry_id=d["id"])


def snap(e):
    return json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True)


def expected(d, m, T):
    c = comp(d, m)
    return sum(c.values()) * d["ef"] + thermo.gibbs_correction(c, d["v"], T) + adjustments(d, m, T)[1]


def fn(d, rec):
    m, T = d["m"], d["T"]
    e = make(d, m, T)
    rec.nontrivial(len(d["c"]) >= 3 or T % 100 != 0)
    rec.label("element" if len(d["c"]) == 1 else "compound")
    n = sum(comp(d).values())
    ensure(close(e.energy, expected(d, m, T), atol=1e-7 * n), "energy of %s at %s K: %s, expected %s", e, T, e.energy, expected(d, m, T))
    ensure(close(e.energy_per_atom, e.energy / n), "energy per atom")
    e1 = make(d, 1, T)
    ensure(close(e.energy_per_atom, e1.energy_per_atom, atol=1e-7), "energy per atom depends on the size of the cell: %s and %s", e.energy_per_atom, e1.energy_per_atom)
    ensure(e.temperature == T, "temperature %s", e.temperature)
    ensure(e.is_element == (len(d["c"]) == 1), "is_element")
    want = (not d["data"]["theoretical"]) if "theoretical" in d["data"] else bool(d["data"].get("icsd_ids"))
    ensure(e.is_experimental == want, "is_experimental %s with data %s", e.is_experimental, d["data"])
    before = snap(e)
    cp = e.copy()
    back = MontyDecoder().process_decoded(json.loads(json.dumps(e.as_dict(), cls=MontyEncoder)))
    for what, o in (("copy", cp), ("round trip", back), ("rebuilt", make(d, m, T))):
        ensure(type(o) is GibbsComputedEntry and o == e and close(o.energy, e.energy, atol=1e-9), "%s differs: %s and %s", what, o, e)
        ensure(o.unique_id == e.unique_id and o.entry_id == e.entry_id and o.temperature == e.temperature, "%s changes identity", what)
        ensure(o.composition == e.composition and o.volume_per_atom == e.volume_per_atom and o.formation_energy_per_atom == e.formation_energy_per_atom, "%s changes fields", what)
        ensure({k for k in o.data} == set(d["data"]) and o.parameters == e.parameters, "%s changes data: %s", what, o.data)
    ensure(hash(cp) == hash(e), "a copy hashes differently")
    ensure(len({cp, e, make(d, m, T)}) == 1, "equal entries are kept apart in a set")
    cp.data["x"] = 1
    ensure("x" not in e.data, "a copy shares the data of the original")

    cur = e
    for t in d["T2"]:
        cur = cur.get_new_temperature(t)
        fresh = make(d, m, t)
        ensure(close(cur.energy, expected(d, m, t), atol=1e-7 * n), "moved to %s K: %s, expected %s", t, cur.energy, expected(d, m, t))
        ensure(cur == fresh and cur.unique_id == fresh.unique_id and cur.temperature == t, "moved to %s K is not the entry constructed there", t)
        ensure(len(cur.energy_adjustments) == len(fresh.energy_adjustments), "adjustments pile up: %s", cur.energy_adjustments)
        ensure(close(cur.correction_uncertainty, fresh.correction_uncertainty), "uncertainty")
        if abs(t - T) > 0.1 and len(d["c"]) > 1:
            ensure(cur != e and cur.unique_id != e.unique_id, "entries at %s and %s K are not distinguished", T, t)
        cur.data["moved"] = True
        ensure("moved" not in e.data, "moving to a new temperature shares the data")
    ensure(snap(e) == before, "the original entry was altered")

    mu = {Element(sorted(d["c"])[0]): -1.5}
    if len(d["c"]) > 1:
        g = e.to_grand_entry(mu)
        ensure(close(g.energy, e.energy + 1.5 * comp(d)[sorted(d["c"])[0]], atol=1e-6), "grand energy %s", g.energy)
    for bad in (299.9, 2000.5, 0, -5, 5000):
        for f in (lambda: make(d, m, bad), lambda: e.get_new_temperature(bad)):
            try:
                f()
            except ValueError:
                pass
            else:
                ensure(False, "temperature %s K was accepted", bad)


@st.composite
def scase(draw):
    els = draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=4, unique=True))
    sites = [e for e in els for _ in range(draw(st.integers(1, 3)))]
    return dict(sites=sites, a=[draw(st.integers(24, 64)) / 8 for _ in range(3)], ef=draw(gen.energies()), T=draw(temps), ox=draw(st.booleans()))


def sfn(d, rec):
    n = len(d["sites"])
    s = Structure(Lattice.orthorhombic(*d["a"]), d["sites"], [[i / n, (i * 0.37) % 1, (i * 0.61) % 1] for i in range(n)])
    if d["ox"]:
        s.add_oxidation_state_by_site([1.0] * n)
    e = GibbsComputedEntry.from_structure(s, d["ef"], d["T"], entry_id="mp-5", data={"theoretical": False})
    c = {}
    for x in d["sites"]:
        c[x] = c.get(x, 0) + 1
    v = d["a"][0] * d["a"][1] * d["a"][2] / n
    want = n * d["ef"] + thermo.gibbs_correction(c, v, d["T"])
    ensure(close(e.energy, want, atol=1e-6), "from a structure: %s, expected %s", e.energy, want)
    ensure(e.composition == Composition(c) and e.entry_id == "mp-5" and e.is_experimental, "fields")
    ensure(close(e.volume_per_atom, v), "volume per atom %s", e.volume_per_atom)
    anon = GibbsComputedEntry.from_structure(s, d["ef"], d["T"])
    ensure(anon.entry_id and anon == GibbsComputedEntry.from_structure(s, d["ef"], d["T"]), "default identity")
    rec.nontrivial(len(c) > 1)


FACETS = [Facet("entries", case, fn, quick=500, thorough=20000, shards=4), Facet("structures", scase, sfn, quick=150, thorough=4000, shards=2)]
