"""E04: experimental entries reproduce the tabulated data and interpolate between points."""
import json
import math

from hypothesis import strategies as st
from monty.json import MontyDecoder, MontyEncoder
from pymatgen.core.composition import Element
from pymatgen.entries.computed_entries import ConstantEnergyAdjustment
from rxn_network.core import Composition
from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection
from rxn_network.entries.freed import FREEDReferenceEntry
from rxn_network.entries.nist import NISTReferenceEntry
from vp import thermo
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "E04"
RULE = ("tables: every compound of both reference tables at every tabulated temperature, at points between all neighbours and at both ends. entries: any compound, "
        "amount of substance, in-range temperature and adjustments, through chains of temperature changes, normalisation and serialisation, against frozen "
        "copies of the tables. Non-trivial: an interpolated temperature, more than one formula unit or an adjustment.")
TAB = {"nist": "nist.json.gz", "freed": "freed.json.gz"}
CLS = {"nist": NISTReferenceEntry, "freed": FREEDReferenceEntry}
SKIP = {"D10CuSO9", "D2O", "D2S", "D3N", "DCl", "DCu", "DF", "DNi", "DS"}  # deuterium is not told apart from hydrogen


def usable(name):
    dep = thermo.names("deprecated_compounds.json") if name == "nist" else set()
    return [f for f in thermo.tables(TAB[name]) if f not in SKIP and f not in dep]


FORMULAS = {n: sorted(usable(n)) for n in CLS}


def table_cases(tier):
    for n, fs in FORMULAS.items():
        for i, f in enumerate(fs):
            yield dict(t=n, f=f, frac=[0.5, 0.25, 0.01, 0.9375][i % 4], full=tier == "thorough")


def rejects(f, what):
    try:
        f()
    except ValueError:
        return
    ensure(False, "%s was accepted", what)


def table_fn(d, rec):
    cl, tab = CLS[d["t"]], thermo.tables(TAB[d["t"]])[d["f"]]
    c = Composition(d["f"])
    ts = sorted(tab)
    pts = ts + [a + d["frac"] * (b - a) for a, b in zip(ts, ts[1:])]
    if not d["full"]:
        pts = [ts[0], ts[-1]] + pts[1:-1:3]
    for T in pts:
        want = thermo.lookup(tab, T)
        e = cl(c, T)
        ensure(close(e.energy, want, atol=1e-9, rtol=1e-9), "%s of the %s tables at %s K: %s, expected %s", d["f"], d["t"], T, e.energy, want)
    if ts[0] == int(ts[0]):
        ensure(close(cl(c, int(ts[0])).energy, tab[ts[0]]), "integer temperature")
    for T in (ts[0] - 0.01, ts[-1] + 0.01, ts[-1] + 100, ts[0] - 100):
        rejects(lambda: cl(c, T), f"{d['f']} at {T} K")
    rec.nontrivial(True)
    rec.label(d["t"])


@st.composite
def case(draw):
    n = draw(st.sampled_from(["nist", "freed"]))
    pool = FORMULAS[n]
    f = draw(st.sampled_from(pool) if draw(st.booleans()) else st.sampled_from([x for x in pool if x in ("CO2", "H3N", "CO", "CH4", "Fe2O3", "BaCO3", "SO2", "NaCl", "Y2O3", "LiCl")] or pool))
    tab = sorted(thermo.tables(TAB[n])[f])
    tt = st.one_of(st.sampled_from(tab), st.sampled_from(tab).map(int), st.integers(int(tab[0]), int(tab[-1])), st.integers(0, 997).map(lambda i: min(tab[-1], tab[0] + (tab[-1] - tab[0]) * i / 997)))
    adj = draw(st.lists(st.tuples(st.sampled_from(["const", "co2", "carb", "co2p"]), st.integers(-64, 64).map(lambda i: i / 32)).map(list), max_size=2))
    return dict(t=n, f=f, m=draw(st.sampled_from([1, 1, 2, 3, 4, 8])), T=draw(tt), T2=draw(st.lists(tt, min_size=1, max_size=3)), adj=adj,
                data=draw(st.fixed_dictionaries({}, optional={"a": st.integers(0, 3), "e_above_hull": st.just(0.0)})), other=draw(st.sampled_from(pool)))


def adjustments(d, m, T):
    out, tot = [], 0.0
    for kind, v in d["adj"]:
        if kind == "const":
            out.append(ConstantEnergyAdjustment(v * m, uncertainty=0.125, name="manual"))
            tot += v * m
        elif kind == "carb":
            out.append(CarbonateCorrection(m))
            tot += 0.830 * m
        elif kind == "co2":
            out.append(CarbonDioxideAtmosphericCorrection(3 * m, T))
            tot += 3 * m * thermo.co2_shift_per_atom(T)
        else:
            out.append(CarbonDioxideAtmosphericCorrection(3 * m, T, pco2=0.25))
            tot += 3 * m * thermo.co2_shift_per_atom(T, 0.25)
    return out, tot


def comp(d, m):
    return Composition({e: a * m for e, a in Composition(d["f"]).items()})


def make(d, m, T):
    return CLS[d["t"]](comp(d, m), T, energy_adjustments=adjustments(d, m, T)[0] or None, data=dict(d["data"]))


def expected(d, m, T):
    return m * thermo.lookup(thermo.tables(TAB[d["t"]])[d["f"]], T) + adjustments(d, m, T)[1]


def snap(e):
    return json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True)


def fn(d, rec):
    m, T = d["m"], d["T"]
    e = make(d, m, T)
    rec.nontrivial(T % 100 != 0 or m != 1 or bool(d["adj"]))
    rec.label(d["t"])
    ensure(close(e.energy, expected(d, m, T)), "%s units of %s at %s K: %s, expected %s", m, d["f"], T, e.energy, expected(d, m, T))
    one = make(d, 1, T)
    ensure(close(e.energy_per_atom, one.energy_per_atom), "energy per atom depends on the amount: %s and %s", e.energy_per_atom, one.energy_per_atom)
    ensure(e.temperature == T and e.is_experimental and not e.is_element and not e.is_deprecated, "attributes")
    ensure(e.composition == comp(d, m), "composition")
    ensure(e == one and hash(e) == hash(one) and len({e, one}) == 1, "entries of one compound and temperature are kept apart")
    same = make(d, m, float(T))
    ensure(e == same and hash(e) == hash(same), "entries at %r and %r K are kept apart", T, float(T))
    before = snap(e)
    back = MontyDecoder().process_decoded(json.loads(json.dumps(e.as_dict(), cls=MontyEncoder)))
    ensure(type(back) is type(e) and back == e and close(back.energy, e.energy), "round trip: %s", back)
    ensure(back.composition == e.composition and back.data == e.data and back.temperature == T and back.unique_id == e.unique_id, "round trip changes fields")
    ensure(len(back.energy_adjustments) == len(d["adj"]), "round trip changes adjustments")
    cur = e
    for t in d["T2"]:
        cur = cur.get_new_temperature(t)
        fresh = make(d, m, t)
        ensure(type(cur) is type(e), "type")
        ensure(close(cur.energy, expected(d, m, t)), "moved to %s K: %s, expected %s", t, cur.energy, expected(d, m, t))
        ensure(cur == fresh and hash(cur) == hash(fresh) and cur.unique_id == fresh.unique_id and cur.temperature == t, "moved to %s K is not the entry constructed there", t)
        ensure(len(cur.energy_adjustments) == len(d["adj"]) and cur.data == d["data"], "fields after moving")
        if t != T:
            ensure(cur != e and cur.unique_id != e.unique_id, "entries at %s and %s K are not told apart", T, t)
        cur.data["moved"] = 1
        ensure("moved" not in e.data, "moving shares data with the original")
        del cur.data["moved"]
    ensure(snap(e) == before, "the original was altered")
    if d["other"] != d["f"]:
        tab = thermo.tables(TAB[d["t"]])[d["other"]]
        if min(tab) <= T <= max(tab):
            ensure(CLS[d["t"]](Composition(d["other"]), T) != e, "%s equals %s", d["other"], d["f"])
    bare = CLS[d["t"]](comp(d, m), T)
    if abs(adjustments(d, m, T)[1]) > 1e-3:
        ensure(bare != e, "entries with and without adjustments are equal")
    otherdb = "freed" if d["t"] == "nist" else "nist"
    if d["f"] in FORMULAS[otherdb]:
        tab = thermo.tables(TAB[otherdb])[d["f"]]
        if min(tab) <= T <= max(tab):
            x = CLS[otherdb](comp(d, m), T)
            ensure(x != bare and x.unique_id != bare.unique_id, "entries of the two tables are not told apart")
    el = sorted(x.symbol for x in e.composition)[0]
    g = e.to_grand_entry({Element(el): -1.25})
    ensure(close(g.energy, e.energy + 1.25 * e.composition[el], atol=1e-6), "grand energy")


def corr_case():
    return st.fixed_dictionaries(dict(n=st.integers(1, 40), T=st.integers(300, 2000), p=st.sampled_from([0.0004, 1.0, 0.5, 1e-6]), k=st.sampled_from([0.83, 0.5, 1.25])))


def corr_fn(d, rec):
    c = CarbonDioxideAtmosphericCorrection(d["n"], d["T"], d["p"])
    ensure(close(c.value, d["n"] * thermo.KB * d["T"] * math.log(d["p"]) / 3), "CO2 correction %s", c.value)
    ensure(c.temp == d["T"] and c.pco2 == d["p"], "fields")
    b = MontyDecoder().process_decoded(json.loads(json.dumps(c.as_dict())))
    ensure(type(b) is type(c) and close(b.value, c.value) and b.pco2 == c.pco2, "round trip")
    ensure(close(CarbonDioxideAtmosphericCorrection(d["n"], d["T"]).value, d["n"] * thermo.co2_shift_per_atom(d["T"])), "default partial pressure")
    c = CarbonateCorrection(d["n"], d["k"])
    ensure(close(c.value, d["n"] * d["k"]) and c.num_ions == d["n"] and c.carbonate_correction == d["k"], "carbonate correction %s", c.value)
    b = MontyDecoder().process_decoded(json.loads(json.dumps(c.as_dict())))
    ensure(type(b) is type(c) and close(b.value, c.value) and b.num_ions == c.num_ions, "round trip")
    ensure(close(CarbonateCorrection(d["n"]).value, 0.83 * d["n"]), "default correction")
    rec.nontrivial(True)


def deprecated_case():
    return st.fixed_dictionaries(dict(f=st.sampled_from(sorted(thermo.names("deprecated_compounds.json"))), m=st.integers(1, 4), T=st.sampled_from([300, 0, 450.5, 1000, 2999, 5000]), T2=st.sampled_from([300, 10, 725, 1300.25, 4000]),
                                      adj=st.lists(st.tuples(st.just("const"), st.integers(-8, 8).map(lambda i: i / 4)).map(list), max_size=1)))


def deprecated_fn(d, rec):
    """Compounds withdrawn from the tables: zero formation energy at any temperature, and marked as such."""
    d = dict(d, t="nist", data={})
    m = d["m"]
    tot = adjustments(d, m, d["T"])[1]
    e = make(d, m, d["T"])
    for x, T in ((e, d["T"]), (e.get_new_temperature(d["T2"]), d["T2"]), (MontyDecoder().process_decoded(json.loads(json.dumps(e.as_dict(), cls=MontyEncoder))), d["T"])):
        ensure(type(x) is NISTReferenceEntry and close(x.energy, tot) and x.temperature == T and x.composition == comp(d, m), "%s at %s K: %s eV", d["f"], T, x.energy)
        ensure(x.is_deprecated and x.is_experimental and "deprecated" in x.name.lower() and "deprecated" in repr(x).lower(), "%s is not marked as deprecated: %s", d["f"], x.name)
    ok = NISTReferenceEntry(Composition("NaCl"), 300)
    ensure(not ok.is_deprecated and "deprecated" not in ok.name.lower() and "deprecated" not in repr(ok).lower(), "NaCl is marked as deprecated")
    rec.nontrivial(m > 1 or bool(d["adj"]) or d["T"] != d["T2"])


FACETS = [Facet("deprecated", deprecated_case, deprecated_fn, quick=40, thorough=300), Facet("entries", case, fn, quick=500, thorough=20000, shards=3), Facet("tables", None, table_fn, cases=table_cases, shards=2),
          Facet("corrections", corr_case, corr_fn, quick=60, thorough=500)]
