"""E05: building Gibbs entry sets from computed entries treats every phase exactly once."""
import json

from hypothesis import strategies as st
from monty.json import MontyEncoder
from pymatgen.analysis.phase_diagram import PhaseDiagram
from pymatgen.core import Lattice, Structure
from pymatgen.entries.computed_entries import ComputedStructureEntry
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from vp import gen, geom, thermo
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "E05"
RULE = ("Collections of computed structure entries (elements with several allotropes, compounds in several cells and polymorphs, many of them tabulated compounds, "
        "carbonates and CO2) of two to four or ten and more elements, every switch for reference data, corrections and size, any temperature; each resulting "
        "entry is predicted from plain arithmetic on the inputs, the published descriptor and frozen tables. Non-trivial: at least two of reference data, "
        "computed compound and correction occur.")
KNOWN_EL = set(thermo.tables("mu_elements.json")[300])


@st.composite
def compound(draw, els, tab):
    c = None
    if tab and draw(st.booleans()):
        c = {x.symbol: int(a) for x, a in Composition(draw(st.sampled_from(tab))).items()}
    elif {"C", "O"} <= set(els) and draw(st.integers(0, 2)) == 0:
        n = draw(st.integers(1, 2))
        c = {"C": n, "O": draw(st.sampled_from([3, 3, 2, 3])) * n}
        if draw(st.integers(0, 7)) == 0:  # hardly a carbonate
            c = draw(st.sampled_from([{"C": 7, "O": 22}, {"C": 7, "O": 20}, {"C": 5, "O": 16}, {"C": 4, "O": 11}]))
        for e in els:
            if e not in c and draw(st.booleans()):
                c[e] = draw(st.integers(1, 2))
    return c or draw(gen.formula(els, max_amt=3, min_els=2, max_els=3))


def tabulated(els):
    return sorted(f for t in ("nist.json.gz", "freed.json.gz") for f in thermo.tables(t) if sum(Composition(f).values()) <= 14 and len(f) < 14
                  and {x.symbol for x in Composition(f)} <= set(els) and not f.startswith("D") and f not in thermo.names("deprecated_compounds.json"))


_TAB = {}


def tab_for(els):
    k = tuple(sorted(els))
    if k not in _TAB:
        _TAB[k] = tabulated(els)
    return _TAB[k]


@st.composite
def entries_(draw, els, n_lo, n_hi, tab):
    out = []
    for e in els:
        base = draw(st.integers(-8 * 64, 0)) / 64
        for j in range(draw(st.sampled_from([1, 1, 2, 3]))):
            out.append(dict(c={e: draw(st.integers(1, 3))}, e=base + j * draw(st.one_of(st.integers(1, 40).map(lambda x: x / 64), st.sampled_from([1 / 1024, 1 / 512, 1 / 4096]))), a=[draw(st.integers(16, 40)) / 8 for _ in range(3)], id=f"mp-{e}{j}", rt="GGA", data={}))
    refs = {}
    for x in out:
        (e, _), = x["c"].items()
        refs[e] = min(refs.get(e, 9e9), x["e"])
    for i in range(draw(st.integers(n_lo, n_hi))):
        if i and draw(st.integers(0, 3)) == 0:
            c = dict(draw(st.sampled_from([x["c"] for x in out if len(x["c"]) > 1])))
        else:
            c = draw(compound(els, tab))
        m = draw(st.sampled_from([1, 1, 2])) if sum(c.values()) < 8 else 1
        c = {k: v * m for k, v in c.items()}
        n = sum(c.values())
        ref = sum(refs[k] * v for k, v in c.items()) / n
        out.append(dict(c=c, e=ref + draw(st.integers(-256, 40)) / 64, a=[draw(st.integers(16, 60)) / 8 for _ in range(3)], id=f"mp-{i}", rt=draw(st.sampled_from(["GGA", "GGA", "GGA+U", "R2SCAN", None])),
                        data=draw(st.fixed_dictionaries({}, optional={"theoretical": st.booleans(), "x": st.just(1)})), corr=draw(st.sampled_from([0.0, 0.0, -0.5]))))
    order = draw(st.permutations(range(len(out))))
    return [out[i] for i in order]


def options(draw):
    b = st.booleans()
    return dict(include_nist_data=draw(b), include_freed_data=draw(st.sampled_from([False, False, True])), apply_carbonate_correction=draw(b), apply_atmospheric_co2_correction=draw(b),
                ignore_nist_solids=draw(b), calculate_e_above_hulls=draw(b), minimize_obj_size=draw(st.sampled_from([False, False, True])))


@st.composite
def case(draw):
    if draw(st.booleans()):
        els = draw(gen.el_sets(1, 2, ["Li", "Na", "Ba", "Fe", "N", "Si", "Y"])) + ["C", "O"]
    else:
        els = draw(gen.el_sets(2, 4))
    return dict(es=draw(entries_(els, 2, 8, tab_for(els))), T=draw(st.one_of(st.sampled_from([300, 900, 1000.0, 1300]), st.integers(300, 1600))), opt=options(draw), via=draw(st.sampled_from(["entries", "entries", "pd", "iter"])))


BIG = ["Li", "Na", "Fe", "Y", "C", "Si", "S", "O", "Cl", "Mn", "Ba", "Ti", "P", "N"]


@st.composite
def big_case(draw):
    els = draw(st.lists(st.sampled_from(BIG), min_size=10, max_size=12, unique=True))
    tab = [f for f in tab_for(els) if len(Composition(f)) <= 3]
    return dict(es=draw(entries_(els, 4, 12, tab)), T=draw(st.sampled_from([300, 900, 1234])), opt=options(draw), via="entries")


def build(x):
    sites = [e for e, a in x["c"].items() for _ in range(a)]
    n = len(sites)
    s = Structure(Lattice.orthorhombic(*x["a"]), sites, [[i / n, (i * 0.37) % 1, (i * 0.61) % 1] for i in range(n)])
    data = dict(x["data"])
    params = {} if x["rt"] is None else {"run_type": x["rt"]}
    return ComputedStructureEntry(s, x["e"] * n - x.get("corr", 0.0), correction=x.get("corr", 0.0), parameters=params, data=data, entry_id=x["id"])


def red(c):
    return Composition(c).reduced_formula


def tabular(f, T, opt):
    """[(class name, energy per atom)] that replace the computed entries of a formula."""
    out = []
    n = sum(Composition(f).values())
    shift = thermo.co2_shift_per_atom(T) if f == "CO2" and opt["apply_atmospheric_co2_correction"] else 0.0
    if opt["include_nist_data"] and not (opt["ignore_nist_solids"] and f in thermo.names("ignore_solids.json")):
        t = thermo.tables("nist.json.gz").get(f)
        v = t and thermo.lookup(t, T)
        if v is not None:
            out.append(("NISTReferenceEntry", f, v / n + shift))
    if opt["include_freed_data"]:
        t = thermo.tables("freed.json.gz").get(f)
        v = t and thermo.lookup(t, T)
        if v is not None:
            out.append(("FREEDReferenceEntry", f, v / n + shift))
    return out


def predict(d):
    """{key: energy per atom}; key = (class, formula) or ("GibbsComputedEntry", entry id)."""
    opt, T = d["opt"], d["T"]
    refs = {}
    for x in d["es"]:
        if len(x["c"]) == 1:
            (e, _), = x["c"].items()
            if e not in refs or x["e"] < refs[e]["e"]:
                refs[e] = x
    out, kinds = {}, set()
    for x in d["es"]:
        if len(x["c"]) == 1:
            (e, _), = x["c"].items()
            if refs[e] is x:
                out[("GibbsComputedEntry", x["id"])] = (0.0, x)
            continue
        f = red(x["c"])
        t = tabular(f, T, opt)
        if t:
            for cls, f, v in t:
                out[(cls, f)] = (v, None)
            kinds.add("tabulated")
            continue
        n = sum(x["c"].values())
        ef = x["e"] - sum(refs[k]["e"] * v for k, v in x["c"].items()) / n
        vpa = x["a"][0] * x["a"][1] * x["a"][2] / n
        g = ef + thermo.gibbs_correction(x["c"], vpa, T) / n
        if opt["apply_carbonate_correction"] and x["rt"] in ("GGA", "GGA+U") and "C" in x["c"] and "O" in x["c"] and x["c"]["O"] == 3 * x["c"]["C"]:
            g += 0.83 * x["c"]["C"] / n
            kinds.add("carbonate")
        if opt["apply_atmospheric_co2_correction"] and f == "CO2":
            g += thermo.co2_shift_per_atom(T)
            kinds.add("CO2")
        out[("GibbsComputedEntry", x["id"])] = (g, x)
        kinds.add("computed")
    return out, kinds


def check(d, s, rec):
    want, kinds = predict(d)
    opt, T = d["opt"], d["T"]
    got = {}
    for e in s:
        k = (type(e).__name__, e.entry_id if type(e).__name__ == "GibbsComputedEntry" else e.composition.reduced_formula)
        ensure(k not in got, "%s appears more than once", e)
        got[k] = e
    ensure(set(got) == set(want), "missing: %s; unexpected: %s", sorted(set(want) - set(got)), sorted(set(got) - set(want)))
    for k, (v, x) in want.items():
        e = got[k]
        ensure(close(e.energy_per_atom, v, atol=1e-7), "%s: %s eV/atom, expected %s", e, e.energy_per_atom, v)
        ensure(e.temperature == T, "temperature")
        if x is not None:
            n = sum(x["c"].values())
            ensure(e.composition == Composition(x["c"]), "composition of %s", e)
            ensure(close(e.volume_per_atom, x["a"][0] * x["a"][1] * x["a"][2] / n), "volume of %s", e)
            if opt["minimize_obj_size"]:
                ensure(not e.parameters and set(e.data) <= {"e_above_hull"}, "metadata kept: %s %s", e.parameters, e.data)
            else:
                ensure({a: b for a, b in e.data.items() if a != "e_above_hull"} == x["data"], "data of %s: %s", e, e.data)
                ensure(e.parameters.get("run_type") == x["rt"], "parameters of %s", e)
    ensure(s.calculate_e_above_hulls == opt["calculate_e_above_hulls"] and s.minimize_obj_size == opt["minimize_obj_size"], "options of the set")
    es = list(s)
    els = sorted({x.symbol for e in es for x in e.composition})
    fr = [[e.composition[x] / sum(e.composition.values()) for x in els] for e in es]
    E = [e.energy_per_atom for e in es]
    for i, e in enumerate(es):
        if opt["calculate_e_above_hulls"]:
            w = E[i] - geom.hull_energy(fr, E, fr[i])
            ensure("e_above_hull" in e.data and close(e.data["e_above_hull"], w, atol=1e-6), "energy above hull of %s: %s, expected %s", e, e.data.get("e_above_hull"), w)
        else:
            ensure("e_above_hull" not in e.data, "energy above hull stored without being asked for")
    rec.nontrivial(len(kinds) >= 2)
    for k in kinds:
        rec.label(k)


def fn(d, rec):
    es = [build(x) for x in d["es"]]
    before = [json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) for e in es]
    if d["via"] == "pd":
        s = GibbsEntrySet.from_pd(PhaseDiagram(es), d["T"], **d["opt"])
    else:
        s = GibbsEntrySet.from_computed_entries(iter(es) if d["via"] == "iter" else es, d["T"], **d["opt"])
    check(d, s, rec)
    for e, b in zip(es, before):
        ensure(json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) == b, "the input entry %s was altered", e.entry_id)


FACETS = [Facet("small", case, fn, quick=240, thorough=8000, shards=5), Facet("large", big_case, fn, quick=40, thorough=1200, shards=3)]
