"""D02: entry databases are searched for exactly the entries asked for."""
import json
import warnings
from collections import Counter
from itertools import product

from hypothesis import strategies as st
from maggma.stores import MemoryStore
from monty.json import MontyEncoder
from pymatgen.core import Lattice, Structure
from pymatgen.entries.computed_entries import ComputedEntry, ComputedStructureEntry
from rxn_network.entries.utils import get_all_entries_in_chemsys, get_all_entries_in_chemsys_from_entry_db, get_entries, get_entries_from_entry_db, parse_criteria
from vp import enums
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "D02"
RULE = ("Databases of three to fourteen generated entries (several per composition; calculated in one way, the other, both or none; deprecated or not) in a stand-in store, searched by id, formula (in any order and multiple), chemical system (in any "
        "order), wildcards and alternatives in both, several criteria at once, plain queries, and whole chemical systems of one to sixteen elements in any chunk size. Non-trivial: some entries match and others do not.")
POOL = ["Li", "Na", "Mg", "Ca", "Fe", "Mn", "C", "N", "O", "S", "F", "Cl", "Y", "Ba", "Ti", "Si"]


@st.composite
def docs_(draw, pool):
    out = []
    for i in range(draw(st.integers(3, 14))):
        if out and draw(st.integers(0, 4)) == 0:
            c = dict(out[draw(st.integers(0, len(out) - 1))]["c"])
        else:
            c = {e: draw(st.integers(1, 3)) for e in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))}
        out.append(dict(id=f"mp-{draw(st.integers(1, 3))}{i}", c=c, how=draw(st.sampled_from(["GGA", "GGA+U", "both", "both", "none"])), e=draw(st.integers(-40, 8)) / 8, dep=draw(st.integers(0, 4)) == 0, hull=draw(st.integers(0, 6)) / 8,
                        cell=draw(st.sampled_from(["P", "F", "I"]))))
    return out


def struct(d):
    n = sum(d["c"].values())
    els = [e for e, a in d["c"].items() for _ in range(a)]
    return Structure(Lattice.orthorhombic(3.0, 3.5, 4.0 * n), els, [[0, 0, i / n + 0.01 * (i % 3)] for i in range(n)])


def entry(d, shift=0.0):
    return ComputedStructureEntry(struct(d), d["e"] + shift, entry_id=d["id"])


def fill(docs, extra=None):
    db = MemoryStore(key="task_id")
    db.connect()
    rows = []
    for d in docs:
        own, other = (json.loads(json.dumps(entry(d, s).as_dict(), cls=MontyEncoder)) for s in (0.0, 1.0))
        ents = {"GGA": {"GGA": own}, "GGA+U": {"GGA+U": own}, "both": {"GGA": other, "GGA+U": own}, "none": {}}[d["how"]]
        els = sorted(d["c"])
        rows.append(dict(task_id=d["id"], pretty_formula=enums.rf(d["c"]), chemsys="-".join(els), elements=els, entries=ents, deprecated=d["dep"], **(extra(d) if extra else {})))
    db.update(rows)
    return db


@st.composite
def token(draw, docs, pool):
    kind = draw(st.sampled_from(["id", "formula", "system", "system", "wild formula", "wild formula", "wild system", "wild system"]))
    d = draw(st.sampled_from([x for x in docs if len(x["c"]) > 1 or not kind.endswith("system")] or docs))
    els = draw(st.permutations(sorted(d["c"])))
    if kind == "id":
        return dict(k="id", id=d["id"], s=d["id"])
    alt = lambda e: draw(st.sampled_from([sorted({e, draw(st.sampled_from(pool))}), "*"]))  # noqa: E731
    w = draw(st.integers(0, len(els) - 1)) if kind.startswith("wild") else -1
    two = w >= 0 and len(els) > 1 and draw(st.integers(0, 3)) == 0
    opts = []
    for i, e in enumerate(els):
        if i == w:
            o = alt(e)
        elif two and i == (w + 1) % len(els):
            o = sorted({e, draw(st.sampled_from(pool))}) if kind == "wild system" or opts and opts[w] == "*" else [e]
        else:
            o = [e]
        opts.append(o)
    txt = ["*" if o == "*" else o[0] if len(o) == 1 else "{%s}" % draw(st.sampled_from([",", ", "])).join(o) for o in opts]
    if " " in "".join(txt):
        txt = [t.replace(" ", "") for t in txt]
    if kind.endswith("system"):
        if len(els) < 2:
            return dict(k="id", id=d["id"], s=d["id"])
        return dict(k="system", opts=opts, s="-".join(txt))
    m = 1 if w >= 0 else draw(st.integers(1, 2))
    am = [d["c"][e] * m for e in els]
    if w < 0 or draw(st.booleans()):
        pass
    else:
        am = [draw(st.integers(1, 3)) for _ in els]
    rep = ""
    i = draw(st.integers(0, len(am) - 1))
    part = am[i]
    if w < 0 and part > 1 and draw(st.booleans()):  # an element may be written twice, as in NH4NO3
        part = draw(st.integers(1, part - 1))
        rep = txt[i] + (str(am[i] - part) if am[i] - part > 1 else "")
    num = [part if j == i else a for j, a in enumerate(am)]
    return dict(k="formula", opts=opts, am=am, s="".join(t + (str(a) if a > 1 else "") for t, a in zip(txt, num)) + rep)


@st.composite
def criteria(draw):
    pool = draw(st.lists(st.sampled_from(POOL), min_size=2, max_size=5, unique=True))
    docs = draw(docs_(pool))
    toks = draw(st.lists(token(docs, pool), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3]))))
    return dict(docs=docs, toks=toks, sep=draw(st.sampled_from([" ", "  "])), plain=draw(st.integers(0, 6)) == 0)


def matches(t, c):
    if t["k"] == "id":
        return False
    if len(t["opts"]) != len(c) and t["k"] == "system":
        return False
    els = sorted(c)
    opts = [els if o == "*" else [e for e in o if e in els] for o in t["opts"]]
    for p in product(*opts):
        if len(set(p)) < len(p) or set(p) != set(els):
            continue
        if t["k"] == "system":
            return True
        if enums.rf(dict(zip(p, t["am"]))) == enums.rf(c):
            return True
    return False


def brief(e):
    return (str(e.entry_id), e.composition.formula, round(float(e.energy), 6))


def criteria_fn(d, rec):
    db = fill(d["docs"])
    latest = {x["id"]: x for x in d["docs"]}  # one record per id
    docs = list(latest.values())
    hit = [x for x in docs if any(t["k"] == "id" and t["id"] == x["id"] or matches(t, x["c"]) for t in d["toks"])]
    text = d["sep"].join(t["s"] for t in d["toks"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ask = {"task_id": {"$in": [x["id"] for x in hit]}} if d["plain"] else text
        got = get_entries_from_entry_db(db, ask)
        got2 = get_entries(db, parse_criteria(text), compatible_only=False, use_premade_entries=True)
        got3 = get_entries(db, ask, compatible_only=False, use_premade_entries=True)
    want = Counter(brief(entry(x)) for x in hit if x["how"] != "none")
    g = Counter(map(brief, got))
    ensure(g == want, "%r finds %s; missing %s, unexpected %s", ask, len(got), list((want - g))[:2], list((g - want))[:2])
    ensure(all(type(e) is ComputedStructureEntry and e.structure.matches(struct(latest[e.entry_id])) for e in got), "the structures are not those stored")
    want = Counter(brief(entry(x, 1.0 if x["how"] == "both" else 0.0)) for x in hit if x["how"] != "none" and not x["dep"])  # here, plain calculations are preferred
    for g in (got2, got3):
        g = Counter(map(brief, g))
        ensure(g == want, "%r: missing %s, unexpected %s", ask, list((want - g))[:2], list((g - want))[:2])
    rec.nontrivial(0 < len(hit) < len(docs))
    for t in d["toks"]:
        rec.label(t["k"] + (" wild" if "*" in t["s"] or "{" in t["s"] else ""))


@st.composite
def system(draw):
    pool = draw(st.permutations(POOL) | st.lists(st.sampled_from(POOL), min_size=2, max_size=8, unique=True))
    docs = draw(docs_(pool[: draw(st.sampled_from([3, 5, 16]))]))
    k = draw(st.integers(1, len(pool)))
    if draw(st.integers(0, 3)) == 0:
        k = max(k, min(14, len(pool)))
    return dict(docs=docs, els=pool[:k], text=draw(st.booleans()), n=draw(st.sampled_from([1, 2, 7, 1000])), inc=draw(st.sampled_from([None, "initial", "final"])), pd=draw(st.lists(st.sampled_from(["hull", "band_gap"]), max_size=2, unique=True)),
                sort=draw(st.booleans()), conv=draw(st.booleans()))


def full(d):
    s = struct(d)
    other = s.copy()
    other.scale_lattice(s.volume * 1.2)
    return dict(run_type="GGA", is_hubbard=False, pseudo_potential=dict(functional="PBE", labels=["X_pv"]), hubbards={}, potcar_symbols=[], oxide_type="oxide", final_energy=d["e"], unit_cell_formula=dict(d["c"]), e_above_hull=d["hull"], hull=d["hull"],
                band_gap=2 * d["hull"], structure=s.as_dict(), initial_structure=other.as_dict())


def system_fn(d, rec):
    db = fill(d["docs"], full)
    latest = {x["id"]: x for x in d["docs"]}
    docs = list(latest.values())
    hit = [x for x in docs if set(x["c"]) <= set(d["els"])]
    els = "-".join(d["els"]) if d["text"] else list(d["els"])
    few = len(d["els"]) <= 9 or d["n"] > 100
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = Counter(map(brief, get_all_entries_in_chemsys_from_entry_db(db, els)))
        want = Counter(brief(entry(x)) for x in hit if x["how"] != "none")
        ensure(got == want, "entries in %s: missing %s, unexpected %s", els, list((want - got))[:2], list((got - want))[:2])
        res = get_all_entries_in_chemsys(db, els, compatible_only=False, inc_structure=d["inc"], property_data=list(d["pd"]), conventional_unit_cell=d["conv"], n=d["n"] if few else 1000)
        one = get_entries(db, {"elements": {"$in": list(d["els"])}}, compatible_only=False, property_data=list(d["pd"]), sort_by_e_above_hull=d["sort"])
    live = [x for x in hit if not x["dep"]]
    ensure(Counter(e.entry_id for e in res) == Counter(x["id"] for x in live), "entries in %s: %s instead of %s", els, sorted(e.entry_id for e in res), sorted(x["id"] for x in live))
    for e in res:
        x = latest[e.entry_id]
        ensure(type(e) is (ComputedStructureEntry if d["inc"] else ComputedEntry), "%s is a %s", e.entry_id, type(e))
        ensure(enums.rf({k.symbol: a for k, a in e.composition.items()}) == enums.rf(x["c"]) and close(e.energy_per_atom, x["e"] / sum(x["c"].values())), "%s: %s with %s eV", e.entry_id, e.composition, e.energy)
        ensure(e.data["oxide_type"] == "oxide" and all(e.data[k] == (x["hull"] if k == "hull" else 2 * x["hull"]) for k in d["pd"]), "%s: data %s", e.entry_id, e.data)
        ensure(e.parameters["run_type"] == "GGA" and list(e.parameters["potcar_symbols"]) == ["PBE X_pv"], "%s: parameters %s", e.entry_id, e.parameters)
        if d["inc"]:
            v = struct(x).volume * (1.2 if d["inc"] == "initial" else 1.0) / sum(x["c"].values())
            ensure(close(e.structure.volume / len(e.structure), v, 1e-4), "%s: %s A^3 per atom instead of %s", e.entry_id, e.structure.volume / len(e.structure), v)
    some = [x for x in docs if set(x["c"]) & set(d["els"]) and not x["dep"]]
    ensure(Counter(e.entry_id for e in one) == Counter(x["id"] for x in some), "entries with any of %s: %s instead of %s", els, sorted(e.entry_id for e in one), sorted(x["id"] for x in some))
    if d["sort"]:
        hulls = [latest[e.entry_id]["hull"] for e in one]
        ensure(hulls == sorted(hulls), "not sorted by energy above hull: %s", hulls)
    rec.nontrivial(0 < len(hit) < len(docs))
    rec.label("large" if len(d["els"]) > 13 else "small")


FACETS = [Facet("criteria", criteria, criteria_fn, quick=250, thorough=6000, shards=4), Facet("system", system, system_fn, quick=100, thorough=3000, shards=8)]
