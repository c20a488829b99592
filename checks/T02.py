"""T02: splitting a chemical system into smaller phase diagrams loses nothing."""
import json

from hypothesis import strategies as st
from monty.json import MontyEncoder
from pymatgen.analysis.phase_diagram import GrandPotPDEntry
from pymatgen.core.composition import Element
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.thermo.utils import expand_pd
from vp import gen, geom
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "T02"
RULE = ("Entries over 2-12 elements (compounds of up to 5 of them, overlapping and disjoint sub-systems, polymorphs, arbitrary cells), as closed entries or "
        "grand-potential entries, in several container types and orders. Coverage is recomputed with plain sets; energies above hull by linear "
        "programming over all entries at once. Non-trivial: more than one phase diagram and a metastable compound.")


@st.composite
def case(draw):
    n = draw(st.sampled_from([2, 3, 4, 6, 9, 12]))
    els = draw(gen.el_sets(n, n))
    es = draw(gen.entry_list(els, min_size=1, max_size=9, kinds=("plain", "gibbs", "interp")))
    for x in es:  # keep the compounds to few elements
        if len(x["c"]) > 5:
            x["c"] = dict(sorted(x["c"].items())[: draw(st.integers(2, 4))])
    return dict(entries=es, els=els, perm=draw(st.permutations(range(len(es)))), container=draw(st.sampled_from(["list", "set", "tuple", "iter"])),
                open=draw(st.one_of(st.none(), st.tuples(st.integers(0, 11), st.sampled_from([0.0, -0.5, -2.0])).map(list))))


def fn(d, rec):
    ents = [gen.mk_entry(d["entries"][i]) for i in d["perm"]]
    if d["open"] is not None and len(d["els"]) > 2:
        oe = Element(d["els"][d["open"][0] % len(d["els"])])
        ents = [GrandPotPDEntry(e, {oe: d["open"][1]}) for e in ents if set(e.composition.elements) != {oe}]
        rec.label("grand")
    before = [json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) for e in ents]
    pds = expand_pd({"list": list, "set": set, "tuple": tuple, "iter": iter}[d["container"]](ents))
    systems = [frozenset(el.symbol for el in e.composition.elements) for e in ents]
    keys = {frozenset(k.split("-")): pd for k, pd in pds.items()}
    ensure(len(keys) == len(pds), "the same system twice: %s", list(pds))
    els = sorted({x for s in systems for x in s})
    fr = [[float(e.composition[Element(x)]) / e.composition.num_atoms for x in els] for e in ents]
    epa = [e.energy / e.composition.num_atoms for e in ents]
    meta = False
    for e, s, x, en in zip(ents, systems, fr, epa):
        homes = [pd for k, pd in keys.items() if s <= k]
        ensure(homes, "%s (%s) is in none of the diagrams %s", e, sorted(s), list(pds))
        want = en - geom.hull_energy(fr, epa, x)
        meta = meta or (len(s) > 1 and want > 1e-4)
        for pd in homes:
            ensure(any(y is e or y == e for y in pd.all_entries), "%s missing from the diagram of its system", e)
            got = pd.get_e_above_hull(e)
            ensure(close(got, want, atol=2e-6), "energy above hull of %s is %s in %s, expected %s", e, got, pd.elements, want)
    for k, pd in keys.items():
        inside = [e for e, s in zip(ents, systems) if s <= k]
        if d["container"] == "set":  # equal entries of a set are one
            inside = set(inside)
        ensure({el.symbol for el in pd.elements} == set(k), "diagram %s has elements %s", sorted(k), pd.elements)
        ensure(len(pd.all_entries) == len(inside), "diagram %s has %s entries, %s lie in its system", sorted(k), len(pd.all_entries), len(inside))
    for k in keys:
        ensure(not any(k < o for o in keys), "system %s is covered by a larger one", sorted(k))
    ensure([json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) for e in ents] == before, "entries altered")
    rec.nontrivial(len(keys) > 1 and meta)
    rec.label(f"{min(len(keys), 4)} diagrams")
    if d["open"] is None:
        s = GibbsEntrySet(ents)
        for e, x, en in zip(ents, fr, epa):
            want = en - geom.hull_energy(fr, epa, x)
            ensure(close(s.get_e_above_hull(e), want, atol=2e-6), "the entry set gives energy above hull %s for %s, expected %s", s.get_e_above_hull(e), e, want)


FACETS = [Facet("expansion", case, fn, quick=240, thorough=8000, shards=4)]
