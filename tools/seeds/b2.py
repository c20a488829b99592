E_ = """
from pymatgen.entries.computed_entries import ComputedEntry, ComputedStructureEntry, ConstantEnergyAdjustment
from pymatgen.core import Element, Structure, Lattice
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.nist import NISTReferenceEntry
def g(f, e, T=300, i=None, m=1, **k):
    c = Composition({x: a * m for x, a in Composition(f).items()})
    return GibbsComputedEntry(c, e, volume_per_atom=12.0, temperature=T, entry_id=i or f, **k)
def cse(f, epa, i=None, m=1, **k):
    c = Composition({x: a * m for x, a in Composition(f).items()})
    sp = [el for el, a in c.items() for _ in range(int(a))]
    n = len(sp)
    s = Structure(Lattice.cubic((12.0 * n) ** (1 / 3)), sp, [[j / n, j / n, j / n] for j in range(n)])
    return ComputedStructureEntry(s, epa * n, entry_id=i or f, **k)
def bail(msg):
    print("BROKEN:", msg); sys.exit(1)
"""
import textwrap
def D(code, pre=''): return E_ + pre + textwrap.dedent(code)

seed("e01-partial-clear", "E01", [("entries/entry_set.py", "                except AttributeError:\n                    continue", "                except AttributeError:\n                    break")],
 "a query of one derived quantity, not of those before it in the alphabet, then a change of the set, then the same query",
 "derived data of the set is stale after entries are added or removed",
 D("""
 s = GibbsEntrySet([g("Li", 0), g("O2", 0), g("Li2O", -2)])
 s.get_min_entry_by_formula("Li2O")
 new = g("Li2O", -3, i="b")
 s.add(new)
 if s.get_min_entry_by_formula("Li2O") != new: bail("stale ground state after add")
 s = GibbsEntrySet([g("Li", 0), g("O2", 0), g("Li2O", -2)])
 s.get_e_above_hull(g("Li2O", -2)); s.add(new)
 if s.get_e_above_hull(g("Li2O", -2)) < 0.5: bail("stale phase diagram")
 """))

seed("e01-shared-set", "E01", [("entries/entry_set.py", "        self.entries = set(entries)\n", "        self.entries = entries if isinstance(entries, set) else set(entries)\n")],
 "a copy (or a set built from a Python set) that is then changed",
 "changing a copy changes the original",
 D("""
 s = GibbsEntrySet([g("Li", 0), g("O2", 0), g("Li2O", -2)])
 c = s.copy(); c.add(g("LiO", -1))
 if len(s) != 3: bail("adding to a copy changed the original")
 """))

seed("e01-min-energy", "E01", [("entries/entry_set.py", "min_entries[formula] = sorted(entries, key=lambda x: x.energy_per_atom)[0]", "min_entries[formula] = sorted(entries, key=lambda x: x.energy)[0]")],
 "polymorphs with cells of different size",
 "the ground state of a formula is the entry of the largest cell",
 D("""
 s = GibbsEntrySet([g("Li", 0), g("O2", 0), g("Li2O", -2.0, i="a"), g("Li2O", -1.9, i="b", m=4)])
 if s.get_min_entry_by_formula("Li2O").entry_id != "a": bail("wrong ground state")
 """))

seed("e02-filter-energy", "E02", [("entries/entry_set.py", "if all_comps[formula].energy_per_atom < entry.energy_per_atom:", "if all_comps[formula].energy < entry.energy:")],
 "polymorphs with cells of different size, both within the limit",
 "filtering keeps the wrong polymorph",
 D("""
 for order in (1, -1):
     for n in range(6):
         es = [g("Li", 0, i=f"l{n}"), g("O2", 0, i=f"o{n}"), g("Li2O", -2.0, i=f"a{n}"), g("Li2O", -1.99, i=f"b{n}", m=4)][::order]
         f = GibbsEntrySet(es).filter_by_stability(0.1)
         ids = [e.entry_id for e in f if e.composition.reduced_formula == "Li2O"]
         if ids != [f"a{n}"]: bail(f"kept {ids}")
 """))

seed("e02-stabilise-cell", "E02", [("entries/entry_set.py", "e_adj = -1 * e_above_hull * entry.composition.num_atoms - tol", "e_adj = -1 * e_above_hull * entry.composition.reduced_composition.num_atoms - tol")],
 "a metastable entry whose cell holds several formula units",
 "the stabilised entry does not reach the hull",
 D("""
 s = GibbsEntrySet([g("Li", 0), g("O2", 0), g("Li2O", -3), g("Li2O2", -1, m=4)])
 e = next(x for x in s if x.entry_id == "Li2O2"); n = s.get_stabilized_entry(e)
 s2 = GibbsEntrySet([x for x in s if x is not e] + [n])
 if s2.get_e_above_hull(n) > 1e-6: bail(f"{s2.get_e_above_hull(n)} above the hull after stabilisation")
 """))

seed("e02-interpolated-cell", "E02", [("entries/entry_set.py", "pd_entries = self.get_subset_in_chemsys([str(e) for e in comp.elements])", "pd_entries = [e for e in self.filter_by_stability(0.0) if len(e.composition) > 1 or e.composition.elements[0] in comp] if len(comp) < 3 else self.get_subset_in_chemsys([str(e) for e in comp.elements])")],
 "interpolation of a formula", "not used", "") if 0 else None

seed("e03-round-temperature", "E03", [("entries/gibbs.py", "        if temperature % 100 > 0:\n", "        if round(temperature) % 100 > 0:\n")],
 "a temperature that is not an integer and within half a kelvin of a tabulated one",
 "the elemental references are those of the tabulated temperature",
 D("""
 e = g("Li2O", -2, T=600.4); a, b = g("Li2O", -2, T=600), g("Li2O", -2, T=700)
 def refs(x): return x.energy - x.composition.num_atoms * x._g_delta_sisso(12.0, x._reduced_mass(x.composition), x.temperature)
 def descr(T): 
     import numpy as np
     m = 3 * 0
     return T
 want = refs(a) + 0.004 * (refs(b) - refs(a))
 if abs(refs(e) - want) > 1e-6: bail(f"{refs(e)} instead of {want}")
 """))

seed("e03-round-id", "E03", [("entries/gibbs.py", 'return f"{self.entry_id}_{self.temperature}"', 'return f"{self.entry_id}_{self.temperature:.0f}"')],
 "two temperatures less than a kelvin apart",
 "entries at different temperatures share an identity",
 D("""
 a, b = g("Li2O", -2, T=600.2), g("Li2O", -2, T=600.4)
 if a.unique_id == b.unique_id: bail("same identity at different temperatures")
 """))

seed("e03-element-volume", "E03", [("entries/gibbs.py", "if self._composition.is_element:\n            return 0", "if self._composition.num_atoms == max(self._composition.values()):\n            return 0")],
 "none: equivalent", "nothing", "") if 0 else None

seed("e04-round-table", "E04", [("entries/experimental.py", "        if temperature % 100 > 0:\n            g_interp = interp1d(list(data.keys()), list(data.values()))\n            return g_interp(temperature)[()]\n\n        return data[temperature]", "        key = float(round(temperature))\n        if key in data:\n            return data[key]\n\n        g_interp = interp1d(list(data.keys()), list(data.values()))\n        return g_interp(temperature)[()]")],
 "a temperature that is not an integer and within half a kelvin of a tabulated one",
 "the energy is that of the neighbouring tabulated temperature",
 D("""
 f = lambda T: NISTReferenceEntry(Composition("CO2"), T).energy
 want = f(600) + 0.004 * (f(700) - f(600))
 if abs(f(600.4) - want) > 1e-9: bail(f"{f(600.4)} instead of {want}")
 """))

seed("e04-equality", "E04", [("entries/experimental.py", "and math.isclose(self.correction_per_atom, other.correction_per_atom)", "and math.isclose(self.correction_per_atom, other.correction_per_atom, abs_tol=1e-2)")],
 "two entries that differ by a small correction",
 "entries with different corrections are equal",
 D("""
 a = NISTReferenceEntry(Composition("CO2"), 600); b = NISTReferenceEntry(Composition("CO2"), 600, energy_adjustments=[ConstantEnergyAdjustment(0.02)])
 if a == b or len({a, b}) != 2: bail("different corrections, yet equal")
 """))

seed("e04-adjustment-temperature", "E04", [("entries/corrections.py", "return (1 / 3) * 8.617e-5 * self.temp * math.log(self.pco2)", "return (1 / 3) * 8.617e-5 * self.temp * math.log(PCO2)")],
 "a partial pressure of CO2 other than the default",
 "the correction ignores the partial pressure it was given",
 D("""
 from rxn_network.entries.corrections import CarbonDioxideAtmosphericCorrection as C
 import math
 if abs(C(3, 1000, 0.01).value - 8.617e-5 * 1000 * math.log(0.01)) > 1e-9: bail(C(3, 1000, 0.01).value)
 """))

seed("e05-co2-cell", "E05", [("entries/entry_set.py", "CarbonDioxideAtmosphericCorrection(entry.composition.num_atoms, temperature)", "CarbonDioxideAtmosphericCorrection(3, temperature)")],
 "a computed CO2 entry with several formula units per cell, reference data off",
 "the atmospheric correction of CO2 is too small",
 D("""
 es = [cse("C", -9), cse("O2", -5), cse("CO2", -8, i="a"), cse("CO2", -8, i="b", m=2)]
 s = GibbsEntrySet.from_computed_entries(es, 600, include_nist_data=False)
 x = {e.entry_id: e.energy_per_atom for e in s}
 if abs(x["a"] - x["b"]) > 1e-9: bail(f"energies per atom {x['a']} and {x['b']}")
 """))

seed("e05-carbonate-cell", "E05", [("entries/entry_set.py", "        comp = entry.composition\n\n        if not {Element", "        comp = entry.composition.reduced_composition\n\n        if not {Element")],
 "a carbonate with several formula units per cell",
 "the carbonate correction is too small",
 D("""
 es = [cse("C", -9), cse("O2", -5), cse("Ca", -2), cse("CaCO3", -8, i="a", parameters={"run_type": "GGA"}), cse("CaCO3", -8, i="b", m=2, parameters={"run_type": "GGA"})]
 s = GibbsEntrySet.from_computed_entries(es, 600, include_nist_data=False)
 x = {e.entry_id: e.energy_per_atom for e in s}
 if abs(x["a"] - x["b"]) > 1e-9: bail(f"energies per atom {x['a']} and {x['b']}")
 """))

seed("e05-experimental-once", "E05", [("entries/entry_set.py", "            if (composition.is_element and entry not in pd.el_refs.values()) or formula in experimental_formulas:", "            if (composition.is_element and formula not in {e.composition.reduced_formula for e in pd.el_refs.values()}) or formula in experimental_formulas:")],
 "two allotropes of an element without reference data",
 "entries of excited allotropes are kept",
 D("""
 es = [cse("Li", -1.9, i="a"), cse("Li", -1.8, i="b"), cse("O2", -5), cse("Li2O", -5)]
 s = GibbsEntrySet.from_computed_entries(es, 600, include_nist_data=False)
 if len([e for e in s if e.composition.reduced_formula == "Li"]) != 1: bail("several entries of an element")
 """))

PE = """
from rxn_network.entries.utils import process_entries
ES = [cse("Ba", -1.9), cse("O2", -5), cse("Ti", -8), cse("BaO", -6), cse("TiO2", -8.5), cse("BaTiO3", -7.9), cse("Ba2TiO4", -6.6)]
"""
seed("e06-include-after-filter", "E06", [("entries/utils.py", "    included_entries = [initialize_entry(f, entry_set) for f in formulas_to_include] if formulas_to_include else []\n\n    entry_set = entry_set.filter_by_stability(e_above_hull=e_above_hull, include_polymorphs=include_polymorphs)\n",
 "    entry_set = entry_set.filter_by_stability(e_above_hull=e_above_hull, include_polymorphs=include_polymorphs)\n    included_entries = [initialize_entry(f, entry_set) for f in formulas_to_include] if formulas_to_include else []\n\n")],
 "a requested formula whose entry exceeds the metastability limit",
 "a requested phase is interpolated although it is in the data",
 D("""
 s = process_entries(ES, 900, 0.001, formulas_to_include=["Ba2TiO4"], include_nist_data=False)
 e = s.get_min_entry_by_formula("Ba2TiO4")
 if e.entry_id != "Ba2TiO4": bail(f"{e!r}")
 """, PE))

seed("e06-include-temperature", "E06", [("entries/utils.py", "    entry_set.update(included_entries)  # make sure these aren't filtered out\n\n    if filter_at_temperature and (filter_at_temperature != temperature):\n        entry_set = entry_set.get_entries_with_new_temperature(temperature)\n",
 "    if filter_at_temperature and (filter_at_temperature != temperature):\n        entry_set = entry_set.get_entries_with_new_temperature(temperature)\n\n    entry_set.update(included_entries)  # make sure these aren't filtered out\n")],
 "a requested formula together with a filter temperature different from the study temperature",
 "requested phases stay at the filter temperature",
 D("""
 s = process_entries(ES, 900, 0.001, filter_at_temperature=300, formulas_to_include=["Ba2TiO4"], include_nist_data=False)
 if {e.temperature for e in s} != {900}: bail(sorted(e.temperature for e in s))
 """, PE))

seed("e06-zero-filter", "E06", [("entries/utils.py", "    if stabilize:\n        entry = entry_set.get_stabilized_entry(entry)", "    if stabilize and entry_set.get_e_above_hull(entry) > 1e-2:\n        entry = entry_set.get_stabilized_entry(entry)")],
 "a phase less than 10 meV/atom above the hull that is to be stabilised",
 "entries slightly above the hull are not placed on it",
 D("""
 from rxn_network.entries.utils import initialize_entry
 a = g("Li2O", -3); b = g("Li2O2", -2.0)
 s = GibbsEntrySet([g("Li", 0), g("O2", 0), a, b])
 h = s.get_e_above_hull(b)
 b2 = GibbsComputedEntry(b.composition, -2.0 - h + 0.005, 12.0, 300, entry_id="m")
 s = GibbsEntrySet([g("Li", 0), g("O2", 0), a, b2])
 if not 0 < s.get_e_above_hull(b2) < 0.01: sys.exit(0)
 n = initialize_entry("Li2O2", s, stabilize=True)
 s2 = GibbsEntrySet([g("Li", 0), g("O2", 0), a, n])
 if s2.get_e_above_hull(n) > 1e-6: bail("not on the hull")
 """))
