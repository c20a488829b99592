E_ = """
from pymatgen.entries.computed_entries import ComputedEntry, ConstantEnergyAdjustment, EnergyAdjustment
from rxn_network.core import Composition
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet
from pymatgen.core import Element
def ent(f, epa, i=None, **k):
    c = Composition(f)
    return ComputedEntry(c, epa * c.num_atoms, entry_id=i or f, **k)
def bail(msg):
    print("BROKEN:", msg); sys.exit(1)
"""
import textwrap
def D(code): return E_ + textwrap.dedent(code)

0 and seed("b01-zero-coefficient", "B01", [("reactions/basic.py", "expected_signs, coeffs.T) < TOLERANCE)", "expected_signs, coeffs.T) < -TOLERANCE)")],
 "a set of species whose only balance leaves one of them out",
 "a reaction whose balance has a zero coefficient is reported as balanced without errors",
 D("""
 for r, p in [(["Fe2O3"], ["Fe", "O2", "Na"]), (["Li2O", "CO2"], ["Li2CO3", "NaCl"]), (["Li2O", "K"], ["Li", "O2"])]:
     x = BasicReaction.from_formulas(r, p)
     if x.balanced and x.lowest_num_errors == 0 and (len(x.reactants) < len(r) or len(x.products) < len(p)):
         bail(f"{r} -> {p}: {x} reported without errors")
 """))

seed("b01-relative-balance", "B01", [("reactions/basic.py", "almost_equals(sum_products, rtol=0, atol=TOLERANCE)", "almost_equals(sum_products, rtol=1e-2, atol=TOLERANCE)")],
 "a reaction between large amounts of atoms, slightly off balance",
 "reactions within one per cent of being balanced are reported as balanced",
 D("""
 x = BasicReaction([Composition(c) for c in ("Li2O", "Mn2O3", "LiMnO2")], [-0.5, -0.5, 1])
 assert x.balanced
 x = BasicReaction([Composition(c) for c in ("Li2O", "Mn2O3", "LiMnO2")], [-50, -50, 100.5])
 if x.balanced: bail(f"{x} is not balanced")
 """))

seed("b02-hash-order", "B02", [("reactions/basic.py", "(self.chemical_system, tuple(sorted(self.coefficients)))", "(self.chemical_system, tuple(self.coefficients))")],
 "two equal reactions that list their phases in a different order",
 "equal reactions have different hashes",
 D("""
 a = BasicReaction([Composition(c) for c in ("Li2O", "Mn2O3", "LiMnO2")], [-1, -2, 3])
 b = BasicReaction([Composition(c) for c in ("Mn2O3", "Li2O", "LiMnO2")], [-2, -1, 3])
 if a == b and hash(a) != hash(b): bail("equal reactions with different hashes")
 a = BasicReaction([Composition(c) for c in ("Li2O", "CO2", "Li2CO3")], [-1, -1, 1]); b = BasicReaction([Composition(c) for c in ("Li2CO3", "CO2", "Li2O")], [1, -1, -1])
 if a == b and len({a, b}) != 1: bail("equal reactions are kept twice in a set")
 """))

seed("b02-separable-unreduced", "B02", [("reactions/basic.py", "if comp.reduced_formula in COMMON_GASES or added_elems", "if comp.formula.replace(' ', '') in COMMON_GASES or added_elems")],
 "a gas with a formula whose printed order differs from that of its reduced formula, shares elements with the target",
 "reactions releasing such a gas are reported as inseparable",
 D("""
 import rxn_network.data as d
 from rxn_network.data import COMMON_GASES
 n = 0
 for g in COMMON_GASES:
     c = Composition(g)
     if "Li" in c or "Cl" in c or len(c) < 2: continue
     el = c.elements[0]
     t = Composition({el: 1, "Li": 3}) if el.symbol != "Li" else None
     # decomposition of a compound made of the target and the gas
     big = Composition({e: c[e] + t[e] for e in set(c) | set(t)})
     x = BasicReaction([big, t, c], [-1, 1, 1])
     assert x.balanced
     n += 1
     if not x.is_separable(t): bail(f"{x}: {g} is a gas")
 """))

seed("b02-identity", "B02", [("reactions/basic.py", "return all(np.isclose(self.reactant_coeffs[c] * -1, self.product_coeffs[c]) for c in self.reactant_coeffs)", "return bool(np.isclose(-sum(self.reactant_coeffs.values()), sum(self.product_coeffs.values())))")],
 "a reaction with the same phases on both sides, in different amounts that sum to the same total",
 "a reaction that changes the amounts of its phases counts as an identity",
 D("""
 C = Composition
 x = BasicReaction([C("LiO"), C("Li2O2"), C("LiO2"), C("Li2O"), C("LiO"), C("LiO2"), C("Li2O")], [-2, 0, -1, -1, 1, 1, 1])
 x = BasicReaction([C("FeO"), C("FeO2"), C("FeO3"), C("FeO"), C("FeO2"), C("FeO3")], [-2, -1, -2, 1, 3, 1])
 assert x.balanced, x
 if x.is_identity: bail(f"{x.reactant_coeffs} -> {x.product_coeffs} is no identity")
 """))

seed("b02-normalise-element", "B02", [("reactions/computed.py", "current_el_amount = sum(all_comp[i][element] * abs(coeffs[i]) for i in range(len(all_comp))) / 2", "current_el_amount = sum(all_comp[i][element] * coeffs[i] for i in range(len(all_comp)) if coeffs[i] > 1e-2)")],
 "a reaction in which a product has a coefficient below 0.01",
 "normalising to an element does not reach the requested amount",
 D("""
 x = ComputedReaction.balance([ent("Li2O", -1), ent("CO2", -1), ent("K2O", -1)], [ent("Li2CO3", -2), ent("K2CO3", -2)])
 x = ComputedReaction([ent("Li2O", -1), ent("CO2", -1), ent("K2O", -1), ent("Li2CO3", -2), ent("K2CO3", -2)], [-0.005, -1.005, -1, 0.005, 1])
 assert x.balanced
 y = x.normalize_to_element(Element("Li"), 2)
 if not abs(y.get_el_amount(Element("Li")) - 2) < 1e-6: bail(f"{y} has {y.get_el_amount(Element('Li'))} Li")
 """))

seed("b03-print-decimals", "B03", [("reactions/basic.py", 'product_str.append(f"{amt:.4g} {formula}")', 'product_str.append(f"{amt:.3f} {formula}")')],
 "a product with a small coefficient that is not a round number",
 "printed equations lose digits of small product coefficients",
 D("""
 x = BasicReaction([Composition(c) for c in ("Li2O", "CO2", "Li2CO3")], [-0.01234, -0.01234, 0.01234])
 y = BasicReaction.from_string(str(x))
 if abs(y.get_coeff(Composition("Li2CO3")) - 0.01234) > 1e-5: bail(f"{str(x)!r} does not give back {x.coefficients}")
 """))

seed("b03-chempot-digits", "B03", [("reactions/open.py", '{el.symbol: u for el, u in self.chempots.items()}\n        return d', '{el.symbol: round(u, 3) for el, u in self.chempots.items()}\n        return d')],
 "a chemical potential with more than three decimals",
 "open reactions change their energy when serialised",
 D("""
 x = OpenComputedReaction.balance([ent("Mn", 0), ent("O2", 0)], [ent("MnO2", -1.5)], {Element("O"): -0.123456})
 y = OpenComputedReaction.from_dict(x.as_dict())
 if abs(x.energy - y.energy) > 1e-9 or x.chempots != y.chempots: bail(f"{x.chempots} {x.energy} becomes {y.chempots} {y.energy}")
 """))

seed("b03-decimal-formula", "B03", [("reactions/basic.py", r'\s*([A-Z][\w\.\(\)]*)', r'\s*([A-Z]\w*(?:\(\w+\)\d*)*)')],
 "a formula with parentheses followed by further elements, or with decimals",
 "equations with such formulas are parsed into different reactions",
 D("""
 x = BasicReaction([Composition(c) for c in ("Li2O", "MnCO3", "Li2Mn(CO3)2", "CO2", "Mn(PO3)2Cl", "LiP3O9", "MnCl2", "Ca(HO)2")][:3], [-1, -1, 1], balanced=False)
 s = "CaO + H2O -> Ca(OH)2"
 y = BasicReaction.from_string(s)
 if not y.balanced: bail(s)
 s = "CaHClO + HF -> CaCl(OHF)H"
 for s in ("Co(HO)3Cl2 -> CoOCl2 + H3O2", "Ca(OH)2Cl2 -> CaCl2 + H2O2", "Fe0.5O + 0.5 Fe -> FeO"):
     y = BasicReaction.from_string(s)
     if not y.balanced: bail(f"{s} was read as {y}")
 """))

seed("c01-uncertainty-linear", "C01", [("reactions/computed.py", "return energy_with_uncertainty.s  # type: ignore", "return sum(abs(amt) * calc_energies[c].s for amt, c in zip(self.coefficients, self.compositions, strict=False) if amt)")],
 "a reaction with at least two phases of uncertain energy",
 "uncertainties are added linearly",
 D("""
 def u(f, e, s): return ent(f, e, energy_adjustments=[ConstantEnergyAdjustment(0.1, s)])
 x = ComputedReaction.balance([u("Li2O", -1, 0.3), u("CO2", -1, 0.0)], [u("Li2CO3", -2, 0.4)])
 if abs(x.energy_uncertainty - 0.5) > 1e-9: bail(f"uncertainty {x.energy_uncertainty}, not 0.5")
 """))

seed("c01-polymorph-energy", "C01", [("reactions/open.py", "calc_energies[comp] = min(calc_energies.get(comp, float(\"inf\")), entry.energy / factor)", "calc_energies[comp] = min(calc_energies.get(comp, 0.0), entry.energy / factor)")],
 "an open reaction with a phase of positive grand potential",
 "a positive grand potential energy counts as zero",
 D("""
 x = OpenComputedReaction.balance([ent("Mn", 0), ent("O2", 0)], [ent("MnO2", -0.2)], {Element("O"): -1.0})
 if abs(x.energy - (3 * -0.2 + 2.0)) > 1e-9: bail(f"energy {x.energy}, expected 1.4")
 """))

seed("c02-drops-data", "C02", [("reactions/reaction_set.py", "            chempot=self.chempot,\n            all_data=self.all_data,\n        )\n\n    def compute_at", "            chempot=self.chempot,\n        )\n\n    def compute_at")],
 "a set whose reactions carry data",
 "the data of the reactions is lost when the temperature changes",
 D("""
 from rxn_network.entries.gibbs import GibbsComputedEntry
 def g(f, e): return GibbsComputedEntry(Composition(f), e, volume_per_atom=10.0, temperature=300)
 x = ComputedReaction.balance([g("Li2O", -1), g("CO2", -1)], [g("Li2CO3", -2)], data={"a": 5})
 s = ReactionSet.from_rxns([x]).set_new_temperature(900)
 if next(iter(s)).data.get("a") != 5: bail("data lost")
 """))

seed("s01-data-order", "S01", [("reactions/reaction_set.py", "np.concatenate((self.all_data[size], rxn_set.all_data[size]))", "np.concatenate((rxn_set.all_data[size], self.all_data[size]))")],
 "adding a set of reactions of the same size with different data",
 "the data of the reactions of both sets is interchanged",
 D("""
 es = [ent("Li2O", -1), ent("CO2", -1), ent("Li2CO3", -2), ent("MnO", -1), ent("MnCO3", -2)]
 a = ComputedReaction.balance(es[:2], [es[2]], data={"n": 1}); b = ComputedReaction.balance([es[3], es[1]], [es[4]], data={"n": 2})
 s = ReactionSet.from_rxns([a], entries=es).add_rxn_set(ReactionSet.from_rxns([b], entries=es))
 for r in s:
     if r.data["n"] != (1 if r == a else 2): bail(f"{r} has the data of another reaction")
 """))

seed("s01-zero-chempot", "S01", [("reactions/reaction_set.py", "        if open_elem:\n            self.mu_dict", "        if open_elem and chempot:\n            self.mu_dict")],
 "an open element whose chemical potential is exactly zero",
 "reactions at zero chemical potential become closed reactions",
 D("""
 x = OpenComputedReaction.balance([ent("Mn", 0), ent("O2", 0)], [ent("MnO2", -1.5)], {Element("O"): 0.0})
 y = next(iter(ReactionSet.from_rxns([x])))
 if type(y) is not OpenComputedReaction: bail(f"{type(y).__name__} returned")
 """))

seed("s02-column-order", "S02", [("reactions/reaction_set.py", "coeffs = np.take_along_axis(self.coeffs[size], column_sorting_indices, axis=1)", "coeffs = self.coeffs[size]")],
 "two multiples of a reaction which list their entries in a different order",
 "duplicates remain, or reactions that are no duplicates are removed",
 D("""
 es = [ent("Li2O", -1), ent("CO2", -1), ent("Li2CO3", -2), ent("Mn2O3", -1), ent("LiMnO2", -2)]
 a = ComputedReaction([es[0], es[3], es[4]], [-1, -1, 2]); b = ComputedReaction([es[4], es[3], es[0]], [4, -2, -2])
 s = ReactionSet.from_rxns([a, b]).filter_duplicates(parallelize=False)
 if len(s) != 1: bail(f"{len(s)} reactions left of two multiples")
 """))

seed("s02-same-energy", "S02", [("reactions/reaction_set.py", "r: np.isclose(abs(r[0]), r), axis=1", "r: np.isclose(abs(r[0]), np.abs(r)), axis=1")],
 "a reaction between phases one of which is on a different side in another one (as in disproportionation of several phases)",
 "reactions with the same amounts on different sides are merged",
 D("""
 C = [ent("FeO", -1), ent("Fe3O4", -1), ent("Fe2O3", -2)]
 a = ComputedReaction([C[0], C[2], C[1]], [-1, -1, 1]); b = ComputedReaction([C[0], C[2], C[1]], [1, 1, -1])
 s = ReactionSet.from_rxns([a, b]).filter_duplicates(parallelize=False)
 if len(s) != 2: bail("a reaction and its reverse were merged")
 """))

seed("s03-polymorph-products", "S03", [("reactions/reaction_set.py", "if p_indices.intersection(product_indices):", "if p_indices.issuperset(product_indices):")],
 "a product formula with several entries (polymorphs) in the set",
 "reactions that form only one of the polymorphs are not found",
 D("""
 es = [ent("Li2O", -1), ent("CO2", -1), ent("Li2CO3", -2, "a"), ent("Li2CO3", -1.9, "b")]
 s = ReactionSet.from_rxns([ComputedReaction.balance(es[:2], [es[2]]), ComputedReaction.balance(es[:2], [es[3]])])
 if len(list(s.get_rxns_by_product("Li2CO3"))) != 2: bail("reactions to polymorphs are missing")
 """))

seed("s03-first-entry", "S03", [("reactions/reaction_set.py", "            {idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula in reactants}", "            {e.composition.reduced_formula: idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula in reactants}.values()")],
 "a reactant formula with several entries (polymorphs) in the set",
 "reactions of only one of the polymorphs are found",
 D("""
 es = [ent("Li2O", -1), ent("CO2", -1), ent("Li2CO3", -2, "a"), ent("Li2CO3", -1.9, "b")]
 s = ReactionSet.from_rxns([ComputedReaction.balance([es[2]], es[:2]), ComputedReaction.balance([es[3]], es[:2])])
 if len(list(s.get_rxns_by_reactants(["Li2CO3"]))) != 2: bail("reactions of polymorphs are missing")
 """))

seed("s04-added-open", "S04", [("reactions/reaction_set.py", "            \"total_chemical_system\" if rxn.__class__.__name__ == \"OpenComputedReaction\" else \"chemical_system\"", "            \"total_chemical_system\" if getattr(rxn, \"num_constraints\", 0) else \"chemical_system\"")],
 "open reactions and a target without the open element",
 "the open element is missing from the added elements",
 D("""
 from rxn_network.costs.functions import Softplus
 x = OpenComputedReaction.balance([ent("MnCl2", -1), ent("O2", 0)], [ent("MnO2", -1.5), ent("Cl2", 0)], {Element("O"): -0.5})
 df = ReactionSet.from_rxns([x]).to_dataframe(Softplus(), target=Composition("MnCl2"))
 if df["added_elems"][0] != "O": bail(f"added elements {df['added_elems'][0]!r}")
 """))

seed("s04-uncertainty-total", "S04", [("reactions/reaction_set.py", 'data["dE"].append(rxn.energy_uncertainty_per_atom)', 'data["dE"].append(rxn.energy_uncertainty / sum(c.num_atoms for c in rxn.products))')],
 "calculate_uncertainties with products whose coefficient is not one",
 "uncertainties in the table are not per atom of the reaction",
 D("""
 from rxn_network.costs.functions import Softplus
 def u(f, e, s): return ent(f, e, energy_adjustments=[ConstantEnergyAdjustment(0.1, s)])
 x = ComputedReaction([u("Li2O", -1, 0.3), u("CO2", -1, 0.1), u("Li2CO3", -2, 0.4)], [-3, -3, 3])
 df = ReactionSet.from_rxns([x]).to_dataframe(Softplus(), calculate_uncertainties=True)
 if abs(df["dE"][0] - x.energy_uncertainty_per_atom) > 1e-9: bail("wrong uncertainty")
 """))

seed("s04-precursor-elems", "S04", [("reactions/reaction_set.py", "max(len(precursor.elements) for precursor in rxn.reactants)", "max(len(e.composition.elements) for e in rxn.entries[: len(rxn.reactants)])")],
 "a reaction whose entries are not listed reactants first, e.g. a reversed one",
 "the precursor statistics describe the products",
 D("""
 from rxn_network.costs.functions import Softplus
 x = ComputedReaction.balance([ent("Li2O", -1), ent("CO2", -1)], [ent("Li2CO3", -2)]).reverse()
 df = ReactionSet.from_rxns([x]).to_dataframe(Softplus())
 if df["max_num_precursor_elems"][0] != 3: bail(f"{x}: {df['max_num_precursor_elems'][0]} elements")
 """))

seed("k01-zero-value", "K01", [("costs/functions.py", """            if rxn.data and p in rxn.data:
                value = rxn.data[p]
            elif hasattr(rxn, p):
                value = getattr(rxn, p)
            else:
                raise ValueError(f"Reaction is missing parameter {p}!")
            values.append(value)

        values_arr = np.array(values)
        total""", """            value = (rxn.data or {}).get(p) or getattr(rxn, p, None)
            if value is None:
                raise ValueError(f"Reaction is missing parameter {p}!")
            values.append(value)

        values_arr = np.array(values)
        total""")],
 "a stored parameter of exactly zero",
 "reactions with a stored zero are rejected",
 D("""
 from rxn_network.costs.functions import Softplus
 x = ComputedReaction.balance([ent("Li2O", -1), ent("CO2", -1)], [ent("Li2CO3", -2)], data={"chempot_distance": 0.0})
 try: Softplus(params=["energy_per_atom", "chempot_distance"], weights=[0.5, 0.5]).evaluate(x)
 except ValueError as e: bail(e)
 """))

seed("k02-index-labels", "K02", [("costs/pareto.py", "return df_original[is_pareto_efficient(pts, return_mask=True)]", "return df_original.loc[df_original.index[is_pareto_efficient(pts, return_mask=True)]]")],
 "a table with repeated index labels, e.g. concatenated tables",
 "the front contains dominated rows that share a label with a row on the front",
 """
 import pandas as pd
 from rxn_network.costs.pareto import get_pareto_front
 df = pd.DataFrame({"a": [1.0, 2.0], "b": [1.0, 2.0]}, index=[0, 0])
 if len(get_pareto_front(df, metrics=("a", "b"))) != 1: print("dominated row on the front"); sys.exit(1)
 """)

seed("k02-weak-domination", "K02", [("costs/pareto.py", "np.any(costs < costs[next_point_index], axis=1)", "np.any(costs <= costs[next_point_index], axis=1)")],
 "points that tie in one objective",
 "points no better in any objective and worse in one stay on the front",
 """
 import numpy as np
 from rxn_network.costs.pareto import is_pareto_efficient
 if list(is_pareto_efficient(np.array([[1.0, 1.0], [1.0, 2.0]]))) != [True, False]: print("dominated point on the front"); sys.exit(1)
 """)

seed("k03-shared-data", "K03", [("costs/base.py", "new_rxn = deepcopy(rxn)", "new_rxn = rxn.copy()")],
 "a reaction that already carries data",
 "decorating alters the data of the original reaction",
 D("""
 from rxn_network.costs.base import Calculator
 class C(Calculator):
     name = "x"
     def calculate(self, r): return 1.0
 x = ComputedReaction.balance([ent("Li2O", -1), ent("CO2", -1)], [ent("Li2CO3", -2)], data={"a": 1})
 C().decorate(x)
 if "x" in x.data: bail("original altered")
 """))

seed("k03-grand-products", "K03", [("costs/calculators.py", "            combinations(product_entries, 2),", "            combinations(product_entries[:2], 2),")],
 "a reaction with three or more products",
 "interfaces of the third product with other products are ignored",
 D("""
 from rxn_network.costs.calculators import ChempotDistanceCalculator
 es = [ent("Li", -1.9), ent("Mn", -8.0), ent("O2", -4.9), ent("C", -9.0), ent("Li2O", -5.5), ent("MnO", -7.5), ent("CO2", -7.4), ent("Li2CO3", -6.9), ent("MnCO3", -7.8), ent("Li2MnC2O6", -7.41)]
 x = ComputedReaction.balance([es[9]], [es[4], es[5], es[6]])
 assert x.balanced and len(x.products) == 3
 c = ChempotDistanceCalculator.from_entries(es)
 cpd = c.cpd; P = x.product_entries; f = lambda e: e.composition.reduced_formula
 from itertools import combinations
 pairs = [(x.reactant_entries[0], p) for p in P] + list(combinations(P, 2))
 want = sum(cpd.shortest_domain_distance(f(a), f(b)) + cpd.get_offset(a) + cpd.get_offset(b) for a, b in pairs)
 if abs(c.calculate(x) - want) > 1e-4: bail(f"{c.calculate(x)} instead of {want}")
 """))

seed("t01-polymorph-offset", "T01", [("thermo/chempot_diagram.py", "if entry in self._min_entries and entry.composition.reduced_formula in self.domains:", "if entry.composition.reduced_formula in self.domains:")],
 "a metastable polymorph of a stable phase",
 "metastable polymorphs get no offset",
 D("""
 from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram as CPD
 es = [ent("Li", 0.0), ent("O2", 0.0), ent("Li2O", -2.0, "a"), ent("Li2O", -1.9, "b")]
 d = CPD(es)
 if d.get_offset(es[3]) < 0.01: bail("no offset of a metastable polymorph")
 """))

seed("t01-offset-norm", "T01", [("thermo/chempot_diagram.py", "_get_distance_between_parallel_hyperplanes(hyperplane[:-1], e_above_hull)", "_get_distance_between_parallel_hyperplanes(hyperplane, e_above_hull)")],
 "a metastable phase whose energy per atom is not close to zero",
 "the offset is divided by the wrong length",
 D("""
 from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram as CPD
 es = [ent("Li", 0.0), ent("O2", 0.0), ent("Li2O", -2.0, "a"), ent("LiO", -1.4)]
 d = CPD(es)
 want = (1.5 - 1.4) / 0.5 ** 0.5
 if abs(d.get_offset(es[3]) - want) > 1e-6: bail(f"offset {d.get_offset(es[3])}, not {want}")
 """))

seed("t02-substring", "T02", [("thermo/utils.py", 'if set(e.composition.chemical_system.split("-")).issubset(chemsys.split("-")):', 'if e.composition.chemical_system in chemsys:')],
 "a pure element whose symbol starts that of another element (C and Ca or Cl, N and Na) and that is in no other entry",
 "phases are left out of all phase diagrams",
 D("""
 from rxn_network.thermo.utils import expand_pd
 es = [ent("Ca", 0), ent("O2", 0), ent("CaO", -3), ent("C", 0)]
 pds = expand_pd(es)
 if not any(es[3] in pd.all_entries for pd in pds.values()): bail("C is in no phase diagram")
 """))

H = """
from rxn_network.reactions.hull import InterfaceReactionHull
def hull(pts):
    # reactions A + B -> compounds of A and B with given mixing ratio and energy per atom
    a, b = ent("Li", 0.0), ent("K", 0.0)
    rs = []
    for i, (na, nb, e) in enumerate(pts):
        rs.append(ComputedReaction.balance([a, b], [ComputedEntry(Composition({"Li": na, "K": nb}), e * (na + nb), entry_id=str(i))]))
    return InterfaceReactionHull(Composition("Li"), Composition("K"), rs), rs
"""
seed("h01-upper-hull", "H01", [("reactions/hull.py", "return [r for i, r in enumerate(self.reactions) if i in self.hull_vertices]", "return [self.reactions[i] for i in sorted(self.hull.vertices) if self.coords[i, 1] < 1e-1]")],
 "a reaction of small positive energy on the upper side of the hull, or several reactions with the same mixing ratio",
 "reactions above the envelope count as stable",
 D(H + """
h, rs = hull([(1, 1, -0.5), (1, 2, 0.05), (2, 1, 0.03)])
if any(r.energy_per_atom > 0.01 for r in h.stable_reactions): bail("a reaction with positive energy is stable")
"""))

seed("h01-envelope-weights", "H01", [("reactions/hull.py", "            if np.isclose(coordinate, x1):\n", "            if np.isclose(coordinate, x1, atol=1e-2):\n")],
 "a metastable reaction whose mixing ratio is within 0.01 of that of a stable one",
 "energies above hull are measured from the neighbouring vertex",
 D(H + """
h, rs = hull([(1, 1, -0.5), (60, 61, -0.3)])
x = 61 / 121
want = -0.3 + 0.5 * (1 - x) / 0.5
if abs(h.get_energy_above_hull(rs[1]) - want) > 1e-6: bail(f"{h.get_energy_above_hull(rs[1])} instead of {want}")
"""))

seed("h02-catalan", "H02", [("reactions/hull.py", "            742900,\n", "            742990,\n")],
 "a hull with thirteen products on one side of the target",
 "the number of reaction sequences is wrong",
 D(H + """
from math import comb
h, rs = hull([(1, 1, -0.5)])
for n in range(23):
    if h.count(n) != comb(2 * n, n) // (n + 1): bail(f"count({n}) = {h.count(n)}")
"""))

seed("h02-max-adjacent", "H02", [("reactions/hull.py", """        max_energy = 0

        for c in combinations(range(len(coords)), 3):""", """        max_energy = 0

        for c in zip(range(len(coords)), range(1, len(coords)), range(2, len(coords))):""")],
 "two or more products on one side of the target",
 "the extremal secondary reaction energy misses triples that are not neighbours",
 D(H + """
h, rs = hull([(i, 6 - i, -4 * i * (6 - i) / 36) for i in range(1, 6)])
c = h.get_coords_in_range(0, 1)
from itertools import combinations
best = 0
for a, b, d in combinations(c, 3):
    y = a[1] + (b[0] - a[0]) / (d[0] - a[0]) * (d[1] - a[1]); best = min(best, b[1] - y)
if abs(h.get_max_decomposition_energy(0, 1) - best) > 1e-9: bail(f"{h.get_max_decomposition_energy(0, 1)} instead of {best}")
"""))
