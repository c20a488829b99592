E_ = """
import fakeray
fakeray.install()
from pymatgen.core import Element
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet
fakeray.S.reset()
def g(f, e, T=300, i=None, m=1, **k):
    c = Composition({x: a * m for x, a in Composition(f).items()})
    return GibbsComputedEntry(c, e, volume_per_atom=12.0, temperature=T, entry_id=i or f, **k)
def bail(msg):
    print("BROKEN:", msg); sys.exit(1)
"""
import textwrap
def D(code, pre=''): return E_ + pre + textwrap.dedent(code)

J = """
from rxn_network.jobs.core import *
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
def comp(sets, es, target, **k):
    return CalculateCompetitionMaker.make.original(CalculateCompetitionMaker(**k), sets, es, target).rxns
"""
# ---- H03
seed("h03-identity-single", "H03", [("jobs/core.py", "if not np.isclose(other_energies, 0.0).any():", "if len(other_energies) == 0:")],
 "a single precursor all of whose other reactions cost energy",
 "the primary competition of a decomposition ignores that the precursor may stay as it is",
 D("""
 es = GibbsEntrySet([g("Ba", 0), g("Ti", 0), g("O2", 0), g("BaO", -2.5), g("TiO2", -3), g("BaTiO3", -4.0)])
 A = es.get_min_entry_by_formula
 r = ComputedReaction.balance([A("BaTiO3")], [A("BaO"), A("TiO2")])
 s = ComputedReaction.balance([A("BaTiO3")], [A("Ba"), A("Ti"), A("O2")])
 out = list(comp([ReactionSet.from_rxns([r, s], entries=es)], es, "TiO2"))
 w = r.energy_per_atom - min(0, s.energy_per_atom)
 if abs(out[0].data["primary_competition"] - w) > 2e-3: bail(f"{out[0].data} expected {w}")
 """, J))
seed("h03-symbol-prefix", "H03", [("jobs/core.py", 'if set(c.split("-")).issuperset(elems):', "if all(el in c for el in elems):")],
 "two target reactions handled by one task, one system containing an element whose symbol begins with that of an element only the other has (C and Ca)",
 "chemical potential distances are computed in the wrong chemical system",
 D("""
 # the symbol C occurs in the text Ca-O-Ti-W
 es = GibbsEntrySet([g("Ca", 0), g("C", 0), g("O2", 0), g("W", 0), g("Ti", 0), g("CaO", -3), g("CO2", -1.3), g("WO3", -2), g("CaWO4", -2.6), g("TiO2", -3), g("CaTiO3", -3.4)])
 A = es.get_min_entry_by_formula
 r1 = ComputedReaction.balance([A("CaTiO3"), A("WO3")], [A("CaWO4"), A("TiO2")])
 r2 = ComputedReaction.balance([A("CO2"), A("Ti")], [A("TiO2"), A("C")])
 rs = ReactionSet.from_rxns([r1, r2], entries=es)
 try:
     out = list(comp([rs], es, "TiO2", calculate_competition=False, calculate_chempot_distances=True))
 except Exception as e:
     bail(repr(e))
 from rxn_network.costs.calculators import ChempotDistanceCalculator
 for o in out:
     w = ChempotDistanceCalculator.from_entries(es.get_subset_in_chemsys(o.chemical_system.split("-"))).calculate(o)
     if abs(o.data["chempot_distance"] - w) > 2e-3: bail(f"{o} {o.data} {w}")
 """, J))
# ---- N01
N = """
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import *
"""
seed("n01-open-pairs", "N01", [("enumerators/basic.py", "limited_powerset(open_entries, len(open_entries))", "limited_powerset(open_entries, min(2, len(open_entries)))")],
 "three open phases that take part in one reaction", "reactions with three open phases are not enumerated",
 D("""
 es = GibbsEntrySet([g("Li", 0), g("O2", 0), g("C", 0), g("H2", 0), g("CO2", -1.3), g("H2O", -0.8), g("LiHCO3", -1.6)])
 want = {"H2O", "CO2", "O2"}
 a = BasicOpenEnumerator(["H2O", "CO2", "O2"], quiet=True, n=1).enumerate(es)
 f = lambda x: {c.reduced_formula for c in x}
 if not any(want <= f(r.reactants) or want <= f(r.products) for r in a): bail("no reaction with all three")
 """, N))
seed("n01-target-polymorph", "N01", [("enumerators/basic.py", "            if e not in entries_new:\n                try:", "            if not any(x.composition.reduced_formula == e.composition.reduced_formula for x in entries_new):\n                try:")],
 "a target given as an unreduced formula whose phase is only interpolated or not in the set: equal; needs stabilised entry", "none", "") if 0 else None
seed("n01-large-system", "N01", [("enumerators/basic.py", "if len(elems) >= 10 or len(elems) == 1:", "if len(elems) >= 6 or len(elems) == 1:")],
 "reactions among six or more elements", "reactions in chemical systems of six or more elements are not enumerated",
 D("""
 es = GibbsEntrySet([g(x, 0) for x in ["Li", "Na", "K", "Y", "Cl2", "O2"]] + [g("YOCl", -3), g("Li2O", -2), g("NaCl", -2.1), g("K2O", -1.5), g("LiNaKYO2Cl2", -2.2), g("LiNaYOCl", -2.2), g("KOCl", -1), g("LiNaKO", -1)])
 rs = BasicEnumerator(precursors=["LiNaKYO2Cl2"], targets=["KOCl"], quiet=True).enumerate(es)
 if not any({c.reduced_formula for c in r.reactants} == {Composition("LiNaKYO2Cl2").reduced_formula} and len(r.products) == 2 for r in rs): bail(f"{list(rs)}")
 """, N))
seed("n01-both-sides-target", "N01", [("enumerators/basic.py", "(p and targets and not targets & all_phases)", "(p and targets and not targets & p)")],
 "a target that the enumeration happens to consider on the reactant side first", "reactions towards a target are lost, depending on the order of the phases",
 D("""
 import itertools
 base = [("Li", 0), ("O2", 0), ("Mn", 0), ("Li2O", -2), ("MnO2", -1.8), ("Mn2O3", -2), ("LiMnO2", -2.2), ("Li2MnO3", -2.15), ("LiMn2O4", -2.1)]
 es = GibbsEntrySet([g(*b) for b in base])
 full = BasicEnumerator(quiet=True).enumerate(es)
 for t in ["Li2O", "MnO2", "LiMnO2", "Li2MnO3", "LiMn2O4"]:
     a = BasicEnumerator(targets=[t], quiet=True).enumerate(es)
     f = {str(r) for r in full if t in {c.reduced_formula for c in r.products}}
     if {str(r) for r in a} != f: bail(f"{t}: {len(a)} of {len(f)}")
 """, N))
# ---- N02
seed("n02-mutates-input", "N02", [("enumerators/basic.py", "        entries_new = GibbsEntrySet(\n            deepcopy(entries),\n        )", "        entries_new = entries if isinstance(entries, GibbsEntrySet) else GibbsEntrySet(deepcopy(entries))")],
 "a precursor or target which is not in the entry set", "the entry set passed in gains entries",
 D("""
 es = GibbsEntrySet([g("Li", 0), g("O2", 0), g("Mn", 0), g("Li2O", -2), g("MnO2", -1.8), g("LiMnO2", -2.2)])
 n = len(es)
 BasicEnumerator(targets=["Li2MnO3"], quiet=True).enumerate(es)
 if len(es) != n: bail(f"{n} entries became {len(es)}")
 """, N))
seed("n02-chunk-boundary", "N02", [("enumerators/basic.py", "current_chunk = [([r], filtered_entries, pd, grand_pd)]\n                    current_chunk_length = 1", "current_chunk = [([], filtered_entries, pd, grand_pd)]\n                    current_chunk_length = 0")],
 "more combinations than fit in one chunk", "one combination is lost at each boundary between chunks",
 D("""
 es = GibbsEntrySet([g("Li", 0), g("O2", 0), g("Mn", 0), g("Li2O", -2), g("MnO2", -1.8), g("LiMnO2", -2.2), g("Mn2O3", -2), g("Li2O2", -1.7), g("Fe", 0), g("FeO", -1.4), g("Fe2O3", -1.7), g("LiFeO2", -2)])
 want = {str(r) for r in BasicEnumerator(quiet=True).enumerate(es)}
 for k in list(range(1, 80)) + [100, 150, 200, 300, 400, 600, 900]:
     got = {str(r) for r in BasicEnumerator(quiet=True, chunk_size=k).enumerate(es)}
     if got != want: bail(f"chunk size {k}: {len(got)} of {len(want)}")
 """, N))
# ---- N03
seed("n03-first-phase", "N03", [("enumerators/utils.py", "product_entries = [entries.get_min_entry_by_formula(p.reduced_formula) for p in rxn.products]", "product_entries = [min(entries.get_entries_by_formula(p.reduced_formula), key=lambda e: e.energy) for p in rxn.products]")],
 "a metastable polymorph given in a larger cell than the ground state", "products of enumerated reactions are not in their ground state",
 D("""
 es = GibbsEntrySet([g("Li", 0), g("O2", 0), g("Mn", 0), g("Li2O", -2), g("MnO2", -1.8), g("LiMnO2", -2.3), g("LiMnO2", -2.1, i="big", m=4), g("Mn2O3", -1.9)])
 rs = MinimizeGibbsEnumerator(quiet=True).enumerate(es)
 for r in rs:
     for e in r.product_entries:
         if e.entry_id == "big": bail(f"{r} makes the metastable polymorph")
 """, N))
seed("n03-open-any", "N03", [("enumerators/minimize.py", "if len(elems) == 1 and elems[0] == open_elem:  # skip if reactant = open_e", "if open_elem in elems and len(elems) <= 1 + (len(r) > 1 and reactant is r[0] and len(r[1].composition.elements) == 1):")],
 "a binary compound of the open element reacting with an element", "reactions of an element with an oxide are lost in the open system, depending on the order of the two",
 D("""
 ms = ["Mn", "Fe", "Co", "Ni", "Ti", "V", "Cr", "Cu"]
 lost = []
 for m in ms:
     es = GibbsEntrySet([g("Li", 0), g("O2", 0), g(m, 0), g(m + "O", -1.9), g("Li" + m + "O2", -2.3)])
     rs = MinimizeGrandPotentialEnumerator(open_elem=Element("O"), mu=-1.0, quiet=True).enumerate(es)
     if not any({c.reduced_formula for c in r.reactants} - {"O2"} == {"Li", m + "O"} for r in rs): lost.append(m)
 if lost: bail(lost)
 """, N))
