exec(open("/verif/tools/seeds/b5.py").read().split("# ---- D01")[0])
EDB = """
import json, logging
logging.disable(logging.INFO)
from maggma.stores import MemoryStore
from monty.json import MontyEncoder
from pymatgen.core import Lattice, Structure
from pymatgen.entries.computed_entries import ComputedStructureEntry
from rxn_network.entries.utils import get_all_entries_in_chemsys, get_all_entries_in_chemsys_from_entry_db, get_entries_from_entry_db
def database(formulas):
    db = MemoryStore(key="task_id"); db.connect()
    rows = []
    for i, f in enumerate(formulas):
        c = Composition(f); els = [e for e, a in c.items() for _ in range(int(a))]
        s = Structure(Lattice.cubic(3 + len(els)), els, [[k / len(els), 0.1, 0.2] for k in range(len(els))])
        e = ComputedStructureEntry(s, -1.0 * len(els), entry_id=f"mp-{i}")
        names = sorted(x.symbol for x in c)
        rows.append(dict(task_id=f"mp-{i}", pretty_formula=c.reduced_formula, chemsys="-".join(names), elements=names, deprecated=False, entries={"GGA": json.loads(json.dumps(e.as_dict(), cls=MontyEncoder))}))
    db.update(rows)
    return db
def found(entries): return sorted(e.composition.reduced_formula for e in entries)
"""
# ---- D02
seed("d02-remainder", "D02", [("entries/utils.py", "all_chemsyses = list(divide_chunks(all_chemsyses, n))", "all_chemsyses = [all_chemsyses[i * n : (i + 1) * n] for i in range(max(1, len(all_chemsyses) // n))]")],
 "more subsystems than fit into one group, and not a multiple of the size of a group", "the entries of the last subsystems are left out",
 D("""
 got = found(get_all_entries_in_chemsys(database(["Li", "O2", "Li2O", "Fe2O3", "LiFeO2"]), "Li-Fe-O", compatible_only=False, inc_structure=None, use_premade_entries=True, n=2))
 if "LiFeO2" not in got: bail(f"only {got} found in Li-Fe-O")
 """, EDB))
seed("d02-large-any", "D02", [("entries/utils.py", """        entries = get_entries_from_entry_db(
            db,
            {"elements": {"$not": {"$elemMatch": {"$nin": elements}}}},
        )""", """        entries = get_entries_from_entry_db(
            db,
            {"elements": {"$elemMatch": {"$in": elements}}},
        )""")],
 "a chemical system of more than thirteen elements", "entries that also contain other elements are returned",
 D("""
 got = found(get_all_entries_in_chemsys_from_entry_db(database(["Li2O", "Fe2O3", "BaTiO3", "UO2", "Ti"]), "Li-Na-K-Mg-Ca-Fe-Mn-Co-Ni-C-N-O-S-F-Cl"))
 if got != ["Fe2O3", "Li2O"]: bail(f"{got} found")
 """, EDB))
seed("d02-repeated", "D02", [("entries/utils.py", "nelements = len(wild_card_els) + len(set(explicit_els))", "nelements = len(wild_card_els) + len(explicit_els)")],
 "a formula that mentions an element twice", "compounds written that way are not found",
 D("""
 got = found(get_entries_from_entry_db(database(["NH4NO3", "NH3"]), "NH4NO3"))
 if len(got) != 1: bail(f"NH4NO3 is not found: {got}")
 """, EDB))
# ---- I01
seed("i01-node-order", "I01", [("network/entry.py", "return hash((self.description, frozenset(self.entries)))", "return hash((self.description, tuple(self.entries)))")],
 "nodes of the same phases, collected in another order, whose hashes collide in the set", "equal nodes hash differently, so a node is found twice or not at all",
 D("""
 from itertools import permutations
 from rxn_network.network.entry import NetworkEntry, NetworkEntryType
 from rxn_network.entries.gibbs import GibbsComputedEntry
 es = [GibbsComputedEntry(Composition({"Li": i, "O": j}), -1.0, 10.0, 300, entry_id=f"mp-{i}{j}") for i in (1, 2, 3) for j in (1, 2, 3)]
 for a in es:
     for b in es:
         for c in es:
             if len({a, b, c}) == 3:
                 s = {NetworkEntry(list(p), NetworkEntryType.Reactants) for p in permutations([a, b, c])}
                 if len(s) > 1: bail(f"one node appears {len(s)} times in a set: {s}")
 """))
seed("i01-cost-sum", "I01", [("pathways/balanced.py", "return np.allclose(self.costs, other.costs) and", "return np.isclose(sum(self.costs), sum(other.costs)) and")],
 "two balanced pathways of the same reactions whose costs are distributed differently", "pathways with different costs are equal",
 D("""
 from rxn_network.reactions.basic import BasicReaction
 from rxn_network.pathways.balanced import BalancedPathway
 rs = [BasicReaction.from_string("2 Li + 0.5 O2 -> Li2O"), BasicReaction.from_string("Li2O + CO2 -> Li2CO3")]
 if BalancedPathway(rs, [1.0, 1.0], [0.25, 0.5]) == BalancedPathway(rs, [1.0, 1.0], [0.5, 0.25]): bail("pathways with other costs are equal")
 """))
# ---- H01
seed("h01-same-mix", "H01", [("reactions/hull.py", "        competing_rxns = self.reactions[:idx_min] + self.reactions[idx_max + 1 :]\n        competing_rxn_energies", "        competing_rxns = self.reactions[:idx_min] + self.reactions[idx_min + 1 :]\n        competing_rxn_energies")],
 "two reactions of one hull with the same mixing ratio", "a reaction with the same mixing ratio counts as competing",
 D("""
 from rxn_network.reactions.hull import InterfaceReactionHull
 from pymatgen.entries.computed_entries import ComputedEntry
 E = lambda f, e, i: ComputedEntry(Composition(f), e * Composition(f).num_atoms, entry_id=i)
 a, b = E("Y2O3", 0.0, "a"), E("Mn2O3", 0.0, "b")
 t1, t2, o = E("YMnO3", -0.5, "t1"), E("YMnO3", -0.375, "t2"), E("Y2Mn4O9", -0.125, "o")
 rs = [ComputedReaction.balance([a, b], [t]) for t in (t1, t2)] + [ComputedReaction.balance([a, b], [o])]
 h = InterfaceReactionHull(a.composition, b.composition, rs)
 for r in rs[:2]:
     c = h.get_primary_competition(r)
     if abs(c - (r.energy_per_atom - rs[2].energy_per_atom)) > 1e-6: bail(f"{r}: primary competition {c}")
 """, "from rxn_network.reactions.computed import ComputedReaction\nfrom rxn_network.core import Composition\n"))
# ---- E01
seed("e01-cache-break", "E01", [("entries/entry_set.py", "                except AttributeError:\n                    continue", "                except AttributeError:\n                    break")],
 "a derived property that was used while one before it in the alphabet was not, and then a change of the set", "outdated derived data are returned after adding or discarding an entry",
 D("""
 from rxn_network.entries.entry_set import GibbsEntrySet
 from rxn_network.entries.gibbs import GibbsComputedEntry
 G = lambda f, e, i: GibbsComputedEntry(Composition(f), e, 10.0, 300, entry_id=i)
 s = GibbsEntrySet([G("Li", 0.0, "a"), G("O2", 0.0, "b"), G("Li2O", -1.5, "c")])
 s.min_entries_by_formula
 s.add(G("Li2O", -2.0, "d"))
 e = s.get_min_entry_by_formula("Li2O")
 if e.entry_id != "d": bail(f"the most stable Li2O is {e.entry_id} after adding a more stable one")
 """))
