exec(open("/verif/tools/seeds/b4.py").read().split("# ---- N03")[0])
DB = """
import logging, warnings
logging.disable(logging.INFO); warnings.simplefilter("ignore")
from jobflow import SETTINGS, JobStore, job
from jobflow.managers.local import run_locally
from maggma.stores import MemoryStore
from rxn_network.jobs.schema import CompetitionTaskDocument
from rxn_network.utils.database import get_rxns_from_db
@job(rxns="rxns", output_schema=CompetitionTaskDocument)
def give(doc): return doc
STORE = JobStore(MemoryStore(), additional_stores={"rxns": MemoryStore()})
SETTINGS.JOB_STORE = STORE
def store(n, target, open_elem=None, mu=0.0, when=None):
    import datetime
    rs = ReactionSet.from_rxns([R(["Y2O3", "Mn2O3"], ["YMnO3"])] * n)
    run_locally(give(CompetitionTaskDocument(rxns=rs, target_formula=target, open_elem=open_elem, chempot=mu)), store=STORE, log=False)
    if when:
        doc = [d for d in STORE.docs_store.query({}) if not d["completed_at"].startswith("19")][0]
        doc["completed_at"] = "19%02d-01-01T00:00:00.000000" % when
        STORE.docs_store.update([doc], key=["uuid", "index"])
"""
# ---- D01
seed("d01-oldest", "D01", [("utils/database.py", 'sort={"completed_at": -1}', 'sort={"completed_at": 1}')],
 "two stored calculations for the same target", "the oldest stored result is returned instead of the newest",
 D("""
 STORE.connect()
 store(1, "YMnO3", when=70); store(3, "YMnO3", when=90)
 n = len(list(get_rxns_from_db("YMnO3")))
 if n != 3: bail(f"{n} reactions instead of the 3 stored last")
 """, N + YM + DB))
seed("d01-target-text", "D01", [("utils/database.py", '"output.target_formula": Composition(target).reduced_formula,', '"output.target_formula": Composition(target).formula.replace(" ", ""),')],
 "a target given by a formula that is not the reduced one in standard order", "stored results are not found for other ways of writing the target",
 D("""
 STORE.connect()
 store(2, "YMnO3")
 try: n = len(list(get_rxns_from_db("Y2Mn2O6")))
 except ValueError: bail("stored results not found")
 """, N + YM + DB))
seed("d01-chempot-ignored", "D01", [("utils/database.py", '        "output.chempot": chempot,\n    }\n', '    }\n    if open_elem is None:\n        query["output.chempot"] = chempot\n')],
 "results stored for several chemical potentials of the open element", "the result for another chemical potential is returned",
 D("""
 STORE.connect()
 store(1, "YMnO3", "O", -0.5, 70); store(3, "YMnO3", "O", -1.0, 90)
 n = len(list(get_rxns_from_db("YMnO3", "O", -0.5)))
 if n != 1: bail(f"{n} reactions, those for -1.0 eV instead of -0.5")
 """, N + YM + DB))
# ---- V01
PL = """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, pandas as pd, warnings
warnings.simplefilter("ignore")
from pymatgen.entries.computed_entries import ComputedStructureEntry
from rxn_network.pathways.plotting import PathwayPlotter
from rxn_network.reactions.plotting import filter_df_by_precursors, plot_reaction_scatter
"""
seed("v01-substring", "V01", [("reactions/plotting.py", "all(p in precursors for p in x)", "all(any(p in q for q in precursors) for p in x)")],
 "a reactant whose formula is part of the formula of an available precursor", "reactions of reactants that are not available are kept",
 D("""
 df = ReactionSet.from_rxns([R(["MnO", "O2"], ["Mn2O3"]), R(["Y2O3", "Mn2O3"], ["YMnO3"])]).to_dataframe(Softplus())
 n = len(filter_df_by_precursors(df, ["YMnO3", "MnO2"]))
 if n: bail(f"{n} reactions of YMnO3 and MnO2, which do not react")
 """, N + YM + PL))
seed("v01-many-systems", "V01", [("network/visualize.py", "lut=len(domain_unique)", "lut=min(len(domain_unique), 8)")],
 "a network with more than eight chemical systems", "different chemical systems are drawn in the same colour",
 D("""
 import rustworkx
 from rxn_network.network.entry import NetworkEntry, NetworkEntryType
 from rxn_network.network.visualize import plot_network
 gr = rustworkx.PyDiGraph()
 els = ["Li", "Na", "K", "Mg", "Ca", "Y", "Mn", "Fe", "Co", "Ni"]
 gr.add_nodes_from([NetworkEntry([g(x, -1.0)], NetworkEntryType.Reactants) for x in els])
 gr.add_edge(0, 1, 1.0)
 fig = plot_network(gr) or plt.gcf()
 cols = [c.get_facecolor() for c in fig.axes[0].collections if len(c.get_offsets()) == len(els)][0]
 n = len({tuple(round(float(v), 5) for v in c) for c in cols})
 if n != len(els): bail(f"{n} colours for {len(els)} chemical systems")
 """, N + PL))
seed("v01-smooth-width", "V01", [("pathways/plotting.py", "phase_df.apply(median_filter, axis=0, size=3)", "phase_df.apply(median_filter, axis=0, size=3, mode='constant')")],
 "smoothed phase amounts whose first or last two values are not zero", "the amounts at the first and last temperature are lost",
 D("""
 p = PathwayPlotter({"MnO": [2.0, 1.0, 0.0, 0.0], "Mn2O3": [0.0, 1.0, 3.0, 5.0]}, [300, 400, 500, 600])
 if abs(p.df["Mn2O3"].iloc[-1] - 5.0) > 1e-9: bail(f"amounts {list(p.df['Mn2O3'])}")
 """, N + PL))
# ---- C01
seed("c01-open-reference", "C01", [("reactions/open.py", "if len(comp.elements) == 1 and comp.elements[0] in self.open_elems:", "if set(comp.elements).issubset(self.open_elems):")],
 "two open elements and a phase made of them", "the compound of open elements is not given its grand potential",
 D("""
 c = {Element("O"): -1.0, Element("C"): -0.5}
 e = [g("Mn2O3", -1.9), g("MnCO3", -2.0), g("CO2", -1.3), g("O2", 0.0)]
 r = OpenComputedReaction([e[1], e[3], e[0], e[2]], [-4, -1, 2, 4], c)
 def phi(x): return x.energy - sum(x.composition[el] * mu for el, mu in c.items())
 w = sum(k * phi(x) / x.composition.get_reduced_composition_and_factor()[1] for k, x in zip([-4, -1, 2, 4], [e[1], e[3], e[0], e[2]]) if x.composition.reduced_formula != "O2")
 if abs(r.energy - (w + 0.0)) > 1e-6: bail(f"{r.energy} instead of {w}")
 """))
# ---- K01
seed("k01-attribute-first", "K01", [("costs/functions.py", """            if rxn.data and p in rxn.data:
                value = rxn.data[p]
            elif hasattr(rxn, p):
                value = getattr(rxn, p)
            else:
                raise ValueError(f"Reaction is missing parameter {p}!")
            values.append(value)

        values_arr = np.array(values)
        total""", """            if hasattr(rxn, p):
                value = getattr(rxn, p)
            elif rxn.data and p in rxn.data:
                value = rxn.data[p]
            else:
                raise ValueError(f"Reaction is missing parameter {p}!")
            values.append(value)

        values_arr = np.array(values)
        total""")],
 "data stored with a reaction under the name of one of its attributes", "stored data is not used for the cost",
 D("""
 import math
 r = ComputedReaction([g("MnO", -1.9), g("O2", 0.0), g("Mn2O3", -1.9)], [-4, -1, 2], data={"energy_per_atom": -0.25})
 c = Softplus(300).evaluate(r)
 if abs(c - math.log(1 + 273 / 300 * math.exp(-0.25))) > 1e-9: bail(f"cost {c}")
 """, N))
# ---- P01
seed("p01-last-split", "P01", [("pathways/solver.py", "                splits = np.array_split(comp_matrix, num_splits)\n", "                splits = [comp_matrix[i :: num_splits] for i in range(num_splits - 1)] or [comp_matrix]\n")],
 "combinations of four reactions in more than one chunk", "the combinations of one chunk are never tried",
 D("""
 es = [g("Li", 0), g("Na", 0), g("K", 0), g("Rb", 0), g("Cl2", 0), g("LiCl", -1.0), g("NaCl", -1.0), g("KCl", -1.0), g("RbCl", -1.0), g("LiNaCl2", -1.1), g("NaKCl2", -1.1), g("LiKCl2", -1.1), g("KRbCl2", -1.1)]
 ES = GibbsEntrySet(es); A = ES.get_min_entry_by_formula
 rx = [R([x, "Cl2"], [x + "Cl"]) for x in ("Li", "Na", "K", "Rb")] + [R([x + "Cl"], [x, "Cl2"]) for x in ("Li", "Na")] + [R(["Li", "Na", "Cl2"], ["LiNaCl2"]), R(["LiNaCl2"], ["LiCl", "NaCl"])] + [R([x, y, "Cl2"], [x + y + "Cl2"]) for x, y in (("Na", "K"), ("Li", "K"), ("K", "Rb"))] + [R([x + y + "Cl2"], [x + "Cl", y + "Cl"]) for x, y in (("Na", "K"), ("Li", "K"), ("K", "Rb"))]
 net_rxn = ComputedReaction([A(x) for x in ("Li", "Na", "K", "Rb", "Cl2", "LiCl", "NaCl", "KCl", "RbCl")], [-2, -2, -2, -2, -4, 2, 2, 2, 2])
 ps = PathwaySet.from_paths([BasicPathway(rx, [1.0] * len(rx))])
 from rxn_network.pathways.solver import PathwaySolver
 def n(chunk):
     return len(list(quiet(PathwaySolver(ps, ES, Softplus(), chunk_size=chunk).solve, net_rxn, max_num_combos=4, find_intermediate_rxns=False, filter_interdependent=False)))
 a, b = n(100000), [n(c) for c in (2, 3, 4, 5, 7)]
 if any(x != a for x in b): bail(f"{a} pathways, {b} with small chunks")
 """, N))
# ---- T02
seed("t02-element-prefix", "T02", [("thermo/utils.py", 'set(e.composition.chemical_system.split("-")).issubset(chemsys.split("-"))', 'all(el in chemsys for el in e.composition.chemical_system.split("-"))')],
 "an element whose symbol is part of the symbol of another (C and Ca, S and Sc)", "entries of a subsystem are in no diagram",
 D("""
 from rxn_network.thermo.utils import expand_pd
 es = [g("Ca", 0), g("O2", 0), g("C", 0), g("CaO", -3.0), g("CO2", -1.3)]
 pds = expand_pd(es)
 for e in es:
     if not any(set(e.composition.elements) <= set(p.elements) for p in pds.values()): bail(f"{e.composition} is in none of {list(pds)}")
 """))
