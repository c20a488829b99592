exec(open("/verif/tools/seeds/b3.py").read().split("J = ")[0])
N = """
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import *
from rxn_network.costs.functions import Softplus
from rxn_network.network.network import ReactionNetwork
from rxn_network.pathways.basic import BasicPathway
from rxn_network.pathways.balanced import BalancedPathway
from rxn_network.pathways.pathway_set import PathwaySet
import io, contextlib, json
from monty.json import MontyEncoder, MontyDecoder
def rt(x): return MontyDecoder().process_decoded(json.loads(json.dumps(x.as_dict(), cls=MontyEncoder)))
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def R(a, b): return ComputedReaction.balance([A(x) for x in a], [A(x) for x in b])
"""
YM = """
ES = GibbsEntrySet([g("Y", 0), g("Mn", 0), g("O2", 0), g("Y2O3", -3.5), g("MnO", -1.9), g("Mn2O3", -1.9), g("MnO2", -1.75), g("YMnO3", -2.9), g("YMn2O5", -2.6), g("Mn3O4", -1.95)])
A = ES.get_min_entry_by_formula
"""
# ---- N03
seed("n03-open-target", "N03", [("enumerators/basic.py", "product_entries = set(rxn.product_entries) - open_entries", "product_entries = set(rxn.product_entries)")],
 "an open element, a target and a reaction that releases the open element without making the target", "reactions that do not make the target are returned",
 D("""
 rs = MinimizeGrandPotentialEnumerator(open_elem=Element("O"), mu=-2.5, targets=["YMnO3"], quiet=True).enumerate(ES)
 rs2 = BasicOpenEnumerator(open_phases=["O2"], targets=["YMnO3"], quiet=True).enumerate(ES)
 for r in list(rs) + list(rs2):
     if "YMnO3" not in {c.reduced_formula for c in r.products}: bail(r)
 """, N + YM))
seed("n03-round-mu", "N03", [("enumerators/minimize.py", "self.chempots = {self.open_elem: self.mu}", "self.chempots = {self.open_elem: round(self.mu, 2)}")],
 "a chemical potential with more than two decimals", "reactions are found and their energies given at another chemical potential",
 D("""
 mu = -0.996
 rs = MinimizeGrandPotentialEnumerator(open_elem=Element("O"), mu=mu, quiet=True).enumerate(ES)
 for r in rs:
     w = OpenComputedReaction(r.entries, r.coefficients, {Element("O"): mu}).energy_per_atom
     if abs(w - r.energy_per_atom) > 1e-5: bail(f"{r}: {r.energy_per_atom}, at {mu} {w}")
 """, N + YM))
# ---- G01
NET = """
def net(rx, pre=None):
    n = ReactionNetwork(ReactionSet.from_rxns(rx)); quiet(n.build)
    if pre: quiet(n.set_precursors, pre)
    return n
"""
seed("g01-target-polymorph", "G01", [("network/network.py", "            if target in entry.entries:\n", "            if target.composition.reduced_formula in {e.composition.reduced_formula for e in entry.entries}:\n")],
 "a network with polymorphs of the target", "the target is linked to nodes that make another polymorph",
 D("""
 p1, p2 = g("YMnO3", -2.9), g("YMnO3", -2.8, i="b")
 rx = [ComputedReaction.balance([A("Y2O3"), A("Mn2O3")], [p1]), ComputedReaction.balance([A("YMn2O5"), A("Y2O3"), A("Mn2O3")], [p2, A("O2")]), ComputedReaction.balance([A("Y2O3"), A("MnO"), A("O2")], [p2])]
 n = net(rx)
 quiet(n.set_target, p1)
 g_ = n.graph
 e = [x for x in g_.edge_list() if g_[x[1]].description.name == "Target"]
 if len(e) != 1: bail(f"{len(e)} links to the target")
 """, N + YM + NET))
seed("g01-one-edge", "G01", [("network/network.py", "        edges.append((reactant_idx, product_idx, rxn))\n", "        if not any(e[:2] == (reactant_idx, product_idx) for e in edges):\n            edges.append((reactant_idx, product_idx, rxn))\n")],
 "two reactions between the same phases in different proportions", "only one of the reactions becomes an edge",
 D("""
 a, b, c, d = A("MnO"), A("O2"), A("Mn2O3"), A("Mn3O4")
 r1 = ComputedReaction([a, b, c, d], [-5, -1, 1, 1]); r2 = ComputedReaction([a, b, c, d], [-8, -1.5, 1, 2])
 n = net([r1, r2])
 k = sum(not isinstance(e, str) for e in n.graph.edges())
 if k != 2: bail(f"{k} edges for 2 reactions")
 """, N + YM + NET)) 
seed("g01-precursor-union", "G01", [("network/network.py", "                        if precursors.issuperset(entry2.entries):\n                            continue\n", "                        if precursors & entry2.entries == entry2.entries or len(entry.entries) > 1 and not entry.entries <= entry2.entries:\n                            continue\n")],
 "a product node of which only some phases go on to react with the precursors", "links from products to the reactants they supply are missing",
 D("""
 rx = [R(["YMn2O5"], ["YMnO3", "Mn2O3", "O2"]), R(["Mn2O3", "Y2O3"], ["YMnO3"])]
 n = net(rx, ["YMn2O5", "Y2O3"])
 g_ = n.graph
 k = [e for e, w in zip(g_.edge_list(), g_.edges()) if isinstance(w, str) and w == "loopback_edge"]
 if len(k) != 1: bail(f"links {k}")
 """, N + YM + NET))
# ---- G02
seed("g02-lost-edges", "G02", [("network/network.py", "            g.add_edges_from(removed_edges)\n\n            if spur_path:\n", "            if spur_path:\n                g.add_edges_from(removed_edges)\n")],
 "more paths asked for, with a spur that leads nowhere", "later paths are missing because removed edges are not put back",
 D("""
 rx = [R(["Y2O3", "Mn2O3"], ["YMnO3"]), R(["Mn2O3"], ["MnO", "O2"]), R(["Y2O3", "MnO", "O2"], ["YMnO3"]), R(["Mn2O3"], ["Mn3O4", "O2"]), R(["Mn3O4", "Y2O3", "O2"], ["YMnO3"]), R(["MnO", "O2"], ["Mn3O4"]),
   R(["MnO", "O2"], ["MnO2"]), R(["Mn2O3", "O2"], ["MnO2"]), R(["MnO2", "Y2O3"], ["YMn2O5", "O2"]), R(["MnO2", "Y2O3"], ["YMnO3", "O2"])]
 n = net(rx, ["Y2O3", "Mn2O3", "O2"])
 def simple(g_, s, t):
     out = []
     def go(u, seen):
         if u == t: out.append(1); return
         for v in set(g_.successor_indices(u)):
             if v not in seen: go(v, seen | {v})
     go(s, {s}); return len(out)
 quiet(n.set_target, "YMnO3")
 g_ = n.graph
 i = {g_[k].description.name: k for k in g_.node_indices()}
 want = simple(g_, i["Precursors"], i["Target"])
 ps = quiet(n.find_pathways, ["YMnO3"], k=100)
 if len(ps) != want: bail(f"{len(ps)} of {want} paths")
 """, N + YM + NET))
seed("g02-stale-target", "G02", [("network/network.py", "        if target == self.target:\n            return\n", "        if self.target and target.composition.reduced_formula == self.target.composition.reduced_formula:\n            return\n")],
 "path finding to one polymorph after another of the same compound", "paths lead to the polymorph chosen before",
 D("""
 p1, p2 = g("YMnO3", -2.9), g("YMnO3", -2.8, i="b")
 rx = [ComputedReaction.balance([A("Y2O3"), A("Mn2O3")], [p1]), ComputedReaction.balance([A("Y2O3"), A("Mn3O4"), A("O2")], [p2])]
 n = net(rx, ["Y2O3", "Mn2O3", "Mn3O4", "O2"])
 a = quiet(n.find_pathways, [p1, p2], k=3)
 got = [sorted(str(e.entry_id) for e in p.reactions[-1].product_entries) for p in a]
 if got != [["YMnO3"], ["b"]]: bail(got)
 """, N + YM + NET))
# ---- G03
seed("g03-shared-indices", "G03", [("pathways/pathway_set.py", "            indices.append([rxns.index(r) for r in path.reactions])", "            indices.append(sorted(rxns.index(r) for r in path.reactions))")],
 "a pathway whose reactions are not in the order of the reaction set", "the order of the reactions of a pathway changes in a pathway set",
 D("""
 r1, r2, r3 = R(["Mn2O3"], ["MnO", "O2"]), R(["Y2O3", "MnO", "O2"], ["YMnO3"]), R(["MnO", "O2"], ["MnO2"])
 ps = PathwaySet.from_paths([BasicPathway([r1, r2, r3], [1, 2, 3]), BasicPathway([r3, r1], [3, 1]), BasicPathway([r2, r3, r1], [2, 3, 1])])
 got = [[str(r) for r in p.reactions] for p in rt(ps).paths]
 if got != [[str(r) for r in x] for x in ([r1, r2, r3], [r3, r1], [r2, r3, r1])]: bail(got)
 """, N + YM + NET))
# ---- P01
P = """
from rxn_network.pathways.solver import PathwaySolver
def solve(rx, net_rxn, es=None, **k):
    cf = Softplus()
    es = es or ES
    ps = PathwaySet.from_paths([BasicPathway([r], [cf.evaluate(r)]) for r in rx])
    s = PathwaySolver(ps, es, cf, **{q: k.pop(q) for q in list(k) if q in ("open_elem", "chempot", "chunk_size", "batch_size")})
    return quiet(s.solve, net_rxn, **{"find_intermediate_rxns": False, **k})
"""
seed("p01-small-share", "P01", [("pathways/solver.py", "        if (multiplicities < tol).any():\n", "        if (multiplicities < 1e-2 * multiplicities.max()).any():\n")],
 "a pathway in which one reaction contributes less than a hundredth of another", "such pathways are not returned",
 D("""
 c = Composition
 es = GibbsEntrySet([g("Y", 0), g("Mn", 0), g("O2", 0), g("MnO", -1.9), g("Mn2O3", -1.9), g("Y2O3", -3.5), g("Y200MnO301", -3.4)])
 B = es.get_min_entry_by_formula
 r1 = ComputedReaction.balance([B("Mn"), B("O2")], [B("MnO")])
 r2 = ComputedReaction.balance([B("Y"), B("O2")], [B("Y2O3")])
 r3 = ComputedReaction([B("Y2O3"), B("MnO"), B("Y200MnO301")], [-100, -1, 1])
 net_ = ComputedReaction([B("Y"), B("Mn"), B("O2"), B("Y200MnO301")], [-200, -1, -150.5, 1])
 r1 = ComputedReaction([B("Mn"), B("O2"), B("MnO")], [-1, -.5, 1]); r2 = ComputedReaction([B("Y"), B("O2"), B("Y2O3")], [-2, -1.5, 1])
 got = solve([r1, r2, r3], net_, es)
 if len(got) != 1: bail(f"{len(got)} pathways")
 """, N + YM + P))
seed("p01-chunk-split", "P01", [("pathways/solver.py", "            if n >= 4:\n                num_splits = len(comp_matrix) // self.chunk_size + 1\n", "            if n >= 4:\n                num_splits = len(comp_matrix) // self.chunk_size + 1\n                comp_matrix = comp_matrix[: num_splits * (len(comp_matrix) // num_splits)]\n")],
 "pathways of four reactions split over several tasks", "some combinations of four reactions are lost", "") if 0 else None
seed("p01-sort-total", "P01", [("pathways/solver.py", "key=lambda p: p.average_cost)", "key=lambda p: sum(p.costs) / len(p.costs))")],
 "pathways of several reactions in unequal amounts", "the pathways are not sorted by average cost",
 D("""
 rx = [R(["Y2O3", "Mn2O3"], ["YMnO3"]), R(["Mn2O3"], ["MnO", "O2"]), R(["Y2O3", "MnO", "O2"], ["YMnO3"]), R(["Mn2O3"], ["Mn3O4", "O2"]), R(["Y2O3", "Mn3O4", "O2"], ["YMnO3"]), R(["Mn2O3", "O2"], ["MnO2"]), R(["MnO2", "Y2O3"], ["YMnO3", "O2"]),
       R(["MnO", "O2"], ["Mn3O4"]), R(["Mn3O4", "O2"], ["MnO2"]), R(["MnO", "MnO2"], ["Mn2O3"]), R(["MnO2", "Y2O3"], ["YMn2O5", "O2"]), R(["YMn2O5", "Y2O3"], ["YMnO3", "O2"]), R(["YMn2O5"], ["YMnO3", "Mn3O4", "O2"]), R(["Mn2O3", "Y2O3"], ["YMn2O5", "Y"])]
 got = [p.average_cost for p in solve(rx, R(["Y2O3", "Mn2O3"], ["YMnO3"]), max_num_combos=3)]
 got += [0] * (len(got) < 3)
 if got != sorted(got): bail(got)
 """, N + YM + P))
# ---- P02
seed("p02-cost-normalise", "P02", [("pathways/balanced.py", "return np.dot(self.coefficients, self.costs) / sum(self.coefficients)", "return np.dot(self.coefficients, self.costs) / max(sum(self.coefficients), 1)")],
 "a pathway whose coefficients add up to less than one", "the average cost is not the weighted mean",
 D("""
 p = BalancedPathway([R(["Mn2O3"], ["MnO", "O2"]), R(["Y2O3", "MnO", "O2"], ["YMnO3"])], [0.25, 0.25], [0.3, 0.5], balanced=True)
 if abs(p.average_cost - 0.4) > 1e-9: bail(p.average_cost)
 """, N + YM))
seed("p02-catalyst", "P02", [("pathways/base.py", "        return self.all_products - self.all_reactants", "        return self.all_products - self._reactions[0].reactant_set if len(self._reactions) == 1 else self.all_products - self.all_reactants")],
 "none", "none", "") if 0 else None
seed("p02-experimental", "P02", [("pathways/basic.py", "return all(e.is_experimental for e in self.entries)", "return all(e.is_experimental for rxn in self.reactions for e in rxn.product_entries)")],
 "a pathway from a theoretical precursor to experimental products", "the pathway is reported as experimental",
 D("""
 a = g("Mn2O3", -1.9, data={"theoretical": True}); b, c = [g(f, -1, data={"theoretical": False}) for f in ("MnO", "O2")]
 p = BasicPathway([ComputedReaction.balance([a], [b, c])], [1])
 if p.is_experimental: bail("experimental")
 """, N + YM))
# ---- F01
F = """
from rxn_network.jobs.core import *
"""
seed("f01-zero-chempot", "F01", [("jobs/core.py", "        chempots = None\n        if self.open_elem:\n", "        chempots = None\n        if self.open_elem and self.chempot:\n")],
 "an open element at a chemical potential of zero", "the net reaction of the document is not an open reaction",
 D("""
 rx = [R(["Y2O3", "Mn2O3"], ["YMnO3"]), R(["Mn2O3"], ["MnO", "O2"]), R(["Y2O3", "MnO", "O2"], ["YMnO3"])]
 cf = Softplus()
 o = [OpenComputedReaction.from_computed_rxn(r, {Element("O"): 0.0}) for r in rx]
 ps = PathwaySet.from_paths([BasicPathway([r], [cf.evaluate(r)]) for r in o])
 mk = PathwaySolverMaker(precursors=["Y2O3", "Mn2O3"], targets=["YMnO3"], open_elem=Element("O"), chempot=0.0, find_intermediate_rxns=False)
 doc = quiet(PathwaySolverMaker.make.original, mk, ps, ES)
 if not isinstance(doc.net_rxn, OpenComputedReaction): bail(type(doc.net_rxn))
 """, N + YM + F))
seed("f01-unused-cost", "F01", [("jobs/core.py", "rn = ReactionNetwork(all_rxns, cost_function=self.cost_function)", "rn = ReactionNetwork(all_rxns, cost_function=self.cost_function if self.open_elem is None else type(self.cost_function)())")],
 "a network with an open element and a cost function that is not the default", "the network of the document is built with another cost function",
 D("""
 cf = Softplus(temp=1500)
 rs = ReactionSet.from_rxns([R(["Y2O3", "Mn2O3"], ["YMnO3"]), R(["Mn2O3"], ["MnO", "O2"]), R(["Y2O3", "MnO", "O2"], ["YMnO3"])])
 mk = NetworkMaker(cost_function=cf, precursors=["Y2O3", "Mn2O3"], targets=["YMnO3"], open_elem=Element("O"), chempot=-1.0)
 doc = quiet(NetworkMaker.make.original, mk, [rs])
 for p in doc.paths:
     for r, c in zip(p.reactions, p.costs):
         if abs(cf.evaluate(r) - c) > 1e-9: bail(f"{c}, expected {cf.evaluate(r)}")
 """, N + YM + F))
seed("f01-flow-formulas", "F01", [("flows/core.py", "                        set(self.get_entry_set_maker.formulas_to_include + precursor_formulas + target_formulas)", "                        set(self.get_entry_set_maker.formulas_to_include or precursor_formulas + target_formulas)")],
 "a flow whose entry stage is already asked to include formulas", "precursors and targets are not made sure to be among the entries",
 D("""
 from rxn_network.flows.core import NetworkFlowMaker
 mk = NetworkFlowMaker(get_entry_set_maker=GetEntrySetMaker(formulas_to_include=["Mn3O4"]))
 f = mk.make(["Y2O3", "Mn2O3"], ["YMnO3"])
 got = set(f.jobs[0].function.__self__.formulas_to_include)
 if got != {"Mn3O4", "Y2O3", "Mn2O3", "YMnO3"}: bail(got)
 """, N + YM + F))
# ---- U01
seed("u01-repeated-items", "U01", [("utils/funcs.py", "    args = [iter(iterable)] * n\n    return zip_longest(*args, fillvalue=fillvalue)", "    items = list(iterable)\n    return [tuple(items[i : i + n]) if i + n <= len(items) else tuple(items[i:]) + (fillvalue,) * (items.index(items[-1]) + 1 - i < n and n - len(items[i:])) for i in range(0, len(items), n)]")],
 "unclear", "unclear", "") if 0 else None
seed("u01-pairs-done", "U01", [("utils/ray.py", "        done, obj_ids = ray.wait(obj_ids)\n", "        done, obj_ids = ray.wait(obj_ids, num_returns=2 if len(obj_ids) > 256 else 1)\n")],
 "more than 256 parallel results", "every other result is skipped",
 D("""
 import ray
 from rxn_network.utils.ray import to_iterator
 for n in (1, 5, 300, 700):
     if sorted(to_iterator([ray.put(i) for i in range(n)])) != list(range(n)): bail(n)
 """))
seed("u01-empty-fill", "U01", [("utils/funcs.py", "    args = [iter(iterable)] * n\n", "    args = [filter(None.__ne__, iterable)] * n\n")],
 "a collection containing None", "items equal to None are dropped from the groups",
 D("""
 from rxn_network.utils.funcs import grouper
 got = list(grouper([1, None, 2, 3, None], 2, fillvalue="x"))
 if got != [(1, None), (2, 3), (None, "x")]: bail(got)
 """))
# ---- C02
seed("c02-open-chempots", "C02", [("reactions/open.py", "            new_entries,\n            self.coefficients,\n            chempots=self.chempots,\n            data=self.data,\n            lowest_num_errors=self.lowest_num_errors,\n        )", "            new_entries,\n            self.coefficients,\n            chempots={el: mu for el, mu in self.chempots.items() if el in self.elements},\n            data=self.data,\n            lowest_num_errors=self.lowest_num_errors,\n        )")],
 "an open reaction in which only the open phase has its element", "the reaction closes when moved to another temperature",
 D("""
 r = OpenComputedReaction.balance([A("Mn2O3")], [A("MnO"), A("O2")], {Element("O"): -1.0, Element("N"): -0.5})
 q = r.get_new_temperature(900)
 if q.chempots != r.chempots: bail(q.chempots)
 """, N + YM))
# ---- T02
seed("t02-grand-empty", "T02", [("thermo/utils.py", "lambda x: set(x.composition.elements).issubset(e.composition.elements),", "lambda x: x.composition.chemical_system in e.composition.chemical_system or set(x.composition.elements) < set(e.composition.elements),")],
 "element symbols contained in others", "phase diagrams contain entries of other chemical systems",
 D("""
 from rxn_network.thermo.utils import expand_pd
 es = GibbsEntrySet([g(x, 0) for x in ["Ca", "C", "O2", "Os", "S"]] + [g("CaO", -3), g("OsO2", -1), g("CO2", -1.3), g("CaS", -2)])
 try:
     pds = expand_pd(list(es))
 except Exception as e:
     bail(repr(e))
 for k, pd in pds.items():
     for e in pd.all_entries:
         if not {str(x) for x in e.composition.elements} <= set(k.split("-")): bail(f"{e} in {k}")
 """))
seed("t02-nested", "T02", [("thermo/utils.py", "    sorted_entries = sorted(entries, key=lambda x: len(x.composition.elements), reverse=True)\n", "    sorted_entries = sorted(entries, key=lambda x: len(x.composition.chemical_system), reverse=True)\n")],
 "a system of fewer elements with longer symbols (e.g., none)", "smaller systems are expanded although contained in larger ones", "") if 0 else None
