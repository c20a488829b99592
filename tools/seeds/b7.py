exec(open("/verif/tools/seeds/b5.py").read().split("# ---- D01")[0])
# ---- R01
seed("r01-target-removed", "R01", [("network/network.py", """        if target not in self.entries:
            raise ValueError("Target is not included in network!")

        if self.target:""", "        if self.target:"), ("network/network.py", """        target_entry = NetworkEntry([target], NetworkEntryType.Target)
        target_node""", """        if target not in self.entries:
            raise ValueError("Target is not included in network!")

        target_entry = NetworkEntry([target], NetworkEntryType.Target)
        target_node""")],
 "a target the network lacks, asked for after another target had been set", "the refused request removes the node of the former target, so that its pathways are no longer found",
 D("""
 from rxn_network.network.network import ReactionNetwork
 from rxn_network.network.entry import NetworkEntry, NetworkEntryType
 rn = ReactionNetwork(ReactionSet.from_rxns([R(["Y2O3", "Mn2O3"], ["YMnO3"])]))
 rn.build(); rn.set_precursors(["Y2O3", "Mn2O3"]); rn.set_target("YMnO3")
 try: rn.set_target(A("MnO")); bail("a phase that is not in the network was accepted")
 except ValueError: pass
 if rn.target.composition.reduced_formula != "YMnO3": bail(f"target is {rn.target}")
 if not any(x.description.value == NetworkEntryType.Target.value for x in rn.graph.nodes()): bail("the node of the target is gone")
 if len(rn.find_pathways(["YMnO3"], k=1)) != 1: bail("no pathway")
 """, N + YM))
seed("r01-combine-count", "R01", [("reactions/reaction_set.py", "if self.entries != rxn_set.entries:", "if len(self.entries) != len(rxn_set.entries):")],
 "two sets of reactions with equally many, but other entries", "sets of reactions over different entries are combined, and the reactions of the second become others",
 D("""
 a = ReactionSet.from_rxns([R(["Y2O3", "Mn2O3"], ["YMnO3"])])
 b = ReactionSet.from_rxns([R(["MnO", "O2"], ["Mn2O3"])])
 if len(a.entries) != len(b.entries): sys.exit(0)
 try: c = a.add_rxn_set(b)
 except ValueError: sys.exit(0)
 bail(f"combined to {[str(r) for r in c]}")
 """, N + YM))
seed("r01-ensure-loose", "R01", [("reactions/reaction_set.py", "if (idxs == rxn_idxs).all() and (coeffs == rxn_coeffs).all():", "if (idxs == rxn_idxs).all():")],
 "a reaction to be kept that involves the same phases as one of the set, in other amounts", "a reaction that is not part of the set is taken for another one instead of being refused",
 D("""
 from rxn_network.reactions.computed import ComputedReaction
 x = [A("MnO"), A("O2"), A("Mn2O3"), A("MnO2")]
 r1 = ComputedReaction(x, [-3.0, -1.0, 1.0, 1.0])
 r2 = ComputedReaction(x, [-5.0, -1.5, 2.0, 1.0])
 assert r1.balanced and r2.balanced
 rs = ReactionSet.from_rxns([r1])
 try: list(rs.filter_duplicates(ensure_rxns=[r2], parallelize=False))
 except ValueError: sys.exit(0)
 bail(f"{r2} was accepted as part of {[str(r) for r in rs]}")
 """, N + YM))
seed("r01-fractions", "R01", [("reactions/basic.py", '''        """Returns the molar mixing ratio of products in the reaction."""
        if not self.balanced:''', '''        """Returns the molar mixing ratio of products in the reaction."""
        if not self.balanced and self.lowest_num_errors != 0:''')],
 "the product fractions of a reaction that was given by coefficients which do not balance", "fractions are given for a reaction that is not balanced",
 D("""
 from rxn_network.reactions.basic import BasicReaction
 r = BasicReaction([Composition("Y2O3"), Composition("Mn2O3"), Composition("YMnO3")], [-1, -1, 3])
 if r.balanced: bail("balanced?")
 try: f = r.product_molar_fractions
 except ValueError: sys.exit(0)
 bail(f"fractions {f} of the unbalanced {r}")
 """, N + YM))
seed("r01-subset-some", "R01", [("entries/entry_set.py", "if not chem_sys.issubset(self.chemsys):", "if chem_sys.isdisjoint(self.chemsys):")],
 "a chemical system that shares some elements with the entries, and has others", "the part of the entries within an unknown chemical system is given instead of refused",
 D("""
 from rxn_network.entries.entry_set import GibbsEntrySet
 s = GibbsEntrySet([A("Y2O3"), A("O2"), A("MnO")])
 s.get_subset_in_chemsys(["Y", "O"])
 try: t = s.get_subset_in_chemsys(["Y", "O", "Pu"])
 except ValueError: sys.exit(0)
 bail(f"{len(t)} entries of a system the set does not cover")
 """, N + YM))
