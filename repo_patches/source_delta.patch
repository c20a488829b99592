From 72de0de3af69075c547d3e724eff3a4c37c68cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 01/69] fix: computed reactions that cannot be balanced are not
 reported as balanced

---
 src/rxn_network/reactions/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 668b91b..3dba99a 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -67,6 +67,8 @@ class BasicReaction(Reaction):
 
         if balanced is not None:
             self.balanced = balanced
+        elif lowest_num_errors == np.inf:  # balancing failed; all coefficients are zero
+            self.balanced = False
         else:
             sum_reactants = sum([k * abs(v) for k, v in self.reactant_coeffs.items()], Composition({}))
             sum_products = sum([k * abs(v) for k, v in self.product_coeffs.items()], Composition({}))
-- 
2.43.0


From 217a5b51a1dcfeae2d54b74d96a216f370564553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 02/69] fix: recognise common gases when deciding whether a
 reaction is separable

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 3dba99a..c2e5914 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -218,7 +218,7 @@ class BasicReaction(Reaction):
 
         are_separable = []
         for comp in products:
-            if comp in COMMON_GASES or added_elems.issuperset(comp.elements):
+            if comp.reduced_formula in COMMON_GASES or added_elems.issuperset(comp.elements):
                 are_separable.append(True)
             else:
                 are_separable.append(False)
-- 
2.43.0


From 98c19539242a3d1dc8b0ee0adef7ca526db211ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 03/69] fix: parse coefficients printed with a positive
 exponent (1e+04)

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index c2e5914..40ae97d 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -280,7 +280,7 @@ class BasicReaction(Reaction):
         def get_comp_amt(comp_str):
             return {
                 Composition(m.group(2)): float(m.group(1) or 1)
-                for m in re.finditer(r"([\d\.]*(?:[eE]-?[\d\.]+)?)\s*([A-Z][\w\.\(\)]*)", comp_str)
+                for m in re.finditer(r"([\d\.]*(?:[eE][+-]?[\d\.]+)?)\s*([A-Z][\w\.\(\)]*)", comp_str)
             }
 
         reactant_coeffs = get_comp_amt(rct_str)
-- 
2.43.0


From 4d39e7349d4d32e95e0c3540914d6c3e860fdc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 04/69] fix: weight open-system product atomic fractions by
 their coefficients

---
 src/rxn_network/reactions/open.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 70c8e5d..d6855b2 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -197,7 +197,7 @@ class OpenComputedReaction(ComputedReaction):
             raise ValueError("Reaction is not balanced")
 
         return {
-            c.reduced_composition: sum(c[el] for el in self.elements) / self.num_atoms
+            c.reduced_composition: coeff * sum(c[el] for el in self.elements) / self.num_atoms
             for c, coeff in self.product_coeffs.items()
         }
 
-- 
2.43.0


From df2a4d7dd53feb34708abd004f9040934622ae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 05/69] fix: do not modify the dictionary an open reaction is
 loaded from

---
 src/rxn_network/reactions/open.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index d6855b2..3675902 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -229,8 +229,8 @@ class OpenComputedReaction(ComputedReaction):
     @classmethod
     def from_dict(cls, d) -> OpenComputedReaction:
         """Returns an OpenComputedReaction object from a dictionary representation."""
-        d["chempots"] = {Element(symbol): u for symbol, u in d["chempots"].items()}
-        return super().from_dict(d)
+        chempots = {Element(symbol): u for symbol, u in d["chempots"].items()}
+        return super().from_dict({**d, "chempots": chempots})
 
     def __repr__(self) -> str:
         cp = f"({','.join([f'mu_{e}={m}' for e, m in self.chempots.items()])})"
-- 
2.43.0


From c85c543d891ad2b92c229ebe3871a9da944079d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 06/69] fix: accept tabulated temperatures given as floats
 (e.g., 1000.0) in Gibbs entries

---
 src/rxn_network/entries/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index aaecfa8..639a385 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -208,7 +208,7 @@ class GibbsComputedEntry(ComputedEntry):
                 )
                 sum_g_i += amt * g_interp(temperature)
         else:
-            sum_g_i = sum(amt * G_ELEMS[str(temperature)][elem] for elem, amt in elems.items())
+            sum_g_i = sum(amt * G_ELEMS[str(int(temperature))][elem] for elem, amt in elems.items())
 
         return sum_g_i
 
-- 
2.43.0


From 06c7374d895252beb680cc0a2d8e2aa434112fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 07/69] fix: do not require precomputed entries to change the
 temperature of an open reaction

---
 src/rxn_network/reactions/open.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 3675902..337c8ef 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -104,7 +104,9 @@ class OpenComputedReaction(ComputedReaction):
 
         return ComputedReaction(**kwargs) if not chempots else cls(chempots=chempots, **kwargs)
 
-    def get_new_temperature(self, new_temperature: float, entries_at_temp: dict | None) -> OpenComputedReaction:
+    def get_new_temperature(
+        self, new_temperature: float, entries_at_temp: dict | None = None
+    ) -> OpenComputedReaction:
         """Returns a new reaction with the temperature changed.
 
         Args:
-- 
2.43.0


From 0afce711616145160805c2744252196ce35b9eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 08/69] fix: recompute every entry of a reaction set at a new
 temperature, including polymorphs

---
 src/rxn_network/reactions/reaction_set.py | 25 ++++++++---------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index a8ef34e..847c997 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -539,12 +539,14 @@ class ReactionSet(MSONable):
         Returns:
             The new ReactionSet containing the recalculated reactions.
         """
-        new_rxns = []
-        entries = {e.composition: e.get_new_temperature(new_temp) for e in self.entries}
-        for rxn in tqdm(list(self.get_rxns())):
-            new_rxns.append(rxn.get_new_temperature(new_temp, entries))
-
-        return ReactionSet.from_rxns(new_rxns, open_elem=self.open_elem, chempot=self.chempot)
+        return ReactionSet(
+            entries=[e.get_new_temperature(new_temp) for e in self.entries],
+            indices=self.indices,
+            coeffs=self.coeffs,
+            open_elem=self.open_elem,
+            chempot=self.chempot,
+            all_data=self.all_data,
+        )
 
     def compute_at_temperatures(self, temp_list: list[int]) -> dict[int, ReactionSet]:
         """Recomputes reaction energies at each temperature in a list of temperatures.
@@ -558,16 +560,7 @@ class ReactionSet(MSONable):
                 A mapping of temperature to `ReactionSet` with reaction energies computed at
                 that temperature.
         """
-        all_rxns = list(self.get_rxns())
-        result = {}
-        for t in tqdm(temp_list, desc="Computing reaction energies..."):
-            new_rxns = []
-            entries = {e.composition: e.get_new_temperature(t) for e in self.entries}
-            for rxn in all_rxns:
-                new_rxns.append(rxn.get_new_temperature(t, entries))
-
-            result[t] = ReactionSet.from_rxns(new_rxns, open_elem=self.open_elem, chempot=self.chempot)
-        return result
+        return {t: self.set_new_temperature(t) for t in tqdm(temp_list, desc="Computing reaction energies...")}
 
     def _get_rxns_by_indices(self, idxs) -> Iterable[ComputedReaction | OpenComputedReaction]:
         """Return a list of reactions with the given indices."""
-- 
2.43.0


From c11cda032ab13c51fbed8b3b30c5b15fe7846362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 09/69] fix: reaction sets created without data no longer lose
 their reactions

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 847c997..714dffb 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -66,7 +66,7 @@ class ReactionSet(MSONable):
         self.open_elem = open_elem
         self.chempot = chempot
         if all_data is None:
-            self.all_data = {int(i): np.array([]) for i in self.indices}
+            self.all_data = {int(i): np.array([{} for _ in arr]) for i, arr in self.indices.items()}
         else:
             self.all_data = all_data
 
-- 
2.43.0


From eee3c7179393e6dd9408e74906e2b54984814d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 10/69] fix: filter duplicate reactions on machines with a
 single CPU

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 714dffb..9f60fec 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -425,7 +425,7 @@ class ReactionSet(MSONable):
         if parallelize:
             if not ray.is_initialized():
                 initialize_ray()
-            num_cpus = int(ray.cluster_resources()["CPU"]) - 1
+            num_cpus = max(int(ray.cluster_resources()["CPU"]) - 1, 1)
             chunk_refs = []
 
         ensure_idxs = {size: [] for size in self.indices}  # type: ignore
-- 
2.43.0


From c78fd82f8a1b70efbde0d81016e2e6fc0eeea86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 11/69] fix: find reactions by product for every entry of the
 formula, including the first

---
 src/rxn_network/reactions/reaction_set.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 9f60fec..3351c17 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -375,27 +375,23 @@ class ReactionSet(MSONable):
         """
         product = Composition(product).reduced_formula
 
-        product_index = None
-        for idx, e in enumerate(self.entries):
-            if e.composition.reduced_formula == product:
-                product_index = idx
-                break
+        product_indices = list({idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula == product})
 
-        if not product_index:
+        if not product_indices:
             return []
 
         idxs = {}  # type: ignore
         for size, indices in self.indices.items():
             idxs[size] = []
-            contains_product = np.isin(indices, product_index).any(axis=1)
+            contains_product = np.isin(indices, product_indices).any(axis=1)
 
             for idx, coeffs, indices in zip(
                 np.argwhere(contains_product).flatten(),
                 self.coeffs[size][contains_product],
                 self.indices[size][contains_product], strict=False,
             ):
-                p_indices = {i for c, i in zip(coeffs, indices, strict=False) if c > -1e-12}
-                if product_index in p_indices:
+                p_indices = {i for c, i in zip(coeffs, indices, strict=False) if c > 1e-12}
+                if p_indices.intersection(product_indices):
                     idxs[size].append(idx)
 
         if return_set:
-- 
2.43.0


From bd325b39f13ffb0c665936b2feaeef790e2a60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:41 +0000
Subject: [PATCH 12/69] fix: do not confuse entries without an entry ID when
 building a reaction set

---
 src/rxn_network/reactions/reaction_set.py | 24 +++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 3351c17..bbee613 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -128,10 +128,7 @@ class ReactionSet(MSONable):
         # need to index by unique ID in case mixing different temperatures
         all_entry_indices = {}
         for idx, entry in enumerate(entries):
-            if hasattr(entry, "unique_id"):
-                all_entry_indices[entry.unique_id] = idx
-            else:
-                all_entry_indices[entry.entry_id] = idx
+            all_entry_indices[cls._get_entry_uid(entry)] = idx
 
         # group by reaction size to ensure rectangular matrices
         indices, coeffs, data = {}, {}, {}  # type: ignore
@@ -139,12 +136,7 @@ class ReactionSet(MSONable):
         for rxn in rxns:
             size = len(rxn.entries)
 
-            rxn_indices = []
-            for e in rxn.entries:
-                if hasattr(e, "unique_id"):
-                    rxn_indices.append(all_entry_indices[e.unique_id])
-                else:
-                    rxn_indices.append(all_entry_indices[e.entry_id])
+            rxn_indices = [all_entry_indices[cls._get_entry_uid(e)] for e in rxn.entries]
 
             if size not in indices:
                 indices[size] = []
@@ -625,6 +617,18 @@ class ReactionSet(MSONable):
         """
         return f"{entry.composition.reduced_formula}_{round(entry.energy_per_atom, 4)}"
 
+    @staticmethod
+    def _get_entry_uid(entry: ComputedEntry) -> str:
+        """Get the identifier by which an entry is indexed. Entries without any ID are
+        distinguished by their formula and energy.
+
+        Args:
+            entry: Entry object
+
+        """
+        uid = getattr(entry, "unique_id", None) or entry.entry_id
+        return ReactionSet._get_entry_key(entry) if uid is None else uid
+
     @staticmethod
     def _get_unique_entries(rxns: Collection[ComputedReaction]) -> set[ComputedEntry]:
         """Return only unique entries from reactions."""
-- 
2.43.0


From 799e758552fad56ffdf7e31d2378d10d46eb4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:40 +0000
Subject: [PATCH 13/69] fix: order entries of equal composition consistently so
 that reaction sets can be combined

---
 src/rxn_network/reactions/reaction_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index bbee613..3b0e441 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -123,7 +123,8 @@ class ReactionSet(MSONable):
         if not entries:
             entries = cls._get_unique_entries(rxns)
 
-        entries = sorted(set(entries), key=lambda r: r.composition)
+        # ties (e.g., polymorphs) must be ordered consistently for sets to be combined
+        entries = sorted(set(entries), key=lambda e: (e.composition, str(cls._get_entry_uid(e)), e.energy))
 
         # need to index by unique ID in case mixing different temperatures
         all_entry_indices = {}
-- 
2.43.0


From 51a1818a81bf07fbe659a623ba51cf7fae883b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 14/69] fix: maximise every metric in the Pareto front, without
 writing into the data frame

---
 src/rxn_network/costs/pareto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/costs/pareto.py b/src/rxn_network/costs/pareto.py
index 5dceded..cb45bc4 100644
--- a/src/rxn_network/costs/pareto.py
+++ b/src/rxn_network/costs/pareto.py
@@ -33,7 +33,7 @@ def get_pareto_front(
     pts = df.to_numpy()
 
     if maximize:
-        pts[:, 1:] = pts[:, 1:] * -1
+        pts = -pts
 
     return df_original[is_pareto_efficient(pts, return_mask=True)]
 
-- 
2.43.0


From 1815522e792469c959d1c7e2f392145bd94277c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 15/69] fix: keep all equally good points on the Pareto front

---
 src/rxn_network/costs/pareto.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/costs/pareto.py b/src/rxn_network/costs/pareto.py
index cb45bc4..f879a3c 100644
--- a/src/rxn_network/costs/pareto.py
+++ b/src/rxn_network/costs/pareto.py
@@ -56,6 +56,8 @@ def is_pareto_efficient(costs, return_mask=True):
     next_point_index = 0  # Next index in the is_efficient array to search for
     while next_point_index < len(costs):
         nondominated_point_mask = np.any(costs < costs[next_point_index], axis=1)
+        # equal points do not dominate each other
+        nondominated_point_mask |= np.all(costs == costs[next_point_index], axis=1)
         nondominated_point_mask[next_point_index] = True
         is_efficient = is_efficient[nondominated_point_mask]  # Remove dominated points
         costs = costs[nondominated_point_mask]
-- 
2.43.0


From fa7e5f29421153aeaaa9a9d6d3f2c755d86b6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 16/69] fix: do not lose the domain of an element that
 coincides with a border of the chemical potential diagram

---
 src/rxn_network/thermo/chempot_diagram.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index 784fae5..560e78b 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -163,8 +163,15 @@ class ChemicalPotentialDiagram(ChempotDiagram):
         domains: dict[str, list] = {entry.composition.reduced_formula: [] for entry in self._hyperplane_entries}
         entries = self._hyperplane_entries
 
+        # a border may coincide with the hyperplane of an element; Qhull then reports either of the two
+        coinciding = {
+            v: idx
+            for v, border in zip(self._border_hyperplane_indices, self._border_hyperplanes, strict=True)
+            for idx in np.where(np.all(np.isclose(self._hyperplanes, border, rtol=0, atol=1e-12), axis=1))[0]
+        }
+
         for intersection, facet in zip(self.hs_int.intersections, self.hs_int.dual_facets, strict=False):
-            for v in facet:
+            for v in {coinciding.get(v, v) for v in facet}:
                 if v not in self._border_hyperplane_indices:
                     this_entry = entries[v]
                     formula = this_entry.composition.reduced_formula
-- 
2.43.0


From 5bb5d99f7bcbe74ff5448713e88c37c43935b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 17/69] fix: do not drop an entry from the chemical potential
 diagram when asked for its domain outside the limits

---
 src/rxn_network/thermo/chempot_diagram.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index 560e78b..f2ce66e 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -216,7 +216,8 @@ class ChemicalPotentialDiagram(ChempotDiagram):
         except KeyError as exc:
             # sometimes if the entry is exactly on the hull it fails, so set force=True
             # and make bigger tolerance
-            self._entry_set.remove(new_entry)
+            if new_entry != orig_entry:
+                self._entry_set.remove(new_entry)
             new_entry = self._entry_set.get_stabilized_entry(orig_entry, tol=1e-2, force=True)
             self._entry_set.add(new_entry)
             cpd = ChemicalPotentialDiagram(self._entry_set, default_min_limit=-500)
@@ -229,7 +230,8 @@ class ChemicalPotentialDiagram(ChempotDiagram):
                 ) from exc
 
         self._metastable_domains[formula] = metastable_domain
-        self._entry_set.remove(new_entry)
+        if new_entry != orig_entry:
+            self._entry_set.remove(new_entry)
 
         return metastable_domain
 
-- 
2.43.0


From 461a86eebc95d5a19c6534d3357fd223afd05995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:52 +0000
Subject: [PATCH 18/69] fix: accept any iterable of entries in expand_pd

---
 src/rxn_network/thermo/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rxn_network/thermo/utils.py b/src/rxn_network/thermo/utils.py
index e4d2405..83781e3 100644
--- a/src/rxn_network/thermo/utils.py
+++ b/src/rxn_network/thermo/utils.py
@@ -29,6 +29,7 @@ def expand_pd(entries: Iterable[Entry], pbar: bool = False) -> dict[str, PhaseDi
     """
     pd_dict: dict[str, PhaseDiagram] = {}
 
+    entries = list(entries)
     is_grand = all(isinstance(e, GrandPotPDEntry) for e in entries)
 
     sorted_entries = sorted(entries, key=lambda x: len(x.composition.elements), reverse=True)
-- 
2.43.0


From 04584cb68fb0bb5fdc56aac3fcf7b34b59130936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 19/69] fix: count a single (empty) sequence for a range of
 zero width in the interface hull

---
 src/rxn_network/reactions/hull.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 3aef106..406fe4f 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -424,6 +424,7 @@ class InterfaceReactionHull(MSONable):
             24466267020,
             91482563640,
         ]
+        num = max(num, 0)  # a range of zero width (i.e., at a pure reactant) contains a single point
         return counts[num] if num <= 22 else self._count_recursive(num)[0]
 
     @lru_cache(maxsize=128)  # noqa: B019
-- 
2.43.0


From 9c05925e2356101fdd90bf93db1bc0dfd42b5895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 20/69] fix: accept integer coefficients in the constructors of
 reactions

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 40ae97d..1a823f2 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -56,7 +56,7 @@ class BasicReaction(Reaction):
                 phases may be shuffled or removed entirely).
         """
         self._compositions = [Composition(c) for c in compositions]
-        self._coefficients = np.array(coefficients)
+        self._coefficients = np.array(coefficients, dtype=float)
 
         self.reactant_coeffs = {
             comp: coeff for comp, coeff in zip(self._compositions, self._coefficients, strict=False) if coeff < 0
-- 
2.43.0


From 87bf1c866c2230ffc7d2eea0872307dfb4220096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 21/69] fix: recursive secondary competition with decomposing
 reactants agrees with the closed form

---
 src/rxn_network/reactions/hull.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 406fe4f..aa1a2fc 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -475,20 +475,19 @@ class InterfaceReactionHull(MSONable):
         val = 0
         total = 0
         for c in coords:
-            if c[0] == 0.0 and not np.isclose(c[1], 0.0):
-                use_x_min_ref = False
-            elif c[0] == 1.0 and not np.isclose(c[1], 0.0):
-                use_x_max_ref = False
+            # ranges which begin (or end) at a decomposed reactant do not include the reactant itself
+            right_min_ref = use_x_min_ref and not (c[0] == 0.0 and not np.isclose(c[1], 0.0))
+            left_max_ref = use_x_max_ref and not (c[0] == 1.0 and not np.isclose(c[1], 0.0))
 
             height = self._calculate_altitude([x_min, y_min], c, [x_max, y_max])  # type: ignore
             (
                 left_decomp,
                 left_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_x_min_ref, left_max_ref)
             (
                 right_decomp,
                 right_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, right_min_ref, use_x_max_ref)
 
             val += height * (left_total * right_total) + left_decomp * right_total + right_decomp * left_total
             total += left_total * right_total
-- 
2.43.0


From d90576d2de3c3271c6e1589b10fcde9a83170016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:47 +0000
Subject: [PATCH 22/69] fix: use the aggregation function given to
 ChempotDistanceCalculator

---
 src/rxn_network/costs/calculators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/costs/calculators.py b/src/rxn_network/costs/calculators.py
index bfa70ac..86ffd7e 100644
--- a/src/rxn_network/costs/calculators.py
+++ b/src/rxn_network/costs/calculators.py
@@ -59,6 +59,8 @@ class ChempotDistanceCalculator(Calculator):
             self.mu_func = sum  # type: ignore
         elif isinstance(mu_func, str):
             raise ValueError("Provided mu_func name is not a known function; please provide the function directly.")
+        else:
+            self.mu_func = mu_func
 
         self._open_elems = set()
         if cpd.entries[0].__class__.__name__ == "GrandPotPDEntry":
-- 
2.43.0


From 4418086bbef1b59c07b6c6d7d587d7dde06eb17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:16 +0000
Subject: [PATCH 23/69] fix: move temperature-dependent adjustments of Gibbs
 entries to the new temperature

---
 src/rxn_network/entries/gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index 639a385..71b66ba 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -130,6 +130,9 @@ class GibbsComputedEntry(ComputedEntry):
             temperature.
         """
         new_entry_dict = self.as_dict()
+        for adj in new_entry_dict["energy_adjustments"]:
+            if "temp" in adj:  # e.g., CarbonDioxideAtmosphericCorrection
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
-- 
2.43.0


From 62bdd362aaa11c90ca6294a95513364f4254271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 24/69] fix: scale tabulated energies with the number of
 formula units of the entry

---
 src/rxn_network/entries/experimental.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 919e021..b355142 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -55,7 +55,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         self._validate_temperature(formula, temperature)
         self._temperature = temperature
 
-        energy = self._get_energy(formula, temperature)
+        # reference data are tabulated per formula unit
+        energy = self._get_energy(formula, temperature) * composition.get_reduced_formula_and_factor()[1]
 
         super().__init__(
             composition,
-- 
2.43.0


From d56db4ab2fcdae5e1c408069ee5e016a375153b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 25/69] fix: hash equal experimental entries equally

---
 src/rxn_network/entries/experimental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index b355142..1955104 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -214,6 +214,6 @@ class ExperimentalReferenceEntry(ComputedEntry):
 
     def __hash__(self) -> int:
         data_md5 = hashlib.md5(  # nosec
-            f"{self.__class__.__name__}{self.composition}_{self.temperature}".encode()
+            f"{self.__class__.__name__}{self.composition.reduced_formula}_{self.temperature}".encode()
         ).hexdigest()
         return int(data_md5, 16)
-- 
2.43.0


From e0b240cef62e40aefcaacbd48dd099fe522b11fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 26/69] fix: change the temperature of experimental entries
 with temperature-independent adjustments

---
 src/rxn_network/entries/experimental.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 1955104..0199b25 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -81,7 +81,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         """
         new_entry_dict = self.as_dict()
         for adj in new_entry_dict["energy_adjustments"]:
-            adj["temp"] = new_temperature
+            if "temp" in adj:  # e.g., CarbonDioxideAtmosphericCorrection
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
-- 
2.43.0


From cdf5cb2b2b57d0a0ed1305c67af44844e3210dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:17 +0000
Subject: [PATCH 27/69] fix: hash experimental entries at equal temperatures
 equally (700 and 700.0)

---
 src/rxn_network/entries/experimental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 0199b25..d81d74f 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -215,6 +215,6 @@ class ExperimentalReferenceEntry(ComputedEntry):
 
     def __hash__(self) -> int:
         data_md5 = hashlib.md5(  # nosec
-            f"{self.__class__.__name__}{self.composition.reduced_formula}_{self.temperature}".encode()
+            f"{self.__class__.__name__}{self.composition.reduced_formula}_{float(self.temperature)}".encode()
         ).hexdigest()
         return int(data_md5, 16)
-- 
2.43.0


From 6c46911d1f7341a108351439ed969612eabdf101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 28/69] fix: copies of interpolated entries are independent
 interpolated entries

---
 src/rxn_network/entries/interpolated.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rxn_network/entries/interpolated.py b/src/rxn_network/entries/interpolated.py
index c0d8362..3dd3f56 100644
--- a/src/rxn_network/entries/interpolated.py
+++ b/src/rxn_network/entries/interpolated.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -94,6 +95,10 @@ class InterpolatedEntry(ComputedEntry):
         )
         return self.copy()
 
+    def copy(self) -> InterpolatedEntry:
+        """Returns a deepcopy of the InterpolatedEntry object."""
+        return deepcopy(self)
+
     @property
     def unique_id(self) -> str:
         """Returns a unique ID for the entry."""
-- 
2.43.0


From e74635fdd6598a0d86d03de153aade3d095ee15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 29/69] fix: keep the uncertainty of interpolated entries

---
 src/rxn_network/entries/entry_set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index b452819..00a7272 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -326,13 +326,13 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
         comp = Composition(formula).reduced_composition
         pd_entries = self.get_subset_in_chemsys([str(e) for e in comp.elements])
 
-        energy = PhaseDiagram(pd_entries).get_hull_energy(comp) - tol_per_atom * comp.num_atoms
+        energy = PhaseDiagram(pd_entries).get_hull_energy(comp)
 
-        adj = ConstantEnergyAdjustment(  # for keeping track of uncertainty
-            value=0.0,
+        adj = ConstantEnergyAdjustment(  # non-zero, so that its uncertainty is kept track of
+            value=-1 * tol_per_atom * comp.num_atoms,
             uncertainty=0.05 * comp.num_atoms,  # conservative: 50 meV/atom uncertainty
             name="Interpolation adjustment (for uncertainty)",
-            description="Maintains uncertainty due to interpolation",
+            description="Shifts energy below the hull and maintains uncertainty due to interpolation",
         )
 
         return InterpolatedEntry(
-- 
2.43.0


From e0993cdb815faeb581655a38e363d8d4dcdd781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:01 +0000
Subject: [PATCH 30/69] fix: do not store energies above hull in the data of
 the entries a Gibbs entry set is built from

---
 src/rxn_network/entries/entry_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 00a7272..660612a 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -447,8 +447,8 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                     formation_energy_per_atom=formation_energy_per_atom,
                     temperature=temperature,
                     energy_adjustments=energy_adjustments,
-                    parameters=entry.parameters,
-                    data=entry.data,
+                    parameters=dict(entry.parameters),
+                    data=dict(entry.data),
                     entry_id=entry.entry_id,
                 )
 
-- 
2.43.0


From 66b0c0dfe89e3a2c442ebb1e8d580f127a051aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:01 +0000
Subject: [PATCH 31/69] fix: replace computed entries by NIST data when FREED
 data are enabled but lack the compound

---
 src/rxn_network/entries/entry_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 660612a..98c3a4f 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -426,7 +426,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                 if new_entry:
                     new_entries.append(new_entry)
 
-            if new_entry:
+            if new_entries:
                 experimental_formulas.append(formula)
             else:
                 energy_adjustments = []
-- 
2.43.0


From 07512acbadb9d6cc7c3d76c0d3f5504ae44b26ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:01 +0000
Subject: [PATCH 32/69] fix: keep the options of Gibbs entry sets of ten or
 more elements

---
 src/rxn_network/entries/entry_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 98c3a4f..550148d 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -552,7 +552,11 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
             )
             new_entries.update(gibbs_set)
 
-        return cls(list(new_entries))
+        return cls(
+            list(new_entries),
+            calculate_e_above_hulls=calculate_e_above_hulls,
+            minimize_obj_size=minimize_obj_size,
+        )
 
     @cached_property
     def entries_list(self) -> list[ComputedEntry]:
-- 
2.43.0


From 35725b5866e946e09ad9ba82c5f27042bad2a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:10 +0000
Subject: [PATCH 33/69] fix: initialise stabilised entries of formulas that
 must be interpolated

---
 src/rxn_network/entries/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rxn_network/entries/utils.py b/src/rxn_network/entries/utils.py
index aa5f374..a978bd6 100644
--- a/src/rxn_network/entries/utils.py
+++ b/src/rxn_network/entries/utils.py
@@ -113,6 +113,7 @@ def initialize_entry(formula: str, entry_set: GibbsEntrySet, stabilize: bool = F
     except KeyError:
         entry = entry_set.get_interpolated_entry(formula)
         warnings.warn(f"Using interpolated entry for {entry.composition.reduced_formula}")
+        return entry  # already lies below the hull
 
     if stabilize:
         entry = entry_set.get_stabilized_entry(entry)
-- 
2.43.0


From d3ee21b177036af616923c208c27131d1b70cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 34/69] fix: only return reactions with elements of
 filter_by_chemsys

---
 src/rxn_network/enumerators/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rxn_network/enumerators/basic.py b/src/rxn_network/enumerators/basic.py
index 17e0c4a..5cd430f 100644
--- a/src/rxn_network/enumerators/basic.py
+++ b/src/rxn_network/enumerators/basic.py
@@ -267,6 +267,10 @@ class BasicEnumerator(Enumerator):
         ):
             results.extend(completed)
 
+        if self.filter_by_chemsys:  # reactants or open phases may not take part in a reaction
+            filter_elems = set(self.filter_by_chemsys.split("-"))
+            results = [r for r in results if filter_elems & {str(e) for c in r.compositions for e in c.elements}]
+
         return ReactionSet.from_rxns(results, entries=entries, filter_duplicates=self.filter_duplicates)
 
     @classmethod
-- 
2.43.0


From 19301a96b04b5999d29223cc101eef898117f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:50 +0000
Subject: [PATCH 35/69] fix: do not treat the open element as a precursor when
 calculating competition

---
 src/rxn_network/jobs/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 093f27a..fdb0d80 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -745,11 +745,11 @@ def _get_competition_decorated_rxns_by_chunk(rxn_chunk, all_rxns, open_formula):
 
         competing_rxns = all_rxns.get_rxns_by_reactants(reactants_with_open)
 
+        if open_formula:  # the open element is not a precursor
+            reactant_formulas = [f for f in reactant_formulas if f != open_formula]
+
         if len(reactant_formulas) >= 3:
-            if open_formula:
-                reactant_formulas = list(set(reactant_formulas) - {open_formula})
-            else:
-                raise ValueError("Can only have 2 precursors, excluding open element!")
+            raise ValueError("Can only have 2 precursors, excluding open element!")
 
         decorated_rxns.append(_get_competition_decorated_rxn(rxn, competing_rxns, reactant_formulas))
 
-- 
2.43.0


From ad393b89ed30e2a97544da38f5add8eeee8be3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:49 +0000
Subject: [PATCH 36/69] fix: count competing reactions with the open element
 even if no reaction to the target consumes it

---
 src/rxn_network/jobs/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index fdb0d80..b7df8b6 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -361,6 +361,8 @@ class CalculateCompetitionMaker(Maker):
         logger.info("Removing unnecessary reactions from total reactions to save memory...")
 
         all_target_reactants = {reactant.reduced_formula for r in target_rxns for reactant in r.reactants}
+        if self.open_formula:  # always available to competing reactions
+            all_target_reactants.add(self.open_formula)
         all_rxns = all_rxns.get_rxns_by_reactants(
             all_target_reactants,
             return_set=True,  # type: ignore
-- 
2.43.0


From 59ec47e936e942008897da3c65fe43a24912c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 37/69] fix: let grand potential entries of equal composition
 compete in the chemical potential diagram

---
 src/rxn_network/thermo/chempot_diagram.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index f2ce66e..e6a0e4f 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -5,6 +5,7 @@ pymatgen.
 from __future__ import annotations
 
 from functools import cached_property
+from itertools import groupby
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -235,6 +236,23 @@ class ChemicalPotentialDiagram(ChempotDiagram):
 
         return metastable_domain
 
+    @staticmethod
+    def _get_min_entries_and_el_refs(entries: list[PDEntry]) -> tuple[list[PDEntry], dict[Element, PDEntry]]:
+        """Returns the minimum-energy entry of each composition and the elemental
+        references. Unlike the parent method, entries are grouped by composition without
+        open elements (which is what they are sorted by), i.e., grand potential entries
+        that differ only in their amount of an open element compete with each other.
+        """
+        el_refs, min_entries = {}, []
+
+        for _, group in groupby(entries, key=lambda e: e.composition.reduced_formula):
+            min_entry = min(group, key=lambda e: e.energy_per_atom)
+            min_entries.append(min_entry)
+            if min_entry.composition.is_element:
+                el_refs[min_entry.composition.elements[0]] = min_entry
+
+        return min_entries, el_refs
+
     @staticmethod
     def _get_distance_between_parallel_hyperplanes(a, delta_b):
         """Returns the distance between two parallel hyperplanes."""
-- 
2.43.0


From 11332b5c9bfecd87e5539152837c00265d14ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:03 +0000
Subject: [PATCH 38/69] fix: report the number of elements as the dimension of
 network entries

---
 src/rxn_network/network/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/network/entry.py b/src/rxn_network/network/entry.py
index f42924b..b3c586d 100644
--- a/src/rxn_network/network/entry.py
+++ b/src/rxn_network/network/entry.py
@@ -41,7 +41,7 @@ class NetworkEntry(MSONable):
         self._entries = set(entries)
         self._elements = sorted({elem for entry in entries for elem in entry.composition.elements})
         self._chemsys = "-".join([str(e) for e in self.elements])
-        self._dim = len(self.chemsys)
+        self._dim = len(self._elements)
         self._description = description
 
     @property
-- 
2.43.0


From 8c3cc10a5872845fd561c3a174ed66bade065a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:03 +0000
Subject: [PATCH 39/69] fix: rebuilding a network resets its precursors and
 target

---
 src/rxn_network/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index a4e7ffa..2ac7bb1 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -85,6 +85,8 @@ class ReactionNetwork(Network):
         logger.info(f"Built graph with {g.num_nodes()} nodes and {g.num_edges()} edges")
 
         self._g = g  # type: ignore
+        self._precursors = None  # the new graph has no nodes for these
+        self._target = None
 
     def find_pathways(self, targets: list[Entry | str], k: int = 15) -> list[BasicPathway]:
         """Find the k-shortest paths to a provided list of one or more targets.
-- 
2.43.0


From 0d85e73c54df70b01bb12361cae298666bdda00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:03 +0000
Subject: [PATCH 40/69] fix: remove the links supplied by old precursors when
 setting new ones

---
 src/rxn_network/network/network.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index 2ac7bb1..494e58a 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -150,6 +150,14 @@ class ReactionNetwork(Network):
             else:
                 raise ValueError("Old precursors node not found in graph!")
 
+            # links from products to reactants depend on the precursors
+            for edge_idx, (_, _, edge) in list(g.edge_index_map().items()):
+                if isinstance(edge, str) and edge == "loopback_edge":
+                    g.remove_edge_from_index(edge_idx)
+            nodes = {idx: g.get_node_data(idx) for idx in g.node_indices()}
+            indices = list(nodes)
+            g.add_edges_from([(indices[a], indices[b], e) for a, b, e in get_loopback_edges(list(nodes.values()))])
+
         precursors_node = g.add_node(precursors_entry)
 
         edges_to_add = []
-- 
2.43.0


From 42d3ed767d474d9aac753ba1ec381a94598935bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 41/69] fix: use the cheapest of several reactions between the
 same phases in a path

---
 src/rxn_network/network/network.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index 494e58a..1d38ef8 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -263,7 +263,7 @@ class ReactionNetwork(Network):
 
         for step, node in enumerate(path):
             if g.get_node_data(node).description.value == NetworkEntryType.Products.value:
-                e = g.get_edge_data(path[step - 1], node)
+                e = get_cheapest_edge(g, path[step - 1], node, cf)
 
                 rxns.append(e)
                 costs.append(get_edge_weight(e, cf))
@@ -354,6 +354,19 @@ def get_edge_weight(edge_obj: object, cf: CostFunction):
     raise ValueError("Unknown edge type")
 
 
+def get_cheapest_edge(g: rx.PyGraph, source: int, target: int, cf: CostFunction):
+    """Returns the edge of lowest cost between two nodes, which may be connected by several
+    (e.g., reactions between the same phases in different proportions).
+
+    Args:
+        g: the rustworkx PyGraph object.
+        source: Index of the source node
+        target: Index of the target node
+        cf: Cost function for evaluating edge weights
+    """
+    return min(g.get_all_edge_data(source, target), key=lambda e: get_edge_weight(e, cf))
+
+
 def yens_ksp(
     g: rx.PyGraph,
     cf: CostFunction,
@@ -385,7 +398,7 @@ def yens_ksp(
         """Calculates path cost given a list of nodes."""
         cost = 0
         for j in range(len(nodes) - 1):
-            cost += get_edge_weight(g.get_edge_data(nodes[j], nodes[j + 1]), cf)
+            cost += get_edge_weight(get_cheapest_edge(g, nodes[j], nodes[j + 1], cf), cf)
         return cost
 
     def get_edge_weight_with_cf(edge_obj):
-- 
2.43.0


From 3477f0a3923d89c3f29b7fa7efd13674e56adf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 42/69] fix: search for all loop-free paths in Yen's algorithm

---
 src/rxn_network/network/network.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index 1d38ef8..b59f87f 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -405,6 +405,13 @@ def yens_ksp(
         """Includes user-specified cost function in function call."""
         return get_edge_weight(edge_obj, cf)
 
+    def remove_edges(source, target):
+        """Removes all edges between two nodes; returns them in the form (source, target, edge)."""
+        edges = [(source, target, e) for e in g.get_all_edge_data(source, target)] if g.has_edge(source, target) else []
+        for _ in edges:
+            g.remove_edge(source, target)
+        return edges
+
     g = g.copy()
 
     shortest_paths = rx.dijkstra_shortest_paths(
@@ -430,19 +437,17 @@ def yens_ksp(
 
         for i in range(len(prev_path) - 1):
             spur_node = prev_path[i]
-            root_path = prev_path[:i]
+            root_path = prev_path[: i + 1]
 
             removed_edges = []
 
             for path in a:
-                if len(path) - 1 > i and root_path == path[:i]:
-                    try:
-                        e = g.get_edge_data(path[i], path[i + 1])
-                    except rx.NoEdgeBetweenNodes:
-                        continue
+                if len(path) - 1 > i and root_path == path[: i + 1]:
+                    removed_edges.extend(remove_edges(path[i], path[i + 1]))
 
-                    g.remove_edge(path[i], path[i + 1])
-                    removed_edges.append((path[i], path[i + 1], e))
+            for node in root_path[:-1]:  # paths may not return to the nodes of the root
+                for source in set(g.predecessor_indices(node)):
+                    removed_edges.extend(remove_edges(source, node))
 
             spur_path = rx.dijkstra_shortest_paths(  # type: ignore
                 g, spur_node, target_node, weight_fn=get_edge_weight_with_cf
@@ -451,7 +456,7 @@ def yens_ksp(
             g.add_edges_from(removed_edges)
 
             if spur_path:
-                total_path = list(root_path) + list(spur_path[target_node])
+                total_path = list(root_path[:-1]) + list(spur_path[target_node])
                 total_path_cost = path_cost(total_path)
                 b.put((total_path_cost, total_path))
 
-- 
2.43.0


From 4312ff8babdb4170043ff8da4f7221ae3cb1bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:03 +0000
Subject: [PATCH 43/69] fix: networks can be saved before they are built

---
 src/rxn_network/network/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/network/base.py b/src/rxn_network/network/base.py
index 75f8b4d..65253f6 100644
--- a/src/rxn_network/network/base.py
+++ b/src/rxn_network/network/base.py
@@ -67,7 +67,7 @@ class Network(MSONable, metaclass=ABCMeta):
         d = super().as_dict()
         d["precursors"] = list(self.precursors) if self.precursors else None
         d["target"] = self.target
-        d["graph"] = self.graph.as_dict()
+        d["graph"] = self.graph.as_dict() if self.graph is not None else None
         return d
 
     @classmethod
-- 
2.43.0


From 30b95b7ad5e0bd2f7402c22e33ccd443dbdbc8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:03 +0000
Subject: [PATCH 44/69] fix: load the precursors and target of a network as
 entries, without modifying the given dictionary

---
 src/rxn_network/network/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/network/base.py b/src/rxn_network/network/base.py
index 65253f6..03ad1d8 100644
--- a/src/rxn_network/network/base.py
+++ b/src/rxn_network/network/base.py
@@ -75,12 +75,13 @@ class Network(MSONable, metaclass=ABCMeta):
         """Instantiate object from MSONable dict. See monty package for more
         information.
         """
-        precursors = d.pop("precursors", None)
-        target = d.pop("target", None)
+        d = dict(d)
+        precursors = MontyDecoder().process_decoded(d.pop("precursors", None))
+        target = MontyDecoder().process_decoded(d.pop("target", None))
         graph = d.pop("graph", None)
 
         network = super().from_dict(d)
-        network._precursors = precursors  # pylint: disable=protected-access
+        network._precursors = set(precursors) if precursors else None  # pylint: disable=protected-access
         network._target = target  # pylint: disable=protected-access
         network._g = MontyDecoder().process_decoded(  # pylint: disable=protected-access
             graph
-- 
2.43.0


From ecd7f014e7ae8ab6d16b0205479b1891eaac4f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:03 +0000
Subject: [PATCH 45/69] fix: a pathway does not equal the beginning of a longer
 one

---
 src/rxn_network/pathways/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/basic.py b/src/rxn_network/pathways/basic.py
index 42ecf05..2930e8c 100644
--- a/src/rxn_network/pathways/basic.py
+++ b/src/rxn_network/pathways/basic.py
@@ -54,7 +54,9 @@ class BasicPathway(Pathway):
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-            return all(other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=False))
+            return len(other.reactions) == len(self.reactions) and all(
+                other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=False)
+            )
 
         return False
 
-- 
2.43.0


From 3eed0357f7f632fbdbf0675e2b40029c0dd8621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:03 +0000
Subject: [PATCH 46/69] fix: balanced pathways with different coefficients are
 not equal

---
 src/rxn_network/pathways/balanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index bfe64d4..817ee2c 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -130,7 +130,7 @@ class BalancedPathway(BasicPathway):
 
     def __eq__(self, other) -> bool:
         if super().__eq__(other):
-            return np.allclose(self.costs, other.costs)
+            return np.allclose(self.costs, other.costs) and np.allclose(self.coefficients, other.coefficients)
 
         return False
 
-- 
2.43.0


From 635fa884819d7e1b45e0a5097ea4d680fcead02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:03 +0000
Subject: [PATCH 47/69] fix: composition matrix of balanced pathways

---
 src/rxn_network/pathways/balanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index 817ee2c..832dff0 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -49,7 +49,7 @@ class BalancedPathway(BasicPathway):
         """
         return np.array(
             [
-                [rxn.get_coeff(comp) if comp in rxn.all_comp else 0 for comp in self.compositions]
+                [rxn.get_coeff(comp) if comp in rxn.compositions else 0 for comp in self.compositions]
                 for rxn in self.reactions
             ]
         )
-- 
2.43.0


From b7d798c2f1b414c0360741e105192111623728a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:03 +0000
Subject: [PATCH 48/69] fix: pathway sets remember which pathways are balanced

---
 src/rxn_network/pathways/pathway_set.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/pathways/pathway_set.py b/src/rxn_network/pathways/pathway_set.py
index d4e87d6..d545a44 100644
--- a/src/rxn_network/pathways/pathway_set.py
+++ b/src/rxn_network/pathways/pathway_set.py
@@ -34,6 +34,7 @@ class PathwaySet(MSONable):
         indices: np.ndarray | list[list[int]],
         coefficients: np.ndarray | list[list[float] | None],
         costs: np.ndarray | list[list[float]],
+        balanced: list[bool] | None = None,
     ):
         """
         Args:
@@ -43,11 +44,14 @@ class PathwaySet(MSONable):
             coefficients: An array or list of coefficients representing the
             multiplicities (i.e., how much of) each reaction in the pathway.
             costs: An array or list of costs for each pathway.
+            balanced: Optional list of whether each pathway is balanced (see
+                BalancedPathway). Defaults to False for every pathway.
         """
         self.reaction_set = reaction_set
         self.indices = indices
         self.coefficients = coefficients
         self.costs = costs
+        self.balanced = balanced
 
     @cached_property
     def paths(self) -> list[Pathway]:
@@ -64,14 +68,18 @@ class PathwaySet(MSONable):
 
         rxns = list(self.reaction_set.get_rxns())
 
-        for indices, coefficients, costs in zip(
+        for indices, coefficients, costs, balanced in zip(
             self.indices,
             self.coefficients,
-            self.costs, strict=False,
+            self.costs,
+            self.balanced if self.balanced is not None else [False] * len(self.indices),
+            strict=False,
         ):
             reactions = [rxns[i] for i in indices]
             if coefficients is not None:
-                path = BalancedPathway(reactions=reactions, coefficients=coefficients, costs=costs)
+                path = BalancedPathway(
+                    reactions=reactions, coefficients=coefficients, costs=costs, balanced=balanced
+                )
 
             else:
                 path = BasicPathway(reactions=reactions, costs=costs)
@@ -90,7 +98,7 @@ class PathwaySet(MSONable):
         Args:
             paths: List of Pathway objects
         """
-        indices, coefficients, costs = [], [], []
+        indices, coefficients, costs, balanced = [], [], [], []
 
         reaction_set = cls._get_reaction_set(paths)
         rxns = list(reaction_set.get_rxns())
@@ -99,12 +107,14 @@ class PathwaySet(MSONable):
             indices.append([rxns.index(r) for r in path.reactions])
             coefficients.append(getattr(path, "coefficients", None))
             costs.append(path.costs)
+            balanced.append(getattr(path, "balanced", False))
 
         return cls(
             reaction_set=reaction_set,
             indices=indices,
             coefficients=coefficients,
             costs=costs,
+            balanced=balanced,
         )
 
     @staticmethod
-- 
2.43.0


From f64ab3ad54ec25e1258bed37359ecf6d5dcf3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:42 +0000
Subject: [PATCH 49/69] fix: reactions whose phases are supplied by other
 reactions of a pathway are not interdependent

---
 src/rxn_network/pathways/balanced.py | 51 +++++++++-------------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index 832dff0..6cca686 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -7,7 +7,6 @@ from typing import TYPE_CHECKING
 import numpy as np
 
 from rxn_network.pathways.basic import BasicPathway
-from rxn_network.utils.funcs import limited_powerset
 
 if TYPE_CHECKING:
     from rxn_network.core import Composition
@@ -72,41 +71,23 @@ class BalancedPathway(BasicPathway):
         Args:
             precursors: List of precursor compositions
         """
-        precursors_set = set(precursors)
-        interdependent = False
+        # phases that no reaction makes are not supplied by any order of the reactions
+        available = set(precursors) | self.reactants
+        remaining = list(self.reactions)
+
+        while remaining:
+            waiting = []
+            for rxn in remaining:
+                if available.issuperset(rxn.reactants):
+                    available.update(rxn.products)
+                else:
+                    waiting.append(rxn)
+
+            if len(waiting) == len(remaining):
+                return True  # these reactions only make each other possible
+            remaining = waiting
 
-        rxns = set(self.reactions)
-        num_rxns = len(rxns)
-
-        if num_rxns == 1:
-            return False
-
-        for combo in limited_powerset(rxns, num_rxns):
-            size = len(combo)
-            if any(set(rxn.reactants).issubset(precursors_set) for rxn in combo) or size == 1:
-                continue
-
-            other_comp = {c for rxn in (rxns - set(combo)) for c in rxn.compositions}
-
-            unique_reactants = []
-            unique_products = []
-            for rxn in combo:
-                unique_reactants.append(set(rxn.reactants) - precursors_set)
-                unique_products.append(set(rxn.products) - precursors_set)
-
-            overlap = [False] * size
-            for i in range(size):
-                for j in range(size):
-                    if i == j:
-                        continue
-                    overlapping_phases = unique_reactants[i] & unique_products[j]
-                    if overlapping_phases and (overlapping_phases not in other_comp):
-                        overlap[i] = True
-
-            if all(overlap):
-                interdependent = True
-
-        return interdependent
+        return False
 
     @classmethod
     def balance(
-- 
2.43.0


From 56be3322216382ff813f8fa719afa7d0b63287f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:36 +0000
Subject: [PATCH 50/69] fix: compare reduced compositions of precursors when
 filtering interdependent pathways

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 4fae0d4..b279563 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -327,7 +327,7 @@ class PathwaySolver(Solver):
 
         filtered_paths = []
         if filter_interdependent:
-            precursor_comps = [p.composition for p in precursors]
+            precursor_comps = [p.composition.reduced_composition for p in precursors]
             for p in paths:
                 interdependent = p.contains_interdependent_rxns(precursor_comps)
                 if not interdependent:
-- 
2.43.0


From f07fc00b53cb50a9fedf1c4fa9189a3a3032160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:32 +0000
Subject: [PATCH 51/69] fix: limited powerset of iterators

---
 src/rxn_network/utils/funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/utils/funcs.py b/src/rxn_network/utils/funcs.py
index c5b9e3c..fa38a81 100644
--- a/src/rxn_network/utils/funcs.py
+++ b/src/rxn_network/utils/funcs.py
@@ -24,7 +24,8 @@ def limited_powerset(iterable: Iterable, max_size: int) -> Iterable:
     Returns:
         All combination sets up to maximum size
     """
-    return chain.from_iterable([combinations(iterable, num_combos) for num_combos in range(1, max_size + 1)])
+    items = list(iterable)  # may be an iterator, which can be used only once
+    return chain.from_iterable([combinations(items, num_combos) for num_combos in range(1, max_size + 1)])
 
 
 def grouper(iterable: Iterable, n: int, fillvalue: Any = None) -> Iterable:
-- 
2.43.0


From fdba070a866270d4fdd27f6ffaffa1c4fe7a19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 52/69] fix: allow pathways of more reactions than there are in
 the pathway solver

---
 src/rxn_network/pathways/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index b279563..bbf5cc1 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -232,6 +232,10 @@ class PathwaySolver(Solver):
                     pbar.update(1)
                     comp_matrices[n].append(comp_matrices_ref)
 
+                if not comp_matrices[n]:  # fewer than n reactions
+                    del comp_matrices[n]
+                    continue
+
                 comp_matrices[n] = np.concatenate(comp_matrices[n])
 
                 if not comp_matrices[n].any():  # type: ignore
-- 
2.43.0


From 23eb8ce651442f69269326a070544adbcad60f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 53/69] fix: return an empty set of pathways if no combination
 of reactions gives the net reaction

---
 src/rxn_network/pathways/solver.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index bbf5cc1..a11ebcb 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -198,9 +198,9 @@ class PathwaySolver(Solver):
                     costs.append(c)
 
         clean_r_set = ReactionSet.from_rxns(reactions, filter_duplicates=True)
-        cleaned_reactions, cleaned_costs = zip(
-            *[(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn], strict=False
-        )
+        cleaned = [(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn]
+        cleaned_reactions = [r for r, _ in cleaned]
+        cleaned_costs = [c for _, c in cleaned]
 
         net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
 
@@ -295,9 +295,8 @@ class PathwaySolver(Solver):
         ):
             c_m_mats.append(c_m_mats_ref)  # noqa: PERF402
 
-        c_mats, m_mats = zip(*c_m_mats, strict=False)
-        c_mats = [mat for mats in c_mats for mat in mats if mat is not None]  # type: ignore
-        m_mats = [mat for mats in m_mats for mat in mats if mat is not None]  # type: ignore
+        c_mats = [mat for mats, _ in c_m_mats for mat in mats if mat is not None]  # type: ignore
+        m_mats = [mat for _, mats in c_m_mats for mat in mats if mat is not None]  # type: ignore
 
         paths = []
         for c_mat, m_mat in zip(c_mats, m_mats, strict=False):
-- 
2.43.0


From 105f25b79a1ad59beb105146383f93d8fe8501d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 54/69] fix: solve pathways on machines with a single CPU

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index a11ebcb..96aaad9 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -206,7 +206,7 @@ class PathwaySolver(Solver):
 
         num_rxns = len(cleaned_reactions)
         num_cpus = ray.cluster_resources()["CPU"]
-        batch_size = self.batch_size or num_cpus - 1
+        batch_size = self.batch_size or max(num_cpus - 1, 1)
 
         net_coeff_filter = np.argwhere(net_rxn_vector != 0).flatten()
         net_coeff_filter = ray.put(net_coeff_filter)
-- 
2.43.0


From 043a83e159ebbcee7eaa52a7e95ebccd0323626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:42 +0000
Subject: [PATCH 55/69] fix: index the entries of all reactions consistently in
 the pathway solver

---
 src/rxn_network/pathways/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 96aaad9..5afa5ed 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -202,6 +202,13 @@ class PathwaySolver(Solver):
         cleaned_reactions = [r for r, _ in cleaned]
         cleaned_costs = [c for _, c in cleaned]
 
+        # reactions may have been made with other sets of entries (e.g., by the enumerators)
+        entry_indices = {e: idx for idx, e in enumerate(entries)}
+        net_rxn = deepcopy(net_rxn)
+        for rxn in [*cleaned_reactions, net_rxn]:
+            for e in rxn.entries:
+                e.data["idx"] = entry_indices[e]
+
         net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
 
         num_rxns = len(cleaned_reactions)
-- 
2.43.0


From f73e16fbbf82d9d1d448a9307424bc74d2fa6270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 56/69] fix: keep intermediate reactions of the grand potential
 enumerator

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 5afa5ed..906804e 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -401,7 +401,7 @@ class PathwaySolver(Solver):
                     mu=self.chempot,
                     targets=target_formulas,
                 )
-                rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
+                rxn_set = rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
 
         rxns = list(filter(lambda x: x.energy_per_atom < energy_cutoff, rxn_set))
         rxns = [r for r in rxns if all(e in intermediates for e in r.entries)]
-- 
2.43.0


From a2944a3ab5282a6db7c334144828a41973a8e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 57/69] fix: combine intermediate reactions of entries with
 several polymorphs

---
 src/rxn_network/pathways/solver.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 906804e..49ef65b 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -368,18 +368,11 @@ class PathwaySolver(Solver):
 
         intermediates = intermediates | ref_elems
 
-        rxn_set = ReactionSet(
-            intermediates.entries_list,
-            {},
-            {},
-            open_elem=self.open_elem,
-            chempot=self.chempot,
-            all_data={},
-        )
+        found = []
 
         if use_basic_enumerator:
             be = BasicEnumerator(targets=target_formulas)
-            rxn_set = rxn_set.add_rxn_set(be.enumerate(intermediates))
+            found.extend(be.enumerate(intermediates))
 
             if self.open_elem:
                 boe = BasicOpenEnumerator(
@@ -387,13 +380,13 @@ class PathwaySolver(Solver):
                     targets=target_formulas,
                 )
 
-                rxn_set = rxn_set.add_rxn_set(boe.enumerate(intermediates))
+                found.extend(boe.enumerate(intermediates))
 
         if use_minimize_enumerator:
             mge = MinimizeGibbsEnumerator(
                 targets=target_formulas,
             )
-            rxn_set = rxn_set.add_rxn_set(mge.enumerate(intermediates))
+            found.extend(mge.enumerate(intermediates))
 
             if self.open_elem:
                 mgpe = MinimizeGrandPotentialEnumerator(
@@ -401,8 +394,10 @@ class PathwaySolver(Solver):
                     mu=self.chempot,
                     targets=target_formulas,
                 )
-                rxn_set = rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
+                found.extend(mgpe.enumerate(intermediates))
 
+        # the entries of the enumerated sets may be ordered differently
+        rxn_set = ReactionSet.from_rxns(found, open_elem=self.open_elem, chempot=self.chempot)
         rxns = list(filter(lambda x: x.energy_per_atom < energy_cutoff, rxn_set))
         rxns = [r for r in rxns if all(e in intermediates for e in r.entries)]
         num_rxns = len(rxns)
-- 
2.43.0


From 6412b1c6c6757ead59dc46bcb4c91da19121a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:42 +0000
Subject: [PATCH 58/69] fix: sort the chemical system recorded by the reaction
 enumeration job

---
 src/rxn_network/jobs/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index b7df8b6..15e5a7a 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -239,7 +239,7 @@ class ReactionEnumerationMaker(Maker):
 
     def _get_metadata(self, enumerators: Iterable[Enumerator], entries: GibbsEntrySet):
         """Acquires common metadata provided to output document."""
-        chemsys = "-".join(entries.chemsys)
+        chemsys = "-".join(sorted(entries.chemsys))
         targets = {target for enumerator in enumerators for target in enumerator.targets}
 
         added_elements = None
-- 
2.43.0


From 427806f6b3bf9c301eb27253f5a5d5042c387c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:42 +0000
Subject: [PATCH 59/69] fix: list added elements in a fixed order

---
 src/rxn_network/jobs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/jobs/utils.py b/src/rxn_network/jobs/utils.py
index 128d53a..25557c8 100644
--- a/src/rxn_network/jobs/utils.py
+++ b/src/rxn_network/jobs/utils.py
@@ -30,6 +30,6 @@ def get_added_elem_data(entries: GibbsEntrySet, targets: Iterable[Composition |
     """
     added_elems = entries.chemsys - {str(e) for target in targets for e in Composition(target).elements}
     added_chemsys = "-".join(sorted(added_elems))
-    added_elements = [Element(e) for e in added_elems]
+    added_elements = [Element(e) for e in sorted(added_elems)]
 
     return added_elements, added_chemsys
-- 
2.43.0


From f190edc4d6ef0ccaf6528fc744541e41be7e5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:40 +0000
Subject: [PATCH 60/69] fix: record the enumerators of a one-shot iterator in
 the enumeration document

---
 src/rxn_network/jobs/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 15e5a7a..5c01407 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -227,6 +227,7 @@ class ReactionEnumerationMaker(Maker):
             entries: An entry set provided to each of the enumerators
         """
         data = {}
+        enumerators = list(enumerators)  # used more than once
 
         logger.info("Running enumerators...")
         data["rxns"] = run_enumerators(enumerators, entries)
-- 
2.43.0


From b4fd9de05226ef0aa05967c5af9bc20fe5a54235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 61/69] fix: combine reactions of enumerators that add
 different missing entries

---
 src/rxn_network/enumerators/utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/enumerators/utils.py b/src/rxn_network/enumerators/utils.py
index d5a8451..0af0807 100644
--- a/src/rxn_network/enumerators/utils.py
+++ b/src/rxn_network/enumerators/utils.py
@@ -12,6 +12,7 @@ from pymatgen.entries.computed_entries import ComputedEntry
 
 from rxn_network.reactions.computed import ComputedReaction
 from rxn_network.reactions.open import OpenComputedReaction
+from rxn_network.reactions.reaction_set import ReactionSet
 from rxn_network.utils.funcs import get_logger
 
 if TYPE_CHECKING:
@@ -181,7 +182,17 @@ def run_enumerators(enumerators: Iterable[Enumerator], entries: GibbsEntrySet):
         rxns = enumerator.enumerate(entries)
 
         logger.info(f"Adding {len(rxns)} reactions to reaction set")
-        rxn_set = rxns if idx == 0 else rxn_set.add_rxn_set(rxns)  # type: ignore
+        if idx == 0:
+            rxn_set = rxns
+        elif rxn_set.entries == rxns.entries:  # type: ignore
+            rxn_set = rxn_set.add_rxn_set(rxns)  # type: ignore
+        else:  # entries may have been added for missing precursors or targets
+            rxn_set = ReactionSet.from_rxns(
+                [*rxn_set, *rxns],  # type: ignore
+                entries=[*rxn_set.entries, *rxns.entries],  # type: ignore
+                open_elem=rxn_set.open_elem,  # type: ignore
+                chempot=rxn_set.chempot,  # type: ignore
+            )
 
     logger.info("Completed reaction enumeration. Filtering duplicates...")
     if rxn_set is not None:
-- 
2.43.0


From ae808a611c1b6270ee33c37c60181d5a9f4245fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:46 +0000
Subject: [PATCH 62/69] fix: keep the open element when the first enumerator
 finds no reactions

---
 src/rxn_network/enumerators/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/enumerators/utils.py b/src/rxn_network/enumerators/utils.py
index 0af0807..0a03711 100644
--- a/src/rxn_network/enumerators/utils.py
+++ b/src/rxn_network/enumerators/utils.py
@@ -182,7 +182,7 @@ def run_enumerators(enumerators: Iterable[Enumerator], entries: GibbsEntrySet):
         rxns = enumerator.enumerate(entries)
 
         logger.info(f"Adding {len(rxns)} reactions to reaction set")
-        if idx == 0:
+        if idx == 0 or not len(rxn_set):  # an empty set has no open element
             rxn_set = rxns
         elif rxn_set.entries == rxns.entries:  # type: ignore
             rxn_set = rxn_set.add_rxn_set(rxns)  # type: ignore
-- 
2.43.0


From 1047cd7c90edb3b8067497d59b8d2c4f00a5c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:17 +0000
Subject: [PATCH 63/69] fix: sort the chemical system of a network flow

---
 src/rxn_network/flows/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/flows/core.py b/src/rxn_network/flows/core.py
index b6fa413..9174c1e 100644
--- a/src/rxn_network/flows/core.py
+++ b/src/rxn_network/flows/core.py
@@ -115,7 +115,7 @@ class NetworkFlowMaker(Maker):
             f" {'-'.join(sorted(target_formulas))}"
         )
         chemsys = "-".join(
-            {str(e) for formula in precursor_formulas + target_formulas for e in Composition(formula).elements}
+            sorted({str(e) for formula in precursor_formulas + target_formulas for e in Composition(formula).elements})
         )
 
         jobs = []
-- 
2.43.0


From fbb1e221fe20fddb0b008c13c5b65d01327122ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 64/69] fix: 3D reaction scatter plots with current pymatgen
 layouts

---
 src/rxn_network/reactions/plotting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/plotting.py b/src/rxn_network/reactions/plotting.py
index f14c22e..71ec751 100644
--- a/src/rxn_network/reactions/plotting.py
+++ b/src/rxn_network/reactions/plotting.py
@@ -118,7 +118,9 @@ def plot_reaction_scatter(
     else:
         layout_3d = plotly_layouts["default_layout_3d"]
         axis_layout = plotly_layouts["default_3d_axis_layout"].copy()
-        axis_layout["titlefont"]["size"] = 14
+        # named "titlefont" in older versions of pymatgen
+        font_key = "titlefont" if "titlefont" in axis_layout else "title.font"
+        axis_layout[font_key] = {**axis_layout[font_key], "size": 14}
         for t in ["xaxis", "yaxis", "zaxis"]:
             layout_3d["scene"][t] = axis_layout
 
-- 
2.43.0


From bda98f1594feabc4581ebe98e193f3549058940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 65/69] fix: keep dominated reactions that share an index label
 in scatter plots

---
 src/rxn_network/reactions/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/reactions/plotting.py b/src/rxn_network/reactions/plotting.py
index 71ec751..608a4a8 100644
--- a/src/rxn_network/reactions/plotting.py
+++ b/src/rxn_network/reactions/plotting.py
@@ -8,7 +8,7 @@ import plotly.express as px
 import plotly.graph_objects as go
 from pymatgen.analysis.chempot_diagram import plotly_layouts
 
-from rxn_network.costs.pareto import get_pareto_front
+from rxn_network.costs.pareto import is_pareto_efficient
 
 if TYPE_CHECKING:
     from pandas import DataFrame
@@ -79,8 +79,9 @@ def plot_reaction_scatter(
         cols = (x, y, z)
 
     if plot_pareto:
-        pareto_df = get_pareto_front(df, metrics=cols)
-        df = df.loc[~df.index.isin(pareto_df.index)]
+        on_front = is_pareto_efficient(df[list(cols)].to_numpy(), return_mask=True)
+        pareto_df = df[on_front]
+        df = df[~on_front]  # not selected by index, since labels may be repeated
 
         arr = pareto_df[list(cols)].to_numpy()
         if z is None:
-- 
2.43.0


From a56c78b3d717559f94b76df55bc5e07a0ff2b792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 66/69] fix: energy of phases with unreduced formulas in
 pathway plots

---
 src/rxn_network/pathways/plotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/pathways/plotting.py b/src/rxn_network/pathways/plotting.py
index 91f4a4e..5513d92 100644
--- a/src/rxn_network/pathways/plotting.py
+++ b/src/rxn_network/pathways/plotting.py
@@ -90,9 +90,12 @@ class PathwayPlotter(MSONable):
             all_energies[temp]["ground_state"] = ground_state_energy
 
             for f in formulas:
-                comp = Composition(f).reduced_composition
+                comp = Composition(f)
                 energy = (
-                    pd.get_form_energy_per_atom(gibbs_entries.get_min_entry_by_formula(comp.formula)) * comp.num_atoms
+                    pd.get_form_energy_per_atom(
+                        gibbs_entries.get_min_entry_by_formula(comp.reduced_composition.formula)
+                    )
+                    * comp.num_atoms
                 )
                 all_energies[temp][f] = energy
 
-- 
2.43.0


From e33d11ef83d3bf0d572c07d2583b673394dff4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:38 +0000
Subject: [PATCH 67/69] fix: do not share the table of reactions between calls

---
 src/rxn_network/reactions/reaction_set.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 3b0e441..583b199 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -5,7 +5,6 @@ objects which share entries.
 from __future__ import annotations
 
 from collections import OrderedDict
-from functools import lru_cache
 from typing import TYPE_CHECKING, Any
 
 import numpy as np
@@ -179,7 +178,6 @@ class ReactionSet(MSONable):
 
         return rxn_set
 
-    @lru_cache(maxsize=1)  # noqa: B019
     def to_dataframe(
         self,
         cost_function: CostFunction,
-- 
2.43.0


From b716732d6cf2e89860bf0f30cde3559e1868cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 68/69] fix: comparing a reaction with another kind of object

---
 src/rxn_network/reactions/basic.py    | 3 +++
 src/rxn_network/reactions/computed.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 1a823f2..a95e158 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -463,6 +463,9 @@ class BasicReaction(Reaction):
         if self is other:
             return True
 
+        if not isinstance(other, BasicReaction):
+            return False
+
         if not self.chemical_system == other.chemical_system:
             return False
 
diff --git a/src/rxn_network/reactions/computed.py b/src/rxn_network/reactions/computed.py
index 0b2a2a1..7575bde 100644
--- a/src/rxn_network/reactions/computed.py
+++ b/src/rxn_network/reactions/computed.py
@@ -217,6 +217,9 @@ class ComputedReaction(BasicReaction):
         return v
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, ComputedReaction):
+            return False
+
         is_equal = BasicReaction.__eq__(self, other)
 
         if is_equal:
-- 
2.43.0


From 6f359246d9392fd4b3a2b4a696002c5b1a5dc68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 69/69] fix: reactions whose coefficients belong to different
 phases are not equal

---
 src/rxn_network/reactions/basic.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index a95e158..5c9a803 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -481,7 +481,17 @@ class BasicReaction(Reaction):
         if not set(self.reactants) == set(other.reactants):
             return False
 
-        return set(self.products) == set(other.products)
+        if not set(self.products) == set(other.products):
+            return False
+
+        # the same coefficients may still belong to different phases
+        return all(
+            np.allclose(
+                sorted(coeff for c, coeff in zip(self.compositions, self.coefficients) if c == comp),
+                sorted(coeff for c, coeff in zip(other.compositions, other.coefficients) if c == comp),
+            )
+            for comp in self.compositions
+        )
 
     def __hash__(self):
         return hash(
-- 
2.43.0

