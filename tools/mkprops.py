import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/rxn_network/"+f for f in files],mechanism=[dict(name=a,where="src/rxn_network/"+b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=state
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(title,len(title)); P.append(d)
p("B01","Automatic balancing conserves every element and finds every unique balance",
"Whenever a reaction between given reactants and products is reported as balanced, its coefficients conserve every element and, when no balancing errors are reported, each species keeps a strictly signed coefficient on its own side. If the species admit exactly one such balance up to scale, balancing finds it. A set of species that admits no balance at all is never reported as balanced.",
["inputs"],"all lists of distinct reactant and product compositions, built from formulas or from computed entries, balanceable uniquely, multiply or not at all",
"The tests balance about a dozen hand-picked reactions; the guarantee is over every stoichiometry and every number of species and elements.",
["reactions/basic.py","reactions/computed.py","reactions/open.py"],[("pseudo-inverse balancing with trial constraints","reactions/basic.py: BasicReaction._balance_coeffs"),("balance constructors","reactions/{basic,computed,open}.py: balance")],["BasicReaction.balance / from_formulas","ComputedReaction.balance","OpenComputedReaction.balance"])
p("B02","Reaction transformations are algebraic and leave the original alone",
"Reversing twice gives back the reaction, copying gives an equal one, and normalising to a phase or element rescales all coefficients by one positive factor so that the requested amount is met, all without altering the original reaction; equal reactions have equal hashes. The reported coefficients, reactants, products, element amounts, mixing fractions, identity, separability and chemical system always agree with the coefficients of the reaction (fractions on each side are positive and sum to one).",
["inputs"],"all reactions (closed and open), compositions, elements and factors, and all chains of such transformations",
"Tests check these accessors on one or two fixtures each; the laws quantify over all coefficients and chains of transformations.",
["reactions/basic.py","reactions/computed.py","reactions/open.py"],[("reverse/copy/normalize_to/normalize_to_element","reactions/*.py"),("atomic and molar fractions, is_separable, is_identity","reactions/basic.py"),("open-element fractions","reactions/open.py")])
p("B03","Reactions survive text and dictionary round trips",
"Parsing the printed equation of a reaction gives back the same compositions, sides and coefficients; the normalised equation is the same for all positive multiples of a reaction and different for different reactions. Converting any reaction to a dictionary, through JSON, and back gives an equal reaction of the same class with the same energy, data, chemical potentials and balancing status, and does not modify the dictionary.",
["inputs"],"all reactions with printable coefficients, all reaction classes, all data dictionaries",
"Tests round-trip one fixture; equality of text and dict forms is a statement over every reaction.",
["reactions/basic.py","reactions/computed.py","reactions/open.py"],[("equation parser and printer","reactions/basic.py: from_string/_str_from_formulas"),("as_dict/from_dict","reactions/open.py, monty MSONable")])
p("C01","Reaction energies are the coefficient-weighted sums of the entry energies",
"The energy of a closed reaction equals the sum of each coefficient times the energy per formula unit of its phase; with an open element it equals the change in grand potential at the given chemical potential. Per-atom values divide by the number of non-open atoms, reversing flips the sign, scaling scales the total but not the per-atom energy, and uncertainties combine the entry uncertainties in quadrature.",
["inputs"],"all entry sets with arbitrary (non-reduced) cells, energies, corrections and uncertainties, all coefficients and all chemical potentials, including zero",
"Tests compare a few frozen numbers; the energy law must hold for every stoichiometry, cell size and chemical potential.",
["reactions/computed.py","reactions/open.py"],[("energy, energy_per_atom, energy_uncertainty","reactions/computed.py"),("grand-potential energy","reactions/open.py")])
p("C02","Changing temperature recomputes exactly the energies of the same reactions",
"A reaction, or every reaction in a set, moved to a new temperature has the same phases, coefficients and auxiliary data, and its energy is the one obtained by re-evaluating each of its own entries at that temperature; moving back restores the original energies. The original objects are unchanged, and doing many temperatures at once agrees with doing them one at a time, with or without an open element.",
["inputs","histories"],"all reaction sets over temperature-dependent entries (including several entries of one formula), all temperature lists, and all sequences of temperature changes",
"Tests move one fixture to one or two temperatures and compare with recorded values.",
["reactions/computed.py","reactions/open.py","reactions/reaction_set.py","entries/gibbs.py"],[("get_new_temperature","reactions/computed.py, reactions/open.py"),("set_new_temperature, compute_at_temperatures","reactions/reaction_set.py")])
p("S01","A reaction set stores and returns exactly the reactions put into it",
"A set built from reactions yields, as a multiset, exactly those reactions with their entries, coefficients, data, energies and (common) chemical potential; its length is their number. Adding reactions or another set, changing the chemical potential, and saving to and loading from JSON all preserve this, and none of them alters the sets they started from.",
["inputs","histories"],"all collections of closed or open reactions of mixed sizes and all histories of adding, merging, re-setting chemical potentials and serialising",
"Tests round-trip one fixture; sizes, orders, polymorphs and histories of operations are unbounded.",
["reactions/reaction_set.py"],[("index/coefficient matrices grouped by size","reactions/reaction_set.py: from_rxns, get_rxns"),("add_rxns/add_rxn_set/set_chempot","reactions/reaction_set.py")])
p("S02","Duplicate filtering keeps exactly one reaction from each class of multiples",
"After filtering, no two remaining reactions are positive multiples of each other over the same phases, every original reaction has a remaining multiple, and every remaining reaction is an original one; reactions asked to be kept are all kept. A reaction and its reverse are never merged, and the result does not depend on how the work was split over workers or on the order they finish.",
["inputs","schedules"],"all reaction sets with multiples, reverses, permuted columns and repeated reactions, all lists of reactions to keep, serial and parallel with every completion order and CPU count",
"Tests filter two fixtures and check the count; multiples, permutations and worker schedules are not explored.",
["reactions/reaction_set.py","utils/ray.py"],[("filter_duplicates/_get_idxs_to_keep","reactions/reaction_set.py"),("to_iterator","utils/ray.py")])
p("S03","Queries by reactants and by product return exactly the matching reactions",
"Asking for the reactions with given reactants returns exactly those whose reactants all carry one of the given formulas, and asking by product exactly those that produce a phase of the given formula. This holds for every entry of that formula and wherever it sits in the set, and the set-valued and list-valued forms agree.",
["inputs"],"all reaction sets (including several entries per formula) and all formulas, reduced or not, present or absent",
"Tests ask for one or two formulas of one fixture.",
["reactions/reaction_set.py"],[("get_rxns_by_reactants/get_rxns_by_product","reactions/reaction_set.py")])
p("S04","Tables and costs of a reaction set describe its reactions row by row",
"The table made from a reaction set has one row per reaction, sorted by cost, and every row's energy, uncertainty, added elements, separability, precursor statistics, stored data and cost are those of the reaction in that row. Costs computed for a set are listed in the order of its reactions, and repeated calls are each answered for their arguments, whatever was done to the tables returned before.",
["inputs","histories"],"all reaction sets, cost functions, targets and option combinations, and repeated calls",
"Tests check column names and the first row of a fixture.",
["reactions/reaction_set.py"],[("to_dataframe, calculate_costs","reactions/reaction_set.py")])
p("K01","Cost functions follow their formula and never change order with energy",
"The softplus cost is the logarithm of one plus the temperature-scaled exponential of the weighted sum of the requested parameters, the weighted sum is the plain weighted sum; both are positive where defined so, strictly monotonic in each parameter according to the sign of its weight, and fail clearly when a requested parameter is missing. They read energies per atom and stored data from the reaction without altering it and survive serialisation.",
["inputs"],"all weights, temperatures, parameter names and reactions",
"Tests evaluate one reaction at two settings.",
["costs/functions.py","costs/base.py"],[("Softplus/WeightedSum","costs/functions.py")])
p("K02","Pareto fronts contain exactly the non-dominated reactions",
"A point is on the front exactly when no other point is at least as good in every objective and better in one, for minimisation and, when asked, for maximisation; every front of a table contains exactly those rows. The answer does not depend on the order of the rows.",
["inputs"],"all finite point sets in any number of objectives, including ties and duplicates, and all tables with chosen cost columns",
"Tests use a small frozen list of points.",
["costs/pareto.py"],[("is_pareto_efficient/get_pareto_front","costs/pareto.py")])
p("K03","Decorating calculators attach the value they define and nothing else",
"A calculator stores on a copy of each reaction exactly the value it computes for that reaction, leaving the original and all other data unchanged, and decorating many reactions equals decorating each. The chemical-potential-distance value aggregates, by the chosen function, the distances (plus the offsets of metastable phases) between each reactant and product and between each two products, rounded to five decimals, and ignores the open element.",
["inputs"],"all reactions in a chemical system with any entry energies, all aggregation functions, all competing-reaction lists",
"Tests decorate one reaction per calculator.",
["costs/base.py","costs/calculators.py"],[("Calculator.decorate/decorate_many","costs/base.py"),("ChempotDistanceCalculator, Primary/SecondaryCompetitionCalculator","costs/calculators.py")])
p("H01","Interface hulls and competition scores match their geometric definition",
"For two precursors and a set of their reactions, the hull consists exactly of the lower convex envelope of reaction energy against mixing ratio, energies above hull are vertical distances to it, and stable reactions are those on it. Primary competition is the reaction's energy minus the lowest energy of the other reactions and of no reaction; secondary competition is minus the sum of the mean secondary reaction energies to the left and to the right of it. Both are independent of the order of reactions and of precursors.",
["inputs"],"all reaction sets between two precursors with distinct or coincident mixing ratios and arbitrary energies",
"Tests evaluate one interface with recorded numbers.",
["reactions/hull.py"],[("hull, e_above_hull, primary/secondary competition","reactions/hull.py")])
p("H02","Averaged secondary reaction energies equal the mean over all binary trees",
"The closed-form mean energy of all secondary reaction sequences between two points on the hull equals the brute-force average over every way of successively splitting the interval, and the number of such sequences is the Catalan number. The extremal variant reports the most negative single step over all triples of hull points on each side, and the recursive and non-recursive evaluations agree.",
["inputs"],"all numbers and positions of hull vertices and energies",
"Tests compare a few recorded numbers on one hull; the identity quantifies over all vertex layouts.",
["reactions/hull.py"],[("get_decomposition_energy_and_num_paths(_recursive), get_secondary_competition...","reactions/hull.py")])
p("H03","Selectivity values attached to reactions match an independent recomputation",
"For every reaction between at most two precursors, the attached primary and secondary competition equal those computed from the interface built from all the enumerated reactions between the same precursors (with open phases as configured), and the attached chemical potential distances those of its own chemical system, whatever way the reactions are chunked or scheduled. Reactions, their energies and all other data are preserved. With a single precursor the primary value is the energy minus the lowest energy of the other reactions and of no reaction, and the secondary value the largest positive excess over another reaction, or zero.",
["inputs","schedules","configurations"],"all sets of synthesis and competing reactions, open elements, batch sizes and completion orders",
"Tests run the job once on one fixture.",
["jobs/core.py","reactions/hull.py"],[("CalculateCompetitionMaker","jobs/core.py"),("competition decoration","jobs/core.py")])
p("T01","Chemical potential distances are shortest distances between domain corners",
"The distance between two phases is the smallest Euclidean distance between corner points of their stability domains, hence symmetric, non-negative, and zero when the domains share a corner; domains are those of the (open or closed) system within the chosen lower limits. Metastable phases are treated as just stabilised, with an offset equal to their energy above hull divided by the length of their composition vector, and the diagram never alters the entries it was given.",
["inputs"],"all entry sets in two- to four-element systems, all pairs of phases, stable or metastable",
"Tests check two recorded distances in one system.",
["thermo/chempot_diagram.py"],[("shortest_domain_distance, domains, get_offset","thermo/chempot_diagram.py")])
p("T02","Splitting a chemical system into smaller phase diagrams loses nothing",
"Every entry given to the expansion appears in at least one of the resulting phase diagrams together with all entries in its chemical sub-system, and energies above hull from any of them equal those from one complete diagram.",
["inputs"],"all entry sets over any number of elements and connected or disconnected chemical systems",
"Tests count the diagrams for one fixture.",
["thermo/utils.py","entries/entry_set.py"],[("expand_pd","thermo/utils.py"),("pd_dict, get_e_above_hull","entries/entry_set.py")])
p("E01","An entry set behaves as a set and never serves stale derived data",
"After any history of additions, removals, set operations and queries, membership, size, iteration, element list, ground-state lookup, sorted list, temperature, index assignment, chemical sub-systems and energies above hull are those of a set freshly built from the current entries. Copies and derived sets are independent: changing one never changes another.",
["histories","inputs"],"all interleavings of mutations and cached queries over arbitrary entries",
"Tests call each method once on a fixture; stale caches need a query, a mutation and another query.",
["entries/entry_set.py"],[("cached properties cleared on mutation","entries/entry_set.py: _clear_cache"),("MutableSet interface","entries/entry_set.py")])
p("E02","Stability filters and stabilised or interpolated entries respect the convex hull",
"Filtering by a metastability limit keeps exactly the entries within that energy above hull (only the lowest of each formula unless polymorphs are requested). A stabilised entry lies on the hull when it replaces the original and changes nothing else; an interpolated entry lies below the hull energy of its composition by the requested tolerance. Randomly perturbed copies shift each compound by noise scaled with its uncertainty and leave elements and the original alone.",
["inputs"],"all entry sets, limits, tolerances and target formulas",
"Tests filter one fixture at one limit.",
["entries/entry_set.py"],[("filter_by_stability, get_stabilized_entry, get_interpolated_entry","entries/entry_set.py")])
p("E03","Estimated Gibbs energies follow the published descriptor at every temperature",
"For any composition, cell size, formation energy and temperature between 300 and 2000 K (integer or not), a computed entry's energy is its formation energy plus the published descriptor correction with linearly interpolated elemental references, plus any other adjustments, and elements get no correction. Moving to another temperature equals constructing the entry there, energy per atom does not depend on cell size, out-of-range temperatures are rejected, and entries survive serialisation with a unique identity per temperature.",
["inputs","histories"],"all compositions, volumes, energies, adjustments and temperatures in range, and all chains of temperature changes and round trips",
"Tests check three recorded numbers; off-grid and floating-point temperatures and non-reduced cells are barely sampled.",
["entries/gibbs.py"],[("SISSO correction, elemental references","entries/gibbs.py"),("get_new_temperature, as_dict/from_dict","entries/gibbs.py")])
p("E04","Experimental entries reproduce the tabulated data and interpolate between points",
"For every tabulated compound the entry's energy at a tabulated temperature is the tabulated value, between neighbouring points it is their linear interpolation, scaled with the amount of substance, and outside the table it is rejected. Temperature changes, adjustments, atmospheric CO2 and carbonate corrections, equality, hashing and serialisation are consistent with constructing the entry afresh.",
["inputs","histories"],"all compounds in both reference tables, all temperatures, all adjustments and chains of temperature changes",
"Tests use a handful of compounds and temperatures out of thousands.",
["entries/experimental.py","entries/nist.py","entries/freed.py","entries/corrections.py"],[("tabulated lookup and interpolation","entries/experimental.py"),("energy corrections","entries/corrections.py")])
p("E05","Building Gibbs entry sets from computed entries treats every phase exactly once",
"Converting zero-temperature entries yields, for each compound, one Gibbs entry per input entry with its formation energy from the phase diagram and the applicable corrections, or the reference-data entry instead when that data is enabled and available, and only the ground state of each pure element. The input entries are unchanged, and a system too large for one diagram gives the same energies as smaller ones.",
["inputs","configurations"],"all collections of computed structure entries and all switches for reference data and corrections",
"Tests convert one fixture with three settings.",
["entries/entry_set.py","entries/utils.py"],[("from_pd/from_computed_entries","entries/entry_set.py"),("carbonate and CO2 corrections","entries/entry_set.py")])
p("E06","Entry preparation honours its stability limit and includes requested phases",
"Preparing entries for a study keeps only entries within the metastability limit, guarantees that every formula asked for is present (from the data wherever they reach the study temperature, or interpolated when absent), applies the requested temperature, and does not depend on input order. Looking up the entry for a formula returns its ground state and, when asked, a version placed on the hull.",
["inputs","configurations"],"all entry collections, formulas, limits, temperatures and sizes options",
"Tests run one fixture through a few parameter combinations.",
["entries/utils.py","jobs/core.py"],[("process_entries, initialize_entry","entries/utils.py")])
p("N01","Combinatorial enumeration finds every valid reaction and nothing else",
"For any entries and settings the enumerator returns exactly the uniquely balanced reactions with every chosen phase on its own side and at most the allowed number of phases per side, that satisfy the precursor, target and chemical-system restrictions; with open phases, those that have an open phase added to one side. Each is balanced, uses the given entries (ground-state precursors and targets) and appears once per direction; identity reactions never appear.",
["inputs","configurations"],"all small entry sets and all combinations of precursors, targets, exclusivity, cardinality, open phases and filters",
"Tests compare counts for a few frozen settings of one chemical system; completeness against an independent enumeration is never checked.",
["enumerators/basic.py","enumerators/utils.py"],[("combination generation and filters","enumerators/basic.py"),("chemical-system grouping","enumerators/utils.py")])
p("N02","Enumeration results do not depend on chunking, worker count or finish order",
"The set of enumerated reactions is the same for every chunk size, job limit, number of CPUs and order in which the parallel tasks run and finish, and equals what one sequential pass produces. The entries passed in are not modified and repeated runs give the same reactions.",
["schedules","configurations","inputs"],"all chunk sizes, job limits, CPU counts and task completion orders, for every enumerator",
"Tests always run with the default chunk size, so everything fits one chunk and the real scheduler picks one order.",
["enumerators/basic.py","enumerators/minimize.py","utils/ray.py"],[("chunk building","enumerators/basic.py: enumerate"),("task collection","utils/ray.py: to_iterator")])
p("N03","Energy-minimising enumeration returns exactly the reactions at interface kinks",
"For two ground-state reactants the enumerator returns exactly the reactions at the kinks of the lower energy envelope along their mixing line, in the closed system or at the given chemical potential of the open element, subject to the precursor and target restrictions. No returned reaction has products that could lower their (grand) energy further by reacting, and each is balanced.",
["inputs","configurations"],"all small entry sets, reactant pairs, open elements and chemical potentials",
"Tests compare counts on one chemical system.",
["enumerators/minimize.py","enumerators/utils.py"],[("interfacial reactivity kinks","enumerators/utils.py: react_interface"),("react functions","enumerators/minimize.py")])
p("G01","The reaction network contains one costed edge for every usable reaction",
"Building a network gives one directed edge per reaction, from the node of its reactants to the node of its products, carrying the cost given by the cost function; and zero-cost links from every product node to the reactant nodes of the same phases, as well as to those it supplies together with (but not already supplied by) the precursors. Nothing else is linked: precursors and targets are connected exactly to the nodes that can use or make them, choosing others or rebuilding leaves nothing behind, and phases not in the network are rejected.",
["inputs","histories"],"all reaction sets, cost functions, precursor sets and targets, and all sequences of setting and resetting them",
"Tests build one network and check node and edge counts; resets to other precursors or targets are not explored.",
["network/network.py","network/entry.py","network/base.py"],[("build, set_precursors, set_target","network/network.py"),("NetworkEntry equality and hashing","network/entry.py")])
p("G02","Path finding returns the k cheapest simple paths in order",
"For every target the reported paths are real loop-free paths of reactions from the precursors to the target, in non-decreasing total cost, without repeats (of several reactions between the same phases the cheapest is used), and no omitted path is cheaper than a reported one; fewer than k are reported only if no more exist. Costs reported for a path are the sums of its reaction costs, and apart from the chosen target searching does not alter the network.",
["inputs","histories"],"all networks, costs, targets and k, and repeated searches",
"Tests check the number of paths on one network and k = 1..3 on toy graphs.",
["network/network.py","pathways/basic.py","pathways/pathway_set.py"],[("k-shortest-path search","network/network.py: yens_ksp, find_pathways")])
p("G03","Networks, graphs and pathways survive being saved and loaded",
"Saving a network, graph, reaction pathway or pathway set to a dictionary or file and loading it back gives an object with the same nodes, edges, costs, reactions, precursors and target, able to give the same pathways. Two pathways are equal exactly when they are of the same kind and consist of the same reactions in the same order, balanced ones also with the same coefficients and costs.",
["inputs","histories"],"all networks (before and after choosing precursors and targets), all pathways and pathway sets",
"Tests write one network and only check that loading does not fail.",
["network/base.py","network/network.py","network/entry.py","pathways/pathway_set.py","pathways/basic.py","pathways/balanced.py"],[("as_dict/from_dict","network/base.py, network/network.py"),("shared-reaction encoding","pathways/pathway_set.py")])
p("P01","Pathway solutions are exactly the balanced combinations giving the net reaction",
"Every returned pathway uses reactions from those supplied (or, on request, found between the intermediates with energies below the cutoff), other than the net reaction itself, with positive multiplicities that sum exactly to the net reaction; no pathway is repeated. Every combination of at most the allowed number of such reactions which has a unique such solution is returned, sorted by average cost, except interdependent ones when these are to be filtered out.",
["inputs","configurations","schedules"],"all small reaction sets, net reactions, costs, pathway size limits and filter options, and all task schedules",
"Tests check the number of pathways of one fixture; soundness and completeness against an independent search are not checked.",
["pathways/solver.py","pathways/balanced.py"],[("combination filtering and matrix balancing","pathways/solver.py"),("interdependence filter","pathways/balanced.py")])
p("P02","Balanced pathways report consistent costs, membership and interdependence",
"The reactants, products, intermediates, entries, total cost, energy and experimental status of a pathway are those of its reactions. The composition matrix of a balanced pathway has one row of coefficients per reaction, and rows weighted with the pathway's coefficients add up to the coefficient vector of its net reaction; its average cost is the coefficient-weighted mean of its reaction costs. It is reported as interdependent exactly when no order of its reactions lets each start from the precursors and the products of earlier ones (phases no reaction makes being available).",
["inputs"],"all reaction lists, coefficients, costs and precursor sets",
"Tests evaluate two fixtures.",
["pathways/balanced.py","pathways/basic.py","pathways/base.py"],[("average_cost, get_comp_matrix, get_coeff_vector_for_rxn, contains_interdependent_rxns","pathways/balanced.py"),("reactants, products, intermediates, energies","pathways/base.py")])
p("F01","Workflow jobs give the same results as calling the building blocks directly",
"A workflow's entry, enumeration, network and pathway documents contain the same entries, reactions, pathways and summary data as running the entry preparation, enumerators, network builder and solver by hand with the same settings, with elements, chemical systems, targets and added elements correctly described. A whole flow runs one such stage for the closed system and one for each chemical potential of the open element, and documents survive serialisation.",
["configurations","inputs"],"all small entry sets, targets, enumerator lists, open elements, chemical potentials and option combinations",
"Tests run each job once with recorded counts.",
["jobs/core.py","jobs/utils.py","jobs/schema.py","flows/core.py"],[("makers","jobs/core.py, flows/core.py"),("added-element metadata","jobs/utils.py")])
p("U01","Subset generation and chunking cover every item exactly once",
"Size-limited subsets of a collection contain every subset of each allowed size exactly once and none other; splitting a collection into groups keeps every item in order in groups of the requested size, padding only the last. Collecting parallel results yields each result exactly once whatever order they finish in.",
["inputs","schedules"],"all collections, sizes, fill values, and completion orders",
"Tests use two short lists.",
["utils/funcs.py","utils/ray.py"],[("limited_powerset, grouper","utils/funcs.py"),("to_iterator","utils/ray.py")])
p("D01","Stored synthesis-planning results are found again for the right conditions",
"Asking the results database for the reactions to a target returns exactly the reactions, with their data, energies and open-system conditions, of the most recently completed stored calculation with the same target (whatever the way its formula is written), open element, chemical potential and, when given, workflow id. If nothing matches, an error is raised rather than other results returned.",
["inputs","histories"],"all databases of stored selectivity calculations, in any order of storage, and all queries",
"No test touches the retrieval of stored results.",
["utils/database.py","jobs/schema.py","reactions/reaction_set.py"],[("get_rxns_from_db","utils/database.py"),("CompetitionTaskDocument","jobs/schema.py")])
p("V01","Plots and filtered tables show exactly the data they are given",
"A reaction scatter plot shows every row of its table once, at its own coordinates and with its own reaction as label, in the Pareto front series exactly if it is non-dominated. Filtering a table by available precursors keeps exactly the rows whose reactants are all available, in order and unchanged. The pathway plotter reports, for given phase amounts, their (smoothed) amounts, the amounts of each element, the total composition, and energies per atom relative to the ground state of that composition. A drawn network shows each node once, with one colour per chemical system. An interface plot shows every reaction of the interface at its mixing ratio and energy, and their lower envelope. None of these alters its input.",
["inputs"],"all reaction tables, metrics and precursor lists, all phase amounts and temperatures",
"Tests only check that a figure object is returned.",
["reactions/plotting.py","pathways/plotting.py","network/visualize.py","costs/pareto.py"],[("plot_network","network/visualize.py"),("plot_reaction_scatter, filter_df_by_precursors","reactions/plotting.py"),("PathwayPlotter","pathways/plotting.py")])
p("D02","Entry databases are searched for exactly the entries asked for",
"Searching a database of computed entries by material id, formula (in any order or multiple), chemical system (in any order), wildcards and alternatives in either, several of these at once, or a plain query, returns exactly the stored entries that match, each once and with its stored energy, structure and requested data; without deprecated ones where the search says so. Asking for a whole chemical system returns the entries of all its subsystems, however large the system and however the search is split. Results sorted by energy above hull are in that order.",
["inputs"],"all databases and all search texts, systems and options",
"No test searches a database of entries.",
["entries/utils.py"],[("get_entries_from_entry_db, get_entries, parse_criteria","entries/utils.py"),("get_all_entries_in_chemsys","entries/utils.py")])
p("I01","Things are equal when they describe the same thing; equal things hash alike",
"Reactions are equal exactly when the same phases take part with the same coefficients (and, for computed reactions, the same energy), whatever the order in which they are written; entries when they describe the same phase with the same energy and temperature (by id, where both have one); network entries when kind and phases agree; pathways when they hold the same reactions in the same order (balanced ones also with the same coefficients and costs). Equality is reflexive and symmetric, comparison with anything else is False and never an error, and equal things have equal hashes, so that sets and dictionaries merge exactly the duplicates.",
["inputs"],"all families of reactions, entries, network nodes and pathways, in any writing order",
"Tests compare single fixed pairs; what matters are near-twins (same phases, other coefficients), the agreement with hashes and all writing orders.",
["reactions/basic.py","reactions/computed.py","entries/gibbs.py","entries/interpolated.py","network/entry.py","pathways/basic.py","pathways/balanced.py"],[("BasicReaction.__eq__/__hash__","reactions/basic.py"),("ComputedReaction.__eq__/__hash__","reactions/computed.py"),("GibbsComputedEntry.__eq__/__hash__","entries/gibbs.py"),("NetworkEntry.__eq__/__hash__","network/entry.py"),("BasicPathway, BalancedPathway","pathways/balanced.py")])
p("R01","Requests without an answer are refused and leave everything as it was",
"Asking for something that cannot be answered raises an error instead of returning a wrong result, and changes nothing: phase fractions of an unbalanced reaction, the energy of a reaction without energies, or a temperature its entries cannot take; precursors or targets a network does not contain, or pathways before it is built and has precursors; entries of elements a set does not have; a phase diagram without an entry for each element; uniting reaction sets over different entries, or ensuring reactions a set lacks; an interface with reactions of other phases; competition for a target nothing makes, or of reactions with three precursors; solving for an impossible or unbalanced net reaction. Requests that can be answered are not refused.",
["inputs","histories"],"all requests on either side of what can be answered, and all sequences of them",
"Tests check a few refusals; what matters is the exact boundary, and the state after a refusal.",
["reactions/basic.py","reactions/open.py","reactions/hull.py","reactions/reaction_set.py","network/network.py","thermo/chempot_diagram.py","entries/entry_set.py","jobs/core.py","pathways/solver.py"],[("BasicReaction atomic/molar fractions, is_separable","reactions/basic.py"),("set_precursors, set_target, find_pathways","network/network.py"),("get_subset_in_chemsys, get_min_entry_by_formula","entries/entry_set.py"),("add_rxn_set, filter_duplicates","reactions/reaction_set.py"),("InterfaceReactionHull","reactions/hull.py"),("CalculateCompetitionMaker, PathwaySolverMaker","jobs/core.py"),("PathwaySolver.solve","pathways/solver.py")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
