"""Writes DESIGN.md from the prose below, the check modules, known_findings.jsonl and the planted bugs."""
import ast
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
ORACLE = {
 "B01": "Exact rational linear algebra (Gauss-Jordan over `Fraction`) of the element matrix: dimension and sign pattern of its null space. One-dimensional and all signs right -> the code must find exactly that ray; no null vector at all -> it must not claim a balance; anything claimed must conserve every element in plain arithmetic.",
 "B02": "Plain coefficient dictionaries: reversing, copying, scaling are done on them by hand; every accessor (reactants, products, fractions, elements, identity, separability, chemical system) is recomputed from the dictionary and compared after every step of a chain; the starting object is compared with a deep snapshot.",
 "B03": "Round trips: print -> parse, as_dict -> JSON text -> from_dict (twice from one dictionary, which must stay unchanged), normalised text of multiples and of distinct reactions.",
 "C01": "The law itself on plain numbers of the generated entries (energy, cell size, adjustments, uncertainties), with the grand-potential term for open elements; metamorphic: reverse flips, scaling scales.",
 "C02": "Differential: every entry is built from scratch at the target temperature, and the energies summed by hand; one reaction, a set, many temperatures at once, chains, and moving back.",
 "S01": "List model of the reactions with entry identity, coefficients, data, chemical potential and energies; every operation is applied to model and set; all earlier sets are compared again afterwards.",
 "S02": "Equivalence classes under exact positive proportionality; the kept set must hold exactly one member of each, whatever the scheduler does.",
 "S03": "Plain comparison of reduced compositions over the input list.",
 "S04": "Each row carries its reaction: every column is recomputed from it. Repeated calls with other arguments detect caching.",
 "K01": "The log1p formula re-implemented over plain numbers; one parameter is raised and the change of order compared with the sign of its weight; serialisation.",
 "K02": "Pairwise dominance, O(n^2), over every permutation drawn.",
 "K03": "Aggregates recomputed from the pairwise distances and offsets of the diagram (which T01 decides); competition values from the hull (which H01 decides); originals compared with snapshots.",
 "H01": "Monotone-chain lower envelope over coordinates computed by hand from coefficients; scores by their definition.",
 "H02": "Lists every binary tree over the hull points between the two ends and averages their step energies; Catalan numbers.",
 "H03": "Interfaces rebuilt with H01's definition from all competing reactions, including open elements; compared for every chunk size, CPU count, memory size and task order.",
 "T01": "Brute-force vertex enumeration of the half-space system (all n-subsets of planes, feasibility test), distances between vertex sets; energy above hull by linear programming.",
 "T02": "Set coverage with plain sets; energies above hull by linear programming over all entries at once.",
 "E01": "Model-based histories: the model is a plain set of pool members; each query is answered from it (hull energies by linear programming), copies and derived sets are followed in parallel so that a change to one that reaches another is seen.",
 "E02": "Linear-programming hull; the limit is applied to it by hand. Stabilised and interpolated entries are put back and the hull recomputed. Jitter: the distribution's support and what must not move, not its statistics.",
 "E03": "Descriptor re-implemented from the paper with a frozen copy of the elemental reference table; chains of temperature changes equal construction at the end point.",
 "E04": "Frozen copies of both tables; linear interpolation by hand. `tables` is exhaustive over every compound, every tabulated temperature, all midpoints and both ends.",
 "E05": "Every output entry predicted from the inputs by plain arithmetic (formation energies against the elemental ground states), the descriptor, the correction rules and the frozen tables; compared as a multiset.",
 "E06": "As E05, followed by a linear-programming hull at the filter temperature and the list of requested formulas; compared again for shuffled input.",
 "N01": "Complete enumeration: all pairs of disjoint subsets up to the size limit, exact null space, the restrictions applied literally; compared as a set, both ways.",
 "N02": "Differential/metamorphic: one sequential pass is the reference; chunk sizes, job limits, CPU counts and completion orders vary. Input entries are compared with a snapshot.",
 "N03": "Vertices of the dual polytope give the kinks of the (grand-potential) envelope of every pair; their reactions come from exact null spaces; compared both ways.",
 "G01": "Graph computed from the definition (nodes = sets of phases, links by set inclusion) after every step of a history of builds and choices.",
 "G02": "Exhaustive enumeration of all simple paths with costs (cases with too many are skipped and counted).",
 "G03": "Round trip by dictionary, JSON text and file at every stage, then used further and compared with the graph definition (G01) and the never-saved twin; equality decided on plain lists.",
 "P01": "Every combination up to the size limit solved in exact arithmetic; uniqueness, positivity, average cost, order and interdependence decided on the exact solution; compared as a set both ways.",
 "P02": "Plain coefficient dictionaries; interdependence by a fixed-point search over the orders.",
 "F01": "Differential: building blocks called by hand with the same settings; documents again after a JSON round trip; whole flows through jobflow's local manager with in-memory stores and a stand-in for the Materials Project client.",
 "D01": "List model of what was stored and when; the newest matching record is chosen by hand, its reactions recomputed from the stored entries and compared with those returned.",
"D02": "Set model of each criterion over the generated records (permutations of element alternatives, reduced formulas worked out apart); matching ids, energies, structures and data are compared with what is returned.",
"R01": "Requests on both sides of the boundary are built from inputs for which the answer is known (exact integer balances, literal membership of phases and elements, a model of the network's state); each must be answered or refused accordingly, a message given, and a dump of everything involved compared before and after; random sequences of legal and illegal requests to one network.",
"I01": "Families of near-twins built by known operations (reordered, copied, amounts exchanged, other phase, energy, temperature, id, cost): what each object is built from decides which pairs must be equal; ==, != and hash of all pairs in both directions and with foreign objects, sizes of sets, and list lookups are compared with it.",
     "V01": "The plotted coordinates, labels and series read back from the figure objects and compared as multisets with the table (pairwise dominance for the front); literal filtering; pathway energies by linear-programming hulls at every temperature.",
 "U01": "itertools over positions; the stand-in scheduler decides completion order and which task fails.",
}
# bounds that matter, beyond what the RULE says
BOUND = {
 "B01": "Up to 6 species and 8 elements, coefficients up to a few hundred.",
 "T01": "2-4 elements; phases closer than 1e-6 eV to the hull and domains with nearly coincident corners are excluded from exact comparison.",
 "E02": "2-4 elements. Entries within 1e-6 eV of a limit are not judged.",
 "N01": "2-8 elements, up to about 14 phases, up to three open phases, n <= 3.",
 "N03": "2-4 elements; cases with a tie on the envelope (two phases closer than 1e-6 eV to degenerate) are recognised exactly and skipped.",
 "G02": "At most 4000 simple paths / 60000 steps per case.",
 "P01": "At most 14 reactions, pathways of up to 4.",
 "F01": "2-3 elements per flow; jobs that need the real Materials Project or a running MongoDB are exercised through stand-ins.",
}
HEAD = """# Design

All 38 properties are decided by property-based testing: seeded, structured generators (Hypothesis) build inputs, histories,
schedules and configurations; the real code of `/repo/src` runs on them through its public interface; an oracle that shares no
code with it decides; failures are shrunk and written as a JSON replay (`bin/check <ID> --replay <abs path>`). Nothing is listed
under `not_applicable`. There are no hooks in `/repo`; its commits on top of the base are repairs (`fix:`).

## Why this can reach what the tests cannot

The repository's tests compare a few fixtures (one Y-Mn-O-like system) with recorded numbers and counts. The generators vary the
dimensions those fixtures keep fixed: number of elements, polymorphs and cells that are not reduced, ties, phases present on both
sides, open elements and zero chemical potential, repeated and interleaved operations, chunk sizes, CPU counts and completion
orders, saving in the middle of a history. The oracles decide completeness ("and nothing else") by exact enumeration, which a
recorded count cannot.

## Machinery

* `bin/check` -> `vp/core.py`: runs the facets of `checks/<ID>.py` in 1-8 forked workers each. A facet is a strategy that yields
  plain JSON data, and a function that builds real objects from it, runs the code and raises on a violation. Seeds derive from
  `VERIF_SEED` and the worker number; `PYTHONHASHSEED=0`; no example database: a run is a function of seed and tree. When a case
  fails, Hypothesis shrinks it (at most 90 s), the smallest failing case goes to `replays/` and `VIOLATION property=.. replay=..`
  is printed. Errors of the machinery itself exit 2. A case that gives no answer in 240 s (normal: milliseconds) is a violation.
* Evidence counts evaluations, distinct non-trivial cases (hash of the case; rule stated per property), classes and samples.
* `vp/fakeray.py`: deterministic in-process stand-in for Ray. Store objects and task arguments are isolated copies (cloudpickle
  protocol 5, read-only arrays as in Ray's object store); top-level references are resolved; tasks run at any time between
  submission and the wait that needs them, in any order, and `wait` may report any ready task first: both come from a generated
  schedule. CPU count and memory are generated too. So schedules are part of the case, shrink with it and replay exactly.
  What it does not model: worker crashes, object spilling, real parallel memory use.
* `vp/gen.py`, `rsets.py`, `ifc.py`, `enums.py`, `net.py`: generators and reference models (entries; reaction sets; interfaces;
  enumeration; networks). `vp/geom.py`, `thermo.py`: linear-programming hull, polytope vertices, Gibbs descriptor. `oracle/`: frozen
  copies of the reference tables taken from the base commit, so that a change to the tables or their reading is seen.
* Numbers: stoichiometry is decided in exact rationals. Energies are multiples of 1/128 eV, so that true ties are exact and
  everything else is far apart. Floating-point comparisons use 1e-6 or wider, orders of magnitude above round-off and below any
  difference the generators can produce. Cases the oracle finds (nearly) degenerate, where two answers are right, are not judged,
  and counted under a class label in the evidence.
* Only behaviour is judged: no check reads source text, private names, log output or seeded changes.
* Ray itself, the Materials Project client, MongoDB stores: replaced or not exercised (see "Not covered").

Tools used to find gaps (none of them part of a check): `tools/plant.py` plants bugs and runs their demonstrations, checks and the
tests; `tools/mutate.py` samples small syntactic changes of the whole package and lists those that no check of the file's
properties reports; `tools/revert.py` undoes each recorded repair in a scratch copy and sees that its check reports it again (all
but two, whose lines later repairs changed again); lines of the package that no quick check executes were listed with a tracer.

Cost: quick checks take about 5-40 s each on 8 cores; thorough ones (10-40 times as many cases) minutes each.

"""


def facets(src):
    out = []
    for m in re.finditer(r'Facet\("([\w-]+)".*?(?=Facet\(|\]\n|\Z)', src[src.index("FACETS"):], re.S):
        q, t = re.search(r"quick=(\d+)", m.group(0)), re.search(r"thorough=(\d+)", m.group(0))
        out.append(f"`{m.group(1)}` " + (f"({q.group(1)} / {t.group(1)})" if q and t else "(exhaustive list)"))
    return ", ".join(out)


def const(src, name):
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) == name:
            return ast.literal_eval(n.value)


props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
known = [json.loads(x) for x in (V / "known_findings.jsonl").read_text().splitlines() if x.startswith("{")]
seeds = {}
res = V / "tools" / "seeds" / "results.json"
results = json.loads(res.read_text()) if res.exists() else {}
for f in sorted((V / "seeded").glob("*/meta.json")):
    p = V / ".build" / "plant" / f"{f.parent.name}.json"
    if p.exists():
        d = json.loads(p.read_text())
        results[f.parent.name] = "caught" if d.get("check") == 1 else "missed"
    seeds.setdefault(json.loads(f.read_text())["property"], []).append((f.parent.name, json.loads(f.read_text())))
results = {k: v for k, v in results.items() if (V / "seeded" / k).exists()}
res.write_text(json.dumps(results, indent=1, sort_keys=True) + "\n")

out = [HEAD, "## Properties\n\nNumbers after a facet: cases generated by the quick / thorough tier.\n"]
for p in props:
    i = p["id"]
    src = (V / "checks" / f"{i}.py").read_text()
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Specified:* {p['statement']}\n")
    out.append(f"*Generated:* {const(src, 'RULE')}\n")
    out.append(f"*Oracle:* {ORACLE[i]}\n")
    if i in BOUND:
        out.append(f"*Bounds:* {BOUND[i]}\n")
    out.append(f"*Beyond the tests:* {p['why_tests_cant']}\n")
    s = seeds.get(i, [])
    out.append(f"*Facets:* {facets(src)}. *Planted bugs:* " + (", ".join(f"{n} ({results.get(n, '?')})" for n, _ in s) or "none kept") + ".\n")
out.append("## Genuine defects found\n")
out.append("Each was shown with a failing input against the real code. Repaired ones (one `fix:` commit each; the check reports them again if they return):\n")
for k in known:
    if k["status"] == "fixed":
        out.append(f"* {k['what'].replace('fixed: property=', '')}")
out.append("\nRecorded, not repaired (probed on every run and printed as KNOWN-FINDING; the generators step around exactly these inputs):\n")
for k in known:
    if k["status"] == "known":
        out.append(f"* {k['property']} `{k['key']}`: {k['what']}")
out.append((V / "tools" / "design_tail.md").read_text())
out.append("## Planted bugs\n\nEach applies to HEAD, passes the stable tests and has a demonstration. The check of its property, quick tier, seed 1:\n\n| change | property | needs | breaks | check |\n|---|---|---|---|---|")
for i in sorted(seeds):
    for n, m in seeds[i]:
        out.append(f"| {n} | {i} | {m['needs']} | {m['what_it_breaks']} | {results.get(n, '?')} |")
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
print(len("\n".join(out)), "characters;", sum(v != "caught" for v in results.values()), "not caught")
