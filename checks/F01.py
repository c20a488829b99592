"""F01: workflow jobs give the same results as the building blocks called by hand."""
from vp import fakeray

fakeray.install()
import json  # noqa: E402
import logging  # noqa: E402
import sys  # noqa: E402
import types  # noqa: E402
import warnings  # noqa: E402
from collections import Counter  # noqa: E402

from hypothesis import strategies as st  # noqa: E402
from jobflow import SETTINGS, JobStore  # noqa: E402
from jobflow.managers.local import run_locally  # noqa: E402
from maggma.stores import MemoryStore  # noqa: E402
from monty.json import MontyDecoder, MontyEncoder  # noqa: E402
from pymatgen.core import Element, Lattice, Structure  # noqa: E402
from rxn_network.costs.functions import Softplus  # noqa: E402
from rxn_network.entries.entry_set import GibbsEntrySet  # noqa: E402
from rxn_network.entries.utils import get_all_entries_in_chemsys_from_entry_db, process_entries  # noqa: E402
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator  # noqa: E402
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator  # noqa: E402
from rxn_network.flows.core import NetworkFlowMaker  # noqa: E402
from rxn_network.jobs.core import GetEntrySetMaker, NetworkMaker, PathwaySolverMaker, ReactionEnumerationMaker  # noqa: E402
from rxn_network.jobs.utils import get_added_elem_data  # noqa: E402
from rxn_network.network.network import ReactionNetwork  # noqa: E402
from rxn_network.pathways.basic import BasicPathway  # noqa: E402
from rxn_network.pathways.pathway_set import PathwaySet  # noqa: E402
from rxn_network.pathways.solver import PathwaySolver  # noqa: E402
from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.open import OpenComputedReaction  # noqa: E402
from rxn_network.reactions.reaction_set import ReactionSet  # noqa: E402
from checks import E05, E06  # noqa: E402
from vp import enums, gen, net  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "F01"
RULE = ("Entry sets of two or three elements with one to three enumerators of any kind and any precursor/target lists (as a list, tuple or iterator); networks of generated reactions split over one to three sets, closed or open; pathway "
        "solving for generated net reactions; complete flows run through the local job manager. Every document is compared with enumerators, network and solver called directly and again after saving and loading. "
        "Non-trivial: three or more reactions from at least two enumerators, two or more pathways, or a flow whose every stage gives results.")
CFG = dict(deadline=None)
logging.disable(logging.INFO)


def rkey(r):
    return type(r).__name__, enums.rkey(r, 4)


def reload(doc):
    return json.loads(json.dumps(doc, cls=MontyEncoder), cls=MontyDecoder)


def same_rxns(got, want, what, energies=True):
    """The same reactions (in any order and size) with the same energies."""
    g, w = {}, {}
    for out, rs in ((g, got), (w, want)):
        for r in rs:
            out.setdefault(rkey(r) if energies else rkey(r)[1], r)
    ensure(set(g) == set(w), "%s: %s reactions instead of %s; missing %s, unexpected %s", what, len(g), len(w), [str(w[k]) for k in set(w) - set(g)][:3], [str(g[k]) for k in set(g) - set(w)][:3])
    if energies:
        for k, r in g.items():
            ensure(close(r.energy_per_atom, w[k].energy_per_atom, 1e-6, 1e-7), "%s: %s has the energy %s instead of %s", what, r, r.energy_per_atom, w[k].energy_per_atom)


def canon(c):
    return enums.rf(c)


# ---------------------------------------------------------------- enumeration
@st.composite
def enumerator(draw, els, es, kinds):
    e = dict(kind=draw(st.sampled_from(kinds)), xp=draw(st.booleans()), xt=draw(st.booleans()), n=draw(st.sampled_from([1, 2, 2])), fd=draw(st.booleans()), P=None, T=None)
    g = draw(enums.guided(es)) if draw(st.booleans()) else (None, None)
    mode = draw(st.sampled_from(["P", "T", "both", "none"]))
    if mode in ("P", "both"):
        e["P"] = g[0] or draw(enums.restriction(els, es, absent=draw(st.integers(0, 2)) == 0))
    if mode in ("T", "both"):
        e["T"] = g[1] or draw(enums.restriction(els, es, absent=draw(st.integers(0, 2)) == 0))
    return e


@st.composite
def enum_case(draw):
    els, es = draw(enums.entries(2, 3, nmin=2, nmax=5))
    op = draw(st.sampled_from(els))
    mu = draw(st.integers(-256, 0)) / 128
    kinds = draw(st.sampled_from([["basic", "open", "gibbs"], ["basic", "open", "gibbs"], ["grand"], ["basic", "gibbs", "grand"]]))
    return dict(es=es, op=op, mu=mu, enums=draw(st.lists(enumerator(els, es, kinds), min_size=1, max_size=3)), how=draw(st.sampled_from(["list", "tuple", "iter"])), sched=draw(st.lists(st.integers(0, 9), max_size=4)))


def mk_enum(e, d):
    kw = dict(precursors=e["P"], targets=e["T"], exclusive_precursors=e["xp"], exclusive_targets=e["xt"], filter_duplicates=e["fd"], quiet=True)
    if e["kind"] == "basic":
        return BasicEnumerator(n=e["n"], **kw)
    if e["kind"] == "open":
        return BasicOpenEnumerator(open_phases=[canon({d["op"]: 1})], n=e["n"], **kw)
    if e["kind"] == "gibbs":
        return MinimizeGibbsEnumerator(**kw)
    return MinimizeGrandPotentialEnumerator(open_elem=Element(d["op"]), mu=d["mu"], **kw)


def described(doc, entries, targets, what):
    """Metadata of an enumeration document."""
    els = sorted({x.symbol for e in entries for x in e.composition.elements})
    ensure(doc.chemsys == "-".join(els), "%s: chemical system %s instead of %s", what, doc.chemsys, "-".join(els))
    ensure(sorted(x.symbol for x in doc.elements) == els and all(isinstance(x, Element) for x in doc.elements), "%s: elements %s instead of %s", what, doc.elements, els)
    ensure({canon(gen_comp(t).as_dict()) for t in doc.targets or []} == set(targets) and len(set(doc.targets or [])) == len(doc.targets or []), "%s: targets %s instead of %s", what, doc.targets, sorted(targets))
    if targets:
        tels = {x for t in targets for x in {y.symbol for y in gen_comp(t).elements}}
        add = sorted(set(els) - tels)
        ensure(sorted(x.symbol for x in doc.added_elements) == add and all(isinstance(x, Element) for x in doc.added_elements), "%s: added elements %s instead of %s for %s", what, doc.added_elements, add, targets)
        ensure(doc.added_chemsys == "-".join(add), "%s: added chemical system %r instead of %r", what, doc.added_chemsys, "-".join(add))
    else:
        ensure(doc.added_elements is None and doc.added_chemsys is None, "%s: added elements %s without targets", what, doc.added_elements)


def gen_comp(f):
    from rxn_network.core import Composition
    return Composition(f)


def enum_fn(d, rec):
    s = GibbsEntrySet(gen.mk_entries(d["es"]))
    if enums.tied([enums.Phase(e) for e in s]):
        rec.label("ties")
        return
    mks = [mk_enum(e, d) for e in d["enums"]]
    fakeray.S.reset(d["sched"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = [list(mk_enum(e, d).enumerate(GibbsEntrySet(gen.mk_entries(d["es"])))) for e in d["enums"]]
        fakeray.S.reset(d["sched"])
        maker = ReactionEnumerationMaker(name="xyz")
        arg = {"list": list, "tuple": tuple, "iter": iter}[d["how"]](mks)
        doc = maker.make.original(maker, arg, s)
    allr = [r for w in want for r in w]
    kinds = {e["kind"] == "grand" for e in d["enums"]}
    targets = {canon(gen_comp(t).as_dict()) for e in d["enums"] for t in e["T"] or []}
    for what, x in (("document", doc), ("reloaded document", reload(doc))):
        ensure(type(x).__name__ == "EnumeratorTaskDocument" and x.task_label == "xyz", "%s: %s labelled %s", what, type(x), x.task_label)
        got = list(x.rxns)
        same_rxns(got, allr, what, energies=len(kinds) == 1)
        dup = Counter(rkey(r) for r in got)
        ensure(max(dup.values(), default=1) == 1, "%s: repeated reactions %s", what, [k for k, v in dup.items() if v > 1][:2])
        described(x, s, targets, what)
        ensure(len(x.enumerators) == len(mks), "%s: %s enumerators", what, len(x.enumerators))
        for a, b in zip(x.enumerators, mks):
            a = a.as_dict() if not isinstance(a, dict) else a
            ensure(json.dumps(a, cls=MontyEncoder, sort_keys=True) == json.dumps(b, cls=MontyEncoder, sort_keys=True), "%s: enumerator %s instead of %s", what, a, b.as_dict())
    rec.nontrivial(len({rkey(r)[1] for r in allr}) >= 3 and sum(1 for w in want if w) >= 2)
    rec.label("mixed" if len(kinds) > 1 else "open" if True in kinds else "closed")


# ------------------------------------------------------------ added elements
@st.composite
def added_case(draw):
    els, es = draw(enums.entries(2, 5, nmin=1, nmax=3))
    t = draw(st.lists(gen.formula(els + enums.FOREIGN, max_amt=4, min_els=1, max_els=4), min_size=1, max_size=3))
    return dict(es=es, T=t, how=draw(st.sampled_from(["str", "comp"])))


def added_fn(d, rec):
    s = GibbsEntrySet(gen.mk_entries(d["es"]))
    els = {x.symbol for e in s for x in e.composition.elements}
    T = [enums.fml(c) if d["how"] == "str" else gen_comp(enums.fml(c)) for c in d["T"]]
    a, cs = get_added_elem_data(s, T)
    want = sorted(els - {x for c in d["T"] for x in c})
    ensure(sorted(x.symbol for x in a) == want and all(isinstance(x, Element) for x in a), "added elements %s instead of %s", a, want)
    ensure(cs == "-".join(want), "added chemical system %s instead of %s", cs, want)
    ensure([x.symbol for x in a] == want, "added elements are listed as %s, not in the order of %s", a, cs)
    rec.nontrivial(len(want) > 0 and len(want) < len(els))


# ------------------------------------------------------------------- network
@st.composite
def net_case(draw):
    d = draw(net.network(lo=3, hi=6, max_rxns=12, min_rxns=draw(st.sampled_from([2, 6])), guided=st.sampled_from([True, True, False])))
    d["sets"] = draw(st.integers(1, 3))
    d["targets"] = draw(st.lists(st.integers(0, 30), max_size=3))
    d["tprod"] = draw(st.integers(0, 3)) > 0
    d["prec"] = draw(st.integers(0, 7)) > 0
    d["k"] = draw(st.sampled_from([None, 1, 2, 5, 5, 10, 10]))
    d["reinit"] = draw(st.sampled_from([None, None, -0.25, 0.0])) if not d["open"] else None
    d["ropen"] = draw(st.sampled_from(sorted({e for x in d["es"] for e in x["c"]})))
    d["gen"] = draw(st.booleans())
    return d


def node(n):
    return n.description.name, frozenset(net.ekey(e) for e in n.entries)


def graph(rn):
    g = rn.graph
    nodes = Counter(node(g.get_node_data(i)) for i in g.node_indices())
    edges = Counter()
    for (a, b), e in zip(g.edge_list(), g.edges()):
        edges[(node(g.get_node_data(a)), node(g.get_node_data(b)), e if isinstance(e, str) else rkey(e))] += 1
    return nodes, edges


def path_keys(p):
    return tuple(rkey(r) for r in p.reactions)


def same_paths(got, want, what, k):
    """Equally good pathways; the same ones unless costs tie."""
    ensure((got is None) == (want is None), "%s: %s instead of %s", what, got, want)
    if got is None:
        return
    a, b = sorted((p.total_cost, len(p.reactions)) for p in got), sorted((p.total_cost, len(p.reactions)) for p in want)
    ensure(len(a) == len(b) and all(close(x, y, 1e-6, 1e-6) for (x, _), (y, _) in zip(a, b)), "%s: pathway costs %s instead of %s", what, a, b)
    tot = [x for x, _ in b]
    if len(tot) < (k or 0) and all(y - x > 1e-6 for x, y in zip(tot, tot[1:])):  # otherwise the choice between equally good ones is free
        ensure({path_keys(p) for p in got} == {path_keys(p) for p in want}, "%s: pathways %s instead of %s", what, list(got), list(want))


def net_fn(d, rec):
    m = net.Model(d)
    if not m.rxns or m.indistinct:
        rec.label("indistinguishable or no reactions")
        return
    sets = [ReactionSet.from_rxns(m.objs[i::d["sets"]]) for i in range(d["sets"]) if m.objs[i::d["sets"]]]
    objs, kw = m.objs, {}
    if m.chempots:
        kw = dict(open_elem=next(iter(m.chempots)), chempot=next(iter(m.chempots.values())))
    elif d["reinit"] is not None:
        kw = dict(open_elem=Element(d["ropen"]), chempot=d["reinit"])
        objs = [OpenComputedReaction(r.entries, r.coefficients, {kw["open_elem"]: kw["chempot"]}, data=r.data) for r in objs]
    made = sorted({i for x in m.rxns for i in x[1]} - set(m.P0)) if d["tprod"] else []
    made = made or m.used
    T = list(dict.fromkeys(m.entries[made[i % len(made)]].composition.reduced_formula for i in d["targets"]))
    P = [m.entries[i].composition.reduced_formula for i in m.P0 if i in m.used] if d["prec"] else []
    P = list(dict.fromkeys(P))
    cf = net.TableCost() if d["cost"] == "table" and len({rkey(r) for r in objs}) == len(objs) else Softplus(d.get("ct", 300))
    mk = NetworkMaker(name="abc", cost_function=cf, precursors=P or None, targets=T or None, calculate_pathways=d["k"], **kw)
    uniq = {}
    for r in objs:
        uniq.setdefault(rkey(r), r)
    rn = ReactionNetwork(ReactionSet.from_rxns(list(uniq.values()), **({"open_elem": kw["open_elem"], "chempot": kw["chempot"]} if kw else {})), cf)
    rn.build()
    if P:
        rn.set_precursors(P)
    if T:
        rn.set_target(T[0])
    fakeray.S.reset([])
    want = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if T and P and d["k"]:
            want = rn.find_pathways(T, k=d["k"])
        if T and not P and d["k"]:
            d = dict(d, k=None)
            mk.calculate_pathways = None  # pathways need precursors
        doc = mk.make.original(mk, iter(sets) if d["gen"] else sets)
    rn2 = ReactionNetwork(ReactionSet.from_rxns(list(uniq.values()), **({"open_elem": kw["open_elem"], "chempot": kw["chempot"]} if kw else {})), cf)
    rn2.build()
    if P:
        rn2.set_precursors(P)
    if T:
        rn2.set_target(T[-1] if want is not None else T[0])
    for what, x in (("document", doc), ("reloaded document", reload(doc))):
        ensure(type(x).__name__ == "NetworkTaskDocument" and x.task_label == "abc", "%s: %s labelled %s", what, type(x), x.task_label)
        ensure((x.k, x.precursors, x.targets) == (d["k"], P or None, T or None), "%s: %s", what, (x.k, x.precursors, x.targets))
        same_rxns(x.network.rxns, objs, what)
        (n1, e1), (n2, e2) = graph(x.network), graph(rn2)
        ensure(n1 == n2, "%s: nodes missing %s, unexpected %s", what, list((n2 - n1))[:3], list((n1 - n2))[:3])
        ensure(e1 == e2, "%s: edges missing %s, unexpected %s", what, list((e2 - e1))[:3], list((e1 - e2))[:3])
        ensure(sorted(e.composition.reduced_formula for e in x.network.precursors or []) == sorted(P), "%s: precursors %s instead of %s", what, x.network.precursors, P)
        same_paths(x.paths, want, what, d["k"])
    rec.nontrivial(want is not None and len(list(want)) >= 2)
    rec.label("reinitialised" if d["reinit"] is not None else "open" if m.chempots else "closed")


# -------------------------------------------------------------------- solver
@st.composite
def solve_case(draw):
    d = draw(net.network(lo=2, hi=4, max_rxns=8, min_rxns=3))
    d["net"] = draw(st.integers(0, 99))
    d["sum"] = draw(st.sampled_from([0, 1, 1, 2, 3]))
    d["n"] = draw(st.sampled_from([1, 2, 2, 3, 3, 3]))
    d["filt"] = draw(st.booleans())
    d["inter"] = draw(st.sampled_from([None, None, dict(cut=0.0, basic=True, mini=False), dict(cut=-0.05, basic=True, mini=True), dict(cut=0.1, basic=False, mini=True), dict(cut=0.5, basic=True, mini=False), dict(cut=-0.3, basic=True, mini=False), dict(cut=0.0, basic=False, mini=False)]))
    d["mult"] = draw(st.booleans())
    d["oname"] = draw(st.booleans())
    return d


def pathway_key(p):
    """Reactions with their amounts, whatever the sizes in which they are written."""
    return tuple(sorted((rkey(r), round(c * max(abs(x) for x in r.coefficients), 3)) for r, c in zip(p.reactions, p.coefficients)))


def net_reaction(d, m, rs):
    """([reactant formulas, product formulas], coefficients) of a uniquely balanced reaction: the sum of two of the reactions, or any."""
    comps = {i: gen._reduce(d["es"][i]["c"])[0] for i in m.used}
    form = {i: m.entries[i].composition.reduced_formula for i in m.used}
    cands = []
    if d["sum"] and len(m.rxns) > 1:
        for p in range(len(m.rxns)):
            for q in range(p):
                tot = {}
                for x, w in ((m.rxns[p][2], 1), (m.rxns[q][2], d["sum"])):
                    t = sum(abs(v) for v in x.values())
                    for i, v in x.items():
                        tot[i] = tot.get(i, 0) + w * v / t
                a, b = [i for i, v in tot.items() if v < -1e-6], [i for i, v in tot.items() if v > 1e-6]
                if a and b and len({form[i] for i in a + b}) == len(a + b) and all(i == m.min_of(form[i]) for i in a + b):
                    v, _ = gen.exact_balance([comps[i] for i in a], [comps[i] for i in b])
                    if v is not None:
                        cands.append((a, b, [float(x) for x in v]))
    if not cands:
        ix = list(comps)
        cands = [([ix[i] for i in a], [ix[i] for i in b], k) for a, b, k in gen.balanced_pairs([comps[i] for i in ix], 2, 2, 200)]
        cands = [c for c in cands if len({form[i] for i in c[0] + c[1]}) == len(c[0] + c[1])]
    if not cands:
        return None, None
    a, b, k = cands[d["net"] % len(cands)]
    return [[form[i] for i in a], [form[i] for i in b]], k


def solve_fn(d, rec):
    m = net.Model(d)
    if not m.rxns or m.indistinct:
        rec.label("indistinguishable or no reactions")
        return
    rn = m.network()
    rs = list(rn.rxns.get_rxns())
    entries = rn.entries
    fs, k = net_reaction(d, m, rs)
    if not fs:
        rec.label("no net reaction")
        return
    best = {f: m.entries[m.min_of(f)] for f in fs[0] + fs[1]}
    es = [best[f] for f in fs[0] + fs[1]]
    nr = OpenComputedReaction(es, k, dict(m.chempots)) if m.chempots else ComputedReaction(es, k)
    o, mu = (next(iter(m.chempots.items())) if m.chempots else (None, 0.0))
    ps = PathwaySet.from_paths([BasicPathway(rs, [m.cf.evaluate(r) for r in rs])])
    if d["inter"] and not ({d["open"]} if d["open"] else set()) | {x.symbol for e in entries for x in e.composition.elements} <= {x.symbol for e in entries if len(e.composition) == 1 for x in e.composition.elements}:
        d = dict(d, inter=None)
    iv = d["inter"] or dict(cut=0.0, basic=False, mini=False)
    opts = dict(max_num_combos=d["n"], find_intermediate_rxns=bool(d["inter"]), intermediate_rxn_energy_cutoff=iv["cut"], use_basic_enumerator=iv["basic"], use_minimize_enumerator=iv["mini"], filter_interdependent=d["filt"])
    if d["mult"]:
        fs = [[enums.fml({e: int(2 * n) for e, n in gen_comp(f).as_dict().items()}) for f in x] for x in fs]
    mk = PathwaySolverMaker(name="s", cost_function=m.cf, precursors=fs[0], targets=fs[1], open_elem=(o.symbol if d["oname"] and o else o), chempot=mu, **opts)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fakeray.S.reset([], cpus=2)
        doc = mk.make.original(mk, ps, entries)
        fakeray.S.reset([], cpus=2)
        hand = PathwaySolver(ps, entries, m.cf, open_elem=o, chempot=mu)
        want = hand.solve(doc.net_rxn, **opts)
    for what, x in (("document", doc), ("reloaded document", reload(doc))):
        ensure(type(x).__name__ == "PathwaySolverTaskDocument" and x.task_label == "s", "%s: %s labelled %s", what, type(x), x.task_label)
        for f, v in opts.items():
            ensure(getattr(x, f) == v, "%s: %s is %s instead of %s", what, f, getattr(x, f), v)
        ensure(sorted(x.precursors) == sorted(fs[0]) and sorted(x.targets) == sorted(fs[1]), "%s: from %s to %s", what, x.precursors, x.targets)
        ensure(rkey(x.net_rxn) == rkey(nr) and close(x.net_rxn.energy_per_atom, nr.energy_per_atom, 1e-6, 1e-7), "%s: net reaction %s (%s) instead of %s (%s)", what, x.net_rxn, x.net_rxn.energy_per_atom, nr, nr.energy_per_atom)
        A, B = Counter(map(pathway_key, x.balanced_paths)), Counter(map(pathway_key, want))
        ensure(near(A, B), "%s: %s balanced pathways instead of %s; missing %s; unexpected %s", what, sum(A.values()), sum(B.values()), list((B - A))[:2], list((A - B))[:2])
        same_rxns(x.solver.reactions, hand.reactions, what + " solver")
        same_costs(x.solver, hand, what)
    rec.nontrivial(len(list(want)) >= 2)
    rec.label("intermediates" if d["inter"] else "given reactions")


def same_costs(a, b, what):
    ensure(len(a.costs) == len(a.reactions), "%s: the solver has %s costs for %s reactions", what, len(a.costs), len(a.reactions))
    A, B = {}, {}
    for o, s in ((A, a), (B, b)):
        for r, c in zip(s.reactions, s.costs):
            o.setdefault(rkey(r), []).append(float(c))
    for k, v in A.items():
        ensure(any(close(v[0], y, 1e-6, 1e-6) for y in B.get(k, v)), "%s: the solver gives %s the cost %s instead of %s", what, k, v, B.get(k))


def near(A, B):
    """Equal up to rounding of amounts."""
    if A == B:
        return True
    ka = sorted(A.elements(), key=lambda p: [(r, 0) for r, _ in p])
    kb = sorted(B.elements(), key=lambda p: [(r, 0) for r, _ in p])
    return len(ka) == len(kb) and all([r for r, _ in x] == [r for r, _ in y] and all(abs(u - v) <= 2e-3 * max(1, abs(v)) for (_, u), (_, v) in zip(x, y)) for x, y in zip(ka, kb))


# ------------------------------------------------------------- entry acquisition
class FakeMPRester:
    """Stands in for the Materials Project client: serves the generated entries."""

    entries: list = []
    asked: list = []

    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def get_entries_in_chemsys(self, elements, additional_criteria=None, **kw):
        FakeMPRester.asked.append(elements)
        els = set(elements.split("-") if isinstance(elements, str) else map(str, elements))
        return [e for e in FakeMPRester.entries if {x.symbol for x in e.composition.elements} <= els]


@st.composite
def entry_case(draw):
    d = draw(E06.case())
    els = sorted({e for x in d["es"] for e in x["c"]})
    d["cs"] = draw(st.permutations(els))
    if draw(st.booleans()) and len(els) > 2:
        d["cs"] = d["cs"][:-1]
    d["inc"] = [f for f in d["inc"] if set(gen_comp(f).as_dict()) <= set(d["cs"])]
    d["db"] = draw(st.booleans())
    d["gga"] = draw(st.lists(st.sampled_from(["GGA", "GGA+U", "both", "none", "null"]), min_size=len(d["es"]), max_size=len(d["es"])))
    d["custom"] = draw(st.lists(st.integers(0, 20), max_size=2, unique=True))
    if isinstance(d["lim"], list):
        d["lim"] = 0.02
    return d


class Rester:
    """Installs the stand-in while a job runs."""

    def __enter__(self):
        self.old = sys.modules.get("mp_api.client")
        m = types.ModuleType("mp_api.client")
        m.MPRester = FakeMPRester
        sys.modules["mp_api.client"] = m

    def __exit__(self, *a):
        if self.old is None:
            del sys.modules["mp_api.client"]
        else:
            sys.modules["mp_api.client"] = self.old


def brief(e):
    return json.dumps([type(e).__name__, str(e.entry_id), e.composition.formula, round(float(e.energy), 7), sorted((k, round(v, 7) if isinstance(v, float) else str(v)) for k, v in e.data.items())], default=str)


def entry_fn(d, rec):
    all_es = [E05.build(x) for x in d["es"]]
    custom = [all_es[i] for i in sorted({i % len(all_es) for i in d["custom"]}) if {x.symbol for x in all_es[i].composition.elements} <= set(d["cs"]) and len(all_es[i].composition) > 1]
    served = [e for e in all_es if e not in custom]
    inside = []
    docs = []
    for n, (e, g) in enumerate(zip(all_es, d["gga"])):
        if e in custom:
            continue
        if len(e.composition) == 1 and g in ("none", "null"):
            g = "GGA"
        other = e.as_dict()
        other["energy"] += 1.0
        other = json.loads(json.dumps(other, cls=MontyEncoder))
        own = json.loads(json.dumps(e.as_dict(), cls=MontyEncoder))
        ents = {"GGA": {"GGA": own}, "GGA+U": {"GGA+U": own}, "both": {"GGA": other, "GGA+U": own}, "none": {}, "null": {"R2SCAN": other}}[g]
        els = sorted({x.symbol for x in e.composition.elements})
        docs.append(dict(task_id=n, chemsys="-".join(els), elements=els, entries=ents))
        if set(els) <= set(d["cs"]) and (not d["db"] or g not in ("none", "null")):
            inside.append(e)
    kw = dict(temperature=d["T"], e_above_hull=d["lim"], filter_at_temperature=d["Tf"], include_polymorphs=d["poly"], formulas_to_include=list(d["inc"]), calculate_e_above_hulls=d["calc"], **d["opt"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = process_entries(list(inside) + custom, **kw)
        mk = GetEntrySetMaker(name="ent", custom_entries=list(custom), entry_db_name="db" if d["db"] else None, **kw)
        FakeMPRester.entries = served
        js, old = store(), SETTINGS.JOB_STORE
        db = MemoryStore()
        db.connect()
        if docs:
            db.update(docs, key="task_id")
        js.additional_stores["db"] = db
        try:
            SETTINGS.JOB_STORE = js
            with Rester():
                doc = mk.make.original(mk, "-".join(d["cs"]))
        finally:
            SETTINGS.JOB_STORE = old
    w = Counter(map(brief, want))
    for what, x in (("document", doc), ("reloaded document", reload(doc))):
        ensure(type(x).__name__ == "EntrySetDocument" and x.task_label == "ent", "%s: %s labelled %s", what, type(x), x.task_label)
        ensure((x.e_above_hull, x.include_polymorphs, list(x.formulas_to_include)) == (d["lim"], d["poly"], d["inc"]), "%s: %s", what, (x.e_above_hull, x.include_polymorphs, x.formulas_to_include))
        g = Counter(map(brief, x.entries))
        ensure(g == w, "%s: entries missing %s, unexpected %s", what, list((w - g))[:2], list((g - w))[:2])
        ensure(isinstance(x.entries, GibbsEntrySet), "%s: %s", what, type(x.entries))
    ensure(mk.custom_entries == custom and mk.formulas_to_include == d["inc"], "the settings of the job were altered")
    rec.nontrivial(len(w) >= 3 and len(inside) > 3)
    rec.label("database" if d["db"] else "client")


ELS16 = ["Li", "Na", "K", "O", "Fe", "Mn", "Y", "Si", "C", "N", "Ba", "Cl", "Ti", "Zr", "S", "P"]


@st.composite
def db_case(draw):
    els = draw(st.permutations(ELS16))[: draw(st.sampled_from([1, 2, 3, 5, 13, 14, 15]))]
    docs = draw(st.lists(st.tuples(st.lists(st.one_of(st.sampled_from(els), st.sampled_from(els), st.sampled_from(ELS16)), min_size=1, max_size=4, unique=True), st.sampled_from(["GGA", "GGA+U", "both", "none"])).map(list), min_size=1, max_size=8))
    return dict(els=els, docs=docs, aslist=draw(st.booleans()))


def db_fn(d, rec):
    db = MemoryStore()
    db.connect()
    docs, want = [], []
    for n, (els, g) in enumerate(d["docs"]):
        own, other = ({"@module": "pymatgen.entries.computed_entries", "@class": "ComputedStructureEntry", "energy": en, "composition": {x: 1.0 for x in els}, "entry_id": f"mp-{n}", "correction": 0.0, "energy_adjustments": [], "parameters": {}, "data": {}, "structure": STRUCT(els)} for en in (-2.0, -1.0))
        ents = {"GGA": {"GGA": own}, "GGA+U": {"GGA+U": own}, "both": {"GGA": other, "GGA+U": own}, "none": {}}[g]
        docs.append(dict(task_id=n, chemsys="-".join(sorted(els)), elements=sorted(els), entries=ents))
        if set(els) <= set(d["els"]) and g != "none":
            want.append((f"mp-{n}", -2.0))
    db.update(docs, key="task_id")
    got = get_all_entries_in_chemsys_from_entry_db(db, list(d["els"]) if d["aslist"] else "-".join(d["els"]))
    got = sorted((e.entry_id, e.energy) for e in got)
    ensure(got == sorted(want), "entries of %s: %s instead of %s", d["els"], got, sorted(want))
    rec.nontrivial(0 < len(want) < len(docs))
    rec.label("large" if len(d["els"]) > 13 else "small")


def STRUCT(els):
    return Structure(Lattice.cubic(5), els, [[i / len(els)] * 3 for i in range(len(els))]).as_dict()


# ---------------------------------------------------------------------- flow
@st.composite
def flow_case(draw):
    mp = draw(st.integers(0, 3)) == 0
    if mp:
        els = draw(gen.el_sets(2, 3))
        es = draw(E05.entries_(els, 2, 4, E05.tab_for(els)))
    else:
        els, es = draw(enums.entries(2, 3, nmin=2, nmax=4, interp=False, polymorphs=False))
    d = dict(es=es, op=draw(st.sampled_from([None] + els)), mus=draw(st.one_of(st.none(), st.lists(st.one_of(st.just(0.0), st.integers(-128, 0).map(lambda x: x / 64)), min_size=1, max_size=2, unique=True))), basic=draw(st.booleans()), mini=draw(st.booleans()),
             net=draw(st.integers(0, 99)), k=draw(st.sampled_from([1, 3, 5])), solver=draw(st.sampled_from([False, True, True])), n=draw(st.integers(1, 3)), inter=draw(st.booleans()), restrict=draw(st.booleans()), mp=mp, T=draw(st.sampled_from([300, 900, 1500])), inc=draw(st.booleans()), ct=draw(st.sampled_from([300, 1000, 1600])))
    if not d["basic"]:
        d["mini"] = True
    return d


def store():
    return JobStore(MemoryStore(), additional_stores={x: MemoryStore() for x in ("rxns", "entries", "network", "paths")})


def flow_fn(d, rec):
    comps = [gen._reduce(x["c"])[0] for x in d["es"]]
    pairs = gen.balanced_pairs(comps, 2, 2, 200)
    if not pairs:
        rec.label("no reaction")
        return
    a, b, k = pairs[d["net"] % len(pairs)]
    P, T = [canon(comps[i]) for i in a], [canon(comps[i]) for i in b]
    if len(set(P + T)) < len(P + T):
        rec.label("no net reaction")
        return
    gkw = {}
    if d["mp"]:
        raw = [E05.build(x) for x in d["es"]]
        cs = {e for i in a + b for e in comps[i]}
        if d["op"] and d["op"] not in cs:
            d = dict(d, op=None)
        extra = [canon(c) for c in comps if set(c) <= cs][:1] if d["inc"] else []
        gkw = dict(temperature=d["T"], e_above_hull=0.05, include_nist_data=False)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = process_entries([e for e in raw if {x.symbol for x in e.composition.elements} <= cs], formulas_to_include=extra + P + T, calculate_e_above_hulls=True, **gkw)
        FakeMPRester.entries, FakeMPRester.asked = raw, []
    else:
        s = GibbsEntrySet(gen.mk_entries(d["es"]))
    if enums.tied([enums.Phase(e) for e in s]):
        rec.label("ties")
        return
    op, mus = d["op"], d["mus"]
    bk = dict(targets=T, quiet=True) if d["restrict"] else dict(quiet=True)
    opts = dict(max_num_combos=d["n"], find_intermediate_rxns=d["inter"])
    cf = Softplus(d.get("ct", 300))
    mk = NetworkFlowMaker(
        get_entry_set_maker=GetEntrySetMaker(formulas_to_include=list(extra), **gkw) if d["mp"] else GetEntrySetMaker(),
        network_maker=NetworkMaker(name="net", cost_function=cf, precursors=P, targets=T, calculate_pathways=d["k"]),
        solver_maker=PathwaySolverMaker(name="sol", cost_function=cf, precursors=P, targets=T, **opts) if d["solver"] else None,
        open_elem=op, chempots=mus, use_basic_enumerators=d["basic"], use_minimize_enumerators=d["mini"], basic_enumerator_kwargs=bk, minimize_enumerator_kwargs=bk)
    kwbefore = json.dumps([bk, opts])
    flow = mk.make(iter(P) if d["inc"] else P, iter(T) if d["inc"] else T, entries=None if d["mp"] else s)
    names = [j.name for j in flow.jobs]
    grand = [x for x in mus or []] if op and d["mini"] else []
    ensure(len(names) == d["mp"] + (2 + d["solver"]) * (1 + len(grand)), "jobs: %s", names)
    # by hand
    els = [op] if op else []
    ens = []
    fakeray.S.reset([], cpus=2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if d["basic"]:
            ens.append(BasicEnumerator(**bk))
            if op:
                ens.append(BasicOpenEnumerator(open_phases=[canon({op: 1})], **bk))
        if d["mini"]:
            ens.append(MinimizeGibbsEnumerator(**bk))
        base = [r for e in ens for r in e.enumerate(s)]
        stages = [("base", None, base, base)]
        for mu in grand:
            g = list(MinimizeGrandPotentialEnumerator(open_elem=Element(op), mu=mu, **bk).enumerate(s))
            stages.append(("mu=%s" % mu, mu, g, base + g))
        if not all(x[3] for x in stages):
            rec.label("no reactions")
            return
        present = [{canon(e.composition.as_dict()) for r in x[3] for e in r.entries} for x in stages]
        if not all(set(P + T) <= p for p in present):
            rec.label("precursors or targets take part in no reaction")
            return
        fakeray.S.reset([], cpus=2)
        with Rester():
            out = run_locally(flow, store=store(), ensure_success=True, log=False, create_folders=False)
    docs = [out[j.uuid][1].output for j in flow.jobs]
    ensure(json.dumps([bk, opts]) == kwbefore, "settings were changed")
    full = True
    it = iter(docs)
    if d["mp"]:
        ed = next(it)
        g, w = Counter(map(brief, ed.entries)), Counter(map(brief, s))
        ensure(g == w, "entries missing %s, unexpected %s", list((w - g))[:2], list((g - w))[:2])
        ensure([x.split("-") for x in FakeMPRester.asked] == [sorted(cs)], "asked for the entries of %s instead of %s", FakeMPRester.asked, sorted(cs))
    for what, mu, rx, allr in stages:
        ed, nd = next(it), next(it)
        same_rxns(ed.rxns, rx, what + " enumeration")
        described(ed, s, set(bk.get("targets", [])), what)
        chem = {Element(op): mu} if mu is not None else None
        if chem:
            allr = [OpenComputedReaction(r.entries, r.coefficients, chem) for r in allr]
        same_rxns(nd.network.rxns, allr, what + " network")
        ensure((nd.k, nd.precursors, nd.targets) == (d["k"], P, T), "%s network: %s", what, (nd.k, nd.precursors, nd.targets))
        uniq = {}
        for r in allr:
            uniq.setdefault(rkey(r), r)
        rn = ReactionNetwork(ReactionSet.from_rxns(list(uniq.values())), cf)
        rn.build()
        rn.set_precursors(P)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = rn.find_pathways(T, k=d["k"])
        (n1, e1), (n2, e2) = graph(nd.network), graph(rn)
        ensure(n1 == n2 and e1 == e2, "%s network: edges missing %s, unexpected %s", what, list((e2 - e1))[:3], list((e1 - e2))[:3])
        same_paths(nd.paths, want, what, d["k"])
        if d["solver"]:
            sd = next(it)
            fakeray.S.reset([], cpus=2)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                nr = sd.net_rxn
                best = {canon(e.composition.as_dict()): e for e in sorted(s, key=lambda e: -e.energy_per_atom)}
                nes = [best[f] for f in P + T]
                wnr = OpenComputedReaction(nes, k, dict(chem)) if chem else ComputedReaction(nes, k)
                ensure(rkey(nr) == rkey(wnr) and close(nr.energy_per_atom, wnr.energy_per_atom, 1e-6, 1e-7), "%s: net reaction %s (%s) instead of %s (%s)", what, nr, nr.energy_per_atom, wnr, wnr.energy_per_atom)
                mine = PathwaySolver(nd.paths, rn.entries, cf, open_elem=Element(op) if chem else None, chempot=mu or 0.0)
                sol = mine.solve(nr, **opts)
            same_costs(sd.solver, mine, what)
            A, B = Counter(map(pathway_key, sd.balanced_paths)), Counter(map(pathway_key, sol))
            ensure(near(A, B), "%s: %s balanced pathways instead of %s; missing %s; unexpected %s", what, sum(A.values()), sum(B.values()), list((B - A))[:2], list((A - B))[:2])
            full = full and bool(B)
        full = full and len(list(want)) >= 1
    rec.nontrivial(full)
    rec.label(f"{len(stages)} stages" + (", downloaded" if d["mp"] else "") + (", solved" if d["solver"] else ""))


FACETS = [
    Facet("enumerate", enum_case, enum_fn, quick=300, thorough=6000, shards=8),
    Facet("added", added_case, added_fn, quick=500, thorough=5000, shards=2),
    Facet("network", net_case, net_fn, quick=1500, thorough=8000, shards=8),
    Facet("solver", solve_case, solve_fn, quick=500, thorough=5000, shards=8),
    Facet("entries", entry_case, entry_fn, quick=200, thorough=4000, shards=8),
    Facet("database", db_case, db_fn, quick=200, thorough=3000, shards=4),
    Facet("flow", flow_case, flow_fn, quick=120, thorough=2500, shards=8),
]
