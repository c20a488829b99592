"""R01: requests that have no answer are refused, and a refused request leaves everything as it was."""
from vp import fakeray

fakeray.install()
import json  # noqa: E402
import warnings  # noqa: E402

from hypothesis import strategies as st  # noqa: E402
from monty.json import MontyEncoder  # noqa: E402
from pymatgen.core import Element  # noqa: E402
from pymatgen.entries.computed_entries import ComputedEntry  # noqa: E402
from rxn_network.core import Composition  # noqa: E402
from rxn_network.costs.functions import Softplus  # noqa: E402
from rxn_network.entries.entry_set import GibbsEntrySet  # noqa: E402
from rxn_network.jobs.core import CalculateCompetitionMaker, PathwaySolverMaker  # noqa: E402
from rxn_network.pathways.basic import BasicPathway  # noqa: E402
from rxn_network.pathways.pathway_set import PathwaySet  # noqa: E402
from rxn_network.pathways.solver import PathwaySolver  # noqa: E402
from rxn_network.reactions.basic import BasicReaction  # noqa: E402
from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.hull import InterfaceReactionHull  # noqa: E402
from rxn_network.reactions.open import OpenComputedReaction  # noqa: E402
from rxn_network.reactions.reaction_set import ReactionSet  # noqa: E402
from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram  # noqa: E402
from checks import H01  # noqa: E402
from vp import enums, gen, ifc, net, rsets  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402

PROPERTY = "R01"
RULE = ("Requests on either side of what can be answered: fractions and energies of balanced, slightly and badly unbalanced reactions of each class; temperatures for entries that have one, or none; networks asked in any order (before building, before choosing "
        "precursors, for phases they lack); diagrams of any subset of entries; reaction sets over equal or different entries; interfaces between other phases; jobs for targets nothing makes, "
        "three precursors or impossible net reactions. Answerable requests must be accepted. Non-trivial: the case contains a request that must be refused and one that must not.")


def dump(*objs):
    return json.dumps([o.as_dict() for o in objs], cls=MontyEncoder, sort_keys=True, default=str)


class Judge:
    """Counts refusals and acceptances; `state` describes what a refused request must not change."""

    def __init__(self, rec):
        self.rec, self.yes, self.no = rec, 0, 0

    def __call__(self, ok, what, f, state=None):
        """ok: True, False, or None (either)"""
        before = state() if state else None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = f()
        except Exception as e:  # noqa: BLE001
            ensure(ok is not True, "%s was refused: %s: %s", what, type(e).__name__, e)
            ensure(str(e) or ok is None, "%s was refused without a word (%s)", what, type(e).__name__)
            self.no += ok is False
            out = None
        else:
            ensure(ok is not False, "%s was answered with %s", what, out)
            self.yes += ok is True
        if state:
            ensure(state() == before, "%s was %s and left something changed", what, "refused" if out is None else "answered")
        return out

    def done(self):
        self.rec.nontrivial(self.yes and self.no)
        self.rec.label("refused", self.no)
        self.rec.label("answered", self.yes)


# ---------------------------------------------------------------- reactions
@st.composite
def rxn_case(draw):
    d = draw(gen.rxn_data(max_els=4))
    d["es"] = draw(st.lists(gen.entry_params(), min_size=1, max_size=4))
    d["cls"] = draw(st.sampled_from(["basic", "computed", "open"]))
    d["kinds"] = draw(st.lists(st.sampled_from(["gibbs", "gibbs", "gibbs", "plain"]), min_size=6, max_size=6))
    d["off"] = draw(st.sampled_from([0.0, 0.0, 0.02, 0.5, -0.3, 3.0]))
    d["at"] = draw(st.integers(0, 9))
    d["T"] = draw(st.sampled_from([300, 650, 2000, 299, 2001, -5, 0, 5000]))
    return d


def rxn_fn(d, rec):
    J = Judge(rec)
    ks = list(d["k"])
    i = d["at"] % len(ks)
    ks[i] *= 1 + d["off"]
    comps = [Composition(c) for c in d["c"]]
    els = sorted({e for c in d["c"] for e in c})
    res = {e: sum(k * c.get(e, 0) for c, k in zip(d["c"], ks)) for e in els}
    balanced = max(abs(v) for v in res.values()) < 1e-6
    ensure(balanced == (not d["off"]), "HARNESS")
    if 0 < max(abs(v) for v in res.values()) / max(abs(k) for k in ks) < 0.01:
        rec.label("hardly unbalanced")
        return
    kinds = [d["kinds"][j % 6] for j in range(len(comps))]
    es = gen.rxn_entries(d, d["es"])
    ents = gen.mk_entries([dict(e, kind=k) for e, k in zip(es, kinds)])
    if d["cls"] == "basic":
        r = BasicReaction(comps, ks)
    elif d["cls"] == "computed" or len(els) == 1:
        r = ComputedReaction(ents, ks)
    else:
        r = OpenComputedReaction(ents, ks, {Element(els[d["at"] % len(els)]): -1.0})
    basic = type(r) is BasicReaction
    ensure(bool(r.balanced) == balanced, "balanced: %s for %s", r.balanced, r)
    before = dump(r)
    for a in ("reactant_atomic_fractions", "product_atomic_fractions", "reactant_molar_fractions", "product_molar_fractions"):
        J(balanced if not isinstance(r, OpenComputedReaction) or not balanced else None, f"{a} of {r}", lambda: getattr(r, a))
    for a in ("energy", "energy_per_atom"):
        J(False if basic else None if not balanced else True, f"{a} of {r} ({type(r).__name__})", lambda: getattr(r, a))
    if not basic:
        ok = "plain" not in kinds and 300 <= d["T"] <= 2000
        J(None if ok is False and "plain" not in kinds and all(len(c) == 1 for c in d["c"]) else ok, f"{r} of {kinds} at {d['T']} K", lambda: r.get_new_temperature(d["T"]))
    there = comps[i]
    J(None if isinstance(r, OpenComputedReaction) or ks[i] < 0 else True, f"separability of {there}", lambda: r.is_separable(there))
    J(False, "separability of a foreign phase", lambda: r.is_separable("Og7Ts3"))
    ensure(dump(r) == before, "the reaction was changed")
    J.done()
    rec.label(d["cls"])


# ------------------------------------------------------------------ networks
@st.composite
def net_case(draw):
    d = draw(net.network(max_rxns=10))
    op = st.tuples(st.sampled_from(["build", "pre", "pre", "target", "find", "find", "bad pre", "bad target", "bad find", "unknown"]), st.lists(st.integers(0, 30), min_size=1, max_size=3), st.booleans()).map(list)
    d["ops"] = draw(st.lists(op, max_size=2)) + [["build", [0], False]] + draw(st.lists(op, min_size=2, max_size=7))
    return d


def net_fn(d, rec):
    m = net.Model(d)
    if not m.rxns or m.indistinct:
        rec.label("indistinguishable or no reactions")
        return
    J = Judge(rec)
    rn = m.network()
    built, P, T = False, None, None
    form = lambda i: m.entries[i].composition.reduced_formula
    known = {form(i) for i in m.used}
    for n, (op, x, byf) in enumerate(d["ops"]):
        when = f"step {n} ({op} {x}, {'built' if built else 'not built'}, precursors {P})"
        ix = [m.used[i % len(m.used)] for i in x]
        if byf:
            ix = [m.min_of(form(i)) for i in ix]
        name = lambda i: form(i) if byf else m.entries[i]
        absent = [i for i in range(len(m.entries)) if i not in m.used and (not byf or form(i) not in known)]
        bad = name(absent[x[0] % len(absent)]) if absent and op != "unknown" else ("Og7Ts3" if x[0] % 2 else "Ts")
        if op == "build":
            J(True, when, rn.build)
            built, P, T = True, None, None
        elif op == "pre":
            J(built, when, lambda: rn.set_precursors([name(i) for i in ix]))
            P = set(ix) if built else P
        elif op == "target":
            J(built, when, lambda: rn.set_target(name(ix[0])))
            T = ix[0] if built else T
        elif op == "find":
            J(P is not None, when, lambda: rn.find_pathways([name(i) for i in ix], k=2))
            T = ix[-1] if P is not None else T
        elif op == "bad pre":
            J(False, f"{when}: {bad}", lambda: rn.set_precursors([name(ix[0]), bad] if byf or x[0] % 3 else [bad]))
        elif op == "bad target":
            J(False, f"{when}: {bad}", lambda: rn.set_target(bad))
        elif op == "bad find":
            J(False, f"{when}: {bad}", lambda: rn.find_pathways([bad], k=2))
        else:
            J(False, f"{when}: {bad}", lambda: (rn.set_precursors([bad]) if x[0] % 2 else rn.set_target(bad)))
        if built:
            m.check_graph(rn, P, T, when)
        ensure((rn.precursors is None) == (P is None) and (P is None or set(rn.precursors) == {m.entries[i] for i in P}), "%s: precursors are %s", when, rn.precursors)
        ensure((rn.target is None) == (T is None) and (T is None or rn.target == m.entries[T]), "%s: target is %s", when, rn.target)
    J.done()


# -------------------------------------------------------------- entries, sets
@st.composite
def set_case(draw):
    d = draw(rsets.rset(max_rxns=6, min_rxns=2, data=False, lo=2, hi=5, extra_data=False))
    d["part"] = draw(st.lists(st.booleans(), min_size=8, max_size=8))
    d["drop"] = draw(st.lists(st.booleans(), min_size=10, max_size=10))
    d["cells"] = draw(st.sampled_from(["same", "fewer", "energy", "swap", "copies"]))
    d["shift"] = draw(st.integers(0, 9))
    return d


def set_fn(d, rec):
    J = Judge(rec)
    ents = gen.mk_entries(d["entries"])
    s = GibbsEntrySet(ents)
    els = sorted({e for x in d["entries"] for e in x["c"]})
    forms = {e.composition.reduced_formula for e in ents}
    # parts of a set of entries
    part = [e for e, k in zip(els, d["part"]) if k] or els[:1]
    foreign = "Og" if d["shift"] % 2 else "Pu"
    J(True, f"entries in {part}", lambda: s.get_subset_in_chemsys("-".join(part) if d["shift"] % 3 else part))
    J(False, f"entries in {part} and {foreign}", lambda: s.get_subset_in_chemsys([*part, foreign] if d["shift"] % 3 else "-".join([*part, foreign])))
    f = sorted(forms)[d["shift"] % len(forms)]
    J(True, f"{f} of {forms}", lambda: s.get_min_entry_by_formula(f))
    J(False, f"{foreign}2O7 of {forms}", lambda: s.get_min_entry_by_formula(f"{foreign}2O7"))
    J(False, f"interpolating {foreign}{f}", lambda: s.get_interpolated_entry(f"{foreign}{f}"))
    # diagrams
    kept = [e for e, k in zip(ents, d["drop"]) if not k] if any(d["drop"][:3]) else ents
    if kept:
        E = {x.symbol for e in kept for x in e.composition.elements}
        have = {e.composition.elements[0].symbol for e in kept if len(e.composition) == 1}
        J(len(E) >= 2 and have == E, f"a diagram of {[e.composition.reduced_formula for e in kept]}", lambda: ChemicalPotentialDiagram(entries=list(kept)))
    # reaction sets
    picks = rsets.plain_rxns(d)
    if len(picks) >= 2:
        rx = [ComputedReaction([ents[i] for i in idx], k) for idx, k, _ in picks]
        h = 1 + d["shift"] % (len(rx) - 1)
        A = ReactionSet.from_rxns(rx[:h], entries=s)
        other = dict(d["entries"][0], e=d["entries"][0]["e"] - 0.25, id="mp-else")
        ds = d["entries"] + ([other] if d["cells"] == "energy" else [])
        used = {i for idx, _, _ in picks[h:] for i in idx}
        if d["cells"] == "fewer":
            ds = [x for i, x in enumerate(ds) if i in used]
        if d["cells"] == "swap":
            ds = [other, *ds[1:]]
        ents2 = ents if d["cells"] in ("same", "fewer") else gen.mk_entries(ds)
        if d["cells"] == "fewer":
            ents2 = [e for i, e in enumerate(ents) if i in used]
        s2 = s if d["cells"] == "same" else GibbsEntrySet(ents2)
        lookup = {(e.composition, e.energy, e.entry_id): e for e in s2}
        mine = ents if d["cells"] == "fewer" else ents2
        rx2 = [ComputedReaction([lookup.get((mine[i].composition, mine[i].energy, mine[i].entry_id), mine[i]) for i in idx], k) for idx, k, _ in picks[h:]]
        B = ReactionSet.from_rxns(rx2, entries=s2)
        same = d["cells"] in ("same", "copies") or (d["cells"] == "fewer" and len(used) == len(ents))
        distinct = len({(e.composition, e.energy) for e in ents}) == len(ents)
        state = lambda: dump(A, B)
        for what, fn_ in (("A.add_rxn_set(B)", lambda: A.add_rxn_set(B)), ("B.add_rxn_set(A)", lambda: B.add_rxn_set(A))):
            J(same if distinct else None, f"{what} with {len(s)} and {len(s2)} entries ({d['cells']})", fn_, state)
        fakeray.S.reset([], cpus=2)
        lone = [r for r in rx[h:] if not any(r == q for q in rx[:h])]
        J(True, "removing duplicates around a reaction of the set", lambda: A.filter_duplicates(ensure_rxns=[next(iter(A.get_rxns()))], parallelize=False), state)
        for r in lone[:1]:
            J(False, f"removing duplicates around {r}, which is not in the set", lambda: A.filter_duplicates(ensure_rxns=[r], parallelize=False), state)
    J.done()
    rec.label(d["cells"])


# ----------------------------------------------------------------- interfaces
def hull_fn(d, rec):
    pts, h = H01.prepare(d)
    if pts is None or H01.fragile(pts, h):
        rec.label("unbuildable or fragile")
        return
    J = Judge(rec)
    rxns, irh, order = H01.build(d)
    c = [gen._reduce(x["c"])[0] for x in d["e"]]
    C = [Composition(x) for x in c]
    at0, at1 = [any(i in idx[:2] and i == q and k[idx.index(i)] < 0 for idx, k in d["rx"] for i in idx) for q in (0, 1)]
    others = [i for i in range(2, len(c)) if c[i] not in c[:2]]
    J(True, "the interface", lambda: InterfaceReactionHull(C[0], C[1], rxns))
    for i in others[:2]:
        J(False, f"an interface between {C[0]} and {C[i]}, which does not react", lambda: InterfaceReactionHull(C[0], C[i], list(rxns)))
        J(False, f"an interface between {C[i]} and {C[1]}, which does not react", lambda: InterfaceReactionHull(C[i], C[1], list(rxns)))
    J(False, "an interface of no reactions", lambda: InterfaceReactionHull(C[0], C[1], []))
    known = rxns[d["seed"] % len(rxns)]
    ents = gen.mk_entries(d["e"])
    if others:
        e = ents[others[0]]
        new = ComputedReaction.balance([e], [e])
        last = max(range(len(known.coefficients)), key=lambda q: known.coefficients[q])
        es = list(known.entries)
        es[last] = ComputedEntry(es[last].composition, es[last].energy - 9.0 * es[last].composition.num_atoms, entry_id="x")
        foreign = ComputedReaction(es, known.coefficients)
        state = lambda: (irh.coords.tolist(), [str(r) for r in irh.reactions])
        for a in ("get_energy_above_hull", "get_coordinate", "get_primary_competition", "get_secondary_competition"):
            J(True, f"{a} of {known}", lambda: getattr(irh, a)(known), state)
        J(False, f"coordinate of {new}", lambda: irh.get_coordinate(new), state)
        J(False, f"energy above the hull of {foreign}", lambda: irh.get_energy_above_hull(foreign), state)
    J.done()


# ----------------------------------------------------------------------- jobs
@st.composite
def job_case(draw):
    d = draw(net.network(lo=3, hi=5, max_rxns=8, min_rxns=2))
    d["open"] = None
    d["net"] = [draw(st.lists(st.integers(0, 30), min_size=1, max_size=3)) for _ in "ab"]
    d["target"] = draw(st.integers(0, 30))
    d["how"] = draw(st.sampled_from(["product", "any", "any", "foreign"]))
    d["three"] = draw(st.booleans())
    d["cpus"] = draw(st.integers(1, 4))
    return d


def job_fn(d, rec):
    m = net.Model(d)
    if not m.rxns or m.indistinct:
        rec.label("indistinguishable or no reactions")
        return
    J = Judge(rec)
    comps = [gen._reduce(x["c"])[0] for x in d["es"]]
    form = [enums.rf(c) for c in comps]
    s = GibbsEntrySet(m.entries)
    rs = ReactionSet.from_rxns(m.objs, entries=s, filter_duplicates=False)
    # competition
    prods = {form[i] for x in m.rxns for i in x[1]}
    t = {"product": sorted(prods)[d["target"] % len(prods)], "any": form[d["target"] % len(form)], "foreign": None}[d["how"]]
    if t is None:
        t = enums.rf({e: 7 + i for i, e in enumerate(sorted({e for c in comps for e in c}))})
    twice = any({form[i] for i in x[0]} & {form[i] for i in x[1]} for x in m.rxns)
    els = {e for c in comps for e in c}
    mk = CalculateCompetitionMaker(chunk_size=1 + d["target"] % 3, calculate_competition=False, calculate_chempot_distances=False)
    fakeray.S.reset([], cpus=d["cpus"])
    state = lambda: dump(rs)
    J(t in prods if not twice else False if t not in prods else None, f"reactions to {t} among {[str(r) for r in m.objs]}", lambda: mk.make.original(mk, [rs], s, t), state)
    # net reactions
    a, b = [sorted({form[i % len(form)] for i in x}) for x in d["net"]]
    b = [f for f in b if f not in a]
    if b:
        red = {form[i]: comps[i] for i in range(len(comps))}
        v, dim = gen.exact_balance([red[f] for f in a], [red[f] for f in b])
        ok = True if v is not None else False if dim == 0 else None  # phases may change sides, or drop out
        J(ok, f"pathways from {a} to {b}", lambda: PathwaySolverMaker(precursors=list(a), targets=list(b)))
        best = {f: min((e for e, g in zip(m.entries, form) if g == f), key=lambda e: e.energy_per_atom) for f in a + b}
        es = [best[f] for f in a + b]
        k = [float(x) for x in v] if v is not None else [-1.0] * len(a) + [1.0] * len(b)
        tot = {e: sum(x * red[f].get(e, 0) for f, x in zip(a + b, k)) for e in els}
        nr = ComputedReaction(es, k)
        ps = PathwaySet.from_paths([BasicPathway(m.objs, [m.cf.evaluate(r) for r in m.objs])])
        bal = max(abs(x) for x in tot.values()) < 1e-9
        if bal or max(abs(x) for x in tot.values()) > 0.02 * max(map(abs, k)):
            solver = PathwaySolver(ps, s, m.cf)
            fakeray.S.reset([], cpus=d["cpus"])
            J(bal, f"solving for {nr}", lambda: solver.solve(nr, max_num_combos=2, find_intermediate_rxns=False), lambda: [str(r) for r in solver.reactions])
    J.done()


# --------------------------------------------------------- three precursors
@st.composite
def three_case(draw):
    els = draw(gen.el_sets(3, 3, pool=["Li", "Fe", "Y", "Mn", "Ba", "O", "O", "N"]))
    amt = [draw(st.integers(1, 3)) for _ in els]
    return dict(els=els, amt=amt, e=draw(st.integers(-400, -100)) / 128, open=draw(st.sampled_from([None, *els])), prior=draw(st.booleans()), cpus=draw(st.integers(1, 4)), chunk=draw(st.sampled_from([1, 2, 100])))


def three_fn(d, rec):
    J = Judge(rec)
    els = d["els"]
    cs = [gen._reduce(c)[0] for c in [*({e: 1} for e in els), dict(zip(els, d["amt"])), {els[0]: 1, els[1]: 1}, {els[1]: 1, els[2]: 1}]]
    es = gen.mk_entries([dict(kind="gibbs", c=c, m=1, e=0.0 if len(c) == 1 else d["e"] if len(c) == 3 else -0.25, v=12.0, T=300, id=f"mp-{i}") for i, c in enumerate(cs)])
    s = GibbsEntrySet(es)
    ix = {"three": [0, 1, 2, 3], "a": [0, 5, 3], "b": [2, 4, 3]}
    rx = {}
    for n, i in ix.items():
        v, _ = gen.exact_balance([cs[q] for q in i[:-1]], [cs[3]])
        if v is not None:
            rx[n] = ComputedReaction([es[q] for q in i], [float(x) for x in v])
    target = enums.rf(cs[3])
    for names in (["three"], [n for n in rx if n != "three"], list(rx)):
        mine = [rx[n] for n in names if n in rx]
        if not mine:
            continue
        rs = ReactionSet.from_rxns(mine, entries=s)
        mk = CalculateCompetitionMaker(open_elem=Element(d["open"]) if d["open"] else None, chempot=-0.5 if d["open"] else 0.0, chunk_size=d["chunk"], calculate_chempot_distances=False)
        fakeray.S.reset([], cpus=d["cpus"])
        ok = "three" not in names or bool(d["open"])
        J(None if ok and d["open"] else ok, f"competition of {names} with {d['open']} available", lambda: mk.make.original(mk, [rs], s, target), lambda: dump(rs))
    J.done()


FACETS = [Facet("reactions", rxn_case, rxn_fn, quick=1500, thorough=20000, shards=4), Facet("networks", net_case, net_fn, quick=1000, thorough=10000, shards=6),
          Facet("sets", set_case, set_fn, quick=1200, thorough=10000, shards=6), Facet("interfaces", ifc.interface(), hull_fn, quick=500, thorough=6000, shards=3),
          Facet("jobs", job_case, job_fn, quick=700, thorough=8000, shards=6),
          Facet("precursors", three_case, three_fn, quick=240, thorough=2000, shards=4)]
