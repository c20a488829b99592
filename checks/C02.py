"""C02: changing temperature recomputes exactly the energies of the same reactions."""
from hypothesis import strategies as st

from vp import fakeray

fakeray.install()

from pymatgen.core.composition import Element  # noqa: E402
from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.open import OpenComputedReaction  # noqa: E402
from rxn_network.reactions.reaction_set import ReactionSet  # noqa: E402
from vp import gen, rsets  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "C02"
RULE = ("Sets of uniquely balanced reactions (closed, or open in one element) over Gibbs entries with random cells, volumes, energies and several "
        "entries per formula, some replaced by tabulated NIST references; random sequences of temperatures, round values as int or float and "
        "in-between values. The oracle builds every entry from scratch at each temperature. Non-trivial: at least two reactions and either two "
        "entries of one formula in use, or two temperature changes.")

NIST = [{"C": 1, "O": 2}, {"Li": 2, "O": 1}, {"Na": 1, "Cl": 1}, {"Si": 1, "O": 2}, {"Fe": 2, "O": 3}, {"O": 2}, {"Ti": 1, "O": 2}]
TEMPS = st.one_of(st.sampled_from([300, 400, 1000, 1500, 1000.0, 600.0, 700]), st.integers(300, 1500), st.integers(1200, 4000).map(lambda i: i / 4))


@st.composite
def case(draw):
    d = draw(rsets.rset(pool=["Li", "Na", "Fe", "Ti", "C", "Si", "O", "Cl"], max_rxns=6, temps=(300, 600, 900)))
    for x in d["entries"]:
        if x["c"] in NIST and draw(st.booleans()) and x["T"] <= 1000:
            x["kind"], x["m"] = "nist", 1
    d["temps"] = draw(st.lists(TEMPS, min_size=1, max_size=3, unique=True))
    d["open"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 3), st.sampled_from([0.0, -0.75, -2.5])).map(list)))
    return d


def fn(d, rec):
    picks = rsets.plain_rxns(d)
    if not picks:
        rec.label("no reactions")
        return
    comps = rsets.comps_of(d["entries"])
    T0 = d["entries"][0]["T"]
    base = gen.mk_entries(d["entries"])

    def at(T):
        return gen.mk_entries([dict(x, T=T) for x in d["entries"]])

    els = sorted({e for c in comps for e in c})
    opens = None
    if d["open"] and len(els) > 1:
        opens = {els[d["open"][0] % len(els)]: d["open"][1]}
        if any({e for i in idx for e in comps[i]} <= set(opens) for idx, _, _ in picks):
            opens = None
    cp = {Element(k): v for k, v in (opens or {}).items()}
    rxns = [OpenComputedReaction([base[i] for i in idx], k, cp, data=dt) if opens else ComputedReaction([base[i] for i in idx], k, data=dt) for idx, k, dt in picks]
    if len({e.unique_id for e in base}) < len(base):
        rec.label("same table entry twice")
        return
    used = {i for idx, _, _ in picks for i in idx}
    poly = len({tuple(sorted(comps[i].items())) for i in used}) < len(used)
    rec.nontrivial(len(rxns) >= 2 and (poly or len(d["temps"]) > 1))
    rec.label("polymorphs" if poly else "one entry per formula")
    rec.label("open" if opens else "closed")
    if any(d["entries"][i]["kind"] == "nist" for i in used):
        rec.label("tabulated entries")

    def key(idx, k, T, ents):
        return (tuple(sorted((ents[i].entry_id.split("_")[0], tuple(sorted(comps[i].items())), round(x, 6)) for i, x in zip(idx, k))), T)

    def want(T):
        es = at(T)
        return sorted([(key(idx, k, T, es), repr(sorted(dt.items())), rsets.formula_energy(es, idx, k, comps, opens)) for idx, k, dt in picks])

    def got(rs, T):
        out = []
        for r in rs:
            kk = tuple(sorted((e.entry_id.split("_")[0], tuple(sorted(gen._reduce(dict((str(a), b) for a, b in e.composition.items()))[0].items())), round(float(x), 6))
                              for e, x in zip(r.entries, r.coefficients)))
            ensure(all(not hasattr(e, "temperature") or close(e.temperature, T) for e in r.entries), "an entry at %s K in a reaction moved to %s K", [e.temperature for e in r.entries], T)
            ensure(dict(getattr(r, "chempots", {})) == cp, "chemical potentials became %s", getattr(r, "chempots", {}))
            out.append(((kk, T), repr(sorted(r.data.items())), float(r.energy)))
        return sorted(out)

    def compare(rs, T, what):
        a, b = want(T), got(rs, T)
        ensure([x[0] for x in a] == [x[0] for x in b], "%s: reactions at %s K are not the same reactions: %s vs %s", what, T, b, a)
        for x, y in zip(a, b):  # sorted alike
            ensure(x[1] == y[1] and close(x[2], y[2], 1e-6, 1e-6), "%s at %s K: energy/data %s, expected %s", what, T, y, x)

    # single reactions
    for (idx, k, dt), r in zip(picks[:3], rxns):
        for T in d["temps"]:
            n = r.get_new_temperature(T)
            es = at(T)
            ensure(type(n) is type(r), "class changed")
            ensure(close(n.energy, rsets.formula_energy(es, idx, k, comps, opens), 1e-6, 1e-6), "energy at %s K %s, expected %s for %s", T, n.energy, rsets.formula_energy(es, idx, k, comps, opens), r)
            ensure([float(x) for x in n.coefficients] == [float(x) for x in r.coefficients] and list(n.compositions) == list(r.compositions) and n.data == r.data, "phases or data changed")
            m = {e.composition: e for e in es}
            if len({e.composition for e in r.entries}) == len(r.entries) and all(m[e.composition].entry_id.split("_")[0] == e.entry_id.split("_")[0] for e in r.entries):
                p = r.get_new_temperature(T, {e.composition: e.get_new_temperature(T) for e in r.entries})
                ensure(close(p.energy, n.energy), "with precomputed entries: %s, without: %s", p.energy, n.energy)
        ensure(close(r.energy, rsets.formula_energy(base, idx, k, comps, opens)), "original changed")
    rs = ReactionSet.from_rxns(rxns)
    compare(rs, T0, "set")
    cur = rs
    for T in d["temps"]:
        nxt = cur.set_new_temperature(T)
        compare(nxt, T, "set_new_temperature")
        ensure(len(nxt) == len(rs), "length changed")
        cur = nxt
    compare(cur.set_new_temperature(T0), T0, "moved back")
    many = rs.compute_at_temperatures(list(d["temps"]))
    ensure(list(many) == list(d["temps"]), "temperatures %s", list(many))
    for T in d["temps"]:
        compare(many[T], T, "compute_at_temperatures")
    compare(rs, T0, "original set afterwards")


FACETS = [Facet("temperature", case, fn, quick=560, thorough=16000, shards=8)]
