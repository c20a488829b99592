"""S01: a reaction set stores and returns exactly the reactions put into it."""
import json

from hypothesis import strategies as st

from vp import fakeray

fakeray.install()

from monty.json import MontyDecoder, MontyEncoder  # noqa: E402
from pymatgen.core.composition import Element  # noqa: E402
from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.open import OpenComputedReaction  # noqa: E402
from rxn_network.reactions.reaction_set import ReactionSet  # noqa: E402
from vp import gen, rsets  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402

PROPERTY = "S01"
RULE = ("Collections of 0-8 reactions of 2-4 phases over shared entries (Gibbs, interpolated or plain, with and without ids, several per formula), "
        "closed or open at one chemical potential, with per-reaction data; histories of up to six operations (add reactions, merge sets, set or clear "
        "the chemical potential, change temperature, dictionary and JSON round trips, direct construction without data) against a list model. "
        "Non-trivial: reactions of two sizes or two entries of a formula, and at least two operations.")

OPS = ["add", "merge", "chempot", "unset", "json", "dict", "nodata", "temp"]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["gibbs", "gibbs", "interp", "plain"]))
    d = draw(rsets.rset(min_rxns=draw(st.sampled_from([2, 4, 0])), kinds=(kind,), temps=(300, 800)))
    d["ids"] = kind != "plain" or draw(st.booleans())
    d["open"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 3), st.sampled_from([0.0, -0.75, 0.5])).map(list)))
    d["explicit"] = draw(st.booleans())
    d["give_entries"] = draw(st.booleans())
    d["ops"] = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 7), st.sampled_from([0.0, -0.75, -1.5])).map(list), max_size=6))
    return d


def fn(d, rec):
    picks = rsets.plain_rxns(d)
    comps = rsets.comps_of(d["entries"])
    ents = gen.mk_entries([dict(x, id=x["id"] if d["ids"] else None) for x in d["entries"]])
    T = d["entries"][0]["T"]
    if len({(e.composition.reduced_formula, round(e.energy_per_atom, 4)) for e in ents}) < len(ents) and not d["ids"]:
        rec.label("indistinguishable entries")
        return
    els = sorted({e for c in comps for e in c})
    opens = {els[d["open"][0] % len(els)]: d["open"][1]} if d["open"] and picks else {}
    cp = {Element(k): v for k, v in opens.items()}

    def mk(p, cp_):
        idx, k, dt = p
        return OpenComputedReaction([ents[i] for i in idx], k, dict(cp_), data=dt) if cp_ else ComputedReaction([ents[i] for i in idx], k, data=dt)

    rxns = [mk(p, cp) for p in picks]
    used = {i for idx, _, _ in picks for i in idx}
    poly = len({tuple(sorted(comps[i].items())) for i in used}) < len(used)
    rec.nontrivial((poly or len({len(p[0]) for p in picks}) > 1) and len(d["ops"]) >= 2)
    if poly:
        rec.label("polymorphs")
    if opens:
        rec.label("open")

    def check(rs, model, open_, what):
        """model: list of picks; open_: {el: mu} or {}."""
        want = []
        for idx, k, dt in model:
            want.append((tuple(idx), tuple(round(x, 9) for x in k), repr(sorted(dt.items())), rsets.formula_energy(ents, idx, k, comps, open_)))
        got = []
        for r in rs.get_rxns():
            idx = []
            for e in r.entries:
                m = [i for i, x in enumerate(ents) if x.composition == e.composition and gen.close(x.energy, e.energy, 1e-9) and x.entry_id == e.entry_id]
                ensure(len(m) >= 1, "%s: unknown entry %s", what, e)
                idx.append(m[0])
            ensure({str(a): b for a, b in getattr(r, "chempots", {}).items()} == open_, "%s: chemical potentials %s, expected %s", what, getattr(r, "chempots", {}), open_)
            got.append((tuple(idx), tuple(round(float(x), 9) for x in r.coefficients), repr(sorted(r.data.items())), float(r.energy)))
            ensure(r.balanced, "%s: reaction no longer balanced", what)
        ensure(sorted(x[:3] for x in want) == sorted(x[:3] for x in got), "%s: holds %s, expected %s", what, sorted(got), sorted(want))
        for a, b in zip(sorted(want), sorted(got)):
            ensure(gen.close(a[3], b[3], 1e-6, 1e-6), "%s: energy %s, expected %s", what, b, a)
        ensure(len(rs) == len(model), "%s: length %s, expected %s", what, len(rs), len(model))
        ensure(len(list(rs)) == len(model), "%s: iteration", what)

    kw = dict(open_elem=next(iter(cp)), chempot=next(iter(cp.values()))) if cp and d["explicit"] else {}
    give = list(ents) if d["give_entries"] else None
    cur = ReactionSet.from_rxns(rxns, entries=give, **kw)
    model, open_ = list(picks), dict(opens)
    if not picks:
        rec.label("empty set")
    check(cur, model, open_, "new set")
    hist = [(cur, model, open_, "initial set")]
    for op, n, mu in d["ops"]:
        if op == "add" and picks:
            new = picks[n % len(picks):][:3]
            if d["give_entries"] or {i for p in new for i in p[0]} <= used:
                nxt, m2, o2 = cur.add_rxns([mk(p, {Element(k): v for k, v in open_.items()}) for p in new]), model + new, open_
        elif op == "merge" and picks:
            new = picks[: n % len(picks)]
            other = ReactionSet.from_rxns([mk(p, {Element(k): v for k, v in open_.items()}) for p in new], entries=cur.entries,
                                          **(dict(open_elem=next(iter(open_)), chempot=next(iter(open_.values()))) if open_ else {}))
            nxt, m2, o2 = cur.add_rxn_set(other), model + new, open_
            check(other, new, open_, "merged set")
        elif op == "chempot" and picks:
            el = els[n % len(els)]
            nxt, m2, o2 = cur.set_chempot(Element(el) if n % 2 else el, mu), model, {el: mu}
        elif op == "unset":
            nxt, m2, o2 = cur.set_chempot(None, None), model, {}
        elif op == "json":
            nxt, m2, o2 = json.loads(json.dumps(cur, cls=MontyEncoder), cls=MontyDecoder), model, open_
            ensure(isinstance(nxt, ReactionSet), "JSON round trip gave a %s", type(nxt))
        elif op == "dict":
            nxt, m2, o2 = ReactionSet.from_dict(cur.as_dict()), model, open_
        elif op == "nodata":
            nxt = ReactionSet(cur.entries, cur.indices, cur.coeffs, cur.open_elem, cur.chempot)
            m2, o2 = [(i, k, {}) for i, k, _ in model], open_
        elif op == "temp" and all(x["kind"] == "gibbs" for x in d["entries"]) and d["ids"]:
            nxt, m2, o2 = cur.set_new_temperature(T + 100).set_new_temperature(T), model, open_
        else:
            continue
        rec.label(op)
        check(nxt, m2, o2, f"after {op}")
        check(cur, model, open_, f"set before {op}")
        hist.append((nxt, m2, o2, f"history set {len(hist)}"))
        cur, model, open_ = nxt, m2, o2
    for h in hist:
        check(*h)


FACETS = [Facet("history", case, fn, quick=1000, thorough=24000, shards=8)]
