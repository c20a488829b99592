"""S03: queries by reactants and product return exactly the matching reactions."""
from hypothesis import strategies as st

from vp import fakeray

fakeray.install()

from pymatgen.core.composition import Element  # noqa: E402
from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.reaction_set import ReactionSet  # noqa: E402
from vp import gen, rsets  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402

PROPERTY = "S03"
RULE = ("Reaction sets over entries with several entries per formula; queries by formulas of present entries (reduced or as multiples), of entries "
        "without reactions and of absent phases, in list and set form, closed or open. Oracle: plain comparison of reduced compositions. "
        "Non-trivial: some but not all reactions match.")


@st.composite
def case(draw):
    d = draw(rsets.rset(max_rxns=12, min_rxns=2, data=False))
    d["q"] = draw(st.lists(st.tuples(st.integers(0, 20), st.integers(1, 3)).map(list), min_size=1, max_size=5))
    d["mu"] = draw(st.sampled_from([None, None, -1.0, 0.0]))
    return d


def fn(d, rec):
    picks = rsets.plain_rxns(d)
    if not picks:
        rec.label("no reactions")
        return
    comps = rsets.comps_of(d["entries"])
    ents = gen.mk_entries(d["entries"])
    rxns = [ComputedReaction([ents[i] for i in idx], k, data={"n": n}) for n, (idx, k, _) in enumerate(picks)]
    els = sorted({e for c in comps for e in c})
    rs = ReactionSet.from_rxns(rxns, entries=ents if d["q"][0][0] % 2 else None)
    if d["mu"] is not None:
        rs = rs.set_chempot(els[0], d["mu"])

    def formula(i, m):
        return gen.mk_comp({e: a * m for e, a in comps[i].items()}).formula.replace(" ", "")

    def ask(what, f, **kw):
        got = []
        for r in f():
            ensure(dict(getattr(r, "chempots", {})) == ({Element(els[0]): d["mu"]} if d["mu"] is not None else {}), "chemical potential lost in query")
            n = r.data["n"]
            ensure([e.entry_id for e in r.entries] == [ents[i].entry_id for i in picks[n][0]] and gen.allclose(r.coefficients, picks[n][1]), "%s altered reaction %s", what, r)
            got.append(n)
        return sorted(got)

    absent = ["He", "XeF6", "".join(els) + "He"]
    for i, m in d["q"]:
        if i < len(comps):
            fm, key = formula(i, m), comps[i]
        else:
            fm, key = absent[i % 3], None
        want = sorted(n for n, (idx, k, _) in enumerate(picks) if any(comps[j] == key and x > 0 for j, x in zip(idx, k)))
        rec.nontrivial(0 < len(want) < len(picks))
        a = ask("query", lambda: rs.get_rxns_by_product(fm))
        ensure(a == want, "by product %s: %s, expected %s of %s", fm, a, want, [str(r) for r in rxns])
        b = rs.get_rxns_by_product(fm, return_set=True)
        ensure(len(b) == len(want), "set of reactions producing %s has length %s, expected %s", fm, len(b), len(want))
        if want:
            ensure(isinstance(b, ReactionSet), "not a ReactionSet")
            b = ask("query", b.get_rxns)
            ensure(b == want, "by product %s as a set: %s, expected %s", fm, b, want)
    for sel in (d["q"], d["q"][:1], d["q"][-2:], [[j, 1] for j in picks[0][0]]):
        keys = [comps[i] for i, _ in sel if i < len(comps)]
        fms = [formula(i, m) if i < len(comps) else absent[i % 3] for i, m in sel]
        want = sorted(n for n, (idx, k, _) in enumerate(picks) if all(comps[j] in keys for j, x in zip(idx, k) if x < 0))
        rec.nontrivial(0 < len(want) < len(picks))
        a = ask("query", lambda: rs.get_rxns_by_reactants(fms))
        ensure(a == want, "by reactants %s: %s, expected %s of %s", fms, a, want, [str(r) for r in rxns])
        b = rs.get_rxns_by_reactants(fms, return_set=True)
        ensure(len(b) == len(want), "set of reactions from %s has length %s, expected %s", fms, len(b), len(want))
        if want:
            ensure(ask("query", b.get_rxns) == want, "by reactants %s as a set", fms)
    rec.label("open" if d["mu"] is not None else "closed")


FACETS = [Facet("query", case, fn, quick=1000, thorough=24000, shards=8)]
