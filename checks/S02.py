"""S02: duplicate filtering keeps exactly one reaction from each class of multiples."""
from fractions import Fraction

from hypothesis import strategies as st

from vp import fakeray

fakeray.install()

from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.reaction_set import ReactionSet  # noqa: E402
from vp import gen, rsets  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402

PROPERTY = "S02"
RULE = ("Reaction sets of up to 24 reactions picked from few distinct ones, scaled by random factors, with permuted columns, reverses, exact repeats, "
        "several entries per formula and mixtures of under-determined combinations over the same phases; lists of reactions to keep; serial and "
        "parallel runs under a scheduler that decides task and completion order, with 1-8 CPUs. Oracle: equivalence classes by exact proportionality "
        "of the sorted coefficient vectors. Non-trivial: a class with at least two members and at least two classes.")
ASSUMPTIONS = ["Ray is replaced by an in-process scheduler with the same copying and ordering semantics (vp/fakeray.py)."]


@st.composite
def case(draw):
    d = draw(rsets.entries(max_els=3, lo=3, hi=6, extra_data=False))
    few = draw(st.lists(st.integers(0, 99), min_size=1, max_size=8))
    picks = draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 7), st.integers(0, 5), st.integers(0, 3)).map(list), min_size=draw(st.sampled_from([1, 10, 20])), max_size=30))
    return dict(entries=d, few=few, picks=picks, keep=draw(st.lists(st.integers(0, 23), max_size=4)), cpus=draw(st.sampled_from([4, 16, 1, 2, 3, 8])),
                schedule=draw(st.lists(st.integers(0, 7), min_size=3, max_size=12)), parallel=draw(st.sampled_from([True, True, False])), via=draw(st.sampled_from(["method", "method", "from_rxns"])))


def fn(d, rec):
    comps = rsets.comps_of(d["entries"])
    pairs = gen.balanced_pairs(comps, 2, 2, 200)
    if not pairs:
        rec.label("no reactions")
        return
    base = []
    for p in d["few"]:
        a, b, k = pairs[p % len(pairs)]
        base.append((list(a) + list(b), list(k)))
    ents = gen.mk_entries(d["entries"])
    rows = []
    for p, s, rot, mode in d["picks"]:
        idx, k = base[p % len(base)]
        k = [x * rsets.SCALES[s] for x in k]
        if mode == 1:
            k = [-x for x in k]
        if mode == 2:  # linear combination of two reactions over the same phases, if it exists
            other = next((b for b in base if sorted(b[0]) == sorted(idx) and b[0] != idx), None)
            if other:
                m = dict(zip(*other))
                k2 = [x + 2 * m[i] for i, x in zip(idx, k)]
                if all(abs(x) > 1e-6 for x in k2):
                    k = k2
        r = rot % len(idx)
        rows.append((idx[r:] + idx[:r], k[r:] + k[:r]))
    rxns = [ComputedReaction([ents[i] for i in idx], k, data={"n": n}) for n, (idx, k) in enumerate(rows)]

    def cls(idx, k):
        s = sorted(zip(idx, k))
        # coefficients are small rationals; divide by the first magnitude exactly
        q = [Fraction(x).limit_denominator(10000) for _, x in s]
        return tuple(i for i, _ in s), tuple(x / abs(q[0]) for x in q)

    classes = {}
    for n, (idx, k) in enumerate(rows):
        classes.setdefault(cls(idx, k), []).append(n)
    rec.nontrivial(len(classes) >= 2 and max(map(len, classes.values())) >= 2)
    keep = sorted({x % len(rows) for x in d["keep"]})
    rs = ReactionSet.from_rxns(rxns)
    fakeray.S.reset(d["schedule"], cpus=d["cpus"])
    if d["via"] == "from_rxns":
        keep = []
        rec.label("from_rxns(filter_duplicates)")
        out = ReactionSet.from_rxns(rxns, filter_duplicates=True)
    else:
        rec.label("parallel" if d["parallel"] else "serial")
        out = rs.filter_duplicates(ensure_rxns=[rxns[i] for i in keep] or None, parallelize=d["parallel"])
        rec.label(f"tasks: {min(fakeray.S.n_tasks, 3)}")
        if fakeray.S.reordered:
            rec.label("tasks finished out of order")
    if d["parallel"] and d["cpus"] == 1:
        rec.label("one CPU")
    if keep:
        rec.label("reactions to keep")
    got = [r.data["n"] for r in out.get_rxns()]
    ensure(len(set(got)) == len(got), "reaction returned twice: %s", got)
    for n, r in zip(got, out.get_rxns()):
        ensure([e.entry_id for e in r.entries] == [ents[i].entry_id for i in rows[n][0]] and gen.allclose(r.coefficients, rows[n][1]), "reaction %s altered: %s", n, r)
    # identical rows are interchangeable; a kept reaction must be there up to identity of rows
    same = lambda a, b: rows[a][0] == rows[b][0] and gen.allclose(rows[a][1], rows[b][1], 1e-12, 1e-12)  # noqa: E731
    for n in keep:
        ensure(any(same(n, g) for g in got), "reaction %s %s was to be kept but is gone; classes %s, returned %s", n, rxns[n], list(classes.values()), got)
    for c, members in classes.items():
        have = [g for g in got if g in members]
        ensure(have, "no representative left of %s", [str(rxns[m]) for m in members])
        kept = {next(m for m in members if same(m, n)) for n in keep if n in members}
        ensure(len(have) <= max(1, len(kept)), "several multiples left: %s (asked to keep %s)", [str(rxns[m]) for m in have], sorted(kept))
    ensure(len(out) == len(got) and len(rs) == len(rows), "lengths")
    # the surviving classes do not depend on how the work was done
    fakeray.S.reset()
    ensure(len(rs.filter_duplicates(parallelize=False)) == len(classes), "serial filtering leaves %s reactions of %s classes", len(rs.filter_duplicates(parallelize=False)), len(classes))


FACETS = [Facet("filter", case, fn, quick=1600, thorough=40000, shards=8)]
