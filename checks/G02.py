"""G02: path finding returns the k cheapest simple paths in order."""
from vp import fakeray

fakeray.install()
from hypothesis import strategies as st  # noqa: E402
from vp import net  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "G02"
RULE = ("Networks of up to 18 reactions among up to ten phases (as for G01); one to three searches for the k = 1-20 cheapest paths to one to three targets, from precursors that may be changed in between. The "
        "costs are compared with an exhaustive enumeration of all simple paths, every path is checked against the definition of the network. Non-trivial: at least four paths of two lengths or more exist and k >= 2.")


@st.composite
def case(draw):
    n = draw(st.sampled_from([6, 10, 14]))
    d = draw(net.network(lo=2, hi=draw(st.sampled_from([4, 6])), max_rxns=n + 4, min_rxns=n // 2, guided=st.sampled_from([True, True, True, False])))
    d["finds"] = draw(st.lists(st.tuples(st.lists(st.integers(0, 30), min_size=1, max_size=3), st.integers(1, 6) | st.integers(1, 20), st.lists(st.integers(0, 30), max_size=3)).map(list), min_size=1, max_size=3))
    return d


def fn(d, rec):
    m = net.Model(d)
    if not m.rxns or m.indistinct:
        rec.label("indistinguishable or no reactions")
        return
    best = m.step_cost()
    rn = m.network()
    rn.build()
    P = {i for i in m.P0 if i in m.used} or {m.used[0]}
    rn.set_precursors([m.entries[i] for i in P])
    made = sorted({i for x in m.rxns for i in x[1]})
    rich = False
    for ts, k, newP in d["finds"]:
        made = sorted({i for x in m.rxns if m.reachable(P, x[1]) for i in x[1]} - P) or made
        ts = [made[t % len(made)] if n % 3 else m.used[t % len(m.used)] for n, t in enumerate(ts, 1)]
        want = [m.paths(P, t) for t in ts]
        if any(w is None for w in want):
            rec.label("too many paths")
            continue
        ps = rn.find_pathways([m.entries[t] if n % 2 else m.entries[t] for n, t in enumerate(ts)], k=k)
        got = list(ps)
        exp = [w[:k] for w in want]
        ensure(len(got) == len(ps) == sum(len(w) for w in exp), "%s paths reported; %s exist, k = %s", len(got), [len(w) for w in want], k)
        pos = 0
        for t, w, al in zip(ts, exp, want):
            part = got[pos:pos + len(w)]
            pos += len(w)
            seqs = [m.check_path(p, P, t, best) for p in part]
            ensure(len(set(seqs)) == len(seqs), "paths are repeated: %s", part)
            costs = [p.total_cost for p in part]
            ensure(all(a <= b or close(a, b) for a, b in zip(costs, costs[1:])), "costs are not in order: %s", costs)
            ensure(all(close(a, b) for a, b in zip(costs, w)), "costs are %s, the cheapest of all %s simple paths have %s", costs, len(al), w)
            rich |= len(al) >= 4 and k >= 2 and len({len(s) for s in seqs}) >= 2
            rec.label("no path" if not al else "all paths" if len(al) <= k else "k paths")
        m.check_graph(rn, P, ts[-1], "after the search")
        if newP:
            P = {m.used[i % len(m.used)] for i in newP}
            rn.set_precursors([m.entries[i] for i in P])
    rec.nontrivial(rich)


FACETS = [Facet("paths", case, fn, quick=2000, thorough=20000, shards=8)]
