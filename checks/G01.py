"""G01: the reaction network contains one costed edge for every usable reaction."""
from vp import fakeray

fakeray.install()
import json  # noqa: E402

from hypothesis import strategies as st  # noqa: E402
from vp import net  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402

PROPERTY = "G01"
RULE = ("Networks of up to 18 reactions among up to ten phases of two or three elements (polymorphs, multiples, duplicates, several proportions of the same phases, open systems), "
        "with tabulated or softplus costs; histories of up to six builds and choices of precursors and targets (as entries or formulas, including phases the network lacks), compared after every step "
        "with a graph computed from the definition. Non-trivial: at least four reactions and at least two changes of precursors or target.")


@st.composite
def case(draw, large=False):
    d = draw(net.network(lo=7, hi=11, max_rxns=45, min_rxns=25, guided=st.just(False)) if large else net.network())
    d["hub"] = large and draw(st.booleans())
    op = st.one_of(st.tuples(st.just("pre"), st.lists(st.integers(0, 30), min_size=1, max_size=draw(st.sampled_from([3, 3, 6]))), st.booleans()), st.tuples(st.just("target"), st.integers(0, 30), st.booleans()),
                   st.tuples(st.just("build"), st.just(0), st.just(False)), st.tuples(st.just("bad"), st.integers(0, 30), st.booleans())).map(list)
    d["ops"] = draw(st.lists(op, min_size=1, max_size=6))
    return d


def fn(d, rec):
    m = net.Model(d)
    if not m.rxns or m.indistinct:
        rec.label("indistinguishable or no reactions")
        return
    rn = m.network()
    rn.build()
    m.check_graph(rn, None, None, "after building")
    P = T = None
    changes = 0
    form = lambda i: m.entries[i].composition.reduced_formula
    for n, (op, x, byf) in enumerate(d["ops"]):
        when = f"step {n} ({op} {x})"
        if op == "pre":
            ix = {m.used[i % len(m.used)] for i in x}
            if byf:
                ix = {m.min_of(form(i)) for i in ix}
            rn.set_precursors([form(i) if byf and (k or n % 2) else m.entries[i] for k, i in enumerate(sorted(ix))])
            changes += P != ix
            P = ix
        elif op == "target":
            i = m.used[x % len(m.used)]
            if byf:
                i = m.min_of(form(i))
            rn.set_target(form(i) if byf else m.entries[i])
            changes += T != i
            T = i
        elif op == "build":
            rn.build()
            P = T = None
        else:
            i = x % len(m.entries)
            if i in m.used:
                continue
            if byf and any(form(i) == form(j) for j in m.used):
                continue
            for f, a in ((rn.set_precursors, [m.entries[m.used[0]], form(i) if byf else m.entries[i]]), (rn.set_target, form(i) if byf else m.entries[i])):
                try:
                    f(a)
                except Exception:  # noqa: BLE001
                    continue
                ensure(False, "%s accepted a phase that is not in the network", when)
            rec.label("rejected phase")
        m.check_graph(rn, P, T, when)
        ensure((rn.precursors is None) == (P is None) and (P is None or set(rn.precursors) == {m.entries[i] for i in P}), "%s: precursors are %s", when, rn.precursors)
        ensure((rn.target is None) == (T is None) and (T is None or rn.target == m.entries[T]), "%s: target is %s", when, rn.target)
    rec.nontrivial(len(m.rxns) >= 4 and changes >= 2)
    if len({(x[0], x[1]) for x in m.rxns}) < len(m.rxns):
        rec.label("parallel reactions")
    if m.chempots:
        rec.label("open")


FACETS = [Facet("graph", case, fn, quick=1000, thorough=12000, shards=8), Facet("large", lambda: case(large=True), fn, quick=80, thorough=2000, shards=8)]
