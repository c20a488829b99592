"""G03: networks, graphs and pathways survive being saved and loaded."""
from vp import fakeray

fakeray.install()
import copy  # noqa: E402
import json  # noqa: E402
import os  # noqa: E402
import tempfile  # noqa: E402
from collections import Counter  # noqa: E402
from itertools import product  # noqa: E402

import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from monty.json import MontyDecoder, MontyEncoder  # noqa: E402
from monty.serialization import dumpfn, loadfn  # noqa: E402
from rxn_network.network.base import Graph  # noqa: E402
from rxn_network.network.network import ReactionNetwork  # noqa: E402
from rxn_network.pathways.balanced import BalancedPathway  # noqa: E402
from rxn_network.pathways.basic import BasicPathway  # noqa: E402
from rxn_network.pathways.pathway_set import PathwaySet  # noqa: E402
from vp import net  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "G03"
RULE = ("Networks of up to 18 reactions (as for G01) saved and loaded by dictionary, JSON text or file at every stage (unbuilt, built, with precursors, with a target, after searching), then used further; "
        "collections of zero to six basic and balanced pathways made of their reactions, as pathways and as pathway sets; equality and hashes of pairs of pathways that share, extend, "
        "reorder or re-weight one another's reactions. Non-trivial: at least four reactions and precursors set before saving (networks), at least two different pathways (pathways).")

WAYS = ["dict", "json", "file", "filegz", "decode"]


def roundtrip(obj, way):
    if way == "dict":
        d = obj.as_dict()
        before = json.dumps(d, cls=MontyEncoder, sort_keys=True)
        new = type(obj).from_dict(d)
        ensure(json.dumps(d, cls=MontyEncoder, sort_keys=True) == before, "loading altered the dictionary")
        again = type(obj).from_dict(d)
        ensure(type(again) is type(obj), "the second loading gave a %s", type(again))
    elif way == "decode":
        new = MontyDecoder().process_decoded(json.loads(json.dumps(obj, cls=MontyEncoder)))
    elif way == "json":
        new = json.loads(json.dumps(obj, cls=MontyEncoder), cls=MontyDecoder)
    else:
        with tempfile.TemporaryDirectory() as t:
            f = os.path.join(t, "x.json.gz" if way == "filegz" else "x.json")
            dumpfn(obj, f)
            new = loadfn(f)
    ensure(type(new) is type(obj), "%s gave a %s", way, type(new))
    return new


@st.composite
def net_case(draw):
    d = draw(net.network(lo=2, hi=6, guided=st.sampled_from([True, True, False])))
    op = st.one_of(st.tuples(st.just("pre"), st.lists(st.integers(0, 30), min_size=1, max_size=draw(st.sampled_from([3, 3, 6])))), st.tuples(st.just("target"), st.integers(0, 30)), st.tuples(st.just("build"), st.just(0)),
                   st.tuples(st.just("save"), st.sampled_from(WAYS)), st.tuples(st.just("save"), st.sampled_from(WAYS)), st.tuples(st.just("find"), st.integers(0, 30))).map(list)
    d["ops"] = draw(st.lists(op, min_size=2, max_size=7))
    d["early"] = draw(st.sampled_from([None, None, None] + WAYS))
    return d


def check_net(rn, m, P, T, when):
    ensure(isinstance(rn, ReactionNetwork) and type(rn.cost_function) is type(m.cf) and rn.cost_function.as_dict() == m.cf.as_dict(), "%s: cost function %s", when, rn.cost_function)
    ensure(Counter(map(m.key, rn.rxns.get_rxns())) == Counter(map(m.key, m.objs)), "%s: reactions differ", when)
    ensure({net.ekey(e) for e in rn.entries} == {m.keys[i] for i in m.used}, "%s: entries differ: %s", when, [net.ekey(e) for e in rn.entries])
    els = sorted({e for i in m.used for e in m.d["es"][i]["c"]})
    ensure(rn.chemsys == "-".join(els), "%s: chemical system %s", when, rn.chemsys)
    for a, b in ((rn.precursors, P), ([rn.target] if rn.target is not None else None, None if T is None else {T})):
        ensure((a is None) == (b is None) and (a is None or {net.ekey(e) for e in a} == {m.keys[i] for i in b}), "%s: precursors or target are %s", when, a)


def net_fn(d, rec):
    m = net.Model(d)
    if not m.rxns or m.indistinct:
        rec.label("indistinguishable or no reactions")
        return
    rn = m.network()
    P = T = None
    if d["early"]:
        rn = roundtrip(rn, d["early"])
        check_net(rn, m, P, T, "before building")
        ensure(rn.graph is None, "a network that was not built has a graph")
        rec.label("unbuilt")
    rn.build()
    best = m.step_cost()
    saved_with = 0
    for n, (op, x) in enumerate(d["ops"]):
        when = f"step {n} ({op} {x})"
        if op == "build":
            rn.build()
            P = T = None
        elif op == "pre":
            P = {m.used[i % len(m.used)] for i in x}
            rn.set_precursors([m.entries[i] for i in P])
        elif op == "target":
            T = m.used[x % len(m.used)]
            rn.set_target(m.entries[T])
        elif op == "save":
            old = rn
            rn = roundtrip(rn, x)
            saved_with += P is not None
            check_net(old, m, P, T, when + " original")
            m.check_graph(old, P, T, when + " original")
            g = roundtrip(rn.graph, x)
            ensure(isinstance(g, Graph) and g.num_nodes() == rn.graph.num_nodes() and g.num_edges() == old.graph.num_edges(), "%s: the graph alone changed", when)
            # a graph from which phases were taken out
            gone = [i for j, i in enumerate(g.node_indices()) if (j + n) % 3 == 0][:4]
            for i in gone:
                g.remove_node(i)
            h = roundtrip(g, x)
            view = lambda q: (Counter(map(str, q.nodes())), Counter((q.get_node_data(a), q.get_node_data(b), e if isinstance(e, str) else m.key(e)) for (a, b), e in zip(q.edge_list(), q.edges())))
            ensure(isinstance(h, Graph) and view(h) == view(g), "%s: a graph without the nodes %s changed: %s and %s", when, gone, h, g)
        elif P is not None:
            t = m.used[x % len(m.used)]
            want = m.paths(P, t)
            if want is None:
                continue
            got = list(rn.find_pathways([m.entries[t]], k=4))
            T = t
            ensure(len(got) == min(4, len(want)) and all(close(p.total_cost, w) for p, w in zip(got, want)), "%s: found costs %s, expected %s", when, [p.total_cost for p in got], want[:4])
            for p in got:
                m.check_path(p, P, t, best)
            rec.label("searched after loading" if saved_with else "searched")
        check_net(rn, m, P, T, when)
        m.check_graph(rn, P, T, when)
    rec.nontrivial(len(m.rxns) >= 4 and saved_with > 0)


@st.composite
def path_case(draw):
    d = draw(net.network(lo=3, hi=6, guided=st.just(False), min_rxns=3))
    one = st.tuples(st.lists(st.integers(0, 20), min_size=1, max_size=4), st.booleans(), st.booleans(), st.lists(st.integers(1, 6), min_size=4, max_size=4), st.sampled_from(["new", "new", "prefix", "extend", "reverse", "weights", "same"])).map(list)
    d["paths"] = draw(st.lists(one, max_size=6))
    d["way"] = draw(st.sampled_from(WAYS))
    d["np"] = draw(st.booleans())
    return d


def path_fn(d, rec):
    m = net.Model(d)
    if not m.rxns or m.indistinct:
        rec.label("indistinguishable or no reactions")
        return
    n = len(m.rxns)
    specs = []
    for ix, bal, flag, w, how in d["paths"]:
        ix = list(dict.fromkeys(i % n for i in ix))
        if specs and how != "new":
            o = specs[-1]
            ix, bal, flag = list(o[0]), o[1], o[2]
            if how == "prefix":
                ix = ix[:-1] or ix
            elif how == "extend":
                ix = ix + [i for i in range(n) if i not in ix][:1]
            elif how == "reverse":
                ix = ix[::-1]
            if how != "weights":
                w = (list(o[3]) + [1])[: len(ix)]
        specs.append((ix, bal, flag, (w + [1] * len(ix))[: len(ix)]))
    mk = lambda s: (BalancedPathway([m.objs[i] for i in s[0]], np.array(s[3]) / 2 if d["np"] else [x / 2 for x in s[3]], [m.cost[i] for i in s[0]], balanced=s[2]) if s[1]
                    else BasicPathway([m.objs[i] for i in s[0]], [m.cost[i] for i in s[0]]))
    ps = [mk(s) for s in specs]
    rkey = lambda i: tuple(sorted((q, round(v, 6)) for q, v in m.rxns[i][2].items()))

    def same(p, s, when):
        ensure(type(p) is (BalancedPathway if s[1] else BasicPathway), "%s: %s", when, type(p))
        ensure([m.key(r) for r in p.reactions] == [rkey(i) for i in s[0]], "%s: reactions differ: %s", when, p)
        ensure(len(p.costs) == len(s[0]) and all(close(a, m.cost[i]) for a, i in zip(p.costs, s[0])), "%s: costs differ: %s", when, p.costs)
        ensure(all((m.chempots or {}) == (getattr(r, "chempots", None) or {}) for r in p.reactions), "%s: chemical potentials differ", when)
        if s[1]:
            ensure(len(p.coefficients) == len(s[0]) and all(close(a, b / 2) for a, b in zip(p.coefficients, s[3])) and p.balanced is s[2], "%s: coefficients %s, balanced %s", when, p.coefficients, p.balanced)

    for p, s in zip(ps, specs):
        same(p, s, "new pathway")
        q = roundtrip(p, d["way"])
        same(q, s, "loaded pathway")
        ensure(p == q and q == p, "a loaded pathway differs from the original: %s", q)
    ident = lambda s: (tuple(map(rkey, s[0])), s[1], tuple(round(m.cost[i], 9) for i in s[0]) if s[1] else None, tuple(s[3]) if s[1] else None)
    for (p, s), (q, t) in product(zip(ps, specs), repeat=2):
        if s[1] != t[1]:
            continue
        want = ident(s) == ident(t)
        ensure((p == q) == want, "%s and %s are %sequal", s, t, "not " if want else "")
        if want:
            ensure(hash(p) == hash(q), "equal pathways have different hashes")
    S = PathwaySet.from_paths(ps)
    R = roundtrip(S, d["way"])
    for when, X in (("set", S), ("loaded set", R), ("loaded twice", roundtrip(R, d["way"]))):
        ensure(len(X) == len(list(X)) == len(X.paths) == len(ps), "%s has %s paths of %s", when, len(X), len(ps))
        for p, s, o in zip(X, specs, ps):
            same(p, s, when)
            ensure(p == o, "%s: %s differs from the pathway put in", when, p)
    rec.nontrivial(len({ident(s) for s in specs}) >= 2)
    rec.label("mixed" if len({s[1] for s in specs}) == 2 else "empty" if not specs else "balanced" if specs[0][1] else "basic")


FACETS = [Facet("network", net_case, net_fn, quick=600, thorough=8000, shards=5), Facet("pathways", path_case, path_fn, quick=500, thorough=8000, shards=3)]
