"""V01: plots and filtered tables show exactly the data they are given."""
from vp import fakeray

fakeray.install()
import warnings  # noqa: E402
from collections import Counter  # noqa: E402

import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from rxn_network.costs.functions import Softplus  # noqa: E402
from rxn_network.entries.entry_set import GibbsEntrySet  # noqa: E402
from rxn_network.pathways.plotting import PathwayPlotter  # noqa: E402
from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.plotting import filter_df_by_precursors, plot_reaction_scatter  # noqa: E402
from rxn_network.reactions.reaction_set import ReactionSet  # noqa: E402
from checks import E05, H01  # noqa: E402
from vp import enums, gen, geom, ifc, rsets  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "V01"
RULE = ("Tables of generated reactions (as made by reaction sets, with further metric columns full of ties, any row labels, also repeated ones) plotted over two or three metrics with and without Pareto front and colouring, and filtered by any "
        "precursor list; phase amounts of one to four phases over three to eight temperatures, with and without smoothing, over generated computed entries; drawn networks of up to sixteen nodes; diagrams of interfaces between two precursors. Non-trivial: dominated and non-dominated rows, or some rows kept and some dropped, or two phases of different size, or two nodes of one chemical system and one of another.")


@st.composite
def table_case(draw):
    d = draw(rsets.rset(max_rxns=10, min_rxns=2, data=False))
    d["m"] = draw(st.lists(st.tuples(*[st.integers(-2, 3)] * 3).map(list), min_size=10, max_size=10))
    d["labels"] = draw(st.sampled_from(["given", "shuffled", "text", "repeated"]))
    d["xyz"] = draw(st.sampled_from([["a", "b", None], ["energy", "a", None], ["a", "b", "c"], ["b", "energy", "c"], ["a", "dE", None]]))
    d["color"] = draw(st.sampled_from([None, None, "c", "has_added_elems"]))
    d["pareto"] = draw(st.integers(0, 3)) > 0
    d["P"] = draw(st.lists(st.integers(0, 9), max_size=5))
    d["foreign"] = draw(st.booleans())
    return d


def table(d):
    picks = rsets.plain_rxns(d)
    if not picks:
        return None, None
    ents = gen.mk_entries(d["entries"])
    rs = ReactionSet.from_rxns([ComputedReaction([ents[i] for i in idx], k) for idx, k, _ in picks])
    df = rs.to_dataframe(Softplus(), target=ents[picks[0][0][0]].composition, calculate_uncertainties=False)
    df["dE"] = 0.125
    n = len(df)
    for j, c in enumerate("abc"):
        df[c] = [d["m"][i % 10][j] / 4 for i in range(n)]
    df.index = {"given": list(range(n)), "shuffled": [(7 * i + 3) % n if n % 7 else n - i for i in range(n)], "text": ["r%s" % i for i in range(n)], "repeated": [i // 2 for i in range(n)]}[d["labels"]]
    return df, picks


def snapshot(df):
    return [(i, [str(x) for x in r]) for i, r in zip(df.index, df.to_numpy().tolist())], list(df.columns)


def scatter_fn(d, rec):
    df, _ = table(d)
    if df is None:
        rec.label("no reactions")
        return
    before = snapshot(df)
    x, y, z = d["xyz"]
    cols = [c for c in (x, y, z) if c]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig = plot_reaction_scatter(df, x=x, y=y, z=z, color=d["color"], plot_pareto=d["pareto"])
    ensure(snapshot(df) == before, "the table was changed")
    pts = [tuple(float(df[c].iloc[i]) for c in cols) for i in range(len(df))]
    names = [str(r) for r in df["rxn"]]
    front = [not any(all(q <= p for q, p in zip(o, me)) and o != me for o in pts) for me in pts] if d["pareto"] else [False] * len(pts)
    got = {True: Counter(), False: Counter()}
    for t in fig.data:
        arrs = [np.asarray(v, dtype=float) for v in ([t.x, t.y, t.z] if z else [t.x, t.y])] if t.x is not None else []
        if not arrs:
            continue
        hov = list(t.hovertext) if t.hovertext is not None else []
        ensure(len(hov) == len(arrs[0]), "%s points carry %s labels", len(arrs[0]), len(hov))
        for i, h in enumerate(hov):
            got[t.name == "Pareto front"][(tuple(round(float(a[i]), 9) for a in arrs), h)] += 1
    for f in (True, False):
        want = Counter((tuple(round(v, 9) for v in p), n) for p, n, g in zip(pts, names, front) if g == f)
        ensure(got[f] == want, "points %s: missing %s, unexpected %s", "on the front" if f else "off the front", list((want - got[f]).items())[:3], list((got[f] - want).items())[:3])
    rec.nontrivial(any(front) and not all(front))
    rec.label("3d" if z else "2d")


def filter_fn(d, rec):
    df, picks = table(d)
    if df is None:
        rec.label("no reactions")
        return
    comps = rsets.comps_of(d["entries"])
    P = [enums.rf(comps[i % len(comps)]) for i in d["P"]] + (["BeF2"] if d["foreign"] else [])
    before = snapshot(df)
    got = filter_df_by_precursors(df, P)
    ensure(snapshot(df) == before, "the table was changed")
    keep = []
    for i, r in enumerate(df["rxn"]):
        form = {enums.rf({e.symbol: int(round(a)) for e, a in c.items()}) for c, k in zip(r.compositions, r.coefficients) if k < 0}
        keep.append(form <= set(P))
    ensure(snapshot(got) == ([b for b, k in zip(before[0], keep) if k], before[1]), "kept rows %s of %s for %s", list(got.index), list(df.index), P)

    rec.nontrivial(any(keep) and not all(keep))


@st.composite
def plot_case(draw):
    els = draw(gen.el_sets(2, 3))
    es = draw(E05.entries_(els, 1, 4, E05.tab_for(els)))
    n = draw(st.integers(3, 8))
    T0, dT = draw(st.integers(300, 900)), draw(st.integers(10, 100))
    amt = st.lists(st.integers(0, 8), min_size=n, max_size=n)
    return dict(es=es, n=n, temps=[T0 + dT * i for i in range(n)], ph=draw(st.lists(st.tuples(st.integers(0, 30), amt, st.integers(1, 2)).map(list), min_size=1, max_size=4)), smooth=draw(st.booleans()), down=draw(st.integers(0, 3)) == 0)


def plot_fn(d, rec):
    entries = [E05.build(x) for x in d["es"]]
    forms = sorted({enums.rf({e.symbol: int(round(a)) for e, a in x.composition.items()}) for x in entries})
    amounts = {}
    for i, a, m in d["ph"]:
        f = forms[i % len(forms)]
        c = {e.symbol: int(round(v)) for e, v in E05_comp(f).items()}
        amounts.setdefault(enums.fml({e: v * m for e, v in c.items()}), [v / 8 for v in a])
    first = next(iter(amounts))
    amounts[first] = [v + 0.5 for v in amounts[first]]  # never empty
    temps = list(reversed(d["temps"])) if d["down"] else list(d["temps"])
    given = {k: list(v) for k, v in amounts.items()}
    p = PathwayPlotter(amounts, temps, apply_smoothing=d["smooth"])

    def smooth(v):
        if not d["smooth"]:
            return v
        e = [v[0]] + v + [v[-1]]  # ends are repeated
        return [sorted(e[i:i + 3])[1] for i in range(len(v))]

    sm = {f: smooth(v) for f, v in given.items()}
    comp = {f: {e.symbol: float(a) for e, a in E05_comp(f).items()} for f in given}
    els = sorted({e for c in comp.values() for e in c})
    ensure(list(p.df.columns) == list(given) and list(p.formulas) == list(given) and list(p.df.index) == temps, "columns %s, temperatures %s", list(p.df.columns), list(p.df.index))
    ensure({e.symbol for e in p.elems} == set(els) and len(p.elems) == len(els), "elements %s", p.elems)
    tot = [{e: sum(sm[f][i] * comp[f].get(e, 0) for f in sm) for e in els} for i in range(d["n"])]
    for i in range(d["n"]):
        for f in given:
            ensure(close(float(p.df[f].iloc[i]), sm[f][i], atol=1e-9), "amount of %s is %s instead of %s", f, p.df[f].iloc[i], sm[f][i])
        for e in els:
            ensure(close(float(p.num_atoms_df[e].iloc[i]), tot[i][e], atol=1e-9), "%s atoms of %s instead of %s", p.num_atoms_df[e].iloc[i], e, tot[i][e])
            ensure(close(float(p.compositions.iloc[i][e]), tot[i][e] / sum(tot[i].values()), atol=1e-7), "fraction of %s is %s", e, p.compositions.iloc[i][e])
    ensure(set(p.num_atoms_df.columns) == set(els), "elements counted: %s", list(p.num_atoms_df.columns))
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ax = p.plot_pathway()
        lines = {ln.get_label(): ln.get_xydata() for ln in ax.lines}
        ensure(set(lines) == set(given), "lines %s", list(lines))
        for f, xy in lines.items():
            ensure(gen.allclose(xy[:, 1], sm[f], atol=1e-9) and gen.allclose(xy[:, 0], temps), "line of %s: %s", f, xy.tolist())
        plt.close("all")
        ax = p.plot_energy_cascade(entries)
        xy = ax.lines[-1].get_xydata()
        plt.close("all")
        ensure(len(xy) == d["n"] and gen.allclose(xy[:, 0], temps), "energies at %s", xy[:, 0].tolist())
        for i, T in enumerate(temps):
            s = list(GibbsEntrySet.from_computed_entries(entries, T))
            alle = sorted({e.symbol for x in s for e in x.composition.elements})
            pts = [[x.composition[e] / x.composition.num_atoms for e in alle] for x in s]
            epa = [x.energy_per_atom for x in s]
            n = sum(tot[i].values())
            hull = geom.hull_energy(pts, epa, [tot[i].get(e, 0) / n for e in alle])
            own = 0.0
            for f in given:
                best = min(x.energy_per_atom for x in s if x.composition.reduced_formula == E05_comp(f).reduced_formula)
                own += sm[f][i] * best * sum(comp[f].values())
            ensure(close(xy[i, 1], own / n - hull, atol=1e-5), "at %s K the phases are %s eV/atom above the ground state, expected %s", T, xy[i, 1], own / n - hull)
    ensure(amounts == given, "the amounts were changed")
    rec.nontrivial(len({sum(c.values()) for c in comp.values()}) > 1)
    rec.label("multiples" if any(m > 1 for _, _, m in d["ph"]) else "reduced")


@st.composite
def net_case(draw):
    els = draw(gen.el_sets(4, 6))
    n = draw(st.integers(1, 9) | st.integers(10, 16))
    node = st.lists(st.sampled_from(els), min_size=1, max_size=3, unique=True).map(sorted)
    return dict(nodes=draw(st.lists(node, min_size=n, max_size=n)), edges=draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).map(list), max_size=12)), cmap=draw(st.sampled_from(["jet", "viridis", "plasma"])))


def net_fn(d, rec):
    import rustworkx
    from rxn_network.network.entry import NetworkEntry, NetworkEntryType
    from rxn_network.network.visualize import plot_network
    g = rustworkx.PyDiGraph()
    ents = [NetworkEntry([gen.mk_entry(dict(kind="plain", c={e: 1 for e in c}, m=1, e=-1.0, v=12.0, T=300, id="mp-%s" % i))], NetworkEntryType.Reactants) for i, c in enumerate(d["nodes"])]
    g.add_nodes_from(ents)
    edges = sorted({(a, b) for a, b in d["edges"] if a != b})
    for a, b in edges:
        g.add_edge(a, b, 1.0)
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig = plot_network(g, d["cmap"])
    ax = (fig or plt.gcf()).axes[0]
    cols = [c.get_facecolor() for c in ax.collections if len(c.get_offsets()) == len(d["nodes"])]
    ensure(len(cols) == 1, "%s nodes are not drawn once each: %s", len(d["nodes"]), [len(c.get_offsets()) for c in ax.collections])
    rgb = [tuple(round(float(v), 6) for v in x) for x in cols[0]]
    plt.close("all")
    sysn = ["-".join(c) for c in d["nodes"]]
    if len(rgb) == 1 and len(sysn) > 1:
        rgb = rgb * len(sysn)
    ensure(len(rgb) == len(sysn), "%s colours for %s nodes", len(rgb), len(sysn))
    for i in range(len(sysn)):
        for j in range(i):
            ensure((rgb[i] == rgb[j]) == (sysn[i] == sysn[j]), "nodes in %s and %s are coloured %s and %s", sysn[i], sysn[j], rgb[i], rgb[j])
    ensure(list(g.nodes()) == ents and sorted(g.edge_list()) == edges, "the graph was changed")
    rec.nontrivial(1 < len(set(sysn)) < len(sysn))


def hull_fn(d, rec):
    """An interface diagram shows every reaction of the interface and both precursors, and the lower envelope as lines."""
    pts, h = H01.prepare(d)
    if pts is None or H01.fragile(pts, h):
        rec.label("unbuildable or fragile")
        return
    rxns, irh, order = H01.build(d)
    coords, text = irh.coords.copy(), [str(r) for r in irh.reactions]
    top = d["seed"] % 5 / 4 + 0.1
    fig = irh.plot(y_max=top) if d["seed"] % 3 else irh.plot()
    X = (lambda x: 1 - x) if d["swap"] else (lambda x: x)
    want = sorted((str(r), y, X(x)) for (x, y), r in zip(pts, rxns))
    got, lines = [], []
    for t in fig.data:
        if t.mode and "markers" in t.mode:
            ensure(len(t.x) == len(t.y) == len(t.hovertext), "%s points carry %s labels", len(t.x), len(t.hovertext))
            got += [(str(n), float(y), float(x)) for x, y, n in zip(t.x, t.y, t.hovertext)]
        else:
            lines.append(sorted((float(x), float(y)) for x, y in zip(t.x, t.y)))
    known = {w[0] for w in want}
    ends = sorted(g[1:] for g in got if g[0] not in known)
    got = sorted(g for g in got if g[0] in known)
    ensure([g[0] for g in got] == [w[0] for w in want] and gen.allclose([v for g in got for v in g[1:]], [v for w in want for v in w[1:]], 1e-8, 1e-8), "the diagram shows %s instead of %s", got, want)
    ensure(gen.allclose([v for e in ends for v in e], [0.0, 0.0, 0.0, 1.0], 1e-9, 1e-9), "the precursors are shown at %s", ends)
    edges = sorted(sorted(((X(x1), y1), (X(x2), y2))) for (x1, y1), (x2, y2) in zip(h, h[1:]) if abs(y1) + abs(y2) > 1e-9)
    drawn = sorted(e for e in lines if e[-1][0] - e[0][0] > 1e-9)
    ensure(gen.allclose([v for e in drawn for p in e for v in p], [v for e in edges for p in e for v in p], 1e-8, 1e-8), "lines %s instead of %s", drawn, edges)
    lo, hi = fig.layout.yaxis.range
    ensure(lo <= min(y for _, y in pts + [(0, 0)]) and close(hi, top if d["seed"] % 3 else 0.2), "energies from %s to %s are shown", lo, hi)
    ensure((irh.coords == coords).all() and [str(r) for r in irh.reactions] == text, "plotting changed the hull")
    rec.nontrivial(len(edges) >= 2)


def E05_comp(f):
    from rxn_network.core import Composition
    return Composition(f)


FACETS = [Facet("scatter", table_case, scatter_fn, quick=200, thorough=5000, shards=8), Facet("filter", table_case, filter_fn, quick=250, thorough=6000, shards=3),
          Facet("pathway", plot_case, plot_fn, quick=80, thorough=2000, shards=8),
          Facet("network", net_case, net_fn, quick=60, thorough=1500, shards=4),
          Facet("interface", ifc.interface(), hull_fn, quick=160, thorough=4000, shards=4)]
