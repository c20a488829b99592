"""T01: chemical potential domains, distances and offsets against brute-force polytope vertices."""
import json

import numpy as np
from hypothesis import strategies as st
from monty.json import MontyEncoder
from pymatgen.core.composition import Element
from pymatgen.analysis.phase_diagram import GrandPotPDEntry
from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram
from vp import gen, geom
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "T01"
RULE = ("Entries over 2-4 elements with arbitrary cells, polymorphs, stable and metastable phases, default or explicit limits, in several orders. Domains "
        "are recomputed by brute-force vertex enumeration of the inequality system, the energy above hull by linear programming. Cases closer than "
        "numerical tolerance to a degeneracy (a phase exactly on the hull, a domain touching in fewer than the generic number of corners) are only "
        "checked for symmetry and purity. Non-trivial: at least two stable compounds, or a metastable phase.")


@st.composite
def case(draw):
    els = draw(gen.el_sets(2, draw(st.sampled_from([2, 3, 3, 4]))))
    es = draw(gen.entry_list(els, min_size=1, max_size=6, kinds=("plain", "plain", "gibbs", "interp")))
    for x in es:  # spread the energies over uneven values, to keep away from degeneracies
        x["e"] = x["e"] + draw(st.integers(0, 97)) / 97 / 64 if len(x["c"]) > 1 else x["e"]
    ref = draw(st.sampled_from([0.0, 0.0, -1.25]))
    for x in es:
        if x["kind"] == "gibbs" and ref:
            x["kind"] = "plain"
        x["e"] += ref
    op = None
    if len(els) > 2 and draw(st.integers(0, 2)) == 0:
        op = [draw(st.sampled_from(els)), draw(st.integers(-256, 0)) / 128 + ref]
    lim = {}
    if not op and draw(st.integers(0, 3)) == 0:
        for e in els:
            if draw(st.booleans()):
                lim[e] = [draw(st.sampled_from([-6.0, -15.0, -40.0])), 0.0]
    return dict(entries=es, els=els, open=op, limits=lim, dmin=draw(st.sampled_from([None, None, -25.0])) if not op else None, perm=draw(st.integers(0, 10**6)), meta=draw(st.booleans()))


@st.composite
def limit_case(draw):
    """Explicit limits for several elements, whose upper borders coincide with the elements' own planes."""
    els = draw(gen.el_sets(3, 3))
    es = [dict(kind="plain", c={e: 1}, m=1, e=0.0, v=12.0, T=300, id=f"el-{e}") for e in els]
    rnd = draw(st.randoms(use_true_random=False))
    for i in range(draw(st.integers(1, 5))):
        c = {e: rnd.randint(1, 3) for e in rnd.sample(els, rnd.randint(2, 3))}
        es.append(dict(kind="plain", c=c, m=1, e=-rnd.randint(1, 4000) / 1024, v=12.0, T=300, id=f"mp-{i}"))
    lim = {e: [draw(st.sampled_from([-6.0, -6.0, -15.0, -40.0])), 0.0] for e in els[: draw(st.sampled_from([2, 2, 3]))]}
    return dict(entries=es, els=els, open=None, limits=lim, dmin=None, perm=rnd.randint(0, 10**6), meta=draw(st.booleans()))


def plain(d, ents):
    els = sorted(Element(e) for e in d["els"])
    out = []
    for e in ents:
        n = e.composition.num_atoms
        out.append((e.composition.reduced_formula, [float(e.composition[el]) / n for el in els], e.energy / n))
    return els, out


def ground(pl):
    g = {}
    for i, (f, x, e) in enumerate(pl):
        if f not in g or e < pl[g[f]][2] - 1e-12:
            g[f] = i
    return g


def domains(rows, box, dim):
    """rows: {formula: (x, e)}; -> {formula: vertices}, degenerate flag"""
    names = list(rows)
    A = [rows[f][0] for f in names] + [s for j in range(dim) for s in (np.eye(dim)[j], -np.eye(dim)[j])]
    b = [rows[f][1] for f in names] + [s for lo, hi in box for s in (hi, -lo)]
    doms, degenerate = {f: [] for f in names}, False
    for p, tight in geom.vertices(A, b):
        for t in tight:
            if t < len(names):
                doms[names[t]].append(p)
    out = {}
    for f, pts in doms.items():
        if not pts:
            continue
        P = np.array(pts)
        rank = np.linalg.matrix_rank(P - P[0], tol=1e-5) if len(P) > 1 else 0
        if rank < dim - 1:
            degenerate = True  # touches, but only in a lower-dimensional face
        out[f] = P
    return out, degenerate


def fn(d, rec):
    ents = gen.mk_entries(d["entries"])
    if d["open"]:
        oel, mus = d["open"][0], {Element(d["open"][0]): d["open"][1]}
        ents = [GrandPotPDEntry(e, mus) for e in ents if {x.symbol for x in e.composition.elements} != {oel}]
        d = dict(d, els=[e for e in d["els"] if e != oel])
        rec.label("open")
    els, pl = plain(d, ents)
    dim = len(els)
    g = ground(pl)
    kw = {}
    if d["limits"]:
        kw["limits"] = {Element(e): tuple(v) for e, v in d["limits"].items()}
    if d["dmin"] is not None:
        kw["default_min_limit"] = d["dmin"]
    dmin = -100.0 if d["dmin"] is None else d["dmin"]
    box = [d["limits"].get(el.symbol, [dmin, 0.0]) for el in els]
    before = [json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) for e in ents]
    cpd = ChemicalPotentialDiagram(entries=list(ents), **kw)
    shuffled = list(ents)
    np.random.default_rng(d["perm"]).shuffle(shuffled)
    cpd2 = ChemicalPotentialDiagram(entries=shuffled, **kw)

    refs = {el: pl[g[f]][2] for f in g for el in els if sum(x > 0 for x in pl[g[f]][1]) == 1 and pl[g[f]][1][els.index(el)] == 1}
    form = {f: pl[g[f]][2] - sum(x * refs[el] for x, el in zip(pl[g[f]][1], els)) for f in g}
    rows = {f: (np.array(pl[g[f]][1]), pl[g[f]][2]) for f in g if form[f] < -1e-11 or max(pl[g[f]][1]) == 1}
    doms, degenerate = domains(rows, box, dim)
    # phases near the hull make the answer a matter of rounding
    xs = [p[1] for p in pl]
    hull = [geom.hull_energy([r[0] for r in rows.values()], [r[1] for r in rows.values()], x) for x in xs]
    above = [p[2] - h for p, h in zip(pl, hull)]
    others = []
    for f in g:
        rest = [i for h, i in g.items() if h != f]
        o = geom.hull_energy([pl[i][1] for i in rest], [pl[i][2] for i in rest], pl[g[f]][1])
        others.append(1.0 if o is None else abs(pl[g[f]][2] - o))
    fragile = degenerate or min(others) < 1e-5
    if not d["limits"]:
        ensure(set(doms) == {f for f in g if above[g[f]] < 1e-9} or fragile, "HARNESS: domains %s vs hull", set(doms))
    rec.label("fragile" if fragile else "clean")
    formulas = sorted(g)
    name = lambda e: e.original_entry.entry_id if d["open"] else e.entry_id
    ids = [name(e) for e in cpd.entries]
    ensure(sorted(ids) == sorted(name(e) for e in ents), "entries of the diagram: %s", ids)

    if not fragile:
        ensure(set(cpd.domains) == set(doms), "phases with a domain: %s, expected %s", sorted(cpd.domains), sorted(doms))
        for f, P in doms.items():
            tol = 1e-6 * (1 + np.abs(P).max())
            ensure(geom.same_points(cpd.domains[f], P, tol), "corners of the domain of %s: %s, expected %s", f, cpd.domains[f], P)
        stable = sorted(doms)
        rec.nontrivial(len(stable) - dim >= 2)
        for i, a in enumerate(stable):
            for b in stable[i:]:
                want = geom.min_dist(doms[a], doms[b])
                x, y = cpd.shortest_domain_distance(a, b), cpd.shortest_domain_distance(b, a)
                ensure(close(x, want, atol=1e-6), "distance %s-%s = %s, expected %s", a, b, x, want)
                ensure(close(x, y, atol=1e-9), "distance %s-%s is not symmetric: %s and %s", a, b, x, y)
                ensure(close(cpd.shortest_domain_distance(a, b, offset=0.375), want + 0.375, atol=1e-6), "the offset is not added")
                ensure(close(cpd2.shortest_domain_distance(a, b), x, atol=1e-6), "the distance %s-%s depends on the order of the entries", a, b)

    def offsets():
        for i, e in enumerate(ents):
            f = pl[i][0]
            h = above[i]
            if abs(h) < 1e-7:
                if h < 1e-9 and f in doms and i == g[f]:
                    ensure(abs(cpd.get_offset(e)) < 1e-9, "offset of stable %s is %s", f, cpd.get_offset(e))
                continue
            want = h / np.linalg.norm(pl[i][1])
            o = cpd.get_offset(e)
            ensure(close(o, want, atol=1e-7), "offset of %s (%s eV/atom above hull) is %s, expected %s", f, h, o, want)

    if not fragile:
        offsets()
    # metastable phases: distances of the phase when it is just stabilised
    meta = [f for f in formulas if f not in doms and above[g[f]] > 1e-5]
    if meta and d["meta"] and not d["limits"] and not fragile and dim <= 3:
        first = {}
        for f in meta[:2]:
            a, others_ = [], [h for h in formulas if h != f and (h in doms or h in meta[:2])]
            sols = []
            for tol in (1e-5, 3e-6):
                r2 = dict(rows)
                r2[f] = (np.array(pl[g[f]][1]), hull[g[f]] - tol)
                dd, deg = domains(r2, [[-500.0, 0.0]] * dim, dim)
                sols.append((dd.get(f), deg))
            if any(s[0] is None or s[1] for s in sols) or not geom.same_points(sols[0][0], sols[1][0], 1e-3):
                rec.label("ill-conditioned metastable")
                continue
            rec.nontrivial()
            rec.label("metastable distance")
            first[f] = sols[0]
            for h in others_:
                x = cpd.shortest_domain_distance(f, h)
                y = cpd.shortest_domain_distance(h, f)
                ensure(close(x, y, atol=1e-9), "distance %s-%s is not symmetric: %s and %s", f, h, x, y)
                if h in doms:
                    want = geom.min_dist(sols[0][0], doms[h])
                    ensure(close(x, want, atol=2e-3), "distance of metastable %s to %s = %s, expected %s", f, h, x, want)
        md = cpd.metastable_domains if d["perm"] % 2 else cpd2.metastable_domains
        sure = [f for f in formulas if f not in doms and above[g[f]] > 1e-5]
        ensure(set(sure) <= set(md) and not set(md) & set(doms) and set(md) <= set(formulas), "metastable phases %s: domains of %s", sure, sorted(md))
        for f, (P, deg) in first.items():
            ensure(np.shape(md[f])[1] == dim and geom.same_points(md[f], P, 2e-3), "corners of the domain of metastable %s: %s, expected %s", f, md[f], P)
        ensure(set(cpd.domains) == set(doms), "asking for metastable phases changes the domains")
        offsets()  # asking for metastable phases must not disturb the diagram
        again = [cpd.shortest_domain_distance(f, h) for f in meta[:2] for h in formulas if h in doms]
        fresh = [cpd2.shortest_domain_distance(f, h) for f in meta[:2][::-1] for h in formulas[::-1] if h in doms]
        fresh = {(f, h): v for (f, h), v in zip([(f, h) for f in meta[:2][::-1] for h in formulas[::-1] if h in doms], fresh)}
        for (f, h), v in zip([(f, h) for f in meta[:2] for h in formulas if h in doms], again):
            ensure(close(fresh[f, h], v, atol=1e-4), "distance %s-%s depends on the history of queries: %s and %s", f, h, v, fresh[f, h])
    elif d["limits"] and d["meta"]:
        for f in formulas:
            if f in doms or above[g[f]] > 1e-9 or fragile:
                continue
            # stable, but outside the limits: a query must not disturb what follows
            rec.label("stable but outside limits")
            rec.nontrivial()
            a = cpd.shortest_domain_distance(f, sorted(doms)[0])
            ensure(close(a, cpd.shortest_domain_distance(f, sorted(doms)[0]), atol=1e-9), "repeated query differs")
        if not fragile:
            offsets()
    ensure([json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) for e in ents] == before, "the diagram altered its entries")


FACETS = [Facet("distances", case, fn, quick=220, thorough=8000, shards=4), Facet("limits", limit_case, fn, quick=160, thorough=6000, shards=3)]
