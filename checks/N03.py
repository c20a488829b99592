"""N03: energy-minimising enumeration returns exactly the reactions at the kinks of interface hulls."""
from vp import fakeray

fakeray.install()
import warnings  # noqa: E402
from itertools import combinations  # noqa: E402

import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from pymatgen.core import Element  # noqa: E402
from rxn_network.entries.entry_set import GibbsEntrySet  # noqa: E402
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator  # noqa: E402
from vp import enums, gen  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "N03"
RULE = ("Entry sets of two to four elements with polymorphs, multiples and interpolated phases; closed systems and any open element at chemical potentials from -4 to 0.5 eV; all "
        "precursor/target lists and exclusivities. The kinks of the (grand) energy envelope of every pair are computed from the vertices of the dual polytope and their "
        "reactions from exact null spaces. Non-trivial: at least three reactions expected, one of them inside a mixing line.")


@st.composite
def case(draw, grand=False):
    els, es = draw(enums.entries(2, 4 if draw(st.integers(0, 2)) == 0 else 3, nmin=2, nmax=6))
    d = dict(es=es, xp=draw(st.booleans()), xt=draw(st.booleans()), P=None, T=None)
    if grand:
        d["open"] = draw(st.sampled_from(els))
        d["mu"] = draw(st.integers(-512, 64)) / 128
    g = draw(enums.guided(es)) if draw(st.booleans()) else (None, None)
    if g[0]:
        mode = draw(st.sampled_from(["P", "T", "both"]))
        d["P"] = g[0] if mode != "T" else None
        d["T"] = g[1] if mode != "P" else None
    elif draw(st.integers(0, 2)) == 0:
        d["P"] = draw(enums.restriction(els, es)) if draw(st.booleans()) else None
        d["T"] = draw(enums.restriction(els, es)) if draw(st.booleans()) else None
    d["cs"] = draw(st.sampled_from(els)) if draw(st.integers(0, 4)) == 0 else None
    d["fd"] = draw(st.integers(0, 3)) == 0
    d["sched"] = draw(st.lists(st.integers(0, 9), max_size=4))
    d["brief"] = draw(st.booleans())
    return d


def balance(R, Q, op):
    """Key of the reaction R (+ open) -> Q, or None when the balance is not unique, signs are wrong or an amount is tiny."""
    comps = [p.c for p in R + Q] + ([op.c] if op else [])
    ns = gen.nullspace(gen.comp_matrix(comps), len(comps))
    if len(ns) != 1:
        return None
    v = ns[0]
    if v[0] > 0:
        v = [-x for x in v]
    n = len(R)
    scale = max(abs(x) for x in v)
    if any(abs(x) < scale / 1000 and x for x in v) or not all(x < 0 for x in v[:n]) or not all(x >= 0 for x in v[n:n + len(Q)]):
        return None
    rs = [(p.key, -v[i]) for i, p in enumerate(R)]
    ps = [(p.key, v[n + i]) for i, p in enumerate(Q) if v[n + i] > 0]
    if op and v[-1]:
        (rs if v[-1] < 0 else ps).append((op.key, abs(v[-1])))
    rs.sort()
    ps.sort()
    s = rs[0][1]
    return (tuple((q, round(float(x / s), 5)) for q, x in rs), tuple((q, round(float(x / s), 5)) for q, x in ps))


def fn(d, rec):
    es = gen.mk_entries(d["es"])
    s = GibbsEntrySet(es)
    phases = [enums.Phase(e) for e in es]
    if enums.tied(phases):
        rec.label("tied ground states skipped")
        return
    P, T = enums.asked(d["P"], phases, es), enums.asked(d["T"], phases, es)
    op = None
    if "open" in d:
        of = enums.rf({d["open"]: 1})
        op = enums.ground(phases, of)
        if (T and op.key in T) or (P and op.key in P):
            rec.label("open precursor or target skipped")
            return
        closed = [p for p in phases if p.f != of]
    else:
        closed = phases
    gs = {p.f: enums.ground(phases, p.f) for p in closed}
    gs = [gs[f] for f in sorted(gs)]
    H = enums.Hull(phases, d.get("open"), d.get("mu", 0.0))
    by = {p.key: p for p in phases}

    def allowed(k):
        R = {x for x, _ in k[0]} - ({op.key} if op else set())
        Q = {x for x, _ in k[1]} - ({op.key} if op else set())
        return (P is None or (R <= P if d["xp"] else bool(R & P))) and (T is None or (Q <= T if d["xt"] else bool(Q & T)))

    want, inside, unsure = {}, 0, False
    pure = lambda p: len(p.els | ({d["open"]} if op else set())) == 1
    for p in gs:
        if pure(p):
            continue
        q = np.array(H.x(p))
        S, uniq = H.support(q)
        if not uniq:
            unsure = True
            continue
        if p in S:
            continue
        k = balance([p], S, op)
        if k:
            want[k] = "decomposition"
    for a, b in combinations(gs, 2):
        qa, qb = np.array(H.x(a)), np.array(H.x(b))
        if np.abs(qa - qb).max() < 1e-6:
            continue
        ks = H.kinks(qa, qb)
        pos = [0.0] + [t for t, _ in ks] + [1.0]
        for i, (t, dv) in enumerate(ks, 1):
            if dv < 1e-4 or pos[i] - pos[i - 1] < 1e-3 or pos[i + 1] - pos[i] < 1e-3:
                unsure = True
                continue
            S, uniq = H.support(qa + t * (qb - qa))
            if not uniq or a in S or b in S:
                unsure = True
                continue
            k = balance([a, b], S, op)
            if k:
                want[k] = "kink"
    want = {k: v for k, v in want.items() if allowed(k)}
    if d["cs"]:
        want = {k: v for k, v in want.items() if any(d["cs"] in by[x].els for x, _ in k[0] + k[1])}
    inside = sum(v == "kink" for v in want.values())

    kw = dict(precursors=d["P"], targets=d["T"], exclusive_precursors=d["xp"], exclusive_targets=d["xt"], filter_by_chemsys=d["cs"], filter_duplicates=d["fd"], quiet=True)
    kw = enums.brief(kw, d.get("brief"))
    en = MinimizeGrandPotentialEnumerator(open_elem=Element(d["open"]), mu=d["mu"], **kw) if op else MinimizeGibbsEnumerator(**kw)
    fakeray.S.reset(d["sched"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rs = en.enumerate(s)
    got = {}
    for r in rs:
        k = enums.rkey(r)
        got[k] = r
        tot, size = {}, 0.0
        for e, c in zip(r.entries, r.coefficients):
            p = by.get(enums.ekey(e))
            ensure(p is not None and close(e.energy_per_atom, p.epa), "%s uses an entry that was not given: %s", r, e)
            ensure(p.key == op.key if op and p.f == op.f else p in gs, "%s uses %s, which is not the ground state of its formula", r, e)
            for x, a in p.c.items():
                tot[x] = tot.get(x, 0) + a * c
                size += abs(a * c)
        ensure(all(abs(v) <= 1e-6 * size for v in tot.values()), "%s is not balanced", r)
        ensure(r.balanced and not r.is_identity, "%s is not a balanced reaction", r)
        ensure(allowed(k), "%s does not obey the restrictions (precursors %s, targets %s)", r, P, T)
        if d["cs"]:
            ensure(any(d["cs"] in by[x].els for x, _ in k[0] + k[1]), "%s has no element of %s", r, d["cs"])
        if op:
            ensure(type(r).__name__ == "OpenComputedReaction" and {str(e): m for e, m in r.chempots.items()} == {d["open"]: d["mu"]}, "%s does not carry the chemical potential", r)
        amts = [(by[enums.ekey(e)], float(c)) for e, c in zip(r.entries, r.coefficients)]
        R = [(p, -c) for p, c in amts if c < 0 and p is not op]
        Q = [(p, c) for p, c in amts if c > 0 and p is not op]
        ensure(1 <= len(R) <= 2 and Q, "%s is not a reaction of one or two phases", r)
        amt = sum(H.n[p.key] * c for p, c in R)
        q = sum(np.array(H.x(p)) * H.n[p.key] * c for p, c in R) / amt
        e = sum(H.phi[p.key] * H.n[p.key] * c for p, c in Q) / amt
        ensure(abs(e - H.energy(q)) < 2e-5, "the products of %s have %s eV/atom, the lowest energy is %s", r, e, H.energy(q))
        if len(R) == 2:
            qa, qb = np.array(H.x(R[0][0])), np.array(H.x(R[1][0]))
            if np.abs(qa - qb).max() < 1e-6:
                continue
            t = H.n[R[1][0].key] * R[1][1] / amt
            _, uniq = H.support(q)
            ensure(not uniq or any(abs(t - u) < 1e-3 for u, _ in H.kinks(qa, qb, 1e-12)), "%s lies at %s, which is not a kink", r, t)
    missing = set(want) - set(got)
    if missing:  # rounded coefficients may differ in the last digit
        near = lambda a, b: [x for x, _ in a[0] + a[1]] == [x for x, _ in b[0] + b[1]] and all(abs(x - y) <= 2e-5 * max(1, abs(x)) for (_, x), (_, y) in zip(a[0] + a[1], b[0] + b[1]))
        missing = {k for k in missing if not any(near(k, g) for g in got)}
    if op:  # (known finding: round-off may remove a reaction that does not exchange the open element)
        lost = {k for k in missing if op.key not in [x for x, _ in k[0] + k[1]]}
        if lost:
            rec.label("known finding: reaction without the open element missing")
        missing -= lost
    ensure(not missing, "missing reactions (%s of %s): %s", len(missing), len(want), sorted((want[k], k) for k in missing)[:3])
    rec.nontrivial(len(want) >= 3 and inside > 0)
    rec.label("empty" if not want else "inside" if inside else "decomposition only")
    if unsure:
        rec.label("some degenerate kinks not judged")


def vanishing_probe():
    es = [dict(kind="gibbs", c=c, m=1, e=e, v=12.0, T=300, id=str(i)) for i, (c, e) in enumerate([({"Li": 1}, 0.0), ({"Fe": 1}, 0.0), ({"C": 1}, 0.0), ({"Li": 1, "Fe": 1}, -0.5), ({"Li": 1, "Fe": 1, "C": 1}, -3.0)])]
    en = MinimizeGrandPotentialEnumerator(open_elem=Element("Li"), mu=0.0, quiet=True)
    rs = en.enumerate(GibbsEntrySet(gen.mk_entries(es)))
    return not any({c.reduced_formula for c in r.reactants} == {"C", "LiFe"} for r in rs)


KNOWN_PROBES = {"vanishing-open-element": vanishing_probe}
FACETS = [Facet("closed", case, fn, quick=250, thorough=8000, shards=4), Facet("open", lambda: case(grand=True), fn, quick=300, thorough=8000, shards=4)]
