"""B01: balancing conserves every element and finds every unique balance."""
import numpy as np
from hypothesis import strategies as st

from pymatgen.core.composition import Element
from rxn_network.core import Composition
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from vp import gen
from vp.core import Facet, ensure

PROPERTY = "B01"
RULE = ("Species are either built to balance (random reactants and multiplicities, their total split at random into products, "
        "optionally with a repeated phase removed) or drawn freely. The expected answer comes from exact rational linear algebra. "
        "Non-trivial: at least three species and an exact one-dimensional balance with all signs right, or a case the exact "
        "algebra proves unbalanceable, or a multi-dimensional one that the code claims balanced.")


@st.composite
def balanceable(draw):
    els = draw(gen.el_sets(2, 5))
    nr = draw(st.sampled_from([2, 2, 3, 1, 3]))
    total = {}
    rs = []
    for _ in range(nr):
        c = draw(gen.formula(els, max_amt=4))
        rs.append(c)
        k = draw(st.integers(1, 5))
        for e, a in c.items():
            total[e] = total.get(e, 0) + a * k
    npd = draw(st.sampled_from([2, 1, 3, 2, 4]))
    ps = []
    for i in range(npd - 1):
        part = {e: draw(st.integers(0, a)) * draw(st.sampled_from([1, 1, 0])) for e, a in sorted(total.items())}
        part = {e: a for e, a in part.items() if a}
        if not part or all(part.get(e, 0) == a for e, a in total.items()):
            continue
        ps.append(part)
        total = {e: a - part.get(e, 0) for e, a in total.items() if a > part.get(e, 0)}
    ps.append(total)
    return dict(r=rs, p=ps, perm=draw(st.integers(0, 10**6)))


@st.composite
def free(draw):
    els = draw(gen.el_sets(2, 4))
    f = gen.formula(els, max_amt=3, min_els=draw(st.integers(1, 2)))
    return dict(r=draw(st.lists(f, min_size=1, max_size=3)), p=draw(st.lists(f, min_size=1, max_size=3)), perm=draw(st.integers(0, 10**6)))


def distinct(case):
    """Drop repeated phases (same reduced composition), keeping the first mention; None if a side becomes empty."""
    seen, r, p = set(), [], []
    for side, out in ((case["r"], r), (case["p"], p)):
        for c in side:
            red = Composition(c).reduced_composition
            if red not in seen:
                seen.add(red)
                out.append(red)
    return (r, p) if r and p else None


def el_dict(c):
    return {str(k): v for k, v in c.items()}


def judge(rxn, r, p, rec, basic):
    rd, pd = [el_dict(c) for c in r], [el_dict(c) for c in p]
    ns = gen.nullspace(gen.comp_matrix(rd + pd), len(r) + len(p))
    v, dim = gen.exact_balance(rd, pd)
    coeffs = np.array(rxn.coefficients, dtype=float)
    comps = r + p
    ensure(list(rxn.compositions) == comps, "compositions changed by balancing: %s -> %s", comps, rxn.compositions)
    ensure(len(coeffs) == len(comps), "wrong number of coefficients")
    errs = rxn.lowest_num_errors
    signs = np.array([-1] * len(r) + [1] * len(p))
    wrong = int(np.sum(signs * coeffs < 1e-6))
    if rxn.balanced:
        for e in {e for c in rd + pd for e in c}:
            tot = sum(c.get(e, 0) * k for c, k in zip(rd + pd, coeffs))
            ensure(abs(tot) < 1e-5 * (1 + max(abs(coeffs))), "balanced reaction does not conserve %s: %s", e, rxn)
    if errs == 0:
        ensure(rxn.balanced, "zero balancing errors but not balanced: %s", rxn)
        ensure(wrong == 0, "zero errors but a species is on the wrong side or absent: %s", list(zip(comps, coeffs)))
        ensure(set(rxn.reactants) == set(r) and set(rxn.products) == set(p), "sides differ from request: %s", rxn)
    if dim == 0:
        rec.label("unbalanceable")
        rec.nontrivial(len(comps) >= 3)
        ensure(not rxn.balanced, "species admit no balance at all, but reported balanced: %s -> %s, coefficients %s", r, p, coeffs)
        ensure(errs != 0, "species admit no balance at all, but zero errors reported")
    elif dim == 1:
        if v is not None:
            rec.label("unique")
            rec.label(f"unique {len(r)}->{len(p)}")
            rec.nontrivial(len(comps) >= 3)
            want = np.array([float(x) for x in v])
            ensure(errs == 0 and rxn.balanced, "unique balance %s missed (errors=%s, balanced=%s) for %s -> %s", want, errs, rxn.balanced, r, p)
            ratio = coeffs / want
            ensure(np.all(ratio > 0) and np.allclose(ratio, ratio[0], rtol=1e-5), "wrong coefficients %s, expected multiple of %s", coeffs, want)
        else:
            rec.label("one-dimensional, wrong signs")
            want = np.array([float(x) for x in ns[0]])
            best = min(int(np.sum(signs * want <= 0)), int(np.sum(signs * want >= 0)))
            ensure(errs == best, "balance needs %s phases moved or dropped, but %s errors reported for %s -> %s", best, errs, r, p)
            k = coeffs[np.argmax(abs(want))] / want[np.argmax(abs(want))]
            ensure(k != 0 and np.allclose(coeffs, k * want, atol=1e-6), "coefficients %s are not the null vector %s", coeffs, want)
    else:
        rec.label("under-determined")
        rec.nontrivial(errs == 0)
        if errs not in (0, np.inf):
            ensure(errs == wrong, "reported %s errors, coefficients show %s", errs, wrong)


def basic_case(case, rec):
    d = distinct(case)
    if d is None:
        rec.label("empty side")
        return
    r, p = d
    rxn = BasicReaction.balance(list(r), list(p), data={"note": case["perm"]})
    judge(rxn, r, p, rec, True)
    ensure(rxn.data["note"] == case["perm"], "the data given to a reaction are lost: %s", rxn.data)
    # formula constructor agrees
    r2 = BasicReaction.from_formulas([c.reduced_formula for c in r], [c.reduced_formula for c in p])
    judge(r2, r, p, rec, True)
    ensure(np.allclose(rxn.coefficients, r2.coefficients, atol=1e-6), "formula and composition constructors disagree")
    # order of the species does not matter to whether and how a unique balance is found
    cur = gen.Cursor([case["perm"], case["perm"] // 7, case["perm"] // 49])
    rp, pp = list(r), list(p)
    rp = rp[cur.take(len(rp)):] + rp[: cur.ints[0] % len(rp)]
    pp = pp[::-1] if case["perm"] % 2 else pp
    judge(BasicReaction.balance(rp, pp), rp, pp, rec, True)


def computed_case(case, rec):
    d = distinct(case)
    if d is None:
        return
    r, p = d
    mult = case["perm"]
    ents = []
    for i, c in enumerate(r + p):
        m = 1 + (mult // (3 ** i)) % 3
        ents.append(gen.mk_entry(dict(kind="plain", c=el_dict(c), m=m, e=-1.0 - i / 8, id=f"mp-{i}")))
    re, pe = ents[: len(r)], ents[len(r):]
    rxn = ComputedReaction.balance(re, pe, data={"note": mult})
    ensure(rxn.data["note"] == mult, "the data given to a reaction are lost: %s", rxn.data)
    judge(rxn, r, p, rec, False)
    ensure([e.entry_id for e in rxn.entries] == [e.entry_id for e in ents], "entries changed")
    if rxn.balanced and rxn.lowest_num_errors == 0:
        ensure({e.entry_id for e in rxn.reactant_entries} == {e.entry_id for e in re}, "reactant entries differ")
        ensure({e.entry_id for e in rxn.product_entries} == {e.entry_id for e in pe}, "product entries differ")
    els = sorted({e for c in r + p for e in el_dict(c)})
    o = OpenComputedReaction.balance(re, pe, chempots={Element(els[mult % len(els)]): -1.5})
    judge(o, r, p, rec, False)
    given = OpenComputedReaction.balance(re, pe, chempots={Element(els[mult % len(els)]): -1.5}, data={"note": mult})
    ensure(given.data["note"] == mult and np.allclose(given.coefficients, o.coefficients), "the data given to an open reaction are lost or change it: %s", given.data)
    ensure(np.allclose(o.coefficients, rxn.coefficients), "open and closed balances differ")
    o2 = OpenComputedReaction.balance(re, pe, chempots={})
    ensure(type(o2) is ComputedReaction, "no open element must give a closed reaction")


@st.composite
def given_coeffs(draw):
    d = draw(gen.rxn_data())
    d["factor"] = draw(st.sampled_from([1.0, 1.0, 7.0, 50.0, 1000.0, 0.05]))
    d["rel"] = draw(st.sampled_from([0.0, 0.0, 1e-3, 4e-3, 0.01, 0.05, 0.09, 0.2, -1e-3, -0.03, -0.08]))
    d["which"] = draw(st.integers(0, 5))
    d["cls"] = draw(st.sampled_from(["basic", "computed", "open"]))
    return d


def given_case(d, rec):
    """Reactions constructed from coefficients: balanced exactly when these conserve every element."""
    ks = [k * d["factor"] for k in d["k"]]
    i = d["which"] % len(ks)
    off = d["rel"] * ks[i]
    if 0 < abs(off) < 1e-4:
        off = 1e-3
    ks[i] += off
    comps = [Composition(c) for c in d["c"]]
    if d["cls"] == "basic":
        rxn = BasicReaction(comps, ks)
    else:
        ents = [gen.mk_entry(dict(kind="plain", c=c, m=1, e=-1.0 - j / 8, id=f"mp-{j}")) for j, c in enumerate(d["c"])]
        el = sorted({e for c in d["c"] for e in c})[0]
        rxn = ComputedReaction(ents, ks) if d["cls"] == "computed" else OpenComputedReaction(ents, ks, {Element(el): -1.0})
    rec.label("off balance" if off else "balanced")
    rec.nontrivial(len(ks) >= 3)
    for r, name in ((rxn, "given"), (rxn.reverse(), "reversed"), (rxn.copy(), "copied")):
        ensure(bool(r.balanced) == (off == 0), "%s reaction with coefficients %s of %s: balanced=%s", name, ks, comps, r.balanced)


FACETS = [
    Facet("given-coefficients", given_coeffs, given_case, quick=900, thorough=40000, shards=2),
    Facet("formulas-balanceable", balanceable, basic_case, quick=3000, thorough=100000, shards=4),
    Facet("formulas-free", free, basic_case, quick=1500, thorough=40000, shards=2),
    Facet("entries-balanceable", balanceable, computed_case, quick=1200, thorough=40000, shards=2),
    Facet("entries-free", free, computed_case, quick=600, thorough=20000, shards=1),
]
