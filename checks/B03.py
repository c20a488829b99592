"""B03: reactions survive text and dictionary round trips."""
import copy
import json
from fractions import Fraction
from math import gcd

from hypothesis import strategies as st
from monty.json import MontyDecoder, MontyEncoder

from pymatgen.core.composition import Element
from rxn_network.core import Composition
from rxn_network.reactions.basic import BasicReaction
from vp import gen
from vp.core import Facet, ensure
from vp.gen import allclose, close
from checks.B02 import build

PROPERTY = "B03"
RULE = ("Reactions with printable coefficients (integers to 99999 with at most four significant digits, simple fractions, decimals, tiny values) "
        "over reduced formulas are printed, parsed, normalised, serialised through real JSON and rebuilt, for all three classes and with data. "
        "Non-trivial: at least three phases and a coefficient other than one.")


@st.composite
def text_case(draw):
    els = draw(gen.el_sets(1, 4))
    nr, npd = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    coef = st.one_of(
        st.integers(1, 30).map(float), st.sampled_from([1.0, 0.5, 0.25, 1.5, 2.5, 0.75, 1000.0, 9999.0, 10000.0, 25000.0, 1e6, 0.001, 1e-5, 0.3333, 12.34, 0.0625]),
        st.tuples(st.integers(1, 9999), st.integers(0, 4)).map(lambda t: float(f"{t[0]}e-{t[1]}")),
    )
    cs = []
    for _ in range(nr + npd):
        c = gen._reduce(draw(gen.formula(els, max_amt=draw(st.sampled_from([3, 12])))))[0]
        if c not in cs:
            cs.append(c)
    while len(cs) < 2:
        cs.append(gen._reduce({e: len(cs) + 1 for e in els + ["Zr"]})[0])
    nr = max(1, min(nr, len(cs) - 1))
    return dict(c=cs, k=[-draw(coef) for _ in range(nr)] + [draw(coef) for _ in range(len(cs) - nr)])


def parse(text):
    """An independent parser of 'a A + B -> c C'."""
    sides = text.split(" -> ")
    ensure(len(sides) == 2, "not an equation: %r", text)
    out = []
    for s, sign in zip(sides, (-1, 1)):
        d = {}
        for t in s.split(" + "):
            parts = t.split(" ")
            ensure(1 <= len(parts) <= 2 and parts[-1], "malformed term %r in %r", t, text)
            ensure(Composition(parts[-1]) not in d, "phase printed twice in %r", text)
            d[Composition(parts[-1])] = sign * (float(parts[0]) if len(parts) == 2 else 1.0)
        out.append(d)
    return out


def text_fn(d, rec):
    comps = [Composition(c) for c in d["c"]]
    rxn = BasicReaction(comps, d["k"])
    rec.nontrivial(len(comps) >= 3 and any(abs(abs(k) - 1) > 1e-3 for k in d["k"]))
    rec.label("large coefficient" if max(map(abs, d["k"])) >= 10000 else "ordinary")
    text = str(rxn)
    left, right = parse(text)
    ensure({**left, **right} and allclose([{**left, **right}.get(c, 0) for c in comps], d["k"], rtol=2e-4, atol=1e-6),
           "printed %r for coefficients %s of %s", text, d["k"], comps)
    back = BasicReaction.from_string(text)
    ensure(set(back.reactants) == set(rxn.reactants) and set(back.products) == set(rxn.products),
           "parsing %r gave reactants %s, products %s", text, back.reactants, back.products)
    got = {**back.reactant_coeffs, **back.product_coeffs}
    ensure(allclose([got[c] for c in comps], d["k"], rtol=2e-4, atol=1e-9), "parsing %r gave coefficients %s", text, got)
    if all(abs(k - float(f"{k:.4g}")) < 1e-12 * abs(k) and not (1e-12 < abs(abs(k) - 1) < 2e-6) for k in d["k"]):
        ensure(back.balanced == rxn.balanced, "balance changed by printing %r", text)
    # spaces around the arrow and between coefficient and formula are optional
    tight = text.replace(" -> ", "->").replace(" + ", " +")
    ensure(BasicReaction.from_string(tight) == back, "parsing depends on spaces: %r", tight)


@st.composite
def spelled_case(draw):
    """Equations as people write them: formulas with groups in any place, decimal amounts, repeated elements."""
    amt = st.sampled_from(["", "", "", "2", "3", "4", "12", "0.5", "1.25", "0.05"])

    def unit(depth):
        out = ""
        for _ in range(draw(st.integers(1, 3))):
            if depth and draw(st.integers(0, 2)) == 0:
                out += "(" + unit(depth - 1) + ")" + draw(amt)
            else:
                out += draw(st.sampled_from(["Li", "O", "Mn", "C", "Ca", "H", "P", "N", "Cl"])) + draw(amt)
        return out

    def formula():
        return draw(st.sampled_from(["Li", "Ca", "Mn", "Y", "K"])) + draw(amt) + unit(2)

    n = draw(st.integers(2, 5))
    fs = [formula() for _ in range(n)]
    ks = [draw(st.sampled_from([None, None, "2", "3", "0.5", "1.25", "10", "1e-05", "2.5e+04"])) for _ in range(n)]
    return dict(f=fs, k=ks, nr=draw(st.integers(1, n - 1)), arrow=draw(st.sampled_from([" -> ", "->", "  -> "])), glue=draw(st.sampled_from([" ", ""])))


def spelled_fn(d, rec):
    comps = [Composition(f) for f in d["f"]]
    rec.nontrivial(any("(" in f for f in d["f"]) and len(comps) >= 3)
    terms = [(k + d["glue"] if k else "") + f for f, k in zip(d["f"], d["k"])]
    text = " + ".join(terms[: d["nr"]]) + d["arrow"] + " + ".join(terms[d["nr"]:])
    if len({c.reduced_composition for c in comps}) < len(comps) or any(abs(c.num_atoms) < 1e-3 for c in comps):
        rec.label("repeated phase")
        return
    rxn = BasicReaction.from_string(text)
    got = {**rxn.reactant_coeffs, **rxn.product_coeffs}
    want = {c: (-1 if i < d["nr"] else 1) * float(k or 1) for i, (c, k) in enumerate(zip(comps, d["k"]))}
    ensure(got.keys() == want.keys(), "%r parsed into phases %s, expected %s", text, list(got), list(want))
    ensure(all(abs(got[c] - want[c]) < 1e-9 * abs(want[c]) for c in want), "%r parsed into %s, expected %s", text, got, want)


@st.composite
def int_case(draw):
    d = draw(gen.rxn_data(scale=False))
    d["scales"] = draw(st.lists(st.sampled_from([2.0, 0.5, 3.0, 0.25, 10.0, 1.5]), min_size=1, max_size=3))
    d["bump"] = draw(st.integers(0, 5))
    return d


def norm_fn(d, rec):
    if d.get("identity"):
        rec.label("identity skipped")
        return
    comps = [Composition(c) for c in d["c"]]
    ks = [Fraction(k).limit_denominator(1000) for k in d["k"]]
    den = 1
    for k in ks:
        den = den * k.denominator // gcd(den, k.denominator)
    ints = [int(k * den) for k in ks]
    g = 0
    for i in ints:
        g = gcd(g, abs(i))
    want = [i // g for i in ints]
    rec.nontrivial(len(comps) >= 3)
    base = BasicReaction(comps, d["k"]).normalized_repr
    left, right = parse(base)
    if max(map(abs, want)) <= 9999:
        ensure(allclose([{**left, **right}[c] for c in comps], want, rtol=1e-6), "normalised equation %r, expected coefficients %s", base, want)
    for s in d["scales"]:
        sc = BasicReaction(comps, [k * s for k in d["k"]])
        ensure(sc.normalized_repr == base, "normalised equations of multiples differ: %r and %r", base, sc.normalized_repr)
        text, factor = sc.normalized_repr_and_factor()
        ensure(close(factor * s * d["k"][0], want[0], rtol=1e-5), "normalisation factor %s does not lead to %s", factor, text)
    # non-reduced listings print the same equation
    mult = [1 + (i + d["bump"]) % 3 for i in range(len(comps))]
    nr = BasicReaction([Composition({e: a * m for e, a in c.items()}) for c, m in zip(d["c"], mult)], [k / m for k, m in zip(d["k"], mult)])
    ensure(nr.normalized_repr == base, "equation depends on the listed cell size: %r and %r", nr.normalized_repr, base)
    bump = list(d["k"])
    bump[d["bump"] % len(bump)] *= 2
    if len(bump) > 1:
        ensure(BasicReaction(comps, bump).normalized_repr != base, "different reactions print alike: %r", base)


@st.composite
def dict_case(draw):
    d = draw(gen.rxn_data(identity=True))
    d["cls"] = draw(st.sampled_from(["basic", "computed", "open"]))
    d["es"] = draw(st.lists(gen.entry_params(), min_size=1, max_size=4))
    d["kind"] = draw(st.sampled_from(["plain", "gibbs", "interp"]))
    d["open"] = [draw(st.integers(0, 3)), draw(st.one_of(st.sampled_from([0.0, -1.5, -3.25]), st.floats(-4, 1, allow_nan=False)))]
    d["data"] = draw(st.dictionaries(st.sampled_from(["cost", "num_constraints", "path", "x"]),
                                     st.one_of(st.integers(-5, 5), st.floats(-3, 3, allow_nan=False, width=16), st.text(max_size=3), st.lists(st.integers(0, 3), max_size=3), st.none()), max_size=3))
    d["errors"] = draw(st.sampled_from([0, 0, 1, 2]))
    return d


def dict_fn(d, rec):
    rxn, open_els = build(d)
    rxn.data.update(d["data"])
    rxn.lowest_num_errors = d["errors"]
    rec.nontrivial(len(d["c"]) >= 3 and bool(d["data"]))
    rec.label(type(rxn).__name__)
    dd = rxn.as_dict()
    text = json.dumps(dd, cls=MontyEncoder)
    plain = json.loads(text)
    for how in ("from_dict", "decoder", "from_dict(plain)", "from_dict again"):
        if how == "decoder":
            r2 = json.loads(text, cls=MontyDecoder)
        elif how == "from_dict":
            keep = copy.deepcopy(dd)
            r2 = type(rxn).from_dict(dd)
            ensure(json.dumps(dd, cls=MontyEncoder) == json.dumps(keep, cls=MontyEncoder), "loading a dictionary changed it")
        else:
            keep = json.dumps(plain, sort_keys=True)
            r2 = type(rxn).from_dict(plain)
            try:
                now = json.dumps(plain, sort_keys=True)
            except TypeError as e:
                now = f"no longer plain data: {e}"
            ensure(now == keep, "loading a dictionary changed it: %s", now[:200])
        ensure(type(r2) is type(rxn), "%s gave a %s", how, type(r2).__name__)
        ensure(list(r2.compositions) == list(rxn.compositions), "compositions changed by %s", how)
        ensure(allclose(r2.coefficients, rxn.coefficients, rtol=1e-12), "coefficients changed by %s", how)
        ensure(r2.balanced == rxn.balanced, "balanced flag changed by %s", how)
        ensure(r2.data == rxn.data, "data %s became %s through %s", rxn.data, r2.data, how)
        ensure(r2.lowest_num_errors == rxn.lowest_num_errors, "error count changed by %s", how)
        ensure(set(r2.reactants) == set(rxn.reactants) and set(r2.products) == set(rxn.products), "sides changed by %s", how)
        if d["cls"] != "basic":
            ensure(close(r2.energy, rxn.energy), "energy %s became %s through %s", rxn.energy, r2.energy, how)
            ensure([e.entry_id for e in r2.entries] == [e.entry_id for e in rxn.entries], "entries changed by %s", how)
        if hasattr(rxn, "chempots"):
            ensure(dict(r2.chempots) == dict(rxn.chempots) and all(isinstance(k, Element) for k in r2.chempots), "chemical potentials %s became %s", rxn.chempots, r2.chempots)
        if rxn.balanced and not (d["cls"] != "basic" and rxn.num_atoms < 1e-9):
            ensure(r2 == rxn and rxn == r2 and hash(r2) == hash(rxn), "%s gave an unequal reaction", how)


FACETS = [
    Facet("text", text_case, text_fn, quick=2400, thorough=80000, shards=3),
    Facet("spelled", spelled_case, spelled_fn, quick=800, thorough=30000, shards=2),
    Facet("normalised", int_case, norm_fn, quick=1200, thorough=40000, shards=2),
    Facet("dict", dict_case, dict_fn, quick=1000, thorough=30000, shards=3),
]
