"""Generators (plain data) and builders (real objects) shared by the checks, plus exact rational linear algebra."""
from __future__ import annotations

from fractions import Fraction
from itertools import combinations

from hypothesis import strategies as st

# metals / cations / anions present in the elemental reference tables; mixture of mono- and di-atomic references
ELS = ["Li", "Na", "Fe", "Y", "C", "Si", "S", "O", "Cl", "Mn", "Ba", "Ti", "P", "N"]


# ----------------------------------------------------------------------------------------------------------- exact algebra
def nullspace(rows, ncols):
    """Basis of the right null space of an integer/Fraction matrix, exactly."""
    m = [[Fraction(x) for x in r] for r in rows]
    piv = []
    r = 0
    for c in range(ncols):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        pv = m[r][c]
        m[r] = [x / pv for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        piv.append(c)
        r += 1
        if r == len(m):
            break
    basis = []
    for free in (c for c in range(ncols) if c not in piv):
        v = [Fraction(0)] * ncols
        v[free] = Fraction(1)
        for i, c in enumerate(piv):
            v[c] = -m[i][free]
        basis.append(v)
    return basis


def comp_matrix(comps):
    """comps: list of {el: amount}. Rows = elements."""
    els = sorted({e for c in comps for e in c})
    return [[Fraction(c.get(e, 0)).limit_denominator(10**6) for c in comps] for e in els]


def exact_balance(reactants, products):
    """If the species have a one-dimensional null space whose vector is strictly negative on reactants and strictly
    positive on products, return it as Fractions (reactants first); else None.  Also returns the null-space dimension."""
    comps = list(reactants) + list(products)
    ns = nullspace(comp_matrix(comps), len(comps))
    if len(ns) != 1:
        return None, len(ns)
    v = ns[0]
    nr = len(reactants)
    if all(x < 0 for x in v[:nr]) and all(x > 0 for x in v[nr:]):
        return v, 1
    if all(x > 0 for x in v[:nr]) and all(x < 0 for x in v[nr:]):
        return [-x for x in v], 1
    return None, 1


# ------------------------------------------------------------------------------------------------------------- strategies
def el_sets(lo, hi, pool=None):
    return st.lists(st.sampled_from(pool or ELS), min_size=lo, max_size=hi, unique=True)


@st.composite
def formula(draw, els, max_amt=4, min_els=1, max_els=None):
    k = draw(st.lists(st.sampled_from(els), min_size=min(min_els, len(els)), max_size=min(max_els or len(els), len(els)), unique=True))
    return {e: draw(st.integers(1, max_amt)) for e in sorted(k)}


def energies(lo=-4.0, hi=0.5):
    """Energies per atom on a 1/128 eV grid: exactly representable, so ties are exact and shrinking is nice."""
    return st.integers(int(lo * 128), int(hi * 128)).map(lambda i: i / 128)


def volumes():
    return st.integers(8, 40).map(float)


@st.composite
def entry_list(draw, els, min_size=3, max_size=7, with_elements=True, temps=(300,), max_amt=3, polymorphs=True, mults=True, kinds=("gibbs",)):
    """List of plain entry dicts.  Elemental references (energy 0) are always included first when with_elements."""
    out = []
    T = draw(st.sampled_from(list(temps)))
    if with_elements:
        for i, e in enumerate(els):
            out.append(dict(kind="gibbs", c={e: 1}, m=1, e=0.0, v=12.0, T=T, id=f"el-{e}"))
    n = draw(st.integers(min_size, max_size))
    for i in range(n):
        if polymorphs and out and i > 0 and draw(st.integers(0, 5)) == 0:
            base = draw(st.sampled_from([x for x in out if len(x["c"]) > 1] or out))
            c = dict(base["c"])
            if len(c) == 1:
                e = draw(st.integers(1, 64)) / 128
            else:
                e = draw(energies())
        else:
            c = draw(formula(els, max_amt=max_amt, min_els=2))
            e = draw(energies())
        if len(c) == 1 and e < 0:
            e = 0.25
        kind = draw(st.sampled_from(list(kinds)))
        out.append(dict(kind=kind, c=c, m=draw(st.integers(1, 3)) if mults else 1, e=e, v=draw(volumes()), T=T, id=f"mp-{i}"))
    return out


def comp_of(d):
    return {k: v * d.get("m", 1) for k, v in d["c"].items()}


def reduced_of(c):
    """Reduced integer composition the way pymatgen does it (diatomic elements keep factor 2 -> O2)."""
    from rxn_network.core import Composition

    return Composition(c).reduced_composition


def mk_comp(c):
    from rxn_network.core import Composition

    return Composition(c)


def mk_entry(d):
    from pymatgen.entries.computed_entries import ComputedEntry, ConstantEnergyAdjustment

    from rxn_network.entries.gibbs import GibbsComputedEntry
    from rxn_network.entries.interpolated import InterpolatedEntry
    from rxn_network.entries.nist import NISTReferenceEntry

    comp = mk_comp(comp_of(d))
    adj = [ConstantEnergyAdjustment(a[0], uncertainty=a[1], name=f"adj{i}") for i, a in enumerate(d.get("adj", []))]
    if d["kind"] == "gibbs":
        return GibbsComputedEntry(comp, d["e"], d["v"], d["T"], entry_id=d["id"], energy_adjustments=adj or None, data=dict(d.get("data", {})))
    if d["kind"] == "interp":
        return InterpolatedEntry(comp, d["e"] * comp.num_atoms, entry_id=d["id"], energy_adjustments=adj or None, data=dict(d.get("data", {})))
    if d["kind"] == "plain":
        return ComputedEntry(comp, d["e"] * comp.num_atoms, entry_id=d["id"], energy_adjustments=adj or None, data=dict(d.get("data", {})))
    if d["kind"] == "nist":
        return NISTReferenceEntry(comp, d["T"])
    raise ValueError(d["kind"])


def mk_entries(ds):
    return [mk_entry(d) for d in ds]


def balanced_pairs(comps, max_r=2, max_p=2, limit=400):
    """All (r_idx, p_idx, coeffs) over distinct *reduced* compositions with a unique strictly signed balance (both
    directions listed).  comps: list of {el: amt} already reduced, duplicates allowed (polymorphs)."""
    n = len(comps)
    subs = [c for k in range(1, max(max_r, max_p) + 1) for c in combinations(range(n), k)]
    out = []
    keys = [tuple(sorted(c.items())) for c in comps]
    for i, a in enumerate(subs):
        ka = {keys[x] for x in a}
        if len(ka) < len(a):
            continue
        ea = {e for x in a for e in comps[x]}
        for b in subs[i + 1:]:
            kb = {keys[x] for x in b}
            if len(kb) < len(b) or ka & kb or ea != {e for x in b for e in comps[x]}:
                continue
            v, dim = exact_balance([comps[x] for x in a], [comps[x] for x in b])
            if v is None:
                continue
            if len(a) <= max_r and len(b) <= max_p:
                out.append((a, b, [float(x) for x in v]))
            if len(b) <= max_r and len(a) <= max_p:
                w = [-float(x) for x in v]
                out.append((b, a, w[len(a):] + w[: len(a)]))
            if len(out) >= limit:
                return out
    return out


def close(a, b, rtol=1e-7, atol=1e-8):
    a, b = float(a), float(b)
    if a != a or b != b:
        return (a != a) and (b != b)
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def allclose(xs, ys, rtol=1e-7, atol=1e-8):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(close(a, b, rtol, atol) for a, b in zip(xs, ys))


class Cursor:
    """Deals integers from a generated list, so that interpreters can make bounded choices that shrink."""

    def __init__(self, ints):
        self.ints = list(ints)
        self.i = 0

    def take(self, n):
        if n <= 0:
            return 0
        v = self.ints[self.i % len(self.ints)] if self.ints else 0
        self.i += 1
        return v % n

    def pick(self, seq):
        return seq[self.take(len(seq))]


# --------------------------------------------------------------------------------------------- balanced reactions, by construction
def _reduce(c):
    from rxn_network.core import Composition

    red, f = Composition(c).get_reduced_composition_and_factor()
    return {str(k): v for k, v in red.items()}, f


@st.composite
def rxn_data(draw, min_els=2, max_els=4, scale=True, identity=False, pool=None):
    """A balanced reaction as plain data: {"c": [reduced comps], "k": [coefficients]}; phases distinct within the reaction.
    With identity=True some cases are identity (or unbalanced near-identity) reactions, listing phases on both sides."""
    els = draw(el_sets(min_els, max_els, pool))
    if identity and draw(st.integers(0, 3)) == 0:
        cs = draw(st.lists(formula(els, max_amt=3), min_size=1, max_size=3))
        u = []
        for c in cs:
            r, _ = _reduce(c)
            if r not in u:
                u.append(r)
        k = [draw(st.integers(1, 4)) for _ in u]
        k2 = list(k)
        kind = draw(st.sampled_from(["same", "same", "differ", "scaled", "shift", "shift"]))
        if kind == "shift":  # balanced, but not an identity: the phases can be converted into each other
            ns = nullspace(comp_matrix(u), len(u))
            if not ns:
                u = [_reduce(c)[0] for c in ({els[0]: 1}, {els[0]: 1, els[-1]: 1}, {els[0]: 1, els[-1]: 2})]
                k = [draw(st.integers(1, 4)) for _ in u]
                ns = nullspace(comp_matrix(u), 3)
            v = [float(x) for x in ns[draw(st.integers(0, len(ns) - 1))]]
            f = draw(st.sampled_from([1.0, -1.0, 0.5])) / max(abs(x) for x in v)
            k2 = [x + f * y for x, y in zip(k, v)]
            k = [x + (1 if min(k2) < 0.25 else 0) for x in k]
            k2 = [x + f * y for x, y in zip(k, v)]
        if kind == "differ":
            k2[draw(st.integers(0, len(k2) - 1))] += 1
        if kind == "scaled":
            k2 = [2 * x for x in k2]
        order = draw(st.permutations(range(len(u))))
        return dict(c=u + [u[i] for i in order], k=[-float(x) for x in k] + [float(k2[i]) for i in order], identity=kind == "same")
    total = {}
    comps, ks = [], []

    def put(c, k):
        r, f = _reduce(c)
        if r in comps:
            ks[comps.index(r)] += k * f
        else:
            comps.append(r)
            ks.append(k * f)

    for _ in range(draw(st.sampled_from([2, 2, 3, 1]))):
        c = draw(formula(els, max_amt=3))
        n = draw(st.integers(1, 3))
        put(c, -n)
        for e, a in c.items():
            total[e] = total.get(e, 0) + a * n
    for _ in range(draw(st.sampled_from([1, 2, 0, 3]))):
        part = {e: draw(st.integers(0, a)) * draw(st.sampled_from([1, 1, 0])) for e, a in sorted(total.items())}
        part = {e: a for e, a in part.items() if a}
        if not part or all(part.get(e, 0) == a for e, a in total.items()):
            continue
        put(part, 1)
        total = {e: a - part.get(e, 0) for e, a in total.items() if a > part.get(e, 0)}
    snap = (list(comps), list(ks))
    put(total, 1)
    if all(abs(k) < 1e-9 for k in ks):  # everything cancelled: decompose into the elements instead
        comps[:], ks[:] = snap
        for e, a in sorted(total.items()):
            put({e: 1}, a)
    keep = [i for i, k in enumerate(ks) if abs(k) > 1e-9]
    comps, ks = [comps[i] for i in keep], [float(ks[i]) for i in keep]
    if not comps:  # the phases cancelled completely: form a compound from the elements instead
        c = {e: draw(st.integers(1, 4)) for e in els}
        put(c, 1)
        for e, a in c.items():
            put({e: 1}, -a)
        ks[:] = [float(k) for k in ks]
    if scale:
        s = draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 0.25, 3.0, 1.5]))
        ks = [k * s for k in ks]
    order = draw(st.permutations(range(len(comps))))
    return dict(c=[comps[i] for i in order], k=[ks[i] for i in order], identity=False)


def rxn_entries(case, es, kind="plain", T=300):
    """Entry dicts for the phases of a rxn_data case; es: list of {e, m, adj, v} dicts (cycled)."""
    out = []
    for i, c in enumerate(case["c"]):
        x = es[i % len(es)]
        out.append(dict(kind=kind, c=c, m=x.get("m", 1), e=x["e"], v=x.get("v", 15.0), T=T, id=f"mp-{i}", adj=x.get("adj", []), data=x.get("data", {})))
    return out


@st.composite
def entry_params(draw, uncertainties=False):
    d = dict(e=draw(energies()), m=draw(st.integers(1, 4)), v=draw(volumes()))
    if uncertainties:
        n = draw(st.integers(0, 2))
        d["adj"] = [[draw(st.integers(-64, 64)) / 64, draw(st.one_of(st.integers(1, 64).map(lambda i: i / 256), st.none()))] for _ in range(n)]
        d["adj"] = [[a, float("nan") if u is None else u] for a, u in d["adj"]]
    return d
