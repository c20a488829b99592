"""E02: stability filters, stabilised, interpolated and perturbed entries respect the convex hull."""
import json

import numpy as np
from hypothesis import strategies as st
from monty.json import MontyEncoder
from pymatgen.analysis.phase_diagram import GrandPotPDEntry
from pymatgen.core.composition import Element
from pymatgen.entries.computed_entries import ConstantEnergyAdjustment
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.interpolated import InterpolatedEntry
from vp import gen, geom
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "E02"
RULE = ("Entry sets of two to four elements with polymorphs, multiples, exact ties and unstable elements; limits drawn from the actual energies above hull, near them "
        "and at random; any member entry, tolerance and target formula. The hull is recomputed by linear programming. Entries within 1e-6 eV of the limit are not "
        "judged unless they are unambiguously on the hull. Non-trivial: something is filtered out and something unstable is kept, or an unstable entry is moved.")
EPS = 1e-6


@st.composite
def pool(draw, lo=2, hi=4):
    els = draw(gen.el_sets(lo, hi))
    return els, draw(gen.entry_list(els, min_size=3, max_size=9, kinds=("gibbs", "gibbs", "interp"), temps=(300, 900)))


class Hull:
    def __init__(self, es):
        self.es = list(es)
        self.els = sorted({x.symbol for e in self.es for x in e.composition})
        self.F = [self.frac(e) for e in self.es]
        self.E = [self.epa(e) for e in self.es]

    def frac(self, e):
        c = e.composition if hasattr(e, "composition") else e
        n = sum(c.values())
        return [c[x] / n for x in self.els]

    @staticmethod
    def epa(e):
        return e.energy / sum(e.composition.values())

    def at(self, e, skip=()):
        k = [i for i in range(len(self.es)) if i not in skip]
        return geom.hull_energy([self.F[i] for i in k], [self.E[i] for i in k], self.frac(e))

    def above(self, i):
        return self.E[i] - self.at(self.es[i])

    def surely_stable(self, i):
        """Removing the entry (alone) raises the hull there."""
        h = self.at(self.es[i], skip=(i,))
        return h is None or h - self.E[i] > EPS


def rf(e):
    return Composition({x.symbol: a for x, a in e.composition.items()}).reduced_formula


@st.composite
def filter_case(draw):
    els, es = draw(pool())
    return dict(es=es, lim=draw(st.one_of(st.sampled_from([0.0, 0.0, 0.025, 0.1, 0.5]), st.integers(0, 300).map(lambda i: i / 256))), pick=draw(st.one_of(st.none(), st.tuples(st.integers(0, 20), st.sampled_from([-1e-3, 1e-3, -0.05])).map(list))))


def filter_fn(d, rec):
    es = gen.mk_entries(d["es"])
    h = Hull(es)
    ab = [h.above(i) for i in range(len(es))]
    lim = d["lim"]
    if d["pick"]:
        lim = max(0.0, ab[d["pick"][0] % len(es)] + d["pick"][1])
    s = GibbsEntrySet(es)
    snap = sorted(json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) for e in es)
    sure_in = [ab[i] <= lim - EPS or (lim >= 0 and h.surely_stable(i)) for i in range(len(es))]
    sure_out = [ab[i] >= lim + EPS for i in range(len(es))]
    poly = s.filter_by_stability(lim, include_polymorphs=True)
    for i, e in enumerate(es):
        if sure_in[i]:
            ensure(e in poly, "with polymorphs: %s (%s above hull) is missing at limit %s", e, ab[i], lim)
        if sure_out[i]:
            ensure(e not in poly, "with polymorphs: %s (%s above hull) was kept at limit %s", e, ab[i], lim)
    ensure(all(e in s for e in poly), "foreign entries")
    for opt in ({}, {"include_polymorphs": False}, {"include_polymorphs": None}):
        one = s.filter_by_stability(lim, **opt)
        ensure(isinstance(one, GibbsEntrySet) and all(e in s for e in one), "foreign entries")
        for f in {rf(e) for e in es}:
            idx = [i for i in range(len(es)) if rf(es[i]) == f]
            got = [e for e in one if rf(e) == f]
            lo = min(h.E[i] for i in idx)
            if all(sure_out[i] for i in idx):
                ensure(not got, "%s is %s above the hull but was kept at limit %s", f, min(ab[i] for i in idx), lim)
            elif any(sure_in[i] for i in idx):
                ensure(len(got) == 1, "%s entries of %s kept, expected one", len(got), f)
            ensure(len(got) <= 1 and all(close(h.epa(e), lo) for e in got), "the entry kept for %s is not its ground state: %s", f, got)
    ensure(len(s) == len(es) and sorted(json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) for e in s) == snap, "filtering altered the set")
    rec.nontrivial(any(sure_out) and any(sure_in[i] and ab[i] > EPS for i in range(len(es))))
    rec.label("limit 0" if lim == 0 else "limit > 0")


@st.composite
def stab_case(draw):
    els, es = draw(pool())
    near = draw(st.sampled_from([None, None, 1 / 2048, 1 / 1024, 1 / 512, 1 / 16384]))
    if near:  # an entry just above the ground state of its composition
        k = draw(st.integers(0, len(es) - 1))
        es.append(dict(es[k], e=es[k]["e"] + near, id="near"))
    return dict(es=es, which=len(es) - 1 if near and draw(st.booleans()) else draw(st.integers(0, 30)), tol=draw(st.sampled_from([1e-3, 1e-3, 0.01, 0.125, 1e-5])), force=draw(st.booleans()), calc=draw(st.booleans()),
                adj=draw(st.integers(-64, 64)) / 32, query=draw(st.booleans()), grand=draw(st.booleans()))


def stab_fn(d, rec):
    es = gen.mk_entries(d["es"])
    s = GibbsEntrySet(es, calculate_e_above_hulls=d["calc"])
    h = Hull(es)
    i = d["which"] % len(es)
    e = es[i]
    w = h.above(i)
    before = json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True)
    if d["query"]:
        s.entries_list, s.min_entries_by_formula
    ensure(close(s.get_e_above_hull(e), w, atol=1e-6), "energy above hull %s, expected %s", s.get_e_above_hull(e), w)
    new = s.get_stabilized_entry(e, tol=d["tol"], force=d["force"])
    n = sum(e.composition.values())
    moved = abs(new.energy - e.energy) > 1e-12
    if w > EPS or d["force"]:
        ensure(close(new.energy, e.energy - w * n - d["tol"], atol=2e-6 * n), "stabilised energy %s, expected %s - %s*%s - %s", new.energy, e.energy, w, n, d["tol"])
    elif h.surely_stable(i):
        ensure(not moved and new == e, "a stable entry was changed")
    ensure(type(new) is type(e) and new.composition == e.composition and new.entry_id == e.entry_id, "stabilising changes identity: %s", new)
    ensure(new.data == e.data and new.parameters == e.parameters, "stabilising changes data")
    ensure(close(new.uncorrected_energy, e.uncorrected_energy), "uncorrected energy")
    ensure(len(new.energy_adjustments) == len(e.energy_adjustments) + (1 if moved else 0), "adjustments %s", new.energy_adjustments)
    ensure(json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) == before and len(s) == len(es), "stabilising altered the original")
    if isinstance(new, GibbsComputedEntry):
        ensure(new.temperature == e.temperature, "temperature")
    rest = Hull(es[:i] + es[i + 1:] + [new])
    ensure(new.energy / n - rest.at(new) <= 1e-6, "the stabilised entry is %s above the hull", new.energy / n - rest.at(new))
    if moved and (w > EPS or d["force"]):
        ensure(rest.surely_stable(len(es) - 1) or d["tol"] / n < 2 * EPS, "the stabilised entry does not lie below the hull of the others")
    rec.nontrivial(w > EPS)
    # adjusted entries
    adj = ConstantEnergyAdjustment(d["adj"], name="shift")
    a = s.get_adjusted_entry(e, adj)
    ensure(close(a.energy, e.energy + d["adj"]) and type(a) is type(e) and a.composition == e.composition, "adjusted entry %s", a)
    if d["grand"]:
        els = sorted(x.symbol for x in e.composition)
        if len(els) > 1:
            g = e.to_grand_entry({Element(els[0]): -1.0})
            ag = s.get_adjusted_entry(g, adj)
            ensure(isinstance(ag, GrandPotPDEntry) and close(ag.energy, g.energy + d["adj"]), "adjusted grand potential entry: %s, expected %s", ag.energy, g.energy + d["adj"])


@st.composite
def interp_case(draw):
    els, es = draw(pool())
    return dict(es=es, f=draw(gen.formula(els, max_amt=5)), m=draw(st.integers(1, 3)), tol=draw(st.sampled_from([None, 1e-3, 0.02, 0.125, 0.0])), foreign=draw(st.sampled_from(["K", "Zr"])))


def interp_fn(d, rec):
    es = gen.mk_entries(d["es"])
    s = GibbsEntrySet(es)
    h = Hull(es)
    text = "".join(f"{e}{a * d['m']}" for e, a in d["f"].items())
    kw = {} if d["tol"] is None else {"tol_per_atom": d["tol"]}
    tol = 1e-3 if d["tol"] is None else d["tol"]
    e = s.get_interpolated_entry(text, **kw)
    comp = Composition(d["f"]).reduced_composition
    n = sum(comp.values())
    ensure(isinstance(e, InterpolatedEntry) and e.composition == comp, "interpolated entry for %s: %s", text, e)
    want = (h.at(comp) - tol) * n
    ensure(close(e.energy, want, atol=1e-6 * n), "interpolated energy of %s: %s, expected %s", text, e.energy, want)
    ensure(not e.is_experimental and e.unique_id == e.entry_id, "an interpolated entry is experimental (%s), known as %s and %s", e.is_experimental, e.unique_id, e.entry_id)
    anon = [InterpolatedEntry(c, -1.0, entry_id=i) for c in (comp, comp * 2) for i in (None, "x")]
    ensure(anon[0].entry_id and anon[2].entry_id and anon[0].unique_id != anon[2].unique_id and anon[1].entry_id == "x", "ids of interpolated entries: %s", [x.entry_id for x in anon])
    ensure(tol == 0 or close(e.correction_uncertainty, 0.05 * n), "uncertainty %s", e.correction_uncertainty)
    ensure(len(s) == len(es), "interpolation altered the set")
    s.add(e)
    if tol > 2 * EPS:
        ensure(e in s.filter_by_stability(0.0), "the interpolated entry of %s is not stable", text)
        ensure(close(s.get_e_above_hull(e), 0.0), "the interpolated entry of %s is above the hull", text)
    try:
        s.get_interpolated_entry(f"{d['foreign']}O2")
        ensure(False, "interpolated outside of the chemical system")
    except ValueError:
        pass
    rec.nontrivial(len(d["f"]) > 1)


@st.composite
def jit_case(draw):
    els, es = draw(pool())
    for x in es:
        if x["kind"] == "interp" and draw(st.booleans()):
            x["adj"] = [[0.25, 0.125]]
    return dict(es=es)


def jit_fn(d, rec):
    es = gen.mk_entries(d["es"])
    s = GibbsEntrySet(es)
    by = {(e.entry_id, e.composition.formula): e for e in es}
    z = {}
    for rep in range(2):
        r = s.get_entries_with_jitter()
        got = {(e.entry_id, e.composition.formula): e for e in r}
        ensure(len(got) == len(r) and set(got) <= set(by), "foreign or repeated entries %s", sorted(got))
        for k, e in by.items():
            if len(e.composition) == 1:
                if k in got:  # (missing elements: known finding)
                    ensure(close(got[k].energy, e.energy), "the energy of an element was shifted")
                continue
            ensure(k in got, "%s is missing after adding noise", e)
            u = e.correction_uncertainty
            dE = got[k].energy - e.energy
            if u != u or u == 0:
                ensure(abs(dE) < 1e-12, "an entry without uncertainty was shifted by %s", dE)
            else:
                ensure(abs(dE) <= 9 * u, "%s was shifted by %s with uncertainty %s", e, dE, u)
                ensure(abs(dE) > 1e-9 * u, "%s was not shifted", e)
                z[(rep, k)] = round(dE / u, 6)
    ensure(len(set(z.values())) >= max(1, len(z) - 1) or not z, "entries share their noise: %s", z)
    ensure(sorted((e.entry_id, e.energy) for e in s) == sorted((e.entry_id, e.energy) for e in gen.mk_entries(d["es"])), "noise altered the original set")
    rec.nontrivial(len(z) > 3)


@st.composite
def noise_case(draw):
    els = draw(gen.el_sets(2, 3))
    n = 40
    return dict(els=els, u=draw(st.sampled_from([0.125, 0.03125, 0.5])), seed=draw(st.integers(0, 2**31)), amt=[draw(st.integers(1, 6)) for _ in range(n * len(els))], n=n)


def noise_fn(d, rec):
    k = len(d["els"])
    cs = []
    for i in range(d["n"]):
        c = {e: a for e, a in zip(d["els"], d["amt"][i * k: i * k + k])}
        if c not in cs:
            cs.append(c)
    us = [d["u"] * (1 + i % 3) for i in range(len(cs))]
    es = [gen.mk_entry(dict(kind="interp", c=c, m=1, e=-1.0, T=300, id="p%s" % i, adj=[[0.25, u]])) for i, (c, u) in enumerate(zip(cs, us))]
    s = GibbsEntrySet(es)
    u = {e.entry_id: e.correction_uncertainty for e in es}
    E = {e.entry_id: e.energy for e in es}
    np.random.seed(d["seed"] % 2**32)
    reps = 1200 // len(es) + 1
    z = [[(x.energy - E[x.entry_id]) / u[x.entry_id] for x in sorted(s.get_entries_with_jitter(), key=lambda x: x.entry_id)] for _ in range(reps)]
    z = np.array(z)
    ensure(z.shape == (reps, len(es)), "entries are missing")
    mean, std = z.mean(), z.std()
    # 1200 draws: seven standard errors
    ensure(abs(mean) < 0.21, "the noise has the mean %s (in units of the uncertainty)", mean)
    ensure(abs(std - 1) < 0.15, "the noise has the standard deviation %s (in units of the uncertainty)", std)
    # neither shared by the entries of a set, nor repeated from call to call
    ensure(abs(z.mean(axis=1)).max() < 8 / len(es) ** 0.5, "entries of one set are shifted together: %s", z.mean(axis=1))
    ensure(abs(z.mean(axis=0)).max() < 8 / reps**0.5, "entries are shifted alike every time: %s", z.mean(axis=0))
    rec.nontrivial(True)


def jitter_probe():
    s = GibbsEntrySet(gen.mk_entries([dict(kind="gibbs", c={"Li": 1}, m=1, e=0.0, v=12.0, T=300, id="el"), dict(kind="gibbs", c={"Li": 2, "O": 1}, m=1, e=-1.0, v=12.0, T=300, id="b")]))
    return not any(len(e.composition) == 1 for e in s.get_entries_with_jitter())


KNOWN_PROBES = {"jitter-drops-elements": jitter_probe}
FACETS = [Facet("filter", filter_case, filter_fn, quick=160, thorough=6000, shards=4), Facet("stabilised", stab_case, stab_fn, quick=160, thorough=6000, shards=3),
          Facet("interpolated", interp_case, interp_fn, quick=120, thorough=4000, shards=2), Facet("jitter", jit_case, jit_fn, quick=80, thorough=2000),
          Facet("noise", noise_case, noise_fn, quick=12, thorough=200)]
