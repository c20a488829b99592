"""E06: entry preparation honours its stability limit and includes requested phases."""
import json
import warnings

from hypothesis import strategies as st
from monty.json import MontyEncoder
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.entries.utils import initialize_entry, process_entries
from checks import E05
from vp import gen, geom, thermo
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "E06"
RULE = ("Collections of computed structure entries as for E05, with every limit (drawn at random and near actual energies above hull), study and filter temperature, "
        "reference-data switch and list of requested formulas (present, filtered out, absent, or elements); the prepared set is predicted from plain arithmetic, "
        "frozen tables and a linear-programming hull at the filter temperature, and compared again for shuffled input. Entries within 1e-6 eV of the limit are not "
        "judged unless unambiguously on the hull. Non-trivial: something is filtered out and a requested formula is not already stable.")
EPS = 1e-6


def strip(c):
    return {x.symbol if hasattr(x, "symbol") else x: a for x, a in c.items()}


@st.composite
def case(draw):
    if draw(st.booleans()):
        els = draw(gen.el_sets(1, 1, ["Li", "Na", "Ba", "Fe", "N", "Si", "Y"])) + ["C", "O"]
    else:
        els = draw(gen.el_sets(2, 3))
    es = draw(E05.entries_(els, 3, 8, E05.tab_for(els)))
    Ts = st.sampled_from([300, 600, 900, 1000.0, 1250, 1700])
    opt = dict(include_nist_data=draw(st.booleans()), include_freed_data=draw(st.sampled_from([False, False, True])), ignore_nist_solids=draw(st.booleans()))
    inc = []
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.sampled_from(["have", "have", "new", "el"]))
        if k == "have":
            c = draw(st.sampled_from(es))["c"]
        elif k == "el":
            c = {draw(st.sampled_from(els)): 1}
        else:
            c = draw(gen.formula(els, max_amt=5, min_els=2))
        inc.append("".join(f"{e}{a}" for e, a in c.items()))
    return dict(es=es, T=draw(Ts), Tf=draw(st.one_of(st.none(), Ts)), opt=opt, poly=draw(st.booleans()), inc=inc, calc=draw(st.booleans()),
                lim=draw(st.one_of(st.sampled_from([0.0, 0.05, 0.5]), st.tuples(st.integers(0, 30), st.sampled_from([-1e-3, 1e-3])).map(list))), rev=draw(st.booleans()), asiter=draw(st.booleans()))


def full_opt(d):
    return dict(d["opt"], apply_carbonate_correction=True, apply_atmospheric_co2_correction=True, calculate_e_above_hulls=False, minimize_obj_size=False)


def at(d, T):
    """Prediction at T: {key: (energy per atom, composition)}; keys are decided at the filter temperature."""
    Tf = d["Tf"] or d["T"]
    keys, _ = E05.predict(dict(es=d["es"], opt=full_opt(d), T=Tf))
    plain = dict(full_opt(d), include_nist_data=False, include_freed_data=False)
    bare, _ = E05.predict(dict(es=d["es"], opt=plain, T=T))
    out = {}
    for k, (v, x) in keys.items():
        if x is not None:
            out[k] = (bare[k][0], x["c"])
        else:
            t = thermo.tables("nist.json.gz" if k[0].startswith("NIST") else "freed.json.gz")[k[1]]
            c = strip(Composition(k[1]))
            g = thermo.lookup(t, T)
            if g is not None:
                out[k] = (g / sum(c.values()) + (thermo.co2_shift_per_atom(T) if k[1] == "CO2" else 0.0), c)
    return out


class PHull:
    def __init__(self, pred):
        self.keys = list(pred)
        self.els = sorted({x for _, c in pred.values() for x in c})
        self.F = [self.frac(pred[k][1]) for k in self.keys]
        self.E = [pred[k][0] for k in self.keys]

    def frac(self, c):
        n = sum(c.values())
        return [c.get(x, 0) / n for x in self.els]

    def at(self, c, skip=()):
        k = [i for i in range(len(self.E)) if i not in skip]
        return geom.hull_energy([self.F[i] for i in k], [self.E[i] for i in k], self.frac(c))


def ekey(e):
    n = type(e).__name__
    return (n, e.entry_id if n == "GibbsComputedEntry" else e.composition.reduced_formula)


def fn(d, rec):
    T, Tf = d["T"], d["Tf"] or d["T"]
    first = at(d, Tf)
    final = at(d, T)
    h = PHull(first)
    ab = {k: first[k][0] - h.at(first[k][1]) for k in h.keys}
    lim = d["lim"]
    if isinstance(lim, list):
        lim = max(0.0, sorted(ab.values())[lim[0] % len(ab)] + lim[1])

    def stable(k):
        i = h.keys.index(k)
        x = h.at(first[k][1], skip=(i,))
        return x is None or x - first[k][0] > EPS

    sure_in = {k: ab[k] <= lim - EPS or stable(k) for k in ab}
    sure_out = {k: ab[k] >= lim + EPS for k in ab}
    rf = {k: Composition(first[k][1]).reduced_formula for k in ab}
    asked = {Composition(f).reduced_formula for f in d["inc"]}
    es = [E05.build(x) for x in d["es"]]
    if d["rev"]:
        es.reverse()
    before = [json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) for e in es]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = process_entries(iter(es) if d["asiter"] else es, T, lim, filter_at_temperature=d["Tf"], include_polymorphs=d["poly"], formulas_to_include=list(d["inc"]) or None,
                            calculate_e_above_hulls=d["calc"], **d["opt"])
    ensure(isinstance(s, GibbsEntrySet), "type %s", type(s))
    for e, b in zip(es, before):
        ensure(json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) == b, "the input entry %s was altered", e.entry_id)
    got = {}
    for e in s:
        ensure(ekey(e) not in got, "%s appears more than once", e)
        got[ekey(e)] = e
        if not isinstance(e, InterpolatedEntry):
            ensure(ekey(e) in final, "unexpected entry %s", e)
            ensure(e.temperature == T, "%s is at %s K, expected %s", e, e.temperature, T)
            ensure(close(e.energy_per_atom, final[ekey(e)][0], atol=1e-7), "%s: %s eV/atom, expected %s", e, e.energy_per_atom, final[ekey(e)][0])
    have = set(rf.values())
    for f in have:
        ks = [k for k in ab if rf[k] == f]
        lo = min(first[k][0] for k in ks)
        best = [k for k in ks if first[k][0] <= lo + 1e-9]
        kept = [k for k in got if k in ks]
        gone = [k for k in ks if k not in final]  # reference data that do not reach the study temperature
        if f in asked:
            ensure(any(k in got for k in best) or any(k in gone for k in best), "%s was asked for; its ground state %s is missing", f, best)
        if d["poly"]:
            for k in ks:
                if sure_in[k] and k not in gone:
                    ensure(k in got, "%s (%s above hull) is missing at limit %s", k, ab[k], lim)
                if sure_out[k] and not (f in asked and k in best):
                    ensure(k not in got, "%s (%s above hull) was kept at limit %s", k, ab[k], lim)
        else:
            ensure(all(k in best for k in kept), "kept %s of %s, which is not the ground state %s", kept, f, best)
            if len(best) == 1:
                b = best[0]
                if (sure_in[b] or f in asked) and b not in gone:
                    ensure(b in got, "%s (%s above hull) is missing at limit %s", b, ab[b], lim)
                if sure_out[b] and f not in asked:
                    ensure(b not in got, "%s (%s above hull) was kept at limit %s", b, ab[b], lim)
    interp = {e.composition.reduced_formula: e for e in s if isinstance(e, InterpolatedEntry)}
    ensure(set(interp) == asked - have, "interpolated entries for %s, expected %s", sorted(interp), sorted(asked - have))
    for f, e in interp.items():
        n = sum(e.composition.values())
        w = (h.at(strip(e.composition)) - 1e-3) * n
        ensure(close(e.energy, w, atol=1e-6 * n), "interpolated energy of %s: %s, expected %s", f, e.energy, w)
    if d["calc"]:
        es2 = list(s)
        els = sorted({x.symbol for e in es2 for x in e.composition})
        fr = [[e.composition[x] / sum(e.composition.values()) for x in els] for e in es2]
        for i, e in enumerate(es2):
            w = e.energy_per_atom - geom.hull_energy(fr, [x.energy_per_atom for x in es2], fr[i])
            ensure(close(e.data["e_above_hull"], w, atol=1e-6), "stored energy above hull of %s: %s, expected %s", e, e.data["e_above_hull"], w)
    rec.nontrivial(any(sure_out.values()) and any(f not in have or not any(stable(k) for k in ab if rf[k] == f) for f in asked))
    rec.label("filter temperature" if d["Tf"] else "study temperature")


@st.composite
def init_case(draw):
    els = draw(gen.el_sets(2, 3))
    return dict(es=draw(gen.entry_list(els, min_size=3, max_size=8, kinds=("gibbs", "gibbs", "interp"))), f=draw(gen.formula(els, max_amt=4)), m=draw(st.integers(1, 3)), which=draw(st.integers(0, 30)),
                have=draw(st.booleans()), stab=draw(st.booleans()), near=draw(st.sampled_from([None, None, 0.0005, 0.002, 0.005, 0.009, 0.02])))


def init_fn(d, rec):
    es = gen.mk_entries(d["es"])
    s = GibbsEntrySet(es)
    c = strip(es[d["which"] % len(es)].composition) if d["have"] else d["f"]
    if d["near"] and len(c) > 1:  # one more phase of this composition, slightly above the hull
        els = sorted({x.symbol for y in es for x in y.composition})
        fr = lambda comp: [comp.get(x, 0) / sum(comp.values()) for x in els]
        if set(c) <= set(els):
            base = GibbsComputedEntry(Composition(c), 0.0, 12.0, es[0].temperature, entry_id="near").energy_per_atom
            at = geom.hull_energy([fr(strip(y.composition)) for y in es], [y.energy_per_atom for y in es], fr(c))
            es = es + [GibbsComputedEntry(Composition(c), at + d["near"] - base, 12.0, es[0].temperature, entry_id="near")]
            s = GibbsEntrySet(es)
    text = "".join(f"{e}{int(a) * d['m']}" for e, a in c.items())
    f = Composition(c).reduced_formula
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e = initialize_entry(text, s, stabilize=d["stab"]) if d["stab"] else initialize_entry(text, s)
    els = sorted({x.symbol for y in es for x in y.composition})
    fr = lambda comp: [comp.get(x, 0) / sum(comp.values()) for x in els]
    hull = geom.hull_energy([fr(strip(y.composition)) for y in es], [y.energy_per_atom for y in es], fr(c))
    mine = [y for y in es if y.composition.reduced_formula == f]
    n = sum(e.composition.values())
    ensure(e.composition.reduced_formula == f, "entry of %s for %s", e.composition, text)
    if mine:
        g = min(y.energy_per_atom for y in mine)
        if d["stab"] and g - hull > EPS:
            ensure(close(e.energy, hull * n - 1e-3, atol=2e-6 * n), "stabilised entry of %s: %s, expected %s", text, e.energy, hull * n - 1e-3)
        elif not d["stab"]:
            ensure(close(e.energy_per_atom, g) and e in s, "the entry of %s has %s eV/atom, its ground state %s", text, e.energy_per_atom, g)
    else:
        ensure(isinstance(e, InterpolatedEntry) and close(e.energy_per_atom, hull - 1e-3, atol=1e-6), "interpolated entry of %s: %s eV/atom, expected %s", text, e.energy_per_atom, hull - 1e-3)
    if d["stab"]:
        ensure(e.energy_per_atom <= hull + EPS, "the stabilised entry of %s is %s above the hull", text, e.energy_per_atom - hull)
    ensure(len(s) == len(es), "the set was altered")
    rec.nontrivial(not mine or min(y.energy_per_atom for y in mine) - hull > EPS)


FACETS = [Facet("process", case, fn, quick=250, thorough=8000, shards=5), Facet("initialize", init_case, init_fn, quick=200, thorough=4000, shards=2)]
