"""E01: an entry set behaves as a set and never serves stale derived data (model-based histories)."""
import json

from hypothesis import strategies as st
from monty.json import MontyDecoder, MontyEncoder
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from vp import gen, geom, thermo
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "E01"
RULE = ("Histories of additions, removals, in-place and pure set operations, copies, sub-systems, index assignment, serialisation, temperature changes and "
        "queries over pools of computed (with polymorphs, multiples and positive-energy elements), experimental and interpolated entries; the model is a plain set "
        "of pool members and every derived quantity is recomputed from it (hull energies by linear programming). Non-trivial: a query is repeated after a "
        "mutation.")
OPS = ["add", "add", "add_copy", "discard", "discard", "remove", "update", "ior", "isub", "iand", "ixor", "pop", "or", "sub", "and", "copy", "subset", "idx", "rt", "temp", "hull", "hull",
       "min", "min", "list", "chemsys", "T", "clear", "filter"]


@st.composite
def case(draw):
    els = draw(gen.el_sets(2, 3))
    T = draw(st.sampled_from([300, 800, 1450]))
    d = dict(T=T, pool=draw(gen.entry_list(els, min_size=4, max_size=8, kinds=("gibbs", "gibbs", "gibbs", "interp"), temps=(T,))))
    fs = [f for f, t in thermo.tables("nist.json.gz").items() if {x.symbol for x in Composition(f)} <= set(els) and min(t) <= T <= max(t)]
    if fs and draw(st.booleans()):
        for f in draw(st.lists(st.sampled_from(sorted(fs)), max_size=2, unique=True)):
            d["pool"].append(dict(kind="nist", c={x.symbol: int(a) for x, a in Composition(f).items()}, m=draw(st.integers(1, 2)), T=T, id=f))
    d["init"] = draw(st.lists(st.integers(0, 20), max_size=14))
    d["full"] = draw(st.booleans())
    d["start"] = draw(st.sampled_from(["any", "any", "any", "empty", "interp"]))
    d["calc"] = draw(st.sampled_from([False, False, True]))
    d["min"] = draw(st.sampled_from([False, False, True]))
    d["ops"] = draw(st.lists(st.tuples(st.sampled_from(OPS), st.lists(st.integers(0, 20), min_size=1, max_size=4)).map(list), min_size=4, max_size=24))
    return d


def formula(e):
    return Composition({x.symbol: a for x, a in e.composition.items()}).reduced_formula


def epa(e):
    return e.energy / sum(e.composition.values())


class World:
    def __init__(self, d):
        self.d = d
        self.pool = gen.mk_entries(d["pool"])
        for i, e in enumerate(self.pool):
            ensure(all(e != f for f in self.pool[:i]), "pool entries %s coincide", e)
        self.els = [sorted({x.symbol for x in e.composition}) for e in self.pool]

    def dup(self, i):
        return gen.mk_entry(self.d["pool"][i])

    def members(self, ints):
        return {i % len(self.pool) for i in ints}

    def index(self, e):
        m = [i for i, p in enumerate(self.pool) if p == e]
        ensure(len(m) == 1, "unknown entry %s", e)
        return m[0]

    def check_members(self, s, model, what):
        got = sorted(self.index(e) for e in s)
        ensure(got == sorted(model), "%s: the set holds %s, expected %s", what, got, sorted(model))
        ensure(len(s) == len(model), "%s: length %s of %s", what, len(s), len(model))
        for i, e in enumerate(self.pool):
            ensure((e in s) == (i in model), "%s: membership of %s", what, e)

    def has_refs(self, model):
        els = {x for i in model for x in self.els[i]}
        return els and els <= {self.els[i][0] for i in model if len(self.els[i]) == 1}

    def e_hull(self, model, i):
        els = sorted({x for j in model for x in self.els[j]} | set(self.els[i]))
        frac = lambda j: [self.pool[j].composition[x] / sum(self.pool[j].composition.values()) for x in els]
        h = geom.hull_energy([frac(j) for j in model], [epa(self.pool[j]) for j in model], frac(i))
        return epa(self.pool[i]) - h

    def check_derived(self, s, model, what, hull=()):
        els = {x for i in model for x in self.els[i]}
        ensure(s.chemsys == els, "%s: chemical system %s, expected %s", what, s.chemsys, els)
        lst = s.entries_list
        ensure(sorted(self.index(e) for e in lst) == sorted(model), "%s: sorted list %s", what, lst)
        ensure(all(not lst[i].composition > lst[i + 1].composition for i in range(len(lst) - 1)), "%s: list is not sorted: %s", what, lst)
        best = {}
        for i in model:
            f = formula(self.pool[i])
            best[f] = min(best.get(f, 9e9), epa(self.pool[i]))
        got = s.min_entries_by_formula
        ensure(set(got) == set(best), "%s: ground states for %s, expected %s", what, sorted(got), sorted(best))
        for f, e in best.items():
            for g in (got[f], s.get_min_entry_by_formula(f)):
                ensure(formula(g) == f and close(epa(g), e), "%s: ground state of %s is %s, expected %s eV/atom", what, f, g, e)
                ensure(self.index(g) in model, "%s: ground state of %s is not in the set", what, f)
        timed = [i for i in model if self.d["pool"][i]["kind"] != "interp"]
        ensure(s.temperature == (self.d["T"] if timed else 0.0), "%s: temperature %s", what, s.temperature)
        if hull and self.has_refs(model):
            for i in hull:
                if any(set(self.els[i]) <= set(self.els[j]) for j in model):  # else there is no phase diagram for it
                    w = self.e_hull(model, i)
                    g = s.get_e_above_hull(self.pool[i]) if i in model or w >= 0 else w
                    ensure(close(g, w, atol=1e-6), "%s: %s is %s above the hull, expected %s", what, self.pool[i], g, w)


def fn(d, rec):
    w = World(d)
    n = len(w.pool)
    refs = [i for i in range(n) if len(w.els[i]) == 1 and d["pool"][i]["e"] == 0.0 and d["pool"][i]["id"].startswith("el-")]
    model = w.members(d["init"]) | (set(refs) if d["full"] else set())
    if d["start"] != "any":  # nothing with a temperature yet
        model = {i for i in range(n) if d["pool"][i]["kind"] == "interp" and d["start"] == "interp"}
    calc = d["calc"] and w.has_refs(model)
    s = GibbsEntrySet([w.pool[i] for i in sorted(model)] + [w.dup(i) for i in sorted(model)][:2], calculate_e_above_hulls=bool(calc), minimize_obj_size=d["min"])
    w.check_members(s, model, "construction")
    if calc:
        for i in model:
            e = next(x for x in s if x == w.pool[i])
            ensure(close(e.data["e_above_hull"], w.e_hull(model, i), atol=1e-6), "stored energy above hull %s of %s, expected %s", e.data["e_above_hull"], e, w.e_hull(model, i))
    if d["min"]:
        ensure(all(not e.parameters and set(e.data) <= {"e_above_hull"} for e in s), "metadata kept")
    others = []
    queried = mutated_after = requeried = False
    if d["start"] != "any":
        w.check_derived(s, model, "at first")
        queried = True
    for k, (op, a) in enumerate(d["ops"]):
        what = f"after step {k} ({op})"
        q = w.members(a)
        i = a[0] % n
        if op == "add":
            s.add(w.pool[i])
            model = model | {i}
        elif op == "add_copy":
            s.add(w.dup(i))
            model = model | {i}
        elif op == "discard":
            s.discard(w.dup(i) if a[-1] % 2 else w.pool[i])
            model = model - {i}
        elif op == "remove":
            try:
                s.remove(w.pool[i])
                ensure(i in model, "%s: removed an absent entry", what)
            except KeyError:
                ensure(i not in model, "%s: could not remove an entry", what)
            model = model - {i}
        elif op == "update":
            s.update([w.pool[j] for j in q])
            model = model | q
        elif op == "ior":
            s |= GibbsEntrySet([w.pool[j] for j in q])
            model = model | q
        elif op == "isub":
            s -= GibbsEntrySet([w.pool[j] for j in q])
            model = model - q
        elif op == "iand":
            keep = q | (set(refs) & model) | {j for j in model if a[0] % 2}
            s &= GibbsEntrySet([w.pool[j] for j in keep])
            model = model & keep
        elif op == "ixor":
            s ^= GibbsEntrySet([w.pool[j] for j in q])
            model = model ^ q
        elif op == "pop":
            if model:
                e = s.pop()
                ensure(w.index(e) in model, "popped an absent entry")
                model = model - {w.index(e)}
        elif op == "clear":
            if a[0] % 4 == 0:
                s.clear()
                model = set()
        elif op in ("or", "sub", "and"):
            t = GibbsEntrySet([w.pool[j] for j in q])
            r, m2 = {"or": (lambda: s | t, model | q), "sub": (lambda: s - t, model - q), "and": (lambda: s & t, model & q)}[op]
            r = r()
            ensure(isinstance(r, GibbsEntrySet), "%s: type %s", what, type(r))
            w.check_members(r, m2, what)
            w.check_derived(r, m2, what + " result")
            w.check_members(t, q, what + " operand")
            others.append((r, m2))
        elif op == "copy":
            others.append((s.copy(), set(model)))
            if a[0] % 2 and model:  # change the copy
                c, m2 = others[-1]
                c.discard(w.pool[sorted(m2)[0]])
                others[-1] = (c, m2 - {sorted(m2)[0]})
        elif op == "subset":
            els = sorted({x for j in model for x in w.els[j]})
            if els:
                sub = sorted({els[j % len(els)] for j in a})
                r = s.get_subset_in_chemsys(sub if a[0] % 2 else "-".join(sub))
                m2 = {j for j in model if set(w.els[j]) <= set(sub)}
                w.check_members(r, m2, what + f" {sub}")
                others.append((r, m2))
            try:
                s.get_subset_in_chemsys(["Xe"])
                ensure(False, "accepted a foreign chemical system")
            except ValueError:
                pass
        elif op == "idx":
            s.build_indices()
            pos = {id(e): j for j, e in enumerate(s.entries_list)}
            ensure(sorted(e.data["idx"] for e in s) == list(range(len(model))), "%s: indices %s", what, [e.data["idx"] for e in s])
            ensure(all(e.data["idx"] == pos[id(e)] for e in s), "%s: indices do not follow the sorted list", what)
        elif op == "rt" and (not calc or w.has_refs(model)):
            r = MontyDecoder().process_decoded(json.loads(json.dumps(s.as_dict(), cls=MontyEncoder)))
            ensure(type(r) is GibbsEntrySet and r == s, "%s: round trip differs", what)
            ensure(r.calculate_e_above_hulls == s.calculate_e_above_hulls and r.minimize_obj_size == s.minimize_obj_size, "%s: options", what)
            w.check_members(r, model, what)
        elif op == "temp":
            if not calc or w.has_refs(model):
                T2 = [300, 650, 1200][a[0] % 3]
                if a[-1] % 2 and w.has_refs(model):  # as other tools do: energies above the hull kept with the entries
                    for e in s:
                        e.data["e_above_hull"] = w.e_hull(model, w.index(e))
                before = {j: json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) for j, e in ((w.index(e), e) for e in s)}
                r = s.get_entries_with_new_temperature(T2)
                tab = thermo.tables("nist.json.gz")
                want = [j for j in model if d["pool"][j]["kind"] != "nist" or min(tab[formula(w.pool[j])]) <= T2 <= max(tab[formula(w.pool[j])])]
                exp = {(formula(w.pool[j]), d["pool"][j]["kind"], round(w.pool[j].get_new_temperature(T2).energy, 6), w.pool[j].composition.formula) for j in want}
                kinds = {"GibbsComputedEntry": "gibbs", "InterpolatedEntry": "interp", "NISTReferenceEntry": "nist"}
                got = [(formula(e), kinds.get(type(e).__name__), round(e.energy, 6), e.composition.formula) for e in r]
                ensure(len(got) == len(want), "%s: %s of %s entries at the new temperature", what, len(got), len(want))
                ensure(calc or all(e.data.get("e_above_hull") is None for e in r), "%s: energies above the hull of the old temperature are kept: %s", what, [e.data for e in r])
                for g in got:
                    ensure(any(g[:2] == x[:2] and g[3] == x[3] and abs(g[2] - x[2]) < 1e-5 for x in exp), "%s: %s at %s K is not among %s", what, g, T2, exp)
                if calc and got:
                    es = list(r)
                    els = sorted({x.symbol for e in es for x in e.composition})
                    fr = lambda e: [e.composition[x] / sum(e.composition.values()) for x in els]
                    for e in es[:3]:
                        h = epa(e) - geom.hull_energy([fr(x) for x in es], [epa(x) for x in es], fr(e))
                        ensure(close(e.data["e_above_hull"], h, atol=1e-6), "%s: stored energy above hull of %s at %s K: %s, expected %s", what, e, T2, e.data["e_above_hull"], h)
                for j, x in before.items():
                    e = next(y for y in s if y == w.pool[j])
                    ensure(json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) == x, "%s: changing the temperature altered %s", what, e)
                queried = True
        elif op == "hull":
            w.check_derived(s, model, what, hull=sorted(q))
            queried = True
            requeried = requeried or mutated_after
        elif op == "filter":
            if w.has_refs(model):
                r = s.filter_by_stability(10.0, include_polymorphs=True)
                w.check_members(r, model, what)
        elif op == "min":
            w.check_derived(s, model, what)
            queried = True
            requeried = requeried or mutated_after
        elif op == "list":
            s.entries_list, s.min_entries_by_formula, s.chemsys, s.temperature
            if w.has_refs(model):
                s.pd_dict
            queried = True
        elif op == "chemsys":
            ensure(s.chemsys == {x for j in model for x in w.els[j]}, "%s: chemical system %s", what, s.chemsys)
            queried = True
        elif op == "T":
            s.temperature
        if op in ("add", "add_copy", "discard", "remove", "update", "ior", "isub", "iand", "ixor", "pop", "clear") and queried:
            mutated_after = True
        w.check_members(s, model, what)
    w.check_derived(s, model, "finally", hull=sorted(model)[:4])
    requeried = requeried or mutated_after
    for o, m in others:
        w.check_members(o, m, "derived set, finally")
        w.check_derived(o, m, "derived set, finally")
    fresh = GibbsEntrySet([w.dup(i) for i in sorted(model)])
    ensure(fresh == s and s == fresh and not (s != fresh), "not equal to a fresh set of the same entries")
    try:
        s.get_min_entry_by_formula("XeF6")
        ensure(False, "found an absent formula")
    except KeyError:
        pass
    rec.nontrivial(requeried)
    rec.label("hull" if w.has_refs(model) else "no references")


FACETS = [Facet("histories", case, fn, quick=900, thorough=12000, shards=6)]
