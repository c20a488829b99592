"""K01: cost functions follow their formula and never change order with energy."""
import json
import math

from hypothesis import strategies as st
from monty.json import MontyDecoder, MontyEncoder
from pymatgen.core.composition import Element
from rxn_network.costs.functions import Softplus, WeightedSum
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from vp import gen
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "K01"
RULE = ("Balanced closed and open reactions with generated entries and data, evaluated by both cost functions with generated parameters (attributes and "
        "stored data, stored data winning), weights and temperatures; the value is recomputed from the plain data with the log1p formula, one parameter "
        "is then raised and the change of order compared with the sign of its weight. Non-trivial: at least two parameters of which one is stored data "
        "and one an attribute.")

ATTRS = ["energy_per_atom", "energy", "num_atoms"]
grid = st.integers(-64, 64).map(lambda i: i / 32)


@st.composite
def case(draw):
    d = draw(gen.rxn_data())
    d["es"] = draw(st.lists(gen.entry_params(), min_size=1, max_size=4))
    d["open"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 3), st.sampled_from([0.0, -1.5, 0.5])).map(list)))
    d["data"] = draw(st.fixed_dictionaries({} if draw(st.integers(0, 5)) == 0 else {"score": grid, "primary_competition": grid}, optional={"energy_per_atom": grid}))
    d["params"] = draw(st.lists(st.sampled_from(["score", "energy_per_atom", "primary_competition", "energy", "num_atoms"] + ["absent"] * (draw(st.integers(0, 5)) == 0)), min_size=draw(st.sampled_from([1,2,2,3])), max_size=4, unique=True))
    d["weights"] = [draw(grid) for _ in d["params"]]
    d["temp"] = draw(st.one_of(st.sampled_from([300, 800, 1000.0, 1, 273, 2000]), st.integers(1, 3000).map(lambda i: i / 2)))
    d["default"] = draw(st.integers(0, 5)) == 0
    d["bump"] = [draw(st.integers(0, 3)), draw(st.sampled_from([1 / 64, 0.25, 1.0]))]
    return d


def build(d, data):
    ents = gen.mk_entries(gen.rxn_entries(d, d["es"]))
    els = sorted({e for c in d["c"] for e in c})
    if d["open"] and len(els) > 1:
        return OpenComputedReaction(ents, list(d["k"]), {Element(els[d["open"][0] % len(els)]): d["open"][1]}, data=dict(data))
    return ComputedReaction(ents, list(d["k"]), data=dict(data))


def fn(d, rec):
    r = build(d, d["data"])
    before = (json.dumps(r.as_dict(), cls=MontyEncoder, sort_keys=True), r.energy)
    params, weights = (["energy_per_atom"], [1.0]) if d["default"] else (d["params"], d["weights"])
    kw = {} if d["default"] else dict(params=list(params), weights=list(weights))
    fs = [("softplus", Softplus(temp=d["temp"], **kw)), ("sum", WeightedSum(**kw))]
    missing = [p for p in params if p not in d["data"] and p not in ATTRS]
    rec.nontrivial(any(p in d["data"] for p in params) and any(p not in d["data"] for p in params) and not missing)
    for name, f in fs:
        back = MontyDecoder().process_decoded(json.loads(json.dumps(f.as_dict(), cls=MontyEncoder)))
        ensure(type(back) is type(f), "%s does not survive serialisation: %s", name, type(back))
        if missing:
            for g in (f, back):
                try:
                    v = g.evaluate(r)
                except ValueError as e:
                    ensure(any(m in str(e) for m in missing), "the error does not name the missing parameter: %s", e)
                else:
                    ensure(False, "%s gave %s without parameter %s", name, v, missing)
            rec.label("missing")
            continue

        def raw(data, rr):
            return math.fsum(w * (data[p] if p in data else getattr(rr, p)) for p, w in zip(params, weights))

        def expect(x):
            return x if name == "sum" else math.log1p(273.0 / d["temp"] * math.exp(x))

        x = raw(d["data"], r)
        if x > 300:
            rec.label("huge")
            continue
        v = f.evaluate(r)
        ensure(close(v, expect(x), atol=1e-9), "%s(T=%s) of %s weighted %s = %s, expected %s", name, d["temp"], params, weights, v, expect(x))
        ensure(close(back.evaluate(r), v, rtol=0, atol=0), "%s differs after serialisation", name)
        ensure(f.evaluate(r) == v, "%s is not repeatable", name)
        if name == "softplus" and x > -20:
            ensure(v > 0, "cost %s is not positive", v)
        # raise one stored parameter
        i = d["bump"][0] % len(params)
        p, w = params[i], weights[i]
        data2 = dict(d["data"])
        data2[p] = (data2[p] if p in data2 else float(getattr(r, p))) + d["bump"][1]
        r2 = build(d, data2)
        v2 = f.evaluate(r2)
        if abs(w) * d["bump"][1] > 1e-4 and -12 < x < 30:
            ensure((v2 > v) == (w > 0) and (v2 < v) == (w < 0), "%s: raising %s by %s with weight %s moved the cost from %s to %s", name, p, d["bump"][1], w, v, v2)
            rec.label("ordered")
        if w == 0:
            ensure(close(v, v2, atol=1e-9), "a parameter of weight zero changed the cost")
        if name == "softplus" and not d["default"]:
            hot = Softplus(temp=d["temp"] * 2, **kw).evaluate(r)
            ensure(Softplus(**kw).evaluate(r) == Softplus(temp=300, **kw).evaluate(r), "the cost at the default temperature is not that at 300 K")
            ensure(hot < v or x < -20, "the cost does not fall with temperature: %s at T, %s at 2T", v, hot)
    ensure((json.dumps(r.as_dict(), cls=MontyEncoder, sort_keys=True), r.energy) == before, "evaluating the cost altered the reaction")
    for t in (0, -5):
        try:
            Softplus(temp=t)
        except ValueError:
            pass
        else:
            ensure(False, "a temperature of %s K was accepted", t)


FACETS = [Facet("costs", case, fn, quick=500, thorough=20000, shards=2)]
