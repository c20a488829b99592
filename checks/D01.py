"""D01: stored synthesis-planning results are found again, exactly and for the right conditions."""
from vp import fakeray

fakeray.install()
import logging  # noqa: E402
import warnings  # noqa: E402

from hypothesis import strategies as st  # noqa: E402
from jobflow import SETTINGS, JobStore, job  # noqa: E402
from jobflow.managers.local import run_locally  # noqa: E402
from maggma.stores import MemoryStore  # noqa: E402
from pymatgen.core import Element  # noqa: E402
from rxn_network.core import Composition  # noqa: E402
from rxn_network.jobs.schema import CompetitionTaskDocument  # noqa: E402
from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.reaction_set import ReactionSet  # noqa: E402
from rxn_network.utils.database import get_rxns_from_db  # noqa: E402
from vp import enums, gen, rsets  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "D01"
RULE = ("Databases of one to six stored calculations (generated reaction sets with data, different targets, open elements, chemical potentials and workflow ids; several for the same conditions, stored in another order than completed), "
        "asked for every combination of target (also written as a multiple), open element, chemical potential and id that is stored, and for others. Non-trivial: at least three calculations, two of which differ only in when they were completed.")
logging.disable(logging.INFO)
MUS = [0.0, -0.5, -1.25]


@st.composite
def case(draw):
    d = draw(rsets.rset(max_rxns=5, min_rxns=2))
    els = sorted({e for x in d["entries"] for e in x["c"]})
    calc = st.fixed_dictionaries(dict(lo=st.integers(0, 4), n=st.integers(1, 5), t=st.integers(0, 2), open=st.sampled_from([None, None, els[0], els[-1]]), mu=st.integers(0, 2), fw=st.sampled_from([None, 1, 1, 2])))
    calcs = draw(st.lists(calc, min_size=1, max_size=5))
    for i in draw(st.lists(st.integers(0, 9), max_size=2)):  # the same again, with other reactions
        calcs.append(dict(calcs[i % len(calcs)], lo=draw(st.integers(0, 4)), n=draw(st.integers(1, 5))))
    d["calcs"] = calcs
    d["when"] = draw(st.permutations(range(len(calcs))))
    d["ask"] = draw(st.lists(st.tuples(st.integers(0, 9), st.booleans(), st.booleans(), st.integers(1, 3), st.integers(0, 5)).map(list), min_size=1, max_size=4))
    return d


@job(rxns="rxns", output_schema=CompetitionTaskDocument)
def give(doc):
    return doc


def rows(rs):
    return sorted((sorted((e.entry_id, round(float(c), 6)) for e, c in zip(r.entries, r.coefficients)), sorted(r.data.items(), key=str), type(r).__name__) for r in rs)


def fn(d, rec):
    picks = rsets.plain_rxns(d)
    if not picks:
        rec.label("no reactions")
        return
    comps = rsets.comps_of(d["entries"])
    ents = gen.mk_entries([dict(x, id=str(i)) for i, x in enumerate(d["entries"])])
    forms = sorted({enums.rf(c) for c in comps})
    store = JobStore(MemoryStore(), additional_stores={"rxns": MemoryStore()})
    stored = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n, c in enumerate(d["calcs"]):
            chosen = [picks[(c["lo"] + i) % len(picks)] for i in range(min(c["n"], len(picks)))]
            mu = MUS[c["mu"]] if c["open"] else 0.0
            rxns = [ComputedReaction([ents[i] for i in idx], k, data=dict(dt)) for idx, k, dt in chosen]
            if c["open"] and any({e for i in idx for e in comps[i]} <= {c["open"]} for idx, _, _ in chosen):
                c = dict(c, open=None)
                mu = 0.0
            rs = ReactionSet.from_rxns(rxns, open_elem=c["open"], chempot=mu) if c["open"] else ReactionSet.from_rxns(rxns)
            target = forms[c["t"] % len(forms)]
            doc = CompetitionTaskDocument(rxns=rs, target_formula=target, open_elem=Element(c["open"]) if c["open"] else None, chempot=mu)
            j = give(doc)
            if c["fw"] is not None:
                j.update_metadata({"fw_id": c["fw"]})
            run_locally(j, store=store, ensure_success=True, log=False, create_folders=False)
            x = store.docs_store.query_one({"uuid": j.uuid})
            x["completed_at"] = "2026-01-%02dT00:00:00" % (1 + d["when"].index(n))
            store.docs_store.update([x], key=["uuid", "index"])
            stored.append(dict(target=target, open=c["open"], mu=mu, fw=c["fw"], when=d["when"].index(n), chosen=chosen))
    old = SETTINGS.JOB_STORE
    SETTINGS.JOB_STORE = store
    try:
        for i, near, usefw, mult, other in d["ask"]:
            q = dict(stored[i % len(stored)])
            if not near:
                s = stored[other % len(stored)]
                q.update(open=s["open"], mu=s["mu"])
            if other == 5:
                q["mu"] -= 0.125
            fw = q["fw"] if usefw else None
            hits = [s for s in stored if (s["target"], s["open"], s["mu"]) == (q["target"], q["open"], q["mu"]) and (fw is None or s["fw"] == fw)]
            f = enums.fml({str(e): int(round(a)) * mult for e, a in Composition(q["target"]).items()})
            what = f"{f}, open {q['open']} at {q['mu']}, id {fw}"
            try:
                got = get_rxns_from_db(f, q["open"], q["mu"], fw)
            except ValueError:
                ensure(not hits, "%s: %s stored calculations were not found", what, len(hits))
                rec.label("none")
                continue
            ensure(hits, "%s: nothing like this is stored, but %s is given", what, got)
            best = max(hits, key=lambda s: s["when"])
            kind = "OpenComputedReaction" if q["open"] else "ComputedReaction"
            want = sorted((sorted((str(i), round(float(x), 6)) for i, x in zip(idx, k)), sorted(dt.items(), key=str), kind) for idx, k, dt in best["chosen"])
            ensure(rows(got) == want, "%s: reactions %s instead of %s", what, rows(got), want)
            opens = {q["open"]: q["mu"]} if q["open"] else None
            for r in got:
                idx = [int(e.entry_id) for e in r.entries]
                e = rsets.formula_energy(ents, idx, [float(x) for x in r.coefficients], comps, opens)
                ensure(close(r.energy, e, 1e-6, 1e-6), "%s: %s has the energy %s instead of %s", what, r, r.energy, e)
            rec.label("several" if len(hits) > 1 else "one")
    finally:
        SETTINGS.JOB_STORE = old
    keys = [(s["target"], s["open"], s["mu"]) for s in stored]
    rec.nontrivial(len(stored) >= 3 and len(set(keys)) < len(keys))


FACETS = [Facet("lookup", case, fn, quick=160, thorough=4000, shards=8)]
