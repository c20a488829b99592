"""N02: enumeration results do not depend on chunking, worker count or finish order."""
from vp import fakeray

fakeray.install()
import json  # noqa: E402
import warnings  # noqa: E402
from collections import Counter  # noqa: E402

from hypothesis import strategies as st  # noqa: E402
from monty.json import MontyEncoder  # noqa: E402
from rxn_network.entries.entry_set import GibbsEntrySet  # noqa: E402
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator  # noqa: E402
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator  # noqa: E402
from rxn_network.enumerators.utils import run_enumerators  # noqa: E402
from vp import enums, gen  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402

PROPERTY = "N02"
RULE = ("One entry set and enumerator (all four kinds, with and without restrictions and duplicate filtering) run with the default chunking and one sequential pass, then with "
        "random chunk sizes (from 1), job limits, CPU counts and task execution/completion orders, and repeatedly with the same object; lists of enumerators "
        "run together are compared with their separate results. Non-trivial: several tasks ran, some out of order, and at least three reactions result.")
TECHNIQUE = "property-based testing with generated schedules (Hypothesis driving a deterministic Ray stand-in)"


@st.composite
def enumerator(draw, els, es):
    k = draw(st.sampled_from(["basic", "basic", "open", "open", "gibbs", "grand", "grand"]))
    d = dict(k=k, kw=dict(exclusive_precursors=draw(st.booleans()), exclusive_targets=draw(st.booleans()), filter_duplicates=draw(st.sampled_from([False, False, True]))))
    g = draw(enums.guided(es)) if draw(st.booleans()) else (None, None)
    if g[0]:
        mode = draw(st.sampled_from(["P", "T", "both"]))
        d["kw"]["precursors"] = g[0] if mode != "T" else None
        d["kw"]["targets"] = g[1] if mode != "P" else None
    if k in ("basic", "open"):
        d["kw"]["n"] = draw(st.sampled_from([1, 2, 2]))
    if k == "open":
        d["kw"]["open_phases"] = [enums.rf({draw(st.sampled_from(els)): 1})]
    if k == "grand":
        d["kw"]["open_elem"] = draw(st.sampled_from(els))
        d["kw"]["mu"] = draw(st.integers(-320, 0)) / 128
    return d


def sched():
    return st.fixed_dictionaries(dict(chunk=st.one_of(st.integers(1, 7), st.integers(1, 60), st.just(2500)), jobs=st.one_of(st.just(5000), st.integers(1, 6)), cpus=st.integers(1, 9),
                                      s=st.lists(st.integers(0, 40), max_size=20)))


@st.composite
def case(draw):
    els, es = draw(enums.entries(2, 3, nmin=2, nmax=5))
    return dict(es=es, en=draw(enumerator(els, es)), runs=draw(st.lists(sched(), min_size=1, max_size=3)), rev=draw(st.booleans()))


CLS = dict(basic=BasicEnumerator, open=BasicOpenEnumerator, gibbs=MinimizeGibbsEnumerator, grand=MinimizeGrandPotentialEnumerator)


def make(d, **extra):
    return CLS[d["k"]](quiet=True, **d["kw"], **extra)


def result(en, s):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rs = en.enumerate(s)
    return Counter((enums.rkey(r, 4), type(r).__name__, round(float(r.energy_per_atom), 5)) for r in rs.get_rxns())


def snap(s):
    return sorted(json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True) for e in s)


def diff(a, b):
    return f"{sum(a.values())} and {sum(b.values())} reactions; only in the first: {sorted(str(x) for x in (a - b))[:2]}; only in the second: {sorted(str(x) for x in (b - a))[:2]}"


def same(a, b):
    """Equal multisets, allowing a last-digit difference of the rounded numbers."""
    if a == b:
        return True
    strip = lambda c: Counter({})
    x, y = Counter(), Counter()
    for (k, t, e), n in a.items():
        x[(tuple(p for p, _ in k[0]), tuple(p for p, _ in k[1]), t)] += n
    for (k, t, e), n in b.items():
        y[(tuple(p for p, _ in k[0]), tuple(p for p, _ in k[1]), t)] += n
    if x != y:
        return False
    A = sorted(a.elements(), key=lambda q: str((tuple(p for p, _ in q[0][0]), tuple(p for p, _ in q[0][1]), q[1])))
    B = sorted(b.elements(), key=lambda q: str((tuple(p for p, _ in q[0][0]), tuple(p for p, _ in q[0][1]), q[1])))
    return all(abs(p[2] - q[2]) < 1e-3 for p, q in zip(A, B))


def fn(d, rec):
    es = gen.mk_entries(d["es"])
    for f in {enums.rf(e.composition) for e in es}:  # equal lowest energies leave the ground state open
        v = sorted(e.energy_per_atom for e in es if enums.rf(e.composition) == f)
        if len(v) > 1 and v[1] - v[0] < 1e-9:
            rec.label("tied ground states skipped")
            return
    s = GibbsEntrySet(es[::-1] if d["rev"] else es)
    before = snap(s)
    fakeray.S.reset()
    base = result(make(d["en"]), s)
    ensure(snap(s) == before, "enumeration altered the entries")
    en = None
    tasks = reord = 0
    for i, r in enumerate(d["runs"]):
        fakeray.S.reset(r["s"], cpus=r["cpus"])
        if en is None or i % 2 == 0:
            en = make(d["en"], chunk_size=r["chunk"], max_num_jobs=r["jobs"])
        got = result(en, s)
        tasks = max(tasks, fakeray.S.n_tasks)
        reord += fakeray.S.reordered
        ensure(same(got, base), "chunk size %s, at most %s jobs, %s CPUs: %s", r["chunk"], r["jobs"], r["cpus"], diff(got, base))
    ensure(snap(s) == before, "enumeration altered the entries")
    rec.nontrivial(tasks >= 3 and reord > 0 and sum(base.values()) >= 3)
    rec.label(d["en"]["k"])


@st.composite
def many_case(draw):
    els, es = draw(enums.entries(2, 3, nmin=2, nmax=4))
    ens = draw(st.lists(enumerator(els, es).filter(lambda e: e["k"] != "grand"), min_size=1, max_size=3))
    for e in ens:  # the same phases have to stay available
        e["kw"]["filter_duplicates"] = False
    return dict(es=es, ens=ens, run=draw(sched()))


def many_fn(d, rec):
    es = gen.mk_entries(d["es"])
    for f in {enums.rf(e.composition) for e in es}:
        v = sorted(e.energy_per_atom for e in es if enums.rf(e.composition) == f)
        if len(v) > 1 and v[1] - v[0] < 1e-9:
            return
    s = GibbsEntrySet(es)
    fakeray.S.reset()
    want = set()
    for e in d["ens"]:
        want |= {k[0] for k in result(make(e), s)}
    fakeray.S.reset(d["run"]["s"], cpus=d["run"]["cpus"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rs = run_enumerators([make(e, chunk_size=d["run"]["chunk"]) for e in d["ens"]], s)
    keys = [enums.rkey(r, 4) for r in rs.get_rxns()]
    got = Counter(keys)
    strip = lambda k: (tuple(p for p, _ in k[0]), tuple(p for p, _ in k[1]))
    ensure({strip(k) for k in got} == {strip(k) for k in want}, "together: %s; separately: %s", sorted(map(str, {strip(k) for k in got} - {strip(k) for k in want}))[:2],
           sorted(map(str, {strip(k) for k in want} - {strip(k) for k in got}))[:2])
    ensure(max(Counter(strip(k) for k in keys).values(), default=1) == 1 or len(got) == len(keys), "duplicates remain: %s", [k for k, n in got.items() if n > 1][:2])
    rec.nontrivial(len(d["ens"]) > 1 and len(want) > 2)


@st.composite
def reuse_case(draw):
    els, es = draw(enums.entries(2, 3, nmin=2, nmax=5))
    other = [dict(e, e=e["e"] + draw(st.sampled_from([0.0, 0.0, 0.5, -0.5])) if len(e["c"]) > 1 else e["e"], id=e["id"] + draw(st.sampled_from(["", "b", "b"]))) for e in es if len(e["c"]) == 1 or draw(st.booleans())]
    return dict(es=es, other=other, en=draw(enumerator(els, es)), run=draw(sched()), order=draw(st.sampled_from(["ab", "ba", "aba", "bab"])))


def reuse_fn(d, rec):
    sets = {}
    for n, ds in (("a", d["es"]), ("b", d["other"])):
        es = gen.mk_entries(ds)
        for f in {enums.rf(e.composition) for e in es}:
            v = sorted(e.energy_per_atom for e in es if enums.rf(e.composition) == f)
            if len(v) > 1 and v[1] - v[0] < 1e-9:
                rec.label("tied ground states skipped")
                return
        sets[n] = GibbsEntrySet(es)
    need = (d["en"]["kw"].get("precursors") or []) + (d["en"]["kw"].get("targets") or [])
    if any(f not in {enums.rf(e.composition) for e in s} for f in need for s in sets.values()):
        d["en"]["kw"].update(precursors=None, targets=None)
    want = {}
    for n, s in sets.items():
        fakeray.S.reset()
        want[n] = result(make(d["en"]), s)
    en = make(d["en"], chunk_size=d["run"]["chunk"], max_num_jobs=d["run"]["jobs"])
    for i, n in enumerate(d["order"]):
        fakeray.S.reset(d["run"]["s"], cpus=d["run"]["cpus"])
        got = result(en, sets[n])
        ensure(same(got, want[n]), "run %s of one enumerator, with the entries %s: %s", i, n, diff(got, want[n]))
    rec.nontrivial(want["a"] != want["b"] and sum(want["a"].values()) >= 2)
    rec.label(d["en"]["k"])


FACETS = [Facet("reuse", reuse_case, reuse_fn, quick=300, thorough=3000, shards=4), Facet("schedules", case, fn, quick=350, thorough=6000, shards=6), Facet("together", many_case, many_fn, quick=60, thorough=1500, shards=2)]
