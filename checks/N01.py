"""N01: combinatorial enumeration finds every valid reaction and nothing else."""
from vp import fakeray

fakeray.install()
import warnings  # noqa: E402

from hypothesis import strategies as st  # noqa: E402
from rxn_network.entries.entry_set import GibbsEntrySet  # noqa: E402
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator  # noqa: E402
from vp import enums, gen  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "N01"
RULE = ("Entry sets of two to four elements with polymorphs, multiples and interpolated phases; every combination of precursor and target lists (reduced or not, present or "
        "absent), exclusivity, cardinality one to three, open phases and chemical-system filter. The complete expected set is enumerated with exact rational "
        "null spaces. Non-trivial: at least four reactions expected and some balanced reaction excluded by a restriction.")
BUDGET = {"quick": 60}


@st.composite
def case(draw, is_open=False):
    if is_open:
        must = draw(st.sampled_from([["O"], ["O"], ["O", "C"], ["N"]]))
        els, es = draw(enums.entries(2, 3, nmin=2, nmax=4, must=must, pool=["Li", "Fe", "Y", "Mn", "Ba"]))
        op = {"O": "O2", "C": "CO2", "N": "N2"}
        opens = [op[m] for m in must]
        if "CO2" in opens:
            es.append(dict(kind="gibbs", c={"C": 1, "O": 2}, m=1, e=-1.5, v=12.0, T=es[0]["T"], id="co2"))
            opens = draw(st.sampled_from([["CO2"], ["O2"], ["O2", "CO2"]]))
        if draw(st.integers(0, 3)) == 0 and len(es) < 8:  # another, less stable form of an open phase
            c = {"O2": {"O": 1}, "N2": {"N": 1}, "CO2": {"C": 1, "O": 2}}[opens[0]]
            top = max([x["e"] for x in es if x["c"] == c] or [0.0])
            es.append(dict(kind="gibbs", c=c, m=draw(st.integers(1, 2)), e=top + draw(st.integers(1, 40)) / 128, v=14.0, T=es[0]["T"], id="other-form"))
    else:
        els, es = draw(enums.entries(2, 4, nmin=3, nmax=5))
        opens = None
    if draw(st.sampled_from([0, 0, 0, 0, 1])) and len(es) > 5:  # combinatorial enumeration does not need elemental references
        k = draw(st.integers(0, len(els) - 1))
        if not any(x["c"] == es[k]["c"] for x in es[:k] + es[k + 1:]):
            drop = es[k]
            if not opens:
                es = [x for x in es if x is not drop]
    d = dict(es=es, n=draw(st.sampled_from([2, 2, 2, 2, 1, 3])), opens=opens, xp=draw(st.booleans()), xt=draw(st.booleans()))
    if len(es) > 7:
        d["n"] = min(d["n"], 2)
    full = all(any(x["c"] == {e: 1} for x in es) for e in els)
    g = draw(enums.guided(es)) if draw(st.booleans()) else (None, None)
    d["P"] = d["T"] = None
    how = draw(st.sampled_from(["none", "P", "T", "both"]))
    if not g[0]:
        d["P"] = draw(enums.restriction(els, es, absent=full)) if how in ("P", "both") else None
        d["T"] = draw(enums.restriction(els, es, absent=full)) if how in ("T", "both") else None
    else:
        mode = draw(st.sampled_from(["P", "T", "both"]))
        d["P"] = g[0] if mode != "T" else None
        d["T"] = g[1] if mode != "P" else None
    d["cs"] = "-".join(draw(st.lists(st.sampled_from(els), min_size=1, max_size=2, unique=True))) if draw(st.sampled_from([0, 0, 0, 0, 1])) else None
    d["mc"] = draw(st.sampled_from([1, 1, 1, 2]))
    d["fd"] = draw(st.integers(0, 3)) == 0
    d["sched"] = draw(st.lists(st.integers(0, 9), max_size=6))
    d["brief"] = draw(st.booleans())
    d["loose"] = draw(st.sampled_from([None, None, None, [False, True], [True, False], [False, False]]))
    return d


@st.composite
def wide_case(draw):
    """Chemical systems of many elements (compounds that decompose into others), or several open phases at once."""
    T = draw(st.sampled_from([300, 900]))
    en = lambda: draw(st.integers(-384, -32)) / 128
    if draw(st.booleans()):
        els = draw(gen.el_sets(5, 8))
        n = draw(st.integers(2, 4))
        parts = [{e: draw(st.integers(1, 3)) for e in draw(st.lists(st.sampled_from(els), min_size=2, max_size=4, unique=True))} for _ in range(n)]
        parts += [{e: draw(st.integers(1, 2)) for e in els[i::2]} for i in (0, 1)]  # together these have all elements
        cs = list(parts)
        for _ in range(draw(st.integers(2, 4))):
            a, b = draw(st.sampled_from(parts)), draw(st.sampled_from(parts))
            u, v = draw(st.integers(1, 2)), draw(st.integers(1, 2))
            cs.append({e: u * a.get(e, 0) + v * b.get(e, 0) for e in {**a, **b}})
        opens = None
    else:
        m = draw(st.sampled_from(["Li", "Na", "K", "Ca", "Ba"]))
        els = [m, "C", "H", "O"]
        cs = [{m: 1}, {"O": 2}, {"C": 1, "O": 2}, {"H": 2, "O": 1}]
        for _ in range(draw(st.integers(1, 3))):
            a, b = draw(st.integers(0, 2)), draw(st.integers(1, 2))
            c = {m: draw(st.integers(1, 2)), "C": a, "H": b, "O": max(1, 2 * a + (b + 1) // 2 + draw(st.integers(-1, 2)))}
            cs.append({e: k for e, k in c.items() if k})
        opens = draw(st.sampled_from([["O2", "CO2", "H2O"], ["H2O", "CO2", "O2"], ["O2", "CO2"], ["CO2", "H2O"], ["H2O"]]))
    es = [dict(kind="gibbs", c=c, m=1, e=0.0 if len(c) == 1 else en(), v=12.0, T=T, id=f"mp-{i}") for i, c in enumerate(cs)]
    d = dict(es=es, n=draw(st.sampled_from([1, 2, 2])), opens=opens, xp=draw(st.booleans()), xt=draw(st.booleans()), P=None, T=None, cs=None, mc=1, fd=False,
             sched=draw(st.lists(st.integers(0, 9), max_size=6)))
    if len(es) > 7 and opens:
        d["n"] = 1
    g = draw(enums.guided(es)) if draw(st.booleans()) else (None, None)
    if g[0] and not opens:
        d["P" if draw(st.booleans()) else "T"] = g[draw(st.integers(0, 1))]
    return d


def fn(d, rec):
    es = gen.mk_entries(d["es"])
    s = GibbsEntrySet(es)
    phases = [enums.Phase(e) for e in es]
    # equal lowest energies would leave the ground state open
    for f in {p.f for p in phases}:
        v = sorted(p.epa for p in phases if p.f == f)
        if len(v) > 1 and v[1] - v[0] < 1e-9:
            rec.label("tied ground states skipped")
            return
    P, T = enums.asked(d["P"], phases, es), enums.asked(d["T"], phases, es)
    opens = {p.key for p in phases if p.f in d["opens"]} if d["opens"] else None
    if opens and T and T & opens:
        rec.label("open target skipped")
        return
    cs = set(d["cs"].split("-")) if d["cs"] else None
    want, maybe = enums.expected_basic(phases, d["n"], P, T, d["xp"], d["xt"], cs, opens)
    kw = dict(precursors=d["P"], targets=d["T"], n=d["n"], exclusive_precursors=d["xp"], exclusive_targets=d["xt"], filter_by_chemsys=d["cs"], max_num_constraints=d["mc"],
              filter_duplicates=d["fd"], quiet=True)
    kw = enums.brief(kw, d.get("brief"))
    cl = (lambda **k: BasicOpenEnumerator(open_phases=d["opens"], **k)) if d["opens"] else BasicEnumerator
    en = cl(**kw)
    fakeray.S.reset(d["sched"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rs = en.enumerate(s)
    got = {}
    by = {p.key: p for p in phases}
    for r in rs:
        k = enums.rkey(r)
        ensure(k not in got, "%s was returned twice", r)
        got[k] = r
        for e, c in zip(r.entries, r.coefficients):
            p = by.get(enums.ekey(e))
            ensure(p is not None and close(e.energy_per_atom, p.epa), "%s uses an entry that was not given: %s", r, e)
        tot, size = {}, 0.0
        for e, c in zip(r.entries, r.coefficients):
            for x, a in by[enums.ekey(e)].c.items():
                tot[x] = tot.get(x, 0) + a * c
                size += abs(a * c)
        ensure(all(abs(v) <= 1e-6 * size for v in tot.values()), "%s is not balanced", r)
        ensure(r.balanced and not r.is_identity, "%s is not a balanced reaction", r)
    missing = set(want) - set(got)
    ensure(not missing, "missing reactions (%s of %s): %s", len(missing), len(want), sorted(missing)[:3])
    extra = set(got) - set(want) - maybe
    for k in extra:
        ensure(d["mc"] > 1, "unexpected reaction %s", k)
        # reactions with further freedom: still within the restrictions
        R, Q = {x for x, _ in k[0]}, {x for x, _ in k[1]}
        ensure(not R & Q, "%s uses a phase on both sides", k)
        o = opens or set()
        ensure(len(R - o) <= d["n"] and len(Q - o) <= d["n"] and R - o and Q - o, "%s uses too many phases", k)
        ensure(P is None or (R - o <= P if d["xp"] else R & P), "%s does not use the precursors", k)
        ensure(T is None or (Q - o <= T if d["xt"] else Q & T), "%s does not make the target", k)
        ensure(not opens or bool(R & opens) != bool(Q & opens), "%s has no open phase or has them on both sides", k)
    n_all = len(want)
    if (P or T or cs) and len(phases) <= 8:
        n_all = len(enums.expected_basic(phases, d["n"], None, None, True, True, None, opens)[0])
    if d.get("loose") and not d["fd"]:
        ru, rc = d["loose"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            more = [(enums.rkey(r), r) for r in cl(remove_unbalanced=ru, remove_changed=rc, **kw).enumerate(s)]
        keys = {k for k, _ in more}
        ensure(not set(got) - keys, "with remove_unbalanced=%s, remove_changed=%s reactions are lost: %s", ru, rc, sorted(set(got) - keys)[:2])
        ensure(all(r.balanced for _, r in more) or not ru, "unbalanced reactions were not removed")
        if rc:
            extra = {k for k, r in more if r.balanced} - set(got)
            ensure(not extra, "with remove_unbalanced=%s there are further balanced reactions: %s", ru, sorted(extra)[:2])
        rec.label("loose" + (" with more" if len(more) > len(got) else ""))
    rec.nontrivial(len(want) >= 4 and (n_all > len(want) or not (P or T or cs)))
    rec.label("empty" if not want else "restricted" if P or T or cs else "unrestricted")


FACETS = [Facet("basic", case, fn, quick=350, thorough=8000, shards=5), Facet("open", lambda: case(is_open=True), fn, quick=200, thorough=4000, shards=3),
          Facet("wide", wide_case, fn, quick=150, thorough=4000, shards=3)]
