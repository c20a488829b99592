"""P01: pathway solutions are exactly the balanced combinations giving the net reaction."""
from vp import fakeray

fakeray.install()
import json  # noqa: E402
import warnings  # noqa: E402
from fractions import Fraction  # noqa: E402
from itertools import combinations  # noqa: E402

from hypothesis import strategies as st  # noqa: E402
from monty.json import MontyDecoder, MontyEncoder  # noqa: E402
from pymatgen.core import Element  # noqa: E402
from rxn_network.entries.entry_set import GibbsEntrySet  # noqa: E402
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator  # noqa: E402
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator  # noqa: E402
from rxn_network.pathways.basic import BasicPathway  # noqa: E402
from rxn_network.pathways.pathway_set import PathwaySet  # noqa: E402
from rxn_network.pathways.solver import PathwaySolver  # noqa: E402
from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.open import OpenComputedReaction  # noqa: E402
from rxn_network.reactions.reaction_set import ReactionSet  # noqa: E402
from vp import gen, net, rsets  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402
from vp.gen import close  # noqa: E402

PROPERTY = "P01"
RULE = ("Two to fourteen reactions among up to ten phases (polymorphs, multiples, duplicates; closed or open), given as one to four pathways, with entries from the network, a larger entry set, or saved and loaded; net reactions made of two to four "
        "of them or arbitrary; pathway sizes 1-4, 1-4 processors, chunk and batch sizes and task schedules; with and without reactions between intermediates; sums of two to four independent conversions with direct and indirect routes. All combinations are solved in exact arithmetic. Non-trivial: at least two solutions.")
CFG = dict(deadline=None)


@st.composite
def case(draw, inter=False):
    d = draw(net.network(lo=2, hi=4 if inter else draw(st.sampled_from([3, 4, 6])), max_rxns=6 if inter else 11, min_rxns=2 if inter else draw(st.sampled_from([2, 5, 8])), guided=st.sampled_from([True, True, False])))
    d["net"] = draw(st.lists(st.tuples(st.integers(0, 30), st.integers(1, 4)).map(list), min_size=draw(st.sampled_from([1, 2, 2, 2, 3])), max_size=4))
    d["netkind"] = draw(st.sampled_from(["sum", "sum", "sum", "sum", "pair", "pair", "single"]))
    d["split"] = draw(st.lists(st.integers(0, 30), max_size=3))
    d["ents"] = draw(st.sampled_from(["network", "network", "superset", "json", "jsonpaths"]))
    d["n"] = max(draw(st.integers(1, 4)), draw(st.sampled_from([1, len(d["net"]), 3])))
    d["cpus"] = draw(st.sampled_from([1, 2, 4]))
    d["chunk"] = draw(st.sampled_from([100000, 100000, 1, 3, 10]))
    d["batch"] = draw(st.sampled_from([None, None, 1, 2]))
    d["filt"] = draw(st.booleans())
    d["sched"] = draw(st.lists(st.integers(0, 9), max_size=6))
    if inter:
        d["ents"] = draw(st.sampled_from(["network", "superset", "superset", "json"]))
        d["n"] = min(d["n"], 3)
        d["inter"] = dict(cut=draw(st.sampled_from([0.0, 0.0, -0.05, 0.1, -0.15, -0.3, -0.6])), basic=draw(st.booleans()), mini=draw(st.booleans()))
    return d


@st.composite
def routes(draw):
    """Several independent conversions, for which there are direct and indirect routes: many solutions of many reactions."""
    mets = ["Li", "Na", "K", "Rb"][: draw(st.integers(2, 4))]
    pairs = draw(st.lists(st.sampled_from(list(combinations(range(len(mets)), 2))), min_size=1, max_size=4, unique=True))
    e = st.integers(-40, -8).map(lambda x: x / 20)
    mk = lambda i, c, en: dict(kind="gibbs", c=c, m=1, e=en, v=12.0, T=300, id=i)  # noqa: E731
    es = [mk("el-Cl", {"Cl": 1}, 0.0)] + [mk("el-" + x, {x: 1}, 0.0) for x in mets] + [mk("s%s" % i, {x: 1, "Cl": 1}, draw(e)) for i, x in enumerate(mets)]
    es += [mk("p%s" % j, {mets[a]: 1, mets[b]: 1, "Cl": 2}, draw(e)) for j, (a, b) in enumerate(pairs)]
    n = len(mets)
    el, salt = lambda i: 1 + i, lambda i: 1 + n + i  # noqa: E731
    rx = [[[el(i), -1], [0, -0.5], [salt(i), 1]] for i in range(n)]
    more = []
    for j, (a, b) in enumerate(pairs):
        q = 1 + 2 * n + j
        more += [[[el(a), -1], [el(b), -1], [0, -1], [q, 1]], [[q, -1], [salt(a), 1], [salt(b), 1]], [[salt(a), -1], [el(b), -1], [0, -0.5], [q, 1]]]
    more += [[[salt(a), -1], [el(b), -1], [salt(b), 1], [el(a), 1]] for a, b in combinations(range(n), 2)]
    rx += draw(st.lists(st.sampled_from(more), min_size=2, max_size=6, unique_by=repr))
    rx = draw(st.permutations(rx))[: draw(st.sampled_from([len(rx), len(rx), len(rx) - 1]))]
    w = draw(st.lists(st.integers(1, 3), min_size=n, max_size=n))
    tot = [[el(i), -x] for i, x in enumerate(w)] + [[salt(i), x] for i, x in enumerate(w)] + [[0, -sum(w) / 2]]
    return dict(es=es, picks=[], given=[[k, draw(st.integers(1, 12))] for k in rx], mix=[], dup=[], guided=False, P=list(range(n + 1)), cost="table", open=None, net=tot, netkind="given", split=draw(st.lists(st.integers(0, 30), max_size=2)),
                ents=draw(st.sampled_from(["network", "superset", "json"])), n=draw(st.sampled_from([2, 3, 4, 4, 4])), cpus=draw(st.sampled_from([1, 2, 4])), chunk=draw(st.sampled_from([100000, 1, 1, 2, 3, 7])), batch=draw(st.sampled_from([None, 1, 2])),
                filt=draw(st.integers(0, 3)) == 0, sched=draw(st.lists(st.integers(0, 9), max_size=6)))


def exact(rxn, m):
    idx = {k: i for i, k in enumerate(m.keys)}
    out = {}
    for e, c in zip(rxn.entries, rxn.coefficients):
        q = Fraction(float(c)).limit_denominator(10**6)
        if q:
            out[idx[net.ekey(e)]] = q
    return out


def norm(v):
    """Direction of a reaction vector."""
    s = sum(abs(x) for x in v.values())
    return tuple(sorted((i, x / s) for i, x in v.items()))


def solve_exact(vs, target):
    """Unique strictly positive multiplicities, None if there are none, "many" if they are not unique."""
    keys = sorted({k for v in vs for k in v} | set(target))
    rows = [[v.get(k, Fraction(0)) for v in vs] + [target.get(k, Fraction(0))] for k in keys]
    n, r = len(vs), 0
    piv = []
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        rows[r] = [x / rows[r][c] for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                f = rows[i][c]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    if any(row[n] for row in rows[r:]):
        return None
    if r < n:
        return "many"
    x = [rows[i][n] for i in range(n)]
    return x if all(a > 0 for a in x) else None


def net_reaction(d, m, vecs, used):
    tot = {}
    if d["netkind"] == "sum":
        left = sorted({norm(v): v for v in vecs}.values(), key=norm)
        for i, w in d["net"]:
            if not left:
                break
            v = left.pop(i % len(left))
            for k, x in v.items():
                tot[k] = tot.get(k, 0) + w * x
    elif d["netkind"] == "given":
        tot = {i: Fraction(x) for i, x in d["net"]} if {i for i, _ in d["net"]} <= set(used) else {}
    elif d["netkind"] == "single":
        tot = dict(vecs[d["net"][0][0] % len(vecs)])
    else:
        comps = [gen._reduce(m.d["es"][i]["c"])[0] for i in used]
        pairs = gen.balanced_pairs(comps, 2, 2, 200)
        if pairs:
            a, b, k = pairs[d["net"][0][0] % len(pairs)]
            tot = {used[i]: Fraction(x).limit_denominator(10**6) for i, x in zip(a + b, k)}
    tot = {k: v for k, v in tot.items() if v}
    if not tot or not min(tot.values()) < 0 < max(tot.values()) or max(map(abs, tot.values())) > 1000 * min(map(abs, tot.values())):
        return None
    fs = [m.entries[k].composition.reduced_formula for k in tot]
    return tot if len(set(fs)) == len(fs) else None


def fn(d, rec):
    m = net.Model(d)
    if not m.rxns or m.indistinct:
        rec.label("indistinguishable or no reactions")
        return
    fakeray.S.reset(d["sched"], cpus=d["cpus"])
    rn = m.network()
    rs = list(rn.rxns.get_rxns())
    vecs = [exact(r, m) for r in rs]
    tot = net_reaction(d, m, vecs, m.used)
    if tot is None:
        rec.label("no net reaction")
        return
    entries = rn.entries
    if d["ents"] == "superset":
        entries = GibbsEntrySet(gen.mk_entries(d["es"]))
    elif d["ents"] == "json":
        entries = json.loads(json.dumps(entries, cls=MontyEncoder), cls=MontyDecoder)
    cut = sorted({x % len(rs) for x in d["split"]} - {0})
    groups = [rs[a:b] for a, b in zip([0] + cut, cut + [len(rs)])]
    ps = PathwaySet.from_paths([BasicPathway(g, [m.cf.evaluate(r) for r in g]) for g in groups])
    if d["ents"] == "jsonpaths":
        ps = json.loads(json.dumps(ps, cls=MontyEncoder), cls=MontyDecoder)
    own, inter = {net.ekey(e): e for e in entries}, d.get("inter")
    if inter and not ({d["open"]} if d["open"] else set()) | {x.symbol for e in own.values() for x in e.composition.elements} <= {x.symbol for e in own.values() if len(e.composition) == 1 for x in e.composition.elements}:
        rec.label("an element is not in the network")
        return
    es, ks = [own[m.keys[k]] for k in tot], [float(v) for v in tot.values()]
    nr = OpenComputedReaction(es, ks, dict(m.chempots)) if m.chempots else ComputedReaction(es, ks)
    ensure(nr.balanced, "harness: net reaction %s is not balanced", nr)
    open_el, mu = (next(iter(m.chempots.items())) if m.chempots else (None, 0.0))
    solver = PathwaySolver(ps, entries, m.cf, open_elem=open_el, chempot=mu, chunk_size=d["chunk"], batch_size=d["batch"])
    ensure(len(solver.reactions) == len(solver.costs) == solver.num_rxns and solver.num_entries == len(entries), "solver has %s reactions, %s costs", len(solver.reactions), len(solver.costs))

    pool = list(zip(rs, [m.cf.evaluate(r) for r in rs]))
    if inter:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            more = intermediates(d, m, nr, own, [own[m.keys[k]] for k in m.used], open_el, mu)
        pool += [(r, m.cf.evaluate(r)) for r in more]
    by, cost = {}, {}
    for r, c in pool:
        v = exact(r, m)
        by.setdefault(norm(v), v)
        cost.setdefault(norm(v), []).append(c)
    own_dir = norm(tot)
    cands = [v for v in by if v != own_dir]
    if sum(1 for n in range(1, d["n"] + 1) for _ in combinations(cands, n)) > 1500:
        rec.label("too many combinations")
        return
    want, many = {}, set()
    for n in range(1, d["n"] + 1):
        for c in combinations(cands, n):
            x = solve_exact([by[v] for v in c], tot)
            if x == "many":
                many.add(frozenset(c))
            elif x is not None and min(x) > Fraction(1, 1000):
                want[frozenset(c)] = x
            elif x is not None:
                many.add(frozenset(c))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dict(find_intermediate_rxns=False)
        if inter:
            kw = dict(find_intermediate_rxns=True, intermediate_rxn_energy_cutoff=inter["cut"], use_basic_enumerator=inter["basic"], use_minimize_enumerator=inter["mini"])
        fakeray.S.reset(d["sched"], cpus=d["cpus"])
        before = json.dumps(nr, cls=MontyEncoder, sort_keys=True)
        res = solver.solve(nr, max_num_combos=d["n"], filter_interdependent=d["filt"], **kw)
    P = {frozenset(rsets.comps_of([d["es"][k]])[0].items()) for k, v in tot.items() if v < 0}
    comps = [frozenset(c.items()) for c in rsets.comps_of(d["es"])]

    def interdependent(c):
        left, have = [by[v] for v in c], set(P)
        while True:
            go = [v for v in left if {comps[i] for i, x in v.items() if x < 0} <= have]
            if not go:
                return bool(left) and len(c) > 1
            left = [v for v in left if v not in go]
            have |= {comps[i] for v in go for i, x in v.items() if x > 0}

    got = {}
    avg = []
    for p in res:
        ensure(len(p.reactions) == len(p.coefficients) == len(p.costs) and 1 <= len(p.reactions) <= d["n"], "a pathway of %s reactions has %s multiplicities and %s costs", len(p.reactions), len(p.coefficients), len(p.costs))
        vs = [exact(r, m) for r in p.reactions]
        names = [norm(v) for v in vs]
        approx = {tuple((i, round(float(x), 6)) for i, x in k): k for k in by}
        names = [approx.get(tuple((i, round(float(x), 6)) for i, x in k), k) for k in names]
        for r, k, c in zip(p.reactions, names, p.costs):
            ensure(k in by, "%s is not one of the reactions supplied", r)
            ensure(any(close(c, y) for y in cost[k]), "%s is given the cost %s instead of %s", r, c, cost[k])
            ensure(type(r) is (OpenComputedReaction if m.chempots else ComputedReaction), "%s is a %s", r, type(r))
        s, size = {}, {}
        for r, a in zip(p.reactions, p.coefficients):
            ensure(a > 0, "%s has the multiplicity %s", r, a)
            for e, c in zip(r.entries, r.coefficients):
                k = m.keys.index(net.ekey(e))
                s[k] = s.get(k, 0) + a * c
                size[k] = max(size.get(k, 0), abs(a * c))
        ensure(all(abs(s.get(k, 0) - float(tot.get(k, 0))) <= 1e-4 * max(1, size.get(k, 0)) for k in set(s) | set(tot)), "the pathway %s with multiplicities %s does not add up to %s", p, p.coefficients, nr)
        ensure(p.balanced is True, "the pathway is not reported as balanced")
        c = frozenset(names)
        ensure(c not in got, "the pathway %s is repeated", p)
        got[c] = p
        ensure(close(p.average_cost, sum(a * b for a, b in zip(p.coefficients, p.costs)) / sum(p.coefficients)), "average cost %s", p.average_cost)
        avg.append(p.average_cost)
        if d["filt"]:
            ensure(not interdependent(c), "the pathway %s is interdependent", p)
        if c in want:
            for k, a, v in zip(names, p.coefficients, vs):
                j = cands_index(c, k, by, want, d, tot)
                ensure(abs(a * float(sum(map(abs, v.values()))) - float(j)) <= 1e-4 * max(1.0, float(j)), "the multiplicity of %s is %s", v, a)
    ensure(all(a <= b or close(a, b) for a, b in zip(avg, avg[1:])), "pathways are not sorted by cost: %s", avg)
    need = [c for c in want if not (d["filt"] and interdependent(c))]
    missing = [c for c in need if c not in got]
    ensure(not missing, "%s of %s solutions are missing (%s reported), e.g. %s for %s", len(missing), len(need), len(got), missing and [dict((m.keys[i], str(x)) for i, x in by[v].items()) for v in missing[0]], nr)
    ensure(all(c in want or c in many or own_dir in c for c in got), "unexpected solutions")
    ensure(json.dumps(nr, cls=MontyEncoder, sort_keys=True) == before, "solving altered the net reaction")
    rec.nontrivial(len(want) >= 2)
    rec.label("no solution" if not want else "some filtered" if len(need) < len(want) else "solved")


def cands_index(c, k, by, want, d, tot):
    """Amount (multiplicity times size) of reaction k in the exact solution of combination c."""
    vs = [v for v in by if v in c]
    x = solve_exact([by[v] for v in vs], tot)
    return dict(zip(vs, [a * sum(map(abs, by[v].values())) for v, a in zip(vs, x)]))[k]


def intermediates(d, m, nr, own, used, open_el, mu):
    targets = [e for e, c in zip(nr.entries, nr.coefficients) if c > 0]
    es = GibbsEntrySet(used + targets + [e for e in own.values() if len(e.composition) == 1])
    tf = [e.composition.reduced_formula for e in targets]
    out = []
    of = gen.mk_comp({str(open_el): 1}).reduced_formula if open_el else None
    if d["inter"]["basic"]:
        out += list(BasicEnumerator(targets=tf, quiet=True).enumerate(es))
        if open_el:
            out += list(BasicOpenEnumerator(open_phases=[of], targets=tf, quiet=True).enumerate(es))
    if d["inter"]["mini"]:
        out += list(MinimizeGibbsEnumerator(targets=tf, quiet=True).enumerate(es))
        if open_el:
            out += list(MinimizeGrandPotentialEnumerator(open_elem=open_el, mu=mu, targets=tf, quiet=True).enumerate(es))
    if open_el:
        out = [OpenComputedReaction(list(r.entries), list(r.coefficients), {open_el: mu}) for r in out]
    keys = {net.ekey(e) for e in es}
    return [r for r in out if r.energy_per_atom < d["inter"]["cut"] and {net.ekey(e) for e in r.entries} <= keys]


def warmup():
    es = [dict(kind="gibbs", c=c, m=1, e=e, v=12.0, T=300, id=str(i)) for i, (c, e) in enumerate([({"Li": 1}, 0.0), ({"O": 1}, 0.0), ({"Li": 2, "O": 1}, -1.0), ({"Li": 1, "O": 1}, -1.0)])]
    import contextlib
    import io

    for sched, chunk in (([], 100000), ([3, 3], 1)):
        d = dict(es=es, picks=[[i, 0, 0] for i in range(8)], mix=[], dup=[], guided=False, P=[0, 1], cost="table", open=None, net=[[0, 1], [3, 1]], netkind="pair", split=[], ents="network", n=4, cpus=4, chunk=chunk, batch=None,
                 filt=False, sched=sched)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), contextlib.suppress(Exception):
            fn(d, type("R", (), dict(label=lambda *a: None, nontrivial=lambda *a: None))())


FACETS = [Facet("solve", case, fn, quick=700, thorough=12000, shards=8), Facet("intermediates", lambda: case(inter=True), fn, quick=400, thorough=4000, shards=8),
          Facet("routes", routes, fn, quick=200, thorough=5000, shards=8)]
