"""Shared pieces for the enumerator checks: generators, builders, reaction keys and the brute-force oracle."""
from itertools import combinations, product

from hypothesis import strategies as st

from vp import gen, geom

FOREIGN = ["K", "Zr"]


def fml(c):
    return "".join(f"{e}{a}" for e, a in c.items())


@st.composite
def entries(draw, lo=2, hi=3, nmin=2, nmax=5, pool=None, must=(), T=(300, 1000), interp=True, polymorphs=True):
    els = draw(gen.el_sets(max(lo - len(must), 1), hi - len(must), [e for e in (pool or gen.ELS) if e not in must])) + list(must)
    es = draw(gen.entry_list(els, min_size=min(nmin, nmax), max_size=nmax, temps=T, kinds=("gibbs", "gibbs", "gibbs", "interp") if interp else ("gibbs",), polymorphs=polymorphs))
    seen = {}
    for i, x in enumerate(es):  # equal energies would leave the ground state open
        k = tuple(sorted(gen._reduce(x["c"])[0].items()))
        if (x["e"], x["v"]) in seen.setdefault(k, set()):
            x["e"] += (1 + i) / 128
            x["v"] += i
        seen[k].add((x["e"], x["v"]))
    return els, es


@st.composite
def guided(draw, es):
    """Precursor and target formulas around some reaction that exists, or (None, None)."""
    comps = [gen._reduce(x["c"])[0] for x in es]
    pairs = gen.balanced_pairs(comps, 2, 2, 120)
    if not pairs:
        return None, None
    a, b, _ = draw(st.sampled_from(pairs))
    P = [es[i]["c"] for i in a]
    T = [es[i]["c"] for i in b]
    P += draw(st.lists(st.sampled_from([x["c"] for x in es]), max_size=2))
    T = T[: draw(st.integers(1, len(T)))] + draw(st.lists(st.sampled_from([x["c"] for x in es]), max_size=1))
    return tuple(list(dict.fromkeys(fml({e: n * m for e, n in c.items()}) for c in cs)) for cs, m in ((P, draw(st.integers(1, 2))), (T, 1)))


@st.composite
def restriction(draw, els, es, absent=True):
    """Formulas asked for as precursors/targets."""
    out = []
    for _ in range(draw(st.integers(1, 3))):
        if absent and draw(st.integers(0, 7)) == 0:
            c = draw(gen.formula(els, max_amt=4, min_els=2))
        else:
            c = draw(st.sampled_from(es))["c"]
        m = draw(st.integers(1, 2))
        f = fml({e: a * m for e, a in c.items()})
        if f not in out:
            out.append(f)
    return out


def rf(c):
    return gen.mk_comp({getattr(e, "symbol", e): a for e, a in c.items()}).reduced_formula


def ekey(e):
    n = type(e).__name__
    if n == "InterpolatedEntry" and str(e.entry_id).startswith("InterpolatedEntry-"):
        return "interp:" + rf(e.composition)
    return f"{e.entry_id}:{e.composition.formula}"


def rkey(r, nd=5):
    """Reaction as (reactant keys, product keys, coefficients scaled to the first species)."""
    rs = sorted((ekey(e), -float(c)) for e, c in zip(r.entries, r.coefficients) if c < 0)
    ps = sorted((ekey(e), float(c)) for e, c in zip(r.entries, r.coefficients) if c > 0)
    s = rs[0][1] if rs else 1.0
    return (tuple((k, round(c / s, nd)) for k, c in rs), tuple((k, round(c / s, nd)) for k, c in ps))


class Phase:
    __slots__ = ("key", "c", "f", "epa", "els")

    def __init__(self, e):
        self.key = ekey(e)
        comp = {x.symbol: int(round(a)) for x, a in e.composition.items()}
        self.c = gen._reduce(comp)[0]
        self.c = {k: int(v) for k, v in self.c.items()}
        self.f = rf(comp)
        self.epa = e.energy / sum(comp.values())
        self.els = frozenset(self.c)


def ground(phases, f):
    m = [p for p in phases if p.f == f]
    return min(m, key=lambda p: p.epa) if m else None


def subsets(items, n):
    return [c for k in range(1, n + 1) for c in combinations(items, k)]


def expected_basic(phases, n, precursors, targets, excl_p, excl_t, chemsys=None, opens=None):
    """All reactions with a unique, strictly signed balance that satisfy the restrictions.  phases must include the precursors
    and targets; precursors/targets are sets of phase keys (None = unrestricted).  opens: set of keys of open phases, exactly
    one side of every reaction then holds at least one of them.  Returns {key: ...} and a set of keys that may or may not appear."""
    closed = [p for p in phases if not opens or p.key not in opens]
    op = [p for p in phases if opens and p.key in opens]
    open_els = frozenset(e for p in op for e in p.els)
    subs = subsets(closed, n)
    osubs = subsets(op, len(op)) if opens else [()]
    want, maybe = {}, set()

    def ok(side, chosen, excl):
        if chosen is None:
            return True
        ks = {p.key for p in side}
        return ks <= chosen if excl else bool(ks & chosen)

    from collections import defaultdict

    groups = defaultdict(list)
    for s in subs:
        groups[frozenset(e for p in s for e in p.els) | open_els].append(s)
    for els, ss in groups.items():
        if not 2 <= len(els) <= 9:
            continue
        sure = may = True
        if chemsys:
            sure = chemsys <= els
            may = bool(chemsys & els)
        if not may:
            continue
        for a, b in product(ss, ss):
            if set(p.key for p in a) & set(p.key for p in b):
                continue
            if not (ok(a, precursors, excl_p) and ok(b, targets, excl_t)):
                continue
            for o in osubs:
                for left, right in ([(a, b)] if not opens else [(a + o, b), (a, b + o)]):
                    el1 = frozenset(e for p in left for e in p.els)
                    if el1 != frozenset(e for p in right for e in p.els):
                        continue
                    cl = [p.c for p in left]
                    cr = [p.c for p in right]
                    if chemsys and not chemsys & el1:
                        continue
                    if sorted(str(sorted(c.items())) for c in cl) == sorted(str(sorted(c.items())) for c in cr):
                        continue
                    v, dim = gen.exact_balance(cl, cr)
                    if v is None:
                        continue
                    rs = sorted((p.key, -v[i]) for i, p in enumerate(left))
                    ps = sorted((p.key, v[len(left) + i]) for i, p in enumerate(right))
                    s = rs[0][1]
                    k = (tuple((q, round(float(x / s), 5)) for q, x in rs), tuple((q, round(float(x / s), 5)) for q, x in ps))
                    if sure:
                        want[k] = 1
                    else:
                        maybe.add(k)
    return want, maybe


def asked(forms, phases, es):
    """Keys of the entries standing for the formulas, adding interpolated phases that are absent."""
    if forms is None:
        return None
    from rxn_network.entries.interpolated import InterpolatedEntry

    keys = set()
    for f in forms:
        r = rf(gen.mk_comp(f))
        g = ground(phases, r)
        if g is None:
            comp = gen.mk_comp(f).reduced_composition
            els = sorted({x for p in phases for x in p.els})
            fr = lambda c: [c.get(x, 0) / sum(c.values()) for x in els]
            c = {x.symbol: a for x, a in comp.items()}
            h = geom.hull_energy([fr(p.c) for p in phases if not p.key.startswith("interp:")], [p.epa for p in phases if not p.key.startswith("interp:")], fr(c))
            e = InterpolatedEntry(comp, (h - 1e-3) * comp.num_atoms, entry_id=f"InterpolatedEntry-{comp.formula}_x")
            g = Phase(e)
            phases.append(g)
        keys.add(g.key)
    return keys


def tied(phases):
    """Equal lowest energies of a formula leave its ground state open."""
    for f in {p.f for p in phases}:
        v = sorted(p.epa for p in phases if p.f == f)
        if len(v) > 1 and v[1] - v[0] < 1e-9:
            return True
    return False


class Hull:
    """Lower (grand-)energy hull of the phases through the vertices of its dual polytope."""

    def __init__(self, phases, open_el=None, mu=0.0):
        import numpy as np

        self.open_el = open_el
        self.els = sorted({e for p in phases for e in p.els} - {open_el})
        self.phases = [p for p in phases if p.els - {open_el}]
        self.n = {p.key: sum(a for e, a in p.c.items() if e != open_el) for p in self.phases}
        self.A = np.array([self.x(p) for p in self.phases])
        self.b = np.array([(p.epa * sum(p.c.values()) - mu * p.c.get(open_el, 0)) / self.n[p.key] for p in self.phases])
        self.phi = {p.key: b for p, b in zip(self.phases, self.b)}
        self.V = np.array([v for v, _ in geom.vertices(self.A, self.b)])

    def x(self, p):
        return [p.c.get(e, 0) / self.n[p.key] for e in self.els]

    def energy(self, q):
        return float((self.V @ q).max())

    def support(self, q):
        """(phases that can take part at composition q, whether the mixture is unique beyond doubt)."""
        import numpy as np

        f = self.V @ q
        S = [i for i in range(len(self.b)) if (self.b[i] - self.V[f >= f.max() - 1e-6] @ self.A[i]).max() < 1e-5]
        uniq = np.linalg.matrix_rank(self.A[S], tol=1e-6) == len(S)
        return [self.phases[i] for i in S], bool(uniq)

    def kinks(self, q0, q1, min_change=1e-9):
        """[(x, slope change)] of the envelope between q0 (x=0) and q1 (x=1)."""
        a, b = self.V @ q0, self.V @ (q1 - q0)
        out, x, cur = [], 0.0, None
        # walk along the upper envelope of the lines a + b x
        cur = max(range(len(a)), key=lambda i: (round(a[i], 10), b[i]))
        while True:
            nxt = [((a[cur] - a[j]) / (b[j] - b[cur]), j) for j in range(len(a)) if b[j] > b[cur] + min_change]
            nxt = [(t, j) for t, j in nxt if t >= x - 1e-12]
            if not nxt:
                break
            t = min(t for t, _ in nxt)
            if t >= 1:
                break
            j = max((j for u, j in nxt if u <= t + 1e-10), key=lambda j: b[j])
            if t > 0:
                out.append((t, float(b[j] - b[cur])))
            x, cur = t, j
        return out


DEFAULTS = dict(precursors=None, targets=None, n=2, exclusive_precursors=True, exclusive_targets=False, filter_duplicates=False, filter_by_chemsys=None, max_num_constraints=1, remove_unbalanced=True, remove_changed=True)


def brief(kw, on=True):
    """Leave out the settings that have their documented default."""
    return {k: v for k, v in kw.items() if not (on and k in DEFAULTS and type(v) is type(DEFAULTS[k]) and v == DEFAULTS[k])}
