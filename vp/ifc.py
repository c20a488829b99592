"""Interfaces between two precursors: generator (plain) and builder."""
from itertools import combinations

from hypothesis import strategies as st

from vp import gen


@st.composite
def interface(draw, max_phases=7, decomposition=True):
    """{"c1","c2","e": entry dicts (first two = precursors), "rx": [(entry idx, coeffs)], "swap", "order"}; the phases mostly
    lie on the tie line, with energies around a parabola, so that hulls have many corners."""
    els = draw(gen.el_sets(2, 3))
    c1 = gen._reduce(draw(gen.formula(els, max_amt=2)))[0]
    c2 = gen._reduce(draw(gen.formula(els, max_amt=2)))[0]
    if c1 == c2 or set(c1) == set(c2) and len(c1) == 1:
        c1, c2 = {els[0]: 1}, {els[1]: 1}
        c1, c2 = gen._reduce(c1)[0], gen._reduce(c2)[0]
    depth = draw(st.sampled_from([0.0, 0.25, 1.0, 2.0, -0.5]))
    na, nb = sum(c1.values()), sum(c2.values())
    e1, e2 = draw(gen.energies(-2.0, 0.0)), draw(gen.energies(-2.0, 0.0))
    comps, es = [c1, c2], [e1, e2]
    for _ in range(draw(st.integers(2, max_phases))):
        a, b = draw(st.integers(1, 6)), draw(st.integers(1, 6))
        c = {}
        for el, x in c1.items():
            c[el] = c.get(el, 0) + a * x
        for el, x in c2.items():
            c[el] = c.get(el, 0) + b * x
        c = gen._reduce(c)[0]
        x = b * nb / (a * na + b * nb)
        base = e1 * (1 - x) + e2 * x - 4 * depth * x * (1 - x)
        es.append(base + draw(st.integers(-24, 24)) / 256)
        comps.append(c)
    for _ in range(draw(st.integers(0, 3))):  # other phases: decomposition and multi-product reactions
        c = gen._reduce(draw(gen.formula(els, max_amt=3)))[0]
        if c in comps[:2]:
            continue
        comps.append(c)
        es.append(draw(gen.energies(-3.0, 0.25)))
    rx = reactions(comps, decomposition)
    keep = draw(st.lists(st.integers(0, len(rx) - 1), min_size=min(len(rx), 3), max_size=14, unique=True)) if rx else []
    if draw(st.sampled_from([True, True, False])):
        keep = list(range(min(len(rx), 40)))
    es_ = [dict(kind="plain", c=c, m=draw(st.integers(1, 3)), e=e, v=15.0, T=300, id=f"mp-{i}") for i, (c, e) in enumerate(zip(comps, es))]
    return dict(e=es_, rx=[rx[i] for i in keep], swap=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), mult=draw(st.integers(1, 3)))


def reactions(comps, decomposition=True, max_p=2):
    """All reactions from subsets of the first two phases to 1..max_p others: [(indices, coeffs)], reactants first."""
    keys = [tuple(sorted(c.items())) for c in comps]
    out = []
    others = [i for i in range(2, len(comps)) if keys[i] not in keys[:2]]
    for r in [(0, 1)] + ([(0,), (1,)] if decomposition else []):
        er = {e for i in r for e in comps[i]}
        for n in range(1, max_p + 1):
            for p in combinations(others, n):
                if len({keys[i] for i in p}) < n or {e for i in p for e in comps[i]} != er:
                    continue
                v, _ = gen.exact_balance([comps[i] for i in r], [comps[i] for i in p])
                if v is not None:
                    out.append((list(r + p), [float(x) for x in v]))
    return out


def coords(d):
    """[(x, energy per atom)] of the reactions, by hand: x = atomic fraction of precursor 2 among precursors 1 and 2."""
    out = []
    for idx, k in d["rx"]:
        n = [sum(d["e"][i]["c"].values()) for i in idx]
        a = {i: -x * m for i, x, m in zip(idx, k, n) if x < 0}
        tot = sum(a.values())
        en = sum(x * m * d["e"][i]["e"] for i, x, m in zip(idx, k, n)) / tot
        out.append((a.get(1, 0) / tot, en))
    return out


def lower_hull(pts):
    """Corners of the lower convex envelope (monotone chain); pts: [(x, y)] -> sorted corner points.  Points within 1e-10 of
    a line are not corners."""
    best = {}
    for x, y in pts:
        x = round(x, 10)
        best[x] = min(best.get(x, y), y)
    h = []
    for p in sorted(best.items()):
        while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 1e-10:
            h.pop()
        h.append(p)
    return h


def envelope(h, x):
    for (x1, y1), (x2, y2) in zip(h, h[1:]):
        if x1 - 1e-10 <= x <= x2 + 1e-10:
            return y1 + (y2 - y1) * (x - x1) / (x2 - x1)
    raise ValueError(x)


def sequence_points(h, lo, hi):
    """Points of the secondary sequence problem between two ratios on the hull: references first/last, hull corners between."""
    pts = []
    if lo == 0 and abs(envelope(h, 0)) > 1e-8:
        pts.append((0.0, 0.0))
    pts.append((lo, envelope(h, lo)))
    pts += [p for p in h if lo + 1e-9 < p[0] < hi - 1e-9]
    if hi > lo:
        pts.append((hi, envelope(h, hi)))
    if hi == 1 and abs(envelope(h, 1)) > 1e-8:
        pts.append((1.0, 0.0))
    return pts


def trees(pts):
    """(sum of energies over all binary trees, number of trees, most negative step) by explicit recursion over intervals."""
    memo = {}

    def alt(i, m, j):
        (x1, y1), (x2, y2), (x3, y3) = pts[i], pts[m], pts[j]
        return y2 - (y1 + (x2 - x1) / (x3 - x1) * (y3 - y1))

    def go(i, j):
        if j - i < 2:
            return [0.0]
        if (i, j) not in memo:
            memo[i, j] = [alt(i, m, j) + a + b for m in range(i + 1, j) for a in go(i, m) for b in go(m, j)]
        return memo[i, j]

    steps = [alt(i, m, j) for i, m, j in combinations(range(len(pts)), 3)]
    return go(0, len(pts) - 1), min(steps, default=0.0)
