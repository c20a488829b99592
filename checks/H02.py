"""H02: closed-form secondary reaction energies equal the brute-force average over all binary trees."""
from math import comb

from hypothesis import strategies as st

from checks import H01
from rxn_network.costs.calculators import (
    SecondaryCompetitionAreaCalculator,
    SecondaryCompetitionMaxCalculator,
    SecondaryCompetitionWithEhullCalculator,
)
from vp import ifc
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "H02"
RULE = ("Hulls from generated interfaces (as in H01) with up to nine corners; intervals between reactants, corners, reactions and arbitrary ratios. Sum, "
        "count and extreme step are recomputed by listing every binary tree. Sequence counts are compared with the Catalan numbers up to 27 corners. "
        "Non-trivial: an interval with at least three interior points.")


@st.composite
def case(draw):
    d = draw(ifc.interface(max_phases=10))
    d["cuts"] = draw(st.lists(st.tuples(st.integers(0, 12), st.integers(0, 12)).map(list), min_size=1, max_size=4))
    return d


def area(pts):
    """Area between the chord and the points' convex hull (points are in convex position or on shared ratios)."""
    def cross(o, a, b):
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

    p = sorted(set(pts))
    lo, up = [], []
    for chain, seq in ((lo, p), (up, p[::-1])):
        for q in seq:
            while len(chain) >= 2 and cross(chain[-2], chain[-1], q) <= 0:
                chain.pop()
            chain.append(q)
    poly = lo[:-1] + up[:-1]
    return abs(sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(poly, poly[1:] + poly[:1]))) / 2


def fn(d, rec):
    pts, h = H01.prepare(d)
    if pts is None or H01.fragile(pts, h):
        rec.label("skipped")
        return
    d = dict(d, swap=False)
    rxns, irh, _ = H01.build(d)
    xs = sorted({0.0, 1.0} | {p[0] for p in h} | {round(x, 10) for x, _ in pts} | {0.37})
    xs = [x for i, x in enumerate(xs) if i == 0 or x - xs[i - 1] > 1e-3]
    todo = [(0.0, 1.0)] + [tuple(sorted((xs[i % len(xs)], xs[j % len(xs)]))) for i, j in d["cuts"]]
    for lo, hi in todo:
        # an interval that ends within rounding of a corner must use the coordinate of that corner
        P = ifc.sequence_points(h, lo, hi)
        if len(P) > 9:
            continue
        exact = {round(irh.get_coordinate(r), 10): irh.get_coordinate(r) for r in rxns}
        a, b = exact.get(lo, lo), exact.get(hi, hi)
        sums, step = ifc.trees(P)
        n = max(len(P) - 2, 0)
        ensure(len(irh.get_coords_in_range(a, b)) == len(P), "points between %s and %s: %s, expected %s", a, b, irh.get_coords_in_range(a, b), P)
        e = irh.get_decomposition_energy(a, b)
        ensure(close(e, sum(sums), atol=1e-7), "total energy of all sequences in [%s, %s]: %s, expected %s", a, b, e, sum(sums))
        ensure(irh.count(n) == len(sums), "number of sequences for %s points: %s, expected %s", n, irh.count(n), len(sums))
        re, rn = irh.get_decomposition_energy_and_num_paths_recursive(a, b)
        ensure(rn == len(sums), "recursive number of sequences in [%s, %s]: %s, expected %s (points %s)", a, b, rn, len(sums), P)
        ensure(close(re, sum(sums), atol=1e-7), "recursive energy in [%s, %s]: %s, expected %s", a, b, re, sum(sums))
        m = irh.get_max_decomposition_energy(a, b)
        ensure(close(m, min(step, 0.0), atol=1e-9), "largest step in [%s, %s]: %s, expected %s", a, b, m, step)
        ensure(irh.get_decomposition_energy(b, a) == e, "the direction of the interval matters")
        rec.nontrivial(n >= 3)
        rec.label(f"{min(n, 6)} points")
        if len({p[0] for p in P}) > 1 and area(P) > 1e-3:
            ensure(close(irh.get_decomposition_area(a, b), area(P), rtol=1e-3), "area in [%s, %s]: %s, expected %s", a, b, irh.get_decomposition_area(a, b), area(P))
    for r, (x, y) in zip(rxns, pts):
        x = round(x, 10)
        L, R = ifc.sequence_points(h, 0.0, x), ifc.sequence_points(h, x, 1.0)
        if max(len(L), len(R)) > 9:
            continue
        (ls, lm), (rs, rm) = ifc.trees(L), ifc.trees(R)
        want = -(sum(ls) / len(ls) + sum(rs) / len(rs))
        for kw, w in ((dict(recursive=True), want), (dict(recursive=True, include_e_hull=True), want + y - ifc.envelope(h, x)),
                      (dict(recursive=True, normalize=False), -(sum(ls) * len(rs) + sum(rs) * len(ls)))):
            got = irh.get_secondary_competition(r, **kw)
            ensure(close(got, w, atol=1e-7), "secondary competition %s of %s: %s, expected %s", kw, r, got, w)
        got = irh.get_secondary_competition_max_energy(r)
        ensure(close(got, -(min(lm, 0) + min(rm, 0)), atol=1e-7), "largest-step competition of %s: %s, expected %s", r, got, -(lm + rm))
        ensure(SecondaryCompetitionMaxCalculator(irh).calculate(r) == got, "max calculator")
        ensure(SecondaryCompetitionWithEhullCalculator(irh).calculate(r) == irh.get_secondary_competition(r, include_e_hull=True), "ehull calculator")
        if 0 < x < 1:
            A = area(L) + area(R)
            if A > 1e-3:
                ensure(close(SecondaryCompetitionAreaCalculator(irh).calculate(r), A, rtol=1e-3, atol=1e-4), "area of %s", r)


def count_cases(tier):
    for n in range(28 if tier == "thorough" else 26):
        yield dict(n=n)


def count_fn(d, rec):
    n = d["n"]
    from pymatgen.entries.computed_entries import ComputedEntry
    from rxn_network.core import Composition
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.hull import InterfaceReactionHull

    e = [ComputedEntry(Composition(c), x) for c, x in (("Li", 0.0), ("Na", 0.0), ("LiNa", -1.0))]
    irh = InterfaceReactionHull(e[0].composition, e[1].composition, [ComputedReaction(e, [-1.0, -1.0, 1.0])])
    want = comb(2 * n, n) // (n + 1)
    ensure(irh.count(n) == want, "count(%s) = %s, expected %s", n, irh.count(n), want)
    rec.nontrivial(n > 2)


FACETS = [Facet("trees", case, fn, quick=300, thorough=10000, shards=4), Facet("counts", None, count_fn, cases=count_cases)]
