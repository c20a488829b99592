"""H01: interface hulls and competition scores match their geometric definition."""
import numpy as np
from rxn_network.costs.calculators import PrimaryCompetitionCalculator, SecondaryCompetitionCalculator
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.hull import InterfaceReactionHull
from vp import gen, ifc
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "H01"
RULE = ("Interfaces between two precursors: phases on and off the tie line with energies scattered around a convex curve, all or some of their balanced "
        "reactions including decompositions of one precursor, both precursor orders, shuffled reaction lists. The envelope is recomputed with a monotone "
        "chain over hand-computed coordinates. Non-trivial: at least two interior corners, or a decomposing precursor.")


def build(d, rx=None, swap=None, shuffle=True):
    ents = gen.mk_entries(d["e"])
    rxns = [ComputedReaction([ents[i] for i in idx], [x * d["mult"] for x in k], data={"n": n}) for n, (idx, k) in enumerate(d["rx"])]
    order = list(range(len(rxns)))
    if shuffle:
        np.random.default_rng(d["seed"]).shuffle(order)
    c = [ents[0].composition, ents[1].composition]
    if d["swap"] if swap is None else swap:
        c = c[::-1]
    return rxns, InterfaceReactionHull(c[0], c[1], [rxns[i] for i in order]), order


def prepare(d):
    """Points of all reactions, or None if the interface cannot be built (both precursors must occur) or is degenerate."""
    pts = ifc.coords(d)
    if not pts or not any(0 < x < 1 for x, _ in pts) and not ({x for x, _ in pts} >= {0.0, 1.0}):
        return None, None
    if max(abs(y) for _, y in pts) < 1e-6:
        return None, None  # flat: no two-dimensional hull
    return pts, ifc.lower_hull(pts + [(0.0, 0.0), (1.0, 0.0)])


def fragile(pts, h):
    """Whether some reaction is within rounding of the envelope without being a clear corner."""
    corner = {p[0] for p in h}
    for n, (x, y) in enumerate(pts):
        gap = y - ifc.envelope(h, x)
        if gap < 1e-7 and not (round(x, 10) in corner and not any(m != n and abs(x - a) < 1e-9 and abs(y - b) < 1e-7 for m, (a, b) in enumerate(pts))):
            return True
        if abs(y) < 1e-7:
            return True
    xs = sorted({round(x, 10) for x, _ in pts})
    if any(b - a < 1e-4 for a, b in zip(xs, xs[1:])):
        return True
    for (x1, y1), (x2, y2), (x3, y3) in zip(h, h[1:], h[2:]):
        if (y1 + (x2 - x1) / (x3 - x1) * (y3 - y1)) - y2 < 1e-6:
            return True
    return False


def fn(d, rec):
    pts, h = prepare(d)
    if pts is None:
        rec.label("unbuildable")
        return
    rxns, irh, order = build(d)
    X = (lambda x: 1 - x) if d["swap"] else (lambda x: x)
    frag = fragile(pts, h)
    rec.label("fragile" if frag else "clean")
    rec.nontrivial(not frag and (len(h) >= 4 or h[0][1] < -1e-6 or h[-1][1] < -1e-6))
    if h[0][1] < -1e-6 or h[-1][1] < -1e-6:
        rec.label("decomposing precursor")

    ensure(len(irh.reactions) == len(rxns) + 2, "the hull holds %s reactions, %s were given", len(irh.reactions), len(rxns))
    ensure(gen.allclose([r.energy_per_atom for r in irh.endpoint_reactions], [0.0, 0.0]), "endpoint energies")
    for n, r in enumerate(rxns):
        x, y = pts[n]
        ensure(close(irh.get_coordinate(r), X(x), atol=1e-9), "coordinate of %s is %s, expected %s", r, irh.get_coordinate(r), X(x))
        ensure(close(irh.get_hull_energy(irh.get_coordinate(r)), ifc.envelope(h, x), atol=1e-8), "hull energy at %s: %s, expected %s", r,
               irh.get_hull_energy(irh.get_coordinate(r)), ifc.envelope(h, x))
        eh = irh.get_energy_above_hull(r)
        same = [b for (a, b) in pts if abs(a - x) < 1e-9]
        if sum(abs(b - y) < 1e-4 for b in same) == 1:  # reactions of equal phases and energies are interchangeable
            ensure(close(eh, y - ifc.envelope(h, x), atol=1e-8), "energy above hull of %s: %s, expected %s", r, eh, y - ifc.envelope(h, x))
        c1 = irh.get_primary_competition(r)
        comp = [b for a, b in pts if abs(a - x) > 1e-9] + [0.0] * ((x > 1e-9) + (x < 1 - 1e-9))
        ensure(close(c1, y - min(comp), atol=1e-8), "primary competition of %s: %s, expected %s - %s", r, c1, y, min(comp))
        ensure(PrimaryCompetitionCalculator(irh).calculate(r) == c1, "the calculator differs from the hull")
    for x in (0.0, 1.0, 0.5, 0.3):
        got = irh.get_hull_energy(X(x))
        ensure(close(got, ifc.envelope(h, x), atol=1e-7), "hull energy at x=%s: %s, expected %s", x, got, ifc.envelope(h, x))
    if frag:
        return
    stable = sorted(n for n, (x, y) in enumerate(pts) if y - ifc.envelope(h, x) < 1e-7)
    got = sorted(r.data["n"] for r in irh.stable_reactions if r.data and "n" in r.data)
    ensure(got == stable, "stable reactions %s, expected %s of %s", got, stable, pts)
    un = sorted(r.data["n"] for r in irh.unstable_reactions if r.data and "n" in r.data)
    ensure(un == sorted(set(range(len(pts))) - set(stable)), "unstable reactions %s", un)
    ends = sum(abs(p[1]) < 1e-9 for p in (h[0], h[-1]))
    ensure(len(irh.stable_reactions) == len(stable) + ends, "endpoints among the stable reactions: %s, expected %s", len(irh.stable_reactions) - len(stable), ends)

    _, other, _ = build(d, swap=not d["swap"], shuffle=False)
    for n, r in enumerate(rxns):
        x, y = pts[n]
        left, right = ifc.sequence_points(h, 0.0, round(x, 10)), ifc.sequence_points(h, round(x, 10), 1.0)
        if max(len(left), len(right)) > 9:
            continue
        (ls, _), (rs, _) = ifc.trees(left), ifc.trees(right)
        want = -(sum(ls) / len(ls) + sum(rs) / len(rs))
        for kw, w in ((dict(), want), (dict(include_e_hull=True), want + y - ifc.envelope(h, x)), (dict(normalize=False), -(sum(ls) * len(rs) + sum(rs) * len(ls)))):
            for hull in (irh, other):
                got = hull.get_secondary_competition(r, **kw)
                ensure(close(got, w, atol=1e-7), "secondary competition %s of %s: %s, expected %s", kw, r, got, w)
        ensure(SecondaryCompetitionCalculator(irh).calculate(r) == irh.get_secondary_competition(r), "the calculator differs from the hull")
        ensure(close(other.get_primary_competition(r), irh.get_primary_competition(r), atol=1e-9), "primary competition depends on the order of precursors")


FACETS = [Facet("hull", ifc.interface(), fn, quick=300, thorough=12000, shards=4)]
