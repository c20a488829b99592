"""K02: Pareto fronts contain exactly the non-dominated rows."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from rxn_network.costs.pareto import get_pareto_front, is_pareto_efficient
from vp.core import Facet, ensure

PROPERTY = "K02"
RULE = ("Tables of 1-14 rows over 1-4 objectives on a coarse grid (ties, equal rows and dominated rows are common), integer or float, with extra "
        "columns, arbitrary row labels, minimised or maximised, in several row orders. Oracle: pairwise dominance. Non-trivial: both dominated and "
        "non-dominated rows.")
DEFAULT = ["energy", "primary_competition", "secondary_competition"]


@st.composite
def case(draw):
    m = draw(st.integers(1, 4))
    hi = draw(st.sampled_from([1, 2, 3, 5, 40]))
    v = st.integers(-hi, hi)
    rows = draw(st.lists(st.lists(v, min_size=m, max_size=m), min_size=1, max_size=14))
    return dict(rows=rows, maximize=draw(st.booleans()), kind=draw(st.sampled_from(["float", "int", "mixed"])),
                order=draw(st.permutations(range(len(rows)))), labels=draw(st.sampled_from(["text", "repeated", "number"])), default=m == 3 and draw(st.booleans()), cols=draw(st.permutations(range(m))))


def front(rows, sign):
    out = []
    for i, a in enumerate(rows):
        a_ = [sign * x for x in a]
        if not any(all(sign * y <= x for x, y in zip(a_, b)) and any(sign * y < x for x, y in zip(a_, b)) for b in rows):
            out.append(i)
    return out


def fn(d, rec):
    rows = d["rows"]
    m = len(rows[0])
    names = DEFAULT if d["default"] else [f"m{i}" for i in range(m)]
    scale = 1 if d["kind"] == "int" else 0.125
    want = front(rows, -1 if d["maximize"] else 1)
    rec.nontrivial(0 < len(want) < len(rows))
    rec.label("maximize" if d["maximize"] else "minimize")
    if len({tuple(r) for r in rows}) < len(rows):
        rec.label("equal rows")
    metrics = [names[i] for i in d["cols"]]
    for order in (list(range(len(rows))), d["order"], d["order"][::-1]):
        cols = {"rxn": [f"r{i}" for i in order], "n": order}
        for j, nm in enumerate(names):
            s = 1 if d["kind"] == "mixed" and j % 2 else scale
            cols[nm] = [rows[i][j] * s for i in order]
        df = pd.DataFrame(cols, index=[f"x{i}" if d["labels"] == "text" else i // 2 if d["labels"] == "repeated" else i for i in order])
        keep = df.copy(deep=True)
        got = get_pareto_front(df, **({} if d["default"] else dict(metrics=tuple(metrics))), maximize=d["maximize"])
        ensure(sorted(got["n"]) == want, "%s front of %s: rows %s, expected %s", "maximal" if d["maximize"] else "minimal", rows, sorted(got["n"]), want)
        pd.testing.assert_frame_equal(df, keep)
        pd.testing.assert_frame_equal(got, keep[keep["n"].isin(want)])
        if not d["maximize"]:
            brief = get_pareto_front(df, **({} if d["default"] else dict(metrics=tuple(metrics))))
            ensure(sorted(brief["n"]) == want, "the front found without saying which is not the minimal one")
            pts = np.array([[rows[i][j] * scale for j in range(m)] for i in order])
            mask = is_pareto_efficient(pts, return_mask=True)
            idx = is_pareto_efficient(pts, return_mask=False)
            ensure(sorted(order[i] for i in np.flatnonzero(mask)) == want, "mask %s", mask)
            ensure(sorted(order[i] for i in idx) == want, "indices %s", idx)


FACETS = [Facet("fronts", case, fn, quick=1200, thorough=60000, shards=2)]
