"""U01: subset generation and chunking cover every item exactly once."""
from vp import fakeray

fakeray.install()
from itertools import combinations  # noqa: E402
from math import comb  # noqa: E402

import ray  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from rxn_network.utils.funcs import grouper, limited_powerset  # noqa: E402
from rxn_network.utils.ray import initialize_ray, to_iterator  # noqa: E402
from vp.core import Facet, ensure  # noqa: E402

PROPERTY = "U01"
RULE = ("Collections of up to 40 items (numbers, text, None, repeated items) given as list, tuple, set, dictionary, range, iterator or generator; every size limit and group size around the length of the collection; "
        "up to 12 tasks with generated completion orders, some failing. Non-trivial: at least three items and more than one subset size, group or task order.")

KINDS = ["list", "tuple", "iter", "gen", "dict", "range", "set", "str"]


def collection(kind, items):
    return {"list": lambda: list(items), "tuple": lambda: tuple(items), "iter": lambda: iter(list(items)), "gen": lambda: (x for x in list(items)), "dict": lambda: dict.fromkeys(items, 1),
            "range": lambda: range(len(items)), "set": lambda: set(items), "str": lambda: "".join("abcdefghijklmnop"[k % 16] for k, _ in enumerate(items))}[kind]()


def plain(kind, items):
    return list(collection(kind if kind not in ("iter", "gen") else "list", items))


item = st.one_of(st.integers(-3, 9), st.sampled_from(["a", "b", None, 0.5, ()]))


@st.composite
def sub_case(draw):
    return dict(items=draw(st.lists(item, max_size=9)), kind=draw(st.sampled_from(KINDS)), size=draw(st.integers(0, 11)))


def sub_fn(d, rec):
    xs = plain(d["kind"], d["items"])
    got = list(limited_powerset(collection(d["kind"], d["items"]), d["size"]))
    want = [c for n in range(1, d["size"] + 1) for c in combinations(range(len(xs)), n)]
    key = lambda c: (len(c), sorted(map(repr, c)))
    ensure(len(got) == len(want), "%s subsets of %s of at most %s items, expected %s", len(got), xs, d["size"], len(want))
    a, b = sorted(map(key, got)), sorted(key([xs[i] for i in c]) for c in want)
    ensure(a == b, "subsets of %s of at most %s items differ", xs, d["size"])
    if len(set(map(repr, xs))) == len(xs):
        ensure(len({frozenset(map(repr, c)) for c in got}) == len(got), "a subset is repeated")
    rec.nontrivial(len(xs) >= 3 and d["size"] >= 2)
    rec.label("iterator" if d["kind"] in ("iter", "gen") else "collection")


@st.composite
def grp_case(draw):
    return dict(items=draw(st.lists(item, max_size=40)), kind=draw(st.sampled_from(KINDS)), n=draw(st.integers(1, 12) | st.integers(1, 45)), fill=draw(st.sampled_from([None, 0, "x"])), give=draw(st.booleans()))


def grp_fn(d, rec):
    xs = plain(d["kind"], d["items"])
    kw = dict(fillvalue=d["fill"]) if d["give"] else {}
    fill = d["fill"] if d["give"] else None
    got = list(grouper(collection(d["kind"], d["items"]), d["n"], **kw))
    n = d["n"]
    want = [tuple(xs[i:i + n]) for i in range(0, len(xs), n)]
    if want:
        want[-1] += (fill,) * (n - len(want[-1]))
    ensure([tuple(g) for g in got] == want, "groups of %s of %s are %s", n, xs, got)
    rec.nontrivial(len(xs) >= 3 and len(want) > 1)
    rec.label("padded" if len(xs) % n else "full")


@st.composite
def ray_case(draw):
    n = draw(st.integers(0, 12))
    return dict(n=n, sched=draw(st.lists(st.integers(0, 11), max_size=16)), ids=draw(st.booleans()), fail=draw(st.one_of(st.none(), st.integers(0, 11))), tup=False)


def ray_fn(d, rec):
    fakeray.S.reset(d["sched"])
    initialize_ray(quiet=True)
    initialize_ray(quiet=True)
    task = ray.remote(_task)
    fail = d["fail"] if d["fail"] is not None and d["fail"] < d["n"] else None
    refs = [task.remote(i, i == fail) for i in range(d["n"])]
    given = list(refs)
    out, err = [], None
    try:
        for x in to_iterator(refs, get_obj_ids=True) if d["ids"] else to_iterator(refs):
            out.append(x)
    except ValueError as e:
        err = e
    ensure(refs == given, "the list of references was changed")
    if d["ids"]:
        for r, v in out:
            ensure(r in given and v == ("done", given.index(r)), "the result of %s is given as %s", r, v)
        out = [v for _, v in out]
    ensure(len(set(out)) == len(out) and all(v[0] == "done" for v in out), "results are %s", out)
    if fail is None:
        ensure(err is None and sorted(out) == [("done", i) for i in range(d["n"])], "results are %s (%s)", out, err)
    else:
        ensure(err is not None and ("done", fail) not in out, "the failure of a task was not reported")
    rec.nontrivial(d["n"] >= 3 and (fakeray.S.reordered > 0 or fail is not None))
    rec.label("failing" if fail is not None else "reordered" if fakeray.S.reordered else "in order")


@st.composite
def large_case(draw):
    return dict(n=draw(st.sampled_from([0, 1, 17, 64, 65, 100, 128, 129, 250, 256, 257, 500, 512, 513, 700, 1000, 1001, 1024, 1025]) | st.integers(13, 1500)), group=draw(st.integers(1, 700)), sched=draw(st.lists(st.integers(0, 999), max_size=16)), ids=draw(st.booleans()),
                m=draw(st.integers(9, 24)), size=draw(st.integers(1, 3)))


def large_fn(d, rec):
    n = d["n"]
    fakeray.S.reset(d["sched"])
    refs = [ray.put(i) for i in range(n)]
    given = {r: i for i, r in enumerate(refs)}
    out = list(to_iterator(refs, get_obj_ids=d["ids"]))
    if d["ids"]:
        ensure(all(given.get(r) == v for r, v in out), "a result is given for another task")
        out = [v for _, v in out]
    ensure(sorted(out) == list(range(n)), "%s results of %s tasks; missing %s", len(out), n, sorted(set(range(n)) - set(out))[:5])
    ensure(len(refs) == n, "the list of references was changed")
    g = list(grouper(iter(range(n)), d["group"], fillvalue=-1))
    ensure(all(len(x) == d["group"] for x in g) and [i for x in g for i in x] == list(range(n)) + [-1] * (-n % d["group"]), "groups of %s of %s items are wrong", d["group"], n)
    s = list(limited_powerset(iter(range(d["m"])), d["size"]))
    ensure(len(s) == len(set(map(frozenset, s))) == sum(comb(d["m"], i) for i in range(1, d["size"] + 1)) and all(1 <= len(set(x)) == len(x) <= d["size"] for x in s), "%s subsets of %s items of at most %s", len(s), d["m"], d["size"])
    rec.nontrivial(n > d["group"] and n > 12)


def _task(i, fail):
    if fail:
        raise ValueError("planned")
    return ("done", i)


FACETS = [Facet("subsets", sub_case, sub_fn, quick=1500, thorough=40000, shards=3), Facet("groups", grp_case, grp_fn, quick=1500, thorough=40000, shards=3),
          Facet("results", ray_case, ray_fn, quick=600, thorough=20000, shards=2),
          Facet("large", large_case, large_fn, quick=250, thorough=5000, shards=2)]
