"""I01: things are equal exactly when they describe the same thing, and equal things hash alike."""
import json
from itertools import combinations

import numpy as np
from hypothesis import strategies as st
from monty.json import MontyDecoder, MontyEncoder
from pymatgen.core.composition import Element
from pymatgen.entries.computed_entries import ComputedEntry
from rxn_network.core import Composition
from rxn_network.network.entry import DummyEntry, NetworkEntry, NetworkEntryType
from rxn_network.pathways.balanced import BalancedPathway
from rxn_network.pathways.basic import BasicPathway
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from vp import gen
from vp.core import Facet, ensure
from vp.gen import close

PROPERTY = "I01"
RULE = ("Families of similar objects: a reaction, the same one listed in another order, copied, reversed, scaled, with the amounts of two phases exchanged (balanced again, among phases that mirror each other), with another phase or other energies, as "
        "basic, computed and open reaction; Gibbs, interpolated and experimental entries with the same or another id, energy, amount, temperature, or none; network nodes of the same or other entries and kinds; pathways of the same reactions "
        "with other amounts, costs or order; all pairs compared with each other and with foreign objects, then put into sets. Non-trivial: the family has equal and unequal pairs.")
FOREIGN = [None, "Li2O", 3.5, (), object()]


def pairs(objs, same, describe, rec):
    """same(i, j) -> True, False or None (undecided); checks ==, != and hash of all pairs, and sets if all is decided."""
    seen = set()
    known = True
    rep = []
    for i, x in enumerate(objs):
        ensure(x == x and not (x != x) and hash(x) == hash(x), "%s does not equal itself", describe(i))
        for f in FOREIGN:
            ensure(not (x == f) and not (f == x) and x != f, "%s equals %r", describe(i), f)
    for i, j in combinations(range(len(objs)), 2):
        a, b = objs[i], objs[j]
        want = same(i, j)
        ensure(bool(a == b) == bool(b == a) and bool(a != b) == (not bool(a == b)), "comparing %s and %s depends on the order", describe(i), describe(j))
        if want is None:
            known = False
            continue
        ensure(bool(a == b) == want, "%s and %s are %sequal", describe(i), describe(j), "not " if want else "")
        if want:
            ensure(hash(a) == hash(b), "%s and %s are equal, but their hashes differ", describe(i), describe(j))
        seen.add(want)
    if known:
        for i in range(len(objs)):
            if not any(same(i, j) for j in rep):
                rep.append(i)
        ensure(len(set(objs)) == len(dict.fromkeys(objs)) == len(rep), "a set of %s different things has %s members: %s", len(rep), len(set(objs)), list(map(describe, range(len(objs)))))
        for i, x in enumerate(objs):
            first = next(j for j in range(len(objs)) if j == i or same(i, j))
            ensure(objs.index(x) == first and objs.count(x) == sum(j == i or bool(same(i, j)) for j in range(len(objs))), "%s is found at %s instead of %s", describe(i), objs.index(x), first)
    rec.nontrivial(seen == {True, False})


@st.composite
def mirrored(draw):
    """Phases closed under exchanging two elements, so that exchanging amounts gives another balanced reaction."""
    a, b = draw(gen.el_sets(2, 2))
    left, ks = [], []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        p, q = draw(st.sampled_from([(1, 2), (1, 3), (2, 3), (1, 4)]))
        if {a: p, b: q} not in left:
            left += [{a: p, b: q}, {a: q, b: p}]
            ks += [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    tot = [sum(k * c[e] for k, c in zip(ks, left)) for e in (a, b)]
    ks = [-float(k) for k in ks]
    swap = [i ^ 1 for i in range(len(left))] + [len(left) + 1, len(left)]
    return dict(c=left + [{a: 1}, {b: 1}], k=ks + [float(t) for t in tot], swap=swap)


@st.composite
def rxn_case(draw):
    if draw(st.booleans()):
        d = draw(mirrored())
    else:
        d = draw(gen.rxn_data(max_els=3))
        d["swap"] = None
    d["es"] = draw(st.lists(gen.entry_params(), min_size=1, max_size=4))
    d["open"] = [draw(st.integers(0, 3)), draw(st.sampled_from([-1.5, -3.25]))]
    op = st.tuples(st.sampled_from(["same", "order", "order", "copy", "reverse", "scale", "swap", "swap", "sides", "phase", "energy", "json", "twice reversed"]), st.sampled_from(["basic", "computed", "computed", "open"]), st.integers(0, 10)).map(list)
    d["ops"] = draw(st.lists(op, min_size=2, max_size=7))
    cls = draw(st.sampled_from(["basic", "computed", "open", None]))
    if cls:
        d["ops"] = [[o, cls, x] for o, _, x in d["ops"]]
    return d


def rxn_fn(d, rec):
    comps, ks = d["c"], d["k"]
    n = len(comps)
    els = sorted({e for c in comps for e in c})
    entries = gen.mk_entries(gen.rxn_entries(dict(c=comps), d["es"], kind="plain"))
    objs, idents, names = [], [], []
    for op, cls, x in d["ops"]:
        if cls == "open" and len(els) == 1:
            cls = "computed"
        k = list(ks)
        order = list(range(n))
        cs, es = list(comps), list(entries)
        shift = 0.0
        if op == "order":
            order = order[x % n:] + order[: x % n]
            order[0], order[-1] = order[-1], order[0]
        elif op == "reverse":
            k = [-v for v in k]
        elif op == "scale":
            k = [v * (2, 0.5, 3)[x % 3] for v in k]
        elif op == "swap":
            perm = d["swap"]
            if perm is None:  # any two phases of one side; not balanced
                perm = list(range(n))
                side = [i for i in range(n) if k[i] * k[x % n] > 0]
                if len(side) > 1:
                    i, j = side[0], side[-1]
                    perm[i], perm[j] = j, i
            k = [k[i] for i in perm]
        elif op == "sides":
            i = x % n
            k[i] = -k[i]
        elif op == "phase":
            i = x % n
            c = dict(cs[i])
            c["Au"] = 5
            cs[i] = c
            es[i] = ComputedEntry(Composition(c), -1.0 * sum(c.values()), entry_id="mp-x")
        elif op == "energy":
            i = x % n
            shift = 0.25
            es[i] = ComputedEntry(es[i].composition, es[i].energy + 0.25 * es[i].composition.num_atoms, entry_id=es[i].entry_id)
        cs2, es2, k2 = [cs[i] for i in order], [es[i] for i in order], [k[i] for i in order]
        if cls == "basic":
            r = BasicReaction([Composition(c) for c in cs2], k2)
        elif cls == "computed":
            r = ComputedReaction(es2, k2)
        else:
            r = OpenComputedReaction(es2, k2, {Element(els[d["open"][0] % len(els)]): d["open"][1]})
        if op == "copy":
            r = r.copy()
        elif op == "twice reversed":
            r = r.reverse().reverse()
        elif op == "json":
            r = json.loads(json.dumps(r, cls=MontyEncoder), cls=MontyDecoder)
        ident = {}
        for c, v in zip(cs, k):
            q = tuple(sorted(c.items()))
            ident[q] = ident.get(q, 0.0) + v
        e = None
        if cls != "basic":
            e = float(r.energy_per_atom)
        objs.append(r)
        idents.append((cls, tuple(sorted((q, round(v, 6)) for q, v in ident.items())), e))
        names.append(f"{op} {r} ({cls})")

    def same(i, j):
        a, b = idents[i], idents[j]
        if a[0] != b[0]:
            return None if "basic" not in (a[0], b[0]) and a[1] == b[1] else False if a[1] != b[1] else None
        if a[1] != b[1]:
            return False
        if a[0] == "basic" or a[2] == b[2] or close(a[2], b[2], 1e-9, 1e-10):
            return True
        return None if close(a[2], b[2], 1e-3, 1e-6) or not np.isfinite([a[2], b[2]]).all() else False  # no energy per atom if an open reaction is unbalanced

    pairs(objs, same, lambda i: names[i], rec)
    rec.label("mirrored" if d["swap"] else "any")
    for op, *_ in d["ops"]:
        rec.label(op)


@st.composite
def entry_case(draw):
    els = draw(gen.el_sets(1, 3))
    c = draw(gen.formula(els, max_amt=3))
    base = dict(kind=draw(st.sampled_from(["gibbs", "gibbs", "interp"])), c=c, m=draw(st.integers(1, 2)), e=draw(gen.energies()), v=draw(gen.volumes()), T=draw(st.sampled_from([300, 600])), id="mp-1", adj=draw(st.sampled_from([[], [[0.25, 0.125]]])))
    op = st.tuples(st.sampled_from(["same", "copy", "json", "energy", "id", "anonymous", "anonymous", "temperature", "amount", "other", "kind", "adjusted"]), st.booleans(), st.integers(0, 5)).map(list)
    return dict(base=base, ops=draw(st.lists(op, min_size=2, max_size=7)))


def entry_fn(d, rec):
    objs, names, comps = [], [], []
    for op, anon, x in d["ops"]:
        s = dict(d["base"])
        if op == "energy":
            s["e"] += 0.125
        elif op == "id":
            s["id"] = "mp-2"
        elif op == "temperature":
            s["T"] = 900
        elif op == "amount":
            s["m"] = 3
        elif op == "other":
            s["c"] = {e: a + 1 + i for i, (e, a) in enumerate(sorted(s["c"].items()))}
        elif op == "kind":
            s["kind"] = {"gibbs": "interp", "interp": "gibbs"}[s["kind"]]
        elif op == "adjusted":
            s["adj"] = [[0.5, 0.125]]
        e = gen.mk_entry(s)
        if op == "anonymous" or anon:
            e.entry_id = None
        if op == "copy":
            e = e.copy()
        elif op == "json":
            e = json.loads(json.dumps(e, cls=MontyEncoder), cls=MontyDecoder)
        objs.append(e)
        comps.append(tuple(sorted(gen.comp_of(s).items())))
        names.append(f"{op} {s['kind']} {s['c']}x{s['m']} {s['T']} K {e.energy} eV, {e.entry_id}")
    T = [getattr(e, "temperature", None) for e in objs]

    def same(i, j):
        a, b = objs[i], objs[j]
        if type(a) is not type(b):
            return False
        if a.energy != b.energy and close(a.energy, b.energy, 1e-4, 1e-6):
            return None
        if a.energy != b.energy or T[i] != T[j]:
            return False
        if a.entry_id and b.entry_id:
            return None if a.entry_id == b.entry_id and comps[i] != comps[j] else a.entry_id == b.entry_id
        if bool(a.entry_id) != bool(b.entry_id):  # one of them is not identified: equality is not transitive
            return None
        return comps[i] == comps[j]

    for i, e in enumerate(objs):
        plain = ComputedEntry(e.composition, e.energy, entry_id=e.entry_id)
        ensure(e != plain and not (e == plain), "%s equals a plain entry", names[i])
    for i, j in combinations(range(len(objs)), 2):
        a, b = objs[i], objs[j]
        if bool(a.entry_id) != bool(b.entry_id) and type(a) is type(b) and T[i] == T[j] and a.energy == b.energy:
            ensure(bool(a == b) == (comps[i] == comps[j]), "%s and %s, of which one has no id, are %sequal", names[i], names[j], "" if a == b else "not ")
    pairs(objs, same, lambda i: names[i], rec)
    rec.label(d["base"]["kind"])


@st.composite
def node_case(draw):
    els = draw(gen.el_sets(2, 4))
    es = draw(gen.entry_list(els, min_size=2, max_size=4, kinds=("gibbs", "gibbs", "interp")))
    node = st.tuples(st.lists(st.integers(0, 20), min_size=0, max_size=4), st.sampled_from(["Precursors", "Reactants", "Reactants", "Products", "Products", "Target"]), st.sampled_from(["list", "set", "json", "reversed", "again"])).map(list)
    return dict(es=es, nodes=draw(st.lists(node, min_size=2, max_size=8)), dummy=draw(st.booleans()))


def node_fn(d, rec):
    ents = gen.mk_entries(d["es"])
    other = gen.mk_entries(d["es"])  # equal, but not identical, entries
    objs, idents, names = [], [], []
    for ix, kind, how in d["nodes"]:
        ix = [i % len(ents) for i in ix]
        if how == "again" and objs:
            _, k = idents[-1]
            ix, kind = list(idents[-1][0]), k
        chosen = [(other if how == "again" else ents)[i] for i in (ix[::-1] if how == "reversed" else ix)]
        o = NetworkEntry(set(chosen) if how == "set" else chosen + chosen[:1], NetworkEntryType[kind])
        if how == "json":
            o = json.loads(json.dumps(o, cls=MontyEncoder), cls=MontyDecoder)
        els = sorted({Element(e) for i in ix for e in d["es"][i]["c"]})  # the order of elements in pymatgen (by electronegativity)
        ensure(o.description is NetworkEntryType[kind] and o.entries == set(chosen), "%s became %s", (ix, kind), o)
        ensure(list(o.elements) == els and o.chemsys == "-".join(map(str, els)) and o.dim == len(els), "%s: elements %s, chemical system %s, dimension %s", o, o.elements, o.chemsys, o.dim)
        fs = sorted(Composition(d["es"][i]["c"]).reduced_formula for i in set(ix))
        ensure(sorted(str(o).split(": ", 1)[1].split(",")) == (fs or [""]) and str(o).startswith(kind), "%s is shown as %s", (ix, kind), o)
        objs.append(o)
        idents.append((frozenset(ix), kind))
        names.append(f"{how} {o}")
    keys = [(e.composition, e.energy, e.entry_id) for e in ents]
    ok = len(set(keys)) == len(keys)
    if d["dummy"]:
        objs += [DummyEntry(), DummyEntry()]
        idents += [None, None]
        names += ["dummy", "another dummy"]
        ensure(objs[-1].entries == set() and objs[-1].dim == 0 and objs[-1].chemsys == "" and objs[-1].description is NetworkEntryType.Dummy, "the dummy is not empty")
    pairs(objs, lambda i, j: None if not ok else False if idents[i] is None else idents[i] == idents[j], lambda i: names[i], rec)


@st.composite
def path_case(draw):
    rx = [draw(gen.rxn_data(max_els=3, pool=["Li", "O", "Fe", "C"])) for _ in range(draw(st.integers(2, 4)))]
    if draw(st.booleans()):
        m = draw(mirrored())
        rx = rx[:2] + [m, dict(m, k=[m["k"][i] for i in m["swap"]])]
    es = draw(st.lists(gen.entry_params(), min_size=1, max_size=4))
    p = st.tuples(st.lists(st.integers(0, 8), min_size=1, max_size=3), st.lists(st.integers(1, 3), min_size=3, max_size=3), st.lists(st.sampled_from([0.25, 0.5]), min_size=3, max_size=3), st.booleans(), st.sampled_from(["new", "copy", "costs", "costs exchanged", "coefficients", "coefficients exchanged", "order", "longer"])).map(list)
    return dict(rx=rx, es=es, cls=draw(st.sampled_from(["basic", "computed"])), ps=draw(st.lists(p, min_size=2, max_size=6)))


def path_fn(d, rec):
    rxns, idents = [], []
    for x in d["rx"]:
        if d["cls"] == "basic":
            r = BasicReaction([Composition(c) for c in x["c"]], x["k"])
        else:
            r = ComputedReaction(gen.mk_entries(gen.rxn_entries(x, d["es"][:1])), x["k"])
        rxns.append(r)
        idents.append(tuple(sorted((tuple(sorted(c.items())), round(k, 6)) for c, k in zip(x["c"], x["k"]))))
    objs, ids, names, spec = [], [], [], None
    n = len(rxns)
    for ix, w, cost, bal, how in d["ps"]:
        ix = [i % n for i in ix]
        w, cost = w[: len(ix)], cost[: len(ix)]
        if spec and how != "new":
            ix, w, cost, bal = (list(spec[0]), list(spec[1]), list(spec[2]), spec[3])
            if how == "costs":
                cost[-1] += 0.5
            elif how == "costs exchanged":
                cost = cost[::-1]
            elif how == "coefficients exchanged":
                w = w[::-1]
            elif how == "coefficients":
                w[0] += 1
            elif how == "order":
                ix, w, cost = ix[::-1], w[::-1], cost[::-1]
            elif how == "longer":
                ix, w, cost = [*ix, 0], [*w, 1], [*cost, 0.5]
        spec = (ix, w, cost, bal)
        rs = [rxns[i].copy() for i in ix]
        objs.append(BalancedPathway(rs, list(map(float, w)), list(cost)) if bal else BasicPathway(rs, list(cost)))
        ids.append((bal, tuple(idents[i] for i in ix), tuple(w) if bal else (), tuple(cost)))
        names.append(f"{how} {[str(r) for r in rs]} x{w} at {cost}, {'balanced' if bal else 'basic'}")

    def same(i, j):
        a, b = ids[i], ids[j]
        if a[0] != b[0]:
            return None if a[1] == b[1] else False
        if a[:2] == b[:2] and not a[0] and a[3] != b[3]:
            return None  # the costs of a basic pathway follow from its reactions
        if a[0] and a != b and sorted(zip(*a[1:])) == sorted(zip(*b[1:])):
            return None  # the order of the steps of a balanced pathway need not matter
        return a == b

    pairs(objs, same, lambda i: names[i], rec)


FACETS = [Facet("reactions", rxn_case, rxn_fn, quick=500, thorough=20000, shards=2), Facet("entries", entry_case, entry_fn, quick=400, thorough=15000), Facet("nodes", node_case, node_fn, quick=300, thorough=10000),
          Facet("pathways", path_case, path_fn, quick=300, thorough=10000)]
