"""Generator for collections of reactions that share entries (plain data) and its builder."""
from hypothesis import strategies as st

from vp import gen

SCALES = [1.0, 1.0, 2.0, 0.5, 3.0, 0.25, 1.5, 10.0]


@st.composite
def entries(draw, lo=3, hi=7, max_els=3, min_els=2, kinds=("gibbs",), temps=(300, 1000), pool=None, extra_data=True):
    els = draw(gen.el_sets(min_els, max_els, pool))
    out = gen_entries = draw(gen.entry_list(els, min_size=lo, max_size=hi, kinds=kinds, temps=temps))
    if extra_data and draw(st.booleans()):
        for x in gen_entries:
            x["data"] = draw(st.fixed_dictionaries({}, optional={"e_above_hull": st.sampled_from([0.0, 0.125, 0.5]), "theoretical": st.booleans(),
                                                                 "icsd_ids": st.sampled_from([[], [7]])}))
    draw_order = draw(st.permutations(range(len(out))))
    return [out[i] for i in draw_order]


@st.composite
def rset(draw, max_rxns=8, min_rxns=1, data=True, **kw):
    """{"entries": [...], "picks": [[pair, scale, rotate, data?]...]}: reactions are picked from all uniquely balanced pairs."""
    es = draw(entries(**kw))
    dat = st.fixed_dictionaries({}, optional={"score": st.integers(0, 9), "tag": st.sampled_from(["a", "b"])}) if data else st.just({})
    picks = draw(st.lists(st.tuples(st.integers(0, 999), st.integers(0, len(SCALES) - 1), st.integers(0, 5), dat).map(list), min_size=min_rxns, max_size=max_rxns))
    return dict(entries=es, picks=picks)


def comps_of(ds):
    return [gen._reduce(x["c"])[0] for x in ds]


def plain_rxns(d, max_r=2, max_p=2, limit=240, flips=True):
    """[(entry indices, coefficients, data)] in the plain domain."""
    pairs = gen.balanced_pairs(comps_of(d["entries"]), max_r, max_p, limit)
    out = []
    for p, s, rot, data in d["picks"]:
        if not pairs:
            break
        a, b, k = pairs[p % len(pairs)]
        idx = list(a) + list(b)
        k = [x * SCALES[s] for x in k]
        r = rot % len(idx)
        out.append((idx[r:] + idx[:r], k[r:] + k[:r], dict(data)))
    return out


def formula_energy(entries_, idx, k, comps, open_els=None):
    """Energy of a reaction from entry energies (eV, grand potential if open_els={el: mu})."""
    tot = 0.0
    for i, x in zip(idx, k):
        c = comps[i]
        e = entries_[i]
        v = e.energy / e.composition.num_atoms * sum(c.values())
        if open_els and not (len(c) == 1 and set(c) <= set(open_els)):
            v -= sum(mu * c.get(el, 0) for el, mu in open_els.items())
        tot += x * v
    return tot
