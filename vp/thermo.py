"""Independent thermochemistry: descriptor of Bartel et al. (2018) and tabulated data, from frozen copies of the published tables."""
import gzip
import json
import math
from functools import lru_cache
from itertools import combinations
from pathlib import Path

ORACLE = Path(__file__).resolve().parent.parent / "oracle"
KB = 8.617e-5


@lru_cache(None)
def tables(name):
    p = ORACLE / name
    raw = json.loads(gzip.open(p).read() if name.endswith(".gz") else p.read_text())
    if name == "mu_elements.json":
        return {int(t): v for t, v in raw.items()}
    return {f: {float(t): g for t, g in d.items()} for f, d in raw.items()}


@lru_cache(None)
def names(name):
    return set(json.loads((ORACLE / name).read_text()))


def lookup(table, T):
    """Value at T from {T: value}: tabulated or linearly interpolated between neighbours; None outside."""
    ks = sorted(table)
    if T in table:
        return table[T]
    lo = [k for k in ks if k < T]
    hi = [k for k in ks if k > T]
    if not lo or not hi:
        return None
    a, b = lo[-1], hi[0]
    return table[a] + (table[b] - table[a]) * (T - a) / (b - a)


@lru_cache(None)
def mass(el):
    from pymatgen.core.periodic_table import Element

    return float(Element(el).atomic_mass)


def gibbs_correction(comp, vpa, T):
    """dGf(T) - dHf per comp (plain dict of amounts), eV; zero for an element."""
    if len(comp) == 1:
        return 0.0
    n = sum(comp.values())
    frac = {e: a / n for e, a in comp.items()}
    m = sum((frac[a] + frac[b]) * mass(a) * mass(b) / (mass(a) + mass(b)) for a, b in combinations(frac, 2)) / (len(comp) - 1)
    g = (-2.48e-4 * math.log(vpa) - 8.94e-5 * m / vpa) * T + 0.181 * math.log(T) - 0.882
    mu = tables("mu_elements.json")
    ref = sum(a * lookup({t: v[e] for t, v in mu.items() if e in v}, T) for e, a in comp.items())
    return n * g - ref


def co2_shift_per_atom(T, p=0.0004):
    return KB * T * math.log(p) / 3
