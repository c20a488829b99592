"""Small independent geometry / LP oracles."""
from __future__ import annotations

from itertools import combinations

import numpy as np
from scipy.optimize import linprog


def vertices(A, b, tol=1e-9):
    """All vertices of {x: A x <= b} by brute force: [(point, indices of tight rows)].  Duplicated points are merged."""
    A, b = np.asarray(A, float), np.asarray(b, float)
    n, d = A.shape
    idx = np.array(list(combinations(range(n), d)))
    M, v = A[idx], b[idx]
    det = np.linalg.det(M)
    ok = np.abs(det) > 1e-12
    pts = np.linalg.solve(M[ok], v[ok][..., None])[..., 0]
    feas = (pts @ A.T <= b + tol * (1 + np.abs(b))).all(axis=1)
    pts = pts[feas]
    out = []
    for p in pts:
        if not any(np.abs(p - q).max() < 1e-9 * (1 + np.abs(q).max()) for q in out):
            out.append(p)
    return [(p, np.flatnonzero(np.abs(A @ p - b) <= 1e-7 * (1 + np.abs(b)))) for p in out]


def hull_energy(fracs, energies, target):
    """Lowest energy per atom of a mixture of the phases (rows of atomic fractions) with the target fractions (LP)."""
    F = np.asarray(fracs, float)
    r = linprog(np.asarray(energies, float), A_eq=np.vstack([F.T, np.ones(len(F))]), b_eq=np.append(np.asarray(target, float), 1.0), bounds=(0, None), method="highs")
    return float(r.fun) if r.status == 0 else None


def min_dist(P, Q):
    P, Q = np.asarray(P, float), np.asarray(Q, float)
    return float(np.sqrt(((P[:, None, :] - Q[None, :, :]) ** 2).sum(-1)).min())


def same_points(P, Q, tol):
    """Every point of each set is within tol of one of the other."""
    P, Q = np.asarray(P, float), np.asarray(Q, float)
    D = np.sqrt(((P[:, None, :] - Q[None, :, :]) ** 2).sum(-1))
    return bool(D.min(0).max() <= tol and D.min(1).max() <= tol)
