"""Trend filtering: random-stream prediction and optimality certificates."""
import numpy as np

from . import filters as F


def primal(a, A, c, reg, z):
    """||z - a||_2 + reg * ||A z + c||_1"""
    return float(np.linalg.norm(z - a) + reg * np.sum(np.abs(A @ z + c)))


def lower_bound(a, A, c, reg):
    """A certified lower bound of min_z primal: a feasible point of the dual
    max w.(A a + c) over |w| <= reg, ||A^T w||_2 <= 1, found by a solver and
    then projected back into the feasible set by our own arithmetic."""
    import cvxpy as cp

    best = 0.0
    if A.size == 0:
        return float(reg * np.sum(np.abs(c)))
    b = A @ a + c
    w = cp.Variable(A.shape[0])
    cons = [cp.abs(w) <= reg]
    if A.shape[1]:
        cons.append(cp.norm(A.T @ w) <= 1)
    for solver in ("CLARABEL", "ECOS", "SCS"):
        try:
            cp.Problem(cp.Maximize(b @ w), cons).solve(solver=solver)
        except Exception:
            continue
        if w.value is None:
            continue
        v = np.clip(np.asarray(w.value, float), -reg, reg)
        v = v / max(1.0, float(np.linalg.norm(A.T @ v)) if A.shape[1] else 1.0)
        best = max(best, float(b @ v))
        if solver == "CLARABEL" and best > 0:
            break
    return best


def optimal(a, A, c, reg, z, tol=2e-4):
    """None if z minimises the objective (duality gap within solver accuracy)."""
    p = primal(a, A, c, reg, z)
    zero = primal(a, A, c, reg, a)
    d = lower_bound(a, A, c, reg)
    if p <= d + tol * (1 + abs(d)):
        return None
    return f"objective {p:.6g}, certified lower bound {d:.6g} (at the noisy input itself {zero:.6g})"


def check_l1(ref, o, y, x):
    """x reconstructs y with the requested operator?"""
    S = F.shift_operator(ref, o["comp"], o["order"])
    return optimal(y, S, np.zeros(S.shape[0]), o["reg"], x)


def check_interp(ref, o, f, mask, x, tol=1e-6):
    scale = 1 + float(np.max(np.abs(f)))
    bad = np.abs(x - f)[mask]
    if np.any(bad > tol * scale):
        return f"observed edges {np.where(mask)[0].tolist()} are reproduced as {x[mask].tolist()}, flow there is {f[mask].tolist()}"
    S = F.shift_operator(ref, o["comp"], o["order"])
    un = ~mask
    msg = optimal(np.zeros(int(un.sum())), S[:, un], S[:, mask] @ f[mask], o["reg"], x[un])
    return f"filled-in values are not a minimiser: {msg}" if msg else None


def noise_levels(f, snr_db, m):
    return np.linalg.norm(f) / 10 ** (np.asarray(snr_db, float) / 10) / m


def clone_stream():
    s = np.random.RandomState()
    s.set_state(np.random.get_state())
    return s
