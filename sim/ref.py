"""Reference model: written from the definitions, plain NumPy, own code."""
import functools
import itertools

import numpy as np

# the originals, never the fault-injecting wrappers
_pinv = np.linalg.pinv
_eigh = np.linalg.eigh
_lstsq = np.linalg.lstsq
_svd = np.linalg.svd


class Ref:
    """A simplicial complex as matrices."""

    def __init__(self, spec):
        self.n = spec["n"]
        self.edges = [tuple(e) for e in spec["edges"]]
        self.tri = [tuple(t) for t in spec["tri"]]
        m = len(self.edges)
        self.B1 = np.zeros((self.n, m))
        for j, (u, v) in enumerate(self.edges):
            self.B1[u, j] -= 1
            self.B1[v, j] += 1
        pos = {e: j for j, e in enumerate(self.edges)}
        self.B2 = np.zeros((m, len(self.tri)))
        for k, (a, b, c) in enumerate(self.tri):
            for (u, v), s in (((a, b), 1), ((b, c), 1), ((a, c), -1)):
                if (u, v) in pos:
                    self.B2[pos[(u, v)], k] = s
                else:
                    self.B2[pos[(v, u)], k] = -s
        self.L0 = self.B1 @ self.B1.T
        self.L1l = self.B1.T @ self.B1
        self.L1u = self.B2 @ self.B2.T
        self.L1 = self.L1l + self.L1u
        self.L2 = self.B2.T @ self.B2
        self.A = np.zeros((self.n, self.n))
        for u, v in self.edges:
            self.A[u, v] = self.A[v, u] = 1

    @functools.cached_property
    def Pg(self):
        return self._image(self.B1.T)

    @functools.cached_property
    def Pc(self):
        return self._image(self.B2)

    @functools.cached_property
    def Ph(self):
        return np.eye(len(self.edges)) - self.Pg - self.Pc

    def orient(self, signs):
        """Takes over the orientation chosen for each triangle."""
        self.B2 = self.B2 * np.asarray(signs, float)
        self.L2 = self.B2.T @ self.B2
        return self

    @staticmethod
    def _image(M):
        if M.size == 0:
            return np.zeros((M.shape[0], M.shape[0]))
        return M @ _pinv(M, rcond=1e-10)

    def lap(self, name):
        return {"L1": self.L1, "L1L": self.L1l, "L1U": self.L1u}[name]

    def proj(self, comp):
        return {"gradient": self.Pg, "curl": self.Pc, "harmonic": self.Ph}[comp]


def cliques3(edges):
    s = {frozenset(e) for e in edges}
    nodes = sorted({v for e in edges for v in e})
    return [t for t in itertools.combinations(nodes, 3) if all(frozenset(p) in s for p in itertools.combinations(t, 2))]


def eig_clusters(M):
    """Sorted eigenvalues and distinct clusters (value, projector)."""
    w, U = _eigh((M + M.T) / 2)
    out, i = [], 0
    while i < len(w):
        j = i
        while j + 1 < len(w) and w[j + 1] - w[j] < 1e-7 * max(1.0, abs(w[-1])):
            j += 1
        V = U[:, i:j + 1]
        out.append((float(np.mean(w[i:j + 1])), V @ V.T))
        i = j + 1
    return w, out


def nrmse(est, true):
    return float(np.sqrt(np.sum((np.asarray(est) - true) ** 2)) / np.sqrt(np.sum(np.asarray(true) ** 2)))


def vander_fit(points, targets, L, M):
    """Least-squares polynomial of degree < L through (points, targets), as a
    matrix function of M; also the condition number of the system."""
    V = np.vander(np.asarray(points, float), L, increasing=True)
    s = _svd(V, compute_uv=False)
    h = _lstsq(V, np.asarray(targets, float), rcond=None)[0]
    H = np.zeros_like(M)
    P = np.eye(M.shape[0])
    for i in range(L):
        H = H + h[i] * P
        P = P @ M
    return H, (s[0] / s[-1] if s[-1] > 0 else np.inf), h


def power_lambda(P, iterations=50):
    """Largest-eigenvalue estimate used to place grid points; None when it is
    not well defined for this operator, or rounding decides where the iteration ends."""
    one = np.ones(P.shape[0])
    wiggle = np.cos(1.0 + 2.3 * np.arange(P.shape[0]))
    est = [_power(P, one + d * wiggle, iterations) for d in (0.0, 1e-13, -1e-13)]
    if any(e is None for e in est) or max(est) - min(est) > 1e-8 * max(1.0, abs(est[0])):
        return None
    return est[0]


def _power(P, v, iterations):
    for _ in range(iterations):
        v = P @ v
        nv = np.sqrt(v @ v)
        if not np.isfinite(nv) or nv < 1e-9:
            return None
        v = v / nv
    if np.min(np.abs(v)) < 1e-5:
        return None
    v = v + np.finfo(float).eps
    return float(np.mean((P @ v) / v))
