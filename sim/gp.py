"""Gaussian-process operations."""
import numpy as np

from . import ref as R
from .world import Malformed, brief, dense

KERNELS = ["diffusion", "diffusion_non_hc", "matern", "matern_non_hc", "laplacian"]


def gen_prep(rng, spec):
    k = rng.choice(["lap", "inc", "eigp", "split", "split", "kern"])
    o = {"k": "gp_" + k, "flow": 0}
    if k == "eigp":
        o["tol"] = rng.choice([1e-3, 1e-6])
    if k == "split":
        o["ratio"] = rng.choice([0.5, 0.6, 0.7, 0.34])
        o["norm"] = rng.random() < 0.5
        o["seed"] = rng.randint(0, 5)
    if k == "kern":
        o["kernel"] = rng.choice(KERNELS)
        m = len(spec["edges"])
        o["sel"] = [rng.randrange(m) for _ in range(rng.randint(1, 4))]
    return o


def trainer(sc, y):
    from pytspl.hogde_gp import HodgeGPTrainer

    return HodgeGPTrainer(sc=sc, y=y)


def kernel(eigenpairs, name):
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    return KernelSerializer().serialize(eigenpairs=eigenpairs, kernel_type=name, data_name="forex")


def call_prep(sc, o, flows):
    tr = trainer(sc, flows[o["flow"]])
    if o["k"] == "gp_lap":
        return tr.get_laplacians()
    if o["k"] == "gp_inc":
        return tr.get_incidence_matrices()
    if o["k"] == "gp_eigp":
        return tr.get_eigenpairs(tolerance=o["tol"])
    if o["k"] == "gp_split":
        return tr.train_test_split(train_ratio=o["ratio"], data_normalization=o["norm"], seed=o["seed"])
    if o["k"] == "gp_kern":
        import torch

        k = kernel(tr.get_eigenpairs(), o["kernel"])
        s = torch.tensor(o["sel"], dtype=torch.float32)
        with torch.no_grad():
            return k(s, s).to_dense()
    raise ValueError(o["k"])


def num(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return dense(x)


def norm_prep(o, r):
    try:
        if o["k"] == "gp_kern":
            return [np.round(num(r), 4)]
        if len(r) != {"gp_lap": 3, "gp_inc": 2, "gp_eigp": 6, "gp_split": 6}[o["k"]]:
            raise Malformed(f"{o['k']}: {len(r)} items")
        r = [num(x) for x in r]
        if o["k"] == "gp_eigp":
            out = []
            for U, w in zip(r[:3], r[3:]):
                out += [np.sort(w).round(5), (U @ U.T).round(5), ((U * w) @ U.T).round(4)]
            return out
        return r
    except Malformed:
        raise
    except Exception as e:
        raise Malformed(f"{o['k']}: {type(e).__name__}: {e}")


def _eq(a, b, rtol=2e-4, atol=2e-4):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol))


def check_split(o, r, y):
    """A split must be a partition with aligned, correctly normalised targets."""
    xt, yt, xs, ys, x, ya = [num(v) for v in r]
    m = len(y)
    if sorted(np.concatenate([xt, xs]).astype(int).tolist()) != list(range(m)):
        return f"{o}: train {xt.tolist()} and test {xs.tolist()} do not partition the edges"
    if x.tolist() != list(range(m)):
        return f"{o}: all-edges input is {x.tolist()}"
    if len(xt) != int(np.floor(o["ratio"] * m)):
        return f"{o}: {len(xt)} training edges of {m}"
    y = np.asarray(y, float)
    if o["norm"]:
        t = y[xt.astype(int)]
        mu, sd = t.mean(), t.std(ddof=1) if len(t) > 1 else np.nan
        y = (y - mu) / sd
    for name, xi, yi in (("train", xt, yt), ("test", xs, ys), ("all", x, ya)):
        e = y[xi.astype(int)]
        if not (yi.shape == e.shape and np.allclose(yi, e, rtol=1e-3, atol=1e-3, equal_nan=True)):
            return f"{o}: {name} targets {yi.tolist()} do not belong to inputs {xi.tolist()} (expected {e.tolist()})"
    return None


def check_prep(ref, o, r, flows):
    k = o["k"]
    if k == "gp_kern":
        K = num(r)
        n = len(o["sel"])
        if K.shape != (n, n) or not _eq(K, K.T, atol=1e-3):
            return f"{o}: covariance {brief(K)} has the wrong shape or is not symmetric"
        return None
    if k == "gp_split":
        return check_split(o, r, flows[o["flow"]])
    v = [num(x) for x in r]
    if k == "gp_lap":
        exp = [ref.L1, ref.L1l, ref.L1u]
    elif k == "gp_inc":
        if not _eq(v[0], ref.B1):
            return f"{o}: B1 {brief(v[0])}"
        M = v[1]
        if M.shape != ref.B2.shape or not np.allclose(np.abs(M), np.abs(ref.B2)) or not np.allclose(M @ M.T, ref.L1u):
            return f"{o}: B2 {brief(M)}"
        return None
    else:
        for U, comp in zip(v[:3], ("harmonic", "gradient", "curl")):
            if not _eq(U @ U.T, ref.proj(comp)):
                return f"{o}: {comp} eigenvectors span {brief(U @ U.T)}, subspace is {brief(ref.proj(comp))}"
        return None
    for a, b in zip(v, exp):
        if not _eq(a, b):
            return f"{o}: got {brief(a)} expected {brief(b)}"
    return None
