"""Complexes, flows, operations: generation, execution and normal forms."""
import itertools

import numpy as np

from . import ref as R
from .core import rng_for  # noqa: F401


# ------------------------------------------------------------------- complexes
def regular(rng, nmin, nmax, min_edges, max_edges):
    """Link sets with many symmetries: (nodes, pairs, cliques to be filled), or None."""
    for _ in range(8):
        k = rng.choice(["complete", "complete", "cycle", "path", "star", "wheel", "bipartite", "prism", "triangles", "fan"])
        n = rng.randint(max(3, nmin), max(3, nmax))
        r = range(n)
        if k == "complete":
            n = min(n, 5)
            pairs = list(itertools.combinations(range(n), 2))
        elif k == "cycle":
            pairs = sorted(tuple(sorted((i, (i + 1) % n))) for i in r)
        elif k == "path":
            pairs = [(i, i + 1) for i in r[:-1]]
        elif k == "star":
            pairs = [(0, i) for i in r[1:]]
        elif k == "wheel":
            pairs = [(0, i) for i in r[1:]] + [(i, i + 1) for i in r[1:-1]] + ([(1, n - 1)] if n > 3 else [])
        elif k == "bipartite":
            a = rng.randint(1, n - 1)
            pairs = [(i, j) for i in range(a) for j in range(a, n)]
        elif k == "prism":
            n = 6
            pairs = [(0, 1), (0, 2), (1, 2), (3, 4), (3, 5), (4, 5), (0, 3), (1, 4), (2, 5)]
        elif k == "triangles":
            n = 6
            pairs = [(0, 1), (0, 2), (1, 2), (3, 4), (3, 5), (4, 5)]
        else:
            pairs = [(i, i + 1) for i in r[:-1]] + [(i, i + 2) for i in r[:-2]]
        pairs = sorted(set(pairs))
        if nmin <= n <= nmax and min_edges <= len(pairs) <= max_edges:
            return n, pairs
    return None


def gen_complex(rng, nmin=3, nmax=7, reversed_p=None, tri=None, isolated=None, min_edges=3, max_edges=14):
    sym = regular(rng, nmin, nmax, min_edges, max_edges) if rng.random() < 0.15 else None
    while sym is None:
        n = rng.randint(nmin, nmax)
        p = rng.choice([0.35, 0.55, 0.75, 0.95])
        pairs = [q for q in itertools.combinations(range(n), 2) if rng.random() < p]
        if not (min_edges <= len(pairs) <= max_edges):
            continue
        break
    if sym:
        n, pairs = sym
    iso = rng.random() < 0.2 if isolated is None else isolated
    if iso:
        n += rng.randint(1, 2)
    rp = rng.choice([0.0, 0.0, 0.3, 0.5, 1.0]) if reversed_p is None else reversed_p
    edges = [[v, u] if rng.random() < rp else [u, v] for u, v in pairs]
    if rng.random() < 0.5:
        edges.sort()
    else:
        rng.shuffle(edges)
    cl = [list(t) for t in R.cliques3(edges)]
    mode = tri or rng.choice(["all", "all", "some", "some", "none"])
    if mode == "none":
        cl = []
    elif mode == "some" and cl:
        cl = [t for t in cl if rng.random() < 0.6] or cl[:1]
    dist = [round(rng.uniform(0.05, 2.5), 3) for _ in edges]
    return {"n": n, "edges": edges, "tri": cl, "dist": dist}


def all_cliques(spec):
    return sorted(map(tuple, spec["tri"])) == R.cliques3(spec["edges"])


def same_shape(rng, spec):
    """Another complex with the same numbers of nodes and edges: mostly relabelled
    with as many triangles, or the same edges (some in the other direction) with
    other triangles or other features."""
    if rng.random() < 0.4:
        new = like(rng, spec)
        if new:
            return new
    for _ in range(40):
        perm = list(range(spec["n"]))
        rng.shuffle(perm)
        edges = [[perm[u], perm[v]] if rng.random() < 0.5 else [perm[v], perm[u]] for u, v in spec["edges"]]
        rng.shuffle(edges)
        tri = [sorted(perm[v] for v in t) for t in spec["tri"]]
        tri.sort()
        new = {"n": spec["n"], "edges": edges, "tri": tri, "dist": [round(rng.uniform(0.05, 2.5), 3) for _ in edges]}
        if new["edges"] != spec["edges"]:
            return new
    return new


def like(rng, spec):
    """A complex that differs from the given one in a single respect, or None."""
    new = {"n": spec["n"], "edges": [list(e) for e in spec["edges"]], "tri": [list(t) for t in spec["tri"]], "dist": list(spec["dist"])}
    what = rng.choice(["tri", "tri", "tri", "dist", "direction"])
    if what == "tri":
        cl = [list(t) for t in R.cliques3(spec["edges"])]
        if not cl:
            return None
        k = len(spec["tri"])
        for _ in range(20):
            new["tri"] = sorted(rng.sample(cl, k if 0 < k < len(cl) else rng.randint(0, len(cl))))
            if sorted(map(sorted, new["tri"])) != sorted(map(sorted, spec["tri"])):
                return new
        return None
    if what == "dist":
        new["dist"] = [round(rng.uniform(0.05, 2.5), 3) for _ in spec["edges"]]
        return new
    if not spec["edges"]:
        return None
    i = rng.randrange(len(spec["edges"]))
    new["edges"] = [e[::-1] if j == i or rng.random() < 0.3 else e for j, e in enumerate(new["edges"])]
    return new


def build(spec, via="ctor", features=True):
    from pytspl.simplicial_complex import SimplicialComplex
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    nodes = list(range(spec["n"]))
    edges = [tuple(e) for e in spec["edges"]]
    feats = {e: {"distance": d, "id": float(i)} for i, (e, d) in enumerate(zip(edges, spec["dist"]))} if features else {}
    if via == "ctor":
        return SimplicialComplex(nodes=nodes, edges=edges, triangles=[list(t) for t in spec["tri"]], edge_features=feats)
    if via == "given":
        return SCBuilder(nodes=nodes, edges=edges, edge_features=feats).to_simplicial_complex(triangles=[tuple(t) for t in spec["tri"]])
    if via == "all":
        return SCBuilder(nodes=nodes, edges=edges, edge_features=feats).to_simplicial_complex()
    raise ValueError(via)


def gen_flow(rng, m):
    """Values per edge; sometimes whole numbers (see as_flow)."""
    if rng.random() < 0.1:
        return [rng.choice([-4, -3, -2, -1, 1, 2, 3, 4]) for _ in range(m)]
    return [round(rng.uniform(-3, 3), 3) or 0.5 for _ in range(m)]


def as_flow(values):
    """The array a caller hands to the library: integers if all values are."""
    if len(values) and all(type(v) is int for v in values):
        return np.array(values, dtype=int)
    return np.array(values, float)


def snapshot(sc):
    """Everything a complex publicly consists of."""
    return {
        "nodes": list(sc.nodes),
        "edges": [tuple(map(int, e)) for e in sc.edges],
        "triangles": [tuple(map(int, t)) for t in sc.triangles],
        "node_features": repr(sc.node_features),
        "edge_features": repr(sc.edge_features),
        "B1": np.array(sc.B1, dtype=float).tolist(),
        "B2": np.array(sc.B2, dtype=float).tolist(),
    }


# ------------------------------------------------------------------ read calls
COMPONENTS = ["gradient", "curl", "harmonic"]


def gen_read(rng, nflows, spec):
    k = rng.choice(
        ["inc", "inc", "adj", "lap0", "low", "upp", "hodge", "hodge", "lshift", "ushift", "kshift", "emb", "eig", "eig", "eig",
         "tv", "div", "curl", "comp", "comp", "comp", "faces", "shape", "feat", "fnames"]
    )
    o = {"k": k}
    if k == "inc":
        o["rank"] = rng.choice([0, 1, 1, 2, 2])
    elif k in ("low",):
        o["rank"] = rng.choice([1, 2])
    elif k == "upp":
        o["rank"] = rng.choice([0, 1])
    elif k == "hodge":
        o["rank"] = rng.choice([0, 1, 1, 2])
    elif k in ("lshift", "ushift", "kshift"):
        o["steps"] = rng.choice([1, 2, 2, 3, 4])
        o["flow"] = rng.randrange(nflows)
    elif k in ("emb", "div", "curl"):
        o["flow"] = rng.randrange(nflows)
    elif k == "eig":
        o["comp"] = rng.choice(COMPONENTS)
        o["tol"] = rng.choice([1e-3, 1e-3, 1e-6, 0.5])
    elif k == "comp":
        o["comp"] = rng.choice(COMPONENTS)
        o["flow"] = rng.randrange(nflows)
        o["round"] = rng.random() < 0.3
        o["sig"] = rng.choice([0, 1, 2, 2, 3])
    elif k == "faces":
        o["simplex"] = rng.choice(spec["tri"] + spec["edges"]) if spec["edges"] else [0]
    elif k == "feat":
        o["name"] = rng.choice([None, "distance", "id"])
    return o


def call_read(sc, o, flows):
    k = o["k"]
    f = flows[o["flow"]] if "flow" in o else None
    if k == "inc":
        return sc.incidence_matrix(rank=o["rank"])
    if k == "adj":
        return sc.adjacency_matrix()
    if k == "lap0":
        return sc.laplacian_matrix()
    if k == "low":
        return sc.lower_laplacian_matrix(rank=o["rank"])
    if k == "upp":
        return sc.upper_laplacian_matrix(rank=o["rank"])
    if k == "hodge":
        return sc.hodge_laplacian_matrix(rank=o["rank"])
    if k == "lshift":
        return sc.apply_lower_shifting(f, steps=o["steps"])
    if k == "ushift":
        return sc.apply_upper_shifting(f, steps=o["steps"])
    if k == "kshift":
        return sc.apply_k_step_shifting(f, steps=o["steps"])
    if k == "emb":
        return sc.get_simplicial_embeddings(f)
    if k == "eig":
        return sc.get_component_eigenpair(component=o["comp"], tolerance=o["tol"])
    if k == "tv":
        return sc.get_total_variance()
    if k == "div":
        return sc.get_divergence(f)
    if k == "curl":
        return sc.get_curl(f)
    if k == "comp":
        return sc.get_component_flow(flow=f, component=o["comp"], round_fig=o["round"], round_sig_fig=o["sig"])
    if k == "faces":
        return sc.get_faces(tuple(o["simplex"]))
    if k == "shape":
        return (sc.shape, sc.max_dim, list(map(tuple, sc.simplices)))
    if k == "feat":
        return sc.get_edge_features(o["name"]) if o["name"] else sc.get_edge_features()
    if k == "fnames":
        return sc.edge_feature_names()
    raise ValueError(k)


class Malformed(Exception):
    """A result does not have the form every correct result has."""


def dense(x):
    if hasattr(x, "toarray"):
        x = x.toarray()
    try:
        return np.asarray(x, dtype=float)
    except (TypeError, ValueError) as e:
        raise Malformed(f"not a numeric array: {type(x).__name__}: {e}")


def norm_read(o, r):
    """Normal form: independent of the choice of basis inside eigenspaces."""
    k = o["k"]
    if r is None:
        raise Malformed(f"{k} returned None")
    try:
        if k == "emb":
            if len(r) != 3:
                raise Malformed("embedding is not a triple")
            return [np.array([float(np.sum(dense(x) ** 2)) for x in r]), np.array([dense(x).size for x in r], float)]
        if k == "eig":
            U, w = dense(r[0]), dense(r[1])
            if U.ndim != 2 or w.ndim != 1 or U.shape[1] != w.shape[0]:
                raise Malformed(f"eigenpair shapes {U.shape} {w.shape}")
            return [np.sort(w), U @ U.T, (U * w) @ U.T]
        if k == "tv":
            return [np.sort(dense(r).ravel())]
        if k == "faces":
            return [tuple(sorted(tuple(int(v) for v in t) for t in r))]
        if k == "shape":
            return [tuple(int(v) for v in r[0]), int(r[1]), tuple(tuple(int(v) for v in t) for t in r[2])]
        if k == "feat":
            return [tuple(sorted((tuple(int(v) for v in e), repr(x)) for e, x in r.items()))]
        if k == "fnames":
            return [tuple(sorted(r))]
        return [dense(r)]
    except Malformed:
        raise
    except Exception as e:
        raise Malformed(f"{k}: {type(e).__name__}: {e}")


def same(a, b, rtol=1e-8, atol=1e-9):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            x, y = np.asarray(x, float), np.asarray(y, float)
            if x.shape != y.shape:
                return False
            if x.size and not np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
                return False
        elif x != y:
            return False
    return True


def brief(x):
    def one(v):
        if isinstance(v, np.ndarray):
            return f"array{v.shape}{np.array2string(v, precision=4, threshold=24)}"
        return repr(v)

    s = "; ".join(one(v) for v in x) if isinstance(x, (list, tuple)) else one(x)
    return " ".join(s.split())[:500]


def ref_read(ref, o, flows, spec):
    """Expected normal form from the definitions, or None where it depends on
    the orientation chosen for triangles."""
    k = o["k"]
    f = np.asarray(flows[o["flow"]], float) if "flow" in o else None
    if k == "inc":
        return [np.ones(ref.n)] if o["rank"] == 0 else [ref.B1] if o["rank"] == 1 else None
    if k == "adj":
        return [ref.A]
    if k == "lap0":
        return [ref.L0]
    if k == "low":
        return [ref.L1l] if o["rank"] == 1 else None
    if k == "upp":
        return [ref.L0] if o["rank"] == 0 else [ref.L1u]
    if k == "hodge":
        return [ref.L0] if o["rank"] == 0 else [ref.L1] if o["rank"] == 1 else None
    if k in ("lshift", "ushift", "kshift"):
        a = b = f
        for _ in range(o["steps"]):
            a = ref.L1l @ a
            b = ref.L1u @ b
        return [a if k == "lshift" else b if k == "ushift" else a + b]
    if k == "emb":
        return [np.array([f @ ref.proj(c) @ f for c in ("harmonic", "curl", "gradient")]),
                np.array([round(float(np.trace(ref.proj(c)))) for c in ("harmonic", "curl", "gradient")], float)]
    if k == "eig":
        M = {"harmonic": ref.L1, "curl": ref.L1u, "gradient": ref.L1l}[o["comp"]]
        w, cl = R.eig_clusters(M)
        if any(abs(v - o["tol"]) < 1e-6 for v in w):
            return None
        keep = (lambda v: v <= o["tol"]) if o["comp"] == "harmonic" else (lambda v: v > o["tol"])
        Z = np.zeros_like(M)
        return [np.array([0.0 if abs(v) < 1e-12 else v for v in w if keep(v)]), sum((P for v, P in cl if keep(v)), Z), sum((v * P for v, P in cl if keep(v)), Z)]
    if k == "tv":
        return [np.linalg.eigvalsh(ref.L0)]
    if k == "div":
        return [ref.B1 @ f]
    if k == "comp":
        x = ref.proj(o["comp"]) @ f
        return [x] if not o["round"] else None
    if k == "faces":
        s = o["simplex"]
        return [tuple(sorted(tuple(sorted(c)) for c in itertools.combinations(s, len(s) - 1)))] if len(s) > 1 else [()]
    if k == "shape":
        d = 2 if ref.tri else 1 if ref.edges else 0
        return [(ref.n, len(ref.edges), len(ref.tri)), d, tuple((i,) for i in range(ref.n)) + tuple(ref.edges) + tuple(ref.tri)]
    if k == "feat":
        fe = {e: {"distance": d, "id": float(i)} for i, (e, d) in enumerate(zip(ref.edges, spec["dist"]))}
        if o["name"]:
            fe = {e: v[o["name"]] for e, v in fe.items()}
        return [tuple(sorted((e, repr(x)) for e, x in fe.items()))]
    if k == "fnames":
        return [("distance", "id")]
    return None


def check_read(ref, o, raw, flows, spec):
    """Judges a read against the definitions; returns None or a message."""
    got = norm_read(o, raw)
    exp = ref_read(ref, o, flows, spec)
    if exp is not None:
        if not same(got, exp, rtol=1e-6, atol=1e-7):
            return f"{o}: got {brief(got)} expected {brief(exp)}"
        return None
    k = o["k"]
    if k == "inc":  # rank 2, columns up to orientation
        M = got[0]
        if M.shape != ref.B2.shape:
            return f"{o}: shape {M.shape} expected {ref.B2.shape}"
        for j in range(M.shape[1]):
            c = M[:, j]
            if not (np.allclose(c, ref.B2[:, j]) or np.allclose(c, -ref.B2[:, j])):
                return f"{o}: column {j} = {c.tolist()} expected +-{ref.B2[:, j].tolist()}"
    elif k in ("low", "hodge"):  # rank 2: up to the signs of the columns
        M = got[0]
        if M.shape != ref.L2.shape or not np.allclose(np.abs(M), np.abs(ref.L2), atol=1e-9) or (M.size and not np.allclose(np.linalg.eigvalsh(M), np.linalg.eigvalsh(ref.L2), atol=1e-7)):
            return f"{o}: got {brief(got)} expected +-{brief(ref.L2)}"
    elif k == "curl":
        exp = ref.B2.T @ np.asarray(flows[o["flow"]], float)
        if got[0].shape != exp.shape or not np.allclose(np.abs(got[0]), np.abs(exp), atol=1e-7):
            return f"{o}: got {brief(got)} expected +-{brief(exp)}"
    elif k == "comp":
        x = ref.proj(o["comp"]) @ np.asarray(flows[o["flow"]], float)
        # a value may fall on either side of a rounding boundary
        if got[0].shape != x.shape or np.any(np.abs(got[0] - x) > 0.5 * 10.0 ** -o["sig"] + 1e-7) or not np.allclose(got[0], np.round(got[0], o["sig"]), atol=1e-9):
            return f"{o}: got {brief(got)} expected rounded {brief(x)}"
    return None
