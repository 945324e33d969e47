"""A catalogue of library calls across all parts of the package.

Each entry is a JSON description that is turned into a Call: the argument
objects the caller owns (by name) and the call itself.
"""
import numpy as np

from . import files as FI, filters as F, gp as G, plots as P, ref as R, world as W

GROUPS = ["read", "dec", "ctor", "builder", "reader", "load", "gen", "filter", "fhelp", "gp", "gptrain", "plot", "fplot"]
SMALL = ["siouxfalls", "paper", "test_dataset", "forex", "wsn"]
NO_NODE_FILE = {"wsn", "forex", "test_dataset", "barcelona", "winnipeg"}


class Env:
    """The objects one run's callers work with."""

    def __init__(self, spec, sc, coords=None, disk=None):
        self.spec, self.sc, self.coords, self.disk = spec, sc, coords, disk
        self.ref = R.Ref(spec)
        self.own = {}

    def filter(self, name, who=0):
        key = (who, name)
        if key not in self.own:
            self.own[key] = F.make(name, self.sc)
        return self.own[key]


class Call:
    def __init__(self, args, fn, live=False):
        self.args, self.fn, self.live = args, fn, live


# ------------------------------------------------------------------ generation
def gen_op(rng, spec, ref, groups=None, bad_p=0.1):
    """One call; flows are values, not references."""
    g = rng.choice(groups or GROUPS)
    m = len(spec["edges"])
    flows = [W.gen_flow(rng, m), W.gen_flow(rng, m)]
    o = {"g": g, "flows": flows}
    if rng.random() < bad_p:
        o["bad"] = True
    if g == "read":
        o["o"] = W.gen_read(rng, 2, spec)
    elif g == "dec":
        o["f"] = rng.choice(["div", "curl", "geig", "ceig", "heig", "eigd", "tv", "gflow", "cflow", "hflow"])
        o["round"] = rng.random() < 0.5
        o["sparse"] = rng.random() < 0.5
    elif g == "ctor":
        o["empty"] = rng.random() < 0.2
        o["form"] = rng.randrange(3)
        o["feat"] = rng.random() < 0.6
    elif g == "builder":
        o["how"] = rng.choice(["all", "given", "distance", "tri", "tdist"])
        o["form"] = rng.randrange(3)
        o["feat"] = rng.random() < 0.7 or o["how"] in ("distance", "tdist")
        o["eps"] = rng.choice([0.5, 1.0, 1.5, 3.0])
    elif g == "reader":
        o["o"] = FI.gen_reader(rng, rng.randrange(10**6))
        o["missing"] = rng.random() < 0.1
    elif g == "load":
        o["name"] = rng.choice(SMALL)
    elif g == "gen":
        o["a"] = [rng.randint(2, 8), rng.choice([0.3, 0.6, 1.0]), rng.choice([0.4, 0.8, 2.0]), rng.randrange(1000)]
    elif g == "filter":
        o["o"] = F.gen_filter(rng, spec, ref, flows, F.KINDS + F.TREND)
        o["fresh"] = rng.random() < 0.5
        o["rs"] = rng.randrange(2**31)
    elif g == "fhelp":
        o["f"] = rng.choice(["nrmse", "power", "true", "sethist", "sethist0", "logistic", "coeffs", "pmat", "ideal", "cheb", "snr", "shift", "hfilter"])
        o["p"] = rng.choice(["L1", "L1L", "L1U"])
        o["comp"] = rng.choice(W.COMPONENTS)
        o["order"] = rng.choice([0, 1, 2, 3])
    elif g == "gp":
        o["o"] = G.gen_prep(rng, spec)
        if rng.random() < 0.25:
            o["f"] = rng.choice(["norm", "serialize"])
    elif g == "gptrain":
        o["kernel"] = rng.choice(G.KERNELS)
        o["mean"] = rng.choice([None, "zero"])
        o["iters"] = rng.randint(1, 2)
        o["stop"] = rng.choice(["train", "predict", "params", "cov"])
    elif g == "plot":
        o["o"] = P.gen_draw(rng, spec, P.AXES_OPS)
        if o.pop("bad", None):
            o["o"] = P.gen_bad(rng, o["o"])
        o["coords"] = rng.random() < 0.8
    elif g == "fplot":
        o["f"] = rng.choice(["hodge", "eigvec", "efd", "chs", "cha", "flow", "coord"])
        if o["f"] in ("hodge", "eigvec"):
            o["o"] = P.gen_draw(rng, spec, [o["f"]])
            if o.pop("bad", None):
                o["o"] = P.gen_bad(rng, o["o"])
        o["p"] = rng.choice(["L1", "L1L", "L1U"])
        o["coords"] = rng.random() < 0.8
        o["fd"] = rng.choice([0, 0, 9, 26])
    return o


def gen_like(rng, o, spec, ref):
    """A call of the same function as o: mostly equal, sometimes other arguments."""
    if rng.random() < 0.4:
        return dict(o)
    for _ in range(60):
        c = gen_op(rng, spec, ref, [o["g"]], 0.05)
        if name(c) == name(o):
            return c
    return dict(o)


def name(o):
    sub = o.get("f") or o.get("how") or o.get("name") or o.get("kernel") or (o["o"]["k"] if "o" in o else "")
    return f"{o['g']}:{sub}"


def draws(o):
    """May this call advance NumPy's global stream?"""
    if o["g"] == "filter":
        return o["o"]["k"] in F.TREND
    if o["g"] in ("plot", "fplot"):
        return not o["coords"] or o.get("f") == "coord"
    if o["g"] == "load":
        return o["name"] in NO_NODE_FILE
    return False


def mounts(o):
    if o["g"] == "reader":
        return o["o"]["files"]
    return {}


# ------------------------------------------------------------------- execution
def _sc_args(spec, feat, form=0):
    """form: 0 tuples; 1 triangles as lists; 2 with their nodes in another order."""
    nodes = list(range(spec["n"]))
    edges = [tuple(e) for e in spec["edges"]]
    tri = [tuple(t) for t in spec["tri"]]
    if form:
        tri = [list(t) if form == 1 or j % 3 == 0 else [t[2], t[0], t[1]] if j % 3 == 1 else [t[2], t[1], t[0]] for j, t in enumerate(tri, 1)]
    ef = {e: {"distance": d, "id": float(i)} for i, (e, d) in enumerate(zip(edges, spec["dist"]))} if feat else None
    nf = {v: {"x": v * 0.5} for v in nodes} if feat else None
    return nodes, edges, tri, nf, ef


def prepare(o, env, who=0):
    """The caller's arguments and the call."""
    g, spec, sc, ref = o["g"], env.spec, env.sc, env.ref
    bad = o.get("bad", False)
    flows = [W.as_flow(f) for f in o["flows"]]
    if bad and g != "gptrain":
        flows = [f[:-1].copy() for f in flows]
    A = {"flow": flows[0], "flow2": flows[1]}
    if g == "read":
        q = dict(o["o"])
        if bad and "comp" in q:
            q["comp"] = "nonsense"
        if q["k"] == "faces":
            A["simplex"] = list(q["simplex"])
            return Call(A, lambda: sc.get_faces(A["simplex"]))
        return Call(A, lambda: W.call_read(sc, q, flows))
    if g == "dec":
        import pytspl.decomposition.eigendecomposition as E
        import pytspl.decomposition.hodge_decomposition as H
        from scipy.sparse import csr_matrix

        f = o["f"]
        if f in ("div", "curl"):
            A["B"] = (ref.B1 if f == "div" else ref.B2).copy()
            if o["sparse"]:
                A["B"] = csr_matrix(A["B"])
            return Call(A, lambda: (E.get_divergence if f == "div" else E.get_curl)(A["B"], A["flow"]))
        if f in ("geig", "ceig", "heig", "eigd", "tv"):
            M = {"geig": ref.L1l, "ceig": ref.L1u, "heig": ref.L1, "eigd": ref.L1, "tv": ref.L0}[f]
            A["L"] = np.array(M, order="F" if o["sparse"] else "C")
            if bad:
                A["L"] = A["L"][:-1]
            fn = {"geig": E.get_gradient_eigenpair, "ceig": E.get_curl_eigenpair, "heig": E.get_harmonic_eigenpair, "eigd": E.get_eigendecomposition, "tv": E.get_total_variance}[f]
            return Call(A, (lambda: fn(A["L"])) if f in ("tv", "eigd") else (lambda: fn(A["L"], 1e-3)))
        A["B1"], A["B2"] = csr_matrix(ref.B1), csr_matrix(ref.B2)
        kw = {"round_fig": o["round"], "round_sig_fig": 2}
        if f == "gflow":
            return Call(A, lambda: H.get_gradient_flow(A["B1"], A["flow"], **kw))
        if f == "cflow":
            return Call(A, lambda: H.get_curl_flow(A["B2"], A["flow"], **kw))
        return Call(A, lambda: H.get_harmonic_flow(A["B1"], A["B2"], A["flow"], **kw))
    if g == "ctor":
        from pytspl.simplicial_complex import SimplicialComplex

        if o["empty"]:
            return Call(A, lambda: SimplicialComplex())
        nodes, edges, tri, nf, ef = _sc_args(spec, o["feat"], o["form"])
        if bad:
            tri = tri + [(0, spec["n"], spec["n"] + 1)]
        A.update(nodes=nodes, edges=edges, tri=tri, nf=nf, ef=ef)
        return Call(A, lambda: SimplicialComplex(nodes=A["nodes"], edges=A["edges"], triangles=A["tri"], node_features=A["nf"], edge_features=A["ef"]))
    if g == "builder":
        from pytspl.simplicial_complex.scbuilder import SCBuilder

        nodes, edges, tri, nf, ef = _sc_args(spec, o["feat"], o["form"])
        A.update(nodes=nodes, edges=edges, tri=tri, nf=nf, ef=ef)

        def run():
            b = SCBuilder(A["nodes"], A["edges"], A["nf"], A["ef"])
            h = o["how"]
            if h == "tri":
                return b.triangles()
            if h == "tdist":
                return b.triangles_dist_based("distance" if not bad else "nonsense", o["eps"])
            if h == "all":
                return b.to_simplicial_complex()
            if h == "given":
                return b.to_simplicial_complex(triangles=A["tri"])
            return b.to_simplicial_complex(condition="distance", dist_col_name="distance" if not bad else "nonsense", dist_threshold=o["eps"])

        return Call(A, run)
    if g == "reader":
        import pytspl.io.network_reader as N

        q = o["o"]
        path = q["path"][0] + (".missing" if o["missing"] else "")
        if q["k"] == "csv":
            A["cols"] = list(q["feat"]) if q["feat"] is not None else None
            if bad:
                A["cols"] = ["nonsense"]
            return Call(A, lambda: N.read_csv(path, q["sep"], "src", "dst", A["cols"], q["zero"]))
        if q["k"] == "b1b2":
            A["edges"] = np.array(q["edges"])
            if o["flows"][0][0] > 0:
                return Call(A, lambda: N.read_B2(q["path"][1], A["edges"]))
        q = dict(q, path=[path] + q["path"][1:])
        return Call(A, lambda: FI.call_reader(q))
    if g == "load":
        import pytspl

        return Call(A, lambda: pytspl.load_dataset(o["name"] if not bad else "nonsense"))
    if g == "gen":
        import pytspl

        n, p, th, seed = o["a"]
        return Call(A, lambda: pytspl.generate_random_simplicial_complex(n if not bad else -1, p, th, seed))
    if g == "filter":
        q = o["o"]
        key = F.cls_of(q)
        for nm in ("mus", "snr", "ratio"):
            if nm in q:
                A[nm] = np.array(q[nm], float)
        flt = F.make(key, sc) if o["fresh"] else env.filter(key, who)

        def run():
            if q["k"] == "efd":
                r = flt.denoise(f=flows[q["flow"]], f_true=flows[q["true"]], p_choice=q["p"], mu_vals=A["mus"])
            elif q["k"] == "tf2":
                r = flt.denoising_l2_regularizer(flow=flows[q["flow"]], component=q["comp"], num_realizations=q["n"], snr_db=A["snr"], mu=q["mu"])
            elif q["k"] == "tf1":
                r = flt.denoising_l1_regularizer(flow=flows[q["flow"]], component=q["comp"], num_realizations=q["n"], snr_db=A["snr"], order=q["order"], regularization=q["reg"])
            elif q["k"] == "tfi":
                r = flt.interpolation_l1_regularizer(flow=flows[q["flow"]], component=q["comp"], ratio=A["ratio"], num_realizations=q["n"], order=q["order"], regularization=q["reg"])
            else:
                r = F.call(flt, q, flows)
            return flt.history, r

        return Call(A, run)
    if g == "fhelp":
        f = o["f"]
        if f == "nrmse":
            from pytspl.filters.base_filter import BaseFilter

            return Call(A, lambda: BaseFilter.calculate_error_NRMSE(A["flow"], A["flow2"]))
        if f in ("power", "hfilter", "logistic"):
            from pytspl.filters.base_filter import BaseFilter

            A["P"] = ref.lap(o["p"]).copy()
            A["lam"] = np.linspace(0, 4, 9)
            if f == "logistic":
                return Call(A, lambda: BaseFilter.logistic_function(0.5, 10)(A["lam"]))
            return Call(A, lambda: BaseFilter.power_iteration(A["P"]))
        if f in ("sethist", "sethist0"):
            flt = F.make("gr", sc)
            A.update(H=np.eye(len(flows[0])), fr=np.arange(3.0), err=np.array([1, 2]), fe=np.array([3.0]))

            def run():
                flt.set_history(A["H"], A["flow"], A["fr"], A["err"], **({"filter_error": A["fe"]} if f == "sethist" else {}))
                return flt.history

            return Call(A, run)
        if f in ("ideal", "cheb"):
            ch = F.make("ch", sc)
            A["c"] = np.linspace(1, 0.1, len(ref.edges) if f == "ideal" else 4)
            return Call(A, (lambda: ch.get_ideal_frequency(A["c"])) if f == "ideal" else (lambda: ch.get_chebyshev_frequency_approx(o["p"], A["c"], 2.0, 4)))
        if f in ("snr", "shift"):
            tf = F.make("tf", sc)
            A["snr"] = np.array([0.0, 5.0])
            return Call(A, (lambda: tf.get_power_noise(A["flow"], A["snr"])) if f == "snr" else (lambda: tf.get_shift_operator("divergence" if o["comp"] != "curl" else "curl", o["order"])))
        flt = F.make("ls", sc)
        if f == "true":
            return Call(A, lambda: flt.get_true_signal(A["flow"], o["comp"]))
        if f == "coeffs":
            return Call(A, lambda: flt.get_component_coefficients(o["comp"] if not bad else "nonsense"))
        return Call(A, lambda: flt.get_p_matrix(o["p"] if not bad else "nonsense"))
    if g == "gp":
        import torch

        if o.get("f") == "norm":
            tr = G.trainer(sc, A["flow"])
            A["t"] = [torch.tensor(o["flows"][0]), torch.tensor(o["flows"][1]), torch.tensor(o["flows"][0] + o["flows"][1])]
            return Call(A, lambda: tr.normalize_data(*A["t"]))
        if o.get("f") == "serialize":
            tr = G.trainer(sc, A["flow"])
            A["pairs"] = tr.get_eigenpairs()
            A["x"] = torch.arange(len(ref.edges)).float()

            def run():
                with torch.no_grad():
                    return G.kernel(A["pairs"], o["o"].get("kernel", "matern") if not bad else "nonsense")(A["x"], A["x"]).to_dense()

            return Call(A, run)
        q = o["o"]
        return Call(A, lambda: G.call_prep(sc, q, [A["flow"]]))
    if g == "gptrain":
        import gpytorch
        from pytspl.hogde_gp import ExactGPModel

        tr = G.trainer(sc, A["flow"])
        m = len(ref.edges)
        n = max(2, min(m - 2, int(0.6 * m)))
        A["split"] = list(tr.train_test_split(train_ratio=n, seed=4)) if not (bad and o["stop"] == "params") and m >= 4 else None
        if A["split"] is None:
            return Call(A, lambda: tr.get_model_parameters())
        A["pairs"] = tr.get_eigenpairs()

        def run():
            xt, yt, xs, ys, x, y = A["split"]
            if bad:  # targets of another length
                if o["stop"] == "predict":
                    ys = y[: len(ys) + 1]
                else:
                    yt = y[: len(yt) + 1]
            lik = gpytorch.likelihoods.GaussianLikelihood()
            model = ExactGPModel(xt, yt, lik, G.kernel(A["pairs"], o["kernel"]), mean_function=o["mean"])
            if o["stop"] != "params" or o["kernel"] == "matern":
                tr.train(model, lik, xt, yt, training_iters=o["iters"])
            if o["stop"] == "predict":
                p = tr.predict(model, lik, xs, ys)
                return p.mean, p.variance
            if o["stop"] == "params":
                return tr.get_model_parameters()
            if o["stop"] == "cov":
                return tr.build_matern_kernel()
            return None

        return Call(A, run)
    from pytspl.plot import SCPlot

    if g in ("plot", "fplot"):
        coords = {v: list(p) for v, p in env.coords} if o["coords"] else None
        A["coords"] = coords
    if g == "plot":
        import matplotlib.figure

        a = P.Args(o["o"], spec)
        A["edge_flow"], A["kw"] = a.flow, a.kw
        ax = matplotlib.figure.Figure(figsize=(5, 4)).subplots()
        return Call(A, lambda: P.call(SCPlot(sc, A["coords"]), a, ax), live=True)
    f = o["f"]
    if f in ("hodge", "eigvec"):
        a = P.Args(o["o"], spec)
        A["edge_flow"], A["fd"] = a.flow, {"fontsize": o["fd"] or 9}
        plot = SCPlot(sc, A["coords"])
        neig = int(round(np.trace(ref.proj(o["o"]["comp"])))) if f == "eigvec" else None
        if f == "eigvec":
            A["idx"] = P.eig_indices(o["o"], neig)
            q = o["o"]
            comp = "no such component" if q.get("bad") else q["comp"]
            return Call(A, lambda: plot.draw_eigenvectors(component=comp, **({} if A["idx"] is None else {"eigenvector_indices": A["idx"]}), **({"font_dict": A["fd"]} if o["fd"] else {})), live=True)
        comp = "no such component" if o["o"].get("bad") else o["o"]["comp"]
        return Call(A, lambda: plot.draw_hodge_decomposition(flow=A["flow"], component=comp, **({"font_dict": A["fd"]} if o["fd"] else {})), live=True)
    if f == "flow":
        return Call(A, lambda: SCPlot(sc, A["coords"]).create_edge_flow(A["flow"]))
    if f == "coord":
        return Call(A, lambda: sc.generate_coordinates())
    if f == "efd":
        flt = F.make("ef", sc)

        def run():
            if not bad:
                flt.denoise(f=A["flow"], f_true=A["flow2"], p_choice=o["p"])
            return flt.plot_desired_frequency_response(o["p"])

        return Call(A, run, live=True)
    A["fd"] = {"fontsize": o["fd"]} if o["fd"] else None
    flt = F.make("ch", sc)
    if f == "chs":
        return Call(A, lambda: flt.plot_chebyshev_series_approx(o["p"]), live=True)

    def run():
        if not bad:
            flt.apply(f=A["flow"], p_choice=o["p"], component="gradient", L=2)
        return flt.plot_frequency_response_approx(A["flow"], "gradient", A["fd"])

    return Call(A, run, live=True)


# ---------------------------------------------------------------- fingerprints
def fp(x, deep=0):
    """A value that is equal exactly if everything reachable is unchanged."""
    if deep > 8:
        return "..."
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if isinstance(x, float):
        return x.hex()
    if isinstance(x, np.generic):
        return (str(x.dtype), x.tobytes())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("obj", x.shape, tuple(fp(v, deep + 1) for v in x.ravel().tolist()))
        return ("nd", x.shape, str(x.dtype), x.flags.writeable, x.tobytes())
    if isinstance(x, dict):
        return ("dict", tuple((fp(k, deep + 1), fp(v, deep + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(fp(v, deep + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if hasattr(x, "toarray") and hasattr(x, "nnz"):
        return ("sp", x.shape, str(x.dtype), x.toarray().tobytes())
    t = type(x)
    if t.__name__ == "DataFrame":
        return ("df", tuple(map(str, x.columns)), tuple(map(str, x.index)), repr(x.values.tolist()))
    if hasattr(x, "detach"):
        return ("t", tuple(x.shape), str(x.dtype), bool(x.requires_grad), x.detach().cpu().numpy().tobytes())
    if t.__name__ == "SimplicialComplex":
        return ("sc", fp(x.nodes, deep + 1), fp(x.edges, deep + 1), fp(x.triangles, deep + 1), fp(x.node_features, deep + 1), fp(x.edge_features, deep + 1), fp(np.asarray(W.dense(x.incidence_matrix(1)))), fp(np.asarray(W.dense(x.incidence_matrix(2)))))
    if t.__name__ == "SCBuilder":
        return ("scb", fp(x.nodes, deep + 1), fp(x.edges, deep + 1), fp(x.node_features, deep + 1), fp(x.edge_features, deep + 1))
    if hasattr(x, "history"):
        return ("flt", fp(x.history, deep + 1))
    return ("?", t.__name__, id(x))
