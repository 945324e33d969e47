"""Filter runs: generation, execution, normal forms, reference checks."""
import numpy as np

from . import ref as R
from .world import COMPONENTS, Malformed, brief, dense, same

CLASSES = {
    "ls": "LSFilterDesign", "gr": "GridBasedFilterDesign", "ef": "EdgeFlowDenoising",
    "ch": "ChebyshevFilterDesign", "tf": "SimplicialTrendFilter",
}
BASE_KEYS = {"filter", "f_estimated", "frequency_responses", "extracted_component_error", "filter_error"}
TREND_KEYS = {"filter", "frequency_responses", "component_flow", "errors", "correlations"}
KINDS = ["ls1", "ls2", "lsg", "grd", "grs", "grg", "efd", "cha"]
TREND = ["tf2", "tf1", "tfi"]
P_OF = {"gradient": "L1L", "curl": "L1U"}


def cls_of(o):
    return {"t": "tf", "c": "ch", "e": "ef", "g": "gr", "l": "ls"}[o["k"][0]]


def make(name, sc):
    import pytspl.filters as F

    return getattr(F, CLASSES[name])(sc)


# ------------------------------------------------------------------ generation
def _simple_nonzero(M):
    w = np.linalg.eigvalsh(M)
    w = w[w > 1e-6]
    return len(w) < 2 or float(np.min(np.diff(w))) > 1e-4


def _gc_disjoint(ref):
    a = np.linalg.eigvalsh(ref.L1l)
    b = np.linalg.eigvalsh(ref.L1u)
    a, b = a[a > 1e-6], b[b > 1e-6]
    return not len(a) or not len(b) or float(np.min(np.abs(a[:, None] - b[None, :]))) > 1e-4


def _max_L(points, want, limit=1e6):
    pts = np.unique(np.round(np.asarray(points, float), 9))
    L = min(want, len(pts))
    while L > 1:
        s = R._svd(np.vander(np.asarray(points, float), L, increasing=True), compute_uv=False)
        if s[-1] > 0 and s[0] / s[-1] < limit:
            break
        L -= 1
    return max(L, 1)


def _full_L(M):
    """Number of distinct eigenvalues if that many coefficients are well determined, else 0."""
    w = [v for v, _ in R.eig_clusters(M)[1]]
    w = sorted({0.0 if abs(v) < 1e-6 else v for v in w})
    if w[0] != 0.0 or not 2 <= len(w) <= 4:
        return 0
    return len(w) if _max_L(w, len(w)) == len(w) else 0


def _above(w, tol):
    """The distinct eigenvalues left by a tolerance: smaller ones count as zero."""
    if tol is not None:
        w = np.where(np.abs(w) < tol, 0.0, w)
    return np.unique(np.round(w, 9))


def _gen_tol(rng, spectra):
    """A tolerance away from every eigenvalue that leaves some in each spectrum."""
    vals = sorted(v for w in spectra for v in w if v > 1e-6)
    mids = [round(float(a + b) / 2, 4) for a, b in zip(vals, vals[1:]) if b - a > 0.05]
    t = rng.choice([1e-5, 1e-4, 0.5, 1.5] + mids * 2)
    ok = spectra and all(np.min(np.abs(w - t)) > (1e-3 if t > 0.01 else 1e-6) and np.max(w) > t for w in spectra)
    return t if ok else None


def _visible(ref, f, comp):
    x = ref.proj(comp) @ np.asarray(f, float)
    return float(np.linalg.norm(x)) > 1e-3


def gen_filter(rng, spec, ref, flows, kinds=None, trend=False):
    """A filter run whose exact result does not hinge on rounding (no eigenvalue
    ties that matter, well-conditioned systems)."""
    kinds = list(kinds or KINDS + (TREND if trend else []))
    m = len(ref.edges)
    for _ in range(60):
        k = rng.choice(kinds)
        fi = rng.randrange(len(flows))
        f = flows[fi]
        o = {"k": k, "flow": fi}
        if k == "ls1":
            comps = [c for c in COMPONENTS if _visible(ref, f, c)]
            if not comps or not _gc_disjoint(ref):
                continue
            o["comp"] = rng.choice(comps)
            o["L"] = _max_L(np.linalg.eigvalsh(ref.L1), rng.choice([1, 2, 3, 4]))
            return o
        if k in ("ls2", "lsg"):
            if not _simple_nonzero(ref.L1l) or not _simple_nonzero(ref.L1u):
                # repeated eigenvalues: only a filter that meets all of them exactly
                # is determined, whatever rounding does to their number
                full = {c: _full_L(ref.lap(P_OF[c])) if _visible(ref, f, c) else 0 for c in P_OF}
                if k == "ls2":
                    comps = [c for c in P_OF if full[c]]
                    if not comps:
                        continue
                    o["comp"] = rng.choice(comps)
                    o["L"] = full[o["comp"]]
                else:
                    o["L1"], o["L2"] = (full[c] if rng.random() < 0.8 else 0 for c in ("gradient", "curl"))
                    if not o["L1"] and not o["L2"]:
                        continue
                o["tied"] = True
                return o
            comps = [c for c in P_OF if _visible(ref, f, c)]
            if k == "ls2":
                if not comps:
                    continue
                comps = o["comp"] = rng.choice(comps)
                comps = [comps]
            if rng.random() < 0.4:
                t = _gen_tol(rng, [np.linalg.eigvalsh(ref.lap(P_OF[c])) for c in comps])
                if t:
                    o["tol"] = t
            lim = {c: _max_L(_above(np.linalg.eigvalsh(ref.lap(P_OF[c])), o.get("tol")), 4) for c in comps}
            if k == "ls2":
                o["L"] = rng.randint(1, lim[o["comp"]])
            else:
                o["L1"] = rng.randint(0, lim["gradient"]) if "gradient" in comps else 0
                o["L2"] = rng.randint(0, lim["curl"]) if "curl" in comps else 0
            return o
        if k in ("grd", "grs", "grg"):
            ps = [p for p in ("L1", "L1L", "L1U") if R.power_lambda(ref.lap(p)) is not None]
            if k == "grg":
                o["L1"] = rng.randint(0, 3) if "L1L" in ps and _visible(ref, f, "gradient") else 0
                o["L2"] = rng.randint(0, 3) if "L1U" in ps and _visible(ref, f, "curl") else 0
                for key, p in (("L1", "L1L"), ("L2", "L1U")):
                    if o[key]:
                        o[key] = _max_L(np.linspace(0, R.power_lambda(ref.lap(p)), 10), o[key])
                return o
            if not ps:
                continue
            o["p"] = rng.choice(ps)
            o["L"] = _max_L(np.linspace(0, R.power_lambda(ref.lap(o["p"])), m if k == "grd" else 10), rng.choice([1, 2, 3, 4]))
            if k == "grd":
                o["mu"] = rng.choice([0.1, 0.5, 2.0])
                o["true"] = rng.randrange(len(flows))
            else:
                comps = [c for c in COMPONENTS if _visible(ref, f, c)]
                if not comps:
                    continue
                o["comp"] = rng.choice(comps)
                o["cut"], o["steep"] = rng.choice([[0.01, 100], [0.5, 20], [1.0, 5]])
            return o
        if k == "efd":
            o["p"] = rng.choice(["L1", "L1L", "L1U"])
            o["mus"] = rng.choice([[0.5], [0.1, 1.0], [2.0, 0.3, 0.7], [0.5, 0.5, 2.0], [1.0, 0.2, 1.0]])
            o["true"] = rng.randrange(len(flows))
            return o
        if k == "cha":
            ps = [p for p in ("L1", "L1L", "L1U") if R.power_lambda(ref.lap(p)) is not None]
            comps = [c for c in COMPONENTS if _visible(ref, f, c)]
            if not ps or not comps or not _gc_disjoint(ref):
                continue
            o["p"], o["comp"] = rng.choice(ps), rng.choice(comps)
            o["L"] = rng.choice([2, 3, 4])
            o["n"] = rng.choice([None, o["L"], o["L"] + 3])
            o["cut"], o["steep"] = rng.choice([[0.01, 100], [0.5, 10]])
            return o
        # trend filter
        o["comp"] = rng.choice(["divergence", "curl"])
        o["n"] = rng.choice([1, 2, 3])
        o["rs"] = rng.randrange(2**31)
        if o["comp"] == "curl" and not ref.tri:
            o["comp"] = "divergence"
        if k == "tf2":
            o["snr"] = rng.choice([[5.0], [-5.0, 0.0, 10.0], [20.0, 3.0], [3.0, 3.0]])
            o["mu"] = rng.choice([0.1, 0.5, 3.0])
        else:
            o["order"] = rng.choice([0, 0, 1, 2, 3])
            o["reg"] = rng.choice([0.1, 0.5, 2.0])
            if k == "tf1":
                o["snr"] = rng.choice([[5.0], [0.0, 10.0], [4.0, 4.0]])
                o["n"] = min(o["n"], 2)
            else:
                o["ratio"] = rng.choice([[0.5], [0.3, 0.8], [1.0, 0.6], [0.6, 0.6]])
                o["n"] = min(o["n"], 2)
        return o
    return {"k": "efd", "flow": 0, "p": "L1", "mus": [0.5, 1.5], "true": len(flows) - 1}


def call(flt, o, flows):
    """Runs the operation on a filter object of the right class."""
    f = flows[o["flow"]]
    k = o["k"]
    if k == "ls1":
        return flt.subcomponent_extraction_type_one(f=f, component=o["comp"], L=o["L"])
    if k == "ls2":
        return flt.subcomponent_extraction_type_two(f=f, component=o["comp"], L=o["L"], **({"tolerance": o["tol"]} if "tol" in o else {}))
    if k in ("lsg", "grg"):
        return flt.general_filter(f=f, L1=o["L1"], L2=o["L2"], **({"tolerance": o["tol"]} if "tol" in o else {}))
    if k == "grd":
        return flt.denoise(f=f, f_true=flows[o["true"]], p_choice=o["p"], L=o["L"], mu=o["mu"])
    if k == "grs":
        return flt.subcomponent_extraction(f=f, component=o["comp"], p_choice=o["p"], L=o["L"], cut_off_frequency=o["cut"], steep=o["steep"])
    if k == "efd":
        return flt.denoise(f=f, f_true=flows[o["true"]], p_choice=o["p"], mu_vals=np.array(o["mus"]))
    if k == "cha":
        return flt.apply(f=f, p_choice=o["p"], component=o["comp"], L=o["L"], n=o["n"], cut_off_frequency=o["cut"], steep=o["steep"])
    if k == "tf2":
        return flt.denoising_l2_regularizer(flow=f, component=o["comp"], num_realizations=o["n"], snr_db=np.array(o["snr"]), mu=o["mu"])
    if k == "tf1":
        return flt.denoising_l1_regularizer(flow=f, component=o["comp"], num_realizations=o["n"], snr_db=np.array(o["snr"]), order=o["order"], regularization=o["reg"])
    if k == "tfi":
        return flt.interpolation_l1_regularizer(flow=f, component=o["comp"], ratio=np.array(o["ratio"]), num_realizations=o["n"], order=o["order"], regularization=o["reg"])
    raise ValueError(k)


# ----------------------------------------------------------------- normal form
def empty(hist):
    return isinstance(hist, dict) and len(hist) > 0 and all(v is None for v in hist.values())


def norm_stage(hist, cheb=False, tied=False):
    """Normal form of one record (a dict of arrays)."""
    if not isinstance(hist, dict):
        raise Malformed(f"record is {type(hist).__name__}")
    if set(hist) == TREND_KEYS:
        keys = sorted(TREND_KEYS)
    elif set(hist) == BASE_KEYS:
        keys = sorted(BASE_KEYS)
    else:
        raise Malformed(f"record has entries {sorted(map(str, hist))}")
    out = []
    for k in keys:
        v = hist[k]
        if v is None:
            out.append(None)
            continue
        v = dense(v)
        if cheb and k == "frequency_responses":
            v = np.sqrt(np.sum(v ** 2, axis=-1))
        if tied and k in ("frequency_responses", "extracted_component_error"):
            v = np.concatenate([np.array(v.shape, float), v[-1].ravel()])
        out.append(v)
    return out


def norm_record(o, hist, result=None):
    """Normal form of the record and result after a completed run of o."""
    if o["k"] in ("lsg", "grg"):
        if not isinstance(hist, dict) or set(hist) != {"L1", "L2"}:
            raise Malformed(f"record of a general filter has entries {sorted(map(str, hist))}")
        out = []
        for key in ("L1", "L2"):
            out += [None] * 5 if hist[key] is None else norm_stage(hist[key], tied=o.get("tied", False))
        if result is not None:
            if not isinstance(result, tuple) or len(result) != 3:
                raise Malformed("general filter did not return three components")
            out += [dense(x) for x in result]
        return out
    return norm_stage(hist, cheb=o["k"] == "cha", tied=o.get("tied", False))


def stages(o):
    """The single-extraction operations a general filter consists of."""
    if o["k"] == "lsg":
        return [{"k": "ls2", "flow": o["flow"], "comp": c, "L": o[L], "tol": o.get("tol", 1e-3), **({"tied": True} if o.get("tied") else {})} for L, c in (("L1", "gradient"), ("L2", "curl")) if o[L] > 0]
    if o["k"] == "grg":
        return [{"k": "grs", "flow": o["flow"], "comp": c, "p": P_OF[c], "L": o[L], "cut": 0.01, "steep": 100} for L, c in (("L1", "gradient"), ("L2", "curl")) if o[L] > 0]
    return []


def close(a, b, trend=False):
    return same(a, b, rtol=1e-6 if not trend else 1e-6, atol=1e-8)


# ------------------------------------------------------------ reference checks
def _nr(est, true):
    with np.errstate(all="ignore"):
        return float(np.sqrt(np.sum((np.asarray(est) - true) ** 2)) / np.sqrt(np.sum(np.asarray(true) ** 2)))


def _eq(a, b, rtol=1e-5, atol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def check_record(ref, o, hist, flows, result=None):
    """Does the record describe exactly this run?  None or a message."""
    k = o["k"]
    f = np.asarray(flows[o["flow"]], float)
    m = len(f)
    if k in ("lsg", "grg"):
        norm_record(o, hist, result)
        if result is not None:
            h, c, g = (np.broadcast_to(dense(x), (m,)) for x in result)
            if not _eq(h + c + g, f):
                return f"{o}: components add up to {brief(h + c + g)}, flow is {brief(f)}"
            for L, x in (("L1", g), ("L2", c)):
                if o[L] > 0 and (hist[L] is None or not _eq(dense(hist[L]["f_estimated"]), x)):
                    return f"{o}: {L} record does not hold the returned component"
                if o[L] == 0 and (hist[L] is not None or not _eq(x, np.zeros(m))):
                    return f"{o}: component without a filter is not empty"
        for st in stages(o):
            L = "L1" if st["comp"] == "gradient" else "L2"
            if hist[L] is None:
                return f"{o}: record {L} is missing"
            msg = check_record(ref, st, hist[L], flows)
            if msg:
                return f"{o} stage {L}: {msg}"
        if o["L1"] and o["L2"] and hist["L1"] is hist["L2"]:
            return f"{o}: gradient and curl records are the same object"
        return None
    norm_record(o, hist)
    if any(hist[x] is None for x in hist if not (x == "filter" and k in ("tf1", "tfi"))):
        return f"{o}: record has missing entries"
    if k in TREND:
        return check_trend(ref, o, hist, f)
    H = dense(hist["filter"])
    est = dense(hist["f_estimated"])
    fr = dense(hist["frequency_responses"])
    err = dense(hist["extracted_component_error"])
    if k == "cha":
        L = o["L"]
        if H.shape != (L, m, m) or est.shape != (L, m) or fr.shape != (L, m) or err.shape != (L,) or dense(hist["filter_error"]).shape != (L,):
            return f"{o}: record shapes {H.shape} {est.shape} {fr.shape} {err.shape}"
        true = ref.proj(o["comp"]) @ f
        for i in range(L):
            if not _eq(est[i], H[i] @ f):
                return f"{o}: estimate {i} is {brief(est[i])}, filter applied to flow {brief(H[i] @ f)}"
            if not _eq(err[i], _nr(est[i], true)):
                return f"{o}: error {i} is {err[i]}, of its estimate {_nr(est[i], true)}"
            if not _eq(np.linalg.norm(fr[i]), np.linalg.norm(est[i])):
                return f"{o}: frequency response {i} is not the spectrum of its estimate"
        return None
    P = ref.lap(o["p"]) if "p" in o else ref.L1 if k == "ls1" else ref.lap(P_OF[o["comp"]])
    n = len(o["mus"]) if k == "efd" else o["L"]
    if H.shape != (m, m) or est.shape != (m,) or fr.shape != (n, m) or err.shape != (n,):
        return f"{o}: record shapes {H.shape} {est.shape} {fr.shape} {err.shape}"
    if not _eq(est, H @ f):
        return f"{o}: stored estimate {brief(est)} is not the stored filter applied to the flow {brief(H @ f)}"
    true = np.asarray(flows[o["true"]], float) if "true" in o else ref.proj(o["comp"]) @ f
    w, U = R._eigh(P)
    w = np.where(np.abs(w) < 1e-9, 0, w)
    if o.get("tied"):
        Pc = ref.proj(o["comp"])
        if not _eq(H, Pc, rtol=1e-4, atol=1e-5):
            return f"{o}: stored filter {brief(H)} is not the one that meets every eigenvalue {brief(Pc)}"
        if not _eq(fr[-1], np.diag(U.T @ Pc @ U), rtol=1e-4, atol=1e-5):
            return f"{o}: frequency response {brief(fr[-1])}, of its filter {brief(np.diag(U.T @ Pc @ U))}"
        if not _eq(err[-1], 0.0, atol=1e-5):
            return f"{o}: error {err[-1]} of an exact filter"
        return None
    # the responses and errors each size or parameter must have
    Hs = []
    if k == "efd":
        Hs = [U @ np.diag(1 / (1 + mu * w)) @ U.T for mu in o["mus"]]
    else:
        if k == "ls1":
            pts, tgt = w, _ideal(ref, o["comp"], w, U)
        elif k == "ls2":
            cut = o.get("tol", 1e-6)
            pts = [0.0] + [v for v in w if v > cut] if np.any(w <= cut) else list(w)
            tgt = [0.0] + [1.0] * (len(pts) - 1)
        else:
            lam = R.power_lambda(P)
            if lam is None:
                return None
            pts = np.linspace(0, lam, m if k == "grd" else 10)
            tgt = 1 / (1 + o["mu"] * pts) if k == "grd" else 1 / (1 + np.exp(-o["steep"] * (pts - o["cut"])))
        for l in range(n):
            Hl, cond, _ = R.vander_fit(pts, tgt, l + 1, P)
            if cond > 1e7:
                return None
            Hs.append(Hl)
    for i, Hi in enumerate(Hs):
        if not _eq(fr[i], np.diag(U.T @ Hi @ U), rtol=1e-4, atol=1e-5):
            return f"{o}: frequency response {i} is {brief(fr[i])}, of its filter {brief(np.diag(U.T @ Hi @ U))}"
        e = _nr(Hi @ f, true)
        if not _eq(err[i], e, rtol=1e-4, atol=1e-5):
            return f"{o}: error {i} is {err[i]}, of its filter {e}"
    if not _eq(H, Hs[-1], rtol=1e-4, atol=1e-5):
        return f"{o}: stored filter {brief(H)} is not the one of the last size or parameter {brief(Hs[-1])}"
    return None


def _ideal(ref, comp, w, U):
    """Ideal response per eigenvalue of L1 (gradient and curl spectra disjoint)."""
    Pm = ref.proj(comp)
    return np.array([1.0 if U[:, i] @ Pm @ U[:, i] > 0.5 else 0.0 for i in range(len(w))])


# ---------------------------------------------------------------- trend filter
def shift_operator(ref, comp, order):
    if comp == "divergence":
        B, L = ref.B1, ref.L1l
    else:
        B, L = ref.B2.T, ref.L1u
    if order == 0:
        return B
    if order % 2 == 0:
        return B @ np.linalg.matrix_power(L, order // 2)
    return np.linalg.matrix_power(L, (order + 1) // 2)


def _comp_norm(ref, comp, x):
    return float(np.linalg.norm(ref.B1 @ x if comp == "divergence" else ref.B2.T @ x))


def _corr(a, b):
    a, b = a - a.mean(), b - b.mean()
    d = np.sqrt((a @ a) * (b @ b))
    return float(a @ b / d) if d > 0 else float("nan")


def check_trend(ref, o, hist, f):
    """Shapes and per-level averages, from the recorded realisations alone."""
    m = len(f)
    X = dense(hist["frequency_responses"])
    lv = len(o["snr"] if "snr" in o else o["ratio"])
    if X.shape != (m, lv, o["n"]):
        return f"{o}: realisations have shape {X.shape}, expected {(m, lv, o['n'])}"
    for key in ("errors", "component_flow", "correlations"):
        v = dense(hist[key])
        if v.shape != (lv,):
            return f"{o}: {key} has shape {v.shape}, expected {(lv,)}"
        for i in range(lv):
            xs = [X[:, i, j] for j in range(o["n"])]
            fn = {"errors": lambda x: _nr(x, f), "component_flow": lambda x: _comp_norm(ref, o["comp"], x), "correlations": lambda x: _corr(f, x)}[key]
            vals = [fn(x) for x in xs]
            if key == "correlations" and (any(np.std(x) < 1e-6 for x in xs) or np.std(f) < 1e-6):
                continue
            e = float(np.mean(vals))
            if not _eq(v[i], e, rtol=1e-5, atol=1e-6):
                return f"{o}: {key}[{i}] is {v[i]}, mean over its realisations {e}"
    return None
