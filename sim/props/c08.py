"""C08: the Hodge decomposition is exact, orthogonal and fails cleanly."""
import itertools

import numpy as np

from .. import catalog as K, client as C
from .. import core, devices, ref as R, world as W
from . import c07

PROPERTY = "C08"
RUNS = {"quick": 2400, "thorough": 30000}
RULE = (
    "1-2 complexes (random ones with reversed edges, isolated nodes and any set of triangles; paths, cycles, stars, complete graphs, triangulated grids and strips, disjoint unions; bundled "
    "datasets; a second complex often of the same shape), 1-3 callers making 2-7 calls each: components (rounded in every way, or not), full decompositions, eigenpairs at several tolerances, "
    "embeddings, total variance - through the complex or through the decomposition functions with the caller's own matrices - for flows of several magnitudes and types, among filter runs and "
    "matrix reads. Least-squares and eigenvalue calls fail, calls are interrupted, callers overwrite what they were given. Every answer of every call is judged by the definition; a call whose kernel failed must raise "
    "(or still be exact). Non-trivial: a call failed, or a context switch inside library code. Distinct: different event log."
)
REAL = ["pytspl.decomposition, SimplicialComplex; numpy, scipy least squares and eigenvalue solvers"]
STUB = ["thread scheduling (parked real threads, seeded)", "numerical kernels: real, may be made to fail"]
ASSUME = ["tolerances closer than 1e-6 to an eigenvalue are not generated; eigenpairs are judged by the eigenspaces they span"]

COMP = W.COMPONENTS


def family(rng):
    k = rng.choice(["path", "cycle", "star", "complete", "grid", "strip", "union", "wheel"])
    n = rng.choice([3, 4, 5, 6, 7]) if k in ("complete",) else rng.choice([3, 4, 5, 8, 12, 20, 30])
    E = []
    if k == "path":
        E = [(i, i + 1) for i in range(n - 1)]
    elif k == "cycle":
        E = [(i, (i + 1) % n) for i in range(n)]
    elif k == "star":
        E = [(0, i) for i in range(1, n)]
    elif k == "complete":
        E = list(itertools.combinations(range(n), 2))
    elif k == "wheel":
        n = max(5, n)
        E = [(0, i) for i in range(1, n)] + [(i, i % (n - 1) + 1) for i in range(1, n)]
    elif k == "strip":
        E = [(i, i + 1) for i in range(n - 1)] + [(i, i + 2) for i in range(n - 2)]
    elif k == "grid":
        w = rng.choice([2, 3, 4])
        n = w * w
        E = [(i, i + 1) for i in range(n) if i % w < w - 1] + [(i, i + w) for i in range(n - w)] + [(i, i + w + 1) for i in range(n - w) if i % w < w - 1]
    else:
        a = rng.choice([3, 4])
        E = list(itertools.combinations(range(a), 2)) + [(a + i, a + j) for i, j in itertools.combinations(range(4), 2)][: rng.randint(3, 6)]
        n = a + 4
    perm = list(range(n))
    rng.shuffle(perm)
    E = [[perm[u], perm[v]] if rng.random() < 0.5 else [perm[v], perm[u]] for u, v in {tuple(sorted(e)) for e in E}]
    E.sort()
    if rng.random() < 0.5:
        rng.shuffle(E)
    tri = [list(t) for t in R.cliques3(E)]
    p = rng.choice([0.0, 0.5, 1.0, 1.0])
    tri = [t for t in tri if rng.random() < p]
    return {"n": n + rng.choice([0, 0, 1]), "edges": E, "tri": tri, "dist": [1.0] * len(E)}


def gen_flow(rng):
    return {"s": rng.randrange(2**30), "kind": rng.choice(["any", "any", "any", "big", "small", "tiny", "int", "f32", "zero", "grad", "curl", "harm", "one", "strided"])}


def flow_of(d, ref):
    rng = core.rng_for("c08flow", d["s"])
    m = len(ref.edges)
    f = np.array([round(rng.uniform(-3, 3), 3) for _ in range(m)], float)
    k = d["kind"]
    if k == "big":
        f *= 1e6
    elif k == "small":
        f *= 1e-4
    elif k == "tiny":
        f *= 1e-9
    elif k == "int":
        return np.array([rng.randint(-9, 9) for _ in range(m)])
    elif k == "f32":
        return f.astype(np.float32)
    elif k == "zero":
        f *= 0
    elif k == "grad":
        f = ref.B1.T @ np.array([float(rng.randint(-5, 5)) for _ in range(ref.n)])
    elif k == "curl":
        f = ref.B2 @ np.array([float(rng.randint(-5, 5)) for _ in range(len(ref.tri))])
    elif k == "harm":
        f = ref.Ph @ f
    elif k == "one":
        f = np.zeros(m)
        f[rng.randrange(m)] = 1.0
    elif k == "strided":
        f = np.repeat(f, 2)[::2]
    return f


def gen(rng, tier, idx):
    cx = []
    for i in range(rng.choice([1, 2, 2])):
        if i and rng.random() < 0.6 and "spec" in cx[0]:
            cx.append({"spec": W.same_shape(rng, cx[0]["spec"])})
        elif rng.random() < 0.08:
            cx.append({"name": rng.choice(["siouxfalls", "paper", "test_dataset", "wsn", "forex"])})
        elif rng.random() < 0.45:
            cx.append({"spec": family(rng)})
        else:
            cx.append({"spec": W.gen_complex(rng, nmin=3, nmax=8, min_edges=2, max_edges=18)})
    nc = rng.choice([1, 1, 2, 3])
    clients = []
    for _ in range(nc):
        ops = []
        for _ in range(rng.randint(2, 7) if nc == 1 else rng.randint(2, 4)):
            k = rng.choice(["comp", "comp", "comp", "all", "all", "eig", "eig", "eig", "emb", "emb", "tv", "fill"])
            op = {"k": k, "c": rng.randrange(len(cx)), "via": rng.choice(["sc", "sc", "fn"])}
            if k in ("comp", "all", "emb"):
                op["flow"] = gen_flow(rng)
            if k in ("comp", "eig"):
                op["comp"] = rng.choice(COMP)
            if k == "comp":
                op["round"] = rng.choice([False, False, True, "default"])
                op["sig"] = rng.choice([0, 1, 2, 3, 5])
            if k == "eig":
                op["tol"] = rng.choice([None, 1e-3, 1e-3, 1e-6, 0.5, 1.7])
            if k == "fill":
                op["s"] = rng.randrange(2**30)
            if rng.random() < 0.3:
                op["fault"] = C.gen_fault(rng)
                if rng.random() < 0.5:
                    op["fault"].update(where="kernel", x=round(rng.random(), 4), exc=rng.choice(["LinAlgError", "MemoryError"]))
            if rng.random() < 0.3:
                op["scribble"] = [rng.choice(c07.SCRIBBLE), rng.choice([7.0, 0.0, float("nan")])]
            ops.append(op)
        clients.append({"ops": ops})
    return {"cx": cx, "clients": clients, "preempt": core.gen_preempt(rng, 60 * nc) if nc > 1 else [], "first": rng.randrange(3)}


def component(sc, mats, op, comp, flow, rnd, sig):
    kw = {} if rnd == "default" else {"round_fig": rnd, "round_sig_fig": sig}
    if op["via"] == "sc":
        if comp == "gradient" and op.get("round") == "default":
            return sc.get_component_flow(flow)
        return sc.get_component_flow(flow=flow, component=comp, **kw)
    import pytspl.decomposition.hodge_decomposition as H

    B1, B2 = mats
    if comp == "gradient":
        return H.get_gradient_flow(B1, flow, **kw)
    if comp == "curl":
        return H.get_curl_flow(B2, flow, **kw)
    return H.get_harmonic_flow(B1, B2, flow, **kw)


def thunk(op, sc, ref, env, own=None):
    """One call, with the caller's own arguments."""
    from scipy.sparse import csr_matrix
    import pytspl.decomposition.eigendecomposition as E

    mats = csr_matrix(ref.B1), csr_matrix(ref.B2)
    k = op["k"]
    if k in ("comp", "all", "emb"):
        f = flow_of(op["flow"], ref)
    if k == "comp":
        return lambda: component(sc, mats, op, op["comp"], f, op["round"], op["sig"])
    if k == "all":
        return lambda: [component(sc, mats, op, c, f, False, 2) for c in COMP]
    if k == "eig":
        t = () if op["tol"] is None else (op["tol"],)
        if op["via"] == "sc":
            return lambda: sc.get_component_eigenpair(op["comp"], *t)
        M = {"harmonic": ref.L1, "curl": ref.L1u, "gradient": ref.L1l}[op["comp"]].copy()
        fn = {"harmonic": E.get_harmonic_eigenpair, "curl": E.get_curl_eigenpair, "gradient": E.get_gradient_eigenpair}[op["comp"]]
        return lambda: fn(M, op["tol"] or 1e-3)
    if k == "emb":
        return lambda: sc.get_simplicial_embeddings(f)
    if k == "tv":
        if op["via"] == "sc":
            return lambda: sc.get_total_variance()
        M = ref.L0.copy()
        return lambda: E.get_total_variance(M)
    rng = core.rng_for("c08fill", op["s"])
    q = K.gen_op(rng, env.spec, ref, ["read", "filter", "dec", "gp"], bad_p=0.15)
    return K.prepare(q, env, own).fn


def near(a, b, scale, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or bool(np.all(np.abs(a - b) <= tol * max(scale, 1e-12))))


def judge(op, raw, ref):
    """None or what is wrong."""
    k = op["k"]
    try:
        if k in ("comp", "all"):
            f = flow_of(op["flow"], ref).astype(float)
            scale = max(1e-6, float(np.abs(f).max())) * len(f)
            tol = 1e-5 if op["flow"]["kind"] == "f32" else 1e-9
        if k == "comp":
            got = W.dense(raw)
            exp = ref.proj(op["comp"]) @ f
            if not op["round"]:
                return None if near(got, exp, scale, tol) else f"{op['comp']} component {W.brief(got)}, the projection is {W.brief(exp)}"
            sig = 2 if op["round"] == "default" else op["sig"]
            if got.shape != exp.shape or np.any(np.abs(got - exp) > 0.5 * 10.0**-sig * (1 + 1e-6) + tol * scale):
                return f"{op['comp']} component rounded to {sig}: {W.brief(got)}, the projection is {W.brief(exp)}"
            if not np.allclose(got, np.round(got, sig), rtol=1e-12 if tol < 1e-6 else 1e-6, atol=1e-12 * scale if tol < 1e-6 else 1e-6 * scale):
                return f"{op['comp']} component rounded to {sig} is not rounded: {W.brief(got)}"
            return None
        if k == "all":
            g, c, h = [W.dense(x) for x in raw]
            for x, n in ((g, "gradient"), (c, "curl"), (h, "harmonic")):
                if x.shape != f.shape:
                    return f"{n} component has shape {x.shape}"
            if not near(g + c + h, f, scale, tol):
                return f"the components add up to {W.brief(g + c + h)}, the flow is {W.brief(f)}"
            for x, y, n in ((g, c, "gradient and curl"), (g, h, "gradient and harmonic"), (c, h, "curl and harmonic")):
                if abs(float(x @ y)) > tol * scale * scale:
                    return f"the {n} components have inner product {float(x @ y)}"
            for M, x, n in ((ref.B2.T, g, "curl of the gradient"), (ref.B1, c, "divergence of the curl"), (ref.B1, h, "divergence of the harmonic"), (ref.B2.T, h, "curl of the harmonic")):
                y = M @ x
                if y.size and float(np.abs(y).max()) > tol * scale * 10:
                    return f"the {n} component is {W.brief(y)}"
            return None
        if k == "eig":
            M = {"harmonic": ref.L1, "curl": ref.L1u, "gradient": ref.L1l}[op["comp"]]
            U, w = W.dense(raw[0]), W.dense(raw[1])
            m = M.shape[0]
            if U.ndim != 2 or U.shape[0] != m or w.shape != (U.shape[1],):
                return f"eigenvectors of shape {U.shape} with {w.shape} eigenvalues"
            if not near(U.T @ U, np.eye(U.shape[1]), 1):
                return f"eigenvectors are not orthonormal: {W.brief(U.T @ U)}"
            if not near(M @ U, U * w, max(1.0, float(np.abs(M).max())), 1e-8):
                return f"vectors do not belong to their eigenvalues {W.brief(w)}: {W.brief(M @ U - U * w)}"
            tol = op["tol"] or 1e-3
            vals, cl = R.eig_clusters(M)
            if any(abs(v - tol) < 1e-6 for v in vals):
                return None
            keep = (lambda v: v <= tol) if op["comp"] == "harmonic" else (lambda v: v > tol)
            P = sum((p for v, p in cl if keep(v)), np.zeros_like(M))
            if not near(U @ U.T, P, 1, 1e-7):
                return f"{U.shape[1]} eigenvectors do not span the eigenspaces {'up to' if op['comp'] == 'harmonic' else 'above'} {tol} (dimension {round(float(np.trace(P)))})"
            if op["comp"] == "harmonic" or tol < 1e-2:
                low = min((v for v in vals if v > 1e-8), default=1.0)
                if tol < low and not near(U @ U.T, ref.proj(op["comp"]), 1, 1e-7):
                    return f"eigenvectors do not span the {op['comp']} subspace"
            return None
        if k == "emb":
            f = flow_of(op["flow"], ref).astype(float)
            scale = max(1e-6, float(f @ f))
            if len(raw) != 3:
                return f"embedding has {len(raw)} parts"
            for x, c, M in zip(raw, ("harmonic", "curl", "gradient"), (ref.L1, ref.L1u, ref.L1l)):
                x = W.dense(x)
                vals, cl = R.eig_clusters(M)
                if any(abs(v - 1e-3) < 1e-6 for v in vals):
                    continue
                cl = [(v, P) for v, P in cl if (v <= 1e-3) == (c == "harmonic")]
                dims = [round(float(np.trace(P))) for _, P in cl]
                if x.shape != (sum(dims),):
                    return f"{c} embedding has shape {x.shape}, the subspace has dimension {sum(dims)}"
                i = 0
                for (v, P), d in zip(cl, dims):
                    got, exp = float(np.sum(x[i:i + d] ** 2)), float(f @ P @ f)
                    i += d
                    if abs(got - exp) > (1e-5 if op["flow"]["kind"] == "f32" else 1e-8) * scale:
                        return f"{c} coordinates at eigenvalue {v:.6g} have squared length {got}, the flow's projection there {exp}"
            return None
        if k == "tv":
            x = W.dense(raw)
            exp = R._eigh(ref.L0)[0]
            return None if near(np.sort(x.ravel()), exp, max(1.0, float(exp[-1])), 1e-8) else f"total variance {W.brief(x)}, eigenvalues {W.brief(exp)}"
    except (W.Malformed, TypeError, ValueError, IndexError) as e:
        return f"malformed answer: {type(e).__name__}: {e}"
    return None


def prepare():
    with C.contextlib.redirect_stdout(C.Null()):
        for n in c07.SETS:
            c07.obtain({"kind": "load", "name": n})


def run(plan, ctx):
    C.silence()
    devices.install_disk(devices.SimDisk())
    scs, refs, envs, names = [], [], [], []
    for i, c in enumerate(plan["cx"]):
        if "name" in c:
            sc = c07.obtain({"kind": "load", "name": c["name"]})
            want = None
        else:
            sc = W.build(c["spec"])
            want = (c["spec"]["n"], c["spec"]["edges"], c["spec"]["tri"])
        ref, msg = c07.validate(sc, want, f"complex {i}")
        if msg:
            ctx.violate("not-a-complex", msg)
            return
        scs.append(sc)
        refs.append(ref)
        names.append(c.get("name", "spec"))
        envs.append(K.Env({"n": ref.n, "edges": [list(e) for e in ref.edges], "tri": [list(t) for t in ref.tri], "dist": [1.0] * len(ref.edges)}, sc))
    small = [3 <= len(r.edges) <= 60 for r in refs]
    memo = C.References(ctx)
    for c in plan["clients"]:
        for op in c["ops"]:
            if op["k"] == "fill" and not small[op["c"]]:
                op.update(k="comp", comp="curl", round=False, sig=2, flow={"s": 1, "kind": "any"})
            if op.get("fault"):
                i = op["c"]
                key = {k: v for k, v in op.items() if k not in ("fault", "scribble", "_exp")}
                op["_exp"] = memo.get(key, lambda: thunk(op, scs[i], refs[i], envs[i])(), None)
    flags = {"n": False}

    def client(w):
        for j, op in enumerate(plan["clients"][w]["ops"]):
            i = op["c"]
            what = {k: v for k, v in op.items() if k not in ("fault", "scribble", "_exp", "c")}
            label = f"caller {w} call {j} {what} on complex {i} ({names[i]})"
            try:
                fn = thunk(op, scs[i], refs[i], envs[i], w)
            except Exception as e:
                ctx.event(w, j, "unprepared", type(e).__name__)
                continue
            args = C.crash_point(op["fault"], op["_exp"]) if op.get("fault") else {}
            try:
                out = C.execute(fn, None, label=label, **args)
            except core.StepBudget:
                ctx.violate("no-progress", label)
                return
            C.count_fired(ctx, out)
            ctx.event(w, j, op["k"], op.get("comp"), out.ok, type(out.exc).__name__ if out.exc is not None else "", out.fired)
            ctx.cov(op["k"], op.get("comp"), op["via"], len(refs[i].edges), out.ok, str(out.fired))
            if not out.ok:
                flags["n"] = True
                if op["k"] == "fill" or out.fired:
                    continue
                ctx.violate("raises", f"{label}: {out.brief()}")
                return
            if op["k"] == "fill":
                continue
            msg = judge(op, out.raw, refs[i])
            if msg:
                how = f" although {out.fired} failed in it" if out.fired else ""
                ctx.violate("other-numbers" if out.fired else "not-the-decomposition", f"{label} returned{how}: {msg}")
                return
            if op.get("scribble"):
                if c07.scribble(out.raw, op["scribble"]):
                    ctx.count("fault:result_overwritten")

    sched = core.Scheduler(ctx, [client] * len(plan["clients"]), plan["preempt"], plan["first"])
    sched.run()
    ctx.nontrivial = flags["n"] or sched.switches > 0
    ctx.sample = {"complexes": [[n, len(r.edges), len(r.tri)] for n, r in zip(names, refs)], "switches": sched.switches,
                  "callers": [[f"{op['k']}:{op.get('comp', '')}" + ("!" if op.get("fault") else "") for op in c["ops"]] for c in plan["clients"]]}
    if ctx.violations:
        return
    for i, (sc, ref) in enumerate(zip(scs, refs)):
        for op in [{"k": "all", "via": "sc", "flow": {"s": 5, "kind": "any"}}, {"k": "emb", "via": "sc", "flow": {"s": 6, "kind": "any"}}] + [{"k": "eig", "via": "sc", "comp": c, "tol": None} for c in COMP]:
            out = C.execute(thunk(op, sc, ref, envs[i]), None)
            msg = judge(op, out.raw, ref) if out.ok else out.brief()
            if msg:
                ctx.violate("later-call-wrong", f"complex {i} ({names[i]}) after the calls, {op}: {msg}")
                return
