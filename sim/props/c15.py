"""C15: Gaussian-process covariances agree with the trained model."""
import numpy as np

from .. import client as C
from .. import core, gp as G, world as W
from .c14 import Caller, fmt

PROPERTY = "C15"
RUNS = {"quick": 3000, "thorough": 20000}
PARAMS = {
    "matern": ["mu", "mu_down", "mu_up", "kappa", "kappa_down", "kappa_up", "h", "h_down", "h_up"],
    "matern_non_hc": ["mu", "mu_down", "mu_up", "kappa", "kappa_down", "kappa_up", "h", "h_down", "h_up"],
    "diffusion": ["kappa_down", "kappa_up", "h", "h_down", "h_up"],
    "diffusion_non_hc": ["kappa_down", "kappa_up", "h", "h_down", "h_up"],
    "laplacian": ["mu", "kappa_down", "kappa_up"],
}
RULE = (
    "1-2 callers, each with up to three models of its own (every kernel) over one or two complexes, make 4-9 calls: trainings (some interrupted at a line or in an "
    "optimizer step), predictions, hyperparameter assignments, covariance queries for chosen selections, orders and repetitions of edges (dense, cross, diagonal, column "
    "inputs, lazily indexed, scaled), interrupted queries, the covariance over all edges, reported parameters, invalid names. Oracle: the full covariance of a new kernel with "
    "the same current parameters in a pristine process. Non-trivial: a fault fired, a query after a training or an assignment, or a context switch inside library code."
)
REAL = ["pytspl.hogde_gp, simplicial_complex; gpytorch, torch (CPU)"]
STUB = ["thread scheduling (parked real threads, seeded)", "the caller's optimizer: torch's, may be made to fail at a step"]
ASSUME = ["covariances are compared to 2e-5 of the largest entry (float32)"]
FORMS = ["dense", "dense", "cross", "cross", "diag", "pairs", "lazydiag", "column", "index", "scaled", "self"]


def gen(rng, tier, idx):
    spec = W.gen_complex(rng, nmin=4, nmax=7, min_edges=5, max_edges=12)
    m = len(spec["edges"])
    nc = rng.choice([1, 1, 2])
    clients = []
    usable = [r for r in (0.5, 0.6, 0.7, 0.8) if int(r * m) >= 2 and m - int(r * m) >= 2]
    for ci in range(nc):
        slots = [{"kernel": rng.choice(["matern", "matern"] + G.KERNELS), "mean": rng.choice([None, "zero"])} for _ in range(3)]
        ops = [{"k": "split", "ratio": rng.choice(usable), "norm": rng.random() < 0.5, "seed": rng.randrange(100)}]

        def sel():
            w = rng.random()
            if w < 0.2:
                return list(range(m))
            if w < 0.35:
                return sorted(range(m), key=lambda _: rng.random())
            if w < 0.5:
                return [rng.randrange(m)]
            return [rng.randrange(m) for _ in range(rng.randint(1, m + 2))]

        for _ in range(rng.randint(4, 9) if nc == 1 else rng.randint(3, 6)):
            w = rng.random()
            s = rng.randrange(3)
            if w < 0.16:
                op = {"k": "train", "slot": s, "iters": rng.randint(1, 3), "lr": rng.choice([0.05, 0.1, 0.3]), "opt": "Adam"}
                v = rng.random()
                if v < 0.25:
                    op["fail"] = {"where": "frac", "x": round(rng.random(), 4), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])}
                elif v < 0.35:
                    op["step"] = rng.randint(1, op["iters"])
            elif w < 0.22:
                op = {"k": "predict", "slot": s}
            elif w < 0.36:
                op = {"k": "set", "slot": s, "name": rng.choice(PARAMS[slots[s]["kernel"]]), "v": rng.choice([0.01, 0.3, 0.7, 1.3, 2.5, 6.0]), "as": rng.choice(["float", "tensor", "init"])}
            elif w < 0.46:
                op = {"k": "cov"}
            elif w < 0.54:
                op = {"k": "params"}
            elif w < 0.6:
                op = {"k": "names", "kernel": rng.choice(["matern", "Matern", "", "laplacian_non_hc", "rbf", "diffusion "]), "data": rng.choice(["forex", "forex", "Forex", "water", ""])}
            else:
                op = {"k": "query", "slot": s, "form": rng.choice(FORMS), "a": sel(), "b": sel()}
                if op["form"] == "pairs":  # as many of one as of the other
                    op["b"] = [(op["b"] * (m + 2))[i] for i in range(len(op["a"]))]
                if rng.random() < 0.12:
                    op["fail"] = {"where": "frac", "x": round(rng.random(), 4), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])}
            ops.append(op)
        clients.append({"ops": ops, "slots": slots, "y": W.gen_flow(rng, m), "own": rng.random() < 0.5})
    other = W.same_shape(rng, spec)
    return {"spec": spec, "other": other, "clients": clients, "preempt": core.gen_preempt(rng, 900) if nc > 1 else [], "first": rng.randrange(2)}


def full(spec, name, state):
    """Full scaled covariance of a new kernel with these parameters, elsewhere."""
    import gpytorch
    import torch
    from gpytorch.constraints import Positive
    from pytspl.hogde_gp import HodgeGPTrainer

    C.silence()
    sc = W.build(spec)
    k = gpytorch.kernels.ScaleKernel(G.kernel(HodgeGPTrainer(sc=sc, y=np.zeros(len(spec["edges"]))).get_eigenpairs(), name), outputscale_constraint=Positive())
    k.load_state_dict({n: torch.tensor(v) for n, v in state.items()})
    x = torch.arange(len(spec["edges"]), dtype=torch.float32)
    with torch.no_grad():
        K = G.num(k(x, x).to_dense()).astype(float)
        return K, float(k.outputscale)


def reference(ctx, memo, spec, name, state):
    key = (id(spec), name, tuple((n, v.tobytes()) for n, v in sorted(state.items())))
    if key not in memo:
        memo[key] = core.pristine(lambda: full(spec, name, state))
        ctx.count("reference_executions")
    return memo[key]


def covar_state(model):
    return {n: v.detach().numpy().copy() for n, v in model.covar_module.state_dict().items()}


def query(model, op):
    import torch

    k = model.covar_module.base_kernel
    a, b = torch.tensor(op["a"], dtype=torch.float32), torch.tensor(op["b"], dtype=torch.float32)
    with torch.no_grad():
        if op["form"] == "dense":
            return k(a, a).to_dense()
        if op["form"] == "self":
            return k(a).to_dense()
        if op["form"] == "cross":
            return k(a, b).to_dense()
        if op["form"] == "diag":
            return k(a, a, diag=True)
        if op["form"] == "pairs":
            return k(a, b, diag=True)
        if op["form"] == "lazydiag":
            return k(a).diagonal()
        if op["form"] == "column":
            return k(a.unsqueeze(-1), b.unsqueeze(-1)).to_dense()
        if op["form"] == "index":
            h = max(1, len(op["a"]) // 2)
            return k(a, b)[:h, :].to_dense()
        if op["form"] == "scaled":
            return model.covar_module(a, b).to_dense()


def expected(K, scale, op):
    a, b = op["a"], op["b"]
    if op["form"] == "scaled":
        return K[np.ix_(a, b)]
    K = K / scale
    if op["form"] in ("dense", "self"):
        return K[np.ix_(a, a)]
    if op["form"] in ("diag", "lazydiag"):
        return np.diag(K)[a]
    if op["form"] == "pairs":
        return K[a, b]
    if op["form"] == "index":
        return K[np.ix_(a[: max(1, len(a) // 2)], b)]
    return K[np.ix_(a, b)]


def near(got, exp, K):
    if got.shape != exp.shape:
        return False
    tol = 2e-5 * max(1e-6, float(np.max(np.abs(K))))
    return bool(np.all(np.abs(got - exp) <= tol))


def constrained(kernel, name):
    return float(getattr(kernel, f"raw_{name}_constraint").transform(getattr(kernel, f"raw_{name}")).detach())


def run(plan, ctx):
    C.silence()
    import torch
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    n = len(plan["clients"])
    sc = W.build(plan["spec"])
    own = [W.build(plan["other"]) if c["own"] else sc for c in plan["clients"]]
    specs = [plan["other"] if c["own"] else plan["spec"] for c in plan["clients"]]
    memo = {}
    flags = {"n": False}
    results = []  # checked once the schedule is over: reference processes need a quiet process

    def client(i):
        c = plan["clients"][i]
        caller = Caller(own[i], c)
        for j, op in enumerate(c["ops"]):
            label = f"caller {i} call {j} {op}"
            if op["k"] == "names":
                eig = caller.tr.get_eigenpairs()
                good = op["kernel"] == "matern" and op["data"] == "forex"
                out = C.execute(lambda: KernelSerializer().serialize(eigenpairs=eig, kernel_type=op["kernel"], data_name=op["data"]), None)
                ctx.event(i, j, "names", out.ok, type(out.exc).__name__)
                if out.ok != good or (not out.ok and not isinstance(out.exc, ValueError)):
                    ctx.violate("invalid-name", f"{label}: {'accepted' if out.ok else f'raised {type(out.exc).__name__}: {out.exc}'}")
                    return
                continue
            if op["k"] == "split":
                out = C.execute(lambda: caller.call(op), None)
                if not out.ok:
                    ctx.violate("call-fails", f"{label}: {out.exc!r}")
                    return
                caller.data = out.raw
                continue
            if "slot" in op:
                model = caller.model(op["slot"])[0]
                kern = model.covar_module.base_kernel
                name = c["slots"][op["slot"]]["kernel"]
            args = {}
            if op["k"] == "set":
                before = {p: constrained(kern, p) for p in PARAMS[name]}

                def assign():
                    if op["as"] == "init":
                        kern.initialize(**{op["name"]: op["v"]})
                    else:
                        setattr(kern, op["name"], op["v"] if op["as"] == "float" else torch.tensor([[op["v"]]]))

                out = C.execute(assign, None)
                ctx.event(i, j, "set", out.ok)
                if not out.ok:
                    ctx.violate("call-fails", f"{label}: {out.exc!r}")
                    return
                after = {p: constrained(kern, p) for p in PARAMS[name]}
                want = dict(before, **{op["name"]: op["v"]})
                shown = {p: float(getattr(kern, p).detach()) for p in PARAMS[name]}
                if any(abs(after[p] - want[p]) > 1e-3 * (1 + abs(want[p])) or abs(shown[p] - want[p]) > 1e-3 * (1 + abs(want[p])) for p in want):
                    ctx.violate("wrong-parameter", f"{label}: parameters are {after}, shown {shown}; expected {want}")
                    return
                flags["n"] = True
                continue
            if op["k"] == "query":
                st = covar_state(model)
                if op.get("fail"):
                    # length of this query on a copy of the kernel
                    r = C.execute(lambda: query(model, op), None)
                    args = C.crash_point(op["fail"], r)
                out = C.execute(lambda: query(model, op), None, **args)
                C.count_fired(ctx, out)
                got = None if not out.ok else G.num(out.raw).astype(float)
                ctx.event(i, j, "query", op["form"], out.ok, out.fired, None if got is None else np.round(got, 3).tolist())
                ctx.cov("query", op["form"], name, len(op["a"]), len(op["b"]), out.fired)
                if not out.ok:
                    flags["n"] = True
                    if not out.fired:
                        ctx.violate("call-fails", f"{label} {name}: raised {out.exc!r}")
                        return
                    continue
                results.append((label + " " + name, specs[i], name, st, op, got))
                continue
            if op["k"] in ("cov", "params"):
                cur = caller.current()
                if cur is None or cur == "unknown":
                    continue  # before training: C14
                model = caller.models[cur][0]
                name = c["slots"][cur]["kernel"]
                st = covar_state(model)
                out = C.execute(lambda: caller.call(op), None)
                ctx.event(i, j, op["k"], out.ok)
                ctx.cov(op["k"], name, out.ok)
                flags["n"] = True
                if not name.startswith("matern"):
                    continue
                if not out.ok:
                    ctx.violate("call-fails", f"{label} {name}: raised {out.exc!r}")
                    return
                if op["k"] == "params":
                    kern = model.covar_module.base_kernel
                    want = {"raw_" + p: constrained(kern, p) for p in PARAMS[name]}
                    want["raw_outputscale"] = float(model.covar_module.raw_outputscale_constraint.transform(model.covar_module.raw_outputscale).detach())
                    want["raw_noise"] = float(caller.models[cur][1].noise.detach())
                    got = out.raw
                    if set(got) != set(want) or any(abs(float(got[p]) - want[p]) > 1e-4 * (1 + abs(want[p])) for p in want):
                        ctx.violate("wrong-parameter", f"{label} {name}: reported {got}; the model's are {want}")
                        return
                else:
                    try:
                        K, var = out.raw
                        K, var = G.num(K).astype(float), G.num(var).astype(float)
                    except Exception as e:
                        ctx.violate("wrong-covariance", f"{label} {name}: {e!r}")
                        return
                    results.append((label + " " + name, specs[i], name, st, op, (K, var)))
                continue
            # train, predict
            if op.get("fail"):
                args = {"crash_at": 1 + int(op["fail"]["x"] * 40 * op["iters"]), "exc": op["fail"]["exc"]}
            out = C.execute(lambda: caller.call(op), None, **args)
            C.count_fired(ctx, out)
            if "step" in op and not out.ok:
                ctx.count("fault:optimizer_step")
            ctx.event(i, j, op["k"], out.ok, out.fired)
            ctx.cov(op["k"], out.ok, out.fired)
            flags["n"] = True

    sched = core.Scheduler(ctx, [client] * n, plan["preempt"], plan["first"])
    sched.run()
    for label, spec, name, st, op, got in results:
        K, scale = reference(ctx, memo, spec, name, st)
        if op["k"] == "query":
            exp = expected(K, scale, op)
            if not near(got, exp, K if op["form"] == "scaled" else K / scale):
                ctx.violate("wrong-covariance", f"{label}: got {W.brief(got)}; full covariance says {W.brief(exp)}")
                return
        else:
            if not near(got[0], K, K) or not np.allclose(got[0], got[0].T, atol=1e-3 * np.max(np.abs(K))):
                ctx.violate("wrong-covariance", f"{label}: built {W.brief(got[0])}; the model's kernel gives {W.brief(K)}")
                return
            v = got[1]
            d = np.diag(K)
            flat = np.max(d) - np.min(d) <= 2e-8 + 1e-3 * np.max(np.abs(d))
            if not (near(v, d, K) or (flat and v.shape == () and abs(v) < 1e-9)):
                ctx.violate("wrong-covariance", f"{label}: variance {W.brief(v)}; diagonal {W.brief(d)}")
                return
    ctx.nontrivial = sched.switches > 0 or flags["n"]
    ctx.sample = {"callers": [[op["k"] + (":" + op["form"] if op["k"] == "query" else "") + ("!" if op.get("fail") or "step" in op else "") for op in c["ops"]] for c in plan["clients"]],
                  "kernels": [[s["kernel"] for s in c["slots"]] for c in plan["clients"]], "edges": len(plan["spec"]["edges"]), "switches": sched.switches}


def shrink(plan):
    return []
