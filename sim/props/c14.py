"""C14: a Gaussian-process trainer exposes only completed, reproducible work."""
import numpy as np

from .. import client as C
from .. import core, gp as G, ref as R, world as W

PROPERTY = "C14"
RUNS = {"quick": 1400, "thorough": 20000}
RULE = (
    "1-2 callers with their own trainers on one complex make 3-7 calls: splits (seeded ratio, seed, normalisation), trainings of up to three models (1-4 "
    "iterations, all kernels, zero or constant mean, Adam or SGD), predictions, parameter and covariance queries; trainings fail at a chosen line, in a chosen optimizer step "
    "or by invalid inputs; torch's and NumPy's global streams change in between; two callers interleave. Oracle: the caller's trainings and splits alone in "
    "a pristine process (queries made in a copy of it), the definition of a split, the exact posterior. Non-trivial: a training failed, a query "
    "before a training, a training after a prediction, or a context switch inside library code. Distinct: different event log."
)
REAL = ["pytspl.hogde_gp, simplicial_complex; gpytorch, torch (CPU), scikit-learn split"]
STUB = ["thread scheduling (parked real threads, seeded)", "the caller's optimizer: torch's, may be made to fail at a step"]
ASSUME = ["training and prediction are compared to 1e-3 relative (float32)"]


def gen(rng, tier, idx):
    spec = W.gen_complex(rng, nmin=4, nmax=7, min_edges=5, max_edges=12)
    m = len(spec["edges"])
    nc = rng.choice([1, 1, 2])
    clients = []
    for _ in range(nc):
        # gpytorch needs two training edges, scikit-learn's score two test edges
        usable = [r for r in (0.5, 0.6, 0.7, 0.8) if int(r * m) >= 2 and m - int(r * m) >= 2]
        ops = [{"k": "split", "ratio": rng.choice(usable), "norm": rng.random() < 0.5, "seed": rng.choice([0, 4, 7, rng.randrange(1000)])}]
        if rng.random() < 0.25:
            ops.insert(0, {"k": rng.choice(["params", "cov"])})
        for _ in range(rng.randint(2, 6) if nc == 1 else rng.randint(2, 4)):
            w = rng.random()
            if w < 0.42:
                op = {"k": "train", "slot": rng.randrange(3), "iters": rng.randint(1, 4), "lr": rng.choice([0.05, 0.1, 0.3]), "opt": rng.choice(["Adam", "Adam", "SGD"])}
                v = rng.random()
                if v < 0.2:
                    op["fail"] = {"where": "frac", "x": round(rng.random(), 4), "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "RuntimeError"])}
                elif v < 0.3:
                    op["fail"] = {"where": "tail", "x": rng.randint(0, 6), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])}
                elif v < 0.4:
                    op["step"] = rng.randint(1, op["iters"])
                elif v < 0.48:
                    op["bad"] = rng.choice(["inputs", "targets", "optimizer"])
            elif w < 0.62:
                op = {"k": "predict", "slot": rng.randrange(3)}
                if rng.random() < 0.15:
                    op["fail"] = C.gen_fault(rng, kernels=False)
            elif w < 0.74:
                op = {"k": "params"}
            elif w < 0.84:
                op = {"k": "cov"}
            elif w < 0.94:
                op = {"k": "split", "ratio": rng.choice([0.5, 0.6, 0.7, 0.8, 0.34]), "norm": rng.random() < 0.5, "seed": rng.choice([0, 4, 7, rng.randrange(1000)]), "look": True}
            else:
                op = {"k": "draw", "x": rng.randrange(2**31)}
            ops.append(op)
        # which kernel and mean each model slot has
        slots = [{"kernel": rng.choice(["matern", "matern"] + G.KERNELS), "mean": rng.choice([None, "zero"])} for _ in range(3)]
        y, scale = W.gen_flow(rng, m), rng.choice([1] * 8 + [1e-3, 1e-6, 1e3])
        clients.append({"ops": ops, "slots": slots, "y": [v * scale for v in y] if scale != 1 else y})
    return {"spec": spec, "clients": clients, "preempt": core.gen_preempt(rng, 900) if nc > 1 else [], "first": rng.randrange(2)}


def failing(base, at):
    class Failing(base):
        count = 0

        def step(self, *a, **k):
            self.count += 1
            if self.count == at:
                raise RuntimeError("injected: optimizer step failed")
            return super().step(*a, **k)

    return Failing


class Caller:
    """One caller's trainer, data and models."""

    def __init__(self, sc, c):
        self.c = c
        self.y = np.array(c["y"], float)
        self.tr = G.trainer(sc, self.y)
        self.data = None
        self.models = {}
        self.trained = set()

    def model(self, slot):
        """The caller's model for a slot (made when first needed)."""
        import gpytorch
        from pytspl.hogde_gp import ExactGPModel

        if slot not in self.models:
            s = self.c["slots"][slot]
            xt, yt = self.data[0], self.data[1]
            lik = gpytorch.likelihoods.GaussianLikelihood()
            k = G.kernel(self.tr.get_eigenpairs(), s["kernel"])
            self.models[slot] = (ExactGPModel(xt, yt, lik, k, mean_function=s["mean"]), lik, self.data, s["kernel"])
        return self.models[slot]

    def call(self, op):
        import torch

        k = op["k"]
        if k == "split":
            return self.tr.train_test_split(train_ratio=op["ratio"], data_normalization=op["norm"], seed=op["seed"])
        if k == "params":
            return self.tr.get_model_parameters()
        if k == "cov":
            return self.tr.build_matern_kernel()
        model, lik, data, _ = self.models[op["slot"]]
        if k == "predict":
            return self.tr.predict(model, lik, data[2], data[3])
        opt = getattr(torch.optim, op["opt"])
        if "step" in op:
            opt = failing(opt, op["step"])
        xt, yt = data[0], data[1]
        if op.get("bad") == "inputs":
            xt = xt[:-1]
        elif op.get("bad") == "targets":
            yt = yt[:-1]
        elif op.get("bad") == "optimizer":
            def opt(params, lr):
                raise ValueError("injected: no optimizer")
        return self.tr.train(model, lik, xt, yt, training_iters=op["iters"], learning_rate=op["lr"], optimizer=opt)

    def state(self, slot):
        """The current parameters of a model."""
        model, lik, _, _ = self.models[slot]
        return {n: p.detach().numpy().copy() for n, p in sorted(model.named_parameters())}

    def current(self):
        """Which slot the trainer exposes."""
        m = self.tr.model if hasattr(self.tr, "model") else None
        if m is None:
            return None
        for s, v in self.models.items():
            if v[0] is m:
                return s
        return "unknown"


def norm(op, r):
    if op["k"] == "split":
        return [G.num(x) for x in r]
    if op["k"] == "predict":
        return [G.num(r.mean), G.num(r.variance)]
    if op["k"] == "params":
        return [tuple(sorted(r)), np.array([float(r[k]) for k in sorted(r)])]
    if op["k"] == "cov":
        return [W.dense(r[0]), W.dense(r[1])]
    return []


def perform(caller, op, args=None):
    if op["k"] in ("train", "predict"):
        caller.model(op["slot"])
    return C.execute(lambda: caller.call(op), lambda r: norm(op, r), sites=not args, **(args or {}))


def alone(plan, i, lines):
    """The caller's splits and trainings alone; queries in copies."""
    import torch

    C.silence()
    torch.manual_seed(12345)
    np.random.seed(54321)
    caller = Caller(W.build(plan["spec"]), plan["clients"][i])
    out = []
    for j, op in enumerate(plan["clients"][i]["ops"]):
        if op["k"] == "draw":
            out.append(None)
            continue
        # (predictions leave nothing behind: their reference is undisturbed)
        args = faults(op, lines[j] if lines and op["k"] == "train" else 0)

        def go():
            with core.Solo(core.Ctx({})):
                o = perform(caller, op, args)
            return pack(caller, op, o)

        if op["k"] in ("predict", "params", "cov"):
            if op["k"] == "predict":
                caller.model(op["slot"])
            out.append(core.pristine(go))
        else:
            with core.Solo(core.Ctx({})):
                o = perform(caller, op, args)
            if op["k"] == "split" and o.ok:
                if not op.get("look"):
                    caller.data = o.raw
            out.append(pack(caller, op, o))
    return out


def pack(caller, op, o):
    return {"ok": o.ok, "exc": type(o.exc).__name__ if o.exc is not None else None, "msg": str(o.exc)[:200], "value": o.value, "mal": o.malformed, "lines": [o.lines, o.sites],
            "state": caller.state(op["slot"]) if op["k"] == "train" else None, "current": caller.current()}


def faults(op, lines):
    if op.get("fail") and lines and lines[0]:
        r = C.Outcome()
        r.lines, r.sites = lines
        return C.crash_point(op["fail"], r)
    return {}


def close(a, b):
    return W.same(a, b, rtol=1e-3, atol=1e-4)


def posterior(caller, op, got):
    """Exact posterior from the model's own prior at its current parameters."""
    import torch

    model, lik, data, _ = caller.models[op["slot"]]
    with torch.no_grad():
        x = torch.cat([data[0], data[2]])
        K = G.num(model.covar_module(x, x).to_dense()).astype(float)
        mean = G.num(model.mean_module(x.unsqueeze(-1))).astype(float)
        noise = float(lik.noise)
    n = len(data[0])
    A = K[:n, :n] + noise * np.eye(n)
    S = np.linalg.solve(A, np.c_[(G.num(data[1]) - mean[:n])[:, None], K[:n, n:]])
    mu = mean[n:] + K[n:, :n] @ S[:, 0]
    var = np.diag(K[n:, n:]) - np.sum(K[:n, n:] * S[:, 1:], axis=0) + noise
    if np.linalg.cond(A) > 1e4:
        return None
    scale = 1 + float(np.max(np.abs(mu))) + float(np.max(np.abs(var)))
    if got[0].shape != mu.shape or np.any(np.abs(got[0] - mu) > 5e-3 * scale) or got[1].shape != var.shape or np.any(np.abs(got[1] - var) > 1e-2 * scale):
        return f"predicted mean {W.brief(got[0])} variance {W.brief(got[1])}; exact posterior {W.brief(mu)} {W.brief(var)}"
    return None


def run(plan, ctx):
    C.silence()
    import torch

    n = len(plan["clients"])
    exps = []
    for i in range(n):
        first = core.pristine(lambda: alone(plan, i, None))
        exps.append(core.pristine(lambda: alone(plan, i, [e and e["lines"] for e in first])))
        plan["clients"][i]["_lines"] = [e and e["lines"] for e in first]
        ctx.count("reference_executions", 2)
    sc = W.build(plan["spec"])
    snap = W.snapshot(sc)
    flags = {"n": False}
    redo = []  # trainings of models that existed before, judged at the end

    def client(i):
        c = plan["clients"][i]
        caller = Caller(sc, c)
        last = None  # slot and parameters of the last completed training
        predicted = False
        for j, op in enumerate(c["ops"]):
            exp = exps[i][j]
            if op["k"] == "draw":
                torch.manual_seed(op["x"])
                torch.rand(3)
                np.random.rand(2)
                continue
            args = faults(op, c["_lines"][j])
            before = caller.state(op["slot"]) if op["k"] == "train" and op["slot"] in caller.models else None
            label = f"caller {i} call {j} {({k: v for k, v in op.items()})}"
            try:
                out = perform(caller, op, args)
            except core.StepBudget:
                ctx.violate("no-progress", label)
                return
            C.count_fired(ctx, out)
            if "step" in op and not out.ok:
                ctx.count("fault:optimizer_step")
            if op.get("bad") and not out.ok:
                ctx.count("fault:invalid_argument")
            got = pack(caller, op, out)
            ctx.event(i, j, op["k"], out.ok, got["exc"], out.fired)
            ctx.cov(op["k"], out.fired, op.get("bad"), "step" in op, last is not None, predicted)
            if not out.ok or (op["k"] in ("params", "cov") and last is None) or (op["k"] == "train" and predicted):
                flags["n"] = True
            if op["k"] in ("params", "cov") and last is None:
                if out.ok or got["exc"] != "ValueError":
                    ctx.violate("exposed-before-training", f"{label}: no training completed, got {out.brief()}")
                    return
                continue
            if op["k"] == "train" and op.get("bad") in ("inputs", "targets") and out.ok:
                # accepted by gpytorch: not a failure of this library
                pass
            if op["k"] == "predict" and out.fired:
                predicted = True
                continue
            if (out.ok, got["exc"]) != (exp["ok"], exp["exc"]):
                ctx.violate("depends-on-more", f"{label}: {'completed' if out.ok else 'raised ' + str(out.exc)[:300]}; alone: {'completed' if exp['ok'] else 'raised ' + exp['exc'] + ': ' + exp['msg']}")
                return
            if op["k"] == "train":
                a, b = got["state"], exp["state"]
                if set(a) != set(b) or any(not np.allclose(a[k], b[k], rtol=1e-3, atol=1e-4, equal_nan=True) for k in a):
                    ctx.violate("depends-on-more", f"{label}: parameters afterwards {fmt(a)}, alone {fmt(b)}")
                    return
                done = out.ok or (bool(out.fired) and caller.current() == op["slot"] and exp["current"] == op["slot"] and last != op["slot"])
                if out.ok:
                    if before is not None and not op.get("bad") and len(redo) < 3:
                        d = caller.models[op["slot"]]
                        redo.append((label, i, op, [G.num(d[2][0]), G.num(d[2][1])], d[3], before, a))
                    last = op["slot"]
                    if caller.current() != last:
                        ctx.violate("wrong-model", f"{label}: after the training the trainer exposes {caller.current()}")
                        return
                elif caller.current() != last:
                    # an interruption after the very last step: the training had completed
                    whole = op.get("fail") and out.lines >= (c["_lines"][j] or [0])[0] - 1 and done
                    if not whole:
                        ctx.violate("failed-training-exposed", f"{label}: failed with {got['exc']} after {out.lines} of {(c['_lines'][j] or [0])[0]} lines, the trainer now exposes model {caller.current()}, last completed was {last}")
                        return
                    last = op["slot"]
                continue
            if not out.ok:
                if not out.fired and op["k"] in ("split", "predict"):
                    ctx.violate("call-fails", f"{label}: raised {got['exc']}: {out.exc}")
                    return
                if op["k"] == "predict":
                    predicted = True
                continue
            if out.malformed or exp["mal"] or not close(out.value, exp["value"]):
                ctx.violate("depends-on-more", f"{label}: got {out.brief()}; alone {W.brief(exp['value']) if exp['value'] else exp['mal']}")
                return
            if op["k"] == "split":
                msg = G.check_split({"ratio": op["ratio"], "norm": op["norm"]}, out.raw, caller.y)
                if msg:
                    ctx.violate("wrong-split", f"{label}: {msg}")
                    return
                if not op.get("look"):
                    caller.data = out.raw
            elif op["k"] == "predict":
                predicted = True
                msg = posterior(caller, op, out.value)
                if msg:
                    ctx.violate("wrong-prediction", f"{label}: {msg}")
                    return

    sched = core.Scheduler(ctx, [client] * n, plan["preempt"], plan["first"])
    sched.run()
    if W.snapshot(sc) != snap:
        ctx.violate("complex-changed", "the complex changed")
    for label, i, op, data, kernel, before, a in redo:
        if ctx.violations:
            break
        b = core.pristine(lambda: retrain(plan["spec"], plan["clients"][i], op, data, kernel, before))
        ctx.count("reference_executions")
        if any(not np.allclose(a[k], b[k], rtol=1e-3, atol=1e-4, equal_nan=True) for k in b):
            ctx.violate("depends-on-more", f"{label}: from {fmt(before)} to {fmt(a)}; a new trainer and model with these parameters: {fmt(b)}")
    ctx.nontrivial = sched.switches > 0 or flags["n"]
    ctx.sample = {"callers": [[op["k"] + ("!" if op.get("fail") or "step" in op or op.get("bad") else "") for op in c["ops"]] for c in plan["clients"]], "edges": len(plan["spec"]["edges"]), "switches": sched.switches}


def retrain(spec, c, op, data, kernel, before):
    """The same training of a new model with these parameters by a new trainer."""
    import gpytorch
    import torch
    from pytspl.hogde_gp import ExactGPModel

    C.silence()
    torch.manual_seed(777)
    tr = G.trainer(W.build(spec), np.array(c["y"], float))
    lik = gpytorch.likelihoods.GaussianLikelihood()
    xt, yt = torch.tensor(data[0]), torch.tensor(data[1])
    model = ExactGPModel(xt, yt, lik, G.kernel(tr.get_eigenpairs(), kernel), mean_function=c["slots"][op["slot"]]["mean"])
    with torch.no_grad():
        for n, p in model.named_parameters():
            p.copy_(torch.tensor(before[n]))
    tr.train(model, lik, xt, yt, training_iters=op["iters"], learning_rate=op["lr"], optimizer=getattr(torch.optim, op["opt"]))
    return {n: p.detach().numpy().copy() for n, p in sorted(model.named_parameters())}


def fmt(s):
    return {k: np.round(v, 5).ravel().tolist() for k, v in s.items()}


def shrink(plan):
    return []
