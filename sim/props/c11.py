"""C11: interpolation keeps every observed edge value."""
import numpy as np

from .. import client as C
from .. import core, filters as F, ref as R, trend as T, world as W
from .c10 import copied, equal, gen_ops

PROPERTY = "C11"
RUNS = {"quick": 1800, "thorough": 30000}
RULE = (
    "1-2 callers make 1-3 interpolation runs (both components, orders 0-4, 1-3 ratios including 1, 1-4 realisations) from a seeded state of NumPy's global "
    "stream, on one complex or on two at once; runs of two callers interleave; in some the solver or a kernel fails or ends without a solution, or the run is interrupted. The edges each "
    "realisation must observe are predicted from the stream (alone) or found from its values (interleaved); every realisation is checked for exactness on them and "
    "certified by a duality gap. Non-trivial: a fault fired, a context switch inside library code, or a realisation with unobserved edges. "
    "Distinct: different event log."
)
REAL = ["pytspl.filters.simplicial_trend_filter, simplicial_complex; numpy, cvxpy with its solvers"]
STUB = ["NumPy's global random stream: seeded and predicted", "numerical kernels and cvxpy.Problem.solve: real, may be made to fail or to end without a solution", "thread scheduling (seeded)"]
ASSUME = ["observed edges are drawn without replacement from NumPy's global stream, one draw per realisation", "every ratio observes at least one edge", "observed values are exact up to solver accuracy (1e-6 relative)"]


def gen_op(rng, ref, m, single):
    o = {"k": "tfi", "flow": 0, "comp": rng.choice(["divergence", "curl"]) if ref.tri else "divergence", "n": rng.randint(1, 4)}
    low = 1.0 / m
    pool = [r for r in (0.2, 0.3, 0.34, 0.5, 0.6, 0.75, 0.8, 0.9, 1.0, round((m - 1) / m + 0.001, 3), 1 / m + 1e-6) if r >= low and r <= 1]
    o["ratio"] = [rng.choice(pool) for _ in range(rng.choice([1, 2, 2, 3]))]
    if len(o["ratio"]) > 2:
        o["n"] = min(o["n"], 2)
    o["order"] = rng.choice([0, 0, 1, 2, 3, 4])
    o["reg"] = rng.choice([0.05, 0.1, 0.5, 2.0, None])
    op = {"o": o}
    if rng.random() < 0.3:
        f = C.gen_fault(rng)
        if rng.random() < 0.7:
            f = {"where": "kernel", "x": round(rng.random(), 4), "exc": rng.choice(["SolverError", "infeasible", "unbounded", "infeasible", "MemoryError"])}
        op["fault"] = f
    if single and rng.random() < 0.3:
        op["before"] = rng.choice([["seed", rng.randrange(2**31)], ["randn", rng.randint(1, 5)], ["permutation", rng.randint(1, 5)]])
    if rng.random() < 0.3:
        op["flow"] = flow(rng, m)
    return op


def flow(rng, m):
    """Values that identify their edge, sometimes with zeros on some edges."""
    f = W.gen_flow(rng, m)
    if rng.random() < 0.2:
        f[rng.randrange(m)] = 0.0
    if rng.random() < 0.15:  # other units
        s = rng.choice([0.01, 100.0])
        f = [v * s for v in f]
    return f


def gen(rng, tier, idx):
    spec = W.gen_complex(rng, nmin=3, nmax=7, max_edges=12)
    specs = [spec, W.same_shape(rng, spec)]
    m = len(spec["edges"])
    nc = rng.choice([1, 1, 1, 2])
    clients = [{"ops": gen_ops(rng, specs, nc == 1, gen_op)} for _ in range(nc)]
    return {"specs": specs, "flow": flow(rng, m), "clients": clients, "preempt": core.gen_preempt(rng, 300) if nc > 1 else [], "first": rng.randrange(2)}


def call(flt, o, f):
    kw = {} if o["reg"] is None else {"regularization": o["reg"]}
    return flt.interpolation_l1_regularizer(flow=f, component=o["comp"], ratio=np.array(o["ratio"]), num_realizations=o["n"], order=o["order"], **kw)


def count(o, r, m):
    return int(np.floor(m * r))


def judge(ref, o, f, hist, masks):
    """masks: predicted draws in order, or None (find them from the values)."""
    o = dict(o, reg=0.5 if o["reg"] is None else o["reg"])
    m = len(f)
    F.norm_record(o, hist)
    if any(hist[k] is None for k in hist if k != "filter"):
        return f"{o}: record has missing entries"
    msg = F.check_trend(ref, o, hist, f)
    if msg:
        return msg
    X = W.dense(hist["frequency_responses"])
    pos = 0
    for i, r in enumerate(o["ratio"]):
        k = count(o, r, m)
        for j in range(o["n"]):
            x = X[:, i, j]
            same = np.abs(x - f) <= 1e-6 * (1 + np.max(np.abs(f)))
            if int(same.sum()) < k:
                return f"{o}: ratio {r} realisation {j} reproduces only {int(same.sum())} of the {k} edges it observes: {W.brief(x)}, flow {W.brief(f)}"
            if masks is not None:
                cands = [masks[pos]]
            elif int(same.sum()) == k:
                cands = [same]
            else:
                cands = []  # some filled-in values coincide with the flow: not decidable from the values
            pos += 1
            why = None
            for mask in cands:
                why = T.check_interp(ref, o, f, mask, x)
                if why is None:
                    break
            if cands and why:
                return f"{o}: ratio {r} realisation {j} (observing edges {np.where(cands[0])[0].tolist()}): {why}"
    return None


def predict(stream, o, m):
    out = []
    for r in o["ratio"]:
        for _ in range(o["n"]):
            mask = np.zeros(m, bool)
            mask[stream.choice(m, count(o, r, m), replace=False)] = True
            out.append(mask)
    return out


def run(plan, ctx):
    C.silence()
    specs = plan["specs"]
    rfs = [R.Ref(s) for s in specs]
    m = len(rfs[0].edges)
    np.random.seed(plan["rs"])
    refs = C.References(ctx)
    for c in plan["clients"]:
        for op in c["ops"]:
            op["_f"] = W.as_flow(op.get("flow") or plan["flow"])
            if op.get("fault"):
                op["_exp"] = refs.get([op["o"], op["sc"], op["_f"].tolist()], lambda op=op: call(F.make("tf", W.build(specs[op["sc"]])), op["o"], op["_f"]), lambda r: None)
    scs = [W.build(s) for s in specs]
    concurrent = len(plan["clients"]) > 1
    todo = []

    def client(i):
        flts = [F.make("tf", sc) for sc in scs]
        for j, op in enumerate(plan["clients"][i]["ops"]):
            o, f = op["o"], op["_f"]
            flt, ref = flts[op["sc"]], rfs[op["sc"]]
            label = f"caller {i} run {j} {o} on complex {op['sc']}"
            b = op.get("before")
            if b:
                getattr(np.random, b[0])(b[1])
            masks = None if concurrent else predict(T.clone_stream(), o, m)
            kept = copied(flt.history)
            args = C.crash_point(op["fault"], op["_exp"]) if op.get("fault") else {}
            try:
                out = C.execute(lambda: call(flt, o, f), None, label=label, **args)
            except core.StepBudget:
                ctx.violate("no-progress", label)
                return
            C.count_fired(ctx, out)
            ctx.event(i, j, o["k"], out.ok, type(out.exc).__name__ if out.exc else None, out.fired)
            ctx.cov(o["comp"], o["order"], tuple(o["ratio"]), o["n"], out.fired)
            if out.fired:
                ctx.nontrivial = True
            if any(count(o, r, m) < m for r in o["ratio"]):
                ctx.nontrivial = True
            if out.ok and out.fired and str(out.fired).startswith(("solver:", "kernel:")):
                ctx.violate("failure-recorded", f"{label}: {out.fired} and the run still completed")
                return
            now = copied(flt.history)
            if not out.ok:
                if not out.fired and not out.gave_up:
                    ctx.violate("run-fails", f"{label}: raised {type(out.exc).__name__}: {out.exc}")
                    return
                if not F.empty(now) and not equal(now, kept):
                    todo.append((label, o, ref, f, now, masks, True))
                continue
            todo.append((label, o, ref, f, now, masks, False))

    sched = core.Scheduler(ctx, [client] * len(plan["clients"]), plan["preempt"], plan["first"])
    sched.run()
    ctx.nontrivial = ctx.nontrivial or sched.switches > 0
    for label, o, ref, f, hist, masks, faulted in todo:
        try:
            msg = judge(ref, o, f, hist, masks)
        except W.Malformed as e:
            msg = str(e)
        if msg:
            ctx.violate("failure-recorded" if faulted else "wrong-interpolation", f"{label}: {msg}")
            return
        ctx.count("certified_realisations", len(o["ratio"]) * o["n"])
    ctx.sample = {"runs": [[[op["o"]["comp"], op["o"]["order"], op["o"]["ratio"], op["o"]["n"], op.get("fault")] for op in c["ops"]] for c in plan["clients"]], "edges": m, "switches": sched.switches}
