"""C10: trend-filter denoising reconstructs each noisy realisation."""
import numpy as np

from .. import client as C
from .. import core, filters as F, ref as R, trend as T, world as W

PROPERTY = "C10"
RUNS = {"quick": 1600, "thorough": 30000}
RULE = (
    "1-2 callers make 1-4 denoising runs (l2 and l1, both components, orders 0-4, 1-3 noise levels, 1-4 realisations) from a seeded state of NumPy's global "
    "stream, each with its own filter, on one complex or on two at once; runs of two callers interleave; in some a kernel or the solver fails or ends without a solution, or the run is "
    "interrupted. The noise each realisation must carry is predicted from the stream; l2 realisations are inverted, l1 realisations must match an unused "
    "block of the stream with a duality-gap certificate. Non-trivial: a fault fired, a context switch inside library code, or an l1 realisation certified. "
    "Distinct: different event log."
)
REAL = ["pytspl.filters.simplicial_trend_filter, simplicial_complex; numpy, cvxpy with its solvers"]
STUB = ["NumPy's global random stream: seeded and predicted", "numerical kernels and cvxpy.Problem.solve: real, may be made to fail or to end without a solution", "thread scheduling (seeded)"]
ASSUME = ["noise is drawn edge by edge from NumPy's global stream, one block per realisation (in any order of levels and realisations)", "l1 optimality is certified to a relative duality gap of 2e-4"]


def flow(rng, m):
    f = W.gen_flow(rng, m)
    if rng.random() < 0.15:  # other units
        s = rng.choice([0.01, 100.0])
        f = [v * s for v in f]
    return f


def gen_op(rng, ref, m, single):
    k = rng.choice(["tf2", "tf2", "tf1"])
    o = {"k": k, "flow": 0, "comp": rng.choice(["divergence", "curl"]) if ref.tri else "divergence", "n": rng.randint(1, 4 if k == "tf2" else 2)}
    o["snr"] = rng.choice([[5.0], [-5.0, 0.0, 10.0], [20.0, 3.0], [-10.0], [0.0, -2.0], [30.0, 0.0]]) if k == "tf2" else rng.choice([[5.0], [0.0, 10.0], [-5.0], [-8.0, 3.0]])
    if k == "tf2":
        o["mu"] = rng.choice([0.0, 0.1, 0.5, 3.0, None])
    else:
        o["order"] = rng.choice([0, 0, 1, 2, 3, 4])
        o["reg"] = rng.choice([0.05, 0.1, 0.5, 2.0, None])
    op = {"o": o}
    if rng.random() < 0.3:
        f = C.gen_fault(rng)
        if k == "tf1" and rng.random() < 0.7:
            f = {"where": "kernel", "x": round(rng.random(), 4), "exc": rng.choice(["SolverError", "infeasible", "unbounded", "infeasible", "MemoryError"])}
        op["fault"] = f
    if single and rng.random() < 0.3:
        op["before"] = rng.choice([["seed", rng.randrange(2**31)], ["randn", rng.randint(1, 5)], ["rand", rng.randint(1, 5)]])
    if rng.random() < 0.3:
        op["flow"] = flow(rng, m)
    return op


def gen_ops(rng, specs, single, gen_op):
    """Runs of one caller, mostly on the first complex; sometimes the second asks the same as the first."""
    ops = []
    refs = [R.Ref(s) for s in specs]
    for _ in range(rng.randint(1, 3)):
        which = 0 if rng.random() < 0.75 else 1
        op = dict(gen_op(rng, refs[which], len(refs[which].edges), single), sc=which)
        if ops and rng.random() < 0.3:
            prev = ops[-1]["o"]
            if prev["comp"] == "divergence" or refs[which].tri:
                op["o"] = dict(prev)
        ops.append(op)
    return ops


def gen(rng, tier, idx):
    spec = W.gen_complex(rng, nmin=3, nmax=7, max_edges=12)
    specs = [spec, W.same_shape(rng, spec)]
    m = len(spec["edges"])
    nc = rng.choice([1, 1, 1, 2])
    clients = [{"ops": gen_ops(rng, specs, nc == 1, gen_op)} for _ in range(nc)]
    return {"specs": specs, "flow": flow(rng, m), "clients": clients, "preempt": core.gen_preempt(rng, 400) if nc > 1 else [], "first": rng.randrange(2), "gauss": rng.random() < 0.3}


def call(flt, o, f):
    kw = {}
    if o["k"] == "tf2":
        if o["mu"] is not None:
            kw["mu"] = o["mu"]
        return flt.denoising_l2_regularizer(flow=f, component=o["comp"], num_realizations=o["n"], snr_db=np.array(o["snr"]), **kw)
    if o["reg"] is not None:
        kw["regularization"] = o["reg"]
    return flt.denoising_l1_regularizer(flow=f, component=o["comp"], num_realizations=o["n"], snr_db=np.array(o["snr"]), order=o["order"], **kw)


def full(o):
    o = dict(o)
    for k in ("mu", "reg"):
        if k in o and o[k] is None:
            o[k] = 0.5
    return o


class Blocks:
    """The noise blocks the global stream holds from here on, and which
    realisation was matched with which (augmenting paths, natural order first)."""

    def __init__(self, stream, m, count):
        self.z = [stream.randn(m) for _ in range(count)]
        self.owner = [None] * count
        self.fits = []
        self.memo = {}
        self.next = 0

    def fit(self, item, b):
        if (item, b) not in self.memo:
            self.memo[(item, b)] = self.fits[item](self.z[b])
        return self.memo[(item, b)]

    def match(self, fits):
        """fits(z) -> None or why block z is not it.  None or a message."""
        self.fits.append(fits)
        item = len(self.fits) - 1
        n = len(self.z)
        order = list(range(self.next, n)) + list(range(self.next))
        # cheap pass: an unused block that fits
        for b in order:
            if self.owner[b] is None and self.fit(item, b) is None:
                self.owner[b] = item
                self.next = b + 1
                return None
        if self._augment(item, set()):
            return None
        why = [self.fit(item, b) for b in order if self.fit(item, b)]
        return why[0] if why else "no block of the random stream is left for it"

    def _augment(self, item, seen):
        for b in range(len(self.z)):
            if b in seen or self.fit(item, b) is not None:
                continue
            seen.add(b)
            if self.owner[b] is None or self._augment(self.owner[b], seen):
                self.owner[b] = item
                return True
        return False


def judge(ref, o, f, hist, blocks, ctx):
    o = full(o)
    m = len(f)
    F.norm_record(o, hist)
    if any(hist[k] is None for k in hist if k != "filter") or (o["k"] == "tf2" and hist["filter"] is None):
        return f"{o}: record has missing entries"
    msg = F.check_trend(ref, o, hist, f)
    if msg:
        return msg
    X = W.dense(hist["frequency_responses"])
    power = T.noise_levels(f, o["snr"], m)
    if o["k"] == "tf2":
        G = np.eye(m) + o["mu"] * ref.L1l
        H = W.dense(hist["filter"])
        if H.shape != (m, m) or not np.allclose(H @ G, np.eye(m), atol=1e-7):
            return f"{o}: stored filter is not (I + mu L1_lower)^-1"
    for i in range(len(power)):
        for j in range(o["n"]):
            x = X[:, i, j]

            def fits(z, x=x, i=i):
                y = f + power[i] * z
                if o["k"] == "tf2":
                    return None if np.allclose(G @ x, y, rtol=1e-6, atol=1e-7) else f"its noisy input {W.brief(G @ x)} is not the flow plus power {power[i]:.6g} times a fresh block of the random stream (next: {W.brief(y)})"
                msg = T.check_l1(ref, o, y, x)
                return f"{W.brief(x)} is not a reconstruction of any fresh noisy flow: with the next block, {msg}" if msg else None

            msg = blocks.match(fits)
            if msg:
                return f"{o}: level {i} realisation {j}: {msg}"
            if o["k"] == "tf1":
                ctx.nontrivial = True
                ctx.count("certified_realisations")
    return None


def copied(hist):
    """The record as it is now (whether later runs change it is C04)."""
    return {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in hist.items()} if isinstance(hist, dict) else hist


def equal(a, b):
    return a.keys() == b.keys() and all(x is b[k] or (isinstance(x, np.ndarray) and isinstance(b[k], np.ndarray) and np.array_equal(x, b[k], equal_nan=True)) for k, x in a.items())


def run(plan, ctx):
    C.silence()
    specs = plan["specs"]
    rfs = [R.Ref(s) for s in specs]
    m = len(rfs[0].edges)
    np.random.seed(plan["rs"])
    if plan["gauss"]:
        np.random.randn()
    refs = C.References(ctx)
    for c in plan["clients"]:
        for op in c["ops"]:
            op["_f"] = W.as_flow(op.get("flow") or plan["flow"])
            if op.get("fault"):
                op["_exp"] = refs.get([op["o"], op["sc"], op["_f"].tolist()], lambda op=op: call(F.make("tf", W.build(specs[op["sc"]])), op["o"], op["_f"]), lambda r: None)
    scs = [W.build(s) for s in specs]
    concurrent = len(plan["clients"]) > 1
    shared = {"blocks": None}
    if concurrent:
        total = sum(len(op["o"]["snr"]) * op["o"]["n"] for c in plan["clients"] for op in c["ops"])
        shared["blocks"] = Blocks(T.clone_stream(), m, total)
    todo = []

    def client(i):
        flts = [F.make("tf", sc) for sc in scs]
        for j, op in enumerate(plan["clients"][i]["ops"]):
            o = op["o"]
            f = op["_f"]
            flt, ref = flts[op["sc"]], rfs[op["sc"]]
            label = f"caller {i} run {j} {o} on complex {op['sc']}"
            b = op.get("before")
            if b:
                getattr(np.random, b[0])(b[1])
            blocks = shared["blocks"] or Blocks(T.clone_stream(), m, len(o["snr"]) * o["n"])
            kept = copied(flt.history)
            args = C.crash_point(op["fault"], op["_exp"]) if op.get("fault") else {}
            try:
                out = C.execute(lambda: call(flt, o, f), None, label=label, **args)
            except core.StepBudget:
                ctx.violate("no-progress", label)
                return
            C.count_fired(ctx, out)
            ctx.event(i, j, o["k"], out.ok, type(out.exc).__name__ if out.exc else None, out.fired)
            ctx.cov(o["k"], o["comp"], o.get("order"), len(o["snr"]), o["n"], out.fired)
            if out.fired:
                ctx.nontrivial = True
            if out.ok and out.fired and str(out.fired).startswith(("solver:", "kernel:")):
                ctx.violate("failure-recorded", f"{label}: {out.fired} and the run still completed")
                return
            if not out.ok:
                if not out.fired and not out.gave_up:
                    ctx.violate("run-fails", f"{label}: raised {type(out.exc).__name__}: {out.exc}")
                    return
                now = copied(flt.history)
                if not F.empty(now) and not equal(now, kept):
                    # an interruption after the last step may leave the finished record
                    todo.append((label, o, ref, f, now, blocks, True, kept))
                continue
            todo.append((label, o, ref, f, copied(flt.history), blocks, False, None))

    sched = core.Scheduler(ctx, [client] * len(plan["clients"]), plan["preempt"], plan["first"])
    sched.run()
    ctx.nontrivial = ctx.nontrivial or sched.switches > 0
    # sharp realisations first: they identify their block beyond doubt
    todo.sort(key=lambda t: t[1]["k"] != "tf2")
    for label, o, ref, f, hist, blocks, faulted, kept in todo:
        try:
            msg = judge(ref, o, f, hist, blocks, ctx)
        except W.Malformed as e:
            msg = str(e)
        if msg:
            ctx.violate("failure-recorded" if faulted else "wrong-reconstruction", f"{label}: {msg}")
            return
    ctx.sample = {"runs": [[[op["o"]["k"], op["o"]["comp"], op["o"].get("order"), op["o"]["snr"], op["o"]["n"], op.get("fault")] for op in c["ops"]] for c in plan["clients"]], "edges": m, "switches": sched.switches}
