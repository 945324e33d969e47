"""C03: a failed or interrupted filter run never leaves a mixed record."""
import numpy as np

from .. import client as C
from .. import core, filters as F, ref as R, world as W

PROPERTY = "C03"
RUNS = {"quick": 2600, "thorough": 40000}
RULE = (
    "1-4 runs on one filter object of a seeded class (all five classes, all run methods), some of them failing: an exception at a chosen library "
    "line (biased to the last lines), a numerical kernel or the convex solver failing, or an invalid argument; then the last run is repeated without "
    "fault. After every run the record is compared with what a pristine process records. Non-trivial: at least one fault fired inside a run. "
    "Distinct: different event log."
)
REAL = ["pytspl.filters, simplicial_complex, decomposition; numpy, scipy, cvxpy solvers"]
STUB = ["numerical kernels and cvxpy.Problem.solve: real, may be made to fail or to end without a solution"]
ASSUME = ["interruptions land at library source lines outside exception-handling code"]


def gen_bad(rng, o):
    """An argument that makes the run fail by itself."""
    o = dict(o)
    if "comp" in o and rng.random() < 0.5:
        o["comp"] = "wrong"
    elif "p" in o and rng.random() < 0.7:
        o["p"] = "L9"
    else:
        o["short"] = True
    return o


def fault_for(rng, o):
    f = C.gen_fault(rng)
    if f["where"] == "kernel" and o["k"] in ("tf1", "tfi"):
        f["exc"] = rng.choice(["SolverError", "infeasible", "unbounded", "MemoryError"])
    if o["k"] in F.TREND and rng.random() < 0.3:
        f = {"where": "frac", "x": round(0.8 + 0.2 * rng.random(), 4), "exc": "MemoryError"}
    return f


def gen(rng, tier, idx):
    spec = W.gen_complex(rng, nmin=3, nmax=7, max_edges=12)
    ref = R.Ref(spec)
    flows = [W.gen_flow(rng, len(ref.edges)) for _ in range(2)]
    while True:
        plan = _gen(rng, spec, ref, flows)
        if plan["ops"]:
            return plan


def _gen(rng, spec, ref, flows):
    cls = rng.choice(["ls", "ls", "gr", "gr", "ef", "ch", "tf"])
    kinds = [k for k in F.KINDS + F.TREND if F.cls_of({"k": k}) == cls]
    ops = []
    n = rng.randint(1, 3 if cls == "tf" else 4)
    for i in range(n):
        o = F.gen_filter(rng, spec, ref, flows, kinds)
        if F.cls_of(o) != cls:
            continue
        op = {"o": o}
        w = rng.random()
        if i == n - 1 or w < 0.5:
            op["fault"] = fault_for(rng, o)
        elif w < 0.65:
            op["o"] = gen_bad(rng, o)
        ops.append(op)
    return {"spec": spec, "flows": flows, "cls": cls, "ops": ops, "fine": rng.random() < 0.1}


def call(flt, o, flows):
    if o.get("short"):
        flows = [f[:-1] for f in flows]
    if "rs" in o:
        np.random.seed(o["rs"])
    return F.call(flt, o, flows)


def run(plan, ctx):
    C.silence()
    spec, flows = plan["spec"], [W.as_flow(f) for f in plan["flows"]]
    cls = plan["cls"]
    refs = C.References(ctx)

    def expected(o):
        def go():
            flt = F.make(cls, W.build(spec))
            res = call(flt, o, flows)
            return flt.history, res

        return refs.get(o, go, lambda r: F.norm_record(o, r[0], r[1]))

    sc = W.build(spec)
    flt = F.make(cls, sc)
    if plan["fine"]:
        core.set_grain(True)
    complete = []  # (description, normal form without results) of completed runs
    ctx.require(F.empty(flt.history), "not-empty-at-start", lambda: f"new {cls} filter has record {flt.history}")

    def note(o):
        """Records this run may leave when it ends early: its completed stages
        and itself."""
        exp = expected(o)
        if exp.ok:
            complete.append((f"{o}", o, exp.value[:10] if o["k"] in ("lsg", "grg") else exp.value))
        for st in F.stages(o):
            e = expected(st)
            if e.ok:
                complete.append((f"stage {st}", st, e.value))
        return exp

    def attempt(o, fault, label):
        exp = note(o)
        with core.Solo(ctx):
            try:
                out = C.execute(lambda: call(flt, o, flows), None, label=label, **C.crash_point(fault, exp))
            except core.StepBudget:
                ctx.violate("no-progress", label)
                raise core.Stop()
        C.count_fired(ctx, out)
        ctx.event(o["k"], out.ok, type(out.exc).__name__ if out.exc else None, out.fired, out.lines)
        if fault:
            ctx.cov(o["k"], out.fired, out.lines)
        if out.fired:
            ctx.nontrivial = True
        elif not exp.ok:
            ctx.nontrivial = True
            ctx.count("fault:invalid_argument")
        hist = flt.history
        if out.ok:
            if not exp.ok:
                ctx.violate("no-error", f"{label}: succeeded, a fresh filter raises {exp.exc}")
                return
            try:
                got = F.norm_record(o, hist, out.raw)
            except W.Malformed as e:
                ctx.violate("incomplete-record", f"{label}: {e}")
                return
            if not F.close(got, exp.value):
                ctx.violate("retry-differs", f"{label}: record {W.brief(got)}; fresh filter: {W.brief(exp.value)}")
            return
        if not out.fired and exp.ok:
            ctx.violate("retry-fails", f"{label}: raised {type(out.exc).__name__}: {out.exc}")
            return
        if F.empty(hist):
            return
        for what, q, value in complete:
            try:
                got = F.norm_record(q, hist)
            except W.Malformed:
                continue
            if len(got) == len(value) and F.close(got, value):
                return
        ctx.violate("mixed-record", f"{label}: failed with {type(out.exc).__name__} after {out.lines} lines and left the record {describe(hist)}, which is neither empty nor that of a completed run ({[w for w, _, _ in complete]})")

    for i, op in enumerate(plan["ops"]):
        attempt(op["o"], op.get("fault"), f"run {i} {op['o']} fault {op.get('fault')}")
        if ctx.violations:
            return
    if plan["ops"]:
        last = {k: v for k, v in plan["ops"][-1]["o"].items()}
        attempt(last, None, f"repeat without fault {last}")
    ctx.sample = {"class": cls, "runs": [[op["o"]["k"], op.get("fault") or ("invalid argument" if op["o"].get("short") or op["o"].get("comp") == "wrong" or op["o"].get("p") == "L9" else None)] for op in plan["ops"]], "edges": len(spec["edges"])}


def describe(hist):
    def one(v):
        if v is None:
            return None
        if isinstance(v, dict):
            return {k: one(x) for k, x in v.items()}
        try:
            return W.brief(W.dense(v))
        except W.Malformed:
            return type(v).__name__

    return one(hist)
