"""C04: a filter's record describes exactly its latest run."""
import numpy as np

from .. import client as C
from .. import core, filters as F, ref as R, world as W

PROPERTY = "C04"
RUNS = {"quick": 2200, "thorough": 40000}
RULE = (
    "1-3 callers, each with its own filters of several classes over two complexes of the same shape, perform 2-6 runs in all; the caller changes the "
    "contents of its flow array between runs, shares arrays between filters, and runs of different callers interleave under the seeded scheduler. "
    "After every run the record and returned parts equal those of a fresh filter in a pristine process and the reference model; every record and "
    "array obtained earlier is re-read at the end. Non-trivial: at least two completed runs on one filter or a context switch inside library code. "
    "Distinct: different event log."
)
REAL = ["pytspl.filters, simplicial_complex, decomposition; numpy, scipy, cvxpy solvers"]
STUB = ["thread scheduling (parked real threads, seeded)"]
ASSUME = ["runs whose result hinges on rounding (eigenvalue ties that matter, ill-conditioned systems) are not generated"]


def gen(rng, tier, idx):
    spec = W.gen_complex(rng, nmin=3, nmax=7, max_edges=12)
    specs = [spec, W.same_shape(rng, spec)]
    refs = [R.Ref(s) for s in specs]
    m = len(spec["edges"])
    nclients = rng.choice([1, 1, 1, 2, 3])
    favourite = rng.choice([None, None] + F.KINDS)
    clients = []
    for _ in range(nclients):
        ops = []
        vals = [W.gen_flow(rng, m), W.gen_flow(rng, m)]
        start = [list(v) for v in vals]
        for _ in range(rng.randint(2, 6) if nclients == 1 else rng.randint(1, 3)):
            s = rng.choice([0, 0, 1])
            op = {"sc": s}
            if ops and rng.random() < 0.35:
                i = rng.randrange(2)
                vals[i] = W.gen_flow(rng, m)
                op["set"] = [i, vals[i]]
            kinds = [favourite] if favourite and rng.random() < 0.6 else F.KINDS + (F.TREND[:1] * 2 + F.TREND[1:] if nclients == 1 else [])
            op["o"] = F.gen_filter(rng, specs[s], refs[s], vals, kinds)
            op["new"] = rng.random() < 0.15
            ops.append(op)
        clients.append({"ops": ops, "flows": start})
    return {"specs": specs, "clients": clients, "preempt": core.gen_preempt(rng, 900 * nclients) if nclients > 1 else [], "first": rng.randrange(3)}


def freeze(x):
    """(live object, copy) pairs of everything reachable in a record/result."""
    out = []
    if isinstance(x, dict):
        out.append((x, {k: id(v) for k, v in x.items()}))
        for v in x.values():
            out += freeze(v)
    elif isinstance(x, (tuple, list)):
        for v in x:
            out += freeze(v)
    elif isinstance(x, np.ndarray):
        out.append((x, x.copy()))
    return out


def thawed(pairs):
    for live, copy in pairs:
        if isinstance(live, dict):
            if {k: id(v) for k, v in live.items()} != copy:
                return f"record entries were replaced: {sorted(live)}"
        elif not np.array_equal(live, copy, equal_nan=True):
            return f"array changed from {W.brief(copy)} to {W.brief(np.asarray(live))}"
    return None


def call(flt, o, flows):
    if "rs" in o:
        np.random.seed(o["rs"])
    return F.call(flt, o, flows)


def run(plan, ctx):
    C.silence()
    specs = plan["specs"]
    refs = [R.Ref(s) for s in specs]
    exps = C.References(ctx)
    for c in plan["clients"]:
        vals = [list(v) for v in c["flows"]]
        for op in c["ops"]:
            if "set" in op:
                vals[op["set"][0]] = op["set"][1]
            now = [W.as_flow(v) for v in vals]

            def go(op=op, now=now):
                flt = F.make(F.cls_of(op["o"]), W.build(specs[op["sc"]]))
                res = call(flt, op["o"], now)
                return flt.history, res

            op["_exp"] = exps.get([op["o"], op["sc"], vals], go, lambda r, o=op["o"]: F.norm_record(o, r[0], r[1]))
    scs = [W.build(s) for s in specs]
    kept = []
    done = {"again": 0}

    def client(i):
        c = plan["clients"][i]
        flows = [W.as_flow(v) for v in c["flows"]]
        own, runs = {}, {}
        for j, op in enumerate(c["ops"]):
            o, exp = op["o"], op["_exp"]
            if "set" in op:
                at, new = op["set"][0], W.as_flow(op["set"][1])
                if new.dtype.kind == "f" and flows[at].dtype.kind != "f":
                    flows[at] = new  # does not fit into the array of integers
                else:
                    flows[at][:] = new
            key = (op["sc"], F.cls_of(o))
            label = f"caller {i} run {j} {o} on complex {op['sc']}"
            if key not in own or op["new"]:
                own[key] = F.make(F.cls_of(o), scs[op["sc"]])
                runs[key] = 0
                if not F.empty(own[key].history):
                    ctx.violate("not-empty-at-start", f"{label}: a new filter has a record")
                    return
            flt = own[key]
            try:
                out = C.execute(lambda: call(flt, o, flows), None, label=label)
            except core.StepBudget:
                ctx.violate("no-progress", label)
                return
            ctx.event(i, j, o["k"], out.ok)
            ctx.cov(o["k"], runs[key], op["sc"], "set" in op)
            if not out.ok:
                if exp.ok or type(out.exc).__name__ != exp.exc[0]:
                    ctx.violate("run-differs", f"{label}: raised {type(out.exc).__name__}: {out.exc}; a fresh filter: {exp.brief() if exp.ok else exp.exc}")
                    return
                continue
            runs[key] += 1
            done["again"] = max(done["again"], runs[key])
            try:
                got = F.norm_record(o, flt.history, out.raw)
                if exp.malformed or not exp.ok or not F.close(got, exp.value):
                    ctx.violate("run-differs", f"{label}: {W.brief(got)}; a fresh filter: {exp.brief() if exp.ok else exp.exc}")
                    return
                msg = F.check_record(refs[op["sc"]], o, flt.history, [f.copy() for f in flows], out.raw)
            except W.Malformed as e:
                msg = str(e)
            if msg:
                ctx.violate("record-wrong", f"{label}: {msg}")
                return
            pairs = freeze(flt.history) + freeze(out.raw)
            bad = thaw_all(kept)
            if bad:
                ctx.violate("earlier-record-changed", f"{label} changed {bad}")
                return
            kept.append((label, pairs))

    sched = core.Scheduler(ctx, [client] * len(plan["clients"]), plan["preempt"], plan["first"])
    sched.run()
    bad = thaw_all(kept)
    if bad and not ctx.violations:
        ctx.violate("earlier-record-changed", bad)
    ctx.nontrivial = sched.switches > 0 or done["again"] >= 2
    ctx.sample = {"callers": [[f"{op['o']['k']}@{op['sc']}" + ("*" if "set" in op else "") for op in c["ops"]] for c in plan["clients"]], "edges": len(specs[0]["edges"]), "switches": sched.switches}


def thaw_all(kept):
    for label, pairs in kept:
        bad = thawed(pairs)
        if bad:
            return f"the record of [{label}]: {bad}"
    return None
