"""C01: callers sharing one complex each get the answer they would get alone."""
import numpy as np

from .. import client as C
from .. import core, filters as F, gp as G, ref as R, trend as T, world as W

PROPERTY = "C01"
RUNS = {"quick": 2800, "thorough": 30000}
RULE = (
    "2-4 caller threads, 2-6 operations each (matrix reads, spectra, decompositions, embeddings, shifts, filter runs, trend-filter runs without noise, GP preparation, "
    "construction of short-lived complexes) on one shared complex and a second complex of the same shape; the seeded scheduler moves the token "
    "between library lines and kernel calls; in 45% of the runs all callers make the same kind of call at once; some operations are interrupted at a line or have a kernel fail. Non-trivial: at least one context "
    "switch inside library code. Distinct: different event log (operations, outcomes, schedule trace)."
)
REAL = ["all of pytspl.simplicial_complex, decomposition, filters, hogde_gp preparation; numpy, scipy, torch"]
STUB = ["thread scheduling (parked real threads, seeded)", "numerical kernels: real, may be made to fail"]
ASSUME = [
    "interleavings are at library source lines and kernel/lock calls, not inside C code",
    "operations whose exact value hinges on rounding (eigenvalue ties, ill-conditioned systems) are not generated",
]

COST = {"tf2": 60, "tf1": 120, "tfi": 120, "ls1": 250, "ls2": 200, "lsg": 400, "grd": 300, "grs": 350, "grg": 600, "efd": 120, "cha": 500}


def gen_op(rng, spec, ref, flows):
    w = rng.random()
    if w < 0.62:
        o = W.gen_read(rng, len(flows), spec)
        return {"t": "read", "o": o}
    if w < 0.88:
        return {"t": "filter", "o": F.gen_filter(rng, spec, ref, flows)}
    if w < 0.93:
        return {"t": "filter", "o": gen_trend(rng, spec, ref, flows)}
    return {"t": "gp", "o": G.gen_prep(rng, spec)}


def gen_trend(rng, spec, ref, flows, kinds=F.TREND):
    """A trend-filter run that does not depend on the random stream: hardly any
    noise, or every edge observed."""
    o = F.gen_filter(rng, spec, ref, flows, kinds)
    if "snr" in o:
        o["snr"] = [400.0] * len(o["snr"])
    else:
        o["ratio"] = [1.0] * len(o["ratio"])
    return o


READS = ["inc", "adj", "lap0", "low", "upp", "hodge", "lshift", "ushift", "kshift", "emb", "eig", "tv", "div", "curl", "comp", "faces", "shape", "feat"]


def gen_duel(rng):
    """Two or three callers making the same kind of call at the same time."""
    spec = W.gen_complex(rng, nmin=3, nmax=6, max_edges=11)
    specs = [spec, W.same_shape(rng, spec)]
    flows = [W.gen_flow(rng, len(spec["edges"])) for _ in range(3)]
    refs = [R.Ref(s) for s in specs]
    kind = rng.choice(READS * 2 + F.KINDS + F.TREND * 3 + ["gp"] * 3)

    def one(i):
        spec, ref = specs[i], refs[i]
        if kind in READS:
            for _ in range(200):
                o = W.gen_read(rng, 3, spec)
                if o["k"] == kind:
                    break
            return {"t": "read", "o": o}
        if kind == "gp":
            return {"t": "gp", "o": G.gen_prep(rng, spec)}
        return {"t": "filter", "o": (gen_trend if kind in F.TREND else F.gen_filter)(rng, spec, ref, flows, [kind])}

    clients = []
    for _ in range(rng.choice([2, 2, 3])):
        which = [0 if rng.random() < 0.85 else 1 for _ in range(rng.randint(1, 3))]
        clients.append({"ops": [dict(one(i), sc=i) for i in which]})
    est = sum(COST.get(op["o"]["k"], 30) for c in clients for op in c["ops"])
    return {
        "specs": specs, "via": "ctor", "flows": flows, "clients": clients, "preempt": core.gen_preempt(rng, est), "first": rng.randrange(3), "fine": rng.random() < 0.1,
    }


def gen(rng, tier, idx):
    if rng.random() < 0.45:
        return gen_duel(rng)
    big = rng.random() < 0.15
    spec = W.gen_complex(rng, nmin=3, nmax=9 if big else 6, max_edges=20 if big else 11)
    specs = [spec, W.same_shape(rng, spec)]
    m = len(spec["edges"])
    flows = [W.gen_flow(rng, m) for _ in range(rng.randint(1, 3))]
    refs = [R.Ref(s) for s in specs]
    focus = rng.choice([None, None, "comp", "eig", "hodge"])
    clients, est = [], 0
    fault_run = rng.random() < 0.3
    for c in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(2, 6)):
            s = 0 if rng.random() < 0.7 else 1
            op = gen_op(rng, specs[s], refs[s], flows)
            if focus and rng.random() < 0.5:
                for _ in range(200):
                    o = W.gen_read(rng, len(flows), specs[s])
                    if o["k"] == focus:
                        break
                op = {"t": "read", "o": o}
            op["sc"] = s
            if rng.random() < 0.12:
                op["temp"] = True
            if fault_run and rng.random() < 0.25:
                op["fault"] = C.gen_fault(rng)
            est += COST.get(op["o"]["k"], 25)
            ops.append(op)
        clients.append({"ops": ops})
    return {
        "specs": specs, "via": rng.choice(["ctor", "ctor", "given"]), "flows": flows, "clients": clients,
        "preempt": core.gen_preempt(rng, est), "first": rng.randrange(4), "fine": rng.random() < 0.15,
    }


def thunk(op, sc, flows, own):
    """The call, on the given complex with the caller's own objects."""
    o = op["o"]
    if op["t"] == "read":
        return lambda: W.call_read(sc, o, flows)
    if op["t"] == "filter":

        def run():
            name = F.cls_of(o)
            key = (id(sc), name)
            if key not in own:
                own[key] = (F.make(name, sc), sc)
            flt = own[key][0]
            res = F.call(flt, o, flows)
            return flt.history, res

        return run
    return lambda: G.call_prep(sc, o, flows)


def norm_of(op):
    o = op["o"]
    if op["t"] == "read":
        return lambda r: W.norm_read(o, r)
    if op["t"] == "filter":
        return lambda r: F.norm_record(o, r[0], r[1])
    return lambda r: G.norm_prep(o, r)


def agree(op, got, exp):
    if got.ok != exp.ok:
        return False
    if not got.ok:
        return type(got.exc).__name__ == exp.exc[0]
    if got.malformed or exp.malformed:
        return False
    if op["o"]["k"] in ("tf1", "tfi"):
        # what the solver returns is only as accurate as its stopping rule
        return W.same(got.value, exp.value, rtol=1e-4, atol=1e-4)
    return F.close(got.value, exp.value)


def judge(ref, op, raw, flows, spec):
    if op["t"] == "read":
        return W.check_read(ref, op["o"], raw, flows, spec)
    if op["t"] == "filter":
        o = op["o"]
        msg = F.check_record(ref, o, raw[0], flows, raw[1])
        if msg or o["k"] not in F.TREND:
            return msg
        X, f = W.dense(raw[0]["frequency_responses"]), flows[o["flow"]]
        for x in X.reshape(len(f), -1).T:
            if o["k"] == "tf2":
                if not np.allclose(x + o["mu"] * ref.L1l @ x, f, rtol=1e-6, atol=1e-6):
                    return f"{o}: {W.brief(x)} is not the reconstruction of {W.brief(f)}"
            else:
                msg = T.check_l1(ref, o, f, x) if o["k"] == "tf1" else T.check_interp(ref, o, f, np.ones(len(f), bool), x)
                if msg:
                    return f"{o}: {msg}"
        return None
    return G.check_prep(ref, op["o"], raw, flows)


def run(plan, ctx):
    C.silence()
    flows = [W.as_flow(f) for f in plan["flows"]]
    specs = plan["specs"]
    refs = [R.Ref(s) for s in specs]
    expected = C.References(ctx)
    for c in plan["clients"]:
        for op in c["ops"]:
            spec = specs[op["sc"]]
            fn = lambda op=op, spec=spec: thunk(op, W.build(spec, plan["via"]), flows, {})()
            op["_exp"] = expected.get([op["t"], op["o"], op["sc"]], fn, norm_of(op))
    scs = [W.build(s, plan["via"]) for s in specs]
    before = [W.snapshot(sc) for sc in scs]
    if plan["fine"]:
        core.set_grain(True)

    def client(i):
        own = {}
        for j, op in enumerate(plan["clients"][i]["ops"]):
            exp = op["_exp"]
            spec = specs[op["sc"]]
            if op.get("temp"):
                fn = lambda: thunk(op, W.build(spec, plan["via"]), flows, {})()
            else:
                fn = thunk(op, scs[op["sc"]], flows, own)
            label = f"client {i} op {j} {op['t']} {op['o']} on complex {op['sc']}"
            try:
                out = C.execute(fn, norm_of(op), label=label, **C.crash_point(op.get("fault"), exp))
            except core.StepBudget:
                ctx.violate("no-progress", f"{label}: the call did not end (deadlock: {sched.deadlock})")
                return
            C.count_fired(ctx, out)
            ctx.event(i, j, op["o"]["k"], "ok" if out.ok else type(out.exc).__name__, out.fired)
            ctx.cov(op["o"]["k"], op["sc"], bool(out.fired))
            if out.fired:
                if not out.ok:
                    continue
            if not agree(op, out, exp):
                ctx.violate("answer-differs", f"{label}: got {out.brief()}; alone: {'raises ' + str(exp.exc) if not exp.ok else W.brief(exp.value)}")
                return
            if out.ok:
                msg = judge(refs[op["sc"]], op, out.raw, flows, spec)
                if msg:
                    ctx.violate("answer-wrong", f"{label}: {msg}")
                    return

    sched = core.Scheduler(ctx, [client] * len(plan["clients"]), plan["preempt"], plan["first"])
    sched.run()
    ctx.nontrivial = sched.switches > 0
    for s, sc in enumerate(scs):
        if W.snapshot(sc) != before[s]:
            ctx.violate("complex-changed", f"complex {s}: before {before[s]} after {W.snapshot(sc)}")
    ctx.sample = {
        "clients": [[f"{op['t']}:{op['o']['k']}@{op['sc']}" + ("!" if op.get("fault") else "") for op in c["ops"]] for c in plan["clients"]],
        "edges": len(specs[0]["edges"]), "switches": sched.switches, "steps": sched.step,
    }
