"""C02: calls leave process-wide state as they found it."""
import os
import random

import numpy as np

from .. import catalog as K, client as C
from .. import core, devices, files as FI, filters as F, plots as P, ref as R, settings as S, world as W

PROPERTY = "C02"
RUNS = {"quick": 2200, "thorough": 30000}
RULE = (
    "1-3 callers make 2-7 calls from a catalogue covering every part of the package, from a seeded state of the process (error handling, print options, warning filters, "
    "default tensor type, gradient mode, plotting configuration and backend, interactive plotting, threads, garbage collection, limits, logging, random streams set by the callers); some calls get invalid arguments, some are interrupted at a line or have a kernel, the solver, "
    "the optimizer or the disk fail. About thirty kinds of process-wide and per-thread state and the three random streams are compared after each call "
    "(one caller) or per thread and at the end (several); further callers that draw from the streams between the steps must get exactly the undisturbed sequence; calls allowed to draw are "
    "run twice from different stream states to see that they do not seed. Non-trivial: a failed or interrupted call, or a context switch inside library code. Distinct: different event log."
)
REAL = ["all of pytspl; numpy, scipy, cvxpy, pandas, networkx, matplotlib (not rasterised), torch, gpytorch"]
STUB = ["thread scheduling (parked real threads, seeded)", "numerical kernels, solver: real, may be made to fail", "disk: generated files, may fail", "chebpy: Chebyshev interpolation", "torch's number of threads: recorded only"]
ASSUME = ["first-use initialisation of dependencies (imports, font cache) happens before the runs", "no interruption is placed inside cleanup code (with exits, handlers, finally blocks)"]


def gen(rng, tier, idx):
    spec = W.gen_complex(rng, nmin=4, nmax=7, min_edges=4, max_edges=11)
    ref = R.Ref(spec)
    coords = P.gen_coords(rng, spec["n"])
    nc = rng.choice([1, 1, 1, 2, 3])
    groups = rng.choice([None, None, None, ["gptrain", "gp"], ["filter", "fhelp"], ["plot", "fplot"], ["reader", "load", "gen"], ["gptrain", "dec", "filter"]])
    quietly = rng.random() < 0.6  # no calls that may draw: streams must stay
    clients = []
    # several callers inside the same function at the same time
    duel = K.gen_op(rng, spec, ref, groups, 0) if nc > 1 and rng.random() < 0.5 else None
    if duel and rng.random() < 0.3:
        # around the solver: it is the longest step of any call
        duel = {"g": "filter", "flows": [W.gen_flow(rng, len(spec["edges"])) for _ in range(2)], "fresh": True, "rs": rng.randrange(2**31)}
        duel["o"] = F.gen_filter(rng, spec, ref, duel["flows"], ["tf1", "tfi", "tfi"])
        quietly = False
    if duel and (quietly and K.draws(duel) or unfit(duel)):
        duel = None
    for _ in range(nc):
        ops = []
        n = rng.randint(3, 7) if nc == 1 else rng.randint(2, 4)
        while len(ops) < n:
            o = K.gen_op(rng, spec, ref, groups)
            if duel and rng.random() < 0.85:
                o = K.gen_like(rng, duel, spec, ref)
            if quietly and K.draws(o):
                continue
            if nc > 1 and unfit(o):
                continue  # the caller evaluates a gpytorch kernel directly
            op = {"o": o}
            w = rng.random()
            if w < 0.4:
                op["fault"] = C.gen_fault(rng)
            elif w < 0.55 and o["g"] in ("reader", "load"):
                op["io"] = {"x": round(rng.random(), 3), "err": rng.choice(["EIO", "EACCES", "ENOENT", "EMFILE", "MemoryError"])}
            if K.draws(o) and rng.random() < 0.4:
                op["twice"] = rng.randrange(2**30)
            ops.append(op)
        clients.append({"ops": ops})
    drawers = []
    if nc > 1 and quietly and rng.random() < 0.5:
        drawers = [rng.randint(5, 60)]
    start = {
        "err": rng.choice(["warn", "ignore", "raise"]) if rng.random() < 0.4 else None,
        "print": rng.choice([3, 8]),
        "filter": rng.choice([None, "error", "ignore"]),
        "dtype": rng.random() < 0.1,
        "nograd": rng.random() < 0.1,
        "rc": rng.choice([None, 7.5]),
        "ion": rng.random() < 0.25,
        "threads": rng.choice([None, 4]),
        "backend": rng.choice([None, None, "pdf", "svg"]),
        "gc": rng.random() < 0.2,
        "more": rng.random() < 0.4,
    }
    return {"spec": spec, "coords": coords, "clients": clients, "drawers": drawers, "start": start, "preempt": core.gen_preempt(rng, 300 * nc) if nc > 1 else [], "first": rng.randrange(3)}


def unfit(o):
    return o["g"] == "gp" and (o["o"]["k"] == "gp_kern" or o.get("f") == "serialize")


def enter(start):
    """The callers' own settings, in force before any call."""
    import warnings

    import matplotlib as mpl
    import torch

    np.set_printoptions(precision=start["print"])
    if start["filter"] == "error":
        warnings.filterwarnings("error", message="no such warning text")
    elif start["filter"]:
        warnings.filterwarnings("ignore", message="no such warning text")
    if start["dtype"]:
        torch.set_default_dtype(torch.float64)
    if start["threads"]:
        # (recorded only: the simulation itself computes on one thread)
        now = [start["threads"]]
        torch.get_num_threads = lambda: now[0]
        torch.set_num_threads = lambda n: now.__setitem__(0, n)
    if start["backend"]:
        mpl.use(start["backend"])
    if start["gc"]:
        import gc

        gc.disable()
    if start["more"]:
        import logging
        import socket
        import sys

        import pandas as pd

        sys.setrecursionlimit(4321)
        sys.setswitchinterval(0.004)
        socket.setdefaulttimeout(77)
        pd.set_option("display.max_rows", 77, "display.precision", 4)
        logging.getLogger().setLevel(27)
        torch.set_float32_matmul_precision("high")
        torch.set_printoptions(precision=5)
        os.environ["VERIF_CALLER"] = "1"
        os.umask(0o27)
    if start["ion"]:
        import matplotlib.pyplot as plt

        plt.ion()
    if start["rc"]:
        mpl.rcParams["font.size"] = start["rc"]


def enter_thread(start):
    import torch

    if start["err"] and start["err"] != "raise":
        np.seterr(all=start["err"])
    elif start["err"]:
        np.seterr(over="raise")
    if start["nograd"]:
        torch.set_grad_enabled(False)


def seeds(plan, disk):
    """Calls that draw, run from two stream states: final states must differ."""
    import torch

    for c in plan["clients"]:
        for op in c["ops"]:
            if "twice" not in op:
                continue

            def once(salt, op=op):
                C.silence()
                call = K.prepare(op["o"], K.Env(plan["spec"], W.build(plan["spec"]), plan["coords"], disk))
                np.random.seed(op["twice"] + salt)
                random.seed(op["twice"] + salt)
                torch.manual_seed(op["twice"] + salt)
                C.execute(call.fn, None)
                return S.streams()

            a, b = core.pristine(lambda: once(0)), core.pristine(lambda: once(1))
            for k in a:
                if a[k] == b[k]:
                    return f"{K.name(op['o'])} leaves {k} stream in the same state whatever state it was in: it seeds it"
    return None


def run(plan, ctx):
    C.silence()
    import matplotlib.pyplot as plt
    import torch

    disk = devices.install_disk(devices.SimDisk())
    spec = plan["spec"]
    refs = C.References(ctx)
    for c in plan["clients"]:
        for op in c["ops"]:
            FI.mount(disk, K.mounts(op["o"]))
    for c in plan["clients"]:
        for op in c["ops"]:
            if op.get("fault") or op.get("io"):
                op["_exp"] = refs.get([op["o"]], lambda op=op: K.prepare(op["o"], K.Env(spec, W.build(spec), plan["coords"], disk)).fn(), None)
    msg = seeds(plan, disk)
    if msg:
        ctx.violate("seeds-stream", msg)
        return
    enter(plan["start"])
    env = K.Env(spec, W.build(spec), plan["coords"], disk)
    alone = len(plan["clients"]) == 1
    flags = {"n": False, "drawn": False}
    drawn = {"random": [], "numpy": [], "torch": []}
    live = [c for c in plan["clients"]]

    def may_draw(op, out):
        return K.draws(op["o"]) or any(e[0] == "ENOENT" for e in out.io_fired)

    def client(i):
        enter_thread(plan["start"])
        mine = S.thread_state()
        for j, op in enumerate(live[i]["ops"]):
            o = op["o"]
            label = f"caller {i} call {j} {K.name(o)}{' (invalid arguments)' if o.get('bad') else ''}"
            try:
                call = K.prepare(o, env, i)
            except Exception as e:  # the preparatory calls are library calls, too
                ctx.event(i, j, "unprepared", type(e).__name__)
                continue
            args = {}
            if op.get("fault"):
                args = C.crash_point(op["fault"], op["_exp"])
            elif op.get("io") and op["_exp"].io_events:
                args = {"iofault": {"event": 1 + int(op["io"]["x"] * op["_exp"].io_events), "err": op["io"]["err"]}}
            if alone:
                before, stream = S.global_state(), S.streams()
            try:
                out = C.execute(call.fn, None, label=label, **args)
            except core.StepBudget:
                ctx.violate("no-progress", label)
                return
            C.count_fired(ctx, out)
            if o.get("bad") and not out.ok:
                ctx.count("fault:invalid_argument")
            how = "returned" if out.ok else f"raised {type(out.exc).__name__} ({str(out.exc)[:80]})"
            ctx.event(i, j, K.name(o), out.ok, type(out.exc).__name__ if out.exc is not None else "", out.fired)
            ctx.cov(K.name(o), out.ok, bool(out.fired), len(out.io_fired), bool(o.get("bad")))
            if not out.ok:
                flags["n"] = True
            flags["drawn"] |= may_draw(op, out)
            bad = S.diff(mine, S.thread_state())
            if bad:
                ctx.violate("setting-changed", f"{label} {how}; {bad[0]}")
                return
            if alone:
                bad = S.diff(before, S.global_state())
                if bad:
                    ctx.violate("setting-changed", f"{label} {how}; {bad[0]}")
                    return
                now = S.streams()
                bad = [k for k in now if now[k] != stream[k] and not (k == "NumPy's random" and may_draw(op, out))]
                if bad:
                    ctx.violate("stream-advanced", f"{label} {how}; the state of {bad[0]} stream changed")
                    return
            if disk.leaked() and alone:
                ctx.violate("file-left-open", f"{label} {how}; still open: {disk.leaked()}")
                return

    def drawer(i):
        for _ in range(plan["drawers"][0]):
            drawn["random"].append(random.random())
            drawn["numpy"].append(float(np.random.rand()))
            drawn["torch"].append(float(torch.rand(1)))
            core.SCHED.external_point("drawer")

    before, stream = S.global_state(), S.streams()
    start = (random.getstate(), np.random.get_state(), torch.get_rng_state())
    bodies = [client] * len(live) + [drawer] * len(plan["drawers"])
    sched = core.Scheduler(ctx, bodies, plan["preempt"], plan["first"])
    sched.run()
    ctx.nontrivial = flags["n"] or sched.switches > 0
    ctx.sample = {"callers": [[K.name(op["o"]) + ("!" if op.get("fault") or op.get("io") else "") for op in c["ops"]] for c in live], "drawers": plan["drawers"], "switches": sched.switches}
    if ctx.violations:
        return
    bad = S.diff(before, S.global_state())
    if bad:
        ctx.violate("setting-changed", f"after the calls of {len(live)} callers; {bad[0]}")
        return
    if disk.leaked():
        ctx.violate("file-left-open", f"after the calls; still open: {disk.leaked()}")
        return
    now = S.streams()
    if not plan["drawers"]:
        bad = [k for k in now if now[k] != stream[k] and not (k == "NumPy's random" and flags["drawn"])]
        if bad:
            ctx.violate("stream-advanced", f"after the calls of {len(live)} callers the state of {bad[0]} stream changed")
    else:
        ctx.count("stream_draws_checked", len(drawn["random"]))
        random.setstate(start[0])
        np.random.set_state(start[1])
        torch.set_rng_state(start[2])
        exp = {"random": [random.random() for _ in drawn["random"]], "numpy": [float(np.random.rand()) for _ in drawn["numpy"]], "torch": [float(torch.rand(1)) for _ in drawn["torch"]]}
        for k in exp:
            if exp[k] != drawn[k] and not (k == "numpy" and flags["drawn"]):
                ctx.violate("stream-disturbed", f"a caller drawing from the {k} stream while others made calls got {drawn[k][:5]}..., the undisturbed stream gives {exp[k][:5]}...")
                return
    plt.close("all")
