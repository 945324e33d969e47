"""Batch engine: forks one fresh child per run, collects, minimises, replays."""
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback
import warnings

from . import core, devices

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = core.REPO
CHEB = None
PROPS = [f"C{i:02d}" for i in range(1, 18)]
RUN_WALL = 180.0


# ----------------------------------------------------------------------- setup
def prepare():
    """Import the system under simulation once; children inherit it by fork."""
    global CHEB
    devices.install_locks()
    import pytspl

    where = os.path.realpath(pytspl.__file__)
    if not where.startswith(os.path.realpath(REPO) + "/"):
        raise core.HarnessError(f"pytspl imported from {where}, not {REPO}")
    import cvxpy  # noqa: F401
    import gpytorch  # noqa: F401
    import matplotlib.pyplot as plt  # noqa: F401
    import numpy as np
    import torch

    import pkgutil

    CHEB = devices.install_chebpy()
    for m in pkgutil.walk_packages(pytspl.__path__, "pytspl."):
        importlib.import_module(m.name)
    torch.set_num_threads(1)
    devices.install_kernels()
    core.install()
    for c in core._CODES:
        core._cleanup_lines(c.co_filename)
    _warm_up()
    np.random.seed(0)
    gc.collect()
    gc.freeze()


def _warm_up():
    """First-use work of the dependencies (lazy imports, font cache), so that it
    is not part of any run.  Failures here are left for the runs to judge."""
    import contextlib
    import io

    import cvxpy as cp
    import matplotlib.pyplot as plt
    import numpy as np

    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x = cp.Variable(2)
        for s in ("CLARABEL", "SCS", "ECOS", "OSQP"):
            try:
                cp.Problem(cp.Minimize(cp.sum_squares(x - 1) + cp.norm(x, 1)), [x[0] == 1]).solve(solver=s)
            except Exception:
                pass
        import gpytorch
        import networkx as nx
        import pandas as pd
        import torch
        from sklearn.model_selection import train_test_split
        from torcheval.metrics.functional import r2_score

        fig, ax = plt.subplots()
        ax.text(0, 0, "a")
        ax.set_title("$\\mathbf{f_{G}}$")
        g = nx.DiGraph([(0, 1), (1, 2)])
        nx.draw_networkx_edges(g, pos=nx.spring_layout(g, seed=1), ax=ax, arrows=True)
        fig.colorbar(plt.cm.ScalarMappable(cmap=plt.cm.Blues), ax=ax)
        fig.canvas.draw()
        plt.close("all")
        pd.read_csv(io.StringIO("a\tb\n1\t2\n"), sep="\t").iterrows()
        train_test_split(np.arange(4), np.arange(4), train_size=0.5, random_state=1)
        r2_score(torch.arange(3.0), torch.arange(3.0) + 0.1)

        class M(gpytorch.models.ExactGP):
            def __init__(self, x, y, lik):
                super().__init__(x, y, lik)
                self.mean_module = gpytorch.means.ConstantMean()
                self.covar_module = gpytorch.kernels.ScaleKernel(gpytorch.kernels.RBFKernel())

            def forward(self, x):
                return gpytorch.distributions.MultivariateNormal(self.mean_module(x), self.covar_module(x))

        x, y = torch.arange(4.0), torch.arange(4.0)
        lik = gpytorch.likelihoods.GaussianLikelihood()
        m = M(x, y, lik)
        opt = torch.optim.Adam(m.parameters(), lr=0.1)
        mll = gpytorch.mlls.ExactMarginalLogLikelihood(lik, m)
        (-mll(m(x), y)).backward()
        opt.step()
        m.eval()
        lik.eval()
        with torch.no_grad(), gpytorch.settings.fast_pred_var():
            p = lik(m(x + 0.5))
            gpytorch.metrics.mean_standardized_log_loss(p, y)
            gpytorch.metrics.negative_log_predictive_density(p, y)


def load(prop):
    return importlib.import_module(f"sim.props.{prop.lower()}")


def make_plan(mod, seed, idx, tier):
    rng = core.rng_for(mod.PROPERTY, seed, idx, tier if getattr(mod, "TIERED", False) else "")
    plan = mod.gen(rng, tier, idx)
    plan["rs"] = rng.randrange(2**31)
    # plans are JSON documents: what is replayed is what was run
    return json.loads(json.dumps(plan))


def run_plan(mod, plan):
    """Executes one plan in this (throw-away) process."""
    import numpy as np
    import torch

    ctx = core.Ctx(plan)
    devices.CTX = ctx
    np.random.seed(plan["rs"])
    random.seed(plan["rs"])
    torch.manual_seed(plan["rs"])
    harness = None
    try:
        mod.run(plan, ctx)
    except core.Stop:
        pass
    except core.HarnessError as e:
        harness = "".join(traceback.format_exception(e))[-3000:]
    except BaseException as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        text = "".join(traceback.format_exception(e))[-1800:]
        lib = any(f.filename.startswith(core.PKG) for f in tb)
        if lib or not isinstance(e, (OSError, MemoryError, KeyboardInterrupt, ImportError)):
            ctx.violate("unexpected-exception", text)
        else:
            harness = text
    ctx.event("steps", ctx.steps)
    if ctx.violations:
        for v in ctx.violations:
            ctx.event(v["kind"])
    return {
        "violations": ctx.violations[:5],
        "counts": ctx.counts,
        "cover": sorted(ctx.cover),
        "steps": ctx.steps,
        "nontrivial": bool(ctx.nontrivial),
        "digest": ctx.log.hexdigest(),
        "sample": ctx.sample,
        "harness": harness,
    }


# ------------------------------------------------------------------ child runs
def fork_run(fn, wall=RUN_WALL):
    """Runs fn() in a forked child; its JSON result, or a harness failure."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            faulthandler.register(signal.SIGUSR2, file=sys.__stderr__, all_threads=True)
            try:
                out = fn()
            except BaseException as e:  # noqa: BLE001
                out = {"harness": "".join(traceback.format_exception(e))[-3000:]}
            data = json.dumps(out).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + wall
    killed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            try:  # with the reference executions it started
                os.killpg(pid, signal.SIGUSR2)  # where is it?
                time.sleep(2)
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                os.kill(pid, signal.SIGKILL)
            killed = True
            break
        ok, _, _ = select.select([r], [], [], min(left, 5))
        if ok:
            part = os.read(r, 1 << 16)
            if not part:
                break
            buf += part
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if killed:
        return {"harness": f"run exceeded {wall:.0f} s of wall time", "stalled": True}
    try:
        return json.loads(bytes(buf))
    except ValueError:
        return {"harness": f"child died, status {st}"}


def _worker(mod, seed, tier, rfd, wfd):
    while True:
        line = b""
        while not line.endswith(b"\n"):
            c = os.read(rfd, 1)
            if not c:
                os._exit(0)
            line += c
        idx = int(line)
        res = fork_run(lambda: run_plan(mod, make_plan(mod, seed, idx, tier)), wall=RUN_WALL / 2)
        if res.get("stalled"):  # the machine, or the run?  a run is repeatable
            res = fork_run(lambda: run_plan(mod, make_plan(mod, seed, idx, tier)))
            res.setdefault("counts", {})["runs_repeated_after_stall"] = 1
        res["idx"] = idx
        data = json.dumps(res).encode()
        data = len(data).to_bytes(8, "big") + data
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off:])


def batch(mod, seed, tier, indices, workers, deadline, stop=True, on_result=None):
    """Runs the plans of `indices` in ascending order over the workers.  After
    a violation at i nothing beyond i is started."""
    indices = list(indices)
    procs = []
    for _ in range(min(workers, len(indices))):
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(b)
                os.close(c)
                for p in procs:
                    os.close(p["to"])
                    os.close(p["fr"])
                _worker(mod, seed, tier, a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        procs.append({"pid": pid, "to": b, "fr": c, "buf": bytearray(), "busy": None})
    results, nxt, first, skipped = {}, 0, None, 0

    def feed(p):
        nonlocal nxt, skipped
        if nxt < len(indices) and (first is None or indices[nxt] < first):
            if time.monotonic() > deadline:
                skipped = len(indices) - nxt
                p["busy"] = None
                return
            p["busy"] = indices[nxt]
            os.write(p["to"], f"{indices[nxt]}\n".encode())
            nxt += 1
        else:
            p["busy"] = None

    for p in procs:
        feed(p)
    while any(p["busy"] is not None for p in procs):
        ready, _, _ = select.select([p["fr"] for p in procs if p["busy"] is not None], [], [], 30)
        for p in procs:
            if p["fr"] not in ready:
                continue
            part = os.read(p["fr"], 1 << 16)
            if not part:
                results[p["busy"]] = {"harness": "worker died", "idx": p["busy"]}
                p["busy"] = None
                continue
            p["buf"] += part
            if len(p["buf"]) >= 8:
                n = int.from_bytes(p["buf"][:8], "big")
                if len(p["buf"]) >= 8 + n:
                    res = json.loads(bytes(p["buf"][8:8 + n]))
                    del p["buf"][:8 + n]
                    results[res["idx"]] = res
                    if on_result:
                        on_result(res)
                    if stop and (res.get("violations") or res.get("harness")):
                        first = res["idx"] if first is None else min(first, res["idx"])
                    feed(p)
    for p in procs:
        os.close(p["to"])
        os.close(p["fr"])
        os.waitpid(p["pid"], 0)
    return results, skipped


# --------------------------------------------------------------------- shrink
LISTS = ("ops", "clients", "preempt", "faults", "files", "steps", "history", "callers")


def _lists(plan, path=()):
    if isinstance(plan, dict):
        for k, v in plan.items():
            if isinstance(v, list) and k in LISTS and v:
                yield path + (k,)
            yield from _lists(v, path + (k,))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            if isinstance(v, (dict, list)):
                yield from _lists(v, path + (i,))


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _with(plan, path, value):
    new = json.loads(json.dumps(plan))
    cur = new
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = value
    return new


def minimise(mod, plan, kind, limit_s=100.0, max_runs=250):
    """Delta debugging over the plan's lists while the same kind persists."""
    end = time.monotonic() + limit_s
    runs = 0

    def fails(p):
        nonlocal runs
        runs += 1
        res = fork_run(lambda: run_plan(mod, p), wall=60)
        return bool(res.get("violations")) and res["violations"][0]["kind"] == kind

    keep = getattr(mod, "KEEP", ())
    progress = True
    while progress and time.monotonic() < end and runs < max_runs:
        progress = False
        for path in sorted(set(_lists(plan)), key=lambda p: (len(p), str(p))):
            try:
                cur = _get(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if path[-1] in keep or not isinstance(cur, list):
                continue
            size = max(1, len(cur))
            while size >= 1 and time.monotonic() < end and runs < max_runs:
                i, hit = 0, False
                while i < len(cur) and time.monotonic() < end and runs < max_runs:
                    cand = cur[:i] + cur[i + size:]
                    new = _with(plan, path, cand)
                    if fails(new):
                        plan, cur, hit, progress = new, cand, True, True
                    else:
                        i += size
                if size == 1 and not hit:
                    break
                size = size // 2 if size > 1 else (1 if hit else 0)
        for cand in getattr(mod, "shrink", lambda p: [])(plan):
            if time.monotonic() > end or runs >= max_runs:
                break
            cand = json.loads(json.dumps(cand))
            if cand != plan and fails(cand):
                plan, progress = cand, True
                break
    return plan, runs


# -------------------------------------------------------------- known findings
def known_findings(prop):
    """Lines `finding: property=Cnn kind=<kind> where=<substring> -- text`."""
    out = []
    path = os.path.join(HERE, "known", "findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"finding: property={prop} "):
                head, _, text = line.partition(" -- ")
                f = dict(x.split("=", 1) for x in head.split()[1:] if "=" in x)
                out.append((f.get("kind"), f.get("where", ""), text.strip()))
    return out


# ------------------------------------------------------------------------ main
def check(prop, tier, seed, runs=None, workers=None, quiet=False):
    t0 = time.monotonic()
    mod = load(prop)
    workers = workers or min(8, os.cpu_count() or 1)
    total = runs or mod.RUNS[tier]
    budget = 420 if tier == "quick" else float(os.environ.get("VERIF_BUDGET_S", "3300"))
    print(f"seed {seed} property {prop} tier {tier} runs {total} workers {workers}", flush=True)
    prepare()
    if hasattr(mod, "prepare"):
        mod.prepare()
        gc.collect()
        gc.freeze()
    t1 = time.monotonic()
    known = known_findings(prop)
    hits = {}

    def filter_known(res):
        vs = res.get("violations") or []
        rest = []
        for v in vs:
            for kind, where, text in known:
                if v["kind"] == kind and where in v["msg"]:
                    hits[text] = hits.get(text, 0) + 1
                    break
            else:
                rest.append(v)
        if vs:
            res["violations"] = rest

    results, skipped = batch(mod, seed, tier, range(total), workers, t0 + budget, on_result=filter_known)
    t2 = time.monotonic()
    harness = [r for r in results.values() if r.get("harness")]
    bad = sorted((r for r in results.values() if r.get("violations")), key=lambda r: r["idx"])
    ok = [r for _, r in sorted(results.items()) if not r.get("harness")]
    status, replay = 0, None
    if bad:
        status = 1
        r = bad[0]
        replay = report(mod, seed, tier, r)
    elif harness:
        status = 2
        h = sorted(harness, key=lambda r: r["idx"])[0]
        print(f"HARNESS-ERROR property={prop} run={h['idx']}\n{h['harness']}", file=sys.stderr, flush=True)
    for text, n in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={prop} {text} ({n} runs)")
    evidence(mod, tier, seed, ok, total, skipped, t0, t1, t2, len(bad), workers)
    if not quiet:
        print(f"{prop}: {len(ok)} runs, {sum(bool(r['nontrivial']) for r in ok)} non-trivial, {len(bad)} violating, {len(harness)} harness errors, {time.monotonic() - t0:.1f} s; batch digest {batch_digest(ok)}", flush=True)
    if status == 1:
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
    return status


def batch_digest(ok):
    h = hashlib.blake2b(digest_size=8)
    for r in ok:
        h.update(f"{r['idx']}:{r['digest']}\n".encode())
    return h.hexdigest()


def report(mod, seed, tier, r):
    kind = r["violations"][0]["kind"]
    full = make_plan_in_child(mod, seed, r["idx"], tier)
    plan, runs = minimise(mod, full, kind)
    res = fork_run(lambda: run_plan(mod, plan))
    if not res.get("violations"):
        plan = full
        res = fork_run(lambda: run_plan(mod, plan))
    if not res.get("violations"):
        res = r
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{mod.PROPERTY}-seed{seed}-run{r['idx']}.json")
    doc = {
        "property": mod.PROPERTY, "seed": seed, "tier": tier, "run": r["idx"], "minimised_in_runs": runs,
        "violation": res["violations"][0], "digest": res["digest"], "steps": res["steps"], "plan": plan,
    }
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    v = res["violations"][0]
    print(f"violation of {mod.PROPERTY} in run {r['idx']} of seed {seed}: {v['kind']}\n  {v['msg']}", flush=True)
    try:
        p = subprocess.run(["bash", os.path.join(HERE, "check.sh"), "--replay", path], capture_output=True, text=True, timeout=240)
        exact = p.returncode == 1 and "exactly" in p.stdout
        print("replay in a fresh process: " + ("reproduced exactly" if exact else f"NOT reproduced exactly (exit {p.returncode})"), flush=True)
    except subprocess.TimeoutExpired:
        print("replay in a fresh process: timed out", flush=True)
    return path


def make_plan_in_child(mod, seed, idx, tier):
    return fork_run(lambda: {"plan": make_plan(mod, seed, idx, tier)})["plan"]


def replay(path):
    doc = json.load(open(path))
    mod = load(doc["property"])
    prepare()
    if hasattr(mod, "prepare"):
        mod.prepare()
    res = fork_run(lambda: run_plan(mod, doc["plan"]))
    if res.get("harness"):
        print("HARNESS-ERROR", res["harness"], file=sys.stderr)
        return 2
    if not res["violations"]:
        print("no violation")
        return 0
    v = res["violations"][0]
    same = res["digest"] == doc["digest"] and v["kind"] == doc["violation"]["kind"]
    print(f"violation: {v['kind']}\n  {v['msg']}")
    print("reproduced exactly" if same else "violates, but not the recorded execution")
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1


def evidence(mod, tier, seed, ok, total, skipped, t0, t1, t2, nbad, workers):
    counts, cover = {}, set()
    for r in ok:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        cover.update(r["cover"])
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault:")}
    nontriv = [r for r in ok if r["nontrivial"]]
    samples = [r["sample"] for r in nontriv if r.get("sample")][:3] or [{"run": r["idx"]} for r in ok[:1]]
    search_s = max(t2 - t1, 1e-6)
    cov = {
        "evaluations": len(ok),
        "distinct_nontrivial": len({r["digest"] for r in nontriv}),
        "rule": mod.RULE,
        "samples": samples,
        "runs_requested": total,
        "runs_skipped_at_deadline": skipped,
        "runs_per_hour": round(len(ok) / search_s * 3600),
        "seeds_per_hour": round(len(ok) / search_s * 3600),
        "seed_note": "one run is one derived seed: VERIF_SEED, the property and the run number are hashed into the generator of that run",
        "simulated_steps": sum(r["steps"] for r in ok),
        "simulated_time": "the library reads no clock and sets no timer; simulated time is the count of scheduler steps (executed library lines, device and kernel events) above",
        "faults_injected": faults,
        "counters": {k: v for k, v in sorted(counts.items()) if not k.startswith("fault:")},
        "distinct_states": len(cover),
        "distinct_states_measure": getattr(mod, "MEASURE", "distinct (client@line>client) switch sequences plus distinct operation/fault-position pairs"),
        "real_components": mod.REAL,
        "stub_components": mod.STUB + ([f"chebpy: {CHEB} (package not installed: Chebyshev interpolation stand-in)"] if CHEB == "stub" else []),
        "workers": workers,
        "batch_digest": batch_digest(ok),
        "setup_s": round(t1 - t0, 2),
    }
    doc = {
        "property": mod.PROPERTY, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(time.monotonic() - t0, 2), "violations": nbad,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{mod.PROPERTY}.json"), "w") as f:
        json.dump(doc, f, indent=1)


def dump(prop, tier, seed, indices, workers):
    """Digests of runs, for the determinism self-test."""
    mod = load(prop)
    prepare()
    if hasattr(mod, "prepare"):
        mod.prepare()
    res, _ = batch(mod, seed, tier, indices, workers, time.monotonic() + 3000, stop=False)
    for i, r in sorted(res.items()):
        print(f"{prop} {seed} {i} {r.get('digest')} {len(r.get('violations') or [])} {'H' if r.get('harness') else '-'}")
    return 0
