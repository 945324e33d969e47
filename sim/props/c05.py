"""C05: storage faults raise an error or change nothing in what is read."""
import gc
import os

from .. import client as C
from .. import core, devices, files as FS, world as W

PROPERTY = "C05"
RUNS = {"quick": 2600, "thorough": 40000}
RULE = (
    "1-2 callers each make 1-3 reads (edge lists in both formats, incidence matrices, coordinates, flows, packaged and generated datasets) from the "
    "simulated disk, which delivers bytes in seeded short pieces; a chosen I/O event (open, stat, read or listing) of some reads fails (EIO, EACCES, EMFILE, "
    "ENOMEM, ESTALE, MemoryError; once or from then on) or the file vanishes; some reads are interrupted at a library line; some files held other contents when they were read before. Each faulted read is repeated "
    "without fault. Non-trivial: a fault fired or bytes were delivered in pieces. Distinct: different event log."
)
REAL = ["pytspl.io readers and dataset loaders, pandas parser, pickle"]
STUB = ["disk: files under /simdisk and the packaged data directory are served by the simulated disk (contents real or generated)"]
ASSUME = ["truncation without an error (silent end of file) is not injected: no reader could notice it"]
PACKAGED = [("paper", 4), ("test_dataset", 5), ("siouxfalls", 3), ("wsn", 1), ("forex", 1), ("chicago-sketch", 1)]
GENERATED = {"wsn", "forex", "test_dataset"}


def gen(rng, tier, idx):
    clients, files = [], {}
    for c in range(rng.choice([1, 1, 2])):
        ops = []
        for j in range(rng.randint(1, 3)):
            if rng.random() < 0.35:
                w = rng.random()
                if w < 0.6:
                    missing = rng.choice([(), (), ("node",), ("flow",), ("node", "flow")])
                    town = FS.gen_town(rng, f"simtown{c}{j}", missing)
                    files.update(town["files"])
                    o = {"k": "load", "name": town["name"], "generated": town["coords"] is None}
                else:
                    name = rng.choices([n for n, _ in PACKAGED], [w for _, w in PACKAGED])[0]
                    o = {"k": "load", "name": name, "generated": name in GENERATED}
            elif rng.random() < 0.06:
                o = {"k": "list"}
            else:
                o = FS.gen_reader(rng, idx=10 * c + j)
                files.update(o["files"])
            op = {"o": o}
            if rng.random() < 0.25:
                # the same files held something else when they were read before
                now = o.get("files") or (town["files"] if o["k"] == "load" and o["name"].startswith("simtown") else {})
                op["old"] = {p: t[: t[:-1].rfind("\n") + 1] for p, t in now.items()}
            w = rng.random()
            if w < 0.75:
                op["fault"] = {
                    "x": round(rng.random(), 4) if rng.random() < 0.6 else rng.choice([0.0, 0.9999]),
                    "err": rng.choice(["EIO", "EIO", "EACCES", "EACCES", "EMFILE", "ENOMEM", "ESTALE", "MemoryError", "vanish", "vanish"]), "sticky": rng.random() < 0.4,
                }
            elif w < 0.85:
                op["crash"] = C.gen_fault(rng, kernels=False)
            ops.append(op)
        clients.append({"ops": ops})
    return {"clients": clients, "files": files, "chunk": rng.choice([0, 0, 1, 7, 64, 500]), "preempt": core.gen_preempt(rng, 400), "first": rng.randrange(2), "list": rng.randrange(1000)}


def real(path):
    return path.replace("/repo/", core.REPO + "/")


def run(plan, ctx):
    C.silence()
    disk = devices.install_disk(devices.SimDisk())
    for p, t in plan["files"].items():
        FS.mount(disk, {real(p): t})
    exps = C.References(ctx)
    chunk = plan["chunk"]
    for c in plan["clients"]:
        for op in c["ops"]:
            o = op["o"]
            slim = {k: v for k, v in o.items() if k not in ("files", "rec", "coords", "rows")}

            def go(o=o):
                return FS.call_reader(o)

            disk.chunk = 0
            op["_exp"] = exps.get(slim, go, lambda r, o=o: FS.norm_reader(o, r))
            e = op["_exp"]
            if not e.ok:
                ctx.violate("intact-read-fails", f"{slim}: {e.exc}")
                return
            model = FS.expect_reader(o)
            if e.malformed or (model is not None and not W.same(e.value, model)):
                ctx.violate("intact-read-wrong", f"{slim}: {e.brief()}; the file says {W.brief(model)}")
                return
            # events happen per piece: count them under the run's piece size
            disk.chunk = chunk
            if chunk and op.get("fault"):
                op["_events"] = exps.get([slim, "pieces"], go, None)
            else:
                op["_events"] = e
    disk.chunk = chunk
    fds = set(os.listdir("/proc/self/fd"))
    fired = {"n": 0}

    def client(i):
        for j, op in enumerate(plan["clients"][i]["ops"]):
            o, exp = op["o"], op["_exp"]
            label = f"caller {i} read {j} {o['k']} {o.get('name', o.get('path'))}"
            args = {}
            f = op.get("fault")
            if f:
                n = max(1, op["_events"].io_events)
                args["iofault"] = {"event": min(n, 1 + int(f["x"] * n)), "err": f["err"], "sticky": f["sticky"]}
            if op.get("crash"):
                args.update(C.crash_point(op["crash"], exp))
            if op.get("old"):
                now = {p: disk.files[p] for p in map(real, op["old"])}
                FS.mount(disk, {real(p): t for p, t in op["old"].items()})
                out = C.execute(lambda: FS.call_reader(o), None, label=label + " (before the files changed)")
                ctx.event(i, j, "old", out.ok)
                out.raw = out.exc = out.frame = None
                disk.files.update(now)
                ctx.count("fault:files_replaced_between_reads")
            for attempt in (0, 1):
                try:
                    out = C.execute(lambda: FS.call_reader(o), lambda r: FS.norm_reader(o, r), label=label, **(args if attempt == 0 else {}))
                except core.StepBudget:
                    ctx.violate("no-progress", label)
                    return
                C.count_fired(ctx, out)
                ctx.event(i, j, attempt, out.ok, type(out.exc).__name__ if out.exc else None, out.fired, [x[:2] for x in out.io_fired])
                if out.io_fired:
                    fired["n"] += 1
                    ctx.cov(o["k"], o.get("name"), out.io_fired[0][0], out.io_fired[0][1], out.io_events)
                what = judge(o, exp, out)
                if not what and not out.ok and not out.fired:
                    # the caller still holds the exception
                    left = disk.leaked(out.frame)
                    if left:
                        what = ("file-left-open", f"raised {type(out.exc).__name__} and left {left} open")
                out.raw = out.exc = out.frame = None
                if what:
                    ctx.violate(what[0], f"{label} {'with fault ' + str(out.io_fired or out.fired) if attempt == 0 else 'after the fault was gone'}: {what[1]}")
                    return
                if not (out.io_fired or out.fired):
                    break

    sched = core.Scheduler(ctx, [client] * len(plan["clients"]), plan["preempt"], plan["first"])
    sched.run()
    gc.collect()
    if not ctx.violations:
        left = disk.leaked()
        if left:
            ctx.violate("file-left-open", f"{left}")
        elif set(os.listdir("/proc/self/fd")) - fds:
            ctx.violate("file-left-open", f"{len(set(os.listdir('/proc/self/fd')) - fds)} descriptors")
    ctx.count("files_opened", disk.opens)
    ctx.nontrivial = fired["n"] > 0 or chunk > 0
    ctx.sample = {"reads": [[[op["o"]["k"], op["o"].get("name"), op.get("fault") or op.get("crash")] for op in c["ops"]] for c in plan["clients"]], "piece": chunk}


def judge(o, exp, out):
    faulted = bool(out.io_fired) or bool(out.fired)
    if not out.ok:
        if not faulted:
            return "read-fails", f"raised {type(out.exc).__name__}: {out.exc}"
        if out.io_fired and out.io_fired[0][0] == "vanish" and out.io_fired[0][1] in ("open", "stat") and absent_ok(o, out.io_fired[0][2]) and not out.fired:
            return "absence-fails", f"a missing optional file raised {type(out.exc).__name__}: {out.exc}"
        return None
    if out.malformed:
        # a coordinates file that is missing is reported as None
        return "partial-data", out.malformed
    if W.same(out.value, exp.value):
        if out.io_fired and out.io_fired[0][0] == "vanish" and out.io_fired[0][1] == "open" and not absent_ok(o, out.io_fired[0][2]):
            return None  # read again by other means and got everything
        return None
    if out.io_fired and out.io_fired[0][0] == "vanish" and absent_ok(o, out.io_fired[0][2]):
        path = out.io_fired[0][2]
        if o["k"] == "coords":
            return None if out.value == [None] else ("partial-data", f"missing file read as {W.brief(out.value)}")
        if o["k"] == "flow":
            return None if len(out.value[1]) == 0 else ("partial-data", f"missing file read as {W.brief(out.value)}")
        v, e = list(out.value), list(exp.value)
        if "_node" in path or "coordinates" in path:
            if [p[0] if isinstance(p, tuple) else p for p in v[6]] != list(v[0]):
                return "partial-data", f"generated coordinates cover {v[6]}"
            v[6] = e[6] = None
        elif "_flow" in path:
            if v[7] != ():
                return "partial-data", f"missing flow file read as {W.brief(v[7])}"
            v[7] = e[7] = None
        return None if W.same(v, e) else ("partial-data", f"got {W.brief(v)}; intact storage gives {W.brief(e)}")
    return "partial-data", f"got {W.brief(out.value)}; intact storage gives {W.brief(exp.value)}"


def absent_ok(o, path):
    """Is this a coordinates or flow file whose absence the reader documents?"""
    if o["k"] in ("coords", "flow"):
        return True
    name = os.path.basename(path)
    return o["k"] == "load" and FS.TDIR in path and (name.endswith("_node.tntp") or (name.endswith("_flow.tntp")))
