"""C17: caller data is never modified and objects share no hidden state."""
import numpy as np

from .. import catalog as K, client as C
from .. import core, devices, files as FI, filters as F, gp as G, plots as P, ref as R, world as W

PROPERTY = "C17"
RUNS = {"quick": 2600, "thorough": 30000}
RULE = (
    "1-3 callers make 3-8 calls from a catalogue covering every part of the package (complex reads, decomposition functions, constructor, builder, readers, "
    "datasets, generator, filters and their helpers, Gaussian-process preparation, training and prediction, drawings), on one shared complex with their own "
    "arguments; some calls get invalid arguments, some are interrupted at a line, have a kernel, the solver or the disk fail; between calls callers overwrite results they received or objects made with "
    "default containers. Byte-exact fingerprints of all arguments, of the complex, of every result received and of untouched twin objects are compared after the "
    "calls and at the end; new objects must start empty. Non-trivial: a failed or interrupted call, an edited result, or a context switch inside library code. Distinct: different event log."
)
REAL = ["all of pytspl; numpy, scipy, cvxpy, pandas, networkx, matplotlib (not rasterised), torch, gpytorch"]
STUB = ["thread scheduling (parked real threads, seeded)", "numerical kernels, solver: real, may be made to fail", "disk: generated files", "chebpy: Chebyshev interpolation"]
ASSUME = ["a complex made from the caller's lists keeps referring to them; get_edge_features() without a name hands out the complex's own dictionary (documented access, not edited here)"]


def gen(rng, tier, idx):
    spec = W.gen_complex(rng, nmin=4, nmax=7, min_edges=4, max_edges=11)
    ref = R.Ref(spec)
    coords = P.gen_coords(rng, spec["n"])
    nc = rng.choice([1, 1, 2, 3])
    groups = rng.choice([None, None, None, ["plot", "fplot", "read"], ["filter", "fhelp", "dec"], ["gp", "gptrain"], ["ctor", "builder", "gen", "load", "reader"], ["dec", "read"]])
    clients = []
    for _ in range(nc):
        ops = []
        for _ in range(rng.randint(3, 8) if nc == 1 else rng.randint(2, 4)):
            o = K.gen_op(rng, spec, ref, groups)
            op = {"o": o}
            w = rng.random()
            if w < 0.22:
                op["fault"] = C.gen_fault(rng)
            elif w < 0.3 and o["g"] in ("reader", "load"):
                op["io"] = {"x": round(rng.random(), 3), "err": rng.choice(["EIO", "EACCES", "ENOENT", "MemoryError"])}
            elif w < 0.6:
                op["edit"] = True
            ops.append(op)
        clients.append({"ops": ops})
    return {"spec": spec, "coords": coords, "clients": clients, "preempt": core.gen_preempt(rng, 300 * nc) if nc > 1 else [], "first": rng.randrange(3)}


# ----------------------------------------------------------------- editing
def scribble(x, deep=0):
    """The caller overwrites what it was given."""
    if deep > 6:
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype != object:
            x[...] = 77
    elif isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, deep + 1)
        x.clear()
        x["edited"] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v, deep + 1)
        x.append("edited")
    elif isinstance(x, tuple):
        for v in x:
            scribble(v, deep + 1)
    elif hasattr(x, "nnz") and hasattr(x, "data"):
        x.data[...] = 77
    elif type(x).__name__ == "DataFrame":
        if x.shape[0]:
            x.iloc[:, :] = 0
    elif hasattr(x, "detach"):
        import torch

        if x.numel():
            with torch.no_grad():
                x.fill_(77)
    elif type(x).__name__ in ("SimplicialComplex", "SCBuilder"):
        for c in (x.edge_features, x.node_features, x.nodes, x.edges, getattr(x, "triangles", None)):
            if isinstance(c, (dict, list)):
                scribble(c, deep + 1)


def edit(o, raw):
    """Edits a result where it is entirely the caller's.  True if edited."""
    g = o["g"]
    if g == "read" and o["o"]["k"] in ("feat", "shape"):
        return False
    if g == "ctor":
        if o["empty"]:
            scribble(raw)
        elif not o["feat"]:
            raw.edge_features["edited"] = raw.node_features["edited"] = 1
        else:
            return False
        return True
    if g == "builder":
        if o["how"] in ("tri", "tdist"):
            scribble(raw)
        elif not o["feat"]:
            raw.edge_features["edited"] = raw.node_features["edited"] = 1
        else:
            return False
        return True
    if g in ("plot", "fplot") and not isinstance(raw, dict):
        return False
    if g == "plot":
        return False  # artists on the axes
    scribble(raw)
    return True


# ---------------------------------------------------------------- probes
def empties(sc, spec):
    """What newly made objects must look like."""
    from pytspl.plot import SCPlot
    from pytspl.simplicial_complex import SimplicialComplex
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    out = {}
    e = SimplicialComplex()
    out["complex"] = [list(e.nodes), list(e.edges), list(e.triangles), dict(e.node_features), dict(e.edge_features), np.asarray(e.B1).shape]
    b = SCBuilder(nodes=[0, 1, 2], edges=[(0, 1), (1, 2), (0, 2)])
    c = b.to_simplicial_complex()
    out["builder"] = [list(b.nodes), list(b.edges), dict(b.node_features), dict(b.edge_features), [tuple(t) for t in c.triangles], dict(c.node_features), dict(c.edge_features)]
    for n in F.CLASSES:
        h = F.make(n, sc).history
        out["filter " + n] = sorted((k, v is None) for k, v in h.items())
    out["plot"] = [SCPlot(sc).pos]
    out["trainer"] = [getattr(G.trainer(sc, np.zeros(len(spec["edges"]))), "model", None)]
    return out


EXPECT = {
    "complex": [[], [], [], {}, {}, (0, 0)],
    "builder": [[0, 1, 2], [(0, 1), (1, 2), (0, 2)], {}, {}, [(0, 1, 2)], {}, {}],
    "plot": [None],
    "trainer": [None],
}


def judge_empties(got):
    for k, v in got.items():
        if k.startswith("filter"):
            if not all(n for _, n in v):
                return f"a new {k} starts with a record: {v}"
        elif v != EXPECT[k]:
            return f"a new {k} starts as {v}"
    return None


class Twins:
    """Objects made at the start and never used by any caller."""

    def __init__(self, plan):
        from pytspl.plot import SCPlot
        from pytspl.simplicial_complex import SimplicialComplex
        from pytspl.simplicial_complex.scbuilder import SCBuilder

        spec = plan["spec"]
        self.sc = W.build(spec)
        self.empty = SimplicialComplex()
        self.bare = W.build(spec, features=False)
        self.builder = SCBuilder(nodes=[0, 1, 2], edges=[(0, 1), (1, 2), (0, 2)])
        self.filters = {n: F.make(n, self.sc) for n in F.CLASSES}
        flow = np.linspace(1, 2, len(spec["edges"]))
        self.filters["ef"].denoise(f=flow, f_true=flow, p_choice="L1")
        self.plot = SCPlot(self.sc, {v: list(p) for v, p in plan["coords"]})

    def fp(self):
        return {"complex": K.fp(self.sc), "default complex": K.fp(self.empty), "complex without features": K.fp(self.bare), "builder": K.fp(self.builder),
                "filters": tuple((n, K.fp(f.history)) for n, f in self.filters.items()), "plot": K.fp(self.plot.pos)}


def run(plan, ctx):
    C.silence()
    import matplotlib.pyplot as plt

    disk = devices.install_disk(devices.SimDisk())
    spec = plan["spec"]
    refs = C.References(ctx)
    for c in plan["clients"]:
        for op in c["ops"]:
            FI.mount(disk, K.mounts(op["o"]))
    for c in plan["clients"]:
        for op in c["ops"]:
            if op.get("fault") or op.get("io"):
                op["_exp"] = refs.get([op["o"]], lambda op=op: K.prepare(op["o"], K.Env(spec, W.build(spec), plan["coords"], disk)).fn(), None)
    twins = Twins(plan)
    twins_fp = twins.fp()
    sc = W.build(spec)
    env = K.Env(spec, sc, plan["coords"], disk)
    snap = K.fp(sc)
    held = []  # [label, object, fingerprint]
    flags = {"n": False}
    alone = len(plan["clients"]) == 1

    def audit():
        for h in held:
            if h is not None and K.fp(h[1]) != h[2]:
                return h[0]
        return None

    def client(i):
        for j, op in enumerate(plan["clients"][i]["ops"]):
            o = op["o"]
            label = f"caller {i} call {j} {K.name(o)}{' (invalid arguments)' if o.get('bad') else ''}"
            if "rs" in o:
                np.random.seed(o["rs"])
            call = K.prepare(o, env, i)
            before = {k: K.fp(v) for k, v in call.args.items()}
            args = {}
            if op.get("fault"):
                args = C.crash_point(op["fault"], op["_exp"])
            elif op.get("io") and op["_exp"].io_events:
                args = {"iofault": {"event": 1 + int(op["io"]["x"] * op["_exp"].io_events), "err": op["io"]["err"]}}
            try:
                out = C.execute(call.fn, None, label=label, **args)
            except core.StepBudget:
                ctx.violate("no-progress", label)
                return
            C.count_fired(ctx, out)
            if not out.ok and not out.fired and not out.io_fired:
                ctx.count("fault:invalid_argument" if o.get("bad") else "natural_failures")
            ctx.event(i, j, K.name(o), out.ok, type(out.exc).__name__ if out.exc is not None else "", out.fired)
            ctx.cov(K.name(o), out.ok, bool(out.fired or out.io_fired), op.get("edit"), bool(o.get("bad")))
            if not out.ok:
                flags["n"] = True
            how = "returned" if out.ok else f"raised {type(out.exc).__name__}"
            for k, v in call.args.items():
                if K.fp(v) != before[k]:
                    ctx.violate("argument-changed", f"{label} {how}; the caller's argument {k!r} was {str(before[k])[:300]}, now {str(K.fp(v))[:300]}")
                    return
            if alone:
                if K.fp(sc) != snap:
                    ctx.violate("complex-changed", f"{label} {how}; the complex changed")
                    return
                bad = audit()
                if bad:
                    ctx.violate("result-changed", f"{label} {how}; {bad} changed")
                    return
            for k, v in call.args.items():
                held.append([f"the argument {k!r} of {label}", v, before[k]])
            if out.ok and not call.live:
                if op.get("edit") and edit(o, out.raw):
                    flags["n"] = True
                    ctx.count("results_edited")
                else:
                    held.append([f"the result of {label}", out.raw, K.fp(out.raw)])

    sched = core.Scheduler(ctx, [client] * len(plan["clients"]), plan["preempt"], plan["first"])
    sched.run()
    ctx.nontrivial = flags["n"] or sched.switches > 0
    ctx.sample = {"callers": [[K.name(op["o"]) + ("!" if op.get("fault") or op.get("io") else "") + ("~" if op.get("edit") else "") for op in c["ops"]] for c in plan["clients"]], "switches": sched.switches}
    if ctx.violations:
        return
    if K.fp(sc) != snap:
        ctx.violate("complex-changed", "after the calls the shared complex differs")
        return
    bad = audit()
    if bad:
        ctx.violate("result-changed", f"after the calls and the callers' edits {bad} changed")
        return
    now = twins.fp()
    for k in now:
        if now[k] != twins_fp[k]:
            ctx.violate("shared-state", f"the {k} made independently and used by nobody changed")
            return
    msg = judge_empties(empties(sc, spec))
    if msg:
        ctx.violate("shared-state", msg)
    plt.close("all")
