"""C09: seeded generation is reproducible and builds the complex it describes."""
import itertools
import random

import numpy as np

from .. import client as C
from .. import core, filters as F, ref as R, world as W

PROPERTY = "C09"
RUNS = {"quick": 3000, "thorough": 50000}
RULE = (
    "1-3 callers make 2-6 generator calls each (seeded size, density, threshold - sometimes exactly one of the drawn distances -, seed), repeated with the "
    "same arguments in changing process states: in between and concurrently the global random streams are seeded or drawn from, filters and layouts draw, "
    "the caller edits what it was given, and some generator calls are interrupted. Each result is compared with a pristine process whose streams are in "
    "another state and with the definition. Non-trivial: a context switch inside library code, or the same arguments generated twice. "
    "Distinct: different event log."
)
REAL = ["pytspl.io.sc_generator, SCBuilder, SimplicialComplex, networkx generators and layouts"]
STUB = ["thread scheduling (parked real threads, seeded)", "state of the global random streams"]
ASSUME = []


def gen(rng, tier, idx):
    def args():
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
        return {"n": n, "p": rng.choice([0.0, 0.2, 0.4, 0.5, 0.7, 0.9, 1.0]), "th": rng.choice([0.0, 0.3, 0.5, 0.5, 0.7, 0.9, 1.0, 2.0]), "seed": rng.choice([0, 1, 7, 42, rng.randrange(10**6)]), "exact": rng.choice([None, None, rng.randrange(30)])}

    pool = [args() for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.4:
        # calls that differ in one argument only
        a = rng.choice(pool)
        k = rng.choice(["p", "p", "p", "th", "n", "seed"])
        b = dict(a, exact=None)
        b[k] = {"p": round(min(1.0, max(0.0, a["p"] + rng.choice([-0.049, -0.03, -0.001, 0.001, 0.03, 0.049, 0.2]))), 4), "th": round(a["th"] + rng.choice([0.01, 0.1, 0.5]), 4), "n": a["n"] + 1, "seed": a["seed"] + rng.choice([1, 2**31 - 1 - a["seed"]])}[k]
        pool += [b, b]
    clients = []
    nc = rng.choice([1, 1, 2, 3])
    for _ in range(nc):
        ops = []
        for _ in range(rng.randint(2, 6)):
            w = rng.random()
            if w < 0.62:
                op = {"k": "gen", **rng.choice(pool)}
                if rng.random() < 0.15:
                    op["fault"] = C.gen_fault(rng, kernels=False)
                if rng.random() < 0.3:
                    op["edit"] = True
            elif w < 0.72:
                op = {"k": rng.choice(["np.seed", "py.seed", "torch.seed"]), "x": rng.choice([0, 42, rng.randrange(2**31)])}
            elif w < 0.86:
                op = {"k": rng.choice(["np.draw", "py.draw", "torch.draw"]), "x": rng.randint(1, 9)}
            else:
                op = {"k": rng.choice(["noise", "layout"])}
            ops.append(op)
        if not any(o["k"] == "gen" for o in ops):
            ops.append({"k": "gen", **pool[0]})
        clients.append({"ops": ops})
    return {"clients": clients, "preempt": core.gen_preempt(rng, 120 * nc) if nc > 1 else [], "first": rng.randrange(3)}


def generate(a):
    from pytspl import generate_random_simplicial_complex

    return generate_random_simplicial_complex(num_of_nodes=a["n"], p=a["p"], dist_threshold=a["th"], seed=a["seed"])


def norm(r):
    try:
        sc, coords = r
        s = W.snapshot(sc)
        dist = {tuple(int(v) for v in e): float(f["distance"]) for e, f in sc.edge_features.items()}
        return [tuple(s["nodes"]), tuple(s["edges"]), tuple(sorted(dist.items())), tuple(sorted(tuple(sorted(t)) for t in s["triangles"])),
                tuple(sorted(int(i) for i in coords)), np.array([np.asarray(coords[i], float) for i in sorted(coords)]).reshape(-1, 2)]
    except Exception as e:
        raise W.Malformed(f"{type(e).__name__}: {e}")


def scramble(sc, coords):
    """The caller changes everything it was given."""
    for c in coords.values():
        if isinstance(c, np.ndarray) and c.flags.writeable:
            c[:] = 0
    coords.clear()
    for f in list(sc.edge_features.values()) + list(sc.node_features.values() if isinstance(sc.node_features, dict) else []):
        if isinstance(f, dict):
            for k in f:
                f[k] = 99.0
            f["mine"] = 1.0
    sc.edge_features.clear()
    for x in (sc.edges, sc.nodes, sc.triangles):
        if isinstance(x, list) and x:
            x.reverse()
            x.pop()
    for M in (sc.B1, sc.B2):
        if isinstance(M, np.ndarray) and M.flags.writeable:
            M[...] = 7


def describe_fault(a, v):
    """Is this the complex the arguments describe?"""
    nodes, edges, dist, tri, cn, _ = v
    dist = dict(dist)
    if nodes != tuple(range(a["n"])):
        return f"nodes {nodes}"
    if cn != nodes:
        return f"coordinates for {cn}"
    pairs = {frozenset(e) for e in edges}
    if len(pairs) != len(edges) or any(len(p) != 2 for p in pairs) or not all(u in nodes and w in nodes for u, w in edges):
        return f"edges {edges} repeat or leave the nodes"
    if a["p"] == 0 and edges or a["p"] == 1 and len(edges) != a["n"] * (a["n"] - 1) // 2:
        return f"{len(edges)} edges with probability {a['p']}"
    if set(dist) != set(edges):
        return f"distances for {sorted(dist)}, edges {sorted(edges)}"
    d = {frozenset(e): x for e, x in dist.items()}
    exp = tuple(t for t in R.cliques3(edges) if all(d[frozenset(p)] < a["th"] for p in itertools.combinations(t, 2)))
    if tri != exp:
        return f"triangles {tri}, three-cliques with all distances below {a['th']}: {exp} (distances {dist})"
    return None


def streams():
    import torch

    s = np.random.get_state()
    return {"python": random.getstate(), "numpy": (s[0], s[1].tolist(), s[2:]), "torch": torch.get_rng_state().tolist()}


def run(plan, ctx):
    C.silence()
    import torch

    refs = C.References(ctx)
    spec = {"n": 4, "edges": [[0, 1], [1, 2], [0, 2], [2, 3]], "tri": [[0, 1, 2]], "dist": [1, 1, 1, 1]}
    flow = np.array([1.0, -2.0, 0.5, 3.0])

    def other(a, salt):
        np.random.seed(salt)
        random.seed(salt + 1)
        torch.manual_seed(salt + 2)
        return generate(a)

    for c in plan["clients"]:
        for op in c["ops"]:
            if op["k"] != "gen":
                continue
            a = {k: op[k] for k in ("n", "p", "th", "seed")}
            if op["exact"] is not None:
                e = refs.get([a, "first"], lambda: other(a, 5), norm)
                if e.ok and not e.malformed and e.value[2]:
                    a["th"] = sorted(x for _, x in e.value[2])[op["exact"] % len(e.value[2])]
            op["a"] = a
            op["_exp"] = refs.get([a], lambda: other(a, 99), norm)
    seen = {"n": {}}
    drawers = any(op["k"] in ("noise", "layout", "np.seed", "np.draw", "py.seed", "py.draw", "torch.seed", "torch.draw") for c in plan["clients"] for op in c["ops"])

    def client(i):
        for j, op in enumerate(plan["clients"][i]["ops"]):
            k = op["k"]
            if k == "np.seed":
                np.random.seed(op["x"])
            elif k == "py.seed":
                random.seed(op["x"])
            elif k == "torch.seed":
                torch.manual_seed(op["x"])
            elif k == "np.draw":
                np.random.rand(op["x"])
            elif k == "py.draw":
                [random.random() for _ in range(op["x"])]
            elif k == "torch.draw":
                torch.rand(op["x"])
            elif k == "noise":
                C.execute(lambda: F.make("tf", W.build(spec)).denoising_l2_regularizer(flow=flow, component="curl", num_realizations=1, snr_db=np.array([3.0])), None)
            elif k == "layout":
                def draw():
                    import matplotlib.figure
                    from pytspl.plot import SCPlot

                    ax = matplotlib.figure.Figure().subplots()
                    SCPlot(W.build(spec)).draw_network(ax=ax)
                C.execute(draw, None)
            else:
                a, exp = op["a"], op["_exp"]
                label = f"caller {i} call {j} generate {a}"
                alone = len(plan["clients"]) == 1
                before = streams() if alone else None
                try:
                    out = C.execute(lambda: generate(a), norm, label=label, **C.crash_point(op.get("fault"), exp))
                except core.StepBudget:
                    ctx.violate("no-progress", label)
                    return
                C.count_fired(ctx, out)
                ctx.event(i, j, out.ok, out.fired)
                ctx.cov(a["n"], a["p"], len(exp.value[3]) if exp.ok and not exp.malformed else -1, out.fired, len(seen["n"]))
                if alone:
                    after = streams()
                    bad = [s for s in before if before[s] != after[s]]
                    if bad:
                        ctx.violate("stream-disturbed", f"{label}: the global {'/'.join(bad)} stream changed")
                        return
                if out.fired and not out.ok:
                    continue
                if out.ok != exp.ok or (not out.ok and type(out.exc).__name__ != exp.exc[0]):
                    ctx.violate("not-reproducible", f"{label}: {out.brief()}; elsewhere {exp.brief() if exp.ok else exp.exc}")
                    return
                if not out.ok:
                    continue
                if out.malformed or exp.malformed or not W.same(out.value, exp.value, rtol=1e-9, atol=1e-12):
                    ctx.violate("not-reproducible", f"{label}: got {out.brief()}; elsewhere {exp.brief()}")
                    return
                msg = describe_fault(a, out.value)
                if msg:
                    ctx.violate("not-as-described", f"{label}: {msg}")
                    return
                key = str(a)
                seen["n"][key] = seen["n"].get(key, 0) + 1
                if op.get("edit"):
                    scramble(*out.raw)

    start = streams()
    sched = core.Scheduler(ctx, [client] * len(plan["clients"]), plan["preempt"], plan["first"])
    sched.run()
    if not drawers and not ctx.violations and streams() != start:
        ctx.violate("stream-disturbed", "a global stream changed while only the generator ran")
    ctx.nontrivial = sched.switches > 0 or any(n > 1 for n in seen["n"].values())
    ctx.sample = {"callers": [[op["k"] + (f"({op['n']},{op['p']},{op['th']},{op['seed']})" if op["k"] == "gen" else "") for op in c["ops"]] for c in plan["clients"]], "switches": sched.switches}
