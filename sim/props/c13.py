"""C13: a drawing shows the complex's own data."""
import copy

import numpy as np

from .. import client as C
from .. import core, plots as P, ref as R, world as W

PROPERTY = "C13"
RUNS = {"quick": 1800, "thorough": 30000}
RULE = (
    "1-6 drawings by one or two plot objects of a seeded complex (reversed edges, isolated nodes), with or without coordinates: nodes, edges, labels, whole "
    "networks, decompositions, eigenvectors; flows as dictionaries in any order, arrays and lists; seeded options; some drawings fail by invalid "
    "arguments or are interrupted at a library line, then drawing goes on. The artists of each completed drawing are read back and related to the data; "
    "with coordinates the same call alone in a pristine process must leave the same artists. Non-trivial: at least two drawings by one plot, or a "
    "failed drawing. Distinct: different event log."
)
REAL = ["pytspl.plot, simplicial_complex; matplotlib artists (not rasterised), networkx drawing"]
STUB = ["NumPy's global random stream: seeded (layouts)"]
ASSUME = ["artists are judged by position, text and colour; colours by the colour bar drawn for them"]


def gen(rng, tier, idx):
    spec = W.gen_complex(rng, nmin=3, nmax=7, max_edges=12)
    coords = P.gen_coords(rng, spec["n"]) if rng.random() < 0.65 else None
    ops = []
    kinds = rng.choice([P.AXES_OPS * 2 + P.FIG_OPS] * 8 + [P.FIG_OPS, ["eigvec"], ["labels", "network"]])
    for _ in range(rng.randint(1, 6) if len(kinds) > 2 else rng.randint(2, 3)):
        o = P.gen_draw(rng, spec, kinds)
        op = {"o": o, "ax": rng.choice(["own", "pyplot", "current"])}
        if ops and rng.random() < 0.2:
            op["o"] = copy.deepcopy(rng.choice(ops)["o"])
        w = rng.random()
        if w < 0.15:
            op["o"] = P.gen_bad(rng, op["o"])
        elif w < 0.35:
            op["fault"] = C.gen_fault(rng, kernels=False)
        op["plot"] = 0 if rng.random() < 0.7 else 1
        ops.append(op)
    coords2 = P.gen_coords(rng, spec["n"]) if coords and rng.random() < 0.5 else coords
    return {"spec": spec, "coords": coords, "coords2": coords2, "ops": ops}


def new_axes(how):
    import matplotlib.figure
    import matplotlib.pyplot as plt

    if how == "own":
        return matplotlib.figure.Figure(figsize=(6, 4)).subplots()
    fig = plt.figure(figsize=(6, 4))
    return fig.add_subplot()


def draw(plot, a, how, neig):
    """Executes one drawing on new axes; returns (result, axes or figure)."""
    import matplotlib.pyplot as plt

    if a.o["k"] in P.FIG_OPS:
        return P.call(plot, a, None, neig), plt.gcf()
    ax = new_axes(how)
    return P.call(plot, a, None if how == "current" else ax, neig), ax


def run(plan, ctx):
    C.silence()
    import matplotlib.pyplot as plt
    from pytspl.plot import SCPlot

    spec = plan["spec"]
    ref = R.Ref(spec)
    sc = W.build(spec)
    snap = W.snapshot(sc)
    make = lambda i: {v: tuple(p) for v, p in plan["coords2" if i else "coords"]} if plan["coords"] else None
    given = [make(0), make(1)]
    plots = [SCPlot(sc, coordinates=g) if i == 0 else SCPlot(W.build(spec), g) for i, g in enumerate(given)]
    neigs, eigs = {}, {}
    for comp in W.COMPONENTS:
        neigs[comp] = int(round(np.trace(ref.proj(comp))))
    refs = C.References(ctx)
    layouts = [None, None]
    done = [0, 0]
    for j, op in enumerate(plan["ops"]):
        o = op["o"]
        neig = neigs.get(o.get("comp"))
        if o["k"] == "eigvec" and not neig:
            continue
        pi = op["plot"]
        label = f"drawing {j} {o['k']} plot {pi} {'(' + o['bad'] + ')' if o.get('bad') else ''} options {o['opt']}"
        a = P.Args(o, spec)

        def alone():
            p = SCPlot(W.build(spec), coordinates=make(pi))
            r, target = draw(p, P.Args(o, spec), op["ax"], neig)
            return [P.axes_print(x) for x in (target.axes if o["k"] in P.FIG_OPS else target.figure.axes)]

        exp = refs.get([o, op["ax"], pi], alone, lambda r: r)
        with core.Solo(ctx):
            try:
                out = C.execute(lambda: draw(plots[pi], a, op["ax"], neig), None, label=label, **C.crash_point(op.get("fault"), exp))
            except core.StepBudget:
                ctx.violate("no-progress", label)
                return
        C.count_fired(ctx, out)
        ctx.event(j, o["k"], out.ok, type(out.exc).__name__ if out.exc else None, out.fired)
        ctx.cov(o["k"], o.get("bad"), out.fired, bool(plan["coords"]), o.get("directed"), o.get("form"), tuple(sorted(o["opt"])))
        if not a.unchanged():
            ctx.violate("arguments-changed", f"{label}: {a.before} became {a.copy()}")
            return
        if plan["coords"] and any(g != make(i) or list(g) != list(make(i)) for i, g in enumerate(given)):
            ctx.violate("coordinates-changed", f"{label}: {given[pi]}")
            return
        if W.snapshot(sc) != snap:
            ctx.violate("complex-changed", label)
            return
        if not out.ok:
            ctx.nontrivial = True
            if exp.ok and not out.fired:
                ctx.violate("drawing-fails", f"{label}: raised {type(out.exc).__name__}: {out.exc}")
                return
            plt.close("all")
            continue
        done[pi] += 1
        if done[pi] > 1:
            ctx.nontrivial = True
        if o.get("bad"):
            plt.close("all")
            continue
        result, target = out.raw
        pos = plan["coords"] and dict(make(pi)) or plots[pi].pos
        if pos is None:
            ctx.violate("no-layout", f"{label}: no layout was kept")
            return
        pos = {v: np.asarray(p, float) for v, p in pos.items()}
        if layouts[pi] is not None and (set(pos) != set(layouts[pi]) or any(not np.array_equal(pos[v], layouts[pi][v]) for v in pos)):
            ctx.violate("layout-changed", f"{label}: the plot's layout changed between drawings")
            return
        layouts[pi] = {v: p.copy() for v, p in pos.items()}
        if o["k"] in P.FIG_OPS:
            eig = None
            if o["k"] == "eigvec" and plan["coords"]:
                if o["comp"] not in eigs:
                    eigs[o["comp"]] = core.pristine(lambda: [np.asarray(x) for x in W.build(spec).get_component_eigenpair(o["comp"])])
                eig = eigs[o["comp"]]
            msg = P.inspect_figure(o, target, spec, ref, pos, neig, eig) if plan["coords"] else None
        else:
            msg = P.inspect(o, target, spec, pos, result) if plan["coords"] else inspect_layout(o, target, spec, pos)
        if msg:
            ctx.violate("wrong-drawing", f"{label}: {msg}")
            return
        if plan["coords"]:
            got = [P.axes_print(x) for x in (target.axes if o["k"] in P.FIG_OPS else target.figure.axes)]
            if exp.ok and got != exp.value:
                ctx.violate("drawing-depends-on-history", f"{label}: {diff(got, exp.value)}")
                return
        plt.close("all")
    ctx.sample = {"drawings": [[op["o"]["k"], op["o"].get("bad"), op.get("fault"), op["ax"]] for op in plan["ops"]], "coordinates": bool(plan["coords"]), "edges": len(spec["edges"])}


def inspect_layout(o, ax, spec, pos):
    """With a computed layout labels of different edges may overlap: everything
    but edge labels is judged; those by their texts only."""
    if o["k"] == "labels":
        have = sorted(t for t, _ in P.texts(ax))
        want = sorted(str(v) for _, v in o["elab"])
        return None if have == want else f"labels {have}, asked for {want}"
    if o["k"] in ("nodes", "network"):
        msg = P.inspect_nodes(ax, spec, pos, o)
        if msg:
            return msg
        if o["labels"]:
            msg = P.inspect_node_labels(P.texts(ax), spec, pos)
            if msg:
                return msg
    if o["k"] in ("edges", "network"):
        vals = dict(zip(map(tuple, spec["edges"]), o["flow"])) if "flow" in o else None
        return P.inspect_edges(ax, spec, pos, o, vals)
    return None


def diff(a, b):
    if len(a) != len(b):
        return f"{len(a)} axes, alone {len(b)}"
    for x, y in zip(a, b):
        for i, (u, v) in enumerate(zip(x, y)):
            if u != v:
                if isinstance(u, tuple) and isinstance(v, tuple):
                    only = [k for k in u if k not in v][:3], [k for k in v if k not in u][:3]
                    return f"entry {i}: here {str(only[0])[:400]} alone {str(only[1])[:400]}"
                return f"entry {i}: here {str(u)[:300]} alone {str(v)[:300]}"
    return "?"
