"""C12: drawing touches only the axes it is given."""
import collections

import numpy as np

from .. import client as C
from .. import core, filters as F, plots as P, ref as R, world as W

PROPERTY = "C12"
RUNS = {"quick": 1500, "thorough": 30000}
RULE = (
    "1-3 callers draw on their own axes out of 1-3 figures (pyplot's or free ones, several axes each, some owned by nobody, all already holding artists) and "
    "make figure-level drawings, on a shared or own plot object, while they and others switch the current axes; calls interleave at library lines, some fail by "
    "invalid arguments or are interrupted. Around each call of a caller alone every other axes and figure is compared; after the interleaved run every axes, "
    "colour bar and figure must be exactly what its owner's calls alone leave. Non-trivial: a context switch inside library code, a failed drawing, or "
    "at least two drawings with other axes current. Distinct: different event log."
)
REAL = ["pytspl.plot, plotting methods of filters; matplotlib artists (not rasterised), pyplot state machine"]
STUB = ["thread scheduling (parked real threads, seeded)"]
ASSUME = ["filters' response plots use pyplot's current figure by design of their interface: they are checked for single callers only"]
KEEP = ("figures",)


def gen(rng, tier, idx):
    spec = W.gen_complex(rng, nmin=3, nmax=6, max_edges=10)
    ref = R.Ref(spec)
    nc = rng.choice([1, 1, 2, 2, 3])
    figures = [{"n": rng.randint(1, 3), "pyplot": rng.random() < 0.7} for _ in range(rng.randint(1, 3))]
    if sum(f["n"] for f in figures) < nc:
        figures[0]["n"] = 3
    where = [[i, j] for i, f in enumerate(figures) for j in range(f["n"])]
    rng.shuffle(where)
    clients = []
    for c in range(nc):
        mine = [where.pop()]
        if where and rng.random() < 0.4 and len(where) > nc - c:
            mine.append(where.pop())
        ops = []
        for _ in range(rng.randint(1, 5 if nc == 1 else 3)):
            w = rng.random()
            if w < 0.18:
                ops.append({"k": "sca", "x": rng.randrange(12)})
                continue
            if w < 0.36 and nc == 1:
                ops.append({"k": rng.choice(["efd", "cheb", "chebresp"])})
            else:
                o = P.gen_draw(rng, spec, P.AXES_OPS * 2 + P.FIG_OPS)
                if rng.random() < 0.15:
                    o = P.gen_bad(rng, o)
                ops.append({"k": "draw", "o": o, "ax": rng.randrange(len(mine))})
            if rng.random() < 0.22:
                ops[-1]["fault"] = C.gen_fault(rng, kernels=False)
        clients.append({"ops": ops, "axes": mine})
    return {"spec": spec, "coords": P.gen_coords(rng, spec["n"]), "figures": figures, "clients": clients, "shared": rng.random() < 0.5,
            "start": rng.choice(["none", "first", "last"]), "flow": W.gen_flow(rng, len(ref.edges)), "preempt": core.gen_preempt(rng, 180 * nc) if nc > 1 else [], "first": rng.randrange(3)}


class Stage:
    """The figures of a run, built afresh in every process that plays it."""

    def __init__(self, plan):
        import matplotlib.figure
        import matplotlib.pyplot as plt
        from pytspl.plot import SCPlot

        plt.close("all")
        self.plan = plan
        spec = plan["spec"]
        coords = lambda: {v: tuple(p) for v, p in plan["coords"]}
        self.figs, self.axes = [], {}
        for i, f in enumerate(plan["figures"]):
            fig = plt.figure(figsize=(9, 3)) if f["pyplot"] else matplotlib.figure.Figure(figsize=(9, 3))
            for j in range(f["n"]):
                ax = fig.add_subplot(1, f["n"], j + 1)
                ax.plot([0, 1 + i], [j, 1], color="green")
                ax.set_title(f"axes {i}.{j}")
                self.axes[(i, j)] = ax
            self.figs.append(fig)
        self.pyplot_axes = [a for (i, _), a in sorted(self.axes.items()) if plan["figures"][i]["pyplot"]]
        if plan["start"] != "none" and self.pyplot_axes:
            plt.sca(self.pyplot_axes[0 if plan["start"] == "first" else -1])
        sc = W.build(spec)
        common = SCPlot(sc, coordinates=coords())
        self.plots = [common if plan["shared"] else SCPlot(W.build(spec), coordinates=coords()) for _ in plan["clients"]]
        self.sc = sc
        self.old = list(plt.get_fignums())
        self.neig = {c: int(round(np.trace(R.Ref(spec).proj(c)))) for c in W.COMPONENTS}
        self.flow = W.as_flow(plan["flow"])
        self.filters = {}

    def filter(self, name):
        if name not in self.filters:
            flt = F.make(name, self.sc)
            if name == "ef":
                flt.denoise(f=self.flow, f_true=self.flow, p_choice="L1", mu_vals=np.array([0.5, 1.0]))
            else:
                flt.apply(f=self.flow, p_choice="L1", component="gradient", L=3)
            self.filters[name] = flt
        return self.filters[name]

    def thunk(self, i, op):
        import matplotlib.pyplot as plt

        if op["k"] == "sca":
            if self.pyplot_axes:
                return lambda: plt.sca(self.pyplot_axes[op["x"] % len(self.pyplot_axes)])
            return lambda: None
        if op["k"] == "efd":
            flt = self.filter("ef")
            return lambda: flt.plot_desired_frequency_response(p_choice="L1")
        if op["k"] == "cheb":
            flt = self.filter("ch")
            return lambda: flt.plot_chebyshev_series_approx(p_choice="L1", n=8)
        if op["k"] == "chebresp":
            flt = self.filter("ch")
            return lambda: flt.plot_frequency_response_approx(flow=self.flow, component="gradient")
        o = op["o"]
        a = P.Args(o, self.plan["spec"])
        ax = None if self.is_fig(op) else self.axes[tuple(self.plan["clients"][i]["axes"][op["ax"]])]
        return lambda: P.call(self.plots[i], a, ax, self.neig.get(o.get("comp")))

    def is_fig(self, op):
        return op["k"] in ("efd", "cheb", "chebresp") or (op["k"] == "draw" and op["o"]["k"] in P.FIG_OPS)

    def target(self, i, op):
        return tuple(self.plan["clients"][i]["axes"][op["ax"]]) if op["k"] == "draw" and not self.is_fig(op) else None

    def owner_of_bar(self, bar):
        info = getattr(bar, "_colorbar_info", None) or {}
        for p in info.get("parents", []):
            for key, ax in self.axes.items():
                if p is ax:
                    return key
        return None

    def prints(self):
        """What every axes, colour bar and figure holds."""
        import matplotlib.pyplot as plt

        out = {"axes": {k: P.axes_print(a) for k, a in self.axes.items()}, "figs": [P.fig_print(f) for f in self.figs], "bars": {}, "stray": []}
        for i, f in enumerate(self.figs):
            for a in f.axes:
                if any(a is b for b in self.axes.values()):
                    continue
                key = self.owner_of_bar(a)
                if key is None:
                    out["stray"].append((i, P.axes_print(a)))
                else:
                    out["bars"].setdefault(key, []).append(P.axes_print(a))
        out["new"] = [tuple(P.axes_print(a) for a in plt.figure(n).axes) + (P.fig_print(plt.figure(n)),) for n in self._new()]
        return out

    def _new(self):
        import matplotlib.pyplot as plt

        return [n for n in plt.get_fignums() if n not in self.old]

    def look(self):
        """prints() without disturbing which figure and axes are current."""
        import matplotlib._pylab_helpers as h
        import matplotlib.pyplot as plt

        cur = h.Gcf.get_active()
        out = self.prints()
        if cur is not None:
            h.Gcf.set_active(cur)
        assert not plt.get_fignums() or h.Gcf.get_active() is not None
        return out


def others_changed(stage, before, after, target, op, ok):
    """What changed that must not have."""
    tfig = target[0] if target else None
    for k in before["axes"]:
        if k != target and before["axes"][k] != after["axes"][k]:
            return f"axes {k} changed: {first_diff(before['axes'][k], after['axes'][k])}"
    for i, (x, y) in enumerate(zip(before["figs"], after["figs"])):
        if x != y:
            return f"figure {i} changed: {first_diff(x, y)}"
    for k in set(before["bars"]) | set(after["bars"]):
        if k != target and before["bars"].get(k) != after["bars"].get(k):
            return f"colour bars of axes {k} changed"
    if before["stray"] != after["stray"]:
        return f"figure {sorted({i for i, _ in after['stray']})} has new axes that belong to none of its axes (drawing on figure {tfig})"
    n = len(after["new"]) - len(before["new"])
    if after["new"][:len(before["new"])] != before["new"]:
        return "an earlier new figure changed"
    if stage.is_fig(op):
        if n > 1 or (ok and n != 1):
            return f"{n} new figures for one figure-level drawing"
    elif n:
        return f"{n} new figures for a drawing on given axes"
    return None


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if isinstance(x, tuple) and isinstance(y, tuple):
                gone, new = [k for k in x if k not in y][:2], [k for k in y if k not in x][:2]
                return f"entry {i}: gone {str(gone)[:300]} new {str(new)[:300]}"
            return f"entry {i}: {str(x)[:200]} -> {str(y)[:200]}"
    return f"{len(a)} -> {len(b)} entries"


def solo_client(plan, i, lines, ctx_steps):
    """Caller i alone: what it leaves, and the first foreign change."""
    C.silence()
    stage = Stage(plan)
    bad, seen = None, []
    with core.Solo(core.Ctx({})):
        for j, op in enumerate(plan["clients"][i]["ops"]):
            if skip(plan, stage, op):
                seen.append(((0, []) if lines is None else 0, True, None))
                continue
            fn = stage.thunk(i, op)
            before = stage.look()
            args = {}
            if lines is not None and op.get("fault") and lines[j][0]:
                r = C.Outcome()
                r.lines, r.sites = lines[j]
                args = C.crash_point(op["fault"], r)
            out = C.execute(fn, None, sites=lines is None, **args)
            after = stage.look()
            seen.append(((out.lines, out.sites) if lines is None else out.lines, out.ok, type(out.exc).__name__ if out.exc is not None else None))
            if bad is None and lines is not None:
                msg = others_changed(stage, before, after, stage.target(i, op), op, out.ok)
                if msg:
                    bad = f"caller {i} call {j} {describe(op)} ({'completed' if out.ok else 'failed with ' + type(out.exc).__name__}): {msg}"
                elif out.ok and stage.is_fig(op):
                    bad = fresh_differs(plan, i, op, after["new"][-1], j)
    return seen, stage.look(), bad


def fresh_differs(plan, i, op, got, j):
    """A figure-level drawing must look as it does in a process without figures."""
    p = dict(plan, figures=[], clients=[{"ops": [op], "axes": c["axes"]} for c in plan["clients"]])

    def go():
        stage = Stage(p)
        C.execute(stage.thunk(i, op), None)
        return stage.look()["new"]

    exp = core.pristine(go)
    if len(exp) != 1 or exp[0] != got:
        return f"caller {i} call {j} {describe(op)}: its new figure is not the one it draws where no other figure exists: {first_diff(exp[0], got) if exp else 'no figure there'}"
    return None


def skip(plan, stage, op):
    if op["k"] in ("cheb", "chebresp") and R.power_lambda(R.Ref(plan["spec"]).L1) is None:
        return True  # the interval of the approximation is not well defined
    return op["k"] == "draw" and op["o"]["k"] == "eigvec" and not stage.neig[op["o"]["comp"]] and not op["o"].get("bad")


def describe(op):
    return op["k"] if op["k"] != "draw" else f"{op['o']['k']}{' (' + op['o']['bad'] + ')' if op['o'].get('bad') else ''}"


def run(plan, ctx):
    C.silence()
    n = len(plan["clients"])
    solo = []
    lines = []
    for i in range(n):
        lines.append([s[0] for s in core.pristine(lambda: solo_client(plan, i, None, ctx))[0]])
        r = core.pristine(lambda: solo_client(plan, i, lines[i], ctx))
        ctx.count("reference_executions", 2)
        solo.append(r)
        if r[2]:
            ctx.violate("foreign-change", r[2])
            return
    calls = [(op, s) for i in range(n) for op, s in zip(plan["clients"][i]["ops"], solo[i][0])]
    for op, s in calls:
        ctx.cov(describe(op), bool(op.get("fault")), s[2])
    if n == 1:
        ctx.event(str(solo[0][0]))
        # count what the pristine copy did
        for op, s in calls:
            if op.get("fault") and not s[1]:
                ctx.count(f"fault:interrupt_{s[2]}")
        ctx.nontrivial = sum(op["k"] == "draw" for op, _ in calls) > 1 or any(not s[1] for _, s in calls)
        ctx.steps += sum(s[0] for _, s in calls)
        sample(ctx, plan, 0)
        return
    stage = Stage(plan)
    start = stage.look()
    for i in range(n):
        for op in plan["clients"][i]["ops"]:
            if op["k"] in ("efd", "cheb", "chebresp"):
                raise core.HarnessError("pyplot-based plot in a concurrent plan")

    def client(i):
        for j, op in enumerate(plan["clients"][i]["ops"]):
            if skip(plan, stage, op):
                continue
            args = {}
            if op.get("fault") and lines[i][j][0]:
                r = C.Outcome()
                r.lines, r.sites = lines[i][j]
                args = C.crash_point(op["fault"], r)
            label = f"caller {i} call {j} {describe(op)}"
            try:
                out = C.execute(stage.thunk(i, op), None, label=label, **args)
            except core.StepBudget:
                ctx.violate("no-progress", label)
                return
            C.count_fired(ctx, out)
            ctx.event(i, j, out.ok, out.fired)
            _, ok, exc = solo[i][0][j]
            if out.ok != ok or (not ok and type(out.exc).__name__ != exc):
                ctx.violate("call-differs", f"{label}: {'completed' if out.ok else 'raised ' + repr(out.exc)[:300]}; alone: {'completed' if ok else 'raised ' + str(exc)}")
                return

    sched = core.Scheduler(ctx, [client] * n, plan["preempt"], plan["first"])
    sched.run()
    ctx.nontrivial = sched.switches > 0
    sample(ctx, plan, sched.switches)
    if ctx.violations:
        return
    end = stage.look()
    owner = {tuple(a): i for i, c in enumerate(plan["clients"]) for a in c["axes"]}
    for k in end["axes"]:
        exp = solo[owner[k]][1]["axes"][k] if k in owner else start["axes"][k]
        if end["axes"][k] != exp:
            ctx.violate("foreign-change", f"axes {k} ({'owned by caller ' + str(owner[k]) if k in owner else 'owned by nobody'}): differs from what its owner's calls alone leave: {first_diff(exp, end['axes'][k])}")
            return
        eb = solo[owner[k]][1]["bars"].get(k) if k in owner else None
        if end["bars"].get(k) != eb:
            ctx.violate("foreign-change", f"colour bars of axes {k}: {len(end['bars'].get(k) or [])}, alone {len(eb or [])}, or they differ")
            return
    if end["figs"] != start["figs"] or end["stray"]:
        ctx.violate("foreign-change", f"a figure itself changed or has stray axes {[i for i, _ in end['stray']]}")
        return
    want = collections.Counter(map(repr, (f for r in solo for f in r[1]["new"])))
    have = collections.Counter(map(repr, end["new"]))
    if want != have:
        ctx.violate("figure-mixed", f"{sum(have.values())} new figures, {sum(want.values())} expected; {sum((have - want).values())} of them are not what their drawing alone makes")


def sample(ctx, plan, switches):
    ctx.sample = {"callers": [[describe(op) + ("!" if op.get("fault") else "") for op in c["ops"]] for c in plan["clients"]], "figures": plan["figures"], "switches": switches}
