"""Drawing operations: generation, execution, and reading figures back."""
import numpy as np

from . import filters as F, world as W
from .world import COMPONENTS, Malformed

AXES_OPS = ["nodes", "edges", "edges", "labels", "network", "network", "network"]
FIG_OPS = ["hodge", "eigvec"]


# ------------------------------------------------------------------ generation
def gen_coords(rng, n):
    """Well separated points on a (mostly jittered) grid, in any dictionary order;
    sometimes far from the origin or stretched, as geographic coordinates are."""
    k = int(np.ceil(np.sqrt(n)))
    cells = [(i, j) for i in range(k + 1) for j in range(k + 1)]
    rng.shuffle(cells)
    jit = rng.choice([0.5, 0.5, 0.5, 0.0])
    sx, sy, ox, oy = rng.choice([(1, 1, 0, 0)] * 6 + [(1e5, 1e5, 5e5, 3e6), (1, 1, -50, -50), (1000, 1, -2e4, 0), (1, 300, 7, -1e6), (3e6, 3e6, 0, 0)])
    pts = [[round(sx * (2.0 * i + rng.uniform(-jit, jit)) + ox, 3), round(sy * (2.0 * j + rng.uniform(-jit, jit)) + oy, 3)] for i, j in cells[:n]]
    out = [[v, p] for v, p in enumerate(pts)]
    rng.shuffle(out)
    return out


def distinct_flow(rng, m):
    """Values that identify their edge; sometimes whole numbers."""
    if rng.random() < 0.12:
        return rng.sample(range(-20, 20), m)
    vals = rng.sample(range(-300, 300), m)
    s = rng.choice([100] * 10 + [1e8, 1e-4])  # sometimes tiny or huge
    return [v / s for v in vals]


def gen_draw(rng, spec, kinds):
    k = rng.choice(kinds)
    m, n = len(spec["edges"]), spec["n"]
    o = {"k": k, "opt": {}}
    opt = o["opt"]
    if k in ("nodes", "network"):
        if rng.random() < 0.4:
            o["ncol"] = distinct_flow(rng, n)
        elif rng.random() < 0.3:
            opt["node_color"] = rng.choice(["red", "#00ff00"])
        if rng.random() < 0.2:
            opt["margins"] = rng.choice([0.1, 0, 0.5, [0.1, 0.3], [0, 0.2]])
        if rng.random() < 0.25:
            opt["cmap"] = rng.choice(["Reds", "viridis", "coolwarm", None])
        if rng.random() < 0.15:
            opt["node_edge_colors"] = rng.choice(["red", "black"])
        if o.get("k") == "nodes" and rng.random() < 0.3 or rng.random() < 0.1:
            opt.update(rng.choice([{"font_size": 7}, {"font_color": "green"}, {"font_weight": "bold"}, {"font_size": 20, "font_color": "red"}]))
        if rng.random() < 0.3:
            opt["node_size"] = rng.choice([50, 120])
        if "ncol" in o and rng.random() < 0.3:
            opt.update(rng.choice([{"vmin": -4.0, "vmax": 4.0}, {"vmin": -4.0, "vmax": 6.0}, {"vmin": 0.0, "vmax": 3.0}, {"vmin": -2.0, "vmax": 0.0}, {"vmin": -30.0}, {"vmax": 30.0}]))
    if k in ("nodes", "network"):
        o["labels"] = rng.random() < 0.6
    if k in ("edges", "network"):
        o["directed"] = rng.random() < 0.6
        w = rng.random()
        if w < 0.7:
            o["flow"] = distinct_flow(rng, m)
            order = list(range(m))
            if rng.random() < 0.6:
                rng.shuffle(order)
            o["order"] = order
            o["form"] = "dict" if k == "edges" else rng.choice(["dict", "array", "list"])
        if rng.random() < 0.3:
            opt["edge_width"] = rng.choice([1.5, 4.0])
        if rng.random() < 0.2:
            opt["arrowsize"] = rng.choice([5, 25])
        if rng.random() < 0.25:
            opt["edge_cmap"] = rng.choice(["Greens", "plasma", "coolwarm", None])
        if "flow" not in o and rng.random() < 0.4:
            opt["edge_color"] = rng.choice(["red", "#0000ff"])
        if "flow" in o and rng.random() < 0.3:
            opt.update(rng.choice([{"edge_vmin": -5.0, "edge_vmax": 5.0}, {"edge_vmin": -5.0, "edge_vmax": 3.5}, {"edge_vmin": 0.0, "edge_vmax": 3.0}, {"edge_vmin": -2.0, "edge_vmax": 0.0}, {"edge_vmin": -30.0}, {"edge_vmax": 30.0}]))
    if k == "labels":
        vals = distinct_flow(rng, m)
        o["elab"] = [[e, v if rng.random() < 0.8 else f"L{i}"] for i, (e, v) in enumerate(zip(spec["edges"], vals))]
        rng.shuffle(o["elab"])
        o["elab"] = o["elab"][:rng.randint(1, m)]
    if k in ("labels", "network") and rng.random() < 0.3:
        opt["offset"] = rng.choice([0.05, 0.2])
    if k != "labels" and rng.random() < 0.2:
        opt["alpha"] = rng.choice([0.5, 1.0])
    if k == "labels" and rng.random() < 0.3:
        opt.update(rng.choice([{"font_size": 7}, {"font_color": "green"}, {"font_weight": "bold"}]))
    if k in FIG_OPS:
        opt.clear()
        if rng.random() < 0.3:
            opt["figsize"] = rng.choice([[6, 4], [9, 3], [12, 12]])
        if rng.random() < 0.3:
            opt["font_dict"] = rng.choice([{"fontsize": 8}, {"fontsize": 30}, {}])
    if k == "hodge":
        o["flow"] = W.gen_flow(rng, m)
        o["comp"] = rng.choice([None, None] + COMPONENTS)
        o["round"] = rng.random() < 0.6
        o["sig"] = rng.choice([1, 2, 3])
    if k == "eigvec":
        o["comp"] = rng.choice(COMPONENTS)
        o["x"] = rng.choice([None, None, [], [round(rng.random(), 3) for _ in range(rng.randint(1, 4))]])
        o["round"] = rng.random() < 0.4
        o["sig"] = rng.choice([2, 2, 1, 3])
        o["labels"] = rng.random() < 0.8
    return o


def gen_bad(rng, o):
    """Arguments that make the drawing fail."""
    o = dict(o, opt=dict(o["opt"]))
    k = o["k"]
    if k == "network":
        o["bad"] = rng.choice(["option", "edge", "ncol"])
    elif k == "edges":
        o["bad"] = rng.choice(["edge", "type"])
    elif k == "labels":
        o["bad"] = rng.choice(["edge", "type"])
    elif k == "nodes":
        o["bad"] = "ncol"
    else:
        o["bad"] = "comp"
    return o


class Args:
    """The caller's own argument objects of one drawing call."""

    def __init__(self, o, spec):
        self.o = o
        kw = dict(o["opt"])
        bad = o.get("bad")
        for key in ("cmap", "edge_cmap"):
            if kw.get(key) is not None:
                import matplotlib

                kw[key] = matplotlib.colormaps[kw[key]]
        if "font_dict" in kw:
            kw["font_dict"] = dict(kw["font_dict"])
        if "ncol" in o:
            kw["node_color"] = list(o["ncol"])
        if bad == "ncol":
            kw["node_color"] = [0.5] * (spec["n"] + 2)
        self.flow = None
        if o["k"] in ("edges", "network"):
            if "flow" in o:
                if o["form"] == "dict":
                    self.flow = {tuple(spec["edges"][i]): o["flow"][i] for i in o["order"]}
                elif o["form"] == "array":
                    self.flow = W.as_flow(o["flow"])
                else:
                    self.flow = list(o["flow"])
            if bad == "edge":
                self.flow = {(0, 1): 1.0, (0, 10**6): 2.0}
            if bad == "type":
                self.flow = [1.0, 2.0]
            if bad == "option":
                kw["no_such_option"] = 1
        elif o["k"] == "hodge":
            self.flow = W.as_flow(o["flow"])
        elif o["k"] == "labels":
            self.flow = {tuple(e): v for e, v in o["elab"]}
            if bad == "edge":
                self.flow = {(0, 10**6): 2.0}
            if bad == "type":
                self.flow = [1.0]
        self.kw = kw
        self.before = self.copy()

    def copy(self):
        f = self.flow
        f = list(f.items()) if isinstance(f, dict) else f.tolist() if isinstance(f, np.ndarray) else list(f) if f is not None else None
        return repr((f, sorted((k, repr(v)) for k, v in self.kw.items())))

    def unchanged(self):
        return self.copy() == self.before


def call(plot, a, ax, neig=None):
    o, kw = a.o, a.kw
    k = o["k"]
    comp = "no such component" if o.get("bad") == "comp" else o.get("comp")
    if k == "nodes":
        return plot.draw_sc_nodes(with_labels=o["labels"], ax=ax, **kw)
    if k == "edges":
        return plot.draw_sc_edges(edge_flow=a.flow, directed=o["directed"], ax=ax, **kw)
    if k == "labels":
        return plot.draw_edge_labels(a.flow, ax=ax, **kw)
    if k == "network":
        return plot.draw_network(edge_flow=a.flow, directed=o["directed"], with_labels=o["labels"], ax=ax, **kw)
    if k == "hodge":
        return plot.draw_hodge_decomposition(flow=a.flow, component=comp, round_fig=o["round"], round_sig_fig=o["sig"], **kw)
    if k == "eigvec":
        idx = eig_indices(o, neig)
        return plot.draw_eigenvectors(component=comp, round_fig=o["round"], round_sig_fig=o.get("sig", 2), with_labels=o["labels"], **kw, **({} if idx is None else {"eigenvector_indices": idx}))
    raise ValueError(k)


def eig_indices(o, neig):
    if o["x"] is None or not neig:
        return None
    return [int(x * neig) % neig for x in o["x"]]


# ------------------------------------------------------------------ fingerprint
def _r(x):
    x = np.asarray(x, dtype=float).round(6)
    return (x.shape, tuple((x + 0.0).ravel().tolist()))


def artist_print(c):
    import matplotlib.collections as mc
    import matplotlib.image as mi
    import matplotlib.lines as ml
    import matplotlib.patches as mp
    import matplotlib.text as mt

    base = (type(c).__name__, bool(c.get_visible()), c.get_zorder(), c.get_alpha() if not isinstance(c.get_alpha(), np.ndarray) else "array")
    if isinstance(c, mt.Text):
        return base + (c.get_text(), tuple(float(round(v, 6)) for v in c.get_position()), c.get_fontsize(), str(c.get_color()))
    if isinstance(c, ml.Line2D):
        return base + (_r(c.get_xdata()), _r(c.get_ydata()), str(c.get_color()))
    if isinstance(c, mc.Collection):
        seg = [_r(p.vertices) for p in c.get_paths()] if isinstance(c, mc.LineCollection) else len(c.get_paths())
        return base + (_r(c.get_offsets()), str(seg), _r(c.get_facecolor()), _r(c.get_edgecolor()), _r(c.get_linewidth()), None if c.get_array() is None else _r(c.get_array()), tuple(c.get_clim()) if c.get_array() is not None else None)
    if isinstance(c, mp.FancyArrowPatch):
        return base + (_r(c._posA_posB), _r(c.get_edgecolor()), c.get_linewidth())
    if isinstance(c, mp.Polygon):
        return base + (_r(c.get_xy()), _r(c.get_facecolor()))
    if isinstance(c, mp.Patch):
        return base + (_r(c.get_facecolor()),)
    if isinstance(c, mi.AxesImage):
        return base + (str(c.get_extent()),)
    return base


def axes_print(ax, position=True):
    kids = [artist_print(c) for c in ax.get_children() if type(c).__name__ not in ("XAxis", "YAxis", "Spine")]
    return (
        ax.get_title(), _r(ax.get_xlim()), _r(ax.get_ylim()), bool(ax.axison), _r(ax.xaxis.get_majorticklocs()), _r(ax.yaxis.get_majorticklocs()),
        ax.get_xlabel(), ax.get_ylabel(), _r(ax.get_position().bounds) if position else None, ax.get_label(), tuple(kids),
    )


def fig_print(fig):
    own = [artist_print(c) for c in list(fig.texts) + list(fig.patches) + list(fig.lines) + list(fig.images) + list(fig.legends)]
    return (tuple(float(v) for v in fig.get_size_inches()), fig.get_suptitle(), tuple(own))


# --------------------------------------------------------------------- reading
def colour_bars(ax):
    """Colour bars drawn for ax: (colormap, norm) in drawing order."""
    out = []
    for b in ax.figure.axes:
        cb = getattr(b, "_colorbar", None)
        if cb is not None:
            info = getattr(b, "_colorbar_info", None) or {}
            if ax in info.get("parents", [ax]):
                out.append((cb.mappable.cmap, cb.mappable.norm))
    return out


def close(a, b, tol=1e-6):
    return bool(np.allclose(np.asarray(a, float), np.asarray(b, float), atol=tol, rtol=0))


def rgb(c):
    return tuple(np.asarray(c, float).ravel()[:3].round(6))


def _colour_ok(colour, value, bars, lo=None, hi=None, name=None):
    """Is this the colour the (a) colour bar assigns to the value?"""
    for cmap, norm in bars:
        if name is not None and cmap.name != name:
            continue
        if (lo is not None and abs(norm.vmin - lo) > 1e-9) or (hi is not None and abs(norm.vmax - hi) > 1e-9):
            continue
        if close(rgb(cmap(norm(value))), rgb(colour), 1e-4):
            return True
    return False


def to_rgba(c):
    import matplotlib.colors

    return matplotlib.colors.to_rgba(c)


def inspect_nodes(ax, spec, pos, o):
    import matplotlib.collections as mc

    cols = [c for c in ax.collections if isinstance(c, mc.PathCollection)]
    pts = [(tuple(p), c, i) for c in cols for i, p in enumerate(np.asarray(c.get_offsets(), float))]
    if len(pts) != spec["n"]:
        return f"{len(pts)} node markers for {spec['n']} nodes"
    bars = colour_bars(ax)
    for v in range(spec["n"]):
        hit = [(c, i) for p, c, i in pts if close(p, pos[v])]
        if len(hit) != 1:
            return f"node {v} at {list(pos[v])}: {len(hit)} markers there; markers at {[p for p, _, _ in pts]}"
        if "ncol" in o:
            c, i = hit[0]
            arr = c.get_array()
            if arr is not None:
                if abs(float(arr[i]) - o["ncol"][v]) > 1e-9:
                    return f"node {v} has colour value {float(arr[i])}, its own is {o['ncol'][v]}"
                face = c.cmap(c.norm(float(arr[i])))
            else:
                face = c.get_facecolor()[i]
            if not _colour_ok(face, o["ncol"][v], bars, o["opt"].get("vmin"), o["opt"].get("vmax"), o["opt"].get("cmap")):
                return f"node {v} with value {o['ncol'][v]} has colour {rgb(face)}, which is not what its colour bar shows"
        elif "node_color" in o["opt"]:
            c, i = hit[0]
            face = np.asarray(c.get_facecolor())
            if not close(rgb(face[i % len(face)]), rgb(to_rgba(o["opt"]["node_color"])), 1e-4):
                return f"node {v} has colour {rgb(face[i % len(face)])}, asked for {o['opt']['node_color']}"
    return None


def texts(ax):
    return [(t.get_text(), tuple(float(v) for v in t.get_position())) for t in ax.texts]


def inspect_node_labels(ts, spec, pos):
    """Removes the node labels from ts; None or a message."""
    for v in range(spec["n"]):
        hit = [t for t in ts if t[0] == str(v) and close(t[1], pos[v])]
        if len(hit) != 1:
            return f"node {v}: {len(hit)} labels '{v}' at {list(pos[v])}; texts {ts}"
        ts.remove(hit[0])
    return None


def edge_label_near(ts, e, pos, offset):
    mid = (np.asarray(pos[e[0]], float) + np.asarray(pos[e[1]], float)) / 2
    return [t for t in ts if np.max(np.abs(np.asarray(t[1]) - mid)) <= offset + 1e-6]


def inspect_edge_labels(ts, labels, pos, offset, rest=True):
    """labels: {edge: string}"""
    for e, s in labels.items():
        hit = [t for t in edge_label_near(ts, e, pos, offset) if t[0] == s]
        if len(hit) < 1:
            near = edge_label_near(ts, e, pos, offset)
            return f"edge {e} has no label '{s}' near its middle; there: {near}"
    if rest and len(ts) != len(labels):
        return f"{len(ts)} edge labels for {len(labels)} edges: {ts}"
    return None


def drawn_edges(ax):
    """[(start, end, colour)] and whether they carry a direction."""
    import matplotlib.collections as mc
    import matplotlib.patches as mp

    out = []
    for p in ax.patches:
        if isinstance(p, mp.FancyArrowPatch):
            a, b = p._posA_posB
            st = str(p.get_arrowstyle())
            out.append((tuple(a), tuple(b), p.get_edgecolor(), "->" if "FilledB" in st or "CurveB" in st or "|>" in st or "->" in st else "-"))
    for c in ax.collections:
        if isinstance(c, mc.LineCollection):
            segs = c.get_segments()
            arr = c.get_array()
            cols = c.to_rgba(arr) if arr is not None else np.asarray(c.get_colors() if hasattr(c, "get_colors") else c.get_edgecolor())
            for i, s in enumerate(segs):
                out.append((tuple(s[0]), tuple(s[-1]), cols[i % len(cols)], "-"))
    return out


def inspect_edges(ax, spec, pos, o, values=None):
    """values: {edge: value, or list of possible values} or None"""
    import matplotlib.patches as mp

    got = drawn_edges(ax)
    edges = [tuple(e) for e in spec["edges"]]
    if len(got) != len(edges):
        return f"{len(got)} edges drawn, the complex has {len(edges)}"
    bars = colour_bars(ax)
    # with a single value there is no colour scale: the colour bar invents one
    if values is not None:
        values = {e: v if isinstance(v, list) else [v] for e, v in values.items()}
    flat = values is not None and len({round(v, 9) + 0.0 for vs in values.values() for v in vs}) == 1
    seen = []
    for e in edges:
        a, b = pos[e[0]], pos[e[1]]
        hit = [g for g in got if close(g[0], a) and close(g[1], b)]
        rev = [g for g in got if close(g[0], b) and close(g[1], a)]
        if o["directed"]:
            if len(hit) != 1:
                return f"edge {e}: {len(hit)} arrows from {list(a)} to {list(b)} ({len(rev)} the other way)"
            if hit[0][3] != "->":
                return f"edge {e}: no arrow head"
            g = hit[0]
        else:
            if len(hit) + len(rev) != 1:
                return f"edge {e}: {len(hit) + len(rev)} lines between {list(a)} and {list(b)}"
            g = (hit + rev)[0]
        seen.append(rgb(g[2]))
        if values is None and "edge_color" in o["opt"] and not close(seen[-1], rgb(to_rgba(o["opt"]["edge_color"])), 1e-4):
            return f"edge {e} has colour {seen[-1]}, asked for {o['opt']['edge_color']}"
        if values is not None and flat:
            if len({v for vs in values.values() for v in vs}) == 1 and seen[0] != seen[-1]:
                return f"edges with the same value have colours {seen[0]} and {seen[-1]}"
        elif values is not None and not any(_colour_ok(g[2], v, bars, o["opt"].get("edge_vmin"), o["opt"].get("edge_vmax"), o["opt"].get("edge_cmap")) for v in values[e]):
            return f"edge {e} with value {values[e][0]} has colour {rgb(g[2])}, which its colour bar does not assign to that value"
    polys = [np.asarray(p.get_xy(), float) for p in ax.patches if isinstance(p, mp.Polygon)]
    polys = [p[:-1] if len(p) == 4 and close(p[0], p[-1]) else p for p in polys]
    if len(polys) != len(spec["tri"]):
        return f"{len(polys)} triangles drawn, the complex has {len(spec['tri'])}"
    for t in spec["tri"]:
        want = sorted(tuple(np.round(pos[v], 6)) for v in t)
        if sum(1 for p in polys if len(p) == 3 and close(sorted(tuple(np.round(q, 6)) for q in p), want)) != 1:
            return f"triangle {t} at {want}: not drawn exactly once; drawn {[p.tolist() for p in polys]}"
    return None


def inspect(o, ax, spec, pos, result=None, edge_values=None, tol_values=None):
    """Does the axes show what operation o asks for?  None or a message.

    edge_values/tol_values: for figure-level drawings, the true values and how
    far a shown (rounded) value may be from them."""
    k = o["k"]
    missing = [v for v in range(spec["n"]) if v not in pos]
    if missing:
        return f"no coordinates for nodes {missing}"
    if k in ("nodes", "network"):
        msg = inspect_nodes(ax, spec, pos, o)
        if msg:
            return msg
    ts = texts(ax)
    edges = [tuple(e) for e in spec["edges"]]
    vals = None
    if "flow" in o and k in ("edges", "network"):
        vals = dict(zip(edges, o["flow"])) if edge_values is None else edge_values
    offset = o["opt"].get("offset", 0.15)
    if k in ("nodes", "network") and o["labels"]:
        msg = inspect_node_labels(ts, spec, pos)
        if msg:
            return msg
    shown = vals
    if k == "network" and o["labels"] and vals is not None:
        if tol_values is not None:
            shown = {}
            for e in edges:
                ok = [float(t[0]) for t in edge_label_near(ts, e, pos, offset) if abs(float(t[0]) - vals[e]) <= tol_values]
                if not ok:
                    return f"edge {e} shows {edge_label_near(ts, e, pos, offset)}, its value is {vals[e]}"
                shown[e] = sorted(ok, key=lambda x: abs(x - vals[e]))
            if len(ts) != len(edges):
                return f"{len(ts)} edge labels for {len(edges)} edges"
        else:
            msg = inspect_edge_labels(ts, {e: str(v) for e, v in vals.items()}, pos, offset)
            if msg:
                return msg
    elif k == "labels":
        lab = {tuple(e): str(v) for e, v in o["elab"]}
        msg = inspect_edge_labels(ts, lab, pos, offset)
        if msg:
            return msg
        if result is not None:
            if not isinstance(result, dict) or {tuple(e): t.get_text() for e, t in result.items()} != lab:
                return f"returned labels {({e: t.get_text() for e, t in result.items()} if isinstance(result, dict) else result)}, asked for {lab}"
    elif ts:
        return f"unexpected texts {ts}"
    if k in ("edges", "network"):
        return inspect_edges(ax, spec, pos, o, shown if not (tol_values is not None and not o.get("labels")) else None)
    return None


def network_axes(fig):
    return [a for a in fig.axes if getattr(a, "_colorbar", None) is None]


def inspect_figure(o, fig, spec, ref, pos, neig, eig=None):
    """Figure-level drawings. eig: the component's eigenpairs, if known."""
    if o["k"] == "hodge" and "figsize" in o["opt"] and not close(fig.get_size_inches(), o["opt"]["figsize"], 1e-3):
        return f"figure of size {fig.get_size_inches().tolist()}, asked for {o['opt']['figsize']}"
    axes = network_axes(fig)
    m = len(ref.edges)
    if o["k"] == "hodge":
        comps = [o["comp"]] if o["comp"] else ["gradient", "curl", "harmonic"]
        if len(axes) != len(comps):
            return f"{len(axes)} drawings, expected {len(comps)}"
        for comp, ax in zip(comps, axes):
            x = ref.proj(comp) @ np.asarray(o["flow"], float)
            if comp[0].upper() not in ax.get_title():
                return f"title {ax.get_title()!r} for the {comp} component"
            if "fontsize" in o["opt"].get("font_dict", {}) and abs(ax.title.get_fontsize() - o["opt"]["font_dict"]["fontsize"]) > 1e-6:
                return f"title in size {ax.title.get_fontsize()}, asked for {o['opt']['font_dict']}"
            tol = 0.5 * 10.0 ** -o["sig"] + 1e-6 if o["round"] else 1e-6
            no = {"k": "network", "opt": {}, "labels": True, "directed": True, "flow": x.tolist()}
            msg = inspect(no, ax, spec, pos, None, dict(zip(ref.edges, x)), tol)
            if msg:
                return f"{comp} drawing: {msg}"
        return None
    idx = eig_indices(o, neig)
    idx = idx or list(range(neig))
    if len(axes) != len(idx):
        return f"{len(axes)} drawings for {len(idx)} eigenvectors"
    sig = o.get("sig", 2)
    M = {"harmonic": ref.L1, "curl": ref.L1u, "gradient": ref.L1l}[o["comp"]]
    for which, ax in zip(idx, axes):
        try:
            lam = float(ax.get_title().split("=")[1])
        except (IndexError, ValueError):
            return f"title {ax.get_title()!r} shows no eigenvalue"
        if eig is not None and abs(lam - eig[1][which]) > 0.5001 * 10.0 ** -sig + 1e-9:
            return f"title {ax.get_title()!r} for eigenvector {which}, whose eigenvalue is {eig[1][which]}"
        no = {"k": "network", "opt": {}, "labels": o["labels"], "directed": True}
        if o["labels"]:
            ts = texts(ax)
            msg = inspect_node_labels(ts, spec, pos)
            if msg:
                return msg
            v = []
            for e in ref.edges:
                near = edge_label_near(ts, e, pos, 0.15)
                if len(near) != 1:
                    break  # labels of several edges are close together
                v.append(float(near[0][0]))
            if len(v) == m:
                x = np.array(v)
                step = 10.0 ** -sig
                if eig is not None and np.max(np.abs(x - eig[0][:, which])) > (0.5001 * step if o["round"] else 1e-9):
                    return f"{ax.get_title()}: drawn values {x.tolist()}, eigenvector {which} is {eig[0][:, which].tolist()}"
                slack = (1.1 * step * np.sqrt(m) if o["round"] else 1e-6) * (1 + np.linalg.norm(M, 2)) + 0.6 * step * max(1.0, np.linalg.norm(x))
                if abs(np.linalg.norm(x) - 1) > step * np.sqrt(m) or np.linalg.norm(M @ x - lam * x) > slack:
                    return f"{ax.get_title()}: drawn values {x.tolist()} are not a unit eigenvector of {o['comp']} eigenvalue {lam}"
                no["flow"] = x.tolist()
        else:
            msg = inspect_nodes(ax, spec, pos, no) or inspect_edges(ax, spec, pos, no, None)
            if msg:
                return msg
            continue
        msg = inspect(no, ax, spec, pos) if "flow" in no else None
        if msg:
            return f"{ax.get_title()}: {msg}"
    return None
