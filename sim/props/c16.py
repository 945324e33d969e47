"""C16: the dataset catalogue loads the same data in any directory state."""
import io
import os
import pickle

import numpy as np

from .. import client as C
from .. import core, devices, files as FS, ref as R, world as W

PROPERTY = "C16"
RUNS = {"quick": 1400, "thorough": 20000}
TIERED = True
RULE = (
    "The packaged data directory on the simulated disk is given a seeded state: 0-4 further generated transport networks with or without coordinates, flow and network files, "
    "generated contents in place of the matrix-based, paper and sensor datasets (and of the file the package lacks), presence of the files that are not datasets, and a listing order that changes "
    "from listing to listing. 1-3 callers list, load (packaged and generated) and ask for unlisted names, some loads are interrupted, some callers then modify "
    "everything they received. Oracle: independent parsing of the files. Non-trivial: the state differs from the shipped one or callers interleaved. Distinct: different event log."
)
REAL = ["pytspl.io dataset catalogue, loaders and readers, SCBuilder, SimplicialComplex; pandas; pickle"]
STUB = ["disk and directory listing (contents real or generated)", "thread scheduling (parked real threads, seeded)"]
ASSUME = ["goldcoast, winnipeg and barcelona are loaded in the thorough tier only, chicago-regional (40 s a load) never"]
DATA = core.PKG + "data"
SMALL = ["paper", "siouxfalls", "test_dataset", "wsn", "forex", "chicago-sketch", "anaheim"]
BIG = ["goldcoast", "winnipeg", "barcelona"]
NAMES = ["alpha", "zeta-town", "chicago-sketch-2", "siouxfalls2", "README", "paper-town", "Aa", "wsn_net"]
WRONG = ["unknown", "Paper", "paper ", "", "siouxfalls/", "README.md", ".DS_Store", "lastfm", "chicago", "forex\n", "../paper_data", "lastfm-dataset-1K"]


# ----------------------------------------------------------- generated contents
def matrix_model(rng, m0=""):
    """Edges in column order, triangles, flow values."""
    while True:
        rec = FS.gen_records(rng, dup=False)
        edges = [[r[0], r[1]] for r in rec]
        tri = [list(t) for t in R.cliques3(edges) if rng.random() < 0.8]
        if tri:
            break
    rng.shuffle(tri)
    n = max(max(e) for e in edges) + 1
    return {"n": n, "edges": edges, "tri": tri, "flow": [round(rng.uniform(-50, 50), 3) for _ in edges]}


def gen_override(rng, name):
    """Generated contents for a built-in dataset: (files, model)."""
    if name == "paper":
        rec = FS.gen_records(rng, nmin=3, dup=rng.random() < 0.5)
        nodes, edges, first = FS.links(rec)
        coords = [[i, [round(rng.uniform(-5, 5), 3), round(rng.uniform(-5, 5), 3)]] for i in nodes]
        rng.shuffle(coords)
        flow = [round(rng.uniform(-5, 5), 3) for _ in edges]
        d = f"{DATA}/paper_data/"
        files = {
            d + "edges.csv": "Source Target Type Distance Capacity\n" + "".join(f"{r[0]} {r[1]} Undirected {r[2]!r} 1\n" for r in rec),
            d + "coordinates.csv": FS.render_coords(coords, 0, " ", ("Id", "X", "Y")),
            d + "flow.csv": "".join(f"{x!r}\n" for x in flow),
        }
        return files, {"name": name, "n": len(nodes), "edges": [list(e) for e in edges], "tri": None, "feats": [[list(e), {"Distance": rec[first[e]][2]}] for e in edges],
                       "coords": sorted(coords), "flow": [[*e, x] for e, x in zip(edges, flow)]}
    m = matrix_model(rng)
    ref = R.Ref(m)
    model = {"name": name, "n": m["n"], "edges": m["edges"], "tri": m["tri"], "feats": [], "coords": None, "flow": [[*e, x] for e, x in zip(m["edges"], m["flow"])]}
    b1, b2 = FS.render_matrix(ref.B1), FS.render_matrix(ref.B2.T)
    fl = "".join(f"{x!r}\n" for x in m["flow"])
    if name == "forex":
        d = f"{DATA}/foreign_exchange/"
        return {d + "B1.csv": b1, d + "B2t.csv": b2, d + "flow_FX_1538755200.csv": fl}, model
    if name == "lastfm-1k-artist":
        d = f"{DATA}/lastfm-dataset-1K/"
        return {d + "B1-artist.csv": b1, d + "B2t-artist.csv": b2, d + "flow-artist.csv": fl}, model
    if name == "chicago-sketch":
        d = f"{DATA}/transportation_networks/chicago-sketch/"
        coords = [[i, [round(rng.uniform(-5, 5), 3), round(rng.uniform(-5, 5), 3)]] for i in range(m["n"])]
        rng.shuffle(coords)
        model["coords"] = sorted(coords)
        return {d + "B1_chicago_sketch.csv": b1, d + "B2t_chicago_sketch.csv": b2, d + "flow_chicago_sketch.csv": fl, d + "coordinates_chicago_sketch.csv": FS.render_coords(coords, 0, ",", ("Id", "X", "Y"))}, model
    # sensor network: a pickle of incidence matrix, flow rates and heads
    model["tri"] = None
    rate = [round(rng.uniform(-0.2, 0.2), 4) for _ in m["edges"]]
    hr = [round(rng.uniform(1, 20), 3) for _ in m["edges"]]
    head = [round(rng.uniform(5, 8), 3) for _ in range(m["n"])]
    model["wsn"] = {"rate": rate, "hr": hr, "head": head}
    model["flow"] = head + [-h * np.sign(q) * abs(q) ** 1.852 for h, q in zip(hr, rate)]
    model["flow"] = [float(x) for x in model["flow"]]
    return {}, model


def wsn_bytes(model):
    B1 = R.Ref({"n": model["n"], "edges": model["edges"], "tri": []}).B1
    w = model["wsn"]
    return pickle.dumps((np.asarray(B1, float), list(w["rate"]), list(w["rate"]), list(w["head"]), np.array(w["hr"], float)))


# ------------------------------------------------------- what shipped files say
def rows_of(path, sep, skip=0):
    with open(path, newline=None) as f:
        lines = f.read().split("\n")[skip:]
    lines = [l for l in lines if l.strip()]
    if sep == " ":
        return [l.split() for l in lines]
    return [[x.strip() for x in l.split(sep)] for l in lines]


def val(s):
    try:
        return float(s)
    except ValueError:
        return s


def truth(name):
    """Independent reading of a shipped dataset."""
    T = f"{DATA}/transportation_networks/{name}/{name}"

    def matrix(p):
        with open(p) as f:
            return np.array([[float(x) for x in l.split(",")] for l in f.read().split("\n") if l.strip()])

    def from_matrices(b1, b2):
        B1, B2 = matrix(b1), matrix(b2).T
        edges = [[int(np.where(B1[:, j] == -1)[0][0]), int(np.where(B1[:, j] == 1)[0][0])] for j in range(B1.shape[1])]
        tri = [sorted({v for j in np.where(B2[:, t] != 0)[0] for v in edges[j]}) for t in range(B2.shape[1])]
        return edges, tri

    def coords(p, sep, off):
        r = rows_of(p, sep)
        ix = [r[0].index(c) for c in (("node" if "node" in r[0] else "Id"), "X", "Y")]
        return sorted([int(float(x[ix[0]])) - off, [float(x[ix[1]]), float(x[ix[2]])]] for x in r[1:])

    if name == "forex":
        d = f"{DATA}/foreign_exchange/"
        edges, tri = from_matrices(d + "B1.csv", d + "B2t.csv")
        fl = [float(r[0]) for r in rows_of(d + "flow_FX_1538755200.csv", ",")]
        return {"name": name, "n": max(map(max, edges)) + 1, "edges": edges, "tri": tri, "feats": [], "coords": None, "flow": [[*e, x] for e, x in zip(edges, fl)]}
    if name == "chicago-sketch":
        d = f"{DATA}/transportation_networks/chicago-sketch/"
        edges, tri = from_matrices(d + "B1_chicago_sketch.csv", d + "B2t_chicago_sketch.csv")
        fl = [float(x) for r in rows_of(d + "flow_chicago_sketch.csv", ",") for x in r]
        return {"name": name, "n": max(map(max, edges)) + 1, "edges": edges, "tri": tri, "feats": [], "coords": coords(d + "coordinates_chicago_sketch.csv", ",", 0), "flow": [[*e, x] for e, x in zip(edges, fl)]}
    if name == "wsn":
        with open(f"{DATA}/wsn/water_network.pkl", "rb") as f:
            B1, rate, _, head, hr = pickle.load(f)
        edges = [[int(np.where(B1[:, j] == -1)[0][0]), int(np.where(B1[:, j] == 1)[0][0])] for j in range(B1.shape[1])]
        fl = [float(x) for x in head] + [float(-h * np.sign(q) * abs(q) ** 1.852) for h, q in zip(hr, rate)]
        return {"name": name, "n": B1.shape[0], "edges": edges, "tri": None, "feats": [], "coords": None, "flow": fl}
    if name == "paper":
        d = f"{DATA}/paper_data/"
        r = rows_of(d + "edges.csv", " ")
        s, t, w = (r[0].index(c) for c in ("Source", "Target", "Distance"))
        rec = [[int(x[s]), int(x[t]), float(x[w])] for x in r[1:]]
        nodes, edges, first = FS.links(rec)
        fl = [float(x[0]) for x in rows_of(d + "flow.csv", ",")]
        return {"name": name, "n": len(nodes), "edges": [list(e) for e in edges], "tri": None, "feats": [[list(e), {"Distance": rec[first[e]][2]}] for e in edges],
                "coords": coords(d + "coordinates.csv", " ", 0), "flow": [[*e, x] for e, x in zip(edges, fl)]}
    r = rows_of(T + "_net.tntp", "\t", 8)
    head = r[0]
    a, b = head.index("init_node"), head.index("term_node")
    cols = [(i, c) for i, c in enumerate(head) if c not in ("~", ";", "init_node", "term_node")]
    with open(T + "_net.tntp") as f:
        lines = [l for l in f.read().split("\n")[9:] if l.strip()]
    raw = [[x.strip() for x in l.split("\t")] for l in lines]
    rec = [[int(float(x[a])) - 1, int(float(x[b])) - 1] for x in raw]
    nodes, edges, first = FS.links(rec)
    feats = [[list(e), {c: val(raw[first[e]][i]) for i, c in cols}] for e in edges]
    co = coords(T + "_node.tntp", "\t", 1) if os.path.exists(T + "_node.tntp") else None
    flow = []
    if os.path.exists(T + "_flow.tntp"):
        fr = rows_of(T + "_flow.tntp", "\t")
        i, j, v = (fr[0].index(c) for c in ("From", "To", "Volume"))
        vol = {}
        for x in fr[1:]:
            vol.setdefault((int(x[i]) - 1, int(x[j]) - 1), float(x[v]))
        flow = [[u, w, vol[(u, w)] - vol.get((w, u), 0)] for u, w in edges]
    return {"name": name, "n": len(nodes), "edges": [list(e) for e in edges], "tri": None, "feats": feats, "coords": co, "flow": flow}


_TRUTH = {}


def prepare():
    for n in SMALL:
        if os.path.isdir(f"{DATA}/transportation_networks/{n}") or n in ("paper", "wsn", "forex"):
            _TRUTH[n] = truth(n)


# -------------------------------------------------------------------- the plan
def gen(rng, tier, idx):
    files, models = {}, {}
    for name in rng.sample(NAMES, rng.choice([0, 1, 2, 2, 3, 4])):
        missing = rng.choice([(), (), (), ("node",), ("flow",), ("node", "flow"), ("net",)])
        t = FS.gen_town(rng, name, missing)
        files.update(t["files"])
        first = FS.links(t["records"])[2]
        models[name] = {"name": name, "n": t["n"], "edges": [list(e) for e in t["edges"]], "tri": None, "coords": t["coords"], "flow": t["flow"], "absent": "net" in missing,
                        "feats": [[list(e), {"capacity": t["records"][first[tuple(e)]][2], "length": first[tuple(e)] + 0.5, "link_type": 1}] for e in t["edges"]]}
    for name in ["forex", "paper", "chicago-sketch", "wsn", "lastfm-1k-artist"]:
        if rng.random() < (0.6 if name == "lastfm-1k-artist" else 0.3):
            f, m = gen_override(rng, name)
            files.update(f)
            models[name] = m
    extra = [f"{FS.TDIR}/.DS_Store"] if rng.random() < 0.4 else []
    gone = [f"{FS.TDIR}/README.md"] if rng.random() < 0.3 else []
    shipped = rng.sample(SMALL, 3) + ([rng.choice(BIG)] if tier == "thorough" and rng.random() < 0.05 else [])
    if rng.random() < 0.8:
        shipped = [s for s in shipped if s != "anaheim"]
    pool = [n for n in models for _ in (0, 1, 2)] + shipped
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 5)):
            w = rng.random()
            if w < 0.15:
                ops.append({"k": "list"})
            elif w < 0.25:
                ops.append({"k": "wrong", "name": rng.choice(WRONG)})
            else:
                op = {"k": "load", "name": rng.choice(pool), "spoil": rng.random() < 0.5}
                if ops and rng.random() < 0.3 and ops[-1]["k"] == "load":
                    op["name"] = ops[-1]["name"]
                if rng.random() < 0.12:
                    op["fail"] = {"x": round(rng.random(), 4), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])}
                ops.append(op)
        clients.append({"ops": ops})
    return {"files": {p.replace(core.REPO + "/", "@/"): t for p, t in files.items()}, "models": models, "extra": [p.replace(core.REPO + "/", "@/") for p in extra],
            "gone": [p.replace(core.REPO + "/", "@/") for p in gone], "order": rng.randrange(10**6), "mode": rng.choice(["fixed", "changing", "changing"]), "chunk": rng.choice([0, 0, 7, 100]),
            "clients": clients, "preempt": core.gen_preempt(rng, 2500) if len(clients) > 1 else [], "first": rng.randrange(3)}


# ----------------------------------------------------------------- the judgement
def judge(model, r):
    """What is wrong with a loaded dataset, or None."""
    try:
        sc, coords, flow = r
        nodes = [int(v) for v in sc.nodes]
        edges = [tuple(int(v) for v in e) for e in sc.edges]
        tri = [tuple(int(v) for v in t) for t in sc.triangles]
        B1, B2 = W.dense(sc.B1), W.dense(sc.B2)
    except Exception as e:
        return f"not a dataset: {type(e).__name__}: {e}"
    exp = [tuple(e) for e in model["edges"]]
    if nodes != list(range(model["n"])):
        return f"nodes {nodes[:20]}, the files say 0..{model['n'] - 1}"
    if edges != exp:
        return f"edges {edges[:12]}, the files say {exp[:12]}"
    want = sorted(map(tuple, model["tri"])) if model["tri"] is not None else R.cliques3(model["edges"])
    if sorted(tuple(sorted(t)) for t in tri) != [tuple(sorted(t)) for t in want]:
        return f"triangles {tri[:12]}, the files say {want[:12]}"
    E1 = np.zeros((len(nodes), len(exp)))
    for j, (u, v) in enumerate(exp):
        E1[u, j], E1[v, j] = -1, 1
    if not np.array_equal(B1, E1):
        return f"incidence matrix {W.brief(B1)}"
    if B2.shape != (len(exp), len(tri)) or (B2.size and np.abs(B1 @ B2).max() > 0):
        return f"triangle incidence {B2.shape}, boundary of boundary not zero"
    for j, t in enumerate(tri):
        on = {exp[i] for i in np.flatnonzero(B2[:, j])}
        if {tuple(sorted(e)) for e in on} != {tuple(sorted(p)) for p in ((t[0], t[1]), (t[0], t[2]), (t[1], t[2]))} or not np.all(np.abs(B2[np.flatnonzero(B2[:, j]), j]) == 1):
            return f"triangle incidence column {j} lies on {on}"
    if FS._feats(sc.edge_features) != FS._feats({tuple(e): f for e, f in model["feats"]}):
        return f"edge features {str(dict(list(sc.edge_features.items())[:3]))}, the files say {model['feats'][:3]}"
    if model["coords"] is None:
        try:
            ok = sorted(int(i) for i in coords) == nodes and all(len(p) == 2 and np.all(np.isfinite(np.asarray(p, float))) for p in coords.values())
        except Exception:
            ok = False
        if not ok:
            return f"generated coordinates {str(coords)[:200]} do not cover the nodes"
    elif FS.norm_coords(coords) != tuple((i, tuple(round(v, 9) for v in p)) for i, p in model["coords"]):
        return f"coordinates {str(coords)[:200]}, the files say {model['coords'][:4]}"
    if model["flow"] and not isinstance(model["flow"][0], list):
        got = np.asarray(flow, float).ravel()
        if got.shape != (len(model["flow"]),) or not np.allclose(got, model["flow"], rtol=1e-9, atol=1e-12):
            return f"flow {W.brief(got)}, the files say {W.brief(np.array(model['flow']))}"
    else:
        try:
            got = {tuple(int(v) for v in e): float(x) for e, x in flow.items()}
        except Exception as e:
            return f"flow {str(flow)[:200]}: {e}"
        fexp = {(u, v): x for u, v, x in model["flow"]}
        if set(got) != set(fexp) or any(abs(got[e] - fexp[e]) > 1e-6 * (1 + abs(fexp[e])) for e in fexp):
            return f"flow {str(got)[:300]}, the files say {str(fexp)[:300]}"
    return None


def spoil(r):
    """The caller modifies everything it received."""
    sc, coords, flow = r
    coords.clear()
    if isinstance(flow, dict):
        for k in flow:
            flow[k] = -999.0
    else:
        try:
            flow[...] = -999.0
        except (TypeError, ValueError):
            pass
    for a in (sc.nodes, sc.edges, sc.triangles):
        if isinstance(a, list):
            a.append((0, 0))
    for f in sc.edge_features.values():
        f.clear()
    sc.edge_features.clear()
    sc.node_features["spoiled"] = 1
    for M in (sc.B1, sc.B2):
        try:
            M[...] = 7
        except (TypeError, ValueError):
            M.data[...] = 7


def run(plan, ctx):
    C.silence()
    import pytspl

    disk = devices.install_disk(devices.SimDisk())
    for p, t in plan["files"].items():
        FS.mount(disk, {p.replace("@/", core.REPO + "/"): t})
    if "wsn" in plan["models"]:
        disk.files[f"{DATA}/wsn/water_network.pkl"] = wsn_bytes(plan["models"]["wsn"])
    for p in plan["extra"]:
        disk.files[p.replace("@/", core.REPO + "/")] = b"x"
    disk.removed |= {p.replace("@/", core.REPO + "/") for p in plan["gone"]}
    order = core.rng_for("listing", plan["order"])
    seed = order.randrange(10**6)

    def listing(names):
        names = list(names)
        (core.rng_for("fixed", seed) if plan["mode"] == "fixed" else order).shuffle(names)
        ctx.count("fault:listing_permuted")
        return names

    disk.listing = listing
    disk.chunk = plan["chunk"]
    models = plan["models"]
    shipped = [n for n in devices.REAL_LISTDIR(FS.TDIR) if os.path.isdir(f"{FS.TDIR}/{n}")]
    catalogue = sorted(shipped + [n for n, m in models.items() if n in NAMES and not m.get("absent")] + [n for n, m in models.items() if m.get("absent")] + ["paper", "forex", "lastfm-1k-artist", "wsn"])
    seen = []
    lens = {}

    def client(i):
        for j, op in enumerate(plan["clients"][i]["ops"]):
            label = f"caller {i} call {j} {op['k']} {op.get('name', '')!r}"
            if op["k"] == "list":
                out = C.execute(pytspl.list_datasets, None)
                got = sorted(map(str, out.raw)) if out.ok else None
                ctx.event(i, j, "list", out.ok)
                if got != catalogue_now():
                    ctx.violate("wrong-catalogue", f"{label}: {got if out.ok else out.exc!r}; expected {catalogue_now()}")
                    return
                continue
            if op["k"] == "wrong":
                out = C.execute(lambda: pytspl.load_dataset(op["name"]), None)
                ctx.event(i, j, "wrong", out.ok, type(out.exc).__name__)
                if out.ok or not isinstance(out.exc, ValueError):
                    ctx.violate("unlisted-name", f"{label}: {'loaded' if out.ok else f'raised {type(out.exc).__name__}: {out.exc}'}")
                    return
                continue
            name = op["name"]
            model = models.get(name) or _TRUTH.get(name)
            if model is None:
                model = _TRUTH[name] = truth(name)
            args = {}
            if op.get("fail"):
                args = {"crash_at": 1 + int(op["fail"]["x"] * 120), "exc": op["fail"]["exc"]}
            for attempt in (0, 1):
                try:
                    out = C.execute(lambda: pytspl.load_dataset(name), None, **(args if attempt == 0 else {}))
                except core.StepBudget:
                    ctx.violate("no-progress", label)
                    return
                C.count_fired(ctx, out)
                ctx.event(i, j, "load", attempt, out.ok, out.fired, type(out.exc).__name__)
                ctx.cov(name, out.ok, out.fired, op.get("spoil"), plan["chunk"])
                if out.ok or not out.fired:
                    break
            if not out.ok:
                if model.get("absent") and isinstance(out.exc, OSError):
                    continue
                ctx.violate("load-fails", f"{label}: raised {type(out.exc).__name__}: {out.exc}")
                return
            if model.get("absent"):
                ctx.violate("wrong-data", f"{label}: loaded although its network file does not exist")
                return
            msg = judge(model, out.raw)
            if msg:
                ctx.violate("wrong-data", f"{label}: {msg}")
                return
            msg = shared(seen, out.raw)
            if msg:
                ctx.violate("shared-data", f"{label}: {msg}")
                return
            seen.append(parts(out.raw))
            if op.get("spoil"):
                spoil(out.raw)

    def catalogue_now():
        return catalogue

    sched = core.Scheduler(ctx, [client] * len(plan["clients"]), plan["preempt"], plan["first"])
    sched.run()
    ctx.nontrivial = sched.switches > 0 or bool(models) or plan["mode"] == "changing"
    ctx.sample = {"generated": sorted(models), "callers": [[f"{op['k']} {op.get('name', '')}" + ("!" if op.get("fail") else "") for op in c["ops"]] for c in plan["clients"]], "switches": sched.switches}


def parts(r):
    sc, coords, flow = r
    out = [("coordinates", coords), ("flow", flow), ("complex", sc)]
    for n in ("nodes", "edges", "triangles", "node_features", "edge_features", "B1", "B2"):
        out.append((n, getattr(sc, n)))
    return [(n, o) for n, o in out if isinstance(o, (list, dict, np.ndarray)) or n == "complex"]


def shared(seen, r):
    for n, o in parts(r):
        for old in seen:
            for k, p in old:
                if o is p or (isinstance(o, np.ndarray) and isinstance(p, np.ndarray) and o.size and p.size and np.may_share_memory(o, p)):
                    return f"its {n} is the {k} of an earlier load"
    return None


def shrink(plan):
    return []
