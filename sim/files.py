"""Files on the simulated disk: models, rendering, reading, expectations."""
import itertools
import os

import numpy as np

from . import core, ref as R
from .world import Malformed, snapshot

TDIR = core.PKG + "data/transportation_networks"


# ---------------------------------------------------------------------- models
def gen_records(rng, nmin=3, nmax=8, dup=True, maxlinks=16):
    """Edge-list records [u, v, value, label]: links in arbitrary order and
    direction, some repeated later in either direction with other values."""
    n = rng.randint(nmin, nmax)
    pairs = list(itertools.combinations(range(n), 2))
    rng.shuffle(pairs)
    k = rng.randint(2, min(maxlinks, len(pairs)))
    rec = []
    for u, v in pairs[:k]:
        if rng.random() < 0.5:
            u, v = v, u
        rec.append([u, v])
    if dup:
        for _ in range(rng.choice([0, 1, 3, 6])):
            u, v = rng.choice(rec)
            rec.append([v, u] if rng.random() < 0.5 else [u, v])
    mode = rng.choice(["shuffle", "shuffle", "sorted", "reverse", "asis"])
    if mode == "shuffle":
        rng.shuffle(rec)
    elif mode == "sorted":
        rec.sort()
    elif mode == "reverse":
        rec.sort(reverse=True)
    ints = rng.random() < 0.3
    return [[u, v, rng.randint(1, 9) if ints else round(rng.uniform(0.01, 9), 3), rng.choice(["a", "b", "road x", "z9"])] for u, v in rec]


def links(records):
    """Expected (nodes, edges, first record index per edge)."""
    first = {}
    for i, r in enumerate(records):
        u, v = r[0], r[1]
        if (u, v) not in first and (v, u) not in first:
            first[(u, v)] = i
    return list(range(max(max(r[0], r[1]) for r in records) + 1)), sorted(first), first


def render_csv(records, sep=",", off=0, extra_first=False, cols=("src", "dst", "len", "tag")):
    head = [cols[0], cols[1], cols[2], cols[3]]
    rows = [[str(r[0] + off), str(r[1] + off), "" if r[2] is None else repr(r[2]), "" if r[3] is None else str(r[3]).replace(" ", "_") if sep == " " else str(r[3])] for r in records]
    order = [2, 0, 1, 3] if extra_first else [0, 1, 2, 3]
    return "\n".join(sep.join(x[i] for i in order) for x in [head] + rows) + "\n"


def render_tntp(records, off=1):
    meta = ["<NUMBER OF ZONES> 3", "<NUMBER OF NODES> 3", "<FIRST THRU NODE> 1", "<NUMBER OF LINKS> 4", "<ORIGINAL HEADER>~ x", "<END OF METADATA>", "", ""]
    body = ["~\tinit_node\tterm_node\tcapacity\tlength\tlink_type\t;"]
    body += [f"\t{r[0] + off}\t{r[1] + off}\t{r[2]!r}\t{i + 0.5}\t1\t;" for i, r in enumerate(records)]
    return "\n".join(meta + body) + "\n"


def render_coords(coords, off=0, sep="\t", cols=("node", "X", "Y")):
    return "\n".join([sep.join(cols)] + [sep.join([str(i + off), repr(x), repr(y)]) for i, (x, y) in coords]) + "\n"


def render_flow(rows, off=1):
    return "\n".join(["From \tTo \tVolume \tCost "] + [f"{u + off} \t{v + off} \t{x!r} \t1.0 " for u, v, x in rows]) + "\n"


def render_matrix(M):
    return "\n".join(",".join(str(int(x)) for x in row) for row in M) + "\n"


def gen_town(rng, name, missing=()):
    """A transportation dataset: network, coordinates and flow files."""
    rec = gen_records(rng, nmin=3, nmax=7, dup=False, maxlinks=10)
    # real networks list both directions of most links, in any order
    extra = [[v, u, x, t] for u, v, x, t in rec if rng.random() < 0.6]
    for e in extra:
        rec.insert(rng.randint(0, len(rec)), e)
    nodes, edges, first = links(rec)
    coords = [[i, [round(rng.uniform(-5, 5), 3), round(rng.uniform(-5, 5), 3)]] for i in nodes]
    rng.shuffle(coords)
    rows = [[u, v, round(rng.uniform(0, 500), 2)] for u, v, _, _ in rec]
    rng.shuffle(rows)
    files = {
        f"{TDIR}/{name}/{name}_net.tntp": render_tntp(rec),
        f"{TDIR}/{name}/{name}_node.tntp": render_coords(coords, off=1),
        f"{TDIR}/{name}/{name}_flow.tntp": render_flow(rows),
    }
    for m in missing:
        files.pop(f"{TDIR}/{name}/{name}_{m}.tntp")
    vol = {(u, v): x for u, v, x in rows}
    flow = [[u, v, vol[(u, v)] - vol.get((v, u), 0)] for u, v in edges]
    return {"name": name, "files": files, "records": rec, "edges": edges, "n": len(nodes), "coords": None if "node" in missing else sorted(coords), "flow": [] if "flow" in missing else flow}


# --------------------------------------------------------------------- reading
def gen_reader(rng, idx=0):
    """A reader call together with the files it reads (JSON)."""
    k = rng.choice(["csv", "csv", "tntp", "tntp", "b1b2", "coords", "coords", "flow"])
    base = f"/simdisk/f{idx}"
    o = {"k": k}
    if k == "csv":
        rec = gen_records(rng)
        o.update(rec=rec, sep=rng.choice([",", " ", "\t", ";"]), zero=rng.random() < 0.5, feat=rng.choice([None, ["len"], ["len", "tag"], ["tag"], []]), ef=rng.random() < 0.4)
        o["files"] = {base + ".csv": render_csv(rec, o["sep"], 0 if o["zero"] else 1, o["ef"])}
        o["path"] = [base + ".csv"]
    elif k == "tntp":
        rec = gen_records(rng)
        o.update(rec=rec, zero=rng.random() < 0.4)
        o["files"] = {base + "_net.tntp": render_tntp(rec, 0 if o["zero"] else 1)}
        o["path"] = [base + "_net.tntp"]
    elif k == "b1b2":
        rec = gen_records(rng, dup=False)
        edges = [[r[0], r[1]] for r in rec]
        n = max(max(e) for e in edges) + 1
        tri = [list(t) for t in R.cliques3(edges) if rng.random() < 0.8]
        ref = R.Ref({"n": n, "edges": edges, "tri": tri})
        o.update(edges=edges, n=n, tri=tri)
        o["files"] = {base + "_B1.csv": render_matrix(ref.B1), base + "_B2t.csv": render_matrix(ref.B2.T)}
        o["path"] = [base + "_B1.csv", base + "_B2t.csv"]
        if not tri:
            o["tri"] = None  # an empty matrix file cannot be parsed
            return gen_reader(rng, idx)
    elif k == "coords":
        c = [[i, [round(rng.uniform(-9, 9), 4), round(rng.uniform(-9, 9), 4)]] for i in range(rng.randint(1, 12))]
        rng.shuffle(c)
        o.update(coords=c, zero=rng.random() < 0.5, sep=rng.choice([",", "\t", " "]))
        o["files"] = {base + "_node.tntp": render_coords(c, 0 if o["zero"] else 1, o["sep"])}
        o["path"] = [base + "_node.tntp"]
    else:
        rows = [[rng.randint(0, 9), rng.randint(0, 9), round(rng.uniform(0, 99), 3)] for _ in range(rng.randint(1, 15))]
        o.update(rows=rows)
        o["files"] = {base + "_flow.tntp": render_flow(rows)}
        o["path"] = [base + "_flow.tntp"]
    return o


def call_reader(o):
    import pytspl.io.network_reader as N

    k = o["k"]
    if k == "csv":
        return N.read_csv(filename=o["path"][0], delimiter=o["sep"], src_col="src", dest_col="dst", feature_cols=list(o["feat"]) if o["feat"] is not None else None, start_index_zero=o["zero"])
    if k == "tntp":
        return N.read_tntp(filename=o["path"][0], src_col="init_node", dest_col="term_node", skip_rows=8, delimiter="\t", start_index_zero=o["zero"])
    if k == "b1b2":
        return N.read_B1_B2(B1_filename=o["path"][0], B2_filename=o["path"][1])
    if k == "coords":
        return N.read_coordinates(filename=o["path"][0], node_id_col="node", x_col="X", y_col="Y", delimiter=o["sep"], start_index_zero=o["zero"])
    if k == "flow":
        return N.read_flow(filename=o["path"][0])
    if k == "load":
        import pytspl

        return pytspl.load_dataset(o["name"])
    if k == "list":
        import pytspl

        return pytspl.list_datasets()
    raise ValueError(k)


def _val(x):
    try:
        return repr(round(float(x), 9))
    except (TypeError, ValueError):
        return repr(str(x))


def _feats(d):
    return tuple(sorted((tuple(int(v) for v in e), tuple(sorted((str(a), _val(b)) for a, b in f.items()))) for e, f in d.items()))


def norm_builder(b):
    return [tuple(int(v) for v in b.nodes), tuple(tuple(int(v) for v in e) for e in b.edges), _feats(b.edge_features), tuple(sorted(map(str, b.node_features)))]


def norm_coords(c):
    if c is None:
        return None
    return tuple(sorted((int(i), tuple(round(float(v), 9) for v in p)) for i, p in c.items()))


def norm_reader(o, r):
    try:
        k = o["k"]
        if k in ("csv", "tntp"):
            return norm_builder(r)
        if k == "b1b2":
            return norm_builder(r[0]) + [tuple(tuple(sorted(int(v) for v in t)) for t in r[1])]
        if k == "coords":
            return [norm_coords(r)]
        if k == "flow":
            return [tuple(str(c) for c in r.columns), tuple(tuple(_val(v) for v in row) for row in r.values.tolist())]
        if k == "list":
            return [tuple(r)]
        sc, coords, flow = r
        s = snapshot(sc)
        if isinstance(flow, dict):
            fl = tuple(sorted((tuple(int(v) for v in e), _val(x)) for e, x in flow.items()))
        else:
            fl = tuple(_val(x) for x in np.asarray(flow).ravel())
        c = tuple(sorted(int(i) for i in coords)) if o.get("generated") else norm_coords(coords)
        return [tuple(s["nodes"]), tuple(s["edges"]), tuple(s["triangles"]), np.array(s["B1"]), np.array(s["B2"]), _feats(sc.edge_features), c, fl]
    except Malformed:
        raise
    except Exception as e:
        raise Malformed(f"{o['k']}: {type(e).__name__}: {e}")


def expect_reader(o):
    """What the files say, from the model."""
    k = o["k"]
    if k in ("csv", "tntp"):
        nodes, edges, first = links(o["rec"])
        if k == "tntp":
            names = {"capacity": lambda i: o["rec"][i][2], "length": lambda i: i + 0.5, "link_type": lambda i: 1}
        else:
            known = lambda x: float("nan") if x is None else x
            tag = (lambda s: s.replace(" ", "_")) if o["sep"] == " " else (lambda s: s)
            names = {n: {"len": lambda i: known(o["rec"][i][2]), "tag": lambda i: tag(known(o["rec"][i][3]))}[n] for n in o["feat"] or []}
        feats = {e: {n: g(first[e]) for n, g in names.items()} for e in edges} if names else {}
        return [tuple(nodes), tuple(edges), _feats(feats), ()]
    if k == "b1b2":
        return [tuple(range(o["n"])), tuple(map(tuple, o["edges"])), (), (), tuple(map(tuple, o["tri"]))]
    if k == "coords":
        return [tuple(sorted((i, tuple(round(v, 9) for v in p)) for i, p in o["coords"]))]
    if k == "flow":
        return [("From ", "To ", "Volume ", "Cost "), tuple((_val(u + 1), _val(v + 1), _val(x), _val(1.0)) for u, v, x in o["rows"])]
    return None


def mount(disk, files):
    for p, text in files.items():
        disk.files[p] = text.encode()
        assert os.path.isabs(p)
