"""C07: every complex is a valid oriented complex and stays one."""
import itertools

import numpy as np

from .. import catalog as K, client as C
from .. import core, devices, files as FI, ref as R, world as W

PROPERTY = "C07"
RUNS = {"quick": 2600, "thorough": 30000}
RULE = (
    "1-2 complexes obtained in one of ten ways (constructor with triangles in any vertex order; builder with all, given or distance-bounded triangles, some with hundreds of links at one node; edge list, network and matrix files on "
    "the simulated disk; generator; bundled datasets; generated transportation datasets), then 1-3 callers making 3-9 calls each: matrices of every rank, shifts of 0-6 steps, divergence and curl, "
    "mixed with other calls of the catalogue on the same complex (spectra, decompositions, filters, GP preparation, drawings, generators), of which some are interrupted or have a kernel fail; "
    "callers overwrite what they were given in several ways. Every answer, and all of them once more at the end, is compared with the products of the incidence matrices the definition gives; at the end shape, simplices, faces and features are asked for, too. "
    "Non-trivial: a result was overwritten, a call failed, or a context switch inside library code. Distinct: different event log."
)
REAL = ["pytspl.simplicial_complex, SCBuilder, io readers, generator and dataset loader, decomposition, filters, hogde_gp preparation, plot; numpy, scipy, networkx, pandas"]
STUB = ["thread scheduling (parked real threads, seeded)", "numerical kernels: real, may be made to fail", "disk: generated files"]
ASSUME = ["interleavings are at library source lines and kernel calls, not inside C code", "callers overwrite results, not the attributes of a complex"]

SETS = ["siouxfalls", "paper", "test_dataset", "forex", "wsn"]
RANKS = {"inc": [0, 1, 2], "low": [1, 2], "upp": [0, 1], "hodge": [0, 1, 2]}
MAT = ["inc", "inc", "adj", "lap0", "low", "upp", "hodge", "hodge", "lshift", "ushift", "kshift", "div", "curl"]
SCRIBBLE = ["data", "fill", "scale", "item", "rows", "abs"]
FILL = ["read", "dec", "filter", "fhelp", "gp", "plot", "fplot", "gen", "builder", "ctor"]


def big_complex(rng):
    """Hubs with hundreds of links, and an edge in many triangles."""
    n = rng.randint(140, 300)
    hub = rng.randrange(n)
    rest = [v for v in range(n) if v != hub]
    rng.shuffle(rest)
    pairs = [[hub, v] for v in rest]
    w = rest[0]
    pairs += [[w, v] for v in rest[1:] if rng.random() < rng.choice([0.05, 0.95])]
    edges = [p if rng.random() < 0.5 else p[::-1] for p in pairs]
    rng.shuffle(edges)
    tri = [list(t) for t in R.cliques3(edges)]
    return {"n": n, "edges": edges, "tri": tri, "dist": [round(rng.uniform(0.05, 2.5), 3) for _ in edges]}


def gen_source(rng, i):
    kind = rng.choice(["ctor", "ctor", "ctor", "given", "all", "distance", "csv", "tntp", "b1b2", "gen", "town", "load"])
    s = {"kind": kind}
    if kind in ("ctor", "given", "all", "distance"):
        spec = big_complex(rng) if rng.random() < 0.03 else W.gen_complex(rng, nmin=1 if rng.random() < 0.1 else 3, nmax=8, min_edges=0 if rng.random() < 0.1 else 2, max_edges=18)
        if kind == "ctor" and rng.random() < 0.5:
            for t in spec["tri"]:
                rng.shuffle(t)
            rng.shuffle(spec["tri"])
        if kind == "given" and rng.random() < 0.5:
            rng.shuffle(spec["tri"])
        s["spec"] = spec
        s["feat"] = rng.random() < 0.7 or kind == "distance"
        if kind == "distance":
            d = sorted(spec["dist"]) or [1.0]
            s["eps"] = rng.choice([0.5, 1.0, 1.5, d[len(d) // 2], d[-1] + 0.1])
        s["lists"] = rng.random() < 0.3
    elif kind in ("csv", "tntp", "b1b2"):
        o = FI.gen_reader(rng, i)
        while o["k"] != kind:
            o = FI.gen_reader(rng, i)
        s["o"] = o
        s["given"] = rng.random() < 0.3
    elif kind == "gen":
        s["a"] = [rng.randint(2, 9), rng.choice([0.4, 0.7, 1.0]), rng.choice([0.4, 0.8, 2.0]), rng.randrange(1000)]
    elif kind == "town":
        s["town"] = FI.gen_town(rng, f"vtown{i}", missing=["node"] if rng.random() < 0.2 else [])
    else:
        s["name"] = rng.choice(SETS)
    return s


def model(s):
    """What the source describes: nodes, edges, triangles; None where only the
    result itself says it (bundled data and generator)."""
    k = s["kind"]
    if k in ("ctor", "given"):
        return s["spec"]["n"], s["spec"]["edges"], s["spec"]["tri"]
    if k == "all":
        return s["spec"]["n"], s["spec"]["edges"], R.cliques3(s["spec"]["edges"])
    if k == "distance":
        d = {frozenset(e): x for e, x in zip(s["spec"]["edges"], s["spec"]["dist"])}
        return s["spec"]["n"], s["spec"]["edges"], [t for t in R.cliques3(s["spec"]["edges"]) if all(d[frozenset(p)] < s["eps"] for p in itertools.combinations(t, 2))]
    if k in ("csv", "tntp"):
        nodes, edges, _ = FI.links(s["o"]["rec"])
        return len(nodes), edges, R.cliques3(edges)
    if k == "b1b2":
        return s["o"]["n"], s["o"]["edges"], s["o"]["tri"]
    if k == "town":
        return s["town"]["n"], s["town"]["edges"], R.cliques3(s["town"]["edges"])
    return None


def obtain(s):
    import pytspl
    from pytspl.simplicial_complex import SimplicialComplex
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    k = s["kind"]
    if k in ("ctor", "given", "all", "distance"):
        spec = s["spec"]
        edges = [tuple(e) for e in spec["edges"]]
        feats = {e: {"distance": d} for e, d in zip(edges, spec["dist"])} if s["feat"] else None
        tri = [list(t) if s["lists"] else tuple(t) for t in spec["tri"]]
        if k == "ctor":
            return SimplicialComplex(nodes=list(range(spec["n"])), edges=edges, triangles=tri, edge_features=feats)
        b = SCBuilder(nodes=list(range(spec["n"])), edges=edges, edge_features=feats)
        if k == "given":
            return b.to_simplicial_complex(triangles=tri)
        if k == "all":
            return b.to_simplicial_complex()
        return b.to_simplicial_complex(condition="distance", dist_col_name="distance", dist_threshold=s["eps"])
    if k in ("csv", "tntp"):
        return FI.call_reader(s["o"]).to_simplicial_complex()
    if k == "b1b2":
        b, tri = FI.call_reader(s["o"])
        return b.to_simplicial_complex(triangles=tri)
    if k == "gen":
        return pytspl.generate_random_simplicial_complex(*s["a"])[0]
    return pytspl.load_dataset(s["town"]["name"] if k == "town" else s["name"])[0]


def gen_mat(rng, m):
    o = {"k": rng.choice(MAT)}
    if o["k"] in RANKS:
        o["rank"] = rng.choice(RANKS[o["k"]])
    elif o["k"] in ("lshift", "ushift", "kshift"):
        o["steps"] = rng.choice([0, 1, 2, 2, 3, 4, 6])
    if o["k"] in ("lshift", "ushift", "kshift", "div", "curl"):
        o["f"] = rng.randrange(2**30)
        o["int"] = rng.random() < 0.2
    return o


def gen(rng, tier, idx):
    sources = [gen_source(rng, i) for i in range(rng.choice([1, 1, 2]))]
    if "spec" in sources[0] and rng.random() < 0.4:  # one that differs in a single respect
        new = W.like(rng, sources[0]["spec"])
        if new:
            sources = [sources[0], {"kind": rng.choice(["ctor", "ctor", "given", "all"]), "spec": new, "feat": rng.random() < 0.7, "lists": rng.random() < 0.3}]
    nc = rng.choice([1, 1, 2, 3])
    clients = []
    for _ in range(nc):
        ops = []
        for _ in range(rng.randint(3, 9) if nc == 1 else rng.randint(2, 5)):
            c = rng.randrange(len(sources))
            if rng.random() < 0.68:
                op = {"c": c, "o": gen_mat(rng, None)}
            else:
                op = {"c": c, "fill": rng.randrange(2**30)}
            if rng.random() < 0.5:
                op["scribble"] = [rng.choice(SCRIBBLE), rng.choice([7.0, 0.0, -3.5, float("nan")])]
            if rng.random() < 0.15:
                op["fault"] = C.gen_fault(rng)
            ops.append(op)
        clients.append({"ops": ops})
    return {"sources": sources, "clients": clients, "preempt": core.gen_preempt(rng, 130 * nc) if nc > 1 else [], "first": rng.randrange(3)}


def flow_of(o, m):
    rng = core.rng_for("c07flow", o["f"])
    if o["int"]:
        return np.array([rng.randint(-4, 4) for _ in range(m)])
    if o["f"] % 7 == 0:  # large or small values
        s = 10.0 ** (o["f"] // 7 % 13 - 6)
        return np.array([rng.uniform(-s, s) for _ in range(m)], float)
    return np.array([round(rng.uniform(-3, 3), 3) for _ in range(m)], float)


def call(sc, o, m):
    q = dict(o)
    flows = [flow_of(o, m)] if "f" in o else []
    if flows:
        q["flow"] = 0
    return W.call_read(sc, q, flows)


def expected(ref, o, m):
    k = o["k"]
    f = flow_of(o, m).astype(float) if "f" in o else None
    if k == "inc":
        return [np.ones(ref.n), ref.B1, ref.B2][o["rank"]]
    if k == "adj":
        return ref.A
    if k == "lap0":
        return ref.L0
    if k == "low":
        return ref.L1l if o["rank"] == 1 else ref.L2
    if k == "upp":
        return ref.L0 if o["rank"] == 0 else ref.L1u
    if k == "hodge":
        return [ref.L0, ref.L1, ref.L2][o["rank"]]
    if k == "div":
        return ref.B1 @ f
    if k == "curl":
        return ref.B2.T @ f
    a, b = f, f
    for _ in range(o["steps"]):
        a, b = ref.L1l @ a, ref.L1u @ b
    return a if k == "lshift" else b if k == "ushift" else a + b


def validate(sc, want, what):
    """A valid oriented complex, and the one described? Returns (ref, message)."""
    try:
        nodes = [int(v) for v in sc.nodes]
        edges = [tuple(int(v) for v in e) for e in sc.edges]
        tri = [tuple(int(v) for v in t) for t in sc.triangles]
        B1, B2 = W.dense(sc.B1), W.dense(sc.B2)
    except Exception as e:
        return None, f"{what}: not readable as a complex: {type(e).__name__}: {e}"
    if want is not None:
        n, we, wt = want
        if nodes != list(range(n)):
            return None, f"{what}: nodes {nodes}, described {n} nodes"
        if edges != [tuple(e) for e in we]:
            return None, f"{what}: edges {edges}, described {we}"
        if sorted(tuple(sorted(t)) for t in tri) != sorted(tuple(sorted(t)) for t in wt):
            return None, f"{what}: triangles {tri}, described {wt}"
    pairs = {frozenset(e) for e in edges}
    if len(pairs) != len(edges) or any(len(p) != 2 for p in pairs):
        return None, f"{what}: edges repeat or are loops: {edges}"
    if len({frozenset(t) for t in tri}) != len(tri):
        return None, f"{what}: triangles repeat: {tri}"
    for t in tri:
        if len(set(t)) != 3 or any(frozenset(p) not in pairs for p in itertools.combinations(t, 2)):
            return None, f"{what}: triangle {t} lacks an edge"
    ref = R.Ref({"n": len(nodes), "edges": edges, "tri": tri})
    if B1.shape != ref.B1.shape or not np.array_equal(B1, ref.B1):
        return None, f"{what}: B1 {W.brief(B1)} expected {W.brief(ref.B1)} for edges {edges[:12]}"
    if B2.shape != ref.B2.shape:
        return None, f"{what}: B2 has shape {B2.shape}, expected {ref.B2.shape}"
    signs = []
    for j in range(len(tri)):
        sup = sorted(int(i) for i in np.nonzero(B2[:, j])[0])
        if sup != sorted(np.nonzero(ref.B2[:, j])[0]) or not np.all(np.abs(B2[sup, j]) == 1):
            return None, f"{what}: B2 column of triangle {tri[j]} is {dict(zip([edges[i] for i in sup], B2[sup, j].tolist()))}"
        s = [x for x in (1.0, -1.0) if np.array_equal(B2[:, j], x * ref.B2[:, j])]
        if not s or np.any(B1 @ B2[:, j]):
            return None, f"{what}: the boundary of the boundary of triangle {tri[j]} is not zero: {dict(zip([edges[i] for i in sup], B2[sup, j].tolist()))}"
        signs.append(s[0])
    return ref.orient(signs), None


def arrays(x, depth=0):
    """The arrays a result consists of."""
    if depth > 4:
        return
    if isinstance(x, np.ndarray) or (hasattr(x, "toarray") and hasattr(x, "nnz")) or hasattr(x, "detach"):
        yield x
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays(v, depth + 1)


def scribble(x, how):
    """A caller overwrites what it was given."""
    mode, v = how
    n = 0
    for a in arrays(x):
        try:
            if hasattr(a, "detach"):
                a = a.detach().numpy()
            if not isinstance(a, np.ndarray):
                if mode in ("data", "fill"):
                    a.data[:] = v
                elif mode == "scale":
                    a.data *= v
                elif mode == "abs":
                    np.abs(a.data, out=a.data)
                elif mode == "item" and a.shape[0] and a.shape[1]:
                    a[0, a.shape[1] - 1] = v
                elif mode == "rows" and a.shape[0]:
                    a.indices[:] = a.indices[::-1].copy()
                    a.data[:] = -a.data
            elif a.dtype.kind not in "fi" or not a.size:
                continue
            elif mode in ("data", "fill"):
                a[...] = 3 if a.dtype.kind == "i" else v
            elif mode == "scale":
                a *= 2 if a.dtype.kind == "i" else v
            elif mode == "abs":
                np.abs(a, out=a)
            elif mode == "item":
                a.flat[0] = 5
            else:
                a[...] = -a[::-1].copy()
            n += 1
        except (ValueError, RuntimeError, TypeError):
            continue  # read-only views stay as they are
    return n


def compare(ref, o, raw, m):
    try:
        got = W.dense(raw)
    except W.Malformed as e:
        return f"{o}: {e}"
    exp = expected(ref, o, m)
    if got.shape != exp.shape:
        return f"{o}: shape {got.shape}, expected {exp.shape}"
    scale = max(float(np.abs(exp).max()), float(np.abs(flow_of(o, m)).max()) if "f" in o and m else 0.0) if exp.size else 1.0
    if got.size and not np.allclose(got, exp, rtol=1e-9, atol=1e-9 * scale if "f" in o else 1e-9):
        i = np.unravel_index(int(np.nanargmax(np.abs(np.nan_to_num(got, nan=1e9) - exp))), exp.shape)
        return f"{o}: entry {tuple(int(v) for v in i)} is {got[i]}, expected {exp[i]} (got {W.brief(got)})"
    return None


def audit(rng_seed):
    out = [{"k": k, "rank": r} for k in ("inc", "low", "upp", "hodge") for r in RANKS[k]] + [{"k": "adj"}, {"k": "lap0"}]
    for i, k in enumerate(("lshift", "ushift", "kshift", "div", "curl")):
        out.append({"k": k, "f": rng_seed + i, "int": False, "steps": 2})
    return out


def description(sc, ref, feats, pick):
    """What the complex says about itself: None or what is wrong. feats: {edge: {name: value}}"""
    n, edges, tri = ref.n, [tuple(e) for e in ref.edges], [tuple(t) for t in ref.tri]
    key = lambda x: tuple(int(v) for v in x)
    if tuple(sc.shape) != (n, len(edges), len(tri)):
        return f"shape {sc.shape} of {n} nodes, {len(edges)} edges, {len(tri)} triangles"
    if n and sc.max_dim != (2 if tri else 1 if edges else 0):
        return f"dimension {sc.max_dim} with {len(edges)} edges, {len(tri)} triangles"
    if [key(x) for x in sc.simplices] != [(v,) for v in range(n)] + edges + tri:
        return f"simplices {list(sc.simplices)[:20]} of {n} nodes, edges {edges[:8]}, triangles {tri[:8]}"
    for x in [e for i, e in enumerate(edges) if i % 7 == pick % 7][:9] + [t for i, t in enumerate(tri) if i % 5 == pick % 5][:9]:
        got = [key(f) for f in sc.get_faces(x)]
        want = sorted(tuple(sorted(f)) for f in itertools.combinations(x, len(x) - 1))
        if sorted(got) != want:
            return f"faces of {x}: {got}, expected {want}"
    names = list(next(iter(feats.values()))) if feats else []
    if list(sc.edge_feature_names()) != names:
        return f"feature names {sc.edge_feature_names()}, expected {names}"
    for name in names:
        got = {key(e): v for e, v in sc.get_edge_features(name).items()}
        want = {e: f[name] for e, f in feats.items()}
        if list(map(repr, sorted(got.items()))) != list(map(repr, sorted(want.items()))):
            return f"feature {name!r}: {str(got)[:300]}, expected {str(want)[:300]}"
    if feats:
        out = C.execute(lambda: sc.get_edge_features("no such feature"), None)
        if not isinstance(out.exc, KeyError):
            return f"a feature that does not exist: {out.brief()}"
    return None


BAD_RANKS = [("inc", 3), ("inc", -1), ("low", 0), ("low", 3), ("upp", 2), ("upp", -1), ("hodge", 3), ("hodge", -1)]


def prepare():
    import pytspl  # noqa: F401

    with C.contextlib.redirect_stdout(C.Null()):
        for n in SETS:
            obtain({"kind": "load", "name": n})


def run(plan, ctx):
    C.silence()
    import warnings

    disk = devices.install_disk(devices.SimDisk())
    for s in plan["sources"]:
        FI.mount(disk, s["o"]["files"] if "o" in s else s["town"]["files"] if "town" in s else {})
    scs, refs, envs, base, feats = [], [], [], [], []
    for i, s in enumerate(plan["sources"]):
        what = f"complex {i} ({s['kind']}{' ' + s['name'] if 'name' in s else ''})"
        out = C.execute(lambda: obtain(s), None, label=what)
        if not out.ok:
            ctx.violate("not-built", f"{what}: {out.brief()}")
            return
        ref, msg = validate(out.raw, model(s), what)
        if msg:
            ctx.violate("not-a-complex", msg)
            return
        spec = {"n": ref.n, "edges": [list(e) for e in ref.edges], "tri": [list(t) for t in ref.tri], "dist": [1.0] * len(ref.edges)}
        scs.append(out.raw)
        refs.append(ref)
        base.append(W.snapshot(out.raw))
        if "spec" in s:
            feats.append({tuple(e): {"distance": d} for e, d in zip(s["spec"]["edges"], s["spec"]["dist"])} if s["feat"] else {})
        else:
            feats.append({tuple(int(v) for v in e): dict(f) for e, f in out.raw.edge_features.items()})
        envs.append(K.Env(spec, out.raw, [[v, [float(v), float(v * v % 7)]] for v in range(ref.n)], disk))
    small = [3 <= len(r.edges) <= 60 for r in refs]
    memo = C.References(ctx)
    for c in plan["clients"]:
        for op in c["ops"]:
            i = op["c"]
            m = len(refs[i].edges)
            if "fill" in op:
                op["q"] = None
                if not small[i]:
                    op["o"] = {"k": "hodge", "rank": 1}
                    op.pop("fault", None)
                    continue
                rng = core.rng_for("c07fill", op["fill"])
                q = K.gen_op(rng, envs[i].spec, refs[i], FILL, bad_p=0.15)
                op["q"] = q
                if op.get("fault"):
                    op["_exp"] = memo.get([i, q], lambda: K.prepare(q, envs[i]).fn(), None)
            elif op.get("fault"):
                op["_exp"] = memo.get([i, op["o"]], lambda: call(scs[i], op["o"], m), None)
    flags = {"n": False}

    def client(w):
        for j, op in enumerate(plan["clients"][w]["ops"]):
            i = op["c"]
            m = len(refs[i].edges)
            q = op.get("q")
            label = f"caller {w} call {j} {K.name(q) if q else op['o']} on complex {i} ({plan['sources'][i]['kind']})"
            if q:
                try:
                    fn = K.prepare(q, envs[i], w).fn
                except Exception as e:
                    ctx.event(w, j, "unprepared", type(e).__name__)
                    continue
            else:
                fn = lambda: call(scs[i], op["o"], m)
            try:
                out = C.execute(fn, None, label=label, **(C.crash_point(op["fault"], op["_exp"]) if op.get("fault") else {}))
            except core.StepBudget:
                ctx.violate("no-progress", label)
                return
            C.count_fired(ctx, out)
            ctx.event(w, j, K.name(q) if q else op["o"]["k"], out.ok, type(out.exc).__name__ if out.exc is not None else "", out.fired)
            ctx.cov(plan["sources"][i]["kind"], K.name(q) if q else str(op["o"].get("rank")) + op["o"]["k"], out.ok, bool(out.fired))
            if not out.ok:
                flags["n"] = True
                if q or out.fired:
                    continue
                ctx.violate("raises", f"{label}: {out.brief()}")
                return
            if not q:
                msg = compare(refs[i], op["o"], out.raw, m)
                if msg:
                    ctx.violate("not-the-product", f"caller {w} call {j} on complex {i}: {msg}")
                    return
            if op.get("scribble"):
                with warnings.catch_warnings() if len(plan["clients"]) == 1 else C.contextlib.nullcontext():
                    if len(plan["clients"]) == 1:
                        warnings.simplefilter("ignore")
                    n = scribble(out.raw, op["scribble"])
                if n:
                    ctx.count("fault:result_overwritten", n)
                    flags["n"] = True

    sched = core.Scheduler(ctx, [client] * len(plan["clients"]), plan["preempt"], plan["first"])
    sched.run()
    ctx.nontrivial = flags["n"] or sched.switches > 0
    ctx.sample = {"sources": [s["kind"] for s in plan["sources"]], "edges": [len(r.edges) for r in refs], "switches": sched.switches,
                  "callers": [[(K.name(op["q"]) if op.get("q") else op["o"]["k"]) + ("*" if op.get("scribble") else "") + ("!" if op.get("fault") else "") for op in c["ops"]] for c in plan["clients"]]}
    if ctx.violations:
        return
    for i, sc in enumerate(scs):
        now = W.snapshot(sc)
        for k in base[i]:
            if now[k] != base[i][k]:
                ctx.violate("complex-changed", f"complex {i} ({plan['sources'][i]['kind']}): {k} was {str(base[i][k])[:200]}, after the calls {str(now[k])[:200]}")
                return
        ref, msg = validate(sc, None, f"complex {i} after the calls")
        if msg:
            ctx.violate("not-a-complex", msg)
            return
        for o in audit(i):
            out = C.execute(lambda: call(sc, o, len(refs[i].edges)), None)
            msg = compare(refs[i], o, out.raw, len(refs[i].edges)) if out.ok else f"{o} {out.brief()}"
            if msg:
                ctx.violate("not-the-product", f"complex {i} ({plan['sources'][i]['kind']}) after the calls: {msg}")
                return
        msg = description(sc, refs[i], feats[i], i + len(plan["clients"]))
        if msg:
            ctx.violate("wrong-description", f"complex {i} ({plan['sources'][i]['kind']}): {msg}")
            return
        for k, r in BAD_RANKS:
            out = C.execute(lambda: call(sc, {"k": k, "rank": r}, len(refs[i].edges)), None)
            if out.ok or not isinstance(out.exc, ValueError):
                ctx.violate("rank-accepted", f"complex {i}: {k} of rank {r}: {out.brief()}")
                return
