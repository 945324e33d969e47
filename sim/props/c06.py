"""C06: edge lists give the same links in any record order and with repeats."""
import itertools

from .. import client as C
from .. import core, devices, files as FS, world as W

PROPERTY = "C06"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = (
    "One set of links is delivered as 1-4 edge lists in both formats: records reordered, repeated in either direction with later values that differ, "
    "one- or zero-based, (rarely) thousands of records apart, with and without feature columns (some values missing), in short pieces; 1-2 callers read them (again) in interleaved order, change what they were given "
    "and build complexes. Every read is compared with the model of its file; all deliveries must agree on the undirected links. Non-trivial: some file repeats "
    "a link or is not in ascending order. Distinct: different event log."
)
REAL = ["pytspl.io.network_reader, scbuilder, pandas parser"]
STUB = ["disk: generated files served in seeded pieces", "delivery: seeded reordering and duplication of records"]
ASSUME = ["self-loops and empty files are outside the property"]


def deliveries(rng, base):
    """Re-delivery of the same links: reordering, duplication, reversal."""
    rec = [list(r) for r in base]
    out = []
    for u, v, x, t in rec:
        out.append([v, u, x, t] if rng.random() < 0.3 else [u, v, x, t])
        for _ in range(rng.choice([0, 0, 0, 1, 1, 3])):
            x2, t2 = round(rng.uniform(10, 99), 3), rng.choice(["dup", "late", "a"])
            out.append([v, u, x2, t2] if rng.random() < 0.5 else [u, v, x2, t2])
    w = rng.random()
    if w < 0.6:
        rng.shuffle(out)
    elif w < 0.75:
        out.sort(key=lambda r: (r[0], r[1]))
    elif w < 0.9:
        out.reverse()
    return out


def late(rng, base):
    """Every record once, then some of the earliest again."""
    out = [list(r) for r in base]
    for r in rng.sample(base[:200], 12) + rng.sample(base, 12):
        out.append([r[1], r[0], 77.25, "late"] if rng.random() < 0.5 else [r[0], r[1], 77.25, "late"])
    return out


def relabel(rng, base):
    """Node numbers that are large, with gaps, and easily taken for others when
    combined into one number or text."""
    n = 1 + max(max(r[0], r[1]) for r in base)
    B = rng.choice([10, 100, 128, 255, 256, 512, 1000, 1024, 4096, 9999, 10000])
    pool = sorted({a for k in range(4) for a in (k, B + k)}) if rng.random() < 0.7 else [1, 2, 11, 12, 21, 22, 111, 112, 121, 122, 211, 212]
    while len(pool) < n:
        pool.append(max(pool) + rng.choice([1, 1, 7, 50]))
    lab = rng.sample(pool, n)
    return [[lab[u], lab[v], x, t] for u, v, x, t in base]


def gen(rng, tier, idx):
    big = rng.random() < 0.08
    base = FS.gen_records(rng, nmin=3, nmax=40 if big else 9, dup=False, maxlinks=120 if big else 14)
    huge = rng.random() < 0.012
    if huge:
        # many links: repetitions lie thousands of records apart
        n = rng.randint(60, 90)
        pairs = list(itertools.combinations(range(n), 2))
        rng.shuffle(pairs)
        base = [[u, v, i % 9 + 0.5, "a"] for i, (u, v) in enumerate(pairs[:rng.randint(1100, 1700)])]
    elif rng.random() < 0.3:
        base = relabel(rng, base)
    files, readers = {}, []
    for i in range(1 if huge else rng.randint(1, 4)):
        rec = late(rng, base) if huge else deliveries(rng, base)
        if rng.random() < 0.6:
            o = {"k": "csv", "rec": rec, "sep": rng.choice([",", " ", "\t"]), "zero": rng.random() < 0.5, "feat": rng.choice([None, ["len"], ["len", "tag"], ["tag"], ["tag", "len"]]), "ef": rng.random() < 0.4}
            if o["sep"] != " " and not huge and rng.random() < 0.25:  # some records leave a value open
                for r in rec:
                    if rng.random() < 0.3:
                        r[rng.choice([2, 3])] = None
            o["path"] = [f"/simdisk/d{i}.csv"]
            files[o["path"][0]] = FS.render_csv(rec, o["sep"], 0 if o["zero"] else 1, o["ef"])
        else:
            o = {"k": "tntp", "rec": rec, "zero": rng.random() < 0.4, "path": [f"/simdisk/d{i}_net.tntp"]}
            files[o["path"][0]] = FS.render_tntp(rec, 0 if o["zero"] else 1)
        readers.append(o)
    clients = []
    for _ in range(rng.choice([1, 1, 2])):
        clients.append({"ops": [{"f": rng.randrange(len(readers)), "mut": rng.random() < 0.4, "build": rng.random() < 0.5} for _ in range(rng.randint(1, 4))]})
    clients[0]["ops"] = [{"f": i, "mut": rng.random() < 0.3, "build": rng.random() < 0.5} for i in range(len(readers))] + clients[0]["ops"][:2]
    if huge:
        clients = [{"ops": [{"f": 0, "mut": False, "build": False}]}]
    return {"readers": readers, "files": files, "clients": clients, "chunk": rng.choice([0, 0, 3, 40]) if not huge else 0, "preempt": core.gen_preempt(rng, 500), "first": rng.randrange(2)}


KEEP = ("files",)


def run(plan, ctx):
    C.silence()
    disk = devices.install_disk(devices.SimDisk())
    FS.mount(disk, plan["files"])
    disk.chunk = plan["chunk"]
    linksets = {}

    def client(i):
        for j, op in enumerate(plan["clients"][i]["ops"]):
            o = plan["readers"][op["f"]]
            label = f"caller {i} read {j} {o['k']} {o['path'][0]} (zero-based {o['zero']}, features {o.get('feat', 'all')})"
            try:
                out = C.execute(lambda: FS.call_reader(o), lambda r: FS.norm_reader(o, r), label=label)
            except core.StepBudget:
                ctx.violate("no-progress", label)
                return
            ctx.event(i, j, o["k"], out.ok)
            if not out.ok:
                ctx.violate("read-fails", f"{label}: raised {type(out.exc).__name__}: {out.exc}")
                return
            exp = FS.expect_reader(o)
            if out.malformed or not W.same(out.value, exp):
                ctx.violate("links-wrong", f"{label}: got {out.brief()}; records {[r[:3] for r in o['rec']]} mean {W.brief(exp)}")
                return
            b = out.raw
            key = tuple(sorted(tuple(sorted(e)) for e in out.value[1]))
            linksets[key] = label
            ctx.cov(o["k"], len(o["rec"]), len(exp[1]))
            if op["build"]:
                got = C.execute(lambda: b.to_simplicial_complex(), None, label=label + " build")
                if not got.ok:
                    ctx.violate("build-fails", f"{label}: building raised {type(got.exc).__name__}: {got.exc}")
                    return
                sc = got.raw
                ed = [tuple(map(int, e)) for e in sc.edges]
                if list(ed) != list(exp[1]) or FS._feats(sc.edge_features) != exp[2]:
                    ctx.violate("links-wrong", f"{label}: complex has edges {ed} features {sc.edge_features}; expected {exp[1]} {exp[2]}")
                    return
            if op["mut"]:
                # the caller does what it likes with the builder it was given
                b.edges.append((0, len(b.nodes)))
                b.nodes.append(len(b.nodes))
                for v in b.edge_features.values():
                    for k in list(v):
                        v[k] = -1

    sched = core.Scheduler(ctx, [client] * len(plan["clients"]), plan["preempt"], plan["first"])
    sched.run()
    if len(linksets) > 1 and not ctx.violations:
        ctx.violate("deliveries-disagree", f"{linksets}")
    recs = [o["rec"] for o in plan["readers"]]
    ctx.nontrivial = any(len(FS.links(r)[1]) < len(r) or [x[:2] for x in r] != sorted(x[:2] for x in r) for r in recs)
    ctx.count("records_duplicated", sum(len(r) - len(FS.links(r)[1]) for r in recs))
    ctx.count("fault:duplicated_record", sum(len(r) - len(FS.links(r)[1]) for r in recs))
    ctx.count("fault:reordered_delivery", sum([x[:2] for x in r] != sorted(x[:2] for x in r) for r in recs))
    ctx.sample = {"files": [[o["k"], [r[:2] for r in o["rec"]][:12]] for o in plan["readers"]], "piece": plan["chunk"]}
