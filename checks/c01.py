"""C01: streamed records reach storage exactly once by the time finalize returns."""

from dst import decode
from checks.common import *

RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("scenario: 1-4 client threads, 1-2 StreamWriters, up to ~120 appends with pauses, storage faults, then finalize (retried if it raises); "
        "non-trivial = a blob was committed before finalize (eviction or size) or a fault fired.")
PROBES = ["bg_commit", "size_commit", "finalize_raised", "append_raised", "lost_ack", "lock_contended", "gc_op", "two_writers", "same_partition_values", "backout"]
ASSUMPTIONS = ["appends do not overlap or follow finalize (use after finalize is undefined)",
               "a simulated put is atomic; a put reported failed may or may not have been applied"]


DAY = "year_{yyyy}/month_{mm}/day_{dd}"
LAYOUTS = {"k": [DAY, "k={k}"], "day": [DAY], "hour": [DAY, "by_hour/hour={HH}"]}


def gen(rng, tier):
    fmt = rng.choice(["jsonl", "zstd", "jsonl", "parquet"])
    lists = fmt != "parquet" and rng.random() < 0.2
    schema = fmt == "parquet" or rng.random() < 0.2
    bad = rng.choice([0, 0.3, 0.3, 1])
    nk = rng.choice([1, 2, 3, 5, 8, 14])
    keys = [f"k{i}" for i in range(nk)]
    nw = 2 if rng.random() < 0.25 else 1
    clients = []
    idle = rng.choice([1, 2, 5, 30])
    for c in range(rng.choice([1, 1, 2, 3, 4])):
        ops = []
        pause = rng.choice([0.0, 0.05, 0.3])
        for _ in range(rng.choice([1, 3, 10, 30])):
            x = rng.random()
            if x < pause:
                ops.append(["s", rng.choice([0.01, 0.09, 0.1, 0.11, 0.5, 1.0, idle - 0.05, idle, idle + 0.1, idle * 2])])
            elif x > 0.985:
                ops.append(["g"])
            else:
                k = rng.sample(keys, min(nk, rng.choice([1, 2, 3]))) if lists and rng.random() < 0.5 else rng.choice(keys)
                if isinstance(k, list) and rng.random() < 0.3:
                    k = rng.choice([[7, "7"], ["7", 7, "k0"], ["None", None], ["k0", "k0"], [7, 7, "7"]])
                ops.append(["a", rng.randrange(nw), k, rng.choice([0, 0, 1, 20, 200])] + (["!"] if schema and rng.random() < bad else []))
        clients.append({"ops": ops})
    backend = rng.choice(["store", "store", "disk"])
    faults = []
    if rng.random() < 0.6:
        if backend == "store":
            faults = store_faults(rng, rng.choice([1, 1, 2, 4]))
        else:
            faults = disk_faults(rng, rng.choice([1, 1, 2, 4]))
    return {"sim": swarm(rng), "format": fmt, "schema": schema, "blob_size": rng.choice([50, 300, 1000, 10**6]),
            "capacity": rng.choice([1, 2, 3, 5, 10]), "idle": idle, "nw": nw, "backend": backend, "clients": clients,
            "latency_ns": rng.choice([0, 0, 1_000_000, 200_000_000]), "faults": faults,
            "date": rng.choice([None, None, "2024-02-29"]), "layout": rng.choice(list(LAYOUTS) + ["k"] * 4), "settle": rng.choice([0, 0, 1.0, 40.0])}


def directed():
    a = lambda k, n=0: ["a", 0, k, n]
    base = {"sim": {}, "format": "jsonl", "schema": False, "blob_size": 10**6, "capacity": 10, "idle": 1, "nw": 1,
            "backend": "store", "latency_ns": 0, "faults": [], "date": None, "settle": 0, "layout": "k"}
    out = []
    # eviction hits a failing store while the client keeps writing
    out.append(dict(base, clients=[{"ops": [a("x"), a("x"), ["s", 1.3], a("x"), a("y"), ["s", 3]]}],
                    faults=[{"site": "put", "kind": "before", "nth": 0, "exc": "OSError"}]))
    # finalize hits a failing store for the second of three partitions
    out.append(dict(base, idle=30, clients=[{"ops": [a("x"), a("y"), a("z")]}],
                    faults=[{"site": "put", "kind": "before", "nth": 1, "exc": "StoreError"}]))
    # append racing the eviction of the same partition, slow store
    out.append(dict(base, capacity=1, latency_ns=150_000_000,
                    clients=[{"ops": [a("x"), ["s", 1.05], a("x"), ["s", 1.1], a("x"), a("y"), ["s", 0.1], a("x")]},
                             {"ops": [a("x"), ["s", 1.0], a("y"), a("x"), ["s", 1.0], a("x")]}]))
    # size-driven commit fails inside append
    out.append(dict(base, blob_size=50, clients=[{"ops": [a("x", 30)] * 6}],
                    faults=[{"site": "put", "kind": "before", "nth": 1, "times": 2, "exc": "OSError"}]))
    # values which differ and are for the same partition
    out.append(dict(base, clients=[{"ops": [a([7, "7"]), a("x"), a(["k0", "7"]), ["s", 1.3], a(["None", None, "k0"]), a(["y", "y"])]}]))
    # records which break the schema, beside those which don't
    x = lambda k, n=0: a(k, n) + ["!"]
    for layout in ("day", "k"):
        for fmt in ("jsonl", "parquet"):
            b = dict(base, layout=layout, format=fmt, schema=True)
            out.append(dict(b, clients=[{"ops": [x("x"), a("x"), ["s", 1.3], x("x"), x("y"), a("x"), ["s", 3], x("z")]}],
                            faults=[{"site": "put", "kind": "before", "nth": 0, "exc": "OSError"}]))
            out.append(dict(b, blob_size=60, capacity=1, clients=[{"ops": [x("x", 9), a("x", 20)] * 6}, {"ops": [a("x", 9), x("y", 20)] * 6}]))
            out.append(dict(b, idle=30, clients=[{"ops": [x("x"), a("x"), x("y")]}], faults=[{"site": "put", "kind": "before", "nth": 1, "exc": "StoreError"}]))
    # two clients sharing the one partition of a layout without field placeholders, commits taking long
    for layout in ("day", "hour", "k"):
        for lat in (0, 1_000_000):
            out.append(dict(base, layout=layout, blob_size=60, idle=30, latency_ns=lat, clients=[{"ops": [a("x", 5), a("x", 20)] * 8} for _ in range(3)]))
    return out


def dataset(sc, w):
    return ("data/" if sc["backend"] == "disk" else "bucket/") + f"ds{w}"


def run(w, sc):
    sim = w.sim
    proc = w.proc("app")
    SW = proc.image.get("mabel.data.StreamWriter")
    st = {}
    acked, unsure = {}, {}
    counter = [0]

    def make():
        for i in range(sc["nw"]):
            kw = {}
            if sc["date"]:
                kw["date"] = sc["date"]
            st[i] = SW(dataset=dataset(sc, i), format=sc["format"], schema=SCHEMA if sc["schema"] else False,
                       inner_writer=w.writer_adapter(proc, sc["backend"]), idle_timeout_seconds=sc["idle"],
                       writer_pool_capacity=sc["capacity"], blob_size=sc["blob_size"],
                       partitions=LAYOUTS[sc["layout"]], **kw)

    def client(ci, ops):
        def body():
            for op in ops:
                if op[0] == "s":
                    w.sleep(op[1])
                elif op[0] == "g":
                    sim.probe("gc_op")
                    w.collect_garbage()
                else:
                    counter[0] += 1
                    r = rec(counter[0], op[2], op[3])
                    if len(op) > 4:
                        r["p"] = [r["p"]]  # breaks the schema
                        sim.probe("backout")
                    wi = op[1] % sc["nw"]
                    sim.log("append", ci, r["id"], str(op[2]))
                    before = len(w.store.puts)
                    c = w.call(st[wi].append, dict(r))
                    sim.log("append.", ci, r["id"], c.ok)
                    (acked if c.ok else unsure)[r["id"]] = (wi, r)
                    if len(w.store.puts) > before:
                        sim.probe("size_commit")
                    if not c.ok:
                        sim.probe("append_raised")
                        if not sim.fault_fired:
                            w.fail("append-failed", f"append raised with a healthy store: {c!r}")
        return body

    mk = w.client(proc, make, "setup")
    w.join(mk)
    cl = [w.client(proc, client(i, c["ops"]), f"client{i}") for i, c in enumerate(sc["clients"])]
    for t in cl:
        w.join(t)
    if len(w.store.puts) or (sc["backend"] == "disk" and w.files("disk", "data")):
        sim.probe("bg_commit")
        sim.probe("nontrivial")
    if sc["nw"] == 2:
        sim.probe("two_writers")

    def fin():
        for i in range(sc["nw"]):
            for attempt in range(8):
                if attempt == 4:
                    sim.faults = []
                c = w.call(st[i].finalize)
                sim.log("finalize", i, c.ok)
                if c.ok:
                    break
                sim.probe("finalize_raised")
                if not sim.fault_fired:
                    w.fail("finalize-failed", f"finalize raised with a healthy store: {c!r}")
                w.sleep(0.3)
            else:
                w.fail("finalize-never-succeeds", f"finalize still raises after the store recovered: {c!r}")
            check(i, f"when finalize of writer {i} returned")

    def check(only, when):
        lost_ack = {}
        if sc["backend"] != "disk":
            for p in w.store.puts:
                if p["ack"] is None:
                    lost_ack[p["name"]] = p
        blobs = w.data_blobs(sc["backend"], "data" if sc["backend"] == "disk" else "bucket")
        where = {}
        for name, records in blobs:
            if records is None:
                w.fail("bad-blob", f"committed blob {name} is not readable {when}")
            for r in records:
                where.setdefault(r.get("id") if isinstance(r, dict) else None, []).append((name, r))
        for rid, places in where.items():
            src = acked.get(rid) or unsure.get(rid)
            if src is None:
                w.fail("phantom", f"record {places[0]} in storage was never appended")
            if any(key(p[1]) != key(src[1]) for p in places):
                w.fail("altered", f"stored {places} differs from appended {src[1]}")
        if lost_ack:
            sim.probe("lost_ack")
        for rid, (wi, r) in {**acked, **unsure}.items():
            if only is not None and wi != only:
                continue
            ks = [""] if sc["layout"] != "k" else sorted({f"/k={k}/" for k in r["k"]}) if isinstance(r["k"], list) else [f"/k={r['k']}/"]
            if isinstance(r["k"], list) and len(ks) < len(r["k"]):
                sim.probe("same_partition_values")
            places = where.get(rid, [])
            ok_ack = rid in acked
            for k in ks:
                here = [n for n, _ in places if n.startswith(dataset(sc, wi) + "/") and k in n]
                firm = [n for n in here if n not in lost_ack]
                if ok_ack and not here:
                    w.fail("lost", f"record {rid} ({k}) was acknowledged but is not in storage {when}")
                if len(firm) > 1:
                    w.fail("duplicate", f"record {rid} ({k}) stored {len(firm)} times {when}: {firm}")
            extra = [n for n, _ in places
                     if not (n.startswith(dataset(sc, wi) + "/") and any(k in n for k in ks))]
            if extra:
                w.fail("misplaced", f"record {rid} with k={r['k']} of {dataset(sc, wi)} found in {extra}")

    f = w.client(proc, fin, "finalizer")
    w.join(f)
    check(None, "after all finalizes")
    sim.faults = []
    w.sleep(sc["settle"] + 1.0)
    check(None, "some time after finalize")
    if sim.fault_fired:
        sim.probe("nontrivial")
