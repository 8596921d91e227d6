"""C04: a stream's blobs are cut only for size, idleness, over-capacity or finalize."""

from dst import decode
from dst.core import NS
from checks.common import *
from checks.stream import Driver

RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("scenario: 1-3 client threads append to up to 3x capacity partitions of 1-2 StreamWriters, with pauses, wall-clock steps and storage faults; after each burst the pool "
        "has to shrink to its capacity; then finalize. Non-trivial = the pool was over capacity, at capacity, or a size or idle cut happened.")
PROBES = ["cut_size", "cut_idle", "cut_capacity", "cut_finalize", "over_capacity", "at_capacity", "settled", "clock_step", "backout"]
ASSUMPTIONS = ["the size of an open Parquet blob is the size orso reports for its rows",
               "the attendant has 4 s plus 0.5 s for each round of evictions, and the time slow storage took, to bring the pool to its capacity"]
SLACK = 4.0


def gen(rng, tier):
    cap = rng.choice([1, 2, 3, 5, 8, 12])
    nk = max(1, rng.choice([1, cap - 1, cap, cap, cap + 1, cap + 2, cap * 2, cap * 3]))
    nw = 2 if rng.random() < 0.2 else 1
    keys = [f"k{i}" for i in range(nk)]
    bad = rng.random() < 0.25
    if bad:
        keys = [k + "!" if rng.random() < 0.5 else k for k in keys]
    idle = rng.choice([1, 2, 5, 30, 60])
    clients = []
    for c in range(rng.choice([1, 1, 2, 3])):
        ops = []
        burst = rng.random() < 0.6
        for n in range(rng.choice([3, 10, 20, 40])):
            x = rng.random()
            if x < (0.05 if burst else 0.3):
                ops.append(["s", rng.choice([0.05, 0.1, 0.3, 1.0, idle - 0.1, idle + 0.1, idle + 1, SLACK + 2])])
            elif x > 0.97:
                ops.append(["j", rng.choice([-3600, 3600, 1, -1, -86400 * 30])])
            else:
                k = keys[n % nk] if burst and n < nk else rng.choice(keys)
                ops.append(["a", rng.randrange(nw), k, rng.choice([0, 0, 10, 100, 400])])
        clients.append({"ops": ops})
    backend = rng.choice(["store", "store", "disk"])
    faults = []
    if rng.random() < 0.35:
        faults = store_faults(rng, rng.choice([1, 2, 3]), span=8) if backend == "store" else disk_faults(rng, rng.choice([1, 2, 3]), span=8)
        for f in faults:
            if "delay_ns" in f:
                f["delay_ns"] = min(f["delay_ns"], 5 * NS)
    cfg = swarm(rng, tick_ns=rng.choice([1, 1, 1_000_000, 16_000_000]), stall_p=rng.choice([0, 0, 0.02]), stall_ns=150_000_000)
    return {"sim": cfg, "format": rng.choice(["jsonl", "jsonl", "zstd", "parquet"]), "blob_size": rng.choice([0, 100, 300, 1000, 10**6, 10**6]),
            "capacity": cap, "idle": idle, "nw": nw, "backend": backend, "clients": clients,
            "latency_ns": rng.choice([0, 0, 0, 1_000_000, 50_000_000]), "faults": faults, "settle": rng.random() < 0.7, "schema": bad}


def directed():
    base = {"sim": {"stall_p": 0}, "format": "jsonl", "blob_size": 10**6, "capacity": 5, "idle": 60, "nw": 1, "backend": "store",
            "latency_ns": 0, "faults": [], "settle": True}
    a = lambda k, n=0: ["a", 0, k, n]
    return [
        # below, at and above capacity; older partitions used again after newer ones
        dict(base, clients=[{"ops": [a(f"k{i}") for i in range(4)] + [["s", 1]] + [a(f"k{i}") for i in range(4)]}]),
        dict(base, clients=[{"ops": [a(f"k{i}") for i in range(5)] + [["s", 1]] + [a(f"k{i}") for i in range(5)]}]),
        dict(base, clients=[{"ops": [x for i in range(8) for x in (a(f"k{i}"), ["s", 0.01])][:-1] + [["s", 0.3]] + [a("k7"), a("k6")]}]),
        dict(base, capacity=3, clients=[{"ops": [a("k0"), ["s", 0.01], a("k1"), ["s", 0.01], a("k2"), ["s", 0.01], a("k0"), ["s", 0.01], a("k3"), ["s", 0.5], a("k0")]}]),
        dict(base, capacity=2, clients=[{"ops": [a(f"k{i}") for i in range(12)] + [["s", 6]]}]),
        dict(base, blob_size=150, clients=[{"ops": [a("x", 60)] * 9}]),
        dict(base, blob_size=300, format="parquet", clients=[{"ops": [a("x", 60)] * 12}]),
        dict(base, blob_size=150, format="zstd", clients=[{"ops": [a("x", 60)] * 9 + [["s", 1], a("x", 1000), a("x", 1000)]}]),
        dict(base, idle=2, clients=[{"ops": [["a", 0, "x", 0], ["s", 1.5]] * 6}]),
        # records which break the schema count as a partition like any other
        dict(base, capacity=3, schema=True, clients=[{"ops": [a("k0!"), ["s", 0.01], a("k0"), ["s", 0.01], a("k1"), ["s", 0.01], a("k0!"), ["s", 0.01], a("k2"), ["s", 0.5], a("k0!"), a("k3!"), ["s", 0.5], a("k2")]}]),
        dict(base, idle=2, schema=True, clients=[{"ops": [["a", 0, "x!", 0], ["s", 1.5], ["a", 0, "x", 0]] * 5}]),
        dict(base, blob_size=300, format="parquet", clients=[{"ops": [a("x!", 60), a("x", 60)] * 9}]),
        dict(base, idle=5, clients=[{"ops": [a("x"), ["j", 3600], a("y"), ["s", 3], a("x")]}]),
    ]


def wal_bytes(schema, records):
    from orso import DataFrame

    df = DataFrame(rows=[], schema=schema)
    for r in records:
        df.append(r)
    return df.nbytes() if records else 0


def run(w, sc):
    sim = w.sim
    proc = w.proc("app")
    ds = [Driver(w, sc, proc, f"ds{i}") for i in range(sc["nw"])]

    def make():
        for d in ds:
            d.make()

    w.join(w.client(proc, make, "setup"))
    slow = sum(f.get("delay_ns", 0) * f.get("times", 1) for f in sc["faults"]) / NS + sc["latency_ns"] / NS * 40 + sc["sim"]["oversleep_ns"] / NS * 10

    def open_keys(d, by_step=None):
        done = set()
        for c in d.commits():
            done.update(r["id"] for r in c["records"])
        return {a["k"] for a in d.appends if a["ok"] and a["id"] not in done}

    def settled(d, when):
        keys = open_keys(d)
        if len(keys) > sc["capacity"]:
            w.fail("over-capacity", f"{when}, {len(keys)} partitions hold uncommitted records, the pool's capacity is {sc['capacity']}: {sorted(keys)}")
        sim.probe("settled")

    def client(ci, ops):
        def body():
            for op in ops:
                if op[0] == "s":
                    w.sleep(op[1])
                elif op[0] == "j":
                    proc.skew += int(op[1] * NS)
                    sim.log("jump", ci, op[1])
                    sim.probe("clock_step")
                else:
                    c = ds[op[1]].append(ci, op[2], op[3])
                    if not c.ok and not sim.fault_fired:
                        w.fail("append-failed", f"append raised with a healthy store: {c!r}")
        return body

    cl = [w.client(proc, client(i, c["ops"]), f"client{i}") for i, c in enumerate(sc["clients"])]
    for i, t in enumerate(cl):
        if not w.join(t, 7200):
            w.fail("blocked", f"client {i} is still blocked after two hours: {t!r}")
    if sc["settle"]:
        sim.faults = []
        w.sleep(SLACK + slow + 0.5 * (max(len({a['k'] for a in d.appends}) for d in ds) // sc["capacity"] + 1))
        for d in ds:
            settled(d, "after the attendant had time to bring the pool to its capacity")

    def fin():
        for d in ds:
            for attempt in range(8):
                if attempt == 4:
                    sim.faults = []
                c = d.finalize()
                if c.ok:
                    break
                if not sim.fault_fired:
                    w.fail("finalize-failed", f"finalize raised with a healthy store: {c!r}")
                w.sleep(0.3)
            else:
                w.fail("finalize-failed", f"finalize still raises after the store recovered: {c!r}")

    f = w.client(proc, fin, "finalizer")
    if not w.join(f, 7200):
        w.fail("blocked", "finalize has not returned after two hours")
    for d in ds:
        judge(w, sc, d)


def judge(w, sc, d):
    sim = w.sim
    blob_size, cap, idle = sc["blob_size"], sc["capacity"], sc["idle"]
    schema = d.writer.schema
    finals = {}
    for c in d.commits():
        k, records = c["key"], c["records"]
        if not records:
            w.fail("empty-blob", f"{c['name']} holds no records")
        if c["name"].endswith(".parquet"):
            size, before = wal_bytes(schema, records), wal_bytes(schema, records[:-1])
        else:
            size = decode.raw_size(c["name"], c["data"])
            lines = [len(json.dumps(r, separators=(",", ":"))) + 1 for r in records]
            before = size - lines[-1]
        if len(records) > 1 and before > blob_size:
            w.fail("oversize", f"{c['name']} holds {size} bytes of records, {before} without its last record; blob_size is {blob_size}")
        if any(f0 <= c["s0"] and (f1 is None or c["s0"] <= f1) for f0, f1 in d.fin_spans):
            sim.probe("cut_finalize")
            finals[k] = finals.get(k, 0) + 1
            continue
        # cut while the stream was open
        mine = [a for a in d.appends if a["k"] == k and a["s1"] is not None and a["s1"] <= c["s0"]]
        last = max(mine, key=lambda a: a["s1"]) if mine else None
        inside = any(a["k"] == k and a["task"] == c["task"] and a["s0"] <= c["s0"] and (a["s1"] is None or c["s0"] <= a["s1"]) for a in d.appends)
        if inside:
            # an append commits the blob before it adds its record
            if size > blob_size:
                sim.probe("cut_size")
                sim.probe("nontrivial")
                continue
            w.fail("early-size-cut", f"{c['name']} was committed by an append with {size} bytes, blob_size is {blob_size}")
        if last is None:
            if size > blob_size:
                continue
            # its only append has yet to return
            last = min((a for a in d.appends if a["k"] == k), key=lambda a: a["s0"])
        quiet = (c["t0"] - last["t0"]) / NS
        if quiet >= idle:
            sim.probe("cut_idle")
            sim.probe("nontrivial")
            continue
        others = {a["k"] for a in d.appends if a["k"] != k and a["s0"] <= c["s0"] and (a["t1"] is None or a["t1"] >= last["t0"])}
        if len(others) >= cap:
            sim.probe("cut_capacity")
            sim.probe("over_capacity")
            sim.probe("nontrivial")
            continue
        w.fail("early-cut", f"{c['name']} (records {[r['id'] for r in records][:8]}) was committed {quiet:.3f} s after the partition's last use (idle timeout {idle} s) at "
                            f"{size} bytes (blob_size {blob_size}) with {len(others)} partitions used at least as recently (capacity {cap})")
    if len({a["k"] for a in d.appends}) in (cap, cap - 1):
        sim.probe("at_capacity")
        sim.probe("nontrivial")
