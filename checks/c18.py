"""C18: a reader running beside a stream writer sees whole blobs, each once."""

from collections import Counter

from dst import decode
from dst.core import NS
from checks.common import *
from checks.stream import Driver

RUNS = {"quick": 1000, "thorough": 40000}
IMAGES = 6
NO_OPCODES = True
RULE = ("scenario: 1-3 processes stream records (writes landing in pieces, failing or cut off by a crash, processes started again) while 1-2 processes read the same days over and over, "
        "pausing between records; every read is compared with what was committed before, during and after it. Non-trivial = a read overlapped a commit and returned data.")
PROBES = ["overlap", "seen_whole", "not_yet", "piecewise", "crash", "torn", "failed_write", "lost_ack", "restarted", "two_readers", "several_reads", "empty_read", "by", "parquet", "two_days",
          "slow_consumer", "grew_between", "part_beside"]
ASSUMPTIONS = ["readers read without a cursor", "a process crash loses nothing the file system accepted"]


def gen(rng, tier):
    nk = rng.choice([1, 2, 3, 6])
    keys = [f"k{i}" for i in range(nk)]
    writers = []
    for i in range(rng.choice([1, 1, 2, 3])):
        clients = []
        for c in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.choice([2, 6, 12, 25])):
                x = rng.random()
                if x < 0.15:
                    ops.append(["s", rng.choice([0.01, 0.1, 1.0, 2.5])])
                elif x < 0.19:
                    ops.append(["f"])
                else:
                    ops.append(["a", rng.choice(keys), rng.choice([0, 20, 100, 3000])])
            clients.append({"ops": ops})
        writers.append({"clients": clients, "day": rng.choice([1, 1, 2]), "start": rng.choice([0, 0, 0.05, 1.5]), "crash": rng.choice([None, None, None, rng.randrange(400, 9000)])})
    readers = []
    for _ in range(rng.choice([1, 1, 2])):
        readers.append({"gap": rng.choice([0, 0.001, 0.02, 0.3]), "reads": rng.choice([2, 4, 8]), "pause": rng.choice([0, 0, 0, 0.01, 0.2]), "start": rng.choice([0, 0.01, 0.5])})
    backend = rng.choice(["disk", "disk", "disk", "store", "gcs", "minio"])
    faults = []
    if backend == "disk":
        for _ in range(rng.choice([0, 1, 2, 4])):
            if rng.random() < 0.6:
                faults.append({"site": "disk.write", "kind": "piecewise", "nth": rng.randrange(10), "times": rng.choice([1, 3]), "frac": rng.choice([0, 0.3, 0.7, 0.99]),
                               "delay_ns": rng.choice([10**6, 10**8, 10**9])})
            else:
                faults += disk_faults(rng, 1, span=12, crash=True)
    elif rng.random() < 0.6:
        faults = store_faults(rng, rng.choice([1, 2, 3]), sites=("before", "after", "slow", "crash_before", "crash_after"), span=10)
        for f in faults:
            if f.get("delay_ns"):
                f["delay_ns"] = min(f["delay_ns"], 5 * NS)
            if backend == "gcs" and "exc" in f:
                f["exc"] = rng.choice(["Forbidden", "ValueError"])
    return {"sim": swarm(rng), "format": rng.choice(["jsonl", "jsonl", "zstd", "parquet"]), "blob_size": rng.choice([1, 60, 200, 2000]), "capacity": rng.choice([1, 2, 10]),
            "idle": rng.choice([1, 2, 30]), "backend": backend, "writers": writers, "readers": readers, "faults": faults, "by": rng.random() < 0.3, "latency_ns": rng.choice([0, 0, 2_000_000])}


def directed():
    base = {"sim": {}, "format": "jsonl", "blob_size": 60, "capacity": 10, "idle": 30, "backend": "disk", "by": False, "latency_ns": 0, "faults": []}
    wr = lambda n, z=20, **kw: dict({"clients": [{"ops": [["a", f"k{i % 2}", z] for i in range(n)] + [["f"]]}], "day": 1, "start": 0, "crash": None}, **kw)
    rd = lambda **kw: dict({"gap": 0, "reads": 8, "pause": 0, "start": 0}, **kw)
    out = []
    piece = lambda **kw: dict({"site": "disk.write", "kind": "piecewise", "nth": 1, "times": 6, "frac": 0.5, "delay_ns": 10**8}, **kw)
    for fmt in ("jsonl", "zstd", "parquet"):
        out.append(dict(base, format=fmt, writers=[wr(12)], readers=[rd(gap=0.02)], faults=[piece()]))
        out.append(dict(base, format=fmt, writers=[wr(12)], readers=[rd(gap=0.02)], faults=[{"site": "disk.write", "kind": "torncrash", "nth": 3, "frac": 0.5}]))
        out.append(dict(base, format=fmt, writers=[wr(12)], readers=[rd(gap=0.02)], faults=[{"site": "disk.write", "kind": "enospc", "nth": 2, "times": 1, "frac": 0.5}]))
    out.append(dict(base, writers=[wr(8), wr(8, day=2), wr(8)], readers=[rd(pause=0.01), rd(gap=0.01)], faults=[piece(delay_ns=10**7)]))
    out.append(dict(base, backend="store", writers=[wr(8)], readers=[rd(gap=0.01)], faults=[{"site": "put", "kind": "after", "nth": 1, "times": 1, "exc": "OSError"}], latency_ns=2_000_000))
    return out


def run(w, sc):
    sim = w.sim
    backend = sc["backend"]
    ds = rootdir(backend) + "/ds"
    drivers = []
    reads = []
    stop = [False]
    if sc["by"]:
        sim.probe("by")
    if sc["format"] == "parquet":
        sim.probe("parquet")
    if len({x["day"] for x in sc["writers"]}) > 1:
        sim.probe("two_days")
    if len(sc["readers"]) > 1:
        sim.probe("two_readers")
    readers_procs = set()

    def writer(i, spec):
        """one writing process; when it is killed it is started again"""
        def body():
            w.sleep(spec["start"])
            for life in range(3):
                sub = dict(sc, date=f"2024-03-0{spec['day']}", partitions=["day_{dd}", "by_k/k={k}" if sc["by"] else "k={k}"])
                d = Driver(w, sub, proc=w.proc(f"w{i}.{life}"))
                d.n = (i * 10 + life) * 100_000
                drivers.append(d)
                if spec["crash"] and life == 0:
                    sim.crash_at[sim.step + spec["crash"]] = d.proc
                d.setup()
                if life:
                    sim.probe("restarted")

                def client(ci, ops):
                    def go():
                        for op in ops:
                            if op[0] == "s":
                                w.sleep(op[1])
                            elif op[0] == "f":
                                d.finalize()
                                w.sleep(0.01)
                            else:
                                c = d.append(ci, op[1], op[2])
                                if not c.ok and not sim.fault_fired:
                                    w.fail("append-failed", f"append raised with a healthy store: {c!r}")
                    return go
                if d.writer is not None:
                    ts = [w.client(d.proc, client(ci, c["ops"]), f"c{ci}") for ci, c in enumerate(spec["clients"])]
                    for t in ts:
                        if not w.join(t, 3600):
                            w.fail("blocked", f"{t!r} has not finished")
                if not d.proc.dead:
                    break
                sim.probe("crash")

            def fin():
                for _ in range(6):
                    if d.finalize().ok:
                        return
                    w.sleep(0.2)
            if not d.proc.dead:
                w.join(w.client(d.proc, fin, "fin"), 3600)
        return body

    def reader(i, spec):
        proc = w.proc(f"r{i}")
        readers_procs.add(proc.name)

        def one(n):
            e = {"who": i, "n": n, "s0": sim.step, "s1": None, "got": None}
            reads.append(e)
            sim.log("read", i, n)
            got = []

            def go():
                rd = open_reader(w, proc, backend, ds, start_date="2024-03-01", end_date="2024-03-02", partitions=["day_{dd}"])
                for r in rd:
                    got.append(plain(r))
                    if spec["pause"] and len(got) % 3 == 1:
                        w.sleep(spec["pause"])
            c = w.call(go)
            e["s1"] = sim.step
            sim.log("read.", i, n, len(got), c.ok)
            if not c.ok:
                if iskind(c, "DataNotFoundError") and not got:
                    e["none"] = True
                    sim.probe("empty_read")
                else:
                    w.fail("read-failed", f"read {n} of reader {i}: {c!r}")
            e["got"] = got

        def body():
            w.sleep(spec["start"])
            n = 0
            while n < spec["reads"] or (not stop[0] and n < 25):
                one(n)
                n += 1
                w.sleep(spec["gap"] * (1 if n < spec["reads"] else 30) + 0.0001)
            if n > 1:
                sim.probe("several_reads")
        if spec["pause"]:
            sim.probe("slow_consumer")
        return proc, body, one

    boss = w.proc("boss")
    ws = [w.client(boss, writer(i, s), f"w{i}") for i, s in enumerate(sc["writers"])]
    rs = []
    made = [reader(i, s) for i, s in enumerate(sc["readers"])]
    for proc, body, one in made:
        rs.append(w.client(proc, body, "main"))
    for t in ws:
        if not w.join(t, 36000):
            w.fail("blocked", f"{t!r} has not finished")
    stop[0] = True
    for t in rs:
        if not w.join(t, 360000):
            w.fail("blocked", f"{t!r} has not finished")
    sim.faults = []
    # --- one more read of everything
    t = w.client(made[0][0], lambda: made[0][2](1000), "last")
    if not w.join(t, 36000):
        w.fail("blocked", "the last read has not finished")

    # --- what was stored when
    appended = {}
    for d in drivers:
        for a in d.appends:
            appended[a["id"]] = key(a["rec"])
    blobs = {}
    commits = getattr(sim, "commits", [])
    named = {}
    for c in commits:
        if c["ok"]:
            named[w.full_name(backend, c["name"])] = c
    by_data = {}
    for c in commits:
        by_data.setdefault(c["data"], []).append(c)
    final = w.files(backend, ds)
    for name, data in final.items():
        if not decode.is_data(name):
            if name.endswith(".part"):
                sim.probe("part_beside")
            continue
        recs = decode.decode(name, data)
        if recs is None:
            w.fail("bad-blob", f"{name} in storage is not readable")
        c = named.get(name)
        if c is None:
            tries = by_data.get(data, [])
            if not tries:
                w.fail("bad-blob", f"{name} in storage holds what was never committed")
            blobs[name] = {"recs": [key(r) for r in recs], "s0": min(x["s0"] for x in tries), "s1": None}
            sim.probe("lost_ack")
        else:
            if c["data"] != data:
                w.fail("bad-blob", f"{name} in storage differs from what was committed")
            blobs[name] = {"recs": [key(r) for r in recs], "s0": c["s0"], "s1": c["s1"]}
    for name in named:
        if name.startswith(ds + "/") and decode.is_data(name) and name not in blobs:
            w.fail("lost-blob", f"{name} was committed and is no longer stored")
    where = {}
    for n, b in blobs.items():
        for r in b["recs"]:
            where.setdefault(r, []).append(n)
    known = set(appended.values())
    done = []
    for e in sorted(reads, key=lambda e: e["s1"] if e["s1"] is not None else 1 << 60):
        if e["got"] is None:
            continue
        got = keys_of(e["got"])
        cnt = Counter(got)
        label = f"read {e['n']} of reader {e['who']}"
        for r in cnt:
            if r not in known:
                w.fail("invented", f"{label} returned {r[:200]}, which was not appended")
            if r not in where:
                w.fail("invented", f"{label} returned {r[:200]}, which is in no committed blob")
        must = Counter()
        may = Counter()
        overlap = False
        for n, b in blobs.items():
            before = b["s1"] is not None and b["s1"] < e["s0"]
            possible = b["s0"] < e["s1"]
            if before:
                must.update(b["recs"])
            if possible:
                may.update(b["recs"])
            if possible and not before:
                overlap = True
        if must - cnt:
            x = list((must - cnt).elements())
            w.fail("missing", f"{label} did not return {len(x)} records of blobs committed before it began: {x[:3]} of {where[x[0]]}")
        if cnt - may:
            x = list((cnt - may).elements())
            w.fail("repeated", f"{label} returned {x[0][:200]} {cnt[x[0]]} times, it is in {where[x[0]]} (committed by then: {may[x[0]]})")
        for n, b in blobs.items():
            # a blob none of whose records is elsewhere is there whole or not at all
            if b["recs"] and all(len(where[r]) == 1 for r in b["recs"]):
                there = sum(1 for r in b["recs"] if cnt[r])
                if there not in (0, len(b["recs"])):
                    w.fail("part-of-blob", f"{label} returned {there} of the {len(b['recs'])} records of {n}")
                if there:
                    at = got.index(b["recs"][0])
                    if got[at:at + len(b["recs"])] != b["recs"]:
                        w.fail("order", f"{label} returned the records of {n} in another order or apart")
                if not (b["s1"] is not None and b["s1"] < e["s0"]) and b["s0"] < e["s1"]:
                    sim.probe("seen_whole" if there else "not_yet")
        if overlap:
            sim.probe("overlap")
            if got:
                sim.probe("nontrivial")
        for f in done:
            if f["s1"] < e["s0"]:
                lost = f["cnt"] - cnt
                if lost:
                    x = list(lost.elements())
                    w.fail("vanished", f"{label} did not return {x[:3]}, which {f['label']} had returned")
                if cnt - f["cnt"]:
                    sim.probe("grew_between")
        e["cnt"], e["label"] = cnt, label
        done.append(e)
    for h in sim.history:
        if h[2] == "piece":
            sim.probe("piecewise")
    for s, k in (("disk.write/torncrash", "torn"), ("disk.write/eio", "failed_write"), ("disk.write/enospc", "failed_write"), ("put/before", "failed_write")):
        if any(x.replace(":", "/") == s for x in sim.fault_fired):
            sim.probe(k)
