"""C08: a committed blob is never overwritten by another commit."""

from dst import decode
from dst.core import NS
from checks.common import *

RUNS = {"quick": 2000, "thorough": 50000}
IMAGES = 4
RULE = ("scenario: 1-3 processes of 1-4 threads commit many small blobs to the same folders through Writers, BatchWriters and StreamWriters while the clock is coarse, frozen or put back; "
        "every commit's name is compared with all others. Non-trivial = two commits of a folder happened within one clock tick, overlapped, or around a backward step.")
PROBES = ["same_tick", "overlap", "clock_back", "many_procs", "stream", "lost_ack", "same_writer_burst", "ordered_pairs", "shared_frame"]
ASSUMPTIONS = ["processes sharing a store differ in node id or process id, and a process id is not reused", "markers (frame.complete) are not data blobs"]


def gen(rng, tier):
    procs = rng.choice([1, 1, 2, 3])
    threads = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        ops = []
        for _ in range(rng.choice([2, 5, 12, 25])):
            x = rng.random()
            if x < 0.12:
                ops.append(["s", rng.choice([0.000001, 0.001, 0.015, 0.1, 1.2])])
            elif x < 0.2:
                ops.append(["j", rng.choice([-0.001, -1, -60, -3600, 3600, 1])])
            elif x < 0.3:
                ops.append(["f"])
            else:
                ops.append(["a", rng.choice(["x", "y"]), rng.choice([0, 0, 40])])
        threads.append({"proc": rng.randrange(procs), "kind": rng.choice(["Writer", "Writer", "BatchWriter", "StreamWriter"]), "ops": ops})
    backend = rng.choice(["store", "disk", "gcs", "minio"])
    faults = []
    if rng.random() < 0.3 and backend != "disk":
        faults = store_faults(rng, 1, sites=("before", "after"))
        for f in faults:
            f["exc"] = "ConnectionResetError" if backend != "gcs" else rng.choice(["ConnectionResetError", "Forbidden"])
    cfg = swarm(rng, tick_ns=rng.choice([1, 100, 1_000_000, 16_000_000, 10**15]), step_cost_ns=rng.choice([0, 0, 200]))
    apart = rng.choice(["pid", "pid", "node", "node", "both"])
    gap = {"pid": rng.choice([1, 1, 1 << 8, 1 << 12, 1 << 16, 1 << 20]), "node": 1 << rng.choice([0, 0, 8, 16, 24, 32, 40]), "both": rng.choice([4, 8])}[apart]
    return {"sim": cfg, "procs": procs, "frame": rng.random() < 0.3, "apart": apart, "gap": gap, "threads": threads, "backend": backend, "format": rng.choice(["jsonl", "zstd", "parquet"]),
            "blob_size": rng.choice([0, 0, 60]), "faults": faults, "latency_ns": rng.choice([0, 0, 20_000_000])}


def directed():
    base = {"sim": {"tick_ns": 10**15, "step_cost_ns": 0}, "procs": 1, "frame": False, "apart": "pid", "backend": "store", "format": "jsonl", "blob_size": 0, "faults": [], "latency_ns": 0}
    a = ["a", "x", 0]
    out = []
    for backend in ("store", "disk", "gcs", "minio"):
        out.append(dict(base, backend=backend, threads=[{"proc": 0, "kind": "Writer", "ops": [a] * 6}]))
        out.append(dict(base, backend=backend, threads=[{"proc": 0, "kind": "Writer", "ops": [a] * 4}, {"proc": 0, "kind": "Writer", "ops": [a] * 4}]))
    for apart, gap in (("pid", 1), ("pid", 1 << 16), ("node", 1), ("node", 1 << 40), ("both", 4)):
        out.append(dict(base, procs=2, apart=apart, gap=gap, threads=[{"proc": 0, "kind": "Writer", "ops": [a] * 4}, {"proc": 1, "kind": "Writer", "ops": [a] * 4}]))
    for backend in ("store", "disk"):
        for procs in (1, 2):
            for ops in ([a], [a, a, a]):
                out.append(dict(base, backend=backend, procs=procs, gap=1, frame=True, sim={"preempt": 0.2}, threads=[{"proc": i % procs, "kind": "BatchWriter", "ops": ops} for i in range(3)]))
    out.append(dict(base, sim={"tick_ns": 1}, threads=[{"proc": 0, "kind": "BatchWriter", "ops": [a, a, ["j", -60], a, a, ["j", -1], a, a]}]))
    out.append(dict(base, sim={"tick_ns": 16_000_000}, threads=[{"proc": 0, "kind": "StreamWriter", "ops": [a] * 8}, {"proc": 0, "kind": "StreamWriter", "ops": [a] * 8}]))
    return out


def run(w, sc):
    sim = w.sim
    root = rootdir(sc["backend"])
    ds = root + "/ds"
    procs = []
    for i in range(sc["procs"]):
        # ids differ in their low or their high digits only, or are the same digits split at another place
        gap = sc.get("gap", 1)
        if sc["apart"] == "node":
            procs.append(w.proc(f"p{i}", pid=77, node=0x2ADE00 + i * gap))
        elif sc["apart"] == "both":
            digits = gap * i
            procs.append(w.proc(f"p{i}", pid=0x1234567 & ((1 << (8 + digits)) - 1), node=0x2ADE1234567 >> (8 + digits)))
        else:
            procs.append(w.proc(f"p{i}", pid=4000 + i * gap))
    if sc["procs"] > 1:
        sim.probe("many_procs")
    streams = {}
    ids = [0]
    stamps = {}

    def before_rename(src, dst):
        from dst import seams

        name = dst
        if decode.is_data(name):
            try:
                with seams.REAL.io_open(name, "rb") as f:
                    old = f.read()
                with seams.REAL.io_open(src, "rb") as f:
                    new = f.read()
            except FileNotFoundError:
                return
            if old != new:
                w.fail("overwrite", f"a commit by {sim.current.name} replaces {name}")

    sim.before_rename = before_rename

    def make(proc, kind):
        W = proc.image.get("mabel.data." + kind)
        kw = dict(dataset=ds, format=sc["format"], schema=SCHEMA if sc["format"] == "parquet" else False, date="2024-03-01", blob_size=sc["blob_size"],
                  inner_writer=w.recording_adapter(proc, sc["backend"]), **w.extra(sc["backend"]))
        if kind == "StreamWriter":
            kw.update(idle_timeout_seconds=1, writer_pool_capacity=1, partitions=["year_{yyyy}/month_{mm}/day_{dd}", "k={k}"])
        if kind == "BatchWriter" and sc.get("frame"):
            # the parts of a job which is split write to one frame
            sim.probe("shared_frame")
            kw["frame_id"] = ds + "/year_2024/month_03/day_01/as_at_20240301-000000"
        return W(**kw)

    def thread(ti, cfg):
        proc = procs[cfg["proc"] % sc["procs"]]
        kind = cfg["kind"]

        def body():
            if kind == "StreamWriter":
                sim.probe("stream")
                wr = streams.get(proc.name)
                if wr is None:
                    wr = streams[proc.name] = make(proc, kind)
            else:
                wr = make(proc, kind)
            for op in cfg["ops"]:
                if op[0] == "s":
                    w.sleep(op[1])
                elif op[0] == "j":
                    proc.skew += int(op[1] * NS)
                    sim.log("jump", ti, op[1])
                    if op[1] < 0:
                        sim.probe("clock_back")
                        sim.probe("nontrivial")
                elif op[0] == "f":
                    if kind == "Writer":
                        w.call(wr.finalize)
                else:
                    ids[0] += 1
                    c = w.call(wr.append, rec(ids[0], op[1], op[2]))
                    if not c.ok and not sim.fault_fired:
                        w.fail("append-failed", f"append raised with a healthy store: {c!r}")
            if kind != "StreamWriter":
                c = w.call(wr.finalize)
                if not c.ok and not sim.fault_fired:
                    w.fail("finalize-failed", f"finalize raised with a healthy store: {c!r}")
        return w.client(proc, body, f"t{ti}")

    ts = [thread(i, t) for i, t in enumerate(sc["threads"])]
    for t in ts:
        if not w.join(t, 7200):
            w.fail("blocked", f"{t!r} has not finished")

    def fin(s):
        return lambda: w.call(s.finalize)

    for p in procs:
        if p.name in streams:
            w.join(w.client(p, fin(streams[p.name]), "fin"), 7200)
    # ---- every name once
    used = {}
    commits = [c for c in sim.commits if c["ok"] and decode.is_data(c["name"])] if hasattr(sim, "commits") else []
    by = {}
    for c in commits:
        if not c["ok"]:
            continue
        name = w.full_name(sc["backend"], c["name"])
        if name in used:
            w.fail("name-reused", f"{name} was given to two commits, by {used[name]['task']} and {c['task']}")
        used[name] = c
        by.setdefault((c["proc"], name.rsplit("/", 1)[0]), []).append((name, c))
    for p in w.store.puts:
        if p["prev"] is not None and p["prev"] != p["data"] and decode.is_data(p["name"]):
            w.fail("overwrite", f"a put by {p['task']} replaced {p['name']} with other content")
        if p["ack"] is None:
            sim.probe("lost_ack")
    files = w.files(sc["backend"], root)
    for name, c in used.items():
        if files.get(name) != c["data"]:
            w.fail("replaced", f"{name} no longer holds what was committed")
    for (proc, folder), lst in by.items():
        lst.sort(key=lambda x: x[1]["s1"])
        for i, (n1, c1) in enumerate(lst):
            for n2, c2 in lst[i + 1:]:
                if c1["s1"] < c2["s0"]:
                    sim.probe("ordered_pairs")
                    if not n1 < n2:
                        w.fail("order", f"in {proc}, {n2} was committed after {n1} but sorts before it")
                else:
                    sim.probe("overlap")
                    sim.probe("nontrivial")
                if abs(c1["t0"] - c2["t0"]) < sim.tick:
                    sim.probe("same_tick")
                    sim.probe("nontrivial")
                if c1["task"] == c2["task"] and c1["t0"] == c2["t0"]:
                    sim.probe("same_writer_burst")
