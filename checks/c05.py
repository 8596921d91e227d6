"""C05: readers see a batch frame whole or not at all."""

import datetime

from dst.core import NS
from checks.common import *

RUNS = {"quick": 1500, "thorough": 40000}
IMAGES = 5
NO_OPCODES = True  # CPython 3.12 can crash when a simulated crash unwinds code traced by opcode
RULE = ("scenario: 1-4 batch-writing processes, overlapping in time, begun in different seconds, some crashing at a step or at a storage operation and started again, some abandoned; "
        "1-2 reader processes reading throughout and once at the end. Non-trivial = a read overlapped a writer at work, or a writer crashed.")
PROBES = ["read_frame", "read_none", "read_during_write", "older_than_started", "crash", "restarted", "multi_blob", "batches_overlap", "marker_only_visible", "shared_process", "raised", "retried"]
ASSUMPTIONS = ["batches of one dataset begin in different wall-clock seconds and clocks of the processes agree",
               "processes crash, the operating system does not: what was written to a file before the crash stays"]
EPOCHS = ["2024-03-01T09:59:55", "2024-03-01T23:59:57", "2024-02-29T11:59:56", "2024-12-31T23:59:58", "2024-03-01T12:59:58", "2024-03-09T09:09:09", "2024-06-01T00:00:00"]


def seconds(at):
    return int((datetime.datetime.fromisoformat(at) - datetime.datetime(1970, 1, 1)).total_seconds())


def gen(rng, tier):
    batches = []
    for b in range(rng.choice([1, 2, 2, 3, 4])):
        crash = None
        x = rng.random()
        if x < 0.3:
            crash = int(rng.choice([10, 100, 400, 1000, 3000]) * (0.3 + rng.random()))
        batches.append({"start": round(rng.choice([0, 0, 1, 2, 5, 20]) * rng.random(), 3), "n": rng.choice([1, 1, 3, 8, 20]),
                        "pause": rng.choice([0, 0, 0.01, 0.5, 2]), "crash": crash, "restart": rng.choice([None, 0.1, 3]),
                        "abandon": rng.random() < 0.1, "size": rng.choice([0, 5, 50])})
    readers = []
    for r in range(rng.choice([1, 1, 2])):
        readers.append({"ops": [rng.choice([0, 0.01, 0.1, 0.5, 1, 3]) for _ in range(rng.choice([2, 4, 8]))]})
    backend = rng.choice(["store", "disk", "disk", "gcs", "minio"])
    faults = []
    if rng.random() < 0.35:
        if backend == "disk":
            faults = [f for f in disk_faults(rng, 2, span=8, crash=True) if "crash" in f["kind"]]
        else:
            faults = [{"site": "put", "kind": rng.choice(["crash_before", "crash_after", "slow"]), "nth": rng.randrange(6), "delay_ns": 3 * NS}]
    if not faults and rng.random() < 0.3:
        # writes that fail, before they have had an effect; the writer tries again
        for _ in range(rng.choice([1, 1, 2, 3])):
            faults.append({"site": rng.choice(["disk.write", "disk.rename"]), "kind": "eio", "nth": rng.randrange(12), "times": rng.choice([1, 1, 2, 3])} if backend == "disk" else
                          {"site": "put", "kind": "before", "nth": rng.randrange(12), "times": rng.choice([1, 1, 2, 3]), "exc": "Forbidden" if backend == "gcs" else "StoreError"})
    at = rng.choice(EPOCHS)
    zone = {"tz": dst_tz(seconds(at), rng.choice([1, 2, 3, 6]))} if rng.random() < 0.3 else {}
    return {"sim": swarm(rng, **zone), "at": at, "format": rng.choice(["jsonl", "jsonl", "zstd", "parquet"]),
            "blob_size": rng.choice([40, 200, 10**6]), "backend": backend, "batches": batches, "readers": readers,
            "latency_ns": rng.choice([0, 1_000_000, 300_000_000]), "oneproc": rng.random() < 0.35, "faults": faults}


def directed():
    base = {"sim": {"stall_p": 0}, "at": EPOCHS[0], "format": "jsonl", "blob_size": 40, "backend": "store", "latency_ns": 0, "faults": [], "oneproc": False}
    b = {"start": 0, "n": 6, "pause": 0, "crash": None, "restart": None, "abandon": False, "size": 10}
    out = []
    for backend in ("store", "disk"):
        # a long batch begun first and finished last
        out.append(dict(base, backend=backend, batches=[dict(b, pause=1.0), dict(b, start=1.5), dict(b, start=2.7, pause=0.1)], readers=[{"ops": [1.0] * 9}]))
        out.append(dict(base, backend=backend, oneproc=True, batches=[dict(b, pause=1.0), dict(b, start=1.5), dict(b, start=2.7, pause=0.1)], readers=[{"ops": [1.0] * 9}]))
        # dies between its blobs and its marker
        out.append(dict(base, backend=backend, batches=[b, dict(b, start=2)], readers=[{"ops": [1.0] * 5}],
                        faults=[{"site": "put", "kind": "crash_before", "nth": 5, "times": 9}] if backend == "store" else
                        [{"site": "disk.rename", "kind": "crash", "nth": 5, "times": 9}]))
        for n in (3, 4, 5, 6, 7, 8, 9):
            out.append(dict(base, backend=backend, batches=[dict(b, n=3), dict(b, n=4, start=2)], readers=[{"ops": [0.5] * 9}],
                            faults=[{"site": "put", "kind": "before", "nth": n, "times": 1 + n % 2, "exc": "StoreError"}] if backend == "store" else
                            [{"site": ["disk.write", "disk.rename"][n % 2], "kind": "eio", "nth": n, "times": 1 + n % 2}]))
    for at in EPOCHS:
        out.append(dict(base, at=at, sim={"stall_p": 0, "tz": dst_tz(seconds(at), 3)}, batches=[dict(b, n=3, start=s, pause=0.3) for s in (0, 2, 4, 6)], readers=[{"ops": [1.0] * 9}]))
        out.append(dict(base, at=at, batches=[dict(b, n=3, start=s, pause=0.3) for s in (0, 2, 4, 6)], readers=[{"ops": [1.0] * 9}]))
    return out


def run(w, sc):
    sim = w.sim
    at = datetime.datetime.fromisoformat(sc["at"])
    sim.epoch = int((at - datetime.datetime(1970, 1, 1)).total_seconds()) * NS
    root = rootdir(sc["backend"])
    ds = root + "/ds"
    frames = []  # in order of start: dict(b, records, f0, f1)
    state = {"busy": False, "last": None}
    nproc = [0]
    shared = []

    def begin(proc, cfg, frame):
        """construct the writer in a second of its own"""
        BatchWriter = proc.image.get("mabel.data.BatchWriter")
        while state["busy"] or int(w.wall(proc).timestamp()) == state["last"]:
            w.sleep(0.05)
        state["busy"] = proc
        try:
            writer = BatchWriter(dataset=ds, format=sc["format"], schema=SCHEMA if sc["format"] == "parquet" else False, date="2024-03-01",
                                 inner_writer=w.writer_adapter(proc, sc["backend"]), blob_size=sc["blob_size"], **w.extra(sc["backend"]))
            frame["b"] = len(frames)
            frames.append(frame)
            return writer
        finally:
            state["last"] = int(w.wall(proc).timestamp())
            state["busy"] = False

    def failed(c, what):
        if not sim.fault_fired:
            w.fail(what + "-failed", repr(c))
        sim.probe("raised")

    def writer(proc, bi, cfg):
        def body():
            frame = {"batch": bi, "records": [], "f0": None, "f1": None, "s0": None, "s1": None, "proc": proc}
            wr = begin(proc, cfg, frame)
            frame["s0"] = sim.step
            for i in range(cfg["n"]):
                r = rec(frame["b"] * 1000 + i, f"b{frame['b']}", cfg["size"])
                for attempt in range(9):
                    c = w.call(wr.append, dict(r))
                    if c.ok:
                        break
                    failed(c, "append")
                else:
                    w.fail("append-failed", f"append still raises after the store recovered: {c!r}")
                frame["records"].append(r)
                if cfg["pause"]:
                    w.sleep(cfg["pause"])
            if cfg["abandon"]:
                frame["s1"] = sim.step
                return
            frame["f0"] = sim.step
            sim.log("finalize", bi)
            for attempt in range(9):
                c = w.call(wr.finalize)
                if c.ok:
                    if attempt:
                        sim.probe("retried")
                    break
                failed(c, "finalize")
                w.sleep(0.2)
            else:
                w.fail("finalize-failed", f"finalize still raises after the store recovered: {c!r}")
            frame["f1"] = sim.step
            frame["s1"] = sim.step
            sim.log("finalize.", bi)
        return body

    def batch(bi, cfg):
        def body():
            w.sleep(cfg["start"])
            for attempt in (0, 1):
                nproc[0] += 1
                if sc["oneproc"] and shared and not shared[0].dead:
                    proc = shared[0]
                    sim.probe("shared_process")
                else:
                    proc = w.proc(f"w{bi}{'r' if attempt else ''}")
                    shared[:] = [proc]
                t = w.client(proc, writer(proc, bi, cfg), "main")
                if attempt == 0 and cfg["crash"]:
                    sim.crash_at[sim.step + cfg["crash"]] = proc
                w.join(t, 36000)
                if not proc.dead:
                    break
                if state["busy"] is proc:
                    state["busy"] = False
                sim.probe("crash")
                sim.probe("nontrivial")
                if cfg["restart"] is None:
                    break
                sim.probe("restarted")
                w.sleep(cfg["restart"])
        return body

    def judge(c, who):
        done = [f for f in frames if f["f1"] is not None and f["f1"] < c.s0]
        if not c.ok:
            if not iskind(c, "DataNotFoundError"):
                w.fail("read-failed", f"{who}: {c!r}")
            if done:
                w.fail("not-found", f"{who} found no data although batch {done[-1]['b']} was complete before the read began")
            sim.probe("read_none")
            return
        got = keys_of(c.value)
        odd = [r for r in c.value if not isinstance(r, dict) or not isinstance(r.get("id"), int) or not 0 <= r["id"] // 1000 < len(frames)]
        if odd:
            w.fail("invented", f"{who} returned {str(odd[0])[:200]}, which no batch holds")
        bs = {r["id"] // 1000 for r in c.value}
        if len(bs) != 1:
            w.fail("mixture", f"{who} returned records of {len(bs)} batches {sorted(bs)} ({len(got)} records)")
        f = frames[bs.pop()]
        want = keys_of(f["records"])
        if got != want or f["f0"] is None:
            w.fail("partial", f"{who} returned {len(got)} of {len(want)} records of batch {f['b']}"
                              + ("" if f["f0"] is not None else ", which was not finalized") + f": {diff(got, want)}")
        if f["f0"] > c.s1:
            w.fail("premature", f"{who} returned batch {f['b']} before its finalize was called")
        if done and f["b"] < max(d["b"] for d in done):
            w.fail("stale", f"{who} returned batch {f['b']} although the newer batch {max(d['b'] for d in done)} was complete before the read began")
        sim.probe("read_frame")
        if any(x["b"] > f["b"] for x in frames):
            sim.probe("older_than_started")
        if f["f1"] is None or f["f1"] > c.s0:
            sim.probe("marker_only_visible")
        if any(x["s0"] is not None and x["s0"] < c.s1 and (x["s1"] is None or x["s1"] > c.s0) and not x["proc"].dead for x in frames):
            sim.probe("read_during_write")
            sim.probe("nontrivial")

    def read(proc, who):
        sim.log("read", who)
        c = read_all(w, proc, sc["backend"], ds, start_date="2024-03-01", end_date="2024-03-01")
        sim.log("read.", who, c.ok)
        judge(c, who)

    def reader(ri, cfg, proc):
        def body():
            for i, pause in enumerate(cfg["ops"]):
                w.sleep(pause)
                read(proc, f"read {i} of reader {ri}")
        return body

    director = sim.procs[0]
    ts = [w.client(director, batch(i, b), f"batch{i}") for i, b in enumerate(sc["batches"])]
    for i, r in enumerate(sc["readers"]):
        p = w.proc(f"r{i}")
        ts.append(w.client(p, reader(i, r, p), "main"))
    for t in ts:
        if not w.join(t, 72000):
            w.fail("blocked", f"{t!r} has not finished")
    sim.faults = []
    spans = [(f["s0"], f["s1"]) for f in frames if f["s0"] and f["s1"]]
    if any(a[0] < b[0] < a[1] for a in spans for b in spans):
        sim.probe("batches_overlap")
    if any(sum(1 for n in w.files(sc["backend"], ds) if f"/as_at_" in n and n.endswith(("jsonl", "zstd", "parquet"))) > len(frames) for _ in (0,)):
        sim.probe("multi_blob")
    p = w.proc("last")
    w.join(w.client(p, lambda: read(p, "a read after everything"), "main"))
    done = [f for f in frames if f["f1"] is not None]
    for f in done:
        if len(f["records"]) != sc["batches"][f["batch"]]["n"]:
            w.sim.harness_error("frame bookkeeping")
