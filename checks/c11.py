"""C11: a multiprocess read returns the serial read's records and always ends."""

import os

from dst.core import NS
from checks.common import *
from dst.world import Call

RUNS = {"quick": 1600, "thorough": 40000}
IMAGES = 3
NO_OPCODES = True
RULE = ("scenario: 1-24 blobs (empty, small, larger than a pipe) read with multiprocess=True on 1-9 CPUs by workers that start late, stall, read slowly or are killed, "
        "by a consumer that pauses, stops early or drops the reader; compared with the serial read. Non-trivial = worker processes read blobs.")
PROBES = ["multi", "serial", "slow_worker", "slow_start", "worker_killed", "killed_raised", "killed_complete", "closed_early", "dropped", "large_reply", "empty_blob", "consumer_pause_30s",
          "two_readers", "filtered", "unread_blob"]
ASSUMPTIONS = ["a message is written to a multiprocessing pipe whole or not at all (a worker is not killed inside the write of a reply)",
               "workers are forked", "no single blob takes 10 minutes to read"]
STUBS = "scheduler, clock, randomness, storage back end, multiprocessing (processes are simulated, queues have a bounded pipe and feeder threads)"


def gen(rng, tier):
    nb = rng.choice([1, 3, 4, 5, 5, 6, 8, 9, 13, 24])
    blobs = [{"day": rng.choice([1, 1, 2]), "ext": rng.choice(["jsonl", "zstd", "parquet"]), "n": rng.choice([0, 1, 2, 5, 12]), "size": rng.choice([0, 0, 10, 200, 20000])} for _ in range(nb)]
    backend = rng.choice(["store", "disk", "gcs", "minio"])
    faults = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        site = rng.choice(["mp.start", "mp.get", "mp.put", "read", "read"])
        if site == "read":
            site = "disk.open_r" if backend == "disk" else "get"
        faults.append({"site": site, "kind": "slow", "nth": rng.randrange(12), "times": rng.choice([1, 1, 3, 20]),
                       "delay_ns": rng.choice([10_000_000, NS, 5 * NS, 29 * NS, 31 * NS, 90 * NS, 300 * NS])})
    if rng.random() < 0.3:
        site = rng.choice(["mp.start", "mp.get", "mp.put", "step", "step"])
        faults.append({"site": site, "kind": "crash", "nth": rng.randrange(10), "times": rng.choice([1, 1, 1, 2, 30]), "steps": rng.randrange(50, 9000)})
    if rng.random() < 0.15:
        faults.append({"site": "disk.open_r" if backend == "disk" else "get", "kind": "eio" if backend == "disk" else "before", "exc": "OSError", "nth": rng.randrange(nb + 2), "times": 1})
    readers = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        readers.append({"end": rng.choice(["run", "run", "run", "close", "drop", "drop"]), "n": rng.choice([0, 1, 1, 3, 10, 40]),
                        "pause_every": rng.choice([0, 0, 1, 3, 10]), "pause_s": rng.choice([0.01, 1.5, 31, 45, 700])})
    cfg = swarm(rng)
    cfg["cpus"] = rng.choice([1, 2, 2, 3, 4, 9])
    cfg["feeder_ns"] = rng.choice([0, 0, 1_000_000, 400_000_000, 2 * NS])
    return {"sim": cfg, "blobs": blobs, "faults": faults, "readers": readers, "backend": backend, "filters": rng.choice([None, None, "k == 'a'"]), "latency_ns": rng.choice([0, 0, 3_000_000])}


def directed():
    out = []
    b = lambda n=2, size=0: {"day": 1, "ext": "jsonl", "n": n, "size": size}
    base = {"sim": {"cpus": 4}, "backend": "store", "filters": None, "latency_ns": 0, "faults": []}
    r = lambda end="run", n=0, e=0, s=0.01: {"end": end, "n": n, "pause_every": e, "pause_s": s}
    for nb in (5, 6, 7, 12):
        out.append(dict(base, blobs=[b() for _ in range(nb)], readers=[r()]))
        out.append(dict(base, blobs=[b() for _ in range(nb)], readers=[r("run", 0, 1, 45)]))
        out.append(dict(base, blobs=[b() for _ in range(nb)], readers=[r("drop", 3)]))
    for k in range(3):
        for site in ("mp.start", "mp.get", "mp.put"):
            out.append(dict(base, blobs=[b() for _ in range(8)], readers=[r()], faults=[{"site": site, "kind": "crash", "nth": k, "times": 1}]))
    out.append(dict(base, blobs=[b(6, 20000) for _ in range(8)], readers=[r("run", 0, 3, 31)]))
    out.append(dict(base, blobs=[b(0) for _ in range(8)], readers=[r()]))
    out.append(dict(base, blobs=[b() for _ in range(8)], readers=[r()], faults=[{"site": "mp.start", "kind": "slow", "nth": 0, "times": 99, "delay_ns": 8 * NS}]))
    out.append(dict(base, backend="minio", blobs=[b() for _ in range(8)], readers=[r()]))
    return out


def noise(i, size):
    """text which does not compress"""
    import hashlib

    out = []
    while size > 0:
        out.append(hashlib.sha256(f"{i}-{size}".encode()).hexdigest()[:size])
        size -= 64
    return "".join(out)


def run(w, sc):
    sim = w.sim
    backend = sc["backend"]
    ds = rootdir(backend) + "/ds"
    blobs, ids = {}, 0
    for i, b in enumerate(sc["blobs"]):
        recs = []
        for j in range(b["n"]):
            ids += 1
            recs.append({"id": ids, "k": "ab"[j % 2], "p": noise(ids, b["size"])})
        ext = b["ext"] if b["ext"] == "jsonl" else "jsonl." + b["ext"]
        name = f"{ds}/year_2024/month_03/day_{b['day']:02d}/f{i:04d}.{ext}"
        blobs[name] = recs
        w.put_file(backend, name, encode(b["ext"], recs))
        if not recs:
            sim.probe("empty_blob")
        if b["n"] * b["size"] > 100000:
            sim.probe("large_reply")
    sim.faults = [f for f in sc["faults"] if f["site"] != "step"]
    slow_s = sum(f.get("delay_ns", 0) / NS * min(f["times"], 30) for f in sim.faults if f["kind"] == "slow")
    feeder_s = sim.cfg.get("feeder_ns", 0) / NS * (len(blobs) * 2 + 4)
    stall_s = 30 if sim.stall_p else 0
    if any(f["site"] == "mp.start" and f["kind"] == "slow" for f in sim.faults):
        sim.probe("slow_start")
    if slow_s:
        sim.probe("slow_worker")
    kw = {"start_date": "2024-03-01", "end_date": "2024-03-02", "multiprocess": True}
    if sc["filters"]:
        kw["filters"] = sc["filters"]
        sim.probe("filtered")
    want = {n: [r["id"] for r in recs if not sc["filters"] or r["k"] == "a"] for n, recs in blobs.items()}
    owner = {r["id"]: (n, r) for n, recs in blobs.items() for r in recs}
    proc = w.proc("main")
    kills = [f for f in sc["faults"] if f["site"] == "step"]

    def consume(ri, rd):
        got, res = [], {"end": None, "got": None, "t_last": None, "t_end": None, "paused": 0.0, "t0": sim.now}
        res["got"] = got

        def body():
            c = w.call(lambda: open_reader(w, proc, backend, ds, **kw))
            if not c.ok:
                res["end"] = c
                return
            reader = c.value
            c = None
            it = iter(reader)
            res["t_last"] = sim.now
            while True:
                if rd["end"] != "run" and len(got) >= rd["n"]:
                    t = sim.now

                    def finish(it=it, reader=reader):
                        if rd["end"] == "close":
                            g = getattr(getattr(reader, "_iterator", None), "_inner_line_reader", None)
                            if hasattr(g, "close"):
                                g.close()
                    it = reader = None
                    x = w.call(finish)
                    finish = None
                    if not x.ok:
                        res["end"] = x
                        return
                    w.collect_garbage()
                    res["closed_in"] = (sim.now - t) / NS
                    res["end"] = "closed"
                    res["t_end"] = sim.now
                    return
                c = w.call(next, it)
                if c.ok:
                    got.append(plain(c.value))
                    res["t_last"] = sim.now
                    sim.log("rec", ri, len(got))
                    c = None
                    if rd["pause_every"] and len(got) % rd["pause_every"] == 0 and len(got) <= 12:
                        if rd["pause_s"] > 30:
                            sim.probe("consumer_pause_30s")
                        w.sleep(rd["pause_s"])
                        res["t_last"] = sim.now
                        res["paused"] += rd["pause_s"]
                    continue
                res["t_end"] = sim.now
                res["end"] = "exhausted" if iskind(c, "StopIteration") else c
                if res["end"] == "exhausted":
                    c = None
                return
        res["task"] = w.client(proc, body, f"c{ri}")
        return res

    results = [consume(i, rd) for i, rd in enumerate(sc["readers"])]
    if len(results) > 1:
        sim.probe("two_readers")

    def killer():
        for f in sorted(kills, key=lambda f: f["steps"]):
            target = sim.step + f["steps"]
            while sim.step < target and not all(r["task"].state == "done" for r in results):
                w.sleep(0.0005)
                sim.yield_point("killer", 20)
            alive = [p for p in getattr(sim, "workers", []) if not p._ended()]
            if alive:
                sim.log("kill-worker", alive[f["nth"] % len(alive)].name)
                sim.fault_fired["kill"] = sim.fault_fired.get("kill", 0) + 1
                sim.kill(alive[f["nth"] % len(alive)]._proc)
    if kills:
        w.client(w.proc("os"), killer, "killer")
    limit = 120 + slow_s * 2 + feeder_s * 2 + stall_s + sum(13 * rd["pause_s"] for rd in sc["readers"] if rd["pause_every"])
    for i, r in enumerate(results):
        if not w.join(r["task"], limit):
            w.fail("hang", f"reader {i} ({sc['readers'][i]['end']}) has not ended after {limit:.0f} s; {len(r['got'])} of {sum(map(len, want.values()))} records; "
                           f"workers alive: {[p.name for p in getattr(sim, 'workers', []) if not p._ended()]}")
    workers = getattr(sim, "workers", [])
    sim.probe("multi" if workers else "serial")
    crashed = any(h[2] == "crash" and "/w" in h[3] and ("mp" in str(sc["faults"]) or kills) for h in sim.history)
    crashed = bool(sim.fault_fired.get("kill") or any(k.startswith("mp.") and k.endswith(":crash") for k in sim.fault_fired))
    if crashed:
        sim.probe("worker_killed")
    unread = set(sim.failed_gets)
    for h in sim.history:
        if h[2] == "fault" and h[3] == "disk.open_r" and h[4] == "eio":
            unread.add(h[5])
    if unread:
        sim.probe("unread_blob")
    if workers:
        sim.probe("nontrivial")
    for i, r in enumerate(results):
        end, got = r["end"], r["got"]
        who = f"reader {i}"
        by = {n: [] for n in want}
        for x in got:
            o = owner.get(x.get("id"))
            if o is None or o[1] != x:
                w.fail("invented", f"{who} returned a record that is in no blob: {str(x)[:200]}")
            by[o[0]].append(x["id"])
        for n, ids_ in by.items():
            if len(set(ids_)) != len(ids_):
                w.fail("repeated", f"{who}: records of {os.path.basename(n)} returned more than once: {ids_}")
            if ids_ != want[n][: len(ids_)]:
                w.fail("blob-order", f"{who}: records of {os.path.basename(n)} returned as {ids_}, they are {want[n]}")
        if isinstance(end, Call):
            if iskind(end, "DataNotFoundError") and not blobs:
                continue
            if not crashed:
                w.fail("read-failed", f"{who} raised with no worker killed, after {len(got)} records: {end!r}")
            sim.probe("killed_raised")
        elif end == "exhausted":
            missing = {os.path.basename(n): len(want[n]) - len(by[n]) for n in want if len(by[n]) != len(want[n]) and n not in unread}
            if missing:
                w.fail("partial", f"{who} ended as if complete with {len(got)} of {sum(map(len, want.values()))} records"
                                  f"{' although a worker was killed' if crashed else ''}; missing by blob: {missing}")
            if crashed:
                sim.probe("killed_complete")
            late = (r["t_end"] - r["t_last"]) / NS
            if late > 10 + slow_s + feeder_s + stall_s:
                w.fail("not-prompt", f"{who} ended {late:.1f} s after its last record")
        elif end == "closed":
            sim.probe("closed_early" if sc["readers"][i]["end"] == "close" else "dropped")
            if r["closed_in"] > 10 + feeder_s + stall_s:
                w.fail("close-slow", f"{who}: closing took {r['closed_in']:.1f} s")
    w.sleep(10 + stall_s)
    left = [p.name for p in workers if not p._ended()]
    if left:
        w.fail("workers-left", f"workers still running 10 s after every reader ended: {left} (readers: {[str(r['end']) for r in results]})")
