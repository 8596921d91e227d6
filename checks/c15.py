"""C15: an object-store commit that returns has stored exactly those bytes."""

import os
import random

from dst.core import NS
from checks.common import *

RUNS = {"quick": 2400, "thorough": 60000}
IMAGES = 3
NO_OPCODES = True
NO_GC = True  # a commit by __del__ inside another commit would be taken for that one
RULE = ("scenario: 1-4 threads commit through Google Cloud Storage and MinIO adapters (directly, shared or their own; through Writer and BatchWriter) while uploads fail transiently or for good, "
        "before or after being applied, for long or short, or stall, or the process dies; every upload seen by the store is compared with the commit it belongs to. Non-trivial = an upload failed.")
PROBES = ["transient", "transient_after", "retried_ok", "deadline", "non_transient", "minio_error", "empty_bytes", "large", "huge", "override", "batch", "batch_empty", "writer", "shared", "slow", "crash", "two_buckets"]
ASSUMPTIONS = ["a put is atomic and immediately visible", "the retry deadline is that of google.api_core (120 s, delays doubling up to 60 s)",
               "errors other than the four named are not transient"]
STUBS = "scheduler, clock, randomness, google.cloud.storage client and minio client (google.api_core.retry and exceptions are real)"

TRANSIENT = ["ConnectionResetError", "ProtocolError", "InternalServerError", "TooManyRequests"]
PERMANENT = ["Forbidden", "NotFound", "ValueError"]


def gen(rng, tier):
    backend = rng.choice(["gcs", "gcs", "minio"])
    threads = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        ops = []
        for _ in range(rng.choice([1, 2, 4])):
            op = rng.choice(["commit", "commit", "commit", "override", "batch", "batch", "writer", "empty-batch"])
            ops.append([op, rng.choice([0, 1, 10, 3000, 200000]) if op in ("commit", "override") else rng.choice([1, 3, 8])])
        threads.append({"ops": ops, "shared": rng.random() < 0.4, "bucket": rng.choice(["bucket", "bucket", "bucket2"])})
    faults = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        kind = rng.choice(["before", "before", "after", "after", "slow", "crash_before", "crash_after"] if rng.random() < 0.2 else ["before", "before", "after", "after", "slow"])
        exc = (rng.choice(TRANSIENT * 2 + PERMANENT)) if backend == "gcs" else rng.choice(["S3Error", "ConnectionResetError", "StoreError"])
        faults.append({"site": "put", "kind": kind, "nth": rng.randrange(10), "times": rng.choice([1, 1, 2, 3, 5, 6, 400]), "exc": exc, "delay_ns": rng.choice([NS // 10, 5 * NS, 130 * NS])})
    return {"sim": swarm(rng), "backend": backend, "threads": threads, "faults": faults, "dataset": rng.choice(["ds", "ds", "deep/er/ds", "d-s_1"]), "latency_ns": rng.choice([0, 0, 20_000_000]),
            "format": rng.choice(["jsonl", "zstd", "parquet"])}


def directed():
    out = []
    base = {"sim": {}, "dataset": "ds", "latency_ns": 0, "format": "jsonl"}
    th = lambda *ops: {"ops": list(ops), "shared": False, "bucket": "bucket"}
    f = lambda exc, kind, times=1, nth=0: {"site": "put", "kind": kind, "nth": nth, "times": times, "exc": exc, "delay_ns": NS}
    for exc in TRANSIENT + PERMANENT:
        for kind in ("before", "after"):
            out.append(dict(base, backend="gcs", threads=[th(["commit", 10], ["batch", 3], ["commit", 10])], faults=[f(exc, kind, times=3 if exc in TRANSIENT else 1)]))
    for exc in TRANSIENT[:2]:
        out.append(dict(base, backend="gcs", threads=[th(["commit", 10], ["commit", 10])], faults=[f(exc, "before", times=400)]))
    for backend in ("gcs", "minio"):
        out.append(dict(base, backend=backend, threads=[th(["empty-batch", 1], ["batch", 1])], faults=[]))
        # several of whatever an upload may be cut into, and not a whole number of them
        for n in (262_144, 5 * 2**20, 9 * 2**20 + 77, 21 * 2**20 + 1):
            out.append(dict(base, backend=backend, threads=[th(["commit", n], ["override", n - 1])], faults=[f("ConnectionResetError", "before")]))
        out.append(dict(base, backend=backend, threads=[dict(th(["commit", 3000], ["commit", 3000]), shared=True) for _ in range(3)], faults=[]))
    out.append(dict(base, backend="minio", threads=[th(["commit", 10], ["batch", 3], ["writer", 1])], faults=[f("S3Error", "after", 1, 1), f("ConnectionResetError", "before", 1, 2)]))
    return out


def run(w, sc):
    sim = w.sim
    backend = sc["backend"]
    proc = w.proc("p")
    sim.faults = [dict(f) for f in sc["faults"]]
    Adapter = w.recording_adapter(proc, backend)
    shared = {}
    datas = {}

    def make(bucket):
        return Adapter(dataset=f"{bucket}/{sc['dataset']}/", format="jsonl", **w.extra(backend))

    def payload(ti, i, n):
        # no two stretches alike
        return (f"{ti}/{i}:".encode() + random.Random(ti * 100 + i).randbytes(n))[:n]

    if len({t["bucket"] for t in sc["threads"]}) > 1:
        sim.probe("two_buckets")
    expect = []  # (commit entry index window, expectations)

    def thread(ti, th):
        def body():
            for i, (op, n) in enumerate(th["ops"]):
                bucket = th["bucket"]
                first = len(sim.commits)
                folder, exact = f"{bucket}/{sc['dataset']}/", None
                if op in ("commit", "override"):
                    if th["shared"]:
                        sim.probe("shared")
                        a = shared.get(bucket)
                        if a is None:
                            a = shared[bucket] = make(bucket)
                    else:
                        a = make(bucket)
                    data = payload(ti, i, n)
                    if n == 0:
                        sim.probe("empty_bytes")
                    if n > 100000:
                        sim.probe("large")
                    if n > 5_000_000:
                        sim.probe("huge")
                    if op == "override":
                        sim.probe("override")
                        name = f"{sc['dataset']}/marker-{ti}-{i}.complete"
                        exact = f"{bucket}/{name}"
                        call = w.call(a.commit, data, override_blob_name=name)
                    else:
                        call = w.call(a.commit, data)
                    note(ti, op, call, first, folder, exact, data)
                else:
                    cls = proc.image.get("mabel.data.BatchWriter" if "batch" in op else "mabel.data.Writer")
                    kw = {"always_complete": True} if op == "empty-batch" else {}
                    w.sleep(1.01)
                    c = w.call(lambda: cls(dataset=f"{bucket}/{sc['dataset']}-{ti}-{i}", format=sc["format"], schema=SCHEMA if sc["format"] == "parquet" else False, date="2024-03-01", inner_writer=Adapter,
                                           **w.extra(backend), **kw))
                    if not c.ok:
                        w.fail("start-failed", repr(c))
                    wr = c.value
                    sim.probe({"batch": "batch", "writer": "writer", "empty-batch": "batch_empty"}[op])
                    records = [rec(ti * 1000 + i * 100 + j, "a", 3) for j in range(0 if op == "empty-batch" else n)]
                    ok = True
                    for r in records:
                        c = w.call(wr.append, dict(r))
                        ok = ok and c.ok
                    folder = f"{bucket}/{sc['dataset']}-{ti}-{i}/year_2024/month_03/day_01/"
                    c = w.call(wr.finalize)
                    note(ti, op, c, first, folder, None, None)
                    wr_folder = str(wr.dataset).strip("/")
                    if c.ok and "batch" in op:
                        want = wr_folder + "/frame.complete"
                        if want not in w.store.blobs:
                            w.fail("marker-misplaced", f"{op}: finalize returned but {want} is not in the store: {sorted(w.store.names())[-6:]}")
                    if c.ok and ok and records:
                        mine = [(n_, decode_(n_)) for n_ in w.store.names(wr_folder + "/") if not n_.endswith("frame.complete")]
                        got = [key(r) for _, rs in mine for r in (rs or [])]
                        if sorted(set(got)) != sorted(keys_of(records)) or (len(got) > len(records)):
                            w.fail("batch-differs", f"{op}: finalize returned; stored {diff(got, keys_of(records))}")
                if proc.dead:
                    return
        return w.client(proc, body, f"t{ti}")

    from dst import decode

    def decode_(name):
        return decode.decode(name, w.store.blobs[name])

    def note(ti, op, call, first, folder, exact, data):
        task = sim.current.name
        for e in sim.commits[first:]:
            if e["task"] == task and not e.get("judged"):
                e["judged"] = True
                judge(e, folder, exact, data, op)
        if data is not None and not call.ok and not any(h[2] == "fault" for h in sim.history):
            w.fail("commit-failed", f"a commit raised with nothing wrong: {call!r}")

    def judge(e, folder, exact, data, op):
        end = e["s1"] if e["ok"] else sim.step
        puts = [p for p in w.store.puts if p["task"] == e["task"] and e["s0"] <= p["step"] <= end]
        names = {p["name"] for p in puts}
        what = f"{backend} commit of {len(e['data'])} bytes ({op}, {e['override'] or 'new name'}) by {e['task']}"
        if len(names) > 1:
            w.fail("two-blobs", f"{what} stored {len(names)} blobs: {sorted(names)}")
        for p in puts:
            if p["data"] != e["data"]:
                w.fail("altered", f"{what} stored {len(p['data'])} bytes as {p['name']}: {p['data'][:60]!r} instead of {e['data'][:60]!r}")
            if not p["name"].startswith(folder):
                w.fail("misplaced", f"{what} stored {p['name']}, which is not under {folder}")
        if e["ok"]:
            if not puts:
                w.fail("not-stored", f"{what} returned {e['name']!r} and stored nothing")
            bucket = folder.split("/")[0]
            full = f"{bucket}/{e['name']}"
            if full != puts[-1]["name"] or (exact and full != exact):
                w.fail("wrong-name", f"{what} returned {e['name']!r}; the bytes are in {puts[-1]['name']}{f', asked for {exact}' if exact else ''}")
            if w.store.blobs.get(full) != e["data"]:
                w.fail("not-there", f"{what} returned {e['name']!r}, which does not hold the bytes")

    tasks = [thread(i, t) for i, t in enumerate(sc["threads"])]
    for t in tasks:
        if not w.join(t, 86400):
            w.fail("blocked", f"{t!r} has not finished")

    # --- each fault as its commit saw it
    hist = sim.history
    for e in sim.commits:
        task = e["task"]
        end = e["s1"] if e["ok"] else None
        later = [x["s0"] for x in sim.commits if x["task"] == task and x["s0"] > e["s0"]]
        stop = end if end is not None else (min(later) if later else sim.step + 1)
        e["stop"] = stop
    check_retries(w, sc, proc)
    if any(h[2] == "fault" for h in hist):
        sim.probe("nontrivial")


def check_retries(w, sc, proc):
    """attempts of a commit, from the store's own record of them"""
    sim = w.sim
    slack = 3 * NS * (4 if sim.stall_p else 1) * 20 if sim.stall_p else 3 * NS
    for e in sim.commits:
        mine = [a for a in w.store.attempts if a["task"] == e["task"] and e["s0"] <= a["step"] <= e["stop"]]
        if not mine:
            continue
        failed = [a for a in mine if a["kind"] in ("before", "after")]
        if any(a["kind"] == "slow" for a in mine):
            sim.probe("slow")
        if any((a["kind"] or "").startswith("crash") for a in mine) or proc.dead:
            sim.probe("crash")
            continue
        t_first, t_last = mine[0]["now"], mine[-1]["now"]
        what = f"{sc['backend']} commit by {e['task']}: attempts {[(a['kind'], a['exc']) for a in mine][:8]} over {(t_last - t_first) / NS:.1f} s"
        if sc["backend"] == "minio":
            if failed:
                sim.probe("minio_error")
                if e["ok"] and mine[-1]["kind"] in ("before", "after"):
                    w.fail("error-hidden", f"{what}: the last attempt failed and commit returned")
            continue
        for a in mine[:-1]:
            if a["kind"] in ("before", "after") and a["exc"] not in TRANSIENT:
                w.fail("retried-permanent", f"{what}: an error that is not transient was retried")
            if a["kind"] not in ("before", "after"):
                w.fail("repeated-put", f"{what}: uploaded again after an upload that succeeded")
        last = mine[-1]
        bad = last["kind"] in ("before", "after")
        if bad and e["ok"]:
            w.fail("error-hidden", f"{what}: the last attempt failed and commit returned")
        if not bad and not e["ok"]:
            w.fail("raised-after-success", f"{what}: the last attempt succeeded and commit raised")
        if failed and failed[0]["exc"] in TRANSIENT:
            sim.probe("transient" if failed[0]["kind"] == "before" else "transient_after")
        if not bad and failed:
            sim.probe("retried_ok")
        if bad and last["exc"] not in TRANSIENT:
            sim.probe("non_transient")
        if bad and last["exc"] in TRANSIENT:
            # given up: only once the deadline leaves no room for another attempt
            sim.probe("deadline")
            if not any(a["kind"] == "slow" for a in mine) and not sc["latency_ns"] and not sim.stall_p:
                n = len(mine)
                worst = sum(min(60, 2 ** k) for k in range(n))
                if worst < 115:
                    w.fail("gave-up", f"{what}: given up after {n} attempts although the retry deadline had not passed")
                if t_last - t_first > 125 * NS + slack:
                    w.fail("deadline-passed", f"{what}: still retrying after the deadline")
