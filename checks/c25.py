"""C25: reading changes nothing, and writing adds only to its own dataset."""

from dst import decode
from checks.common import *
from checks.layout import Placed
from checks.layout import gen_folder

RUNS = {"quick": 2000, "thorough": 50000}
IMAGES = 4
NO_OPCODES = True
RULE = ("scenario: 2-4 datasets (names that begin with one another's too) with days, frames in all states, BACKOUT data, unfinished files of other processes and unrelated files; 1-4 processes of readers (ranges, freshness, "
        "filters, persistence, resumption, multiprocess, denied prefixes, failing reads) and Writers, BatchWriters and StreamWriters (failing writes, refused records, failures reported, abandoned, crashed); everything stored is compared "
        "after each operation. Non-trivial = something was read or written.")
PROBES = ["read", "denied", "allowed", "persisted", "multi", "fresh", "resumed", "wrote", "batch", "stream", "failed_batch", "refused", "abandoned", "crashed", "write_failed", "read_failed", "ended", "part_left", "finalized_again"]
ASSUMPTIONS = ["the markers of a frame and unfinished (.part) files of the writer's own are not blobs"]
NAMES = ["set", "set1", "set10", "set-b", "other", "set1.old"]
PREFIXES = [[], ["ROOT/set"], ["ROOT/other"], ["ROOT/set1"], ["ROOT"], ["nowhere", "ROOT/set10"], ["ROOT/", "x"], ["root/set"], ["ROOT/SET", "ROOT/Other"], ["/ROOT/set"], ["ROOT/set1/x"], ["set"], ["ROOT/set/"], ["ROOT/set1/", "ROOT/set1x"]]


def gen(rng, tier):
    names = rng.sample(NAMES, rng.choice([2, 3, 4]))
    datasets = []
    for n in names:
        days = {str(d): gen_folder(rng) for d in rng.sample(range(1, 6), rng.choice([1, 2, 3]))}
        datasets.append({"name": n, "days": days, "extra": rng.sample(["readme.txt", "year_2024/notes.md", ".hidden", "year_2024/month_03/day_02/x.jsonl.0123abcd.part", "year_2024/month_03/day_01/.17b0-2ade-fa0.jsonl.00ff.part"], rng.choice([0, 1, 3]))})
    clients = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        role = rng.choice(["reader", "reader", "writer", "both"])
        for _ in range(rng.choice([1, 2, 3, 5])):
            ds = rng.randrange(len(names))
            if role == "reader" or (role == "both" and rng.random() < 0.5):
                a, b = sorted([rng.randrange(1, 6), rng.randrange(1, 6)])
                ops.append(["read", ds, a, b, {"fresh": rng.random() < 0.15, "persist": rng.choice([None, None, None, "DISK", "MEMORY", "COMPRESSED_MEMORY"]), "filter": rng.choice([None, "k == 'a'"]),
                                               "resume": rng.random() < 0.2, "multi": rng.random() < 0.08, "take": rng.choice([0, 1, 3, 999, 999, 999]), "prefixes": rng.choice([None] * 4 + PREFIXES),
                                               "keep": rng.random() < 0.2}])
            else:
                ops.append([rng.choice(["writer", "batch", "batch", "stream"]), ds, rng.randrange(1, 7),
                            {"format": rng.choice(["jsonl", "zstd", "parquet"]), "n": rng.choice([0, 1, 3, 12]), "size": rng.choice([60, 300, 10**6]), "refused": rng.random() < 0.2, "failure": rng.random() < 0.25,
                             "always": rng.random() < 0.2, "end": rng.choice(["finalize"] * 4 + ["twice", "abandon", "leave"]), "by": rng.random() < 0.2}])
        clients.append({"ops": ops, "crash": rng.randrange(20, 6000) if rng.random() < 0.15 else 0})
    backend = rng.choice(["store", "disk", "disk", "gcs", "minio"])
    faults = []
    if rng.random() < 0.5:
        n = rng.choice([1, 2, 4])
        faults = disk_faults(rng, n) if backend == "disk" else store_faults(rng, n)
        if backend == "gcs":
            for f in faults:
                if "exc" in f:
                    f["exc"] = rng.choice(["Forbidden", "ValueError", "OSError"])
        for _ in range(rng.choice([0, 0, 1, 3])):
            faults.append({"site": "disk.open_r" if backend == "disk" else "get", "kind": "eio" if backend == "disk" else "before", "nth": rng.randrange(12), "times": rng.choice([1, 2]), "exc": "OSError"})
    return {"sim": swarm(rng), "datasets": datasets, "clients": clients, "backend": backend, "faults": faults, "latency_ns": rng.choice([0, 0, 1_000_000])}


def directed():
    bl = lambda n: {"ext": "jsonl", "n": n}
    fr = lambda *states: {"blobs": [], "frames": [{"at": i, "state": s, "blobs": [bl(2)], "junk": ["part"]} for i, s in enumerate(states)], "junk": ["backout"]}
    loose = {"blobs": [bl(2), bl(3)], "frames": [], "junk": ["part", "tmp", "idx", "manifest"]}
    data = [{"name": "set", "days": {"1": fr("complete", "incomplete", "ignored"), "2": fr("ignored", "incomplete"), "4": loose}, "extra": ["readme.txt", "year_2024/month_03/day_01/.17b0-2ade-fa0.jsonl.00ff.part"]},
            {"name": "set1", "days": {"1": loose, "2": fr("incomplete")}, "extra": ["year_2024/notes.md"]}]
    rd = lambda ds=0, a=1, b=5, **kw: ["read", ds, a, b, dict({"fresh": False, "persist": None, "filter": None, "resume": False, "multi": False, "take": 999, "prefixes": None, "keep": False}, **kw)]
    wr = lambda kind, ds=0, day=1, **kw: [kind, ds, day, dict({"format": "jsonl", "n": 5, "size": 60, "refused": False, "failure": False, "always": False, "end": "finalize", "by": False}, **kw)]
    c = lambda *ops, crash=0: {"ops": list(ops), "crash": crash}
    out = []
    for backend in ("store", "disk", "gcs", "minio"):
        base = {"sim": {}, "datasets": data, "backend": backend, "faults": [], "latency_ns": 0}
        out.append(dict(base, clients=[c(rd(), rd(1), rd(0, 2, 2), rd(0, 5, 5, fresh=True), rd(persist="DISK"), rd(resume=True), rd(take=1))]))
        out.append(dict(base, clients=[c(*[rd(i % 2, take=1, prefixes=p) for i, p in enumerate(PREFIXES)])]))
        out.append(dict(base, clients=[c(*[wr(k, 0, d, failure=k == "batch" and d == 2, end=e) for k, d, e in (("batch", 1, "finalize"), ("batch", 2, "finalize"), ("writer", 4, "twice"), ("stream", 1, "finalize"), ("batch", 1, "abandon"))])]))
        out.append(dict(base, clients=[c(wr("batch", 0, 1), wr("stream", 0, 4, n=12)), c(wr("batch", 1, 1, failure=True), wr("writer", 1, 1)), c(rd(), rd(1))]))
        for crash in (200, 900, 2500):
            out.append(dict(base, clients=[c(wr("batch", 0, 1, n=12), wr("stream", 1, 1, n=12), crash=crash), c(rd(), wr("batch", 0, 1), rd(1, persist="DISK"))]))
    return out


def run(w, sc):
    sim = w.sim
    backend = sc["backend"]
    root = rootdir(backend)
    ids = [0]
    names = [f"{root}/{d['name']}" for d in sc["datasets"]]
    for d, name in zip(sc["datasets"], names):
        for day, f in sorted(d["days"].items()):
            Placed(w, backend, f"{name}/year_2024/month_03/day_{int(day):02d}", f, ids)
        for e in d["extra"]:
            w.put_file(backend, f"{name}/{e}", b"not of any writer here\n")
    initial = w.files(backend)
    known = dict(initial)  # all that has been seen stored
    folders = w.folders(backend)
    writing = set()  # datasets somebody has opened for writing

    def check(when):
        now = w.files(backend)
        for n, data in known.items():
            if n not in now:
                w.fail("removed", f"{n} is gone {when}")
            if now[n] != data:
                w.fail("changed", f"{n} held {len(data)} bytes and now {len(now[n])}, {when}")
        for n in sorted(w.folders(backend) ^ folders):
            if n in folders:
                w.fail("removed", f"the folder {n} is gone {when}")
            if not any((n + "/").startswith(d + "/") or (d + "/").startswith(n + "/") for d in writing):
                w.fail("misplaced", f"the folder {n} was created {when}; being written: {sorted(writing)}")
            folders.add(n)
        for n, data in now.items():
            if n in known:
                continue
            if not any(n.startswith(d + "/") for d in writing):
                w.fail("misplaced", f"{n} was created {when}; being written: {sorted(writing)}")
            base = n.rsplit("/", 1)[1]
            if base.startswith(".") or base.endswith(".part"):
                sim.probe("part_left")
                continue
            known[n] = data

    crashed = []

    def client(ci, spec):
        proc = w.proc(f"p{ci}")
        R, day = None, lambda d: f"2024-03-{d:02d}"
        kept = []

        def read(ds, a, b, o):
            kw = {"start_date": day(b if o["fresh"] else a), "end_date": day(b)}
            if o["fresh"]:
                kw["freshness_limit"] = "3d"
                sim.probe("fresh")
            if o["filter"]:
                kw["filters"] = o["filter"]
            if o["persist"]:
                kw["persistence"] = proc.image.get("mabel.data.internals.dictset.STORAGE_CLASS")[o["persist"]]
                sim.probe("persisted")
            if o["multi"]:
                kw["multiprocess"] = True
                sim.probe("multi")
            if o["prefixes"] is not None:
                kw["valid_dataset_prefixes"] = [p.replace("ROOT", root) for p in o["prefixes"]]
            dataset = names[ds % len(names)]
            io = sim.current.local.get("io", 0)
            c = w.call(lambda: open_reader(w, proc, backend, dataset, **kw))
            allowed = not kw.get("valid_dataset_prefixes") or any(dataset.startswith(p) for p in kw["valid_dataset_prefixes"])
            if not allowed and dataset + "/" in kw["valid_dataset_prefixes"] and not iskind(c, "AccessDenied"):
                allowed = True  # the dataset's own folder, either is right
            if not allowed:
                sim.probe("denied")
                if c.ok or not iskind(c, "AccessDenied"):
                    w.fail("not-denied", f"{dataset} was to be denied with prefixes {kw['valid_dataset_prefixes']}: {c!r}")
                if sim.current.local.get("io", 0) != io:
                    w.fail("touched", f"a Reader denied {dataset} has used storage")
                return
            if iskind(c, "AccessDenied"):
                w.fail("denied", f"{dataset} was denied with prefixes {kw.get('valid_dataset_prefixes')}")
            if kw.get("valid_dataset_prefixes"):
                sim.probe("allowed")
            check(f"after {proc.name} opened a Reader of {dataset}")
            if not c.ok:
                if not iskind(c, "DataNotFoundError") and not sim.fault_fired:
                    w.fail("read-failed", repr(c))
                sim.probe("read_failed")
                return
            reader = c.value
            n = 0
            it = iter(reader)
            while n < o["take"]:
                c = w.call(next, it)
                if not c.ok:
                    if not isinstance(c.exc, StopIteration):
                        sim.probe("read_failed")
                        if not iskind(c, "DataNotFoundError") and not sim.fault_fired:
                            w.fail("read-failed", repr(c))
                    break
                n += 1
                sim.probe("read")
                sim.probe("nontrivial")
                if n in (1, 4):
                    check(f"while {proc.name} is reading {dataset}")
            if o["resume"] and n and not o["persist"] and not o["multi"]:
                sim.probe("resumed")
                cur = w.call(lambda: json.dumps(reader.cursor))
                if cur.ok:
                    it = reader = None
                    w.call(lambda: [0 for _ in open_reader(w, proc, backend, dataset, cursor=json.loads(cur.value), **kw)])
            if o["keep"]:
                kept.append((reader, it))
            c = it = reader = None
            w.collect_garbage()
            check(f"after {proc.name} has read {dataset}")

        def write(kind, ds, d, o):
            dataset = names[ds % len(names)]
            writing.add(dataset)
            cls = proc.image.get("mabel.data." + {"writer": "Writer", "batch": "BatchWriter", "stream": "StreamWriter"}[kind])
            kw = dict(w.extra(backend), format=o["format"], blob_size=o["size"], inner_writer=w.writer_adapter(proc, backend), schema=SCHEMA, date=day(d))
            if kind == "batch":
                sim.probe("batch")
                kw["always_complete"] = o["always"]
                w.sleep(1.01 + ci / 8)
            if kind == "stream":
                sim.probe("stream")
                kw["idle_timeout_seconds"] = 3
            if o["by"]:
                kw["partitions"] = ["year_{yyyy}/month_{mm}/day_{dd}/by_k" + ("/k={k}" if kind == "stream" else "/k=a")]
            c = w.call(lambda: cls(dataset=dataset, **kw))
            what = f"by {proc.name}'s {kind} of {dataset}"
            if not c.ok:
                w.fail("start-failed", f"{what}: {c!r}")
            wr = c.value
            for i in range(o["n"]):
                ids[0] += 1
                c = w.call(wr.append, rec(ids[0], "ab"[i % 2], 20))
                if c.ok:
                    sim.probe("wrote")
                    sim.probe("nontrivial")
                else:
                    sim.probe("write_failed")
                    if not sim.fault_fired:
                        w.fail("append-failed", f"{what}: {c!r}")
                if o["refused"] and i == 1:
                    w.call(wr.append, {"id": "x", "k": 5})
                    sim.probe("refused")
                if i % 4 == 1:
                    check(f"after an append {what}")
            if kind == "stream" and o["end"] == "leave":
                w.sleep(5)
            if o["end"] in ("finalize", "twice"):
                for attempt in range(1 + (o["end"] == "twice")):
                    c = w.call(wr.finalize, **({"has_failure": True} if o["failure"] else {}))
                    if o["failure"] and kind == "batch":
                        sim.probe("failed_batch")
                    if not c.ok:
                        sim.probe("write_failed")
                        if not sim.fault_fired:
                            w.fail("finalize-failed", f"{what}: {c!r}")
                    elif attempt:
                        sim.probe("finalized_again")
                    check(f"after finalize {what}")
            elif o["end"] == "abandon":
                sim.probe("abandoned")
            else:
                kept.append(wr)
            c = wr = None
            w.collect_garbage()
            check(f"after the life {what}")

        def body():
            for op in spec["ops"]:
                (read if op[0] == "read" else lambda *a: write(op[0], *a))(*op[1:])
                w.sleep(0.01)
            kept.clear()
            w.collect_garbage()
            sim.probe("ended")
        t = w.client(proc, body, "client")
        return proc, t

    sim.faults = list(sc["faults"])
    cs = [client(i, c) for i, c in enumerate(sc["clients"])]

    def reaper():
        for (proc, t), spec in sorted(zip(cs, sc["clients"]), key=lambda x: x[1]["crash"]):
            if spec["crash"]:
                while sim.step < spec["crash"] and t.state != "done":
                    w.sleep(0)
                    sim.yield_point("reap", 10)
                if t.state != "done":
                    sim.probe("crashed")
                    crashed.append(proc)
                    sim.log("crash", proc.name)
                    sim.kill(proc)
    rp = w.client(w.proc("reaper"), reaper, "reaper")
    w.join(rp, 360000)
    for proc, t in cs:
        if not w.join(t, 360000):
            w.fail("blocked", f"{t!r} has not finished")
    w.sleep(10)
    check("at the end")
    if not crashed and not any(p.dead for p, _ in cs):
        left = temp_files(w)
        if left:
            w.fail("left-behind", f"temporary files are left after all sets were dropped: {left[:4]}")


def temp_files(w):
    import os

    from dst import seams

    out = []
    for d, _, files in os.walk(w.root + "/tmp"):
        out += [os.path.relpath(os.path.join(d, f), w.root) for f in files]
    return out
