"""C10: a blob that cannot be read costs only its own records, and is reported."""

import os

from checks.common import *

RUNS = {"quick": 2000, "thorough": 60000}
IMAGES = 3
NO_OPCODES = True
RULE = ("scenario: 1-14 blobs of several formats over 1-3 days, read while get, open, read and body faults, truncation, damaged lines and deletions after the listing hit chosen or "
        "arbitrary blobs; per blob the records returned are compared with its true ones. Non-trivial = a blob failed and another one was read.")
PROBES = ["failed", "vanished", "truncated", "damaged", "junk", "partial", "complete", "all_failed", "multiprocess", "persisted", "filtered", "transient", "reported", "out_of_memory"]
ASSUMPTIONS = ["formats whose truncation cannot be noticed (text, CSV) are left out", "an error is an exception of class Exception (not KeyboardInterrupt or SystemExit)"]

EXTS = ["jsonl", "jsonl", "zstd", "parquet", "lzma", "zip", "json"]


def gen(rng, tier):
    nd = rng.choice([1, 1, 2, 3])
    blobs = []
    for i in range(rng.choice([1, 2, 3, 5, 6, 9, 14])):
        blobs.append({"day": rng.randrange(nd) + 1, "ext": rng.choice(EXTS), "n": rng.choice([0, 1, 2, 3, 7, 30]), "size": rng.choice([0, 5, 300, 3000])})
    bad = []
    for i in range(len(blobs)):
        if rng.random() < rng.choice([0.1, 0.3, 0.6, 1.0]):
            kind = rng.choice(["get", "get", "vanish", "truncate", "truncate", "damage", "body", "delete", "junk", "header"])
            bad.append({"i": i, "kind": kind, "frac": rng.choice([0, 0.01, 0.3, 0.5, 0.9, 0.999]), "exc": rng.choice(["StoreError", "OSError", "ConnectionResetError", "MemoryError", "TimeoutError"]),
                        "at": rng.randrange(8), "times": rng.choice([1, 1000])})
    faults = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        faults.append({"nth": rng.randrange(12), "times": rng.choice([1, 1, 3]), "slow": rng.random() < 0.3, "read": rng.random() < 0.5})
    return {"sim": swarm(rng), "blobs": blobs, "bad": bad, "events": faults, "backend": rng.choice(["store", "disk", "disk", "gcs", "minio"]), "nd": nd,
            "filters": rng.choice([None, None, None, "k == 'a'"]), "persistence": rng.choice([None, None, None, "MEMORY", "COMPRESSED_MEMORY"]),
            "mp": rng.random() < 0.2, "latency_ns": 0}


def directed():
    base = {"sim": {}, "nd": 1, "filters": None, "persistence": None, "mp": False, "latency_ns": 0, "events": []}
    out = []
    for backend in ("store", "disk", "gcs", "minio"):
        for ext in ("jsonl", "zstd", "parquet", "lzma", "zip"):
            bs = [{"day": 1, "ext": ext, "n": 4, "size": 40} for _ in range(4)]
            for kind in ("get", "vanish", "truncate", "damage", "body", "delete", "junk", "header"):
                out.append(dict(base, backend=backend, blobs=bs, bad=[{"i": 1, "kind": kind, "frac": 0.6, "exc": "OSError", "at": 1, "times": 1000}]))
    return out[::2] + out[1::6]


def run(w, sc):
    sim = w.sim
    backend = sc["backend"]
    ds = rootdir(backend) + "/ds"
    blobs, how, ids = {}, {}, 0
    names = []
    cut = set()
    for i, b in enumerate(sc["blobs"]):
        n = 1 if b["ext"] == "json" else b["n"]
        recs = []
        for j in range(n):
            ids += 1
            recs.append(rec(ids, "ab"[j % 2], b["size"]))
        ext = b["ext"] if b["ext"] in ("jsonl", "json") else "jsonl." + b["ext"]
        name = f"{ds}/year_2024/month_03/day_{min(b['day'], sc['nd']):02d}/f{i:04d}.{ext}"
        names.append(name)
        blobs[name] = (b["ext"], recs)
    bad = {}
    for b in sc["bad"]:
        if b["i"] < len(names):
            bad.setdefault(names[b["i"]], b)
    deletions = {}
    faults = []
    for name, (ext, recs) in blobs.items():
        data = encode(ext, recs)
        b = bad.get(name)
        k = b["kind"] if b else None
        if k == "truncate":
            m = int(len(data) * b["frac"])
            if m < len(data):
                data = data[:m]
                cut.add(name)
                sim.probe("truncated")
        elif k == "damage" and ext in ("jsonl", "zstd", "lzma", "zip") and recs:
            at = b["at"] % len(recs)
            lines = encode("jsonl", recs).split(b"\n")
            lines[at] = lines[at][: max(1, len(lines[at]) // 2)]
            body = b"\n".join(lines)
            data = pack(ext, body)
            cut.add(name)
            sim.probe("damaged")
        elif k == "junk" or (k == "header" and ext != "parquet"):
            # something else altogether, or the right thing with another beginning
            data = b"\x00\xff not data" + data[:3] if k == "junk" else b"\x00\x01\x02\x03" + data[4:]
            cut.add(name)
            sim.probe("junk")
        elif k == "delete":
            deletions.setdefault(b["at"], []).append(name)
        elif k in ("get", "body", "vanish"):
            kind = {"StoreError": "eio", "OSError": "eio", "ConnectionResetError": "eacces", "MemoryError": "memory", "TimeoutError": "emfile"}[b["exc"]]
            if b["exc"] == "MemoryError":
                sim.probe("out_of_memory")
            if b["times"] == 1:
                sim.probe("transient")
            if backend == "disk":
                if k == "vanish":
                    deletions.setdefault(0, []).append(name)
                else:
                    faults.append({"site": ("disk.open_r:" if k == "get" else "disk.read:") + name, "nth": 0, "times": b["times"], "kind": kind})
            elif k == "body" and backend == "minio":
                faults.append({"site": "body:" + name, "nth": 0, "times": b["times"], "exc": b["exc"]})
            else:
                faults.append({"site": "get:" + name, "kind": "vanish" if k == "vanish" else "before", "nth": 0, "times": b["times"], "exc": b["exc"]})
        w.put_file(backend, name, data)
    for e in sc["events"]:
        kind = "slow" if e["slow"] else "eio"
        if backend == "disk":
            faults.append({"site": "disk.read" if e["read"] else "disk.open_r", "kind": kind, "nth": e["nth"], "times": e["times"]})
        else:
            faults.append({"site": "get", "kind": "slow" if e["slow"] else "before", "nth": e["nth"], "times": e["times"], "exc": "OSError"})
    sim.faults = faults
    deleted = []
    proc = w.proc("r")
    kw = {"start_date": "2024-03-01", "end_date": f"2024-03-{sc['nd']:02d}"}
    if sc["filters"]:
        kw["filters"] = sc["filters"]
        sim.probe("filtered")
    if sc["mp"]:
        kw["multiprocess"] = True
        if len(names) > 4:
            sim.probe("multiprocess")
    if sc["persistence"]:
        kw["persistence"] = getattr(proc.image.get("mabel.data.internals.dictset").STORAGE_CLASS, sc["persistence"])
        sim.probe("persisted")
    got = []

    def body():
        c = w.call(lambda: open_reader(w, proc, backend, ds, **kw))
        if not c.ok:
            return c
        it = iter(c.value)
        while True:
            for name in deletions.pop(len(got), ()):
                deleted.append(name)
                w.del_file(backend, name)
                sim.log("deleted", name)
                sim.probe("vanished")
            c = w.call(next, it)
            if iskind(c, "StopIteration"):
                return None
            if not c.ok:
                return c
            got.append(plain(c.value))

    before = deletions.pop(0, [])
    # a blob deleted before the first record is asked for goes after the listing at best
    def deleter():
        w.sleep(0)
        for name in before:
            deleted.append(name)
            w.del_file(backend, name)
            sim.log("deleted", name)
            sim.probe("vanished")
    t = w.client(proc, body, "main")
    if before:
        w.client(w.proc("other"), deleter, "deleter")
    if not w.join(t, 36000):
        w.fail("blocked", f"the read has not finished after {len(got)} records")
    c = t.result
    if c is not None:
        if iskind(c, "DataNotFoundError") and set(before) >= set(names):
            return
        w.fail("read-failed", f"the read raised after {len(got)} records: {c!r}")

    # --- judge
    owner = {}
    for name, (ext, recs) in blobs.items():
        for r in recs:
            owner[r["id"]] = (name, r)
    seen = {n: [] for n in names}
    order = []
    for r in got:
        o = owner.get(r.get("id")) if isinstance(r, dict) else None
        if o is None or key(o[1]) != key(r):
            w.fail("invented", f"a record that is in no blob was returned: {str(r)[:200]}")
        if not order or order[-1] != o[0]:
            order.append(o[0])
        seen[o[0]].append(r["id"])
    if not sc["mp"] and order != sorted(set(order)):
        w.fail("order", f"blobs were returned in the order {[os.path.basename(n) for n in order]}")
    hit = set(deleted) | set(cut) | set(sim.failed_gets)
    for h in sim.history:
        if h[2] == "fault" and h[4] not in ("slow",):
            hit.add(h[5])
    logs = "\n".join(w.errors_logged())
    ok = 0
    for name in names:
        ext, recs = blobs[name]
        want = [r["id"] for r in recs if not sc["filters"] or r["k"] == "a"]
        have = seen[name]
        if have == want:
            ok += bool(want)
            if name in hit:
                sim.probe("complete")
        if name not in hit and have != want:
            w.fail("lost", f"{name} could be read, but {len(have)} of its {len(want)} records were returned: {have[:10]}")
        if have != want[: len(have)]:
            w.fail("not-prefix", f"{name} failed; returned {have[:20]}, its records are {want[:20]}")
        if name in hit:
            sim.probe("failed")
            if have:
                sim.probe("partial")
            raised = must_report(backend, name, ext, recs, bad.get(name), cut, deleted, sim, have == want, before)
            if raised:
                if os.path.basename(name) not in logs:
                    w.fail("not-reported", f"{name} could not be read ({len(have)} of {len(want)} records returned) and no error log entry names it; log: {logs[:300]!r}")
                sim.probe("reported")
    if not got:
        sim.probe("all_failed")
    if ok and any(seen[n] != [r["id"] for r in blobs[n][1]] for n in hit if n in seen):
        sim.probe("nontrivial")


def must_report(backend, name, ext, recs, b, cut, deleted, sim, complete, before):
    """reading the blob raised, for certain"""
    if name in sim.failed_gets or any(h[2] == "fault" and h[5] == name and h[4] != "slow" for h in sim.history):
        # an attempt failed; a later one may have succeeded
        return not complete or (b is not None and b.get("times") == 1000 and b["kind"] in ("get", "body") and not recs)
    if complete:
        return False
    if name in cut:
        if b["kind"] in ("damage", "junk", "header"):
            return True
        # cut anywhere, a Parquet or ZIP file is not one any more; JSON lines may be cut at a line's end
        if ext in ("parquet", "zip", "lzma"):
            return True
        if ext == "jsonl":
            data = encode("jsonl", recs)
            m = int(len(data) * b["frac"])
            return m > 0 and data[m - 1: m] != b"\n" and data[m: m + 1] != b"\n"
        if ext == "json":
            return True
        return False
    # gone after the listing (a deletion racing with the listing may precede it)
    return name in deleted and name not in before


def pack(ext, body):
    if ext == "zstd":
        import zstandard

        return zstandard.compress(body)
    if ext == "lzma":
        import lzma

        return lzma.compress(body)
    if ext == "zip":
        import zipfile

        out = io.BytesIO()
        with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr(zipfile.ZipInfo("part.jsonl", (2024, 3, 1, 0, 0, 0)), body)
        return out.getvalue()
    return body
