"""C07: a finalized batch holds exactly the accepted records, in order, despite retries."""

import datetime

from dst import decode
from dst.core import NS
from checks.common import *

RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("scenario: a Writer or BatchWriter fed valid and invalid records of varied sizes and values, storage faults at its writes, appends that raised tried again or given up, "
        "finalize retried until it succeeds, then every stored blob and a Reader compared with the accepted records. Non-trivial = several blobs, a rejected record or a fault.")
PROBES = ["multi_blob", "rejected", "append_raised", "finalize_raised", "retry_ok", "lost_ack", "read_back", "torn", "fallback_json", "empty", "finalized_twice", "neighbours", "abandoned", "twin", "reused", "model", "no_fields"]
ASSUMPTIONS = ["records are of the types their format can represent", "a flat blob holds each record flattened with dots",
               "the size of an open Parquet blob is the size orso reports for its rows"]
TYPED = [{"name": "id", "type": "INTEGER"}, {"name": "k", "type": "VARCHAR"}, {"name": "p", "type": "VARCHAR"}, {"name": "f", "type": "DOUBLE"},
         {"name": "b", "type": "BOOLEAN"}, {"name": "t", "type": "TIMESTAMP"}, {"name": "a", "type": "ARRAY"}, {"name": "x", "type": "BLOB"},
         {"name": "d", "type": "DATE"}]
STRINGS = ["", "a", "é漢🙂", "line\nbreak\r\n", "quote\"back\\slash", "\u2028\x85\x0b\x1c", "\ttab", "{\"j\": 1}", "null", "\x00"]


def gen(rng, tier):
    fmt = rng.choice(["jsonl", "zstd", "flat", "parquet", "parquet", "text"])
    schema = fmt == "parquet" or (fmt in ("jsonl", "zstd") and rng.random() < 0.4)
    ops = []
    twins = rng.choice([0, 0, 0, 0.2, 0.8])
    for _ in range(rng.choice([0, 1, 2, 5, 12, 30, 60])):
        x = rng.random()
        if schema and x < 0.15:
            ops.append(["bad", rng.choice(["type", "missing", "extra"])])
        else:
            op = ["a", rng.randrange(1 << 30), rng.choice([0, 0, 1, 10, 50, 200])]
            ops.append(op)
            if rng.random() < twins:
                op.append("twin")
                ops += [list(op) for _ in range(rng.choice([1, 1, 2, 5]))]
    others = [[["a", rng.randrange(1 << 30), rng.choice([0, 10, 200])] for _ in range(rng.choice([1, 5, 12]))] for _ in range(rng.choice([0, 0, 1, 2]))]
    backend = rng.choice(["store", "disk", "disk", "gcs", "minio"])
    faults = []
    if rng.random() < 0.65:
        if backend == "disk":
            faults = disk_faults(rng, rng.choice([1, 1, 2, 4]), span=14)
        else:
            faults = store_faults(rng, rng.choice([1, 1, 2, 4]), sites=("before", "after", "before"), span=8)
            if backend == "gcs":
                for f in faults:
                    f["exc"] = rng.choice(["Forbidden", "ValueError"])
    gone = rng.choice([0, 0, 0, 1, 3, 8])
    return {"sim": swarm(rng, gc_mean=rng.choice([30, 300, 3000]) if gone else rng.choice([0, 0, 1000])), "gone": gone, "format": fmt, "schema": schema, "writer": rng.choice(["Writer", "BatchWriter"]), "backend": backend, "ops": ops,
            "blob_size": rng.choice([0, 1, 60, 300, 1000, 5000, 10**6]), "faults": faults, "readd": rng.random() < 0.5, "again": rng.random() < 0.3, "others": others,
            "reuse": rng.random() < 0.3, "model": rng.choice([None, None, None, None, "v1", "v2", "both", "mini"])}


def directed():
    base = {"sim": {}, "format": "jsonl", "schema": False, "writer": "BatchWriter", "backend": "disk", "blob_size": 100, "faults": [], "readd": False, "again": False, "others": [], "gone": 0, "reuse": False}
    a = lambda n, z=20: [["a", i, z] for i in range(n)]
    out = []
    for fmt in ("jsonl", "parquet", "zstd", "text", "flat"):
        for backend in ("disk", "store"):
            out.append(dict(base, format=fmt, schema=fmt == "parquet", backend=backend, ops=a(12),
                            faults=[{"site": "disk.write" if backend == "disk" else "put", "kind": "enospc" if backend == "disk" else "before", "nth": 1, "times": 2,
                                     "frac": 0.5, "exc": "OSError"}]))
        out.append(dict(base, sim={"preempt": 0.1, "gc_mean": 40}, gone=8, format=fmt, schema=fmt == "parquet", ops=a(12)))
        out.append(dict(base, sim={"preempt": 0.1}, format=fmt, schema=fmt == "parquet", backend="store", ops=a(12), others=[a(12), a(5)], latency_ns=1_000_000))
    for fmt in ("jsonl", "parquet", "zstd", "text", "flat"):
        for size in (0, 100, 1000):
            out.append(dict(base, format=fmt, schema=fmt == "parquet", backend="store", blob_size=size, reuse=size != 100, again=size == 0, ops=[["a", 5, 20, "twin"]] * 9 + a(4)))
        out += [dict(base, format=fmt, schema=fmt == "parquet", backend="store", ops=a(9), model=m) for m in ("v1", "v2", "both", "mini")]
    out.append(dict(base, format="parquet", schema=True, ops=a(3) + [["bad", "type"]] + a(3) + [["bad", "missing"]], again=True))
    for fmt in ("jsonl", "parquet", "zstd", "text", "flat"):
        # blobs of several megabytes
        out.append(dict(base, format=fmt, schema=fmt == "parquet", backend="store", blob_size=3 * 10**6, ops=a(7, 900_000)))
    out.append(dict(base, ops=a(3), blob_size=10**6, faults=[{"site": "disk.rename", "kind": "eio", "nth": 0, "times": 2}]))
    return out


def make_record(sc, i, seed, size):
    import random

    rng = random.Random(seed)
    s = rng.choice(STRINGS)
    p = rng.choice(["x", "é", "ab "]) * size
    fmt = sc["format"]
    if fmt == "text":
        kind = rng.choice(["str", "bytes", "int"])
        t = f"{i}:{s}{p}".replace("\n", "").replace("\r", "")
        return t if kind == "str" else t.encode() if kind == "bytes" else i * 1000
    if sc["schema"]:
        num = rng.choice([0, -1, 2**40, -2**50, 2**53 + 1, 2**63 - 1, -2**63, None])
        f = rng.choice([0.0, 1.5, -2.25e-10, 1e300, None])
        r = {"id": i, "k": rng.choice([s, None]), "p": p, "f": f, "b": rng.choice([True, False, None])}
        if fmt == "parquet":
            r["t"] = rng.choice([None, datetime.datetime(2024, 2, 29, 23, 59, 59, 999999), datetime.datetime(1970, 1, 1)])
            r["a"] = rng.choice([None, [], ["a", s]])
            r["x"] = rng.choice([None, b"", b"\x00\xff\n"])
            r["d"] = rng.choice([None, datetime.date(2024, 2, 29), datetime.date(1969, 12, 31), datetime.date(9999, 12, 31)])
        else:
            r["id"] = i
            r["t"] = None
            r["a"] = rng.choice([None, [], ["a", s]])
            r["x"] = None
            r["d"] = None
        return r
    r = {"id": i, "k": s, "p": p}
    for _ in range(rng.choice([0, 0, 1, 3])):
        r[rng.choice(["n", "o", "é", "a b"])] = rng.choice([None, True, 0, -1, 2**63 - 1, 1.5, 1e-300, [], [1, "a", None], {"q": {"r": 1}}, {"e": s}, s])
    if fmt == "flat":
        for k in list(r):
            if isinstance(r[k], (list,)):
                r[k] = None
    elif rng.random() < 0.08:
        # what orjson does not write
        r["big"] = rng.choice([2**70, 2**70 + 1, -2**63 - 1, 2**64 - 1, "\ud800", "a\udfffb", [2**64 + 1, "9" * 30]])
    if rng.random() < 0.1 and fmt != "flat":
        r = {"id": i}
    if rng.random() < 0.04:
        # no fields is still a record
        r = {}
    return r


def flat(r, prefix=""):
    out = {}
    for k, v in r.items():
        if isinstance(v, dict):
            out.update(flat(v, prefix + k + "."))
        else:
            out[prefix + k] = v
    return out


def expected(sc, r):
    if sc["format"] == "text":
        return r.decode() if isinstance(r, bytes) else r if isinstance(r, str) else str(r)
    return flat(r) if sc["format"] == "flat" else r


def k_(r):
    return json.dumps(r, sort_keys=True, default=lambda v: [type(v).__name__, str(v)])


def run(w, sc):
    sim = w.sim
    proc = w.proc("app")
    root = rootdir(sc["backend"])
    everyone = [root + "/ds"] + [f"{root}/ds{i}" for i in range(len(sc["others"]))]
    ts = [w.client(proc, lambda ds=ds, ops=ops: one(w, sc, proc, root, ds, ops, everyone), f"writer{i}")
          for i, (ds, ops) in enumerate(zip(everyone, [sc["ops"]] + sc["others"]))]
    if sc["others"]:
        sim.probe("neighbours")

    def abandon():
        """writers with records that are dropped and cleaned up whenever the collector runs"""
        sim.probe("abandoned")
        for i in range(sc["gone"]):
            c = w.call(lambda: proc.image.get("mabel.data.Writer")(dataset=f"{root}/gone{i}", format="jsonl", schema=False, date="2024-03-01", blob_size=10**6,
                                                                   inner_writer=w.writer_adapter(proc, sc["backend"]), **w.extra(sc["backend"])))
            for n in range(2):
                w.call(c.value.append, {"gone": n})
            del c

    if sc["gone"]:
        everyone.append(root + "/gone")
        ts.append(w.client(proc, abandon, "abandoner"))
    for t in ts:
        if not w.join(t, 36000):
            w.fail("blocked", "the writer has not finished")


def one(w, sc, proc, root, ds, ops, everyone):
    """a writer's life"""
    sim = w.sim
    accepted = []
    st = {}

    def writes_raise(c, what):
        if not sim.fault_fired:
            w.fail("raised", f"{what} raised with a healthy store: {c!r}")

    def body():
        W = proc.image.get("mabel.data." + sc["writer"])
        wr = W(dataset=ds, format=sc["format"], schema=TYPED if sc["schema"] else False, date="2024-03-01", blob_size=sc["blob_size"],
               inner_writer=w.writer_adapter(proc, sc["backend"]), **w.extra(sc["backend"]))
        st["schema"] = wr.schema
        n = 0
        shared = {}
        # only JSON blobs take records which serialize themselves
        model = sc.get("model") if sc.get("model") != "mini" or sc["format"] in ("jsonl", "zstd") else None
        for op in ops:
            if op[0] == "bad":
                r = make_record(dict(sc, format="jsonl"), 10**6 + n, n, 3)
                r = {**{c["name"]: None for c in TYPED}, **{k: v for k, v in r.items() if k in ("id", "k", "p")}}
                if op[1] == "type":
                    r["id"] = "not a number"
                elif op[1] == "missing":
                    r.pop("p")
                else:
                    r["f"] = "not a float"
                c = w.call(wr.append, r)
                sim.probe("rejected")
                sim.probe("nontrivial")
                if c.ok:
                    w.fail("accepted-invalid", f"append accepted {r}")
                continue
            n += 1
            r = make_record(sc, 0 if op[3:] else n, op[1], op[2])
            if op[3:]:
                sim.probe("twin")
            big = False
            if r == {}:
                sim.probe("no_fields")
            if isinstance(r, dict) and "big" in r:
                sim.probe("fallback_json")
                big = True
            for attempt in range(3 if sc["readd"] else 1):
                given = r
                if isinstance(r, dict):
                    given = shared if sc["reuse"] else {}
                    given.clear()
                    given.update(r)
                    if model and not (model == "mini" and big):
                        given = MODELS[model](r)
                        sim.probe("model")
                c = w.call(wr.append, given)
                sim.log("append", n, c.ok)
                if given is shared:
                    # the record is the caller's again once append has returned
                    sim.probe("reused")
                    shared.clear()
                    shared.update({k: None for k in r} if n % 2 else {})
                if c.ok:
                    accepted.append(expected(sc, r))
                    break
                sim.probe("append_raised")
                writes_raise(c, "append")
        for attempt in range(8):
            if attempt == 4:
                sim.faults = []
            c = w.call(wr.finalize)
            sim.log("finalize", c.ok)
            if c.ok:
                if attempt:
                    sim.probe("retry_ok")
                break
            sim.probe("finalize_raised")
            writes_raise(c, "finalize")
        else:
            w.fail("finalize-never-succeeds", f"finalize still raises after the store recovered: {c!r}")
        judge("when finalize returned", wr)
        sim.faults = []
        if sc["again"]:
            sim.probe("finalized_twice")
            c = w.call(wr.finalize)
            if not c.ok:
                w.fail("finalize-failed", f"a second finalize raised: {c!r}")
            judge("after a second finalize", wr)
        del wr
        w.collect_garbage()
        judge("after the writer is gone", None)
        read()

    def judge(when, wr):
        want = [k_(r) for r in accepted]
        last = {}
        if sc["backend"] != "disk":
            for p in w.store.puts:
                last[p["name"]] = p
        lost = {n for n, p in last.items() if p["ack"] is None}
        if lost:
            sim.probe("lost_ack")
            sim.probe("nontrivial")
        got, names = [], []
        for name, data in w.files(sc["backend"], root).items():
            base = name.rsplit("/", 1)[1]
            if base in ("frame.complete",):
                continue
            if base.endswith(".part"):
                continue
            if not decode.is_data(name):
                w.fail("stray", f"unexpected file {name} {when}")
            if not name.startswith(ds + "/"):
                if not any(name.startswith(o + "/") for o in everyone) and not name.startswith(root + "/gone"):
                    w.fail("misplaced", f"{name} is outside the dataset {when}")
                continue
            records = decode.decode(name, data)
            if records is None:
                w.fail("unreadable", f"{name} ({len(data)} bytes) cannot be decoded {when}")
            if not records:
                w.fail("empty-blob", f"{name} holds no records {when}")
            if name in lost:
                extra = [k_(r) for r in records if k_(r) not in want]
                if extra:
                    w.fail("phantom", f"{name} holds {extra[:3]} which were not accepted, {when}")
                continue
            names.append(name)
            got += [k_(r) for r in records]
            size_check(name, data, records)
        if got != want:
            w.fail("content", f"{when} {len(names)} blobs hold {len(got)} records, {len(want)} were accepted: {diff(got, want)}")
        st["lost"] = lost
        if len(names) > 1:
            sim.probe("multi_blob")
            sim.probe("nontrivial")
        if not want:
            sim.probe("empty")
        if any(k.startswith("disk.write") for k in sim.fault_fired):
            sim.probe("torn")
        if sim.fault_fired:
            sim.probe("nontrivial")

    def size_check(name, data, records):
        if len(records) < 2:
            return
        if sc["format"] == "parquet":
            from orso import DataFrame

            df = DataFrame(rows=[], schema=st["schema"])
            for r in records[:-1]:
                df.append(r)
            before = df.nbytes()
        else:
            if name.endswith(".zstd"):
                data = decode.unzstd(data)
            before = data[:-1].rfind(b"\n") + 1
        if before > sc["blob_size"]:
            w.fail("oversize", f"{name} holds {len(records)} records, {before} bytes without the last; blob_size is {sc['blob_size']}")

    def read():
        if sc["format"] == "text":
            return
        c = read_all(w, proc, sc["backend"], ds, start_date="2024-03-01", end_date="2024-03-01")
        want = [k_(r) for r in accepted]
        if not want:
            if c.ok and c.value:
                w.fail("phantom", f"the Reader returned {c.value[:3]} from an empty batch")
            if not c.ok and not iskind(c, "DataNotFoundError"):
                w.fail("read-failed", repr(c))
            return
        if not c.ok:
            w.fail("read-failed", repr(c))
        got = [k_(r) for r in c.value]
        if st["lost"]:
            if set(got) != set(want):
                w.fail("read-back", f"the Reader returned other records than were accepted: {diff(got, want)}")
        elif got != want:
            w.fail("read-back", f"the Reader returned {len(got)} records, {len(want)} were accepted: {diff(got, want)}")
        sim.probe("read_back")

    body()
