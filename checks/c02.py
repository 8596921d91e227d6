"""C02: each streamed record lands in the partition its time and fields name."""

import datetime
import itertools
import os

from checks.common import *

RUNS = {"quick": 2000, "thorough": 50000}
RULE = ("scenario: 1-3 client threads append records with scalar, list, missing, unsafe and schema-failing values through a partition template, "
        "with pauses and clock steps across second/hour/day/month/year boundaries; then finalize and read. "
        "Non-trivial = the clock crossed a boundary of the template, a record had several partitions, or went to BACKOUT.")
PROBES = ["backout", "fanout", "boundary", "clock_step", "fixed_date", "sanitized", "read_back", "evicted", "model", "date_names"]
ASSUMPTIONS = ["values used as placeholders are scalars or non-empty lists of scalars",
               "an append that spans a boundary may use either side of it, the same for all its partitions"]

DATE = {"day": "year_{yyyy}/month_{mm}/day_{dd}", "short": "{yyyy}/{mm}/{dd}", "hour": "year_{yyyy}/month_{mm}/day_{dd}/by_hour/hour={HH}",
        "minute": "year_{yyyy}/month_{mm}/day_{dd}/by_minute/minute={HH}-{MM}", "second": "{yyyy}-{mm}-{dd}/{HH}/{MM}/{SS}", "none": ""}
FIELDS = ["", "k={k}", "by_k/k={k}", "k={k}/m={m}", "by_k/k={k}/{m}", "{k}-{m}", "k={k}/again={k}"]
BOUNDARIES = ["2024-02-28T23:59:59.700", "2024-02-29T23:59:58.000", "2024-12-31T23:59:59.000", "2023-12-31T23:59:59.500",
              "2025-03-09T01:59:59.000", "2024-06-30T12:59:59.500", "2024-10-09T09:59:59.900", "2024-07-01T00:00:00.000",
              "2026-01-09T09:09:59.000"]
SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 \t\n\r\x0b\x0c")


def value(rng):
    if rng.random() < 0.2:
        # values told apart by little
        return rng.choice(["a ", " a", " ", "a\tb", "a  b", "AB", "Ab", "ab", "l" * 90 + "1", "l" * 90 + "2", "0", 0, "00", "None", "False", -1, "1.50"])
    return rng.choice(["a", "b", "a", "b", "abc", "a b", "a/b", "..", "{yyyy}", "x=y", "é1", "A", 1, 2, 10, True, None, 1.5, "1", "", "a!"])


def field(rng):
    if rng.random() < 0.3:
        # True and 1 are equal, which of them names the partition is undefined
        return [v for v in (value(rng) for _ in range(rng.choice([1, 2, 2, 3]))) if v is not True] or ["a"]
    return value(rng)


def gen(rng, tier):
    date = rng.choice(["day", "day", "short", "hour", "minute", "second", "none"])
    fields = rng.choice(FIELDS if date != "none" else FIELDS[1:])
    schema = rng.random() < 0.5
    fmt = rng.choice(["jsonl", "zstd", "parquet", "jsonl"]) if schema else rng.choice(["jsonl", "zstd", "flat"])
    clients = []
    for c in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([2, 5, 12, 25])):
            x = rng.random()
            if x < 0.25:
                ops.append(["s", rng.choice([0.001, 0.1, 0.4, 1.0, 1.2, 60.0])])
            elif x < 0.29:
                ops.append(["j", rng.choice([1, -1, 3600, -3600, 86400, -7200, 0.3])])
            else:
                if schema:
                    k, m = (rng.choice(["a", "b", "a b", "a/b", "x=y", "", None]) for _ in range(2))
                elif fmt == "flat":
                    k, m = value(rng), value(rng)
                else:
                    k, m = field(rng), field(rng)
                ops.append(["a", k, m, schema and rng.random() < 0.3, rng.random() < 0.1])
        clients.append({"ops": ops})
    return {"sim": swarm(rng), "at": rng.choice(BOUNDARIES), "date": date, "fields": fields, "schema": schema, "format": fmt,
            "fixed": rng.choice([None, None, None, "2024-02-29", "2023-01-01T05:00:00"]), "blob_size": rng.choice([60, 10**6]),
            "idle": rng.choice([1, 30]), "capacity": rng.choice([1, 3, 10]), "backend": rng.choice(["store", "disk", "gcs", "minio"]),
            "clients": clients, "latency_ns": rng.choice([0, 0, 1_000_000]), "model": rng.random() < 0.15, "named": rng.random() < 0.2}


def directed():
    base = {"sim": {}, "at": "2024-02-28T23:59:59.700", "date": "day", "fields": "k={k}", "schema": False, "format": "jsonl", "fixed": None,
            "blob_size": 10**6, "idle": 30, "capacity": 10, "backend": "store", "latency_ns": 0}
    a = lambda k, m=1, bad=False: ["a", k, m, bad, False]
    return [
        dict(base, clients=[{"ops": [a("x"), ["s", 0.4], a("x"), a(["x", "y"])]}]),
        dict(base, date="second", named=True, clients=[{"ops": [a("x"), ["s", 0.4], a("x"), a(["x", "y"])]}]),
        dict(base, fields="by_k/k={k}", clients=[{"ops": [a(["a!", "a"]), a([1, "1"]), a(["a", "b", "a"])]}]),
        dict(base, clients=[{"ops": [a("a"), a("a "), a("A"), a("l" * 90 + "1"), a("l" * 90 + "2"), a(0), a("a\tb")]}]),
        dict(base, schema=True, model=True, clients=[{"ops": [a("x", "m"), a("x", "m", True), a("y", "m")]}]),
        dict(base, schema=True, format="parquet", clients=[{"ops": [a("x", "m"), a("x", "m", True), a("y", "m"), a("y", "m", True)]}]),
        dict(base, schema=True, date="hour", clients=[{"ops": [a("x", "m", True), ["s", 0.4], a("x", "m", True), a("x", "m")]}]),
        dict(base, date="hour", fields="", at="2024-06-30T12:59:59.500", clients=[{"ops": [a(1), ["s", 0.4], a(2), ["s", 0.2], a(3)]}]),
    ]


SCHEMA2 = [{"name": "id", "type": "INTEGER"}, {"name": "k", "type": "VARCHAR"}, {"name": "m", "type": "VARCHAR"}, {"name": "p", "type": "VARCHAR"}]


def fill(template, dt):
    for a, b in (("{yyyy}", f"{dt.year:04d}"), ("{mm}", f"{dt.month:02d}"), ("{dd}", f"{dt.day:02d}"),
                 ("{HH}", f"{dt.hour:02d}"), ("{MM}", f"{dt.minute:02d}"), ("{SS}", f"{dt.second:02d}")):
        template = template.replace(a, b)
    return template


def combos(fields, r):
    names = [n for n in ("k", "m") if "{" + n + "}" in fields]
    lists = [r[n] if isinstance(r.get(n), list) else [r.get(n)] for n in names]
    out = set()
    for vs in itertools.product(*lists):
        t = fields
        for n, v in zip(names, vs):
            t = t.replace("{" + n + "}", "\0" + n + "\0")
        for n, v in zip(names, vs):
            t = t.replace("\0" + n + "\0", "".join(c for c in str(v) if c in SAFE))
        out.add(t)
    return out


def norm(path):
    return str(os.path.normpath(path)) if path else path


def run(w, sc):
    sim = w.sim
    at = datetime.datetime.fromisoformat(sc["at"])
    sim.epoch = int((at - datetime.datetime(1970, 1, 1)).total_seconds() * 1000) * 10**6
    proc = w.proc("app")
    SW = proc.image.get("mabel.data.StreamWriter")
    root = rootdir(sc["backend"])
    ds = root + "/ds"
    parts = [p for p in (DATE[sc["date"]], sc["fields"]) if p]
    st = {}
    jumps = []  # (step, wall before, wall after)
    recs = {}
    n = [0]

    def make():
        kw = dict(w.extra(sc["backend"]))
        if sc["fixed"]:
            kw["date"] = sc["fixed"]
            sim.probe("fixed_date")
        st["w"] = SW(dataset=ds, format=sc["format"], schema=SCHEMA2 if sc["schema"] else False, partitions=parts,
                     inner_writer=w.writer_adapter(proc, sc["backend"]), idle_timeout_seconds=sc["idle"],
                     writer_pool_capacity=sc["capacity"], blob_size=sc["blob_size"], **kw)

    def client(ci, ops):
        def body():
            for op in ops:
                if op[0] == "s":
                    w.sleep(op[1])
                elif op[0] == "j":
                    before = w.wall(proc)
                    proc.skew += int(op[1] * 10**9)
                    jumps.append((sim.step, before, w.wall(proc)))
                    sim.log("jump", ci, op[1])
                    sim.probe("clock_step")
                else:
                    n[0] += 1
                    r = {"id": n[0], "k": op[1], "m": op[2], "p": 5 if op[3] else "v"}
                    if op[4]:
                        del r["m"]
                    if sc.get("named") and not sc["schema"]:
                        # fields which share their names with parts of the date
                        r.update({"dd": "dd", "HH": 3, "yyyy": op[1], "MM": None})
                        sim.probe("date_names")
                    src = dict(r)
                    w0, s0 = w.wall(proc), sim.step
                    sim.log("append", ci, r["id"])
                    if sc.get("model"):
                        r = MODELS["dict"](r)
                        sim.probe("model")
                    c = w.call(st["w"].append, r)
                    sim.log("append.", ci, src["id"], c.ok)
                    if not c.ok:
                        w.fail("append-failed", f"append of {src} raised: {c!r}")
                    spans = [w0]
                    for s, b, a in jumps:
                        if s0 <= s:
                            spans += [b, a]
                    spans.append(w.wall(proc))
                    recs[src["id"]] = (src, bool(op[3] or (sc["schema"] and op[4])), list(zip(spans[::2], spans[1::2])))
        return body

    w.join(w.client(proc, make, "setup"))
    cl = [w.client(proc, client(i, c["ops"]), f"client{i}") for i, c in enumerate(sc["clients"])]
    for t in cl:
        w.join(t)
    if w.files(sc["backend"], root):
        sim.probe("evicted")

    def fin():
        c = w.call(st["w"].finalize)
        if not c.ok:
            w.fail("finalize-failed", f"{c!r}")

    w.join(w.client(proc, fin, "finalizer"))
    where = {}
    for name, records in w.data_blobs(sc["backend"], root):
        if records is None:
            w.fail("bad-blob", f"{name} is not readable")
        for r in records:
            if not isinstance(r, dict) or r.get("id") not in recs:
                w.fail("phantom", f"{r} in {name} was never appended")
            where.setdefault(r["id"], []).append((norm(os.path.dirname(name)), r))
    good_days = {}
    for rid, (src, bad, spans) in recs.items():
        fields = combos(sc["fields"], src)
        cands = []
        seen = set()
        instants = []
        if sc["fixed"]:
            instants = [datetime.datetime.fromisoformat(sc["fixed"])]
        else:
            for a, b in spans:
                a, b = min(a, b), max(a, b)
                t = a
                for _ in range(400):
                    instants.append(t)
                    t = (t + datetime.timedelta(seconds=1)).replace(microsecond=0)
                    if t >= b:
                        break
                instants.append(b)
        for t in instants:
            d = fill(DATE[sc["date"]], t)
            if d in seen:
                continue
            seen.add(d)
            exp = {norm("/".join(x for x in (ds, d, f, "BACKOUT" if bad else "") if x)) for f in fields}
            cands.append((exp, t))
        if len(seen) > 1:
            sim.probe("boundary")
            sim.probe("nontrivial")
        places = where.get(rid, [])
        got = [p for p, _ in places]
        match = [t for e, t in cands if sorted(got) == sorted(e)]
        if not match:
            cls = "misplaced"
            if len(got) != len(set(got)):
                cls = "duplicate"
            elif not got:
                cls = "lost"
            w.fail(cls, f"record {src} (schema {'failing' if bad else 'ok'}) is in {sorted(got)}, expected {[sorted(e) for e, _ in cands][:3]}")
        for p, r in places:
            if key(r) != key(src) and not (sc["format"] == "parquet" and key({**r}) == key({"m": None, **src})):
                w.fail("altered", f"stored {r}, appended {src}")
        if bad:
            sim.probe("backout")
            sim.probe("nontrivial")
        else:
            good_days.setdefault(match[0].date(), []).extend([src] * len(got))
        if len(got) > 1:
            sim.probe("fanout")
            sim.probe("nontrivial")
        if any(not set(str(v)) <= SAFE for f in ("k", "m") for v in (src.get(f) if isinstance(src.get(f), list) else [src.get(f)])):
            sim.probe("sanitized")
    # successive days must differ for the probe of boundaries crossed
    if len(good_days) > 1:
        sim.probe("nontrivial")
    # a reader of the days never sees BACKOUT, and sees everything else
    if sc["date"] in ("day", "short") and "by_" not in sc["fields"]:
        rp = w.proc("reader")
        days = set(good_days)
        for rid, (src, bad, spans) in recs.items():
            for a, b in spans:
                days |= {a.date(), b.date()}
        if sc["fixed"]:
            days = {datetime.datetime.fromisoformat(sc["fixed"]).date()}
        res = {}

        def rd():
            for d in sorted(days):
                res[d] = read_all(w, rp, sc["backend"], ds, partitions=[DATE[sc["date"]]], start_date=str(d), end_date=str(d))

        w.join(w.client(rp, rd, "reader"))
        total = []
        for d, c in res.items():
            if c.ok:
                total += c.value
            elif not iskind(c, "DataNotFoundError"):
                w.fail("read-failed", f"reading {d}: {c!r}")
        want = [src if sc["format"] != "parquet" else {"m": None, **src} for rs in good_days.values() for src in rs]
        got = sorted(keys_of(total))
        if got != sorted(keys_of(want)):
            w.fail("read-back", f"the Reader returned {diff(got, keys_of(want))}")
        sim.probe("read_back")
