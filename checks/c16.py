"""C16: what any adapter's writers store, its readers return: completely and once."""

import datetime

from checks.common import *

RUNS = {"quick": 800, "thorough": 30000}
IMAGES = 6
NO_OPCODES = True
RULE = ("scenario: one history of Writer, StreamWriter and BatchWriter sessions over datasets and days with awkward names, performed in parallel against the disk, Google and MinIO adapters "
        "(some writes failing and tried again), then read back by day, range, folder and piecewise by cursor through each. Non-trivial = a read that must return records of at least two sessions "
        "while other data is stored beside them.")
PROBES = ["writer", "stream", "stream_by", "batch", "batch_hours", "prefix_dataset", "nested_dataset", "case_dataset", "range", "raw_day", "raw_dataset", "short_dates", "resumed", "outside",
          "odd_value", "backout", "two_frames", "retried", "nothing", "parquet", "multi_blob", "hours_read", "midnight", "list_fault", "read_retried", "crowd", "way_legacy", "way_template", "way_raw", "read_template", "read_raw", "times"]
ASSUMPTIONS = ["a dataset keeps one layout (plain, by_ folders, frames) and one date template", "batches of a dataset start at least a second apart",
               "dataset names have no by_ or as_at_ folders and are not called BACKOUT", "a record written to several partitions is not generated (C01 covers it)"]
LAYOUTS = ["plain", "plain", "by", "frames", "hours"]
VALUES = ["a", "b", "ab", "A", "1", "12", "", "a b", "a/b", "é", None, True, 1, "BACKOUT", "NOBACKOUT1", "frame.complete", "as_at_20240301-000000", "by_k", "k=a", "..", "a\nb"]
NAMES = [["ds", "ds2", "ds_", "d"], ["ds", "ds/sub", "ds/su", "DS"], ["a b", "a", "a b c"], ["ds.v1", "ds.v2", "ds"], ["x/ds", "ds", "x/ds2"], ["dé", "d", "de"], ["year_2024", "2024", "month_03"],
         ["was_at_home", "was", "gas_at_x"], ["ds-1", "ds-", "ds"], ["ds", "dsyear_2024", "ds year"]]


def gen(rng, tier):
    names = rng.choice(NAMES)
    names = rng.sample(names, rng.choice([1, 2, len(names)]))
    base = rng.choice(["2024-03-01", "2024-02-28", "2023-12-30", "2024-12-31", "2024-03-09"])
    datasets = [{"name": n, "layout": rng.choice(LAYOUTS), "short": rng.random() < 0.2} for n in names]
    ops = []
    for _ in range(rng.choice([1, 2, 4, 6, 9])):
        d = rng.randrange(len(datasets))
        ops.append({"d": d, "day": rng.choice([0, 0, 1, 1, 2, 9, 10, 31]), "hour": rng.choice([0, 1, 2, 10, 12, 21, 23]), "n": rng.choice([1, 1, 2, 5, 12]), "format": rng.choice(["jsonl", "zstd", "parquet", "flat"]),
                    "blob": rng.choice([1, 60, 200, 10**6]), "size": rng.choice([0, 10, 50]), "values": [rng.randrange(len(VALUES)) for _ in range(rng.choice([1, 2, 3]))],
                    "bad": rng.random() < 0.15, "stream": rng.random() < 0.5, "now": rng.random() < 0.06, "date_as": rng.choice(["str", "date", "datetime"]), "wait": rng.choice([0, 0, 5, 60]),
                    "way": rng.choice(["partitions"] * 4 + ["legacy", "template", "raw"])})
    reads = []
    for _ in range(rng.choice([1, 2, 4])):
        a = rng.choice([0, 0, 1, 2, 9, 10, -1])
        reads.append({"d": rng.randrange(len(datasets)), "a": a, "b": max(a, rng.choice([0, 1, 2, 9, 10, 31, 40])), "how": rng.choice(["range", "range", "range", "raw_day", "raw", "cursor", "cursor"]),
                      "cut": [rng.choice([1, 2, 5, 9]) for _ in range(rng.choice([1, 2]))], "hour": rng.choice([0, 1, 10, 23]), "hours": rng.choice([0, 1, 3]), "day": rng.choice([0, 1, 2, 10]),
                      "date_as": rng.choice(["str", "date", "datetime"]), "way": rng.choice(["partitions"] * 4 + ["template", "raw"]),
                      "times": [rng.choice([0, 1, 12, 23]), rng.choice([0, 1, 12, 23])] if rng.random() < 0.3 else None})
    faults = []
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 2, 3])):
            faults.append(rng.choice([
                {"site": "put", "kind": "before", "nth": rng.randrange(12), "exc": "Forbidden"},
                {"site": "disk.write", "kind": "enospc", "nth": rng.randrange(8), "frac": rng.choice([0, 0.5])},
                {"site": "disk.rename", "kind": "eio", "nth": rng.randrange(8)},
                {"site": "list", "kind": "before", "nth": rng.randrange(8), "exc": "OSError"},
                {"site": "disk.scandir", "kind": "eio", "nth": rng.randrange(8)},
            ]))
    sim = swarm(rng)
    if rng.random() < 0.1:
        for o in ops:
            o["now"] = True
        sim["epoch_ns"] = (1_710_028_800 + 86400) * 10**9 - rng.choice([10**8, 10**9, 5 * 10**9, 70 * 10**9])
    return {"sim": sim, "datasets": datasets, "base": base, "ops": ops, "readers": reads, "faults": faults, "latency_ns": rng.choice([0, 0, 10**7])}


def directed():
    out = []
    op = lambda d=0, day=0, **kw: dict({"d": d, "day": day, "hour": 1, "n": 3, "format": "jsonl", "blob": 60, "size": 10, "values": [0, 1, 2], "bad": False, "stream": True, "now": False, "date_as": "str", "wait": 0}, **kw)
    rd = lambda d=0, a=0, b=0, how="range", **kw: dict({"d": d, "a": a, "b": b, "how": how, "cut": [2], "hour": 1, "hours": 1, "day": 0, "date_as": "str"}, **kw)
    base = {"sim": {}, "base": "2024-03-01", "faults": [], "latency_ns": 0}
    one = [{"name": "ds", "layout": "plain", "short": False}]
    # blobs of several megabytes, and of more than one block of any size it may be read in
    out.append(dict(base, sim={"opcodes": False, "preempt": 0}, datasets=one, ops=[op(n=2, size=5_600_000, blob=10**8), op(0, 1, n=3, size=70_001, blob=10**6, stream=False), op(0, 2, n=1, size=65_536)], readers=[rd(b=2)]))
    out.append(dict(base, datasets=one, ops=[op(0, x) for x in range(4)], readers=[rd(0, 0, 2, times=[13, 10]), rd(0, 0, 3, times=[23, 0], date_as="datetime"), rd(0, 1, 1, times=[23, 0])]))
    for layout in ("plain", "by", "frames", "hours"):
        ds = lambda *names, short=False: [{"name": n, "layout": layout, "short": short} for n in names]
        out.append(dict(base, datasets=ds("ds", "ds2", "ds/sub"), ops=[op(0, 0), op(1, 0), op(2, 0), op(0, 1), op(0, 10)], readers=[rd(), rd(1), rd(2), rd(0, 0, 1, "cursor"), rd(0, 1, 10), rd(0, 0, 0, "raw_day")]))
        out.append(dict(base, datasets=ds("ds.v1", "ds", short=True), ops=[op(0, 0), op(1, 0), op(0, 9), op(0, 31)], readers=[rd(), rd(0, 0, 31), rd(1, 0, 9), rd(0, 0, 0, "raw")]))
        out.append(dict(base, datasets=ds("a b", "a"), ops=[op(0, 0, format="parquet", bad=True), op(1, 0, hour=2), op(0, 0, hour=10, n=7), op(0, 0, hour=12)], readers=[rd(), rd(0, 0, 0, "cursor"), rd(1)]))
        for short in (False, True):
            out.append(dict(base, datasets=ds("ds", "ds2", short=short), ops=[op(0, 0, way=x, stream=st) for x in ("partitions", "legacy", "template", "raw") for st in (True, False)] + [op(1, 0)],
                            readers=[rd(way=x) for x in ("partitions", "template", "raw")] + [rd(1, way="template")]))
    # today, as it turns into tomorrow
    for before in (10**7, 10**8):
        out.append(dict(base, base="2024-03-10", sim={"epoch_ns": (1_710_028_800 + 86400) * 10**9 - before, "step_cost_ns": 2000}, latency_ns=10**7, datasets=[{"name": "ds", "layout": "plain", "short": False}],
                        ops=[op(now=True, blob=0, n=12, stream=x) for x in (True, False)], readers=[rd(0, 0, 1)]))
    # more blobs in a folder than the stores list in one page
    out.append(dict(base, sim={"max_steps": 20_000_000, "opcodes": False, "preempt": 0, "gc_mean": 0, "stall_p": 0, "step_cost_ns": 200}, datasets=[{"name": "ds", "layout": "frames", "short": False}], ops=[op(n=1010, blob=0, size=0), op(n=3)], readers=[rd()]))
    for layout in ("plain", "by", "frames"):
        out.append(dict(base, datasets=[{"name": n, "layout": layout, "short": False} for n in ("was_at_home", "was")], ops=[op(0, 0), op(1, 0), op(0, 1)], readers=[rd(), rd(1), rd(0, 0, 1, "cursor")]))
    out.append(dict(base, datasets=[{"name": "ds", "layout": "by", "short": False}], ops=[op(values=list(range(len(VALUES))), n=len(VALUES), blob=10**6)], readers=[rd(), rd(how="cursor", cut=[3, 5])]))
    return out


def run(w, sc):
    sim = w.sim
    base = datetime.datetime.fromisoformat(sc["base"])
    roots = {"disk": "data", "gcs": "gbucket", "minio": "mbucket"}
    results = {}
    odd = [False]

    def template(d):
        return "{yyyy}/{mm}/{dd}" if d["short"] else "year_{yyyy}/month_{mm}/day_{dd}"

    def adate(dt, kind, with_time=False):
        if kind == "date" and not with_time:
            return dt.date()
        if kind == "datetime" or with_time:
            return dt
        return f"{dt:%Y-%m-%d}"

    def history(backend, proc):
        """perform the operations; returns (sessions) each {d, day: date, hour, recs, frame}"""
        ids = 0
        sessions = []
        for oi, o in enumerate(sc["ops"]):
            d = sc["datasets"][o["d"]]
            ds = roots[backend] + "/" + d["name"]
            at = base + datetime.timedelta(days=o["day"], hours=o["hour"] if d["layout"] == "hours" else 0)
            now = o["now"] and d["layout"] in ("plain", "by")
            kw = dict(format=o["format"], schema=SCHEMA if o["format"] == "parquet" or o["bad"] else False, blob_size=o["blob"], inner_writer=w.writer_adapter(proc, backend), **w.extra(backend))
            recs, expect = [], []
            for j in range(o["n"]):
                ids += 1
                v = VALUES[o["values"][j % len(o["values"])]] if d["layout"] == "by" else "ab"[j % 2]
                if kw["schema"] and v is not None and not isinstance(v, str):
                    v = str(v)
                r = {"id": ids, "k": v, "p": "x" * o["size"]}
                if v not in ("a", "b", "ab"):
                    odd[0] = True
                recs.append(r)
            bad = o["bad"] and d["layout"] in ("plain", "by")
            if not now:
                kw["date"] = adate(at, o["date_as"], with_time=d["layout"] == "hours")
            parts = [template(d)]
            kind = "batch"
            cls = "BatchWriter"
            if d["layout"] == "plain":
                kind = "stream" if o["stream"] or bad else "writer"
                cls = "StreamWriter" if kind == "stream" else "Writer"
            elif d["layout"] == "by":
                kind, cls = "stream_by", "StreamWriter"
                parts = parts + ["by_k/k={k}"]
            elif d["layout"] == "hours":
                kind = "batch_hours"
                parts = parts + ["by_hour/hour={HH}"]
            if d["layout"] in ("frames", "hours"):
                w.sleep(1.1)
            sim.probe(kind)
            if o["format"] == "parquet":
                sim.probe("parquet")
            day0 = w.wall(proc).date()

            def attempt(fn, *a):
                for i in range(8):
                    c = w.call(fn, *a)
                    if c.ok:
                        if i:
                            sim.probe("retried")
                        return c.value
                    if not sim.fault_fired:
                        w.fail("write-failed", f"{backend}: {cls} {fn.__name__} raised with healthy storage: {c!r}")
                w.fail("write-failed", f"{backend}: {cls} {fn.__name__} still raises: {c!r}")

            W = proc.image.get("mabel.data." + cls)
            # the ways to say where the date goes
            way = o.get("way", "partitions")
            where = dict(dataset=ds, partitions=parts)
            if d["layout"] == "plain" and way != "partitions":
                sim.probe("way_" + way)
                if way == "legacy":
                    where = dict(dataset=ds + ("/{datefolders_short}" if d["short"] else "/{datefolders}"))
                elif way == "template":
                    where = dict(dataset=ds + "/" + parts[0], partitions=None)
                else:
                    where = dict(dataset=ds + "/" + parts[0], raw_path=True)
            wr = attempt(lambda: W(**where, **kw))
            for r in recs:
                if kind.startswith("stream"):
                    # an append to a stream that raises may have kept its record
                    c = w.call(wr.append, dict(r))
                    if c.ok:
                        expect.append((r, 1))
                    elif sim.fault_fired:
                        expect.append((r, 0))
                    else:
                        w.fail("write-failed", f"{backend}: StreamWriter append raised with healthy storage: {c!r}")
                else:
                    attempt(wr.append, dict(r))
                    expect.append((r, 1))
            if bad:
                c = w.call(wr.append, {"id": "bad", "k": 1, "p": [1]})
                sim.probe("backout")
            attempt(wr.finalize)
            day1 = w.wall(proc).date()
            days = {at.date()} if not now else {day0, day1}
            if len(days) > 1:
                sim.probe("midnight")
            sessions.append({"d": o["d"], "days": days, "hour": at.hour, "expect": expect, "kind": kind, "now": now, "n": oi})
            if o["wait"]:
                w.sleep(o["wait"])
        return sessions

    def live(sessions, d, lo, hi, hours=None):
        """sessions of a dataset whose records a read of [lo, hi] returns; None if it can't be told"""
        layout = sc["datasets"][d]["layout"]
        out = []
        latest = {}
        for s in sessions:
            if s["d"] != d:
                continue
            inside = [lo <= x <= hi for x in s["days"]]
            if any(inside) and not all(inside):
                return None
            if layout in ("frames", "hours"):
                day = min(s["days"])
                if not inside[0]:
                    continue
                k = (day, s["hour"]) if layout == "hours" else day
                if hours is not None and not (hours[0] <= datetime.datetime(day.year, day.month, day.day, s["hour"]) <= hours[1]):
                    continue
                if k in latest:
                    sim.probe("two_frames")
                latest[k] = s
            elif all(inside):
                out.append(s)
        return out + list(latest.values())

    def reads(backend, proc, sessions):
        answers = []
        today = w.wall(proc).date()
        for ri, r in enumerate(sc["readers"]):
            d = sc["datasets"][r["d"]]
            ds = roots[backend] + "/" + d["name"]
            lo, hi = base + datetime.timedelta(days=r["a"]), base + datetime.timedelta(days=r["b"])
            kw = {}
            hours = None
            how = r["how"]
            if how in ("raw_day", "raw"):
                other = [x["name"] for i, x in enumerate(sc["datasets"]) if i != r["d"] and x["name"].startswith(d["name"] + "/")]
                if how == "raw" and (d["layout"] != "plain" or other or "." in d["name"]):
                    how = "raw_day"
            if how == "raw":
                kw = {"raw_path": True} if ri % 2 else {"partitions": None}
                lo, hi = datetime.datetime(1, 1, 1), datetime.datetime(9999, 1, 1)
                sim.probe("raw_dataset")
            elif how == "raw_day":
                lo = hi = base + datetime.timedelta(days=r["day"])
                day = template(d).replace("{yyyy}", f"{lo.year}").replace("{mm}", f"{lo.month:02d}").replace("{dd}", f"{lo.day:02d}")
                ds = ds + "/" + day
                kw = {"raw_path": True} if ri % 2 else {"partitions": None}
                sim.probe("raw_day")
            else:
                kw["start_date"], kw["end_date"] = adate(lo, r["date_as"]), adate(hi, r["date_as"])
                if r.get("times"):
                    # from some time of the first day to an earlier or later one of the last
                    t0, t1 = r["times"] if lo != hi else sorted(r["times"])
                    kw["start_date"], kw["end_date"] = (x + datetime.timedelta(hours=t, minutes=5) for x, t in ((lo, t0), (hi, t1)))
                    if r["date_as"] == "str":
                        kw["start_date"], kw["end_date"] = f"{kw['start_date']:%Y-%m-%dT%H:%M}", f"{kw['end_date']:%Y-%m-%d %H:%M:%S}"
                    sim.probe("times")
                if d["layout"] == "hours" and r["hours"] == 3:
                    # by the hour
                    t0 = lo + datetime.timedelta(hours=r["hour"])
                    t1 = t0 + datetime.timedelta(hours=r["hours"] * 4)
                    kw["start_date"], kw["end_date"] = t0, t1
                    kw["partitions"] = [template(d), "by_hour/hour={HH}"]
                    hours = (t0, t1)
                    lo, hi = t0, t1
                    sim.probe("hours_read")
                elif d["short"]:
                    kw["partitions"] = [template(d)]
                    sim.probe("short_dates")
                if lo.date() != hi.date():
                    sim.probe("range")
                way = r.get("way", "partitions")
                if way != "partitions" and hours is None:
                    ds = ds + "/" + template(d)
                    kw.pop("partitions", None)
                    kw.update({"partitions": None} if way == "template" else {"raw_path": True})
                    sim.probe("read_" + way)
            want = live(sessions, r["d"], lo.date(), hi.date(), hours)
            if want is None:
                answers.append(None)
                continue

            def whole():
                if how != "cursor":
                    return read_all(w, proc, backend, ds, **kw)
                got, cur = [], None
                for cut in list(r["cut"]) + [1 << 30]:
                    c = w.call(lambda: open_reader(w, proc, backend, ds, cursor=cur, **kw))
                    if not c.ok:
                        return c
                    rd, n = c.value, 0
                    while n < cut:
                        c = w.call(next, rd)
                        if not c.ok:
                            if iskind(c, "StopIteration"):
                                cut = 1 << 31
                                break
                            return c
                        got.append(plain(c.value))
                        n += 1
                        cur = str(rd.cursor) if len(got) % 2 else rd.cursor.get()
                    if cut == 1 << 31:
                        break
                    sim.probe("resumed")
                c.ok, c.value = True, got
                return c

            for i in range(10):
                fired = sum(sim.fault_fired.values())
                c = whole()
                if c.ok or iskind(c, "DataNotFoundError") or sum(sim.fault_fired.values()) == fired:
                    break
                sim.probe("list_fault")
                if i:
                    sim.probe("read_retried")
            here = f"{backend}: {how} read of {d['name']} ({d['layout']}) {lo:%Y-%m-%d %H}..{hi:%Y-%m-%d %H}"
            must = [key(x) for s in want for x, sure in s["expect"] if sure]
            may = [key(x) for s in want for x, sure in s["expect"] if not sure]
            if not c.ok:
                if iskind(c, "DataNotFoundError"):
                    if must:
                        w.fail("not-found", f"{here}: no data found, {len(must)} records were written")
                    sim.probe("nothing")
                    answers.append([])
                    continue
                w.fail("read-failed", f"{here}: {c!r}")
            got = keys_of(c.value)
            from collections import Counter

            g, m = Counter(got), Counter(must)
            spare = g - m
            if (m - g) or (spare - Counter(may)):
                w.fail("differs", f"{here}: {diff(got, must)}")
            if len(want) >= 2 and len(sessions) > len(want):
                sim.probe("nontrivial")
            if len(sessions) > len(want):
                sim.probe("outside")
            answers.append(sorted(got))
        return answers

    def whole(backend):
        def body():
            proc = w.proc(backend)

            def go():
                s = history(backend, proc)
                return s, reads(backend, proc, s)
            t = w.client(proc, go, "main")
            if not w.join(t, 10**6):
                w.fail("blocked", f"{backend}: has not finished")
            results[backend] = t.result
        return body

    names = [d["name"] for d in sc["datasets"]]
    if any(a != b and b.startswith(a) and not b.startswith(a + "/") for a in names for b in names):
        sim.probe("prefix_dataset")
    if any(b.startswith(a + "/") for a in names for b in names):
        sim.probe("nested_dataset")
    if any(a != b and a.lower() == b.lower() for a in names for b in names):
        sim.probe("case_dataset")
    driver = w.proc("driver")
    ts = [w.client(driver, whole(b), b) for b in ("disk", "gcs", "minio")]
    for t in ts:
        w.join(t, 10**7)
    if odd[0]:
        sim.probe("odd_value")
    if len(w.files("gcs", "gbucket")) > 1000:
        sim.probe("crowd")
    if len(w.files("gcs", "gbucket")) > len(sc["ops"]) * 2:
        sim.probe("multi_blob")
    # one history, one answer
    if not sim.fault_fired and all(results.get(b) for b in roots):
        for i, r in enumerate(sc["readers"]):
            a = {b: results[b][1][i] for b in roots}
            if any(x is None for x in a.values()):
                continue
            for b in ("gcs", "minio"):
                if a[b] != a["disk"]:
                    w.fail("adapters-differ", f"read {i}: disk returned {len(a['disk'])} records, {b} {len(a[b])}: {diff(a[b], a['disk'])}")
