"""C09: resuming a read from a cursor yields every record exactly once."""

import itertools

from dst.core import NS
from checks.common import *

RUNS = {"quick": 2000, "thorough": 50000}
IMAGES = 5
NO_OPCODES = True  # CPython 3.12 can crash when a simulated crash unwinds code traced by opcode
NO_GC = True  # a commit by __del__ inside another commit would be taken for that one
RULE = ("scenario: 1-20 blobs (some empty) over 1-3 days; a read is stopped, or its process killed, after given records and resumed in a new process from the last saved cursor, "
        "while writers add blobs that sort last; the pieces are compared with the whole. Non-trivial = resumed at least once with records on both sides.")
PROBES = ["resumed", "resumed_mid_blob", "resumed_at_blob_end", "grown", "empty_blob", "filtered", "killed", "as_json", "resumed_at_end", "resumed_at_start", "many_pieces", "alike", "several_by"]
ASSUMPTIONS = ["blobs added between the pieces sort after all existing ones", "the consumer keeps a record and the cursor after it together"]


def gen(rng, tier):
    nd = rng.choice([1, 1, 2, 3])
    blobs = []
    for i in range(rng.choice([1, 2, 3, 5, 8, 9, 16, 17, 20])):
        blobs.append({"day": rng.randrange(nd) + 1, "ext": rng.choice(["jsonl", "jsonl", "zstd", "parquet"]), "n": rng.choice([0, 1, 1, 2, 3, 7]), "k": rng.choice(["a", "b", "ab"])})
    stops = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        stops.append({"n": rng.choice([0, 0, 1, 1, 2, 3, 5, 10, 1000]), "mode": rng.choice(["dict", "json"]), "grow": rng.choice([0, 0, 0, 1, 3, 9]),
                      "kill": rng.random() < 0.2, "steps": rng.randrange(1, 1500)})
    return {"sim": swarm(rng), "blobs": blobs, "stops": stops, "days": list(range(1, nd + 1)), "backend": rng.choice(["store", "disk", "gcs", "minio"]),
            "filters": rng.choice([None, None, "expr", "dnf"]), "select": rng.random() < 0.2, "latency_ns": 0, "beside": rng.random() < 0.3, "alike": rng.random() < 0.5, "by": 0 if rng.random() < 0.8 else rng.choice([1, 2, 2, 3])}


def directed():
    base = {"sim": {}, "by": 0, "days": [1], "backend": "store", "filters": None, "select": False, "latency_ns": 0, "beside": False}
    b = lambda n, k="a", ext="jsonl", day=1: {"day": day, "ext": ext, "n": n, "k": k}
    s = lambda n, mode="dict", grow=0: {"n": n, "mode": mode, "grow": grow, "kill": False, "steps": 0}
    out = []
    for n in range(0, 8):
        out.append(dict(base, blobs=[b(3), b(0), b(1), b(3)], stops=[s(n)]))
    for nb in (1, 7, 8, 9, 16):
        out.append(dict(base, blobs=[b(2) for _ in range(nb)], stops=[s(nb, "json", 1), s(1, "dict", 9), s(1000, "json", 2)]))
    out.append(dict(base, days=[1, 2, 3], alike=True, blobs=[b(3, day=d) for d in (1, 2, 3)], stops=[s(1), s(4, "json"), s(1), s(1)]))
    for by in (1, 2, 3):
        # the same records in by_ sets, whichever of them is read the pieces have to be of the same one
        for n in (1, 4, 7):
            out.append(dict(base, by=by, days=[1, 2], blobs=[b(3), b(2), b(3, day=2), b(1, day=2)], stops=[s(n), s(1, "json"), s(1)]))
    out.append(dict(base, blobs=[b(3, "b"), b(3), b(2, "b"), b(3, "ab")], filters="expr", stops=[s(1), s(2), s(1)]))
    return out


def run(w, sc):
    sim = w.sim
    root = rootdir(sc["backend"])
    ds = root + "/ds"
    ids = [0]
    blobs = {}  # name -> records
    by = ["user", "hour", "zone"][:sc.get("by", 0)]
    sets = {dim: {} for dim in by}
    if len(by) > 1:
        sim.probe("several_by")

    def place(i, b, prefix):
        recs = []
        for j in range(b["n"]):
            ids[0] += 1
            k = b["k"] if b["k"] != "ab" else "ab"[j % 2]
            recs.append(rec(ids[0], k, 2))
        ext = b["ext"] if b["ext"] == "jsonl" else "jsonl." + b["ext"]
        if sc.get("alike"):
            # the same names in each day's folder
            i = sum(1 for n in blobs if f"/day_{b['day']:02d}/{prefix}" in n)
            sim.probe("alike")
        if by:
            for n, dim in enumerate(by):
                # in each of the sets the records are in another order
                name = f"{ds}/year_2024/month_03/day_{b['day']:02d}/by_{dim}/{dim}=1/{prefix}{i if n % 2 else 99 - i:04d}.{ext}"
                mine = recs[::-1] if n else recs
                sets[dim][name] = mine
                w.put_file(sc["backend"], name, encode(b["ext"], mine))
                blobs[name] = mine if n == 0 else []
            return
        name = f"{ds}/year_2024/month_03/day_{b['day']:02d}/{prefix}{i:04d}.{ext}"
        blobs[name] = recs
        w.put_file(sc["backend"], name, encode(b["ext"], recs))
        if not recs:
            sim.probe("empty_blob")

    for i, b in enumerate(sc["blobs"]):
        place(i, b, "0-")
    last_day = sc["days"][-1]
    beside = []
    adder = w.proc("writer")
    grown = [0]

    def grow(n):
        """a writer adds n blobs to the last day"""
        before = beside[-1] if beside else None

        def body():
            if before is not None:
                w.join(before, 36000)  # one writer at a time, else a blob could sort before one already read
            Writer = adder.image.get("mabel.data.Writer")
            for _ in range(n):
                wr = Writer(dataset=ds, format="jsonl", schema=False, date=f"2024-03-{last_day:02d}", inner_writer=w.recording_adapter(adder, sc["backend"]), **w.extra(sc["backend"]))
                recs = []
                for j in range(2):
                    ids[0] += 1
                    r = rec(ids[0], "ab"[j], 2)
                    recs.append(r)
                    wr.append(dict(r))
                wr.finalize()
                blobs[w.full_name(sc["backend"], [c for c in sim.commits if c["task"] == sim.current.name][-1]["name"])] = recs
                grown[0] += 1
        return w.client(adder, body, f"grow{len(adder.tasks)}")

    kw = {"start_date": "2024-03-01", "end_date": f"2024-03-{last_day:02d}"}
    if sc["filters"] == "expr":
        kw["filters"] = "k == 'a'"
    elif sc["filters"] == "dnf":
        kw["filters"] = [("k", "==", "a")]
    if sc["select"]:
        kw["select"] = "id, k"
    keep = lambda r: sc["filters"] is None or r["k"] == "a"

    def ident(r):
        return r["id"] if sc["select"] else key(r)

    def model(chosen=None):
        out = []
        if chosen:
            for day, dim in zip(sc["days"], chosen):
                for name in sorted(n for n in sets[dim] if f"/day_{day:02d}/" in n):
                    out += [r["id"] if sc["select"] else key(r) for r in sets[dim][name] if keep(r)]
            return out
        for name in sorted(blobs):
            out += [r["id"] if sc["select"] else key(r) for r in blobs[name] if keep(r)]
        return out

    if sc["filters"]:
        sim.probe("filtered")
    pieces = []
    saved = [None]

    def piece(pi, proc, limit, mode):
        """read up to `limit` records, saving each with the cursor after it"""
        def body():
            c = w.call(lambda: open_reader(w, proc, sc["backend"], ds, cursor=saved[0], **kw))
            if not c.ok:
                return c
            reader = c.value
            got = pieces[-1]
            while len(got) < limit:
                c = w.call(next, reader)
                if not c.ok:
                    if iskind(c, "StopIteration"):
                        sim.log("end", pi)
                        x = reader.cursor
                        if x is not None:
                            saved[0] = str(x) if mode == "json" else dict(x.get()) if hasattr(x, "get") and not isinstance(x, dict) else x
                        return None
                    return c
                r = plain(c.value)
                x = reader.cursor
                cur = str(x) if mode == "json" else x.get()
                # one step for the consumer: the record and its cursor
                got.append(ident(r))
                saved[0] = cur
                sim.log("rec", pi, len(got))
            return None
        return w.client(proc, body, "main")

    def judge(c, i):
        if c is None:
            return
        if iskind(c, "DataNotFoundError") and not model():
            return
        w.fail("read-failed", f"piece {i} (resumed from {saved[0]!r}): {c!r}")

    for i, s in enumerate(sc["stops"]):
        pieces.append([])
        proc = w.proc(f"r{i}")
        total = sum(map(len, pieces))
        if i:
            sim.probe("resumed")
            if total == 0:
                sim.probe("resumed_at_start")
        if s["kill"]:
            sim.crash_at[sim.step + s["steps"]] = proc
        if s["mode"] == "json":
            sim.probe("as_json")
        t = piece(i, proc, s["n"], s["mode"])
        if not w.join(t, 36000):
            w.fail("blocked", f"piece {i} has not finished")
        if proc.dead:
            sim.probe("killed")
        else:
            judge(t.result, i)
        if s["grow"] and not by:
            g = grow(s["grow"])
            if sc["beside"]:
                beside.append(g)
            else:
                w.join(g, 36000)
            sim.probe("grown")
    for g in beside:
        w.join(g, 36000)
    # where the last stop fell
    total = sum(map(len, pieces))
    m = model()
    ends, n = set(), 0
    for name in sorted(blobs):
        n += sum(1 for r in blobs[name] if keep(r))
        ends.add(n)
    sim.probe("resumed_at_end" if total == len(m) else "resumed_at_blob_end" if total in ends else "resumed_mid_blob")
    if 0 < total < len(m):
        sim.probe("nontrivial")
    if len(sc["stops"]) > 2:
        sim.probe("many_pieces")
    pieces.append([])
    proc = w.proc("rlast")
    at = saved[0]
    t = piece("last", proc, 1 << 30, "dict")
    if not w.join(t, 36000):
        w.fail("blocked", "the last piece has not finished")
    judge(t.result, "last")
    whole = w.client(w.proc("whole"), lambda: read_all(w, sim.current.proc, sc["backend"], ds, **kw), "main")
    w.join(whole, 36000)
    c = whole.result
    if not c.ok:
        if not (iskind(c, "DataNotFoundError") and not m):
            w.fail("read-failed", f"uninterrupted read: {c!r}")
        full = []
    else:
        full = [ident(r) for r in c.value]
    if by:
        # any one of the sets will do, for each of the days
        if full not in [model(chosen) for chosen in itertools.product(by, repeat=len(sc["days"]))]:
            w.fail("whole", f"the uninterrupted read is not of one by_ set a day: {[str(x) for x in full][:20]}")
        m = full
    if full != m:
        w.fail("whole", f"the uninterrupted read differs from what is stored: {diff([str(x) for x in full], [str(x) for x in m])}")
    got = [x for p in pieces for x in p]
    if got != m:
        w.fail("pieces", f"pieces of {[len(p) for p in pieces]} records (last resumed from {at!r}, {len(blobs)} blobs, {grown[0]} added) differ from the whole: "
                         f"{diff([str(x) for x in got], [str(x) for x in m])}")
