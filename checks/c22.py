"""C22: reads in one process do not disturb one another."""

from checks.common import *
from checks.layout import Placed
from checks.layout import gen_folder

RUNS = {"quick": 2000, "thorough": 50000}
IMAGES = 3
NO_OPCODES = True
RULE = ("scenario: 1-4 datasets (several days, folders of loose blobs, frames in every state, by_ folders) and 2-9 Readers in one process, used by 1-3 threads in any interleaving: opened, advanced by some "
        "records, resumed from their cursor, dropped and begun again, with filters, selections, freshness limits and persistence, some of datasets that do not exist or whose blobs fail; each must return "
        "what it returns alone. Non-trivial = two Readers were in use at once and returned records.")
PROBES = ["interleaved", "threads", "same_dataset", "filtered", "selected", "resumed", "dropped", "fresh", "persisted", "missing", "failed_blob", "by", "frames", "override"]
ASSUMPTIONS = ["what is stored does not change while it is read", "a Reader is used by one thread at a time"]
FILTERS = [None, None, "k == 'a'", [("k", "==", "b")], "id > 6", [("id", "<=", 9)]]
SELECTS = [None, None, None, "id, k", "id"]


def keep(f):
    if f is None:
        return lambda r: True
    return {"k == 'a'": lambda r: r["k"] == "a", "id > 6": lambda r: r["id"] > 6}.get(f) if isinstance(f, str) else \
        (lambda r: r["k"] == "b") if f[0][0] == "k" else (lambda r: r["id"] <= 9)


def gen(rng, tier):
    datasets = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        days = {}
        for d in sorted(rng.sample(range(1, 6), rng.choice([1, 2, 3]))):
            f = gen_folder(rng, empty_blobs=False)
            days[str(d)] = {"by": [gen_folder(rng, empty_blobs=False) for _ in range(rng.choice([1, 2, 3]))]} if rng.random() < 0.25 else {"plain": f}
        datasets.append(days)
    hot = rng.random() < 0.25  # all on one small dataset at once
    if hot:
        few = [{"ext": rng.choice(["jsonl", "jsonl", "zstd", "parquet"]), "n": rng.choice([1, 3])} for _ in range(rng.choice([1, 1, 2]))]
        plain = {"blobs": few, "frames": [], "junk": []}
        framed = {"blobs": [], "frames": [{"at": 1, "state": "complete", "blobs": few, "junk": []}], "junk": []}
        datasets = [{"3": rng.choice([{"plain": plain}, {"plain": framed}, {"by": [rng.choice([plain, framed])]}])}]
    nt = rng.choice([2, 3]) if hot else rng.choice([1, 1, 2, 3])
    readers = []
    for i in range(rng.choice([2, 2, 3, 4, 6, 9])):
        d = rng.randrange(len(datasets))
        a, b = (3, 3) if hot else sorted([rng.randrange(1, 6), rng.randrange(1, 6)])
        fresh = rng.random() < 0.15
        flt, sel = rng.choice(FILTERS), rng.choice(SELECTS)
        if sel == "id" and flt is not None and "k" in json.dumps(flt):
            sel = "id, k"
        readers.append({"ds": d if rng.random() > 0.05 else -1, "from": a, "to": b, "fresh": fresh, "filter": flt, "select": sel, "override": rng.choice([None] * 8 + ["jsonl", ".zstd", "PARQUET"]), "persist": rng.choice([None] * 6 + ["MEMORY", "DISK", "COMPRESSED_MEMORY"]),
                        "thread": rng.randrange(nt)})
    clients = []
    for t in range(nt):
        mine = [i for i, r in enumerate(readers) if r["thread"] == t]
        ops = []
        for _ in range(rng.choice([3, 8, 20, 40]) if mine else 0):
            x = rng.random() if not hot else rng.choice([0.1, 0.92])
            i = rng.choice(mine)
            ops.append(["next", i, rng.choice([1, 1, 1, 2, 5])] if x < 0.8 else ["resume", i, rng.choice(["dict", "json"])] if x < 0.9 else ["drop", i] if x < 0.95 else ["gc"])
        clients.append({"ops": ops})
    bad = [[rng.randrange(len(datasets)), rng.randrange(12)] for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"sim": swarm(rng, preempt=rng.choice([0.03, 0.1, 0.3])) if hot else swarm(rng), "datasets": datasets, "readers": readers, "clients": clients, "bad": bad, "backend": rng.choice(["store", "disk", "gcs", "minio"]),
            "latency_ns": rng.choice([0, 0, 1_000_000, 50_000_000])}


def directed():
    bl = lambda n: {"ext": "jsonl", "n": n}
    plain = lambda *ns: {"plain": {"blobs": [bl(n) for n in ns], "frames": [], "junk": []}}
    fr = lambda *states: {"plain": {"blobs": [], "frames": [{"at": i, "state": s, "blobs": [bl(2), bl(3)], "junk": []} for i, s in enumerate(states)], "junk": []}}
    data = [{"1": plain(3, 4), "2": plain(2, 2), "4": plain(5)}, {"1": fr("complete", "incomplete"), "2": fr("complete", "complete", "ignored")}, {"2": plain(3), "3": plain(1, 1)}]
    r = lambda ds=0, a=1, b=5, **kw: dict({"ds": ds, "from": a, "to": b, "fresh": False, "filter": None, "select": None, "persist": None, "thread": 0}, **kw)
    base = {"sim": {}, "datasets": data, "bad": [], "latency_ns": 0}
    rr = lambda n, rounds=12: [["next", i, 1] for _ in range(rounds) for i in range(n)]
    out = []
    for backend in ("store", "disk", "gcs", "minio"):
        b = dict(base, backend=backend)
        for one in (plain(3), fr("complete")):
            out.append(dict(b, sim={"preempt": 0.2}, datasets=[{"1": one}], readers=[dict(r(0, 1, 1), thread=i) for i in range(3)],
                            clients=[{"ops": [["next", i, 9], ["drop", i]] * 6} for i in range(3)]))
        out.append(dict(b, readers=[r(), r(), r(filter="k == 'a'"), r(select="id")], clients=[{"ops": rr(4)}]))
        out.append(dict(b, readers=[r(0), r(1), r(2), r(0, 2, 2), r(-1)], clients=[{"ops": rr(5)}]))
        out.append(dict(b, readers=[r(0, 5, 5, fresh=True), r(0, 3, 3, fresh=True), r(1, 1, 4), r(2, 5, 5, fresh=True)], clients=[{"ops": rr(4)}]))
        out.append(dict(b, latency_ns=1_000_000, readers=[dict(r(i % 3), thread=i) for i in range(3)] + [dict(r(0, 1, 2, filter=[("k", "==", "b")]), thread=0)],
                        clients=[{"ops": [["next", 0, 2], ["next", 3, 1]] * 6}, {"ops": [["next", 1, 1]] * 9}, {"ops": [["next", 2, 1], ["resume", 2, "json"]] * 5}]))
        out.append(dict(b, readers=[r(), r(), r(0, 1, 2)], bad=[[0, 1], [1, 0]], clients=[{"ops": [["next", 0, 2], ["resume", 0, "dict"], ["next", 1, 3], ["drop", 1], ["gc"], ["next", 2, 1]] * 5}]))
        mixed = [{"1": {"plain": {"blobs": [dict(bl(3), ext=e) for e in ("jsonl", "zstd", "parquet")], "frames": [], "junk": []}}}]
        out.append(dict(b, datasets=mixed, readers=[r(), r(override="zstd"), r(override="jsonl"), r(override=".PARQUET"), r()], clients=[{"ops": rr(5)}]))
        out.append(dict(b, readers=[r(), r(1), r(2, persist="DISK"), r(0, persist="COMPRESSED_MEMORY"), r(0)], clients=[{"ops": rr(5)}]))
    return out


class Open:
    def __init__(self):
        self.ds = None
        self.got = []
        self.want = []
        self.ended = False


def run(w, sc):
    sim = w.sim
    backend = sc["backend"]
    proc = w.proc("app")
    root = rootdir(backend)
    ids = [0]
    places = []
    for i, days in enumerate(sc["datasets"]):
        ids[0] = 100 * i  # ids of datasets overlap in part
        ds = {}
        for d, spec in sorted(days.items()):
            folder = f"{root}/set{i}/year_2024/month_03/day_{int(d):02d}"
            if "by" in spec:
                sim.probe("by")
                ds[int(d)] = [Placed(w, backend, f"{folder}/by_k/k={j}", f, ids, stamp=f"202403{int(d):02d}-10{j}0") for j, f in enumerate(spec["by"])]
            else:
                if spec["plain"]["frames"]:
                    sim.probe("frames")
                ds[int(d)] = [Placed(w, backend, folder, spec["plain"], ids, stamp=f"202403{int(d):02d}-1000")]
        places.append(ds)
    broken = set()
    if backend != "disk":
        for i, n in sc["bad"]:
            names = sorted(x for ps in places[i % len(places)].values() for p in ps for x in p.expected())
            if names:
                name = names[n % len(names)]
                broken.add(name)
                sim.faults.append({"site": "get:" + name, "kind": "before", "nth": 0, "times": 1 << 30, "exc": "StoreError"})

    def visible(spec):
        """(blob names, records) of what the Reader returns; None: no data found"""
        if spec["ds"] < 0:
            return None
        ds = places[spec["ds"] % len(places)]
        data = {d: [(n, p.records[n]) for p in ps for n in p.expected()] for d, ps in ds.items()}
        if spec["fresh"]:
            for d in range(spec["to"], spec["to"] - 6, -1):
                if data.get(d):
                    return data[d]
            return None
        out = [x for d in sorted(data) if spec["from"] <= d <= spec["to"] for x in data[d]]
        return out or None

    def ident(spec, r):
        return json.dumps(r["id"]) if spec["select"] else key(r)

    def wanted(spec):
        v = visible(spec)
        if v is None:
            return None
        if any(n in broken for n, _ in v):
            sim.probe("failed_blob")
        f = keep(spec["filter"])
        # read as if they were of another format, blobs can't be
        ext = (spec.get("override") or "").lower().lstrip(".")
        if ext:
            sim.probe("override")
        return [ident(spec, r) for n, rs in sorted(v) if n not in broken and n.endswith(ext) for r in rs if f(r)]

    def start(spec, cursor=None):
        kw = {}
        a = spec["to"] if spec["fresh"] else spec["from"]
        if spec["fresh"]:
            kw["freshness_limit"] = "5d"
        if spec["filter"] is not None:
            # objects of its own: a later call may be given others at the same address
            kw["filters"] = [tuple(x) for x in spec["filter"]] if isinstance(spec["filter"], list) else " ".join(spec["filter"].split())
        if spec["select"]:
            kw["select"] = "".join(list(spec["select"]))
        if spec.get("override"):
            kw["override_format"] = spec["override"]
        if spec["persist"]:
            kw["persistence"] = getattr(proc.image.get("mabel.data.internals.dictset.STORAGE_CLASS"), spec["persist"])
        if cursor is not None:
            kw["cursor"] = cursor
        name = "nothing" if spec["ds"] < 0 else f"set{spec['ds'] % len(places)}"
        return open_reader(w, proc, backend, f"{root}/{name}", start_date=f"2024-03-{a:02d}", end_date=f"2024-03-{spec['to']:02d}", **kw)

    active = {}

    def label(i):
        s = sc["readers"][i]
        return f"reader {i} ({', '.join(f'{k}={v}' for k, v in s.items() if v not in (None, False))})"

    def failed(i, c):
        o = active[i]
        if iskind(c, "DataNotFoundError") and o.want is None:
            sim.probe("missing")
            del active[i]
            return
        w.fail("read-failed", f"{label(i)} raised after {len(o.got)} of {'no' if o.want is None else len(o.want)} records: {c!r}")

    def check(i, end=False):
        o = active[i]
        want = o.want or []
        if o.got != want[:len(o.got)] or (end and o.got != want):
            w.fail("differs", f"{label(i)}{', read to its end,' if end else ''} returned {len(o.got)} records; alone it returns {len(want)}: {diff(o.got, want if end else want[:len(o.got)], 3)[:500]}")
        if end and o.want is None:
            w.fail("invented", f"{label(i)} has no data to find but ended normally")

    def begin(i, cursor=None, got=()):
        spec = sc["readers"][i]
        o = active[i] = Open()
        o.want = wanted(spec)
        o.got = list(got)
        if len(active) > 1:
            sim.probe("interleaved")
            if any(j != i and sc["readers"][j]["ds"] == spec["ds"] for j in active):
                sim.probe("same_dataset")
        for k, p in (("filter", "filtered"), ("select", "selected"), ("fresh", "fresh"), ("persist", "persisted")):
            if spec[k]:
                sim.probe(p)
        c = w.call(start, spec, cursor)
        if not c.ok:
            failed(i, c)
            return
        o.ds = c.value
        if spec["persist"]:
            o.it = iter(o.ds)
        else:
            o.it = o.ds

    def advance(i, n):
        o = active.get(i)
        if o is None or o.ended:
            return
        for _ in range(n):
            c = w.call(next, o.it)
            if not c.ok:
                if iskind(c, "StopIteration"):
                    o.ended = True
                    check(i, end=True)
                else:
                    failed(i, c)
                return
            o.got.append(ident(sc["readers"][i], plain(c.value)))
            check(i)
            if len(active) > 1:
                sim.probe("nontrivial")

    def client(ti, ops):
        def body():
            for op in ops:
                sim.log("op", ti, *map(str, op))
                if op[0] == "gc":
                    w.collect_garbage()
                    continue
                i = op[1]
                if i >= len(sc["readers"]) or sc["readers"][i]["thread"] % len(sc["clients"]) != ti:
                    continue
                if op[0] == "drop":
                    if i in active:
                        sim.probe("dropped")
                        del active[i]
                elif op[0] == "next":
                    if i not in active:
                        begin(i)
                    advance(i, op[2])
                else:
                    o = active.get(i)
                    spec = sc["readers"][i]
                    if o is None or o.ended or spec["persist"] or spec["fresh"] or not o.got or o.want is None:
                        continue
                    cur = o.ds.cursor
                    if not isinstance(cur, (str, dict)):  # what it was given, when it has read nothing yet
                        cur = str(cur) if op[2] == "json" else cur.get()
                    sim.probe("resumed")
                    begin(i, cur, o.got)
            for i, r in enumerate(sc["readers"]):
                if r["thread"] % len(sc["clients"]) == ti:
                    if i not in active:
                        begin(i)
                    advance(i, 1 << 30)
        return body

    if len(sc["clients"]) > 1:
        sim.probe("threads")
    ts = [w.client(proc, client(i, c["ops"]), f"t{i}") for i, c in enumerate(sc["clients"])]
    for t in ts:
        if not w.join(t, 36000):
            w.fail("blocked", f"{t!r} has not finished")
