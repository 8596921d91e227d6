"""C23: calls on a stream always return, and a finalized stream leaves nothing running."""

from dst.core import NS
from checks.common import *

RUNS = {"quick": 1600, "thorough": 40000}
RULE = ("scenario: 1-3 threads open, feed, finalize (again if it raises), reuse the name of, drop and abandon several StreamWriters of one process, some records being refused, while storage is slow, fails or runs "
        "out of memory; every call is timed, and after each finalize threads, storage and memory of the stream are watched. Non-trivial = a call overlapped a call or commit of another stream, or a fault fired.")
PROBES = ["finalized", "refused", "fault", "append_raised", "finalize_raised", "overlap", "twice", "abandoned", "same_dataset", "collected", "idle_commit", "many", "backout", "may_end"]
ASSUMPTIONS = ["a stream is not used again once its finalize has returned", "allowance: 6 s plus the time storage was slow during the run"]
PARTS = {"day": ["day_{dd}"], "k": ["day_{dd}", "k={k}"]}


def gen(rng, tier):
    ns = rng.choice([1, 2, 2, 3, 6])
    streams = [{"idle": rng.choice([0.3, 1, 5, 60]), "capacity": rng.choice([1, 2, 5]), "blob": rng.choice([40, 200, 10**6]), "parts": rng.choice(["day", "k"]), "schema": rng.random() < 0.3,
                "name": rng.choice([f"ds{i}", "ds0"]), "format": rng.choice(["jsonl", "zstd", "parquet"])} for i in range(ns)]
    for s in streams:
        s["schema"] = s["schema"] or s["format"] == "parquet"
    clients = []
    for c in range(rng.choice([1, 2, 3])):
        mine = [i for i in range(ns) if i % 3 == c] or [rng.randrange(ns)]
        ops = []
        for i in mine:
            life = [["open", i]]
            for _ in range(rng.choice([0, 1, 4, 12, 25])):
                x = rng.random()
                life.append(["a", i, rng.choice("abcd"), rng.choice([0, 10, 100])] if x < 0.65 else ["s", rng.choice([0.05, 0.3, 1.2, 6])] if x < 0.85 else ["bad", i, rng.randrange(4)] if x < 0.97 else ["gc"])
            end = rng.random()
            if end < 0.7:
                life.append(["fin", i])
                if rng.random() < 0.3:
                    life.append(["fin", i])
                if rng.random() < 0.5:
                    life.append(["drop", i])
            elif end < 0.85:
                life.append(["drop", i])
            # lives of one client's streams are interleaved
            if ops and rng.random() < 0.6:
                merged, a, b = [], list(ops), list(life)
                while a or b:
                    src = a if a and (not b or rng.random() < 0.5) else b
                    merged.append(src.pop(0))
                ops = merged
            else:
                ops += life
        clients.append({"ops": ops})
    for c in range(rng.choice([0, 0, 1, 2])):
        i = rng.randrange(ns)
        clients.append({"ops": [["s", 0.01]] + [rng.choice([["a", i, rng.choice("abcd"), 20], ["s", 0.3]]) for _ in range(rng.choice([3, 10, 20]))]})
    backend = rng.choice(["store", "store", "disk"])
    faults = []
    if rng.random() < 0.6:
        faults = store_faults(rng, rng.choice([1, 2, 4]), span=8, maxtimes=6) if backend == "store" else disk_faults(rng, rng.choice([1, 2, 4]), span=10)
        for f in faults:
            if "delay_ns" in f:
                f["delay_ns"] = min(f["delay_ns"], 5 * NS)
            if backend == "store" and f["kind"] != "slow" and rng.random() < 0.3:
                f["exc"] = "MemoryError"
    return {"sim": swarm(rng, stall_p=0, step_cost_ns=rng.choice([0, 200, 2000])), "streams": streams, "clients": clients, "backend": backend, "faults": faults,
            "latency_ns": rng.choice([0, 0, 1_000_000, 100_000_000])}


def directed():
    s = lambda **kw: dict({"idle": 1, "capacity": 2, "blob": 10**6, "parts": "k", "schema": False, "name": "ds0", "format": "jsonl"}, **kw)
    base = {"sim": {"stall_p": 0, "step_cost_ns": 200}, "backend": "store", "faults": [], "latency_ns": 0}
    a = lambda i, k, n=0: ["a", i, k, n]
    out = []
    for backend in ("store", "disk"):
        # commits failing in append, in the attendant and in finalize, other streams have to go on
        site = {"site": "put", "kind": "before", "exc": "MemoryError"} if backend == "store" else {"site": "disk.write", "kind": "enospc", "frac": 0.5}
        for n in range(3):
            out.append(dict(base, backend=backend, streams=[s(blob=40), s(name="ds1")], faults=[dict(site, nth=n, times=2)],
                            clients=[{"ops": [["open", 0]] + [a(0, "a", 30)] * 4 + [["s", 2], ["fin", 0]]}, {"ops": [["open", 1], a(1, "a"), ["s", 1.3], a(1, "b"), ["s", 1.3], a(1, "c"), ["fin", 1]]}]))
    # a slow commit while others append and finalize
    out.append(dict(base, streams=[s(), s(name="ds1", parts="day"), s(name="ds2")], faults=[{"site": "put", "kind": "slow", "nth": 0, "times": 3, "delay_ns": 5 * NS}],
                    clients=[{"ops": [["open", 0], a(0, "a"), a(0, "b"), ["s", 1.2], a(0, "c"), ["fin", 0], ["fin", 0], ["drop", 0]]}, {"ops": [["open", 1]] + [a(1, "a"), ["s", 0.3]] * 6 + [["fin", 1], ["drop", 1], ["gc"]]},
                             {"ops": [["open", 2], a(2, "a"), ["drop", 2], ["gc"]]}]))
    # refused records
    for fmt, schema in (("jsonl", False), ("jsonl", True), ("parquet", True)):
        for parts in ("day", "k"):
            out.append(dict(base, streams=[s(format=fmt, schema=schema, parts=parts), s(name="ds1", format=fmt, schema=schema)],
                            clients=[{"ops": [["open", 0], a(0, "a")] + [["bad", 0, v] for v in range(4)] + [a(0, "b"), ["s", 1.3], a(0, "a"), ["bad", 0, 0], ["fin", 0]]}, {"ops": [["open", 1], a(1, "a"), ["s", 2], a(1, "b"), ["fin", 1]]}]))
    # many streams one after another
    out.append(dict(base, streams=[s(name=f"ds{i}") for i in range(8)], clients=[{"ops": [x for i in range(8) for x in (["open", i], a(i, "a"), ["fin", i], ["drop", i])]}]))
    return out


class Stream:
    def __init__(self, spec):
        self.spec = spec
        self.writer = None
        self.acked = []
        self.state = "open"


def run(w, sc):
    sim = w.sim
    backend = sc["backend"]
    proc = w.proc("app")
    SW = proc.image.get("mabel.data.StreamWriter")
    allowance = 6.0 + sum(f.get("delay_ns", 0) * f.get("times", 1) for f in sc["faults"]) / NS + sc["latency_ns"] / NS * 80 + sc["sim"].get("oversleep_ns", 0) / NS * 60
    streams = {}
    spans = []
    ids = [0]
    gone = []

    def timed(what, i, fn, *args):
        span = [i, sim.step, None]
        spans.append(span)
        t0 = sim.now
        sim.log(what, i)
        waiting[sim.current] = (what, i, t0)
        c = w.call(fn, *args)
        waiting.pop(sim.current, None)
        sim.log(what + ".", i, c.ok)
        span[2] = sim.step
        if sim.now - t0 > allowance * NS:
            w.fail("slow-call", f"{what} of stream {i} took {(sim.now - t0) / NS:.1f} s, storage was slow for {allowance - 6:.1f} s at most")
        if any(s[0] != i and (s[2] is None or s[2] > span[1]) for s in spans):
            sim.probe("overlap")
            sim.probe("nontrivial")
        if sim.fault_fired:
            sim.probe("fault")
            sim.probe("nontrivial")
        return c

    waiting = {}

    def usable(i):
        st = streams.get(i)
        return st if st is not None and st.state == "open" and st.writer is not None else None

    def bad(st, variant):
        if st.spec["schema"]:
            return [{"id": "one", "k": "a", "p": ""}, {"id": 1, "k": "a", "p": 2}, {"id": None, "k": "a"}, {"id": 1, "k": "a", "p": {"a": []}}][variant]
        return {"id": -1, "k": "a", "p": [object(), {1, 2}, 1j, Ellipsis][variant]}

    def client(ci, ops):
        def body():
            for op in ops:
                if op[0] == "s":
                    w.sleep(op[1])
                    continue
                if op[0] == "gc":
                    w.collect_garbage()
                    continue
                i = op[1]
                if i >= len(sc["streams"]):
                    continue
                spec = sc["streams"][i]
                if op[0] == "open":
                    if i in streams:
                        continue
                    st = Stream(spec)
                    if any(o.spec["name"] == spec["name"] for o in streams.values()):
                        sim.probe("same_dataset")
                    streams[i] = st
                    c = timed("open", i, lambda: SW(dataset=f"{rootdir(backend)}/{spec['name']}", format=spec["format"], schema=SCHEMA if spec["schema"] else False, date="2024-03-01",
                                                    inner_writer=w.writer_adapter(proc, backend), idle_timeout_seconds=spec["idle"], writer_pool_capacity=spec["capacity"], blob_size=spec["blob"],
                                                    partitions=PARTS[spec["parts"]], **w.extra(backend)))
                    if not c.ok:
                        w.fail("open-failed", repr(c))
                    st.writer = c.value
                    c.value = None
                    if len(streams) >= 4:
                        sim.probe("many")
                    continue
                st = usable(i)
                if op[0] == "a":
                    if st is None:
                        continue
                    ids[0] += 1
                    r = rec(ids[0], op[2], op[3])
                    st.using = getattr(st, "using", 0) + 1
                    c = timed("append", i, st.writer.append, dict(r))
                    st.using -= 1
                    if c.ok:
                        st.acked.append(r["id"])
                    else:
                        sim.probe("append_raised")
                        if not sim.fault_fired:
                            w.fail("append-failed", f"append raised with a healthy store: {c!r}")
                elif op[0] == "bad":
                    if st is None:
                        continue
                    sim.probe("refused")
                    st.using = getattr(st, "using", 0) + 1
                    c = timed("append", i, st.writer.append, bad(st, op[2]))
                    st.using -= 1
                    if c.ok and not st.spec["schema"]:
                        w.fail("accepted", "a record that cannot be serialized was accepted")
                    if c.ok:
                        sim.probe("backout")
                    elif st.spec["schema"] and not sim.fault_fired:
                        w.fail("append-failed", f"append of a record for BACKOUT raised with a healthy store: {c!r}")
                elif op[0] == "fin":
                    if st is None:
                        again = streams.get(i)
                        if again is not None and again.state == "finalized" and again.writer is not None:
                            sim.probe("twice")
                            before = len(files())
                            c = timed("finalize", i, again.writer.finalize)
                            if not c.ok and not sim.fault_fired:
                                w.fail("finalize-failed", f"a second finalize raised: {c!r}")
                        continue
                    st.state = "closing"
                    while getattr(st, "using", 0):
                        w.sleep(0.05)
                    for attempt in range(8):
                        if attempt == 4:
                            sim.faults = []
                        c = timed("finalize", i, st.writer.finalize)
                        if c.ok:
                            break
                        sim.probe("finalize_raised")
                        if not sim.fault_fired:
                            w.fail("finalize-failed", f"finalize raised with a healthy store: {c!r}")
                        w.sleep(0.3)
                    else:
                        w.fail("finalize-never-succeeds", f"finalize still raises after the store recovered: {c!r}")
                    st.state = "finalized"
                    st.at = sim.now
                    sim.probe("finalized")
                elif op[0] == "drop":
                    st = streams.get(i)
                    if st is None or st.writer is None or getattr(st, "using", 0) or st.state == "closing":
                        continue
                    if st.state == "open":
                        sim.probe("abandoned")
                        st.state = "abandoned"
                    st.writer = None
        return body

    def files():
        return [n for n in w.files(backend, rootdir(backend))]

    def mabel_threads():
        mine = set(ts)
        return [t for t in proc.tasks if t.state != "done" and t not in mine and t is not sim.current]

    ts = []
    for i, c in enumerate(sc["clients"]):
        ts.append(w.client(proc, client(i, c["ops"]), f"client{i}"))
    total = sum(op[1] for c in sc["clients"] for op in c["ops"] if op[0] == "s")
    calls = sum(len(c["ops"]) for c in sc["clients"]) * 8
    for t in ts:
        if not w.join(t, total + calls * allowance):
            x = waiting.get(t)
            w.fail("blocked", f"{x[0]} of stream {x[1]} has not returned after {(sim.now - x[2]) / NS:.0f} s" if x else f"{t!r} has not finished")
    sim.faults = []
    # abandoned streams and those left open flush what they hold by themselves
    w.sleep(max([s["idle"] for s in sc["streams"]]) + allowance)
    stored = {}
    for name, records in w.data_blobs(backend, rootdir(backend)):
        if records is None:
            w.fail("bad-blob", f"{name} is not readable")
        for r in records:
            stored[r.get("id")] = name
    for i, st in streams.items():
        lost = [x for x in st.acked if x not in stored]
        if lost:
            w.fail("lost", f"records {lost[:5]} of stream {i} ({st.state}) are not in storage {allowance:.0f} s after its idle timeout")
        if st.state != "finalized" and st.acked:
            sim.probe("idle_commit")
    live = mabel_threads()
    still = [i for i, st in streams.items() if st.state != "finalized"]
    if len(live) > len(still):
        w.fail("left-running", f"{len(live)} threads of mabel are running, {len(still)} of {len(streams)} streams have not been finalized: {[t.name for t in live][:6]}")
    # the interpreter waits for threads which aren't daemons when it ends (idle threads of executors are told to end)
    kept = [t for t in live if not t.daemon and not str(getattr(getattr(t.thread_obj, "_target", None), "__module__", "")).startswith("concurrent.")]
    if kept:
        w.fail("keeps-process", f"{len(kept)} threads of streams which have not been finalized keep their process from ending: {[t.name for t in kept][:6]}")
    if live:
        sim.probe("may_end")
    n = len(files())
    sim.probe("collected")
    w.join(w.client(proc, w.collect_garbage, "gc"))
    w.sleep(2.0)
    if len(files()) != n:
        w.fail("late-commit", f"{len(files()) - n} more files were written after every stream was flushed")
