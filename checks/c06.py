"""C06: failed, empty or ignored batches never become visible."""

import datetime

from dst.core import NS
from checks.common import *

RUNS = {"quick": 2000, "thorough": 50000}
IMAGES = 5
NO_OPCODES = True  # CPython 3.12 can crash when a simulated crash unwinds code traced by opcode
RULE = ("scenario: a history of starts, appends, finalizes (with and without has_failure), crashes, abandonments, frame.ignore markers put and removed, and storage faults, over up to six "
        "batches, compared with a model after every step. Non-trivial = a batch that must stay invisible existed when a read was made.")
PROBES = ["expect_frame", "expect_none", "fall_back", "has_failure", "latched", "empty", "always_complete", "ignored", "unignored", "crash", "dropped", "storage_error", "retry_ok", "unsure", "refused", "shared_process", "frame_id", "failure_raised"]
ASSUMPTIONS = ["batches of one dataset begin in different wall-clock seconds",
               "a newest valid batch with no records may be reported as DataNotFoundError or as no records"]


def gen(rng, tier):
    nb = rng.choice([1, 2, 3, 4, 6])
    lives = []
    for b in range(nb):
        life = [["start", b, rng.random() < 0.3] + rng.choice([[], [], [], ["-1"], ["0"]])]
        n = rng.choice([0, 0, 1, 3, 8])
        kind = rng.choice(["ok", "ok", "ok", "fail", "fail-ok", "fail-fail-ok", "ok-ok", "drop", "crash", "abandon", "none"])
        if rng.random() < 0.25:
            life.append(["bad", b, rng.choice([1, 2, 5]), rng.randrange(4)])
        if n:
            life.append(["append", b, n, rng.choice([0, 10, 60])])
            if rng.random() < 0.15:
                life.append(["bad", b, 1, rng.randrange(4)])
        if kind == "ok":
            life.append(["finalize", b, False])
        elif kind == "ok-ok":
            life += [["finalize", b, False], ["finalize", b, False]]
        elif kind.startswith("fail"):
            life.append(["finalize", b, rng.choice([True, 1])])
            if rng.random() < 0.3 and n:
                life.append(["append", b, 2, 0])
            if kind == "fail-fail-ok":
                life.append(["finalize", b, True])
            if kind.endswith("ok"):
                life.append(["finalize", b, False])
        elif kind in ("drop", "crash"):
            life.append([kind, b])
        if rng.random() < 0.4:
            at = rng.randrange(1, len(life) + 1)
            life.insert(at, ["ignore", b])
            if rng.random() < 0.4:
                life.append(["unignore", b])
        lives.append(life)
    ops = []
    alive = [lf for lf in lives]
    overlap = rng.random() < 0.5
    while any(alive):
        cands = [lf for lf in alive if lf]
        lf = rng.choice(cands) if overlap else cands[0]
        ops.append(lf.pop(0))
    backend = rng.choice(["store", "disk", "gcs", "minio"])
    faults = []
    if rng.random() < 0.5:
        if backend == "disk":
            faults = disk_faults(rng, rng.choice([1, 1, 2]), span=10, crash=True)
        else:
            faults = store_faults(rng, rng.choice([1, 1, 2]), sites=("before", "after", "before", "crash_before", "crash_after"), span=10)
            if backend == "gcs":
                for f in faults:
                    f["exc"] = rng.choice(["Forbidden", "ValueError"])
    return {"sim": swarm(rng), "format": rng.choice(["jsonl", "zstd", "parquet"]), "blob_size": rng.choice([0, 40, 150, 10**6]), "backend": backend,
            "ops": ops, "faults": faults, "latency_ns": 0, "retry": rng.choice([0, 1, 3]), "schema": rng.random() < 0.4, "oneproc": rng.random() < 0.4, "readd": rng.random() < 0.5}


def directed():
    base = {"sim": {}, "format": "jsonl", "blob_size": 150, "backend": "store", "faults": [], "latency_ns": 0, "retry": 0, "readd": False, "schema": False, "oneproc": False}
    s = lambda b, ac=False, *more: ["start", b, ac, *more]
    a = lambda b, n=4: ["append", b, n, 10]
    f = lambda b, x=False: ["finalize", b, x]
    good = [s(0), a(0), f(0)]
    out = []
    for backend in ("store", "disk", "gcs", "minio"):
        out.append(dict(base, backend=backend, ops=good + [s(1, False, "-1"), a(1), s(2, False, "0"), a(2), f(2), ["ignore", 2], f(1), s(3, True, "0"), f(3, True), ["ignore", 1]]))
        out.append(dict(base, backend=backend, ops=good + [s(1), a(1), f(1, True), f(1), s(2), f(2), s(3, True), f(3), ["ignore", 3], ["ignore", 0], ["unignore", 0]]))
        for n in range(1, 5):
            site = {"site": "put", "kind": "before", "nth": 2 + n, "exc": "Forbidden"} if backend != "disk" else {"site": "disk.rename", "kind": "eio", "nth": 2 + n}
            out.append(dict(base, backend=backend, blob_size=40, ops=[s(0), a(0, 1), f(0), s(1), a(1, 6), f(1)], faults=[site]))
    out.append(dict(base, ops=good + [s(1, True), f(1, True), f(1)]))
    out.append(dict(base, oneproc=True, ops=[s(0), s(1), a(0), f(1, True), a(1), f(0), s(2, True), f(2), s(3), f(1), f(3), s(4), a(4), f(4)]))
    out.append(dict(base, ops=good + [s(1), a(1), f(1), ["ignore", 1], f(1)]))
    for fmt, schema in (("jsonl", True), ("jsonl", False), ("parquet", True), ("zstd", True)):
        for v in range(4):
            out.append(dict(base, format=fmt, schema=schema, ops=good + [s(1), ["bad", 1, 2, v], f(1), s(2), ["bad", 2, 1, v], a(2), f(2), s(3, True), ["bad", 3, 1, v], f(3)]))
    out.append(dict(base, ops=[s(0), a(0), s(1), a(1), f(1), f(0), ["ignore", 1]]))
    return out


class Batch:
    def __init__(self):
        self.proc = self.writer = self.folder = None
        self.records = []
        self.state = "open"  # open, valid, maybe
        self.failure = self.ignored = False
        self.exact = True
        self.order = None


def run(w, sc):
    sim = w.sim
    ds = rootdir(sc["backend"]) + "/ds"
    batches = {}
    order = []
    shared = []
    reader = w.proc("reader")
    ids = [0]

    def on(proc, fn):
        """run fn in the process; None if the process died"""
        t = w.client(proc, fn, f"op{len(proc.tasks)}")
        if not w.join(t, 36000):
            w.fail("blocked", f"{t!r} has not finished")
        return t.result

    def marker(b, put):
        name = f"{b.folder}/frame.ignore"
        w.put_file(sc["backend"], name) if put else w.del_file(sc["backend"], name)

    def start(op):
        b = Batch()
        b.proc = shared[0] if shared and not shared[0].dead else w.proc(f"b{op[1]}")
        if sc["oneproc"]:
            if shared and shared[0] is b.proc:
                sim.probe("shared_process")
            shared[:] = [b.proc]
        b.always = op[2]
        BatchWriter = b.proc.image.get("mabel.data.BatchWriter")
        w.sleep(1.01)
        frame = {}
        if op[3:] and order:
            # a frame id of the caller's: the last one's and more
            frame["frame_id"] = order[-1].folder + op[3]
            sim.probe("frame_id")

        def make():
            return w.call(lambda: BatchWriter(dataset=ds, **frame, format=sc["format"], schema=SCHEMA if sc["schema"] or sc["format"] == "parquet" else False, date="2024-03-01",
                                              inner_writer=w.writer_adapter(b.proc, sc["backend"]), blob_size=sc["blob_size"], always_complete=op[2],
                                              **w.extra(sc["backend"])))
        c = on(b.proc, make)
        if not c.ok:
            w.fail("start-failed", repr(c))
        b.writer = c.value
        b.folder = c.value.dataset.rstrip("/")
        b.order = len(order)
        order.append(b)
        batches[op[1]] = b

    def append(b, n, size):
        def body():
            for _ in range(n):
                ids[0] += 1
                r = rec(ids[0], f"b{b.order}", size)
                for attempt in range(1 + (4 if sc["readd"] else 0)):
                    c = w.call(b.writer.append, dict(r))
                    if c.ok:
                        b.records.append(r)
                        break
                    sim.probe("storage_error")
                    if not sim.fault_fired:
                        w.fail("append-failed", f"append raised with a healthy store: {c!r}")
        on(b.proc, body)

    def bad(b, n, variant):
        """records the writer has to refuse: of the wrong types when it has a schema, not serializable when it has not"""
        def body():
            for _ in range(n):
                if sc["schema"] or sc["format"] == "parquet":
                    r = [{"id": "one", "k": "bad", "p": ""}, {"id": 1, "k": 2, "p": "bad"}, {"id": None, "k": ["bad"], "p": ""}, {"id": {}, "k": "bad", "p": ""}][variant]
                else:
                    r = {"id": 1, "k": "bad", "p": [object(), {1, 2}, 1j, Ellipsis][variant]}
                c = w.call(b.writer.append, r)
                sim.probe("refused")
                if c.ok:
                    w.fail("accepted", f"append accepted {r}")
        on(b.proc, body)

    def finalize(b, flag):
        def body():
            res = None
            for attempt in range(1 + sc["retry"]):
                if sc["retry"] and attempt == sc["retry"]:
                    sim.faults = []
                c = w.call(b.writer.finalize, has_failure=flag) if flag else w.call(b.writer.finalize)
                sim.log("finalize", b.order, bool(flag), c.ok)
                res = c
                if c.ok:
                    if attempt:
                        sim.probe("retry_ok")
                    break
                sim.probe("storage_error")
                if not sim.fault_fired:
                    w.fail("finalize-failed", f"finalize raised with a healthy store: {c!r}")
            return res

        unsure = any(f["kind"] in ("after",) for f in sc["faults"])
        res = on(b.proc, body)
        visible_if_ok = not flag and not b.failure and (b.records or b.always)
        if flag:
            # whether or not what was left could be written
            b.failure = True
            sim.probe("has_failure")
            if res is not None and not res.ok:
                sim.probe("failure_raised")
        if res is None or not res.ok:
            if visible_if_ok and b.state == "open":
                b.state = "maybe"
                sim.probe("unsure")
        elif visible_if_ok:
            b.state = "valid"
            if not b.records:
                sim.probe("always_complete")
        elif not flag and b.failure:
            sim.probe("latched")
        elif not flag and not b.records:
            sim.probe("empty")
        if unsure:
            b.exact = False

    def judge(i, op):
        c = on(reader, lambda: read_all(w, reader, sc["backend"], ds, start_date="2024-03-01", end_date="2024-03-01"))
        okay, none_ok, hidden = [], True, False
        for b in reversed(order):
            if b.ignored or b.state == "open":
                hidden = hidden or bool(b.records)
                continue
            okay.append(b)
            if b.state == "valid":
                none_ok = not b.records
                break
        if any(not b.records for b in okay):
            none_ok = True
        when = f"after step {i} ({' '.join(map(str, op))})"
        if hidden:
            sim.probe("nontrivial")
        if not c.ok:
            if not iskind(c, "DataNotFoundError"):
                w.fail("read-failed", f"{when}: {c!r}")
            if not none_ok:
                w.fail("not-found", f"{when}: no data found although batch {okay[-1].order} is valid")
            sim.probe("expect_none")
            return
        got = keys_of(c.value)
        for b in okay:
            want = keys_of(b.records)
            if got == want or (not b.exact and want and set(got) == set(want) and len(got) >= len(want)):
                if got:
                    sim.probe("expect_frame")
                    if any(x.order > b.order for x in order):
                        sim.probe("fall_back")
                return
        if not got and none_ok:
            return
        names = {f"b{b.order}": b for b in order}
        seen = sorted({r["k"] for r in c.value})
        what = ", ".join(f"{k} ({names[k].state}{', failed' if names[k].failure else ''}{', ignored' if names[k].ignored else ''}, {len(names[k].records)} records)"
                         if k in names else k for k in seen)
        cls = "visible" if any(k in names and (names[k].state == "open" or names[k].ignored) for k in seen) else "wrong-batch"
        w.fail(cls, f"{when}: read {len(got)} records of {what}; acceptable: {[b.order for b in okay]}")

    for i, op in enumerate(sc["ops"]):
        sim.log("op", i, *map(str, op))
        if op[0] == "start":
            start(op)
        else:
            b = batches.get(op[1])
            if b is None:
                continue
            if op[0] == "ignore":
                marker(b, True)
                b.ignored = True
                sim.probe("ignored")
            elif op[0] == "unignore":
                marker(b, False)
                b.ignored = False
                sim.probe("unignored")
            elif b.proc.dead or b.writer is None:
                continue
            elif op[0] == "append":
                append(b, op[2], op[3])
            elif op[0] == "bad":
                bad(b, op[2], op[3])
            elif op[0] == "finalize":
                finalize(b, op[2])
            elif op[0] == "crash":
                sim.kill(b.proc)
            elif op[0] == "drop":
                def drop():
                    b.writer = None
                    w.collect_garbage()
                sim.probe("dropped")
                on(b.proc, drop)
            if b.proc.dead:
                sim.probe("crash")
        judge(i, op)
