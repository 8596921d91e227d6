"""C03: a quiet stream is flushed within its idle timeout without being asked."""

from dst.core import NS
from checks.common import *
from checks.stream import Driver, key_of

RUNS = {"quick": 1200, "thorough": 30000}
RULE = ("scenario: 1-4 client threads append to 1-14 partitions with pauses, some partitions kept busy; no finalize until after the checks; slow and failing storage "
        "and wall-clock steps. Non-trivial = a partition had to be flushed by the attendant, and a fault fired or another partition was busy at the time.")
PROBES = ["flushed_by_idleness", "fault_delayed_flush", "busy_beside_quiet", "clock_step", "lock_contended", "other_finalized", "beside_stuck", "backout"]
ASSUMPTIONS = ["scheduling allowance: 4 s plus the time slow storage operations took"]
SLACK = 4.0


def gen(rng, tier):
    nk = rng.choice([1, 2, 3, 6, 12])
    keys = [f"k{i}" for i in range(nk)]
    bad = rng.random() < 0.25
    if bad:
        keys += [k + "!" for k in keys if rng.random() < 0.6]
    idle = rng.choice([1, 2, 5, 10, 30, 30])
    clients = []
    for c in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 3, 8, 15])):
            x = rng.random()
            if x < 0.35:
                ops.append(["s", rng.choice([0.05, 0.1, 0.5, 1.0, idle * 0.5, idle - 0.05, idle + 0.05, idle + 1, idle * 2 + 5])])
            elif x < 0.4:
                ops.append(["j", rng.choice([-3600, 3600, -1, 86400, -86400 * 30])])
            else:
                ops.append(["a", rng.choice(keys), rng.choice([0, 10, 100])])
        clients.append({"ops": ops})
    if rng.random() < 0.5:
        # a partition that never goes quiet
        gap = rng.choice([0.05, 0.3, 0.9])
        clients.append({"ops": [["a", "busy", 0], ["s", gap]] * min(60, int((idle * 2 + 8) / gap))})
    backend = rng.choice(["store", "store", "disk"])
    faults = []
    if rng.random() < 0.5:
        faults = store_faults(rng, rng.choice([1, 2, 3]), span=6, maxtimes=5) if backend == "store" else disk_faults(rng, rng.choice([1, 2, 3]), span=8)
        for f in faults:
            if "delay_ns" in f:
                f["delay_ns"] = min(f["delay_ns"], 5 * NS)
    stuck = None
    if backend == "store" and rng.random() < 0.25:
        # one partition's folder refuses every write for as long as the stream runs
        stuck = rng.choice(keys).rstrip("!")
        faults.append({"site": f"put@/k={stuck}/", "kind": "before", "nth": 0, "times": 10**6, "exc": rng.choice(["StoreError", "OSError", "TimeoutError"])})
    cfg = swarm(rng, stall_p=0, step_cost_ns=rng.choice([0, 200, 2000]))
    return {"sim": cfg, "format": rng.choice(["jsonl", "jsonl", "zstd", "parquet"]), "blob_size": rng.choice([150, 10**6]),
            "capacity": rng.choice([1, 2, 5, 10, 50]), "idle": idle, "backend": backend, "clients": clients,
            "latency_ns": rng.choice([0, 0, 1_000_000, 100_000_000]), "faults": faults, "stuck": stuck, "schema": bad,
            "other": gen_other(rng) if rng.random() < 0.35 else None}


def gen_other(rng):
    """a second stream in the same process, with its own life"""
    return {"start": rng.choice([0, 0.1, 2]), "keys": rng.choice([0, 1, 3]), "pause": rng.choice([0, 0.05, 1, 7]), "drop": rng.random() < 0.3}


def directed():
    base = {"sim": {"stall_p": 0, "step_cost_ns": 200}, "format": "jsonl", "blob_size": 10**6, "capacity": 10, "idle": 5, "backend": "store",
            "latency_ns": 0, "faults": []}
    return [
        dict(base, clients=[{"ops": [["a", "x", 0]]}, {"ops": [["a", "busy", 0], ["s", 0.3]] * 45}]),
        dict(base, clients=[{"ops": [["a", "x", 0], ["a", "y", 0]]}], faults=[{"site": "put", "kind": "before", "nth": 0, "times": 3, "exc": "OSError"}]),
        dict(base, clients=[{"ops": [["a", "x", 0], ["j", -86400], ["a", "y", 0]]}]),
        dict(base, capacity=1, idle=30, clients=[{"ops": [["a", "x", 0], ["a", "y", 0], ["a", "z", 0], ["a", "x", 0]]}]),
        # another stream of the process starts, is finalized and thrown away meanwhile
        dict(base, clients=[{"ops": [["a", "x", 0], ["s", 2], ["a", "y", 0], ["s", 4], ["a", "z", 0]]}],
             other={"start": 0.1, "keys": 2, "pause": 1, "drop": True}),
        dict(base, idle=2, clients=[{"ops": [["s", 3], ["a", "x", 0]]}], other={"start": 0, "keys": 1, "pause": 0, "drop": False}),
        # a partition flushed once must be flushed again when it is used again
        dict(base, idle=1, clients=[{"ops": [["a", "x", 0], ["s", 8], ["a", "x", 0], ["s", 8], ["a", "x", 0]]}]),
        # records which break the schema
        dict(base, idle=2, schema=True, clients=[{"ops": [["a", "x!", 0], ["s", 1], ["a", "x", 0], ["s", 1.5], ["a", "x", 0], ["s", 7], ["a", "x!", 0], ["s", 1], ["a", "y!", 0], ["s", 6]]}]),
        dict(base, idle=2, format="parquet", clients=[{"ops": [["a", "x", 0], ["s", 1], ["a", "x!", 0], ["s", 1.5], ["a", "x!", 0], ["s", 7]]}]),
        # a partition that can't be stored doesn't hold up the others
        dict(base, idle=2, stuck="x", clients=[{"ops": [["a", "x", 0], ["a", "y", 0], ["s", 9], ["a", "x", 0], ["a", "z", 0], ["s", 9]]}],
             faults=[{"site": "put@/k=x/", "kind": "before", "nth": 0, "times": 10**6, "exc": "OSError"}]),
    ]


# listed in known_findings.txt: (scenario, class of the violation, what its message holds)
KNOWN = {
    "unfit": ({"sim": {"stall_p": 0, "step_cost_ns": 200, "preempt": 0, "tick_ns": 1, "oversleep_ns": 0}, "format": "parquet", "blob_size": 10**6, "capacity": 10, "idle": 2, "backend": "store",
               "latency_ns": 0, "faults": [], "clients": [{"ops": [["a", "x", 0], ["unfit", "x"]]}]}, "late-flush", r"record 1 \(k=x.* was committed never"),
}


def run(w, sc):
    sim = w.sim
    d = Driver(w, sc)
    d.setup()
    t_setup = sim.now
    busy_until = [0]

    def client(ci, ops):
        def body():
            for op in ops:
                if op[0] == "s":
                    w.sleep(op[1])
                elif op[0] == "j":
                    d.proc.skew += int(op[1] * NS)
                    sim.log("jump", ci, op[1])
                    sim.probe("clock_step")
                elif op[0] == "unfit":
                    # passes the schema, but Parquet has no place for it
                    w.call(d.writer.append, {**rec(10**6, op[1], 0), "id": 2**64})
                else:
                    c = d.append(ci, op[1], op[2])
                    if not c.ok and not sim.fault_fired:
                        w.fail("append-failed", f"append raised with a healthy store: {c!r}")
        return body

    def neighbour(o):
        d2 = Driver(w, dict(sc, idle=60), d.proc, "other")

        def body():
            w.sleep(o["start"])
            d2.make()
            for i in range(o["keys"]):
                d2.append("o", f"o{i}", 0)
                w.sleep(o["pause"])
            for _ in range(8):
                if d2.finalize().ok:
                    break
                w.sleep(0.5)
            sim.probe("other_finalized")
            if o["drop"]:
                d2.writer = None
                w.collect_garbage()
        return body

    cl = [w.client(d.proc, client(i, c["ops"]), f"client{i}") for i, c in enumerate(sc["clients"])]
    if sc.get("other"):
        cl.append(w.client(d.proc, neighbour(sc["other"]), "neighbour"))
    for i, t in enumerate(cl):
        if not w.join(t, 3600):
            w.fail("blocked", f"client {i} is still blocked after an hour: {t!r}")
    slow = sum(f.get("delay_ns", 0) * f.get("times", 1) for f in sc["faults"]) / NS + sc["latency_ns"] / NS * 60 + sc["sim"]["oversleep_ns"] / NS * 30
    allowance = sc["idle"] + SLACK + slow
    # faults are over: everything has to be flushed within the allowance
    sim.faults = []
    t_end = sim.now
    w.sleep(allowance + 0.5)
    horizon = sim.now
    commits = d.commits()
    when = {}
    for c in commits:
        for r in c["records"]:
            when.setdefault(r["id"], c["t1"])
    last_fault = max((h[1] for h in sim.history if h[2] == "fault"), default=None)
    slow_fault = any(f.get("kind") not in ("slow",) for f in sc["faults"]) and last_fault is not None
    if sc["backend"] == "store":
        # a partition waits for the errors of its own writes only
        folder_fault = {}
        for h in sim.history:
            if h[2] == "fault" and h[3] == "put" and "/k=" in h[5]:
                folder_fault[key_of(h[5])] = h[1]
    # a lost acknowledgement leaves the records stored although the commit raised
    stored = {}
    for name, records in w.data_blobs(sc["backend"], d.ds):
        if records is None:
            w.fail("bad-blob", f"{name} is not readable")
        for r in records:
            stored.setdefault(r["id"], name)
    by_key = {}
    for a in d.appends:
        by_key.setdefault(a["k"], []).append(a)
    for k, lst in by_key.items():
        lst.sort(key=lambda a: a["s1"] if a["s1"] is not None else 1 << 60)
        for i, a in enumerate(lst):
            if not a["ok"]:
                continue
            # the end of the stretch of use this append belongs to
            lf = (folder_fault.get(k) if sc["backend"] == "store" else last_fault) if slow_fault else None
            until = 0 if lf is None else lf + int((SLACK + slow) * NS)
            end = a["t1"]
            for b in lst[i + 1:]:
                if b["t0"] > max(end + allowance * NS, until):
                    break
                end = max(end, b["t1"])
            due = max(end + int(allowance * NS), until)
            if due > horizon:
                continue
            t = when.get(a["id"])
            if t is None and a["id"] in stored:
                continue
            if t is None or t > due:
                late = "never" if t is None else f"{(t - end) / NS:.2f} s after the partition's last use"
                w.fail("late-flush", f"record {a['id']} (k={k}, appended at {a['t1'] / NS:.2f} s) was committed {late}; idle timeout {sc['idle']} s, "
                                     f"allowance {allowance - sc['idle']:.2f} s")
            sim.probe("flushed_by_idleness")
            if sc.get("stuck") and k != sc["stuck"] and sc["stuck"] in folder_fault:
                sim.probe("beside_stuck")
            others = any(b["k"] != k and end < b["t0"] < due for b in d.appends)
            if others:
                sim.probe("busy_beside_quiet")
            if slow_fault:
                sim.probe("fault_delayed_flush")
            if others or sim.fault_fired:
                sim.probe("nontrivial")
    f = w.client(d.proc, d.finalize, "finalizer")
    if not w.join(f, 3600):
        w.fail("blocked", "finalize has not returned after an hour")
    if not f.result.ok:
        w.fail("finalize-failed", f"finalize raised with a healthy store: {f.result!r}")
