"""C24: a crash costs a stream only records not yet due to be flushed; restarting is safe."""

from dst import decode
from dst.core import NS
from checks.common import *

RUNS = {"quick": 1600, "thorough": 40000}
IMAGES = 6
NO_OPCODES = True
RULE = ("scenario: 1-2 processes stream to one dataset, crash at a step, at a storage operation or in the middle of a write, and start again, up to three times; storage fails or is slow meanwhile; the last life finalizes; "
        "what is stored is compared with what each life had accepted, committed and finalized, and a Reader reads it. Non-trivial = a process crashed with records accepted and not committed or while committing.")
PROBES = ["crash", "crash_in_commit", "pending_lost", "pending_kept", "due", "finalized_before", "restarted", "read_back", "torn", "two_processes", "backout"]
ASSUMPTIONS = ["processes crash, the operating system does not", "processes differ in process id or node", "allowance: 4 s plus the time storage was slow"]
PARTS = {"day": ["year_{yyyy}/month_{mm}/day_{dd}"], "k": ["year_{yyyy}/month_{mm}/day_{dd}", "by_k/k={k}"]}
SLACK = 4.0


def gen(rng, tier):
    idle = rng.choice([0.5, 1, 2, 5, 30])
    bad = rng.choice([[""], [""], [""], ["", "", "!"], ["!"]])
    workers = []
    for p in range(rng.choice([1, 1, 2])):
        lives = []
        for n in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 3, 8, 20])):
                x = rng.random()
                ops.append(["s", rng.choice([0.05, 0.3, 1.0, idle * 0.5, idle + 0.3, idle + 5])] if x < 0.3 else ["f"] if x < 0.34 else ["a", rng.choice("abcdefgh"[:rng.choice([1, 3, 8])]) + rng.choice(bad), rng.choice([0, 20, 100])])
            if rng.random() < 0.3 and idle < 30:
                # some partitions fall idle while others stay in use
                keys = rng.sample("abcdefgh", rng.choice([2, 3, 5]))
                kept = keys[:rng.choice([1, 1, 2])]
                ops = [["a", k, 20] for k in rng.sample(keys, len(keys))]
                step = rng.choice([0.2, 0.4, 0.8]) * min(idle, 2)
                for n in range(int((idle + rng.choice([0.5, 6, 9])) / step) + 1):
                    ops += [["s", step], ["a", kept[n % len(kept)], rng.choice([0, 20])]]
                ops = ops[:90]
            crash = None
            x = rng.random()
            if x < 0.55:
                crash = ["step", int(rng.choice([50, 300, 1000, 3000]) * (0.3 + rng.random()))]
            elif x < 0.7:
                crash = ["end", rng.choice([0, 0.05, idle, idle + 6])]
            lives.append({"ops": ops, "crash": crash})
        lives[-1]["crash"] = None
        workers.append({"lives": lives})
    backend = rng.choice(["store", "disk", "disk", "gcs", "minio"])
    faults = []
    if rng.random() < 0.6:
        if backend == "disk":
            faults = disk_faults(rng, rng.choice([1, 1, 2]), span=12, crash=True)
        else:
            faults = store_faults(rng, rng.choice([1, 1, 2]), sites=("before", "after", "slow", "crash_before", "crash_after"), span=8)
            for f in faults:
                if "delay_ns" in f:
                    f["delay_ns"] = min(f["delay_ns"], 5 * NS)
                if backend == "gcs" and "exc" in f:
                    f["exc"] = rng.choice(["Forbidden", "ValueError"])
    return {"sim": swarm(rng, stall_p=0, step_cost_ns=rng.choice([200, 2000, 20000])), "format": rng.choice(["jsonl", "zstd", "parquet"]), "blob_size": rng.choice([60, 400, 10**6]), "idle": idle, "parts": rng.choice(["day", "k"]), "schema": len(bad) > 1 or bad == ["!"],
            "capacity": rng.choice([1, 3, 10]), "backend": backend, "workers": workers, "latency_ns": rng.choice([0, 0, 1_000_000, 100_000_000]), "faults": faults}


def directed():
    base = {"sim": {"stall_p": 0}, "format": "jsonl", "blob_size": 10**6, "idle": 1, "parts": "k", "capacity": 5, "backend": "disk", "latency_ns": 0, "faults": []}
    a = lambda k, n=20: ["a", k, n]
    out = []
    for backend in ("disk", "store", "gcs", "minio"):
        b = dict(base, backend=backend)
        for quiet in ("abc", "cba", "bac"):
            # one partition stays in use, the others fall idle, and the process dies
            out.append(dict(b, capacity=9, workers=[{"lives": [{"ops": [a(k) for k in quiet] + [["s", 0.4], a("a")] * 20, "crash": ["end", 0]}, {"ops": [a("a")], "crash": None}]}]))
        # records which break the schema, due and not
        out.append(dict(b, schema=True, workers=[{"lives": [{"ops": [a("a!"), a("b"), a("b!"), ["s", 6], a("a!"), a("c")], "crash": ["end", 0.1]}, {"ops": [a("a!"), a("d")], "crash": None}]}]))
        out.append(dict(b, format="parquet", parts="day", workers=[{"lives": [{"ops": [a("a!"), ["s", 6], a("b"), ["f"], a("a!"), a("a")], "crash": ["end", 6]}, {"ops": [a("a!"), a("d")], "crash": None}]}]))
        # dies with records that were due, and with others that were not
        out.append(dict(b, workers=[{"lives": [{"ops": [a("a"), a("b"), ["s", 6], a("a"), a("c")], "crash": ["end", 0.1]}, {"ops": [a("a"), a("d")], "crash": None}]}]))
        out.append(dict(b, blob_size=60, workers=[{"lives": [{"ops": [a("a"), ["f"]] * 3, "crash": ["end", 0]}, {"ops": [a("a")] * 5, "crash": ["end", 6]}, {"ops": [a("b")], "crash": None}]}] * 2))
        for n in range(3):
            f = {"site": "disk.write", "kind": "torncrash", "nth": n, "frac": 0.6} if backend == "disk" else {"site": "put", "kind": ["crash_before", "crash_after"][n % 2], "nth": n}
            out.append(dict(b, blob_size=60, faults=[f], workers=[{"lives": [{"ops": [a("a"), a("b"), a("a"), ["s", 1.4], a("a")], "crash": ["end", 6]}, {"ops": [a("a"), a("b")], "crash": None}]}]))
    return out


def run(w, sc):
    sim = w.sim
    backend = sc["backend"]
    ds = rootdir(backend) + "/ds"
    ids = [0]
    lives = []
    slow = sum(f.get("delay_ns", 0) * f.get("times", 1) for f in sc["faults"]) / NS + sc["latency_ns"] / NS * 60 + sc["sim"].get("oversleep_ns", 0) / NS * 30
    allowance = sc["idle"] + SLACK + slow

    def open_(proc, life):
        life["writer"] = proc.image.get("mabel.data.StreamWriter")(
            dataset=ds, format=sc["format"], schema=SCHEMA if sc["format"] == "parquet" or sc.get("schema") else False, date="2024-03-01", inner_writer=w.recording_adapter(proc, backend),
            idle_timeout_seconds=sc["idle"], writer_pool_capacity=sc["capacity"], blob_size=sc["blob_size"], partitions=PARTS[sc["parts"]], **w.extra(backend))
        life["gen"] = []

    def finalize(life, last=False):
        for attempt in range(8):
            if last and attempt == 4:
                sim.faults = []
            c = w.call(life["writer"].finalize)
            sim.log("finalize", c.ok)
            if c.ok:
                break
            if not sim.fault_fired:
                w.fail("finalize-failed", f"finalize raised with a healthy store: {c!r}")
            w.sleep(0.3)
        else:
            if last:
                w.fail("finalize-never-succeeds", f"finalize still raises after the store recovered: {c!r}")
            return False
        for r in life["gen"]:
            r["fin"] = True
        return True

    def live(proc, life, last):
        def body():
            open_(proc, life)
            for op in life["ops"]:
                if op[0] == "s":
                    w.sleep(op[1])
                elif op[0] == "f":
                    if finalize(life):
                        open_(proc, life)
                    else:
                        life["left"] = True  # its attendant has stopped: only another finalize can store what it holds
                        if not finalize(life, last=True):
                            return
                        open_(proc, life)
                else:
                    ids[0] += 1
                    r = rec(ids[0], op[1].rstrip("!"), op[2])
                    if op[1].endswith("!"):
                        r["p"] = [r["p"]]  # breaks the schema
                        sim.probe("backout")
                    e = {"r": r, "part": (r["k"] if sc["parts"] == "k" else "") + op[1][1:], "t0": sim.now, "t1": None, "fin": False}
                    life["recs"].append(e)
                    life["gen"].append(e)
                    c = w.call(life["writer"].append, dict(r))
                    e["t1"] = sim.now
                    e["ok"] = c.ok
                    if not c.ok and not sim.fault_fired:
                        w.fail("append-failed", f"append raised with a healthy store: {c!r}")
            if life["crash"] and life["crash"][0] == "end":
                w.sleep(life["crash"][1])
                life["t"] = sim.now
                sim.kill(proc)
                w.sleep(0)
            elif last:
                finalize(life, last=True)
            elif not life["crash"]:
                finalize(life)
        return body

    def worker(wi, spec):
        def body():
            for n, l in enumerate(spec["lives"]):
                proc = w.proc(f"w{wi}.{n}")
                life = dict(l, recs=[], gen=[], proc=proc)
                lives.append(life)
                if n:
                    sim.probe("restarted")
                if l["crash"] and l["crash"][0] == "step":
                    sim.crash_at[sim.step + l["crash"][1]] = proc
                t = w.client(proc, live(proc, life, n == len(spec["lives"]) - 1), "main")
                t0 = sim.now
                if not w.join(t, 7200):
                    w.fail("blocked", f"life {n} of worker {wi} has not finished: {t!r}")
                if not proc.dead and l["crash"]:
                    sim.kill(proc)  # it came to the end before its time: it ends there
                life["died"] = proc.dead
                life["t"] = sim.now
                if proc.dead:
                    sim.probe("crash")
                w.sleep(0.2)
        return body

    ts = [w.client(sim.procs[0], worker(i, s), f"worker{i}") for i, s in enumerate(sc["workers"])]
    if len(ts) > 1:
        sim.probe("two_processes")
    for t in ts:
        if not w.join(t, 36000):
            w.fail("blocked", f"{t!r} has not finished")
    sim.faults = []
    # storage, each blob and the life that committed it
    known = {e["r"]["id"]: (li, e) for li, life in enumerate(lives) for e in life["recs"]}
    where = {}
    unacked = {p["name"] for p in w.store.puts if p["ack"] is None} if backend != "disk" else set()
    for name, data in w.files(backend, rootdir(backend)).items():
        if not decode.is_data(name) or name.rsplit("/", 1)[1].startswith("."):
            continue
        records = decode.decode(name, data)
        if records is None:
            w.fail("bad-blob", f"{name} ({len(data)} bytes) cannot be decoded")
        for r in records:
            if not isinstance(r, dict) or r.get("id") not in known or key(known[r["id"]][1]["r"]) != key(r):
                w.fail("phantom", f"{name} holds {str(r)[:200]}, which was not appended")
            where.setdefault(r["id"], []).append(name)
    contents = w.files(backend, rootdir(backend))
    for c in getattr(sim, "commits", []):
        if c["ok"]:
            name = w.full_name(backend, c["name"])
            if contents.get(name) != bytes(c["data"]):
                w.fail("overwritten", f"{name} was committed with {len(c['data'])} bytes and now {'is gone' if name not in contents else 'differs'}")
    busy = [f for f in sim.history if f[2] == "fault"]
    for li, life in enumerate(lives):
        pending = 0
        last_fault = max((h[1] for h in busy if h[1] <= life["t"]), default=None)
        lst = life["recs"]
        for i, e in enumerate(lst):
            rid = e["r"]["id"]
            here = where.get(rid, [])
            firm = [n for n in here if n not in unacked]
            if len(firm) > 1:
                w.fail("duplicate", f"record {rid} of life {li} is stored {len(firm)} times: {firm}")
            if here and sc["parts"] == "k" and any(f"/k={e['r']['k']}/" not in n for n in here):
                w.fail("misplaced", f"record {rid} with k={e['r']['k']} is stored in {here}")
            if any(("/BACKOUT/" in n) != isinstance(e["r"]["p"], list) for n in here):
                w.fail("misplaced", f"record {rid}, which {'breaks' if isinstance(e['r']['p'], list) else 'fits'} the schema, is stored in {here}")
            if not e.get("ok"):
                continue
            if e["fin"]:
                if life["died"]:
                    sim.probe("finalized_before")
                if not here:
                    w.fail("lost-finalized", f"record {rid} of life {li} is not stored although finalize returned")
                continue
            if here:
                continue
            pending += 1
            # not stored: was it due before the process died?
            end = e["t1"]
            for b in lst[i + 1:]:
                if b["part"] != e["part"]:
                    continue
                if b["t0"] - end > allowance * NS:
                    break
                end = max(end, b["t1"] if b["t1"] is not None else b["t0"])
            due = end + int(allowance * NS)
            if last_fault is not None:
                due = max(due, last_fault + int((SLACK + slow) * NS))
            if not life["died"]:
                if not life.get("left"):
                    if life["t"] > due:
                        w.fail("lost", f"record {rid} of life {li}, which did not crash, is not stored")
            elif life["t"] > due:
                w.fail("lost", f"record {rid} (accepted at {e['t1'] / NS:.2f} s) is not stored; its partition was last used at {end / NS:.2f} s and the process died at {life['t'] / NS:.2f} s; idle timeout {sc['idle']} s")
        if life["died"] and pending:
            sim.probe("pending_lost")
            sim.probe("nontrivial")
        if life["died"] and lst and not pending:
            sim.probe("pending_kept")
        if life["died"] and any(e.get("ok") and where.get(e["r"]["id"]) and not e["fin"] for e in lst):
            sim.probe("due")
    if any("crash" in k for k in sim.fault_fired):
        sim.probe("crash_in_commit")
        sim.probe("nontrivial")
    if any("torn" in k for k in sim.fault_fired):
        sim.probe("torn")
    # a Reader finds what is stored, once
    reader = w.proc("reader")
    t = w.client(reader, lambda: read_all(w, reader, backend, ds, start_date="2024-03-01", end_date="2024-03-01"), "main")
    w.join(t, 36000)
    c = t.result
    want = sorted(key(known[rid][1]["r"]) for rid, ns in where.items() for n in ns if "/BACKOUT/" not in n)
    if not c.ok:
        if want or not iskind(c, "DataNotFoundError"):
            w.fail("read-failed", repr(c))
    elif sorted(keys_of(c.value)) != want:
        w.fail("read-differs", f"the Reader returned {len(c.value)} records, {len(want)} are stored: {diff(sorted(keys_of(c.value)), want)}")
    else:
        sim.probe("read_back")
