"""C14: DatabaseWriter hands over every record once, in order, and finalizes once done."""

from dst.core import NS
from checks.common import *

RUNS = {"quick": 2400, "thorough": 60000}
IMAGES = 3
RULE = ("scenario: 1-3 DatabaseWriters in their own threads, each appending 0-430 records (some invalid) with commits and finalizes of its adapter that are slow, fail before or after taking the batch, or run out of memory, "
        "finalize and append repeated afterwards, the writer dropped; what the adapter took is compared with what was accepted. Non-trivial = a batch boundary or a fault.")
PROBES = ["batch", "commit_failed", "commit_failed_after", "append_raised", "finalize_raised", "finalize_ok", "adapter_finalize_failed", "retried", "append_after_finalize", "dropped", "dropped_unfinalized",
          "rejected", "slow", "several_writers", "empty", "finalized_twice", "model", "kept"]
ASSUMPTIONS = ["one thread uses a DatabaseWriter at a time", "the record of an append that raised because its adapter failed may be delivered later, in its position"]
STUBS = "scheduler, clock, the database adapter (records what it is given)"


def gen(rng, tier):
    writers = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            ops.append(["append", rng.choice([0, 1, 5, 50, 98, 99, 100, 101, 102, 199, 200, 201, 230])])
            if rng.random() < 0.2:
                ops.append(["bad", rng.choice([1, 2])])
            if rng.random() < 0.3:
                ops.append(["finalize", rng.choice([0, 1, 3])])
        if rng.random() < 0.85:
            ops.append(["finalize", rng.choice([0, 2, 6])])
        if rng.random() < 0.3:
            ops.append(["finalize", 1])
        if rng.random() < 0.5:
            ops.append(["drop"])
        faults = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            faults.append({"on": rng.choice(["commit", "commit", "commit", "finalize"]), "nth": rng.randrange(7), "times": rng.choice([1, 1, 2, 4]),
                           "kind": rng.choice(["before", "before", "after", "slow"]), "exc": rng.choice(["ValueError", "OSError", "MemoryError", "StoreError"]), "delay": rng.choice([0.1, 9, 11, 40])})
        writers.append({"ops": ops, "events": faults, "reuse": rng.random() < 0.4, "own_finalizer": rng.random() < 0.3, "model": rng.choice([None, None, "v1", "v2", "both"]), "keeps": rng.random() < 0.4})
    return {"sim": swarm(rng), "writers": writers, "latency_ns": 0}


def directed():
    out = []
    w_ = lambda ops, faults=(), model=None: {"ops": ops, "events": list(faults), "reuse": False, "own_finalizer": False, "model": model, "keeps": True}
    f = lambda n, kind="before", on="commit", times=1: {"on": on, "nth": n, "times": times, "kind": kind, "exc": "ValueError", "delay": 11}
    base = {"sim": {}, "latency_ns": 0}
    for n in (99, 100, 101, 200, 205):
        out.append(dict(base, writers=[w_([["append", n], ["finalize", 0], ["drop"]])]))
        out.append(dict(base, writers=[w_([["append", n], ["append", 3], ["finalize", 3], ["drop"]], [f(0)])]))
        out.append(dict(base, writers=[w_([["append", n], ["append", 3], ["finalize", 3], ["drop"]], [f(1, "after")])]))
    out.append(dict(base, writers=[w_([["append", 150], ["finalize", 3]], [f(0, on="finalize")])]))
    out.append(dict(base, writers=[w_([["append", 205], ["finalize", 0]], [f(0, "slow", times=4)]) for _ in range(3)]))
    out.append(dict(base, writers=[w_([["append", 150], ["drop"]], [f(1)])]))
    out.append(dict(base, writers=[w_([["append", 130], ["bad", 1], ["append", 4], ["finalize", 0]], (), m) for m in ("v1", "v2", "both")]))
    return out


class Adapter:
    """what the database has seen of one DatabaseWriter"""

    def __init__(self):
        self.events = []  # (kind, ids, ok)
        self.rows = []  # taken in batches that succeeded
        self.counts = {}
        self.problem = None
        self.kept = []  # batches taken, to be written later


def run(w, sc):
    sim = w.sim
    proc = w.proc("p")
    Base = proc.image.get("mabel.adapters.database.base_database_writer.BaseDatabaseWriter")
    DatabaseWriter = proc.image.get("mabel.data.writers.database_writer.DatabaseWriter")
    errors = {"ValueError": ValueError, "OSError": OSError, "MemoryError": MemoryError, "StoreError": RuntimeError}
    if len(sc["writers"]) > 1:
        sim.probe("several_writers")

    def one(wi, spec):
        ad = Adapter()
        accepted = []  # [id, record, "ok" or "raised"] in order
        state = {"faults": True}

        def fault(on):
            n = ad.counts.get(on, 0)
            ad.counts[on] = n + 1
            if not state["faults"]:
                return None
            for f in spec["events"]:
                if f["on"] == on and f["nth"] <= n < f["nth"] + f["times"]:
                    k = f"db.{on}:{f['kind']}"
                    sim.fault_fired[k] = sim.fault_fired.get(k, 0) + 1
                    sim.log("fault", on, f["kind"], wi)
                    return f
            return None

        def undelivered():
            have = {i for i, r in ad.rows}
            return [a[0] for a in accepted if a[2] == "ok" and a[0] not in have]

        def contents(dataframe):
            rows = []
            for row in dataframe:
                d = row.as_dict if not callable(row.as_dict) else row.as_dict()
                rows.append((d.get("id"), key(d)))
            return rows

        class Recorder(Base):
            def commit(self, dataframe):
                rows = contents(dataframe)
                sim.log("db.commit", wi, len(rows))
                sim.io_point("db.commit")
                f = fault("commit")
                if f and f["kind"] == "slow":
                    sim.probe("slow")
                    w.sleep(f["delay"])
                if f and f["kind"] in ("before", "after"):
                    ad.events.append(("commit", [i for i, _ in rows], False))
                    sim.probe("commit_failed" if f["kind"] == "before" else "commit_failed_after")
                    raise errors[f["exc"]]("injected")
                sim.io_point("db.commit.")
                ad.events.append(("commit", [i for i, _ in rows], True))
                ad.rows.extend(rows)
                if spec.get("keeps"):
                    ad.kept.append((dataframe, rows))
                sim.probe("batch")

            def finalize(self):
                left = undelivered()
                sim.log("db.finalize", wi, len(left))
                ad.events.append(("finalize", left, True))
                if left:
                    ad.problem = ad.problem or f"the adapter's finalize was called with {len(left)} accepted records not delivered: {left[:10]}"
                f = fault("finalize")
                if f and f["kind"] == "slow":
                    w.sleep(f["delay"])
                if f and f["kind"] in ("before", "after"):
                    sim.probe("adapter_finalize_failed")
                    ad.events[-1] = ("finalize", left, False)
                    raise errors[f["exc"]]("injected")
                super().finalize()

        who = f"writer {wi}: "

        def judge(when, complete):
            """compare what the adapter took with what was accepted"""
            for frame, rows in ad.kept:
                # an adapter may write what it was given later
                sim.probe("kept")
                if contents(frame) != rows:
                    w.fail("taken-back", f"{who}{when}: a batch of {len(rows)} records the adapter took has {len(contents(frame))} now")
            if ad.problem:
                w.fail("finalized-early", f"{who}{when}: {ad.problem}")
            got = list(ad.rows)
            pos = 0
            for i, r, how in accepted:
                if pos < len(got) and got[pos] == (i, r):
                    pos += 1
                elif how == "ok":
                    if pos == len(got) and not complete:
                        return
                    ids = [x for x, _ in got]
                    cls = "lost" if i not in ids else "repeated" if len(set(ids)) != len(ids) else "altered" if pos < len(got) and got[pos][0] == i else "reordered"
                    w.fail(cls, f"{who}{when}: record {i} was expected at position {pos}, the adapter took {ids[max(0, pos - 3): pos + 5]} there ({len(ids)} in all, {len(accepted)} appended)")
            if pos != len(got):
                ids = [x for x, _ in got]
                w.fail("repeated" if len(set(ids)) != len(ids) else "invented", f"{who}{when}: the adapter took {len(got) - pos} more records than were accepted, from {ids[pos: pos + 5]}")

        def body():
            c = w.call(lambda: DatabaseWriter(schema=SCHEMA, inner_writer=Recorder, dataset=f"db{wi}", engine=None, finalizer=(lambda x: None) if spec["own_finalizer"] else None))
            if not c.ok:
                w.fail("start-failed", repr(c))
            wr = c.value
            c = None
            n = 0
            finalized = dropped = False
            shared = {}
            for op in spec["ops"]:
                if op[0] == "append":
                    for _ in range(op[1]):
                        n += 1
                        i = wi * 10000 + n
                        r = rec(i, "ab"[n % 2], n % 3)
                        if spec.get("model"):
                            given = MODELS[spec["model"]](r)
                            sim.probe("model")
                        elif spec["reuse"]:
                            shared.update(r)
                            given = shared
                        else:
                            given = dict(r)
                        # in the list before the call, as the adapter may be handed it during the call
                        accepted.append([i, key(r), "trying"])
                        failed = sum(1 for e in ad.events if not e[2])
                        c = w.call(wr.append, given)
                        if c.ok:
                            accepted[-1][2] = "ok"
                            if finalized:
                                sim.probe("append_after_finalize")
                        else:
                            accepted[-1][2] = "raised"
                            sim.probe("append_raised")
                            if failed == sum(1 for e in ad.events if not e[2]):
                                w.fail("append-failed", f"{who}append raised although no commit failed: {c!r}")
                        if c.ok and failed != sum(1 for e in ad.events if not e[2]):
                            w.fail("error-hidden", f"{who}a commit failed and append returned normally")
                        finalized = False
                        c = None
                    judge("after appends", False)
                elif op[0] == "bad":
                    for _ in range(op[1]):
                        c = w.call(wr.append, {"id": "not a number", "k": 5, "p": None})
                        if not c.ok:
                            sim.probe("rejected")
                        else:
                            w.fail("accepted-invalid", f"{who}a record that does not fit the schema was accepted")
                        c = None
                elif op[0] == "finalize":
                    for attempt in range(1 + op[1]):
                        if op[1] and attempt == op[1]:
                            state["faults"] = False
                        bad = [e for e in ad.events if e[0] == "commit" and not e[2]]
                        fin = ad.counts.get("finalize", 0)
                        c = w.call(wr.finalize)
                        if c.ok:
                            if attempt:
                                sim.probe("retried")
                            sim.probe("finalize_ok")
                            if not accepted:
                                sim.probe("empty")
                            if finalized:
                                sim.probe("finalized_twice")
                            finalized = True
                            if len([e for e in ad.events if e[0] == "commit" and not e[2]]) != len(bad):
                                w.fail("error-hidden", f"{who}a commit failed and finalize returned normally")
                            if ad.events and ad.events[-1][0] == "finalize" and not ad.events[-1][2]:
                                w.fail("error-hidden", f"{who}the adapter's finalize raised and finalize returned normally")
                            if ad.counts.get("finalize", 0) == 0:
                                w.fail("not-finalized", f"{who}finalize returned and the adapter's finalize was not called")
                            judge("after finalize", True)
                            c = None
                            break
                        sim.probe("finalize_raised")
                        if len([e for e in ad.events if e[0] == "commit" and not e[2]]) == len(bad) and not any(f["on"] == "finalize" for f in spec["events"]):
                            w.fail("finalize-failed", f"{who}finalize raised although nothing failed: {c!r}")
                        c = None
                        judge("after a failed finalize", False)
                elif op[0] == "drop":
                    sim.probe("dropped" if finalized else "dropped_unfinalized")
                    x = w.call(lambda: None)
                    wr = x = None
                    w.collect_garbage()
                    judge("after the writer was dropped", finalized)
                    return
            judge("at the end", finalized)
            # keep the writer until here: nothing of it may run later
            wr = None
            w.collect_garbage()
            judge("when the writer was gone", finalized)
        return w.client(proc, body, f"w{wi}")

    tasks = [one(i, s) for i, s in enumerate(sc["writers"])]
    for t in tasks:
        if not w.join(t, 36000):
            w.fail("blocked", f"{t!r} has not finished")
    if sim.fault_fired or sim.probes.get("batch", 0) > 1:
        sim.probe("nontrivial")
