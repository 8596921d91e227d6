"""C17: a persisted DictSet replays the same records however it is iterated."""

from checks.common import *

RUNS = {"quick": 2000, "thorough": 50000}
NO_OPCODES = True
RULE = ("scenario: 1-3 threads create sets of 0-900 records in each storage class (from lists, generators, sources that raise, and Readers), iterate them whole or in part, count, take, "
        "pick and derive from them, drop some, with temporary-file faults, and every set is compared with its records each time and at the end. Non-trivial = a persisted, non-empty set used at "
        "least twice while another exists.")
PROBES = ["MEMORY", "DISK", "COMPRESSED_MEMORY", "empty", "multi_batch", "partial_then_fresh", "interleaved", "dropped", "gc", "take", "get_items", "first", "count", "filter", "select", "source_raised",
          "create_fault", "read_fault", "recovered", "reader_source", "big", "threads", "derived_outlives", "resumed_next", "dropped_in_use", "in_its_place", "empty_records"]
ASSUMPTIONS = ["records are dicts JSON represents exactly", "one iteration of one set at a time; first, take, filter and select start a fresh one", "a set is used by one thread at a time",
               "take(n) with n >= 1, get_items with distinct ascending positions in range"]
CLASSES = ["MEMORY", "DISK", "DISK", "COMPRESSED_MEMORY", "COMPRESSED_MEMORY"]
TEXT = ["", "a", "é漢🙂", "line\nbreak\r\n", "\"q\"\\", "\u2028\x85\x0b\x1c\x1d", "\x00", "null", "{\"a\":1}\n{\"b\":2}", " "]


def gen(rng, tier):
    threads = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([3, 5, 8, 12])):
            x = rng.random()
            if not ops or x < 0.25:
                ops.append(["create", rng.choice(CLASSES), rng.choice([0, 1, 1, 2, 5, 30, 249, 250, 251, 499, 500, 501, 750, 900]), rng.choice(["list", "gen", "gen", "raise", "reader", "iter"]), rng.randrange(1 << 30)])
            elif x < 0.40:
                ops.append(["whole", rng.randrange(6)])
            elif x < 0.55:
                ops.append(["part", rng.randrange(6), rng.choice([0, 1, 2, 249, 250, 251])])
            elif x < 0.60:
                ops.append(["on", rng.randrange(6), rng.choice([1, 3, 300])])
            elif x < 0.66:
                ops.append(["zip", rng.randrange(6), rng.randrange(6)])
            elif x < 0.71:
                ops.append(["count", rng.randrange(6)])
            elif x < 0.77:
                ops.append(["take", rng.randrange(6), rng.choice([1, 2, 5, 250, 251, 2000])])
            elif x < 0.84:
                ops.append(["items", rng.randrange(6), [rng.random() for _ in range(rng.choice([1, 2, 3, 8]))]])
            elif x < 0.88:
                ops.append(["first", rng.randrange(6)])
            elif x < 0.91:
                ops.append(["filter", rng.randrange(6), rng.choice([1, 2, 3])])
            elif x < 0.93:
                ops.append(["select", rng.randrange(6)])
            elif x < 0.96:
                ops.append(["drop", rng.randrange(6)])
            elif x < 0.98:
                ops.append(["again", rng.randrange(6), rng.choice(CLASSES), rng.choice([1, 5, 251, 501]), rng.choice(["list", "gen"]), rng.randrange(1 << 30)])
            else:
                ops.append(["gc"])
        threads.append(ops)
    faults = []
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2, 4])):
            site = rng.choice(["disk.write", "disk.write", "disk.open_w", "disk.open_r", "mmap", "disk.read"])
            f = {"site": site, "nth": rng.randrange(8), "times": rng.choice([1, 1, 2])}
            f["kind"] = rng.choice(["enomem", "eio"]) if site == "mmap" else rng.choice(["eio", "enospc", "memory"]) if site in ("disk.write", "disk.open_w") else rng.choice(["eio", "memory"])
            if site == "disk.write":
                f["frac"] = rng.choice([0, 0.1, 0.5, 0.99, 1.0])
                f["kind"] = rng.choice(["eio", "enospc", "short", "short"])
                f["line"] = rng.random() < 0.5
            faults.append(f)
    return {"sim": swarm(rng), "threads": threads, "faults": faults, "big": 0, "latency_ns": 0, "tick": rng.random() < 0.3}


def directed():
    base = {"sim": {"preempt": 0.01}, "faults": [], "big": 0, "latency_ns": 0, "tick": False}
    out = []
    for cls in ("MEMORY", "DISK", "COMPRESSED_MEMORY"):
        c = lambda n, src="gen", seed=1: ["create", cls, n, src, seed]
        out.append(dict(base, threads=[[c(5), ["whole", 0], ["whole", 0], ["part", 0, 2], ["whole", 0], ["first", 0], ["whole", 0], ["items", 0, [0, 0.99]], ["take", 0, 2], ["whole", 0]]]))
        out.append(dict(base, threads=[[c(501), ["part", 0, 251], ["items", 0, [0.01, 0.5, 0.6, 0.99]], ["on", 0, 300], ["count", 0], ["whole", 0]]]))
        out.append(dict(base, threads=[[c(5), c(3, seed=2), ["part", 0, 2], ["drop", 1], ["gc"], ["on", 0, 9], ["whole", 0]], [c(4, seed=3), ["zip", 0, 0], c(6, seed=4), ["zip", 0, 1], ["drop", 0], ["whole", 0]]]))
        out.append(dict(base, threads=[[c(3), ["take", 0, 2], ["drop", 0], ["whole", 0], ["filter", 0, 2], ["drop", 0], ["gc"], ["whole", 0]]]))
        # sets made where dropped ones were
        for n in (5, 260, 1510):
            out.append(dict(base, threads=[[c(n, seed=9)] + [y for x in range(12) for y in [["items", 0, [0, 0.17, 0.34, 0.5, 0.7, 0.84, 0.99]], ["again", 0, cls, n, "list", 10 + x]]] + [["items", 0, [0.5]], ["whole", 0]]]))
    out.append(dict(base, big=44_000, threads=[[["create", "DISK", 900, "gen", 7], ["items", 0, [0.3, 0.9]], ["items", 0, [0.6]], ["whole", 0], ["items", 0, [0.5, 0.99]]]], sim={"preempt": 0}))
    for n in range(4):
        for frac in (0.3, 0.7):
            out.append(dict(base, faults=[{"site": "disk.write", "kind": "short", "nth": n, "times": 2, "frac": frac, "line": True}],
                            threads=[[["create", "DISK", 900, "gen", 7], ["whole", 0], ["create", "DISK", 300, "list", 8], ["items", 1, [0.5]], ["whole", 1], ["whole", 0]]]))
        for site, kind in (("disk.write", "enospc"), ("mmap", "enomem"), ("disk.open_r", "eio")):
            out.append(dict(base, faults=[{"site": site, "kind": kind, "nth": n, "times": 1, "frac": 0.5}],
                            threads=[[["create", "DISK", 3, "gen", 7], ["whole", 0], ["create", "DISK", 30, "list", 8], ["items", 1, [0.5]], ["whole", 1], ["whole", 0]]]))
    return out


def make(seed, n, big):
    import random

    rng = random.Random(seed)
    out = []
    for i in range(n):
        if rng.random() < 0.04:
            out.append({})
            continue
        r = {"id": i, "s": seed, "t": rng.choice(TEXT)}
        for _ in range(rng.choice([0, 0, 1, 2])):
            r[rng.choice(["n", "é", "a b", "", "d.e"])] = rng.choice([None, True, False, 0, -1, 2**63 - 1, -2**63, 2**64 - 1, 1.5, -1e-300, 1e300, [], {}, [1, [None, "a"]], {"q": {"r": [1.25]}}, rng.choice(TEXT)])
        if big:
            r["big"] = "y" * big
        elif rng.random() < 0.02:
            r["big"] = "z" * 5000
        out.append(r)
    return out


class SourceFailed(Exception):
    pass


class Holder:
    def __init__(self, ds, want, cls):
        self.ds, self.want, self.cls, self.pos, self.uses = ds, want, cls, None, 0


def k(r):
    return json.dumps(r, ensure_ascii=True)


def run(w, sc):
    sim = w.sim
    proc = w.proc("app")
    D = proc.image.get("mabel.data.internals.dictset.DictSet")
    SC = proc.image.get("mabel.data.internals.dictset.STORAGE_CLASS")
    alive = []
    files = [0]
    if len(sc["threads"]) > 1:
        sim.probe("threads")

    def source(kind, recs):
        if kind == "list":
            return recs
        if kind == "iter":
            return iter(recs)

        def g():
            for i, r in enumerate(recs):
                if kind == "raise" and i == len(recs) // 2:
                    raise SourceFailed("the source failed")
                if sc["tick"] and i % 100 == 0:
                    w.sleep(0.001)
                yield r
            if kind == "raise" and not recs:
                raise SourceFailed("the source failed")
        return g()

    def create(op, instead=None):
        _, cls, n, kind, seed = op
        recs = make(seed, n, sc["big"])
        want = [k(r) for r in recs]
        if instead:
            # nothing but the set is made between the end of the one and the start of the other
            sim.probe("in_its_place")
            alive.remove(instead)
            instead.ds = None
        if kind == "reader":
            if not recs:
                kind = "list"
            else:
                files[0] += 1
                ds = f"bucket/src{files[0]}"
                half = len(recs) // 2
                for i, part in enumerate([recs[:half], recs[half:]]):
                    w.put_file("store", f"{ds}/year_2024/month_03/day_01/{i:04d}.jsonl", b"".join(json.dumps(r).encode() + b"\n" for r in part))
                sim.probe("reader_source")
        fired = sum(sim.fault_fired.values())
        if kind == "reader":
            c = w.call(lambda: open_reader(w, proc, "store", ds, start_date="2024-03-01", end_date="2024-03-01", persistence=SC[cls]))
        else:
            c = w.call(lambda: D(source(kind, recs), storage_class=SC[cls]))
        # the list is the caller's, to use for something else
        recs.clear()
        recs.append({"id": -1})
        if not c.ok:
            if iskind(c, "SourceFailed") and kind == "raise":
                sim.probe("source_raised")
                return None
            if sum(sim.fault_fired.values()) > fired:
                sim.probe("create_fault")
                return None
            w.fail("create-failed", f"persisting {n} records ({kind}) to {cls} raised: {c!r}")
        if kind == "raise":
            w.fail("source-error-lost", f"the source of a {cls} set raised, creating it did not")
        sim.probe(cls)
        if "{}" in want:
            sim.probe("empty_records")
        sim.probe("empty" if not want else "big" if sc["big"] else "multi_batch" if n > 250 else "small")
        h = Holder(c.value, want, cls)
        alive.append(h)
        return h

    def judge(h, what, c, want, fired):
        """True if the call worked"""
        if not c.ok:
            if sum(sim.fault_fired.values()) > fired:
                sim.probe("read_fault")
                h.faulted = True
                return False
            w.fail("read-failed", f"{what} of a {h.cls} set of {len(h.want)} raised: {c!r}")
        if getattr(h, "faulted", False):
            sim.probe("recovered")
        if c.value != want:
            if isinstance(want, list) and isinstance(c.value, list):
                w.fail("differs", f"{what} of a {h.cls} set of {len(h.want)}: got {len(c.value)}, expected {len(want)}: {diff(c.value, want, 3)[:600]}")
            w.fail("differs", f"{what} of a {h.cls} set of {len(h.want)}: got {str(c.value)[:200]}, expected {str(want)[:200]}")
        h.uses += 1
        if h.uses >= 2 and h.want and len(alive) >= 2:
            sim.probe("nontrivial")
        return True

    def read(h, n, it):
        out = []
        while len(out) < n:
            try:
                r = next(it)
            except StopIteration:
                break
            out.append(k(r))
        return out

    def use(h, op, mine):
        ds = h.ds
        fired = sum(sim.fault_fired.values())
        name = op[0]
        if name == "whole":
            if h.pos not in (None, 0) and h.pos < len(h.want):
                sim.probe("partial_then_fresh")
            h.pos = None
            judge(h, "iteration", w.call(lambda: [k(r) for r in ds]), h.want, fired)
        elif name == "part":
            it = iter(ds)
            if judge(h, f"first {op[2]}", w.call(read, h, op[2], it), h.want[:op[2]], fired):
                h.pos = min(op[2], len(h.want))
            else:
                h.pos = None
        elif name == "on":
            if h.pos is None or h.pos >= len(h.want):
                return
            sim.probe("resumed_next")
            at = h.pos
            if judge(h, f"records from {at}", w.call(read, h, op[2], ds), h.want[at:at + op[2]], fired):
                h.pos = min(at + op[2], len(h.want))
            else:
                h.pos = None
        elif name == "zip":
            o = mine[op[2] % len(mine)]
            if o is h:
                return
            sim.probe("interleaved")
            h.pos = o.pos = None

            def both():
                a, b, out = iter(h.ds), iter(o.ds), ([], [])
                live = [(a, out[0]), (b, out[1])]
                while live:
                    for x in list(live):
                        try:
                            x[1].append(k(next(x[0])))
                        except StopIteration:
                            live.remove(x)
                return [out[0], out[1]]
            c = w.call(both)
            if not c.ok:
                judge(h, "iteration", c, None, fired)
                return
            vals = c.value
            for x, v in ((h, vals[0]), (o, vals[1])):
                c.value = v
                judge(x, "interleaved iteration", c, x.want, fired)
        elif name == "count":
            sim.probe("count")
            judge(h, "count", w.call(ds.count), len(h.want), fired)
        elif name == "first":
            sim.probe("first")
            h.pos = None
            c = w.call(lambda: (lambda r: None if r is None else k(r))(ds.first()))
            judge(h, "first", c, h.want[0] if h.want else None, fired)
        elif name == "items":
            if not h.want:
                return
            locs = sorted({int(x * len(h.want)) for x in op[2]})
            sim.probe("get_items")
            judge(h, f"get_items{tuple(locs)}", w.call(lambda: [k(r) for r in ds.get_items(*locs)]), [h.want[i] for i in locs], fired)
        elif name in ("take", "filter", "select"):
            sim.probe(name)
            h.pos = None
            if name == "take":
                fn, want = (lambda: ds.take(op[2])), h.want[:op[2]]
            elif name == "filter":
                fn, want = (lambda: ds.filter(lambda r: (r.get("id") or 0) % op[2] == 0)), [x for i, x in enumerate(h.want) if (json.loads(x).get("id") or 0) % op[2] == 0]
            else:
                fn, want = (lambda: ds.select(["id", "t", "zz"])), [k({"id": r.get("id"), "t": r.get("t"), "zz": None}) for r in map(json.loads, h.want)]
            c = w.call(fn)
            if not c.ok:
                judge(h, name, c, None, fired)
                return
            d = Holder(c.value, want, h.cls)
            c.value = None
            alive.append(d)
            mine.append(d)
            fired = sum(sim.fault_fired.values())
            judge(d, name, w.call(lambda: [k(r) for r in d.ds]), want, fired)

    def thread(ti, ops):
        def body():
            mine = []
            for op in ops:
                sim.log("op", ti, op[0])
                if op[0] == "create":
                    h = create(op)
                    if h:
                        mine.append(h)
                elif op[0] == "gc":
                    sim.probe("gc")
                    w.collect_garbage()
                elif not mine:
                    continue
                elif op[0] == "again":
                    h = create(["create"] + op[2:], mine.pop(op[1] % len(mine)))
                    if h:
                        mine.append(h)
                elif op[0] == "drop":
                    h = mine.pop(op[1] % len(mine))
                    alive.remove(h)
                    sim.probe("dropped")
                    if h.pos not in (None, len(h.want)):
                        sim.probe("dropped_in_use")
                    if mine:
                        sim.probe("derived_outlives")
                    h.ds = None
                else:
                    use(mine[op[1] % len(mine)], op, mine)
        return body

    ts = [w.client(proc, thread(i, ops), f"t{i}") for i, ops in enumerate(sc["threads"])]
    for t in ts:
        if not w.join(t, 36000):
            w.fail("blocked", f"{t!r} has not finished")
    sim.faults = []

    def final():
        for h in list(alive):
            fired = sum(sim.fault_fired.values())
            judge(h, "last iteration", w.call(lambda: [k(r) for r in h.ds]), h.want, fired)
            judge(h, "last count", w.call(h.ds.count), len(h.want), fired)
    t = w.client(proc, final, "final")
    w.join(t, 36000)
