"""C12: freshness_limit reads the newest day with data inside the limit, else raises."""

import datetime

from checks.common import *
from checks.layout import *

RUNS = {"quick": 2400, "thorough": 60000}
IMAGES = 4
NO_OPCODES = True
RULE = ("scenario: up to 9 days back from the requested day (across month, leap-day and year ends), each without data, with data, or with BACKOUT, unfinished, ignored, empty or unreadable files only; "
        "limits in days, hours and minutes; the requested day given or today (clock near midnight); a frame completed while the read looks; listings fail. Non-trivial = the read looked back at least a day.")
PROBES = ["same_day", "back_1", "back_many", "none_within", "beyond_limit_data", "backout_only", "unfinished_only", "ignored_only", "empty_frame", "other_files_only", "today", "midnight", "live_event", "by", "list_fault",
          "exact_limit", "arrival"]
ASSUMPTIONS = ["days are counted by date (a day's time is its midnight, as documented)", "a day whose newest valid frame is empty has no readable data"]

KINDS = ["none", "none", "none", "loose", "frame", "older-frame", "backout", "backout-frame", "unfinished", "ignored", "both-bad", "empty-frame", "files", "by", "by-bad", "by-part"]


def day_spec(kind):
    b = {"ext": "jsonl", "n": 2}
    fr = lambda at, state, n=1: {"at": at, "state": state, "blobs": [dict(b) for _ in range(n)], "junk": []}
    f = lambda name="", frames=(), blobs=0, junk=(): {"name": name, "frames": list(frames), "blobs": [dict(b) for _ in range(blobs)], "junk": list(junk)}
    return {
        "none": [], "loose": [f(blobs=2)], "frame": [f(frames=[fr(3, "complete"), fr(5, "incomplete")], junk=["backout"])],
        "older-frame": [f(frames=[fr(1, "complete"), fr(3, "ignored")])], "backout": [f(junk=["backout"])], "backout-frame": [f(junk=["backout-frame", "backout"])],
        "unfinished": [f(frames=[fr(2, "incomplete", 2)])], "ignored": [f(frames=[fr(2, "ignored", 2)])], "both-bad": [f(frames=[fr(1, "ignored"), fr(2, "incomplete")], junk=["backout"])],
        "empty-frame": [f(frames=[fr(1, "complete", 0)])], "files": [f(junk=["part", "idx", "tmp", "manifest"])],
        "by": [f("by_hour/hour=01", frames=[fr(1, "complete")]), f("by_hour/hour=02", frames=[fr(1, "incomplete")])],
        "by-bad": [f("by_hour/hour=01", frames=[fr(1, "ignored")]), f("by_hour/hour=02", frames=[fr(1, "incomplete")], junk=["backout"])],
        "by-part": [f("by_hour/hour=01", junk=["part", "backout"])],
    }[kind]


def gen(rng, tier):
    empty = rng.choice([0.2, 0.6, 0.9])
    days = []
    for d in range(9):
        k = rng.choice(KINDS)
        if k in ("loose", "frame", "older-frame", "by") and rng.random() < empty:
            k = rng.choice([x for x in KINDS if x not in ("loose", "frame", "older-frame", "by")])
        days.append(k)
    backend = rng.choice(["store", "disk", "gcs", "minio"])
    faults = []
    if rng.random() < 0.15:
        faults.append({"site": "disk.scandir" if backend == "disk" else "list", "kind": "eio" if backend == "disk" else "before", "nth": rng.randrange(8), "times": rng.choice([1, 1, 50])})
    cfg = swarm(rng)
    today = rng.random() < 0.4
    if today and rng.random() < 0.5:
        cfg["epoch_ns"] = 1_709_251_200 * 10**9 - rng.randrange(1, 10**9)  # just before 1 March 2024
        cfg["step_cost_ns"] = rng.choice([2000, 20000, 200000])
    return {"sim": cfg, "base": rng.choice(["2024-03-05", "2024-03-01", "2023-03-02", "2024-01-01", "2024-12-31"]), "kinds": days, "backend": backend, "faults": faults, "latency_ns": 0, "today": today,
            "limit": rng.choice(["1d", "2d", "3d", "7d", "8d", "24h", "36h", "47h", "48h", "12h", "90m", "1d12h", "2d1s", "1s", "0d", "1d23h59m59s", "1439m", "2880m"]),
            "time": rng.choice(["", "", " 00:00", " 13:45", "T23:59:59"]),
            "events": [] if rng.random() < 0.7 else [{"d": rng.randrange(5), "kind": rng.choice(["complete", "ignore", "unignore", "arrive", "arrive"]), "at": rng.randrange(4), "steps": rng.randrange(0, rng.choice([200, 700, 3000]))}]}


def directed():
    base = {"sim": {}, "base": "2024-03-05", "faults": [], "latency_ns": 0, "today": False, "time": "", "events": []}
    out = []
    for backend in ("store", "disk", "gcs", "minio"):
        for kind in ("backout", "unfinished", "ignored", "files", "by-bad", "empty-frame"):
            out.append(dict(base, backend=backend, kinds=[kind, "loose"] + ["none"] * 7, limit="2d"))
        for step in range(8):
            out.append(dict(base, backend=backend, kinds=["none", "none", "loose" if step % 2 else "frame"] + ["none"] * 6, limit="5d", events=[{"d": step % 3 and 1, "kind": "arrive", "at": 0, "steps": 1 + 60 * step}]))
    for limit in ("1d", "2d", "3d", "47h", "48h", "71h", "72h"):
        for at in (1, 2, 3):
            out.append(dict(base, backend="store", kinds=["none"] * at + ["frame", "loose"] + ["none"] * 4, limit=limit))
    return out[::2] + out[1::6]


UNITS = {"d": 86400, "h": 3600, "m": 60, "s": 1}


def seconds(limit):
    import re

    return sum(int(n) * UNITS[u] for n, u in re.findall(r"(\d+)([dhms])", limit))


def run(w, sc):
    sim = w.sim
    backend = sc["backend"]
    ds = rootdir(backend) + "/ds"
    ids = [0]
    today = sc["today"]
    base = datetime.datetime(*w.wall().timetuple()[:3]) if today else datetime.datetime.fromisoformat(sc["base"])
    if today:
        sim.probe("today")
    days = {}  # days before base -> [Placed]
    for d, kind in enumerate(sc["kinds"]):
        at = base - datetime.timedelta(days=d)
        path = f"{ds}/year_{at.year}/month_{at.month:02d}/day_{at.day:02d}"
        days[d] = [Placed(w, backend, path + ("/" + f["name"] if f["name"] else ""), f, ids) for f in day_spec(kind)]
        if kind.startswith("by"):
            sim.probe("by")
    days[-1] = []
    # data after the requested day must not be read
    at = base + datetime.timedelta(days=2)
    days[-2] = [Placed(w, backend, f"{ds}/year_{at.year}/month_{at.month:02d}/day_{at.day:02d}", day_spec("loose")[0], ids)]

    def readable():
        return {d: {n for p in ps for n in p.expected()} for d, ps in days.items()}

    before = readable()
    limit_s = seconds(sc["limit"])
    reach = limit_s // 86400

    def pick(state, origin):
        """the day to be read, or None"""
        for d in range(origin, origin + reach + 1):
            if state.get(d):
                return d
        return None

    sim.faults = list(sc["faults"])
    proc = w.proc("r")
    kw = {"freshness_limit": sc["limit"]}
    if not today:
        kw["start_date"] = kw["end_date"] = f"{base:%Y-%m-%d}" + sc["time"]
    made = []

    def body():
        made.append(w.wall())
        c = w.call(lambda: open_reader(w, proc, backend, ds, **kw))
        made.append(w.wall())
        if not c.ok:
            return c
        return w.call(lambda: [plain(r) for r in c.value])
    t = w.client(proc, body, "main")
    changed = []

    def events():
        for e in sc["events"]:
            while sim.step < e["steps"] and t.state != "done":
                w.sleep(0)
                sim.yield_point("ev", 10)
            if e["kind"] == "arrive":
                # a stream's blob for the day
                ps = [p for p in days[e["d"]] if "/by_" not in p.path]
                if t.state != "done" and not any("/by_" in p.path for p in days[e["d"]]):
                    if not ps:
                        at = base - datetime.timedelta(days=e["d"])
                        ps = [Placed(w, backend, f"{ds}/year_{at.year}/month_{at.month:02d}/day_{at.day:02d}", {"blobs": [], "frames": [], "junk": []}, ids)]
                        days[e["d"]] += ps
                    sim.log("event", "arrive", e["d"])
                    ps[0].arrive({"ext": "jsonl", "n": 2}, ids)
                    sim.probe("arrival")
                    changed.append(e["d"])
                continue
            ps = [p for p in days[e["d"]] if p.frames]
            if ps and t.state != "done" and ps[0].event(e["kind"], e["at"]):
                sim.log("event", e["kind"], e["d"])
                sim.probe("live_event")
                changed.append(e["d"])
    ev = w.client(w.proc("other"), events, "events") if sc["events"] else None
    if not w.join(t, 36000):
        w.fail("blocked", "the read has not finished")
    if ev:
        w.join(ev, 36000)
    c = t.result
    after = readable()
    origins = sorted({(base - datetime.datetime(*m.timetuple()[:3])).days for m in made}) if today else [0]
    if len(origins) > 1 or origins[0]:
        sim.probe("midnight")
    picks = {pick(s, o) for s in (before, after) for o in origins}
    kinds = sc["kinds"]
    what = f"limit {sc['limit']}, requested {'today' if today else kw['start_date']} ({', '.join(f'-{d}:{k}' for d, k in enumerate(kinds[: reach + 3]))}): "
    if not c.ok:
        if sim.fault_fired and injected(c) and not iskind(c, "DataNotFoundError"):
            sim.probe("list_fault")
            return
        if not iskind(c, "DataNotFoundError"):
            w.fail("read-failed", f"{what}{c!r}")
        if None not in picks:
            w.fail("not-found", f"{what}no data was found, but there is some {sorted(picks)} day(s) back")
        sim.probe("none_within")
        if any(before[d] for d in before if d > reach):
            sim.probe("beyond_limit_data")
        if reach:
            sim.probe("nontrivial")
        return
    got = c.value
    owner = {}
    for d, ps in days.items():
        for p in ps:
            for n, rs in p.records.items():
                for r in rs:
                    owner[r["id"]] = d
    ds_ = {owner.get(r.get("id") if isinstance(r, dict) else None) for r in got}
    if len(ds_) != 1:
        w.fail("mixed" if len(ds_) else "nothing", f"{what}records of days {sorted(map(str, ds_))} were returned together" if ds_ else f"{what}the read returned nothing and raised nothing")
    d = ds_.pop()
    if d is None or d not in picks:
        cls = "beyond-limit" if d is not None and d > reach else "skipped" if d is not None and any(p is not None and p < d for p in picks) else "wrong-day"
        w.fail(cls, f"{what}the day {d} back was returned, expected {sorted(map(str, picks))}")
    folders = []
    for p in days[d]:
        alts = [{n for n in before[d] if n in p.records}]
        if d in changed:
            alts.append({n for n in after[d] if n in p.records})
        folders.append((p.path, alts, p))
    judge_blobs(w, got, folders, what=what)
    back = d - origins[0]
    sim.probe("same_day" if back == 0 else "back_1" if back == 1 else "back_many")
    if back:
        sim.probe("nontrivial")
        if back == reach:
            sim.probe("exact_limit")
        for k in kinds[:d]:
            for p, ks in (("backout_only", ("backout", "backout-frame")), ("unfinished_only", ("unfinished",)), ("ignored_only", ("ignored", "both-bad")), ("empty_frame", ("empty-frame",)), ("other_files_only", ("files", "by-part"))):
                if k in ks:
                    sim.probe(p)
