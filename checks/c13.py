"""C13: a ranged read returns each partition's newest valid frame exactly once."""

import datetime

from checks.common import *
from checks.layout import *

RUNS = {"quick": 2400, "thorough": 60000}
IMAGES = 4
NO_OPCODES = True
RULE = ("scenario: 1-6 days in and around the range (month and year ends included), each a folder, a set of by_ folders, several by_ sets, or hour folders, holding loose blobs or frames in every state "
        "with BACKOUT data and other files about; frame markers change while the read runs; listings may fail. Non-trivial = at least two folders with data in the range.")
PROBES = ["days", "hours", "by", "several_by", "prefix_names", "frame_read", "older_frame", "no_valid_frame", "backout", "outside", "live_event", "list_fault", "today", "mixed", "nothing", "longer_name", "times"]
ASSUMPTIONS = ["frames are as old as their names sort", "in one day folder data lies either in by_ folders or outside of them",
               "'BACKOUT' is reserved and appears in no other folder name", "a marker appears or vanishes in one step"]


def gen(rng, tier):
    mode = rng.choice(["days", "days", "days", "hours"])
    base = rng.choice(["2024-03-05", "2024-03-01", "2024-02-28", "2023-12-31", "2024-10-27"])
    n = rng.choice([1, 2, 3])
    days = []
    if mode == "days":
        for d in range(-1, n + 1):
            kind = rng.choice(["flat", "flat", "by", "by", "several", "none"])
            day = {"d": d, "kind": kind, "folders": []}
            if kind == "flat":
                day["folders"] = [dict(gen_folder(rng), name="")]
            elif kind in ("by", "several"):
                names = ["by_user"] if kind == "by" else rng.sample(["by_user", "by_userid", "by_hour", "by_a"], rng.choice([2, 2, 3]))
                for by in names:
                    vals = rng.choice([["u=1", "u=12", "u=2", "u=121"], ["hour=00", "hour=01", "hour=0"], ["u=a", "u=A", "u=None"], ["u=x-y", "u=x_y", "u=x"], ["u=BACKOUT", "u=NOBACKOUT1", "u=B"]])
                    for v in rng.sample(vals, rng.choice([1, 2, min(3, len(vals))])):
                        day["folders"].append(dict(gen_folder(rng), name=f"{by}/{v}"))
            days.append(day)
    else:
        for h in range(-2, rng.choice([2, 5, 27]) + 2):
            if rng.random() < 0.7:
                days.append({"d": h, "kind": "hour", "folders": [dict(gen_folder(rng), name="")]})
    events = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        events.append({"kind": rng.choice(["complete", "ignore", "unignore"]), "i": rng.randrange(40), "at": rng.randrange(6), "steps": rng.randrange(0, 3000)})
    faults = []
    backend = rng.choice(["store", "disk", "disk", "gcs", "minio"])
    if rng.random() < 0.15:
        faults.append({"site": "disk.scandir" if backend == "disk" else "list", "kind": "eio" if backend == "disk" else "before", "nth": rng.randrange(8), "times": rng.choice([1, 1, 50])})
    return {"sim": swarm(rng), "mode": mode, "base": base, "n": n, "days": days, "events": events, "faults": faults, "backend": backend, "latency_ns": 0,
            "hour_style": rng.choice(["by", "plain"]), "start_h": rng.choice([0, 5, 22, 23]), "mins": rng.choice([0, 15, 59]),
            "hours": max([x["d"] for x in days] + [1]) - 1 if mode == "hours" else 0, "today": rng.random() < 0.1, "swap": rng.random() < 0.1,
            "times": [rng.choice([0, 1, 12, 23]), rng.choice([0, 1, 12, 23])] if rng.random() < 0.35 else None}


def directed():
    base = {"sim": {}, "mode": "days", "base": "2024-03-05", "n": 1, "events": [], "faults": [], "latency_ns": 0, "hour_style": "by", "start_h": 0, "mins": 0, "hours": 0,
            "today": False, "swap": False}
    b = lambda n=2: {"ext": "jsonl", "n": n}
    fr = lambda at, state: {"at": at, "state": state, "blobs": [b()], "junk": []}
    fo = lambda name, frames=(), blobs=0, junk=(): {"name": name, "frames": list(frames), "blobs": [b() for _ in range(blobs)], "junk": list(junk)}
    out = []
    for backend in ("store", "disk", "gcs", "minio"):
        out.append(dict(base, backend=backend, days=[{"d": 0, "kind": "by", "folders": [fo("by_user/u=1", [fr(1, "complete"), fr(3, "incomplete")]), fo("by_user/u=12", [fr(5, "complete")]),
                                                                                       fo("by_user/u=2", [], 2, ["backout"])]}]))
        out.append(dict(base, backend=backend, days=[{"d": 0, "kind": "by", "folders": [fo("by_user/u=1", [fr(1, "complete")]), fo("by_user/u=2", [fr(2, "ignored"), fr(1, "complete")])]}]))
        long = lambda s, state: dict(fr(1, state), suffix=s)
        for states in (("complete", "incomplete", "ignored"), ("complete", "complete", "incomplete"), ("complete", "complete", "complete"), ("incomplete", "complete", "ignored-incomplete")):
            out.append(dict(base, backend=backend, days=[{"d": 0, "kind": "flat", "folders": [fo("", [long(s, st) for s, st in zip(("", "-1", "-10"), states)])]}]))
    out.append(dict(base, backend="store", days=[{"d": 0, "kind": "several", "folders": [fo("by_user/u=1", [], 1), fo("by_userid/u=1", [], 1)]}]))
    return out


def run(w, sc):
    sim = w.sim
    backend = sc["backend"]
    ds = rootdir(backend) + "/ds"
    ids = [0]
    base = datetime.datetime.fromisoformat(sc["base"])
    hours = sc["mode"] == "hours"
    n = sc["n"]
    today = sc["today"] and not hours
    if today:
        base = datetime.datetime(*w.wall().timetuple()[:3])
        n = 1
        sim.probe("today")
    unit = []  # (in range, group, label, Placed)
    start = base + datetime.timedelta(hours=sc["start_h"]) if hours else base
    for day in sc["days"]:
        at = start + datetime.timedelta(hours=day["d"]) if hours else base + datetime.timedelta(days=day["d"])
        path = f"{ds}/year_{at.year}/month_{at.month:02d}/day_{at.day:02d}"
        if hours:
            path += f"/by_hour/hour={at.hour:02d}" if sc["hour_style"] == "by" else f"/hour_{at.hour:02d}"
            inside = 0 <= day["d"] <= sc["hours"]
        else:
            inside = 0 <= day["d"] < n
        placed_names = set()
        for f in day["folders"]:
            full = path + ("/" + f["name"] if f["name"] else "")
            if full in placed_names:
                continue
            placed_names.add(full)
            p = Placed(w, backend, full, f, ids)
            by = f["name"].split("/")[0] if f["name"] else ""
            unit.append((inside, day["d"], by, full, p))
            if any(x.get("suffix") for x in f["frames"]):
                sim.probe("longer_name")
            if f["junk"]:
                sim.probe("backout", sum(j.startswith("backout") for j in f["junk"]) or 0) if any(j.startswith("backout") for j in f["junk"]) else None
            if not inside and p.has_any:
                sim.probe("outside")
            if inside and f["blobs"] and f["frames"]:
                sim.probe("mixed")
    sim.probe("hours" if hours else "days")
    before = {u[3]: set(u[4].expected()) for u in unit}
    after = {}
    sim.faults = list(sc["faults"])

    proc = w.proc("r")
    kw = {}
    if hours:
        kw["partitions"] = ["year_{yyyy}/month_{mm}/day_{dd}/by_hour/hour={HH}"] if sc["hour_style"] == "by" else ["year_{yyyy}/month_{mm}/day_{dd}", "hour_{HH}"]
        end = start + datetime.timedelta(hours=sc["hours"])
        kw["start_date"] = f"{start:%Y-%m-%d %H}:{min(sc['mins'], 59):02d}"
        kw["end_date"] = f"{end:%Y-%m-%dT%H}:{sc['mins']:02d}:00"
    elif not today:
        kw["start_date"] = f"{base:%Y-%m-%d}"
        kw["end_date"] = f"{base + datetime.timedelta(days=n - 1):%Y-%m-%d}"
        if sc.get("times"):
            # the folders of the days the range starts and ends in are read however late or early it does
            a, b = sc["times"]
            if n == 1:
                a, b = min(a, b), max(a, b)
            kw["start_date"] += f"T{a:02d}:{sc['mins']:02d}"
            kw["end_date"] += f" {b:02d}:{sc['mins']:02d}:00"
            sim.probe("times")
    if sc["swap"] and kw.get("start_date"):
        kw["start_date"], kw["end_date"] = kw["end_date"], kw["start_date"]
    t = w.client(proc, lambda: read_all(w, proc, backend, ds, **kw), "main")

    done = []

    def events():
        for e in sorted(sc["events"], key=lambda e: e["steps"]):
            while sim.step < e["steps"] and t.state != "done":
                w.sleep(0)
                sim.yield_point("ev", 10)
            us = [u for u in unit if u[4].frames]
            if not us:
                return
            u = us[e["i"] % len(us)]
            if u[3] in after:
                continue  # one change to a folder
            running = t.state != "done"
            if not running:
                return
            if u[4].event(e["kind"], e["at"]):
                sim.log("event", e["kind"], u[3])
                sim.probe("live_event")
            after[u[3]] = set(u[4].expected())
    if sc["events"]:
        done.append(w.client(w.proc("other"), events, "events"))
    if not w.join(t, 36000):
        w.fail("blocked", "the read has not finished")
    for d in done:
        w.join(d, 36000)
    c = t.result

    # --- alternatives per folder, and per day where there are several by_ sets
    folders, nonempty = [], 0
    days = {}
    for inside, d, by, full, p in unit:
        if inside:
            days.setdefault(d, []).append((by, full, p))
    may_be_empty = True
    total_fixed = 0
    choices = []
    for d, us in days.items():
        sets = sorted({by for by, full, p in us if p.has_file})
        if len(sets) > 1:
            sim.probe("several_by")
        if any(a != b and b[1].startswith(a[1]) for a in [(x[2], x[1]) for x in us] for b in [(x[2], x[1]) for x in us]):
            sim.probe("prefix_names")
        if any(by for by, _, _ in us):
            sim.probe("by")
        choices.append((d, us, sets))
        for by, full, p in us:
            if p.frames and not p.newest():
                sim.probe("no_valid_frame")
            if p.newest() and p.newest() is not p.frames[-1]:
                sim.probe("older_frame")
            if p.frames and p.newest() and p.newest()["blobs"]:
                sim.probe("frame_read")
            if any(p.records[x] for x in p.expected()):
                nonempty += 1
    if nonempty >= 2:
        sim.probe("nontrivial")

    def alts(full):
        out = [before[full]]
        if full in after and after[full] != before[full]:
            out.append(after[full])
        return out

    if not c.ok:
        if sim.fault_fired and not iskind(c, "DataNotFoundError"):
            if injected(c):
                sim.probe("list_fault")
                return
        if iskind(c, "DataNotFoundError"):
            # no blobs at all: possible only if each day has a reading without blobs
            for d, us, sets in choices:
                opts = [all(any(not a for a in alts(full)) for by, full, p in us if by == s) for s in sets] or [True]
                if not any(opts):
                    w.fail("not-found", f"no data was found, but day {d} has data in {[full for by, full, p in us if all(alts(full))]}")
            sim.probe("nothing")
            return
        w.fail("read-failed", f"the read raised: {c!r}")
    got = c.value
    judged = []
    owner = {r["id"]: full for inside, d, by, full, p in unit for rs in p.records.values() for r in rs}
    for d, us, sets in choices:
        if len(sets) > 1:
            # the records of one set only
            touched = {by for by, full, p in us if any(owner.get(r.get("id")) == full for r in got)}
            if len(touched) > 1:
                w.fail("several-by", f"day {d}: records of several partitionings were returned: {sorted(touched)}")
            if not touched:
                # some set must have a reading without records
                if not any(all(any(not any(p.records[x] for x in a) for a in alts(full)) for by, full, p in us if by == s) for s in sets):
                    w.fail("wrong-data", f"day {d}: nothing was returned, every partitioning of {sets} has data")
                chosen = None
            else:
                chosen = touched.pop()
            for by, full, p in us:
                judged.append((full, alts(full) if by == chosen else [set()], p))
        else:
            for by, full, p in us:
                judged.append((full, alts(full), p))
    judge_blobs(w, got, judged, extra=[p for inside, d, by, full, p in unit if not inside])
