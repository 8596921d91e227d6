"""
Search driver.  One orchestrator, G group processes (one per PYTHONHASHSEED), and one
forked child per simulated run, so every run starts from the same pristine state and is
a pure function of (code, scenario, schedule).
"""

import copy
import hashlib
import importlib
import json
import os
import re
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time as _time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
GROUPS = 8
real_time = _time.time
real_sleep = _time.sleep
real_mono = _time.monotonic


def hashseed(seed, group):
    return (seed * 7919 + group * 104729 + 1) % 4294967295


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 2 << 30:
                return d
    return tempfile.gettempdir()


# ------------------------------------------------------------------------ child side
def _execute(mod, sc, switches, root):
    """run one scenario in this (forked) process; returns a JSON-able result"""
    import gc

    from . import core
    from . import seams
    from . import world

    import time

    cfg = dict(sc["sim"])
    os.environ["TZ"] = cfg.get("tz", "UTC0")
    time.tzset()
    sim = core.Sim(cfg, switches)
    seams.attach(sim, root, cfg["seed"])
    w = world.World(sim, sc, root)
    director_proc = sim.new_proc(None, name="director", pid=1)

    def body():
        mod.run(w, sc)

    gc.disable()
    t0 = _time_real()
    sim.run(director_proc, body)
    out = {
        "violation": sim.violation, "error": sim.error, "digest": sim.digest(), "shape": sim.shape(),
        "steps": sim.step, "sim_s": sim.now / core.NS, "n_switch": sim.n_switch,
        "faults": sim.fault_fired, "probes": sim.probes, "tasks": len(sim.tasks), "wall": _time_real() - t0,
    }
    if switches is None:
        out["switches"] = sim.switches if (sim.violation or sc.get("_keep_switches")) else []
    if sim.violation and (os.environ.get("DST_TRACE") or sc.get("_trace")):
        out["history"] = [list(map(str, h)) for h in sim.history[-400:]]
    if sc.get("_full_history"):
        out["history"] = [list(map(str, h)) for h in sim.history]
    return out


def _time_real():
    from . import seams

    return seams.REAL.perf_counter()


def run_forked(mod, sc, switches=None, timeout=120):
    """fork, run, collect"""
    root = tempfile.mkdtemp(prefix=f"dst-{os.environ.get('DST_TAG', 'x')}-", dir=scratch_base())
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get("DST_STDERR"):
                os.dup2(dn, 2)
            try:
                out = _execute(mod, sc, switches, root)
            except BaseException:
                import traceback

                out = {"error": traceback.format_exc(), "violation": None}
            data = json.dumps(out).encode()
            data = struct.pack("<Q", len(data)) + data
            while data:
                from . import seams

                n = seams.REAL.os_write(wfd, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(wfd)
    buf = b""
    deadline = real_mono() + timeout
    timed_out = False
    while True:
        left = deadline - real_mono()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    if timed_out:
        return {"error": f"run exceeded {timeout} s of real time", "violation": None}
    if len(buf) < 8:
        return {"error": f"run died: status {status}", "violation": None}
    return json.loads(buf[8:].decode())


# ------------------------------------------------------------------------ group side
def setup_process(images=2):
    """import third-party libraries, install seams, preload images"""
    import logging  # noqa
    import queue  # noqa

    import lz4.frame  # noqa
    import orjson  # noqa
    import orso  # noqa
    import orso.logging  # noqa
    import orso.schema  # noqa
    import zstandard  # noqa

    try:
        import pyarrow
        import pyarrow.parquet  # noqa

        pyarrow.set_cpu_count(1)
        pyarrow.set_io_thread_count(1)
    except ImportError:
        pass
    for m in ("bitarray", "xxhash", "google.api_core.retry", "google.api_core.exceptions", "google.auth.credentials",
              "google.cloud.storage", "minio", "urllib3", "numpy", "pandas", "mmap", "csv", "lzma", "zipfile"):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    import random as _r  # noqa
    import tempfile as _t  # noqa

    from . import seams

    seams.install()
    from . import world

    world.preload(images)
    world.install_log_capture()
    import gc

    gc.collect()
    gc.freeze()


def load_check(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def scenario(mod, prop, seed, i, tier):
    rng = random.Random(f"{seed}-{prop}-{i}")
    directed = mod.directed() if hasattr(mod, "directed") else []
    if i < len(directed) * 8:
        # every directed scenario is run under several schedules
        sc = copy.deepcopy(directed[(i // 8) % len(directed)])
        sc["sim"] = dict(swarm(rng), **sc.get("sim", {}))
    else:
        sc = mod.gen(rng, tier)
    if getattr(mod, "NO_OPCODES", False):
        sc["sim"]["opcodes"] = False
    if getattr(mod, "NO_GC", False):
        sc["sim"]["gc_mean"] = 0
    sc["sim"].setdefault("seed", rng.randrange(1 << 48))
    sc["sim"]["i"] = i
    return sc


def swarm(rng, **over):
    """per-run scheduler configuration, varied widely"""
    cfg = {
        "seed": rng.randrange(1 << 48),
        "preempt": rng.choice([0, 0.0005, 0.002, 0.01, 0.03, 0.1, 0.3]),
        "step_cost_ns": rng.choice([0, 200, 2000, 20000]),
        "oversleep_ns": rng.choice([0, 0, 1_000_000, 30_000_000]),
        "stall_p": rng.choice([0, 0, 0.02, 0.2]),
        "stall_ns": rng.choice([1_000_000, 150_000_000, 2_000_000_000]),
        "opcodes": rng.random() < 0.15,
        "tick_ns": 1,
        "epoch_ns": 1_710_028_800 * 10**9 + rng.randrange(0, 86400 * 10**9),
    }
    cfg["tz"] = rng.choice(["UTC0", "UTC0", "UTC0", "EST5", "IST-5:30", "NZST-12", "AAA11"])
    cfg["gc_mean"] = rng.choice([0, 0, 0, 500, 5000])
    cfg.update(over)
    if rng.random() < 0.12 and "tz" not in over:
        cfg["tz"] = dst_tz(cfg["epoch_ns"] // 10**9, rng.choice([1, 2, 3, 5, 30, 600]))
    return cfg


def dst_tz(epoch_s, delta):
    """a time zone whose daylight saving ends (local clocks go back an hour) delta seconds after epoch_s"""
    t = _time.gmtime(epoch_s + delta + 3600)
    first = (t.tm_year % 4 == 0) and t.tm_yday > 60
    n = t.tm_yday - first  # Jn never counts 29 February
    if t.tm_mon == 2 and t.tm_mday == 29:
        return "UTC0"
    return f"AAA0BBB,J{(n + 180) % 365 + 1},J{n}/{t.tm_hour}:{t.tm_min:02d}:{t.tm_sec:02d}"


def group_main(prop, tier, seed, group, groups, start, stop, deadline_s, images):
    mod = load_check(prop)
    setup_process(getattr(mod, "IMAGES", 2))
    t_end = real_mono() + deadline_s
    agg = {"runs": 0, "steps": 0, "sim_s": 0.0, "switches": 0, "faults": {}, "probes": {}, "shapes": [], "digests": [],
           "scen": [], "nontrivial": 0, "samples": [], "threads": 0, "stopped_early": False, "max_wall": 0.0, "retraced": 0}
    shapes, digests, scen = set(), set(), set()
    for i in range(start + group, stop, groups):
        if real_mono() > t_end:
            agg["stopped_early"] = True
            break
        sc = scenario(mod, prop, seed, i, tier)
        res = run_forked(mod, sc)
        if res.get("error", None) and res["error"].startswith("run died") and sc["sim"].get("opcodes"):
            # CPython 3.12 can crash when exceptions cross code traced by opcode
            sc["sim"]["opcodes"] = False
            agg["retraced"] += 1
            res = run_forked(mod, sc)
        if res.get("error"):
            emit({"type": "error", "i": i, "error": res["error"], "scenario": sc})
            break
        agg["runs"] += 1
        agg["steps"] += res["steps"]
        agg["sim_s"] += res["sim_s"]
        agg["switches"] += res["n_switch"]
        agg["threads"] += res["tasks"]
        agg["max_wall"] = max(agg["max_wall"], res["wall"])
        for k, v in res["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in res["probes"].items():
            agg["probes"][k] = agg["probes"].get(k, 0) + v
        shapes.add(res["shape"])
        digests.add(res["digest"])
        if res["probes"].get("nontrivial"):
            agg["nontrivial"] += 1
            scen.add(res["shape"])
        if len(agg["samples"]) < 2 and res["probes"].get("nontrivial"):
            s2 = json.dumps(sc)
            agg["samples"].append({"run": i, "scenario": s2[:1500], "steps": res["steps"], "sim_s": res["sim_s"],
                                   "context_switches": res["n_switch"], "faults": res["faults"], "digest": res["digest"]})
        if res["violation"]:
            emit({"type": "candidate", "i": i, "class": res["violation"]["class"]})
            rep = minimise(mod, prop, sc, res, seed, group)
            emit({"type": "violation", "i": i, "replay": rep})
            break
    agg["shapes"], agg["digests"], agg["scen"] = sorted(shapes), sorted(digests), sorted(scen)
    emit({"type": "done", "agg": agg})


def emit(obj):
    sys.stdout.write(json.dumps(obj) + "\n")
    sys.stdout.flush()


# ------------------------------------------------------------------------ minimisation
SHRINK_KEYS = ("ops", "bad", "others", "faults", "clients", "batches", "readers", "records", "steps", "blobs", "days", "writers",
               "jumps", "sets", "events", "stops", "threads")


def _lists(node, path=()):
    out = []
    if isinstance(node, dict):
        for k, v in node.items():
            if isinstance(v, list) and k in SHRINK_KEYS:
                out.append(path + (k,))
            if isinstance(v, (dict, list)) and k != "sim":
                out += _lists(v, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                out += _lists(v, path + (i,))
    return out


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def minimise(mod, prop, sc, res, seed, group, budget=50.0):
    t_end = real_mono() + budget
    cls = res["violation"]["class"]
    best = {"scenario": sc, "switches": res["switches"], "violation": res["violation"], "digest": res["digest"]}
    tries = [0]

    def attempt(sc2, switches):
        tries[0] += 1
        r = run_forked(mod, sc2, switches, timeout=60)
        if r.get("violation") and r["violation"]["class"] == cls:
            return r
        return None

    # the recorded schedule must reproduce the run
    r = attempt(sc, res["switches"])
    exact = bool(r) and r["digest"] == res["digest"]
    best["exact"] = exact
    if not r:
        best["mode"] = "seed"
        return write_replay(prop, best, seed, group, tries[0], note="schedule list did not reproduce; replay by seed")

    def try_scenario(sc2):
        if real_mono() > t_end:
            return False
        r = attempt(sc2, best["switches"])
        if r:
            best.update(scenario=sc2, violation=r["violation"], digest=r["digest"])
            return True
        for k in range(3):
            if real_mono() > t_end:
                return False
            sc3 = copy.deepcopy(sc2)
            if k:
                sc3["sim"]["seed"] = sc2["sim"]["seed"] + k
            r = attempt(sc3, None)
            if r:
                r2 = attempt(sc3, r["switches"])
                if r2:
                    best.update(scenario=sc3, switches=r["switches"], violation=r2["violation"], digest=r2["digest"])
                    return True
        return False

    progress = True
    while progress and real_mono() < t_end:
        progress = False
        for path in _lists(best["scenario"]):
            try:
                n = len(_get(best["scenario"], path))
            except (KeyError, IndexError, TypeError):
                continue
            size = max(1, n // 2)
            while size >= 1 and real_mono() < t_end:
                i = 0
                while True:
                    try:
                        lst = _get(best["scenario"], path)
                    except (KeyError, IndexError, TypeError):
                        break
                    if i >= len(lst) or real_mono() > t_end:
                        break
                    sc2 = copy.deepcopy(best["scenario"])
                    del _get(sc2, path)[i:i + size]
                    if try_scenario(sc2):
                        progress = True
                    else:
                        i += size
                if size == 1:
                    break
                size //= 2
    # schedule: drop switches
    t_end = max(t_end, real_mono() + 15)
    sw = best["switches"]
    size = max(1, len(sw) // 2)
    while sw and size >= 1 and real_mono() < t_end:
        i = 0
        while i < len(sw) and real_mono() < t_end:
            cand = sw[:i] + sw[i + size:]
            r = attempt(best["scenario"], cand)
            if r:
                sw = cand
                best.update(switches=sw, violation=r["violation"], digest=r["digest"])
            else:
                i += size
        if size == 1:
            break
        size //= 2
    r = attempt(best["scenario"], best["switches"])
    if r:
        best.update(violation=r["violation"], digest=r["digest"])
    return write_replay(prop, best, seed, group, tries[0])


def write_replay(prop, best, seed, group, tries, note=None):
    sc = dict(best["scenario"])
    doc = {"property": prop, "verif_seed": seed, "pythonhashseed": hashseed(seed, group), "scenario": sc,
           "mode": best.get("mode", "schedule"), "switches": best["switches"], "violation": best["violation"],
           "digest": best["digest"], "minimisation_runs": tries}
    if note:
        doc["note"] = note
    key = hashlib.blake2b(json.dumps(doc, sort_keys=True).encode(), digest_size=5).hexdigest()
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{key}.json")
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


# ------------------------------------------------------------------------ replay
def replay_main(path, trace=False):
    doc = json.load(open(path))
    want = str(doc["pythonhashseed"])
    if os.environ.get("PYTHONHASHSEED") != want:
        env = dict(os.environ, PYTHONHASHSEED=want)
        os.execve(PY, [PY, os.path.join(VERIF, "check.py"), "--replay", path] + (["--trace"] if trace else []), env)
    mod = load_check(doc["property"])
    setup_process(getattr(mod, "IMAGES", 2))
    sc = doc["scenario"]
    if trace:
        sc["_trace"] = True
    r = run_forked(mod, sc, doc["switches"] if doc["mode"] == "schedule" else None)
    if r.get("error"):
        print("HARNESS ERROR\n" + r["error"])
        return 2
    if trace:
        for h in r.get("history", []):
            print("   ", " ".join(h))
    if r["violation"]:
        same = r["digest"] == doc["digest"]
        print(f"{r['violation']['class']}: {r['violation']['message']}")
        print(f"digest {r['digest']} ({'identical to' if same else 'differs from'} the recorded run)")
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    print("the replay no longer violates the property")
    return 0


# ------------------------------------------------------------------------ orchestrator
def main(prop, tier, seed):
    t0 = real_time()
    mod = load_check(prop)
    plan = mod.RUNS[tier]
    deadline = float(os.environ.get("DST_DEADLINE", {"quick": 150, "thorough": 780}[tier]))
    runs = int(os.environ.get("DST_RUNS", plan))
    minimum = min(runs, max(40, runs // 20))
    groups = int(os.environ.get("DST_GROUPS", GROUPS))
    procs = []
    for g in range(groups):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed(seed, g)), PYTHONDONTWRITEBYTECODE="1",
                   LOGGING_LEVEL="25", OMP_NUM_THREADS="1", ARROW_DEFAULT_MEMORY_POOL="system",
                   DST_TAG=str(os.getpid()))
        env.pop("STORAGE_EMULATOR_HOST", None)
        p = subprocess.Popen([PY, os.path.join(VERIF, "check.py"), prop, "--group", str(g), "--groups", str(groups),
                              "--tier", tier, "--seed", str(seed), "--stop", str(runs), "--deadline", str(deadline)],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=VERIF,
                             start_new_session=True)
        procs.append(p)
    fds = {p.stdout.fileno(): (g, p) for g, p in enumerate(procs)}
    errs = {p.stderr.fileno(): (g, p) for g, p in enumerate(procs)}
    bufs = {fd: b"" for fd in fds}
    ebuf = {g: b"" for g in range(groups)}
    aggs, errors, violations = [], [], []
    candidate = False
    hard = real_mono() + deadline + 200
    open_fds = set(fds) | set(errs)
    vio_deadline = None
    while open_fds and real_mono() < hard:
        if vio_deadline and real_mono() > vio_deadline:
            break
        ready, _, _ = select.select(list(open_fds), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 16)
            if not data:
                open_fds.discard(fd)
                continue
            if fd in errs:
                ebuf[errs[fd][0]] += data
                continue
            bufs[fd] += data
            while b"\n" in bufs[fd]:
                line, bufs[fd] = bufs[fd].split(b"\n", 1)
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m["type"] == "done":
                    aggs.append(m["agg"])
                elif m["type"] == "error":
                    errors.append(m)
                elif m["type"] == "candidate":
                    candidate = True
                    if vio_deadline is None:
                        vio_deadline = real_mono() + 110
                elif m["type"] == "violation":
                    violations.append(m)
        if violations:
            break
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
    for p in procs:
        p.wait()
    clean_scratch()
    wall = real_time() - t0
    rc = report(mod, prop, tier, seed, aggs, errors, violations, ebuf, wall, minimum, groups)
    if rc == 0 and known_findings(prop):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed(seed, 0)), PYTHONDONTWRITEBYTECODE="1", LOGGING_LEVEL="25", OMP_NUM_THREADS="1",
                   ARROW_DEFAULT_MEMORY_POOL="system", DST_TAG=str(os.getpid()))
        env.pop("STORAGE_EMULATOR_HOST", None)
        rc = subprocess.run([PY, os.path.join(VERIF, "check.py"), prop, "--known", "--seed", str(seed)], env=env, cwd=VERIF, timeout=600).returncode
        clean_scratch()
    return rc


# ------------------------------------------------------------------------ known findings
def known_findings(prop):
    """{name: text} of the lines "known: property=<id> name=<scenario> <text>" of the file"""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) name=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def known_main(prop, seed):
    """run the listed findings: one is reported as such only if what fails is what is listed"""
    mod = load_check(prop)
    setup_process(getattr(mod, "IMAGES", 2))
    for name, text in known_findings(prop).items():
        sc, cls, pattern = mod.KNOWN[name]
        sc = dict(sc, sim=dict(swarm(random.Random(f"{seed}-{prop}-{name}")), **sc["sim"], i=-1))
        r = run_forked(mod, sc)
        if r.get("error"):
            print(f"HARNESS ERROR in known finding {name}:\n{r['error']}")
            return 2
        v = r["violation"]
        if not v:
            print(f"{prop}: the known finding {name} no longer fails")
        elif v["class"] == cls and re.search(pattern, v["message"]):
            print(f"KNOWN-FINDING: property={prop} {text}")
        else:
            path = write_replay(prop, {"scenario": sc, "switches": r["switches"], "violation": v, "digest": r["digest"]}, seed, 0, 0)
            print(f"{v['class']}: {v['message']}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    return 0


def clean_scratch():
    # directories of runs that were killed half-way
    base = scratch_base()
    for n in os.listdir(base):
        if n.startswith(f"dst-{os.getpid()}-"):
            shutil.rmtree(os.path.join(base, n), ignore_errors=True)


def report(mod, prop, tier, seed, aggs, errors, violations, ebuf, wall, minimum, groups):
    tot = {"runs": 0, "steps": 0, "sim_s": 0.0, "switches": 0, "nontrivial": 0, "threads": 0}
    faults, probes = {}, {}
    shapes, digests, scen = set(), set(), set()
    samples = []
    early = False
    for a in aggs:
        for k in tot:
            tot[k] += a[k]
        for k, v in a["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in a["probes"].items():
            probes[k] = probes.get(k, 0) + v
        shapes.update(a["shapes"])
        digests.update(a["digests"])
        scen.update(a["scen"])
        samples += a["samples"][:1]
        early = early or a["stopped_early"]
    want = list(getattr(mod, "PROBES", []))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(scen),
            "rule": "one evaluation = one simulated run of a scenario generated from the seed under one seeded schedule; "
                    + getattr(mod, "RULE", "") + " Distinct = different order of (thread, event) in the run's event history.",
            "samples": samples[:4],
            "runs_per_hour": round(tot["runs"] / wall * 3600) if wall else 0,
            "simulated_time_s": round(tot["sim_s"], 3),
            "steps": tot["steps"],
            "context_switches": tot["switches"],
            "threads_simulated": tot["threads"],
            "distinct_histories": len(digests),
            "distinct_interleavings": len(shapes),
            "nontrivial_runs": tot["nontrivial"],
            "faults_fired": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "probes_at_zero": [p for p in want if not probes.get(p)],
            "hash_seeds": groups,
            "stopped_at_deadline": early,
            "real_code": getattr(mod, "REAL", "all mabel code, orso, pyarrow, orjson, zstandard, lz4"),
            "stubs": getattr(mod, "STUBS", "scheduler, clock, randomness, storage back end"),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        v = violations[0]
        doc = json.load(open(v["replay"]))
        print(f"{doc['violation']['class']}: {doc['violation']['message']}")
        print(f"run {v['i']} of seed {seed}; minimised in {doc['minimisation_runs']} runs to "
              f"{len(doc['switches'])} scheduling decisions, {len(doc['scenario'].get('faults', []))} faults")
        print(f"VIOLATION property={prop} replay={v['replay']}")
        return 1
    if errors:
        for e in errors[:2]:
            print(f"HARNESS ERROR in run {e['i']}:\n{e['error']}\nscenario: {json.dumps(e['scenario'])[:2000]}")
        return 2
    if len(aggs) < groups:
        for g, b in ebuf.items():
            if b:
                print(f"group {g} stderr:\n{b.decode(errors='replace')[-3000:]}")
        print(f"HARNESS ERROR: {groups - len(aggs)} group(s) gave no result")
        return 2
    if tot["runs"] < minimum:
        print(f"HARNESS ERROR: only {tot['runs']} runs before the deadline, {minimum} needed")
        return 2
    print(f"{prop}: no violation in {tot['runs']} simulated runs ({len(scen)} distinct non-trivial), "
          f"{tot['sim_s']:.0f} s simulated, {tot['steps']} steps, faults {sum(faults.values())}, {wall:.1f} s"
          + (f", probes at zero: {ev['coverage']['probes_at_zero']}" if ev['coverage']['probes_at_zero'] else ""))
    return 0
