#!/opt/venv/bin/python
"""
Determinism self-test:  selftest.py C01 [N]
For N scenarios: search run, the same run again in another process, and a replay of the
recorded schedule must give identical event histories; repeated under several
PYTHONHASHSEEDs, each in fresh interpreters, with one and with several processes.
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def child(prop, n, mode):
    from dst import runner
    mod = runner.load_check(prop)
    runner.setup_process(getattr(mod, "IMAGES", 2))
    if mode == "b":
        import random, time
        random.seed(os.getpid()); [bytearray(random.randrange(10000)) for _ in range(1000)]  # perturb the heap
    for i in range(n):
        sc = runner.scenario(mod, prop, 7, i * 3, "quick")
        sc["_keep_switches"] = True
        r = runner.run_forked(mod, sc)
        r2 = runner.run_forked(mod, sc, r.get("switches")) if mode == "a" and not r.get("error") else None
        print(json.dumps([i, r.get("digest"), r.get("error"), None if r2 is None else r2.get("digest"),
                          None if r2 is None else r2.get("error"), r.get("steps"), r.get("n_switch")]), flush=True)


if len(sys.argv) > 3:
    child(sys.argv[1], int(sys.argv[2]), sys.argv[3])
    os._exit(0)
props = sys.argv[1].split(",")
n = int(sys.argv[2]) if len(sys.argv) > 2 else 60
bad = 0
for prop in props:
    total = 0
    for hs in ("1", "77", "4242"):
        env = dict(os.environ, PYTHONHASHSEED=hs, DST_TAG="self")
        ps = [subprocess.Popen([sys.executable, __file__, prop, str(n), m], env=env, stdout=subprocess.PIPE, text=True)
              for m in ("a", "b", "b")]
        outs = [[json.loads(l) for l in p.communicate()[0].splitlines()] for p in ps]
        for a, b, c in zip(*outs):
            total += 1
            if a[2] or not (a[1] == b[1] == c[1]) or a[3] != a[1]:
                bad += 1
                print("DIVERGED", prop, hs, a, b, c)
        if len({len(o) for o in outs}) != 1 or not outs[0]:
            bad += 1
            print("missing results", prop, hs, [len(o) for o in outs])
    print(prop, "checked", total, "scenarios x (3 processes + replay)", flush=True)
sys.exit(1 if bad else 0)
