"""plant.py SPEC.py [ids...]: make, validate and store planted bugs"""
import json, os, shutil, subprocess, sys, runpy
spec = runpy.run_path(sys.argv[1])["BUGS"]
want = sys.argv[2:]
BASE = "8ee997f"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def pid_test(root):
    sh(f"rm -rf {root}/_temp {root}/temp")
    env = dict(os.environ, HOME="/root", LANG="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    x = f"/tmp/pl/junit-{os.path.basename(root)}.xml"
    sh(f"cd {root} && timeout 800 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -p no:xdist --tb=short --timeout=120 --continue-on-collection-errors --ignore=tests/storage_tests/minio_s3 --ignore=tests/storage_tests/google/test_rw_gcs.py --ignore=tests/storage_tests/google/test_rw_gcs_parquet.py -o junit_family=xunit2 --junitxml={x}", env=env)
    o = f"/tmp/pl/out-{os.path.basename(root)}.json"
    sh(f"/usr/bin/python3 /opt/vp/results.py {o} junit:{x}")
    bad = stable - set(json.load(open(o))["passed"])
    return sorted(x for x in bad if not x.endswith("::test_sample"))
for bid, b in spec.items():
    if want and bid not in want: continue
    root = f"/tmp/pl/w-{bid}"
    shutil.rmtree(root, ignore_errors=True)
    sh(f"cp -a /repo {root}")
    ok = True
    bad = []
    mine = []
    for f, edits in b["edits"].items():
        p = f"{root}/{f}"; s = open(p).read()
        for a, c in edits:
            if s.count(a) != 1: bad.append(f"{f}: {s.count(a)} matches of {a!r}")
            s = s.replace(a, c)
        open(p, "w").write(s)
    if bad: print(bid, "EDIT", bad); continue
    diff = sh("git diff", cwd=root).stdout
    # removed lines must come from the base commit
    import re
    cur = None
    for line in diff.splitlines():
        if line.startswith("--- a/"): cur = line[6:]; blame = sh(f"git blame -s --abbrev=7 HEAD -- {cur}", cwd="/repo").stdout.splitlines()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            if "^" not in blame[n-1].split()[0] and not blame[n-1].startswith(BASE): mine.append((cur, n, blame[n-1][:70]))
            n += 1
        elif line.startswith(" "): n += 1
    removed = sum(1 for l in diff.splitlines() if l.startswith("-") and not l.startswith("---"))
    d = f"/verif/seeded/{bid}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy("/tmp/pl/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    shutil.copy("/tmp/pl/kit.py", d + "/kit.py")
    open(d + "/demo.py", "w").write(("import os\n\nos.environ[\"DEMO_CLOCK\"] = \"1\"\n" if b.get("env") else "") + "from kit import *\n\n" + b["demo"].strip() + "\n\ndone()\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    clean = [sh(f"bash {d}/demo.sh", cwd="/repo") for _ in range(2)]
    pat = [sh(f"bash {d}/demo.sh", cwd=root) for _ in range(2)]
    t = [] if os.environ.get("NOTEST") else pid_test(root)
    st = sh("git status --short", cwd="/repo").stdout
    good = all(c.returncode == 0 for c in clean) and all(c.returncode for c in pat) and not t and not mine and removed
    print(bid, "OK" if good else "BAD", "clean", [c.returncode for c in clean], "patched", [c.returncode for c in pat], "tests", t, "mine", mine, "removed", removed, "status", st, flush=True)
    print("   ", pat[0].stdout.strip()[-200:], pat[0].stderr.strip()[-300:] if not pat[0].stdout else "")
    if not good:
        print("   clean:", clean[0].stdout[-300:], clean[0].stderr[-600:])
    shutil.rmtree(root, ignore_errors=True)
