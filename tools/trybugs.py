"""Runs the property's check (or the checks named) against each seeded change, in a scratch copy: tools/trybugs.py [id ...] [--all-checks]"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
for b in ids:
    d = V + "/seeded/" + b; m = json.load(open(d + "/meta.json")); tmp = tempfile.mkdtemp(prefix="try-", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"]); subprocess.check_call(["git", "-C", tmp + "/r", "apply", d + "/patch.diff"])
        e = dict(os.environ, VERIF_REPO=tmp + "/r", VERIF_BUILD=tmp + "/b", VERIF_OUT=tmp + "/o", VERIF_EVID=tmp + "/e")
        e.setdefault("VERIF_SEED", "1"); e.setdefault("VERIF_TIER", "quick")
        for p in ["C%02d" % k for k in range(1, 26)] if "--all-checks" in sys.argv else [m["property"]]:
            t = time.time(); r = subprocess.run(["python3", "run.py", "check", p], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            l = [x for x in r.stdout.splitlines() if x.strip()]
            ok = r.returncode == 1 and any(x.startswith("VIOLATION property=" + p) for x in l)
            print("%-22s %s %s (%d, %.0f s) %s" % (b, p, "caught" if ok else "MISSED", r.returncode, time.time() - t, next((x for x in l if "fail" in x.lower() or "expected" in x.lower()), "")[:150]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
