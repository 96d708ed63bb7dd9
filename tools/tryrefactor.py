"""Runs all checks against rewritten versions of the library that keep its behaviour: tools/tryrefactor.py [A|B|C] [Cxx ...]"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([sys.executable, V + "/tools/refactored/mk.py"])
vs = [a for a in sys.argv[1:] if a in "ABC"] or ["A", "B", "C"]; ps = [a for a in sys.argv[1:] if a[0] == "C"] or ["C%02d" % k for k in range(1, 26)]
for v in vs:
    tmp = tempfile.mkdtemp(prefix="try-", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for f in glob.glob(V + "/tools/refactored/%s/*.hpp" % v): shutil.copy(f, tmp + "/r/matrix/")
        e = dict(os.environ, VERIF_REPO=tmp + "/r", VERIF_BUILD=tmp + "/b", VERIF_OUT=tmp + "/o", VERIF_EVID=tmp + "/e")
        e.setdefault("VERIF_SEED", "1"); e.setdefault("VERIF_TIER", "quick")
        for p in ps:
            t = time.time(); r = subprocess.run(["python3", "run.py", "check", p], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            print("%s %s %s (%.0f s) %s" % (v, p, "quiet" if r.returncode == 0 else "ALARM", time.time() - t, "" if r.returncode == 0 else r.stdout[-1500:]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
