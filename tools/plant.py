"""Makes /verif/seeded/<id>/ out of a bug description (tools/bugs*.py: id, property, edits, needs, breaks, demo), and
confirms it in a scratch copy: the change builds, the repository's stable tests pass with it, the demonstration passes
without and fails with it. /repo itself is patched only for build.sh/test.sh and restored right away."""
import importlib, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
DEMO = '''#!/bin/bash
# run with cwd /repo; exit 0 = behaves as promised
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -r "$d"' EXIT
%s
'''
RUN = '''%(cxx)s %(flags)s -w -I matrix "$here/demo.cpp" -o "$d/demo" %(link)s || exit 3
%(pre)stimeout 120 "$d/demo"'''
def make(b):
    d = os.path.join(V, "seeded", b["id"])
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        wt = os.path.join(tmp, "r")
        sh(["git", "clone", "-q", "/repo", wt])
        for f, old, new in b["edits"]:
            p = os.path.join(wt, "matrix", f); s = open(p).read()
            if s.count(old) != 1: return "edit of %s matches %d times" % (f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        patch = sh(["git", "-C", wt, "diff"]).stdout
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/meta.json", "w").write(json.dumps(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
        if "files" in b:
            for n, t in b["files"].items(): open(os.path.join(d, n), "w").write(t)
        if "demo" in b: open(d + "/demo.cpp", "w").write(b["demo"])
        script = b.get("script") or RUN % dict(cxx=b.get("cxx", "g++"), flags=b.get("flags", "-std=c++17 -O1"), link=b.get("link", ""), pre=b.get("pre", ""))
        open(d + "/demo.sh", "w").write(DEMO % script)
        # demonstration: clean and changed
        r = sh(["bash", d + "/demo.sh"], cwd="/repo")
        if r.returncode: return "demo fails on the unchanged tree (%d): %s" % (r.returncode, r.stdout[-1500:])
        r = sh(["bash", d + "/demo.sh"], cwd=wt)
        if r.returncode == 0: return "demo passes with the change"
        if r.returncode == 3 and not b.get("compile"): return "demo does not compile with the change: " + r.stdout[-1500:]
        # stable tests
        st = set(stable())
        a = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        if a.returncode: return "patch does not apply: " + a.stdout
        try:
            o = os.path.join(tmp, "o.json")
            t1 = sh(["bash", "/opt/vp/build.sh"])
            t = sh(["bash", "/opt/vp/test.sh", o])
            if t1.returncode: return "does not build: " + t1.stdout[-1500:]
            res = json.load(open(o)); bad = st - set(res["passed"])
            if bad: return "tests fail: %s" % sorted(bad)[:4]
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
        return ""
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "stable_pass"):
        if k in b: return b[k]
    raise SystemExit("baseline keys: %s" % list(b))
if __name__ == "__main__":
    m = importlib.import_module(sys.argv[1]); want = sys.argv[2:]
    for b in m.BUGS:
        if want and b["id"] not in want: continue
        e = make(b)
        print(b["id"], b["property"], "OK" if not e else "REJECTED: " + e, flush=True)
        if e: shutil.rmtree(os.path.join(V, "seeded", b["id"]), ignore_errors=True)
