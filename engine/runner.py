import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time
import shapes

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = os.path.join(VERIF, "engine")
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "matrix")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
NPROC = os.cpu_count() or 4

class Broken(Exception):
    """the check itself cannot give an answer"""

class Violation(Exception):
    def __init__(self, msg, replay, printed=False):
        super().__init__(msg); self.replay = replay; self.printed = printed

def big_stack():
    """matrices live on the stack; how many temporaries an operation makes is its own business"""
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 512 << 20
    if hard != resource.RLIM_INFINITY: want = min(want, hard)
    if soft != resource.RLIM_INFINITY and soft < want: resource.setrlimit(resource.RLIMIT_STACK, (want, hard))

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)

def toolchain_ok(cxx):
    d = os.path.join(BUILD, "probe-%d" % os.getpid()); os.makedirs(d, exist_ok=True)
    try:
        with open(d + "/p.cpp", "w") as f:
            f.write("#include <array>\n#include <iostream>\n#include <map>\nint main(){std::array<int,3> a{};std::map<int,int> m;m[a[0]]++;std::cout<<m.size();}\n")
        r = sh([cxx, "-std=c++17", d + "/p.cpp", "-o", d + "/p"])
        return r.returncode == 0 and sh([d + "/p"]).stdout == "1"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def engine_obj(name="engine_main", cxx="g++", flags=("-O2",), tag="std"):
    """engine objects do not depend on /repo: built once by setup, on demand otherwise"""
    src = os.path.join(ENG, name + ".cpp")
    h = hashlib.sha256()
    for f in (src, os.path.join(ENG, "engine.hpp")):
        h.update(open(f, "rb").read())
    h.update(repr((cxx, flags)).encode())
    d = os.path.join(BUILD, "engine"); os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, "%s-%s-%s.o" % (name, tag, h.hexdigest()[:16]))
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh([cxx, "-std=c++17", *flags, "-Wall", "-c", src, "-o", tmp])
        if r.returncode: raise Broken("engine does not compile:\n" + r.stdout)
        os.replace(tmp, obj)
    return obj

def compile_fail(pid, stage, cmd, log):
    """The harness uses only the public interface, and compiles on the unchanged tree."""
    if not toolchain_ok(cmd[0]): raise Broken("toolchain does not work")
    if "virtual memory exhausted" in log or "Killed signal" in log or "No space left" in log: raise Broken("compiler ran out of resources:\n" + log[-2000:])
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%s-compile.replay" % (pid, stage))
    with open(path, "w") as f:
        f.write("property %s\nstage %s\nkind compile\n# command: %s\n%s\n" % (pid, stage, " ".join(cmd), log[-20000:]))
    print(log[-6000:])
    raise Violation("a program using the public interface no longer compiles", path)

def build(pid, stage, srcs, types, tier, seed, cxx="g++", std="c++17", flags=("-O1",), link=(), eng_flags=None, extra_objs=(), main="engine_main"):
    """srcs: property sources; every source is compiled once per element type (VT/VTI)."""
    d = os.path.join(BUILD, pid, stage)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shapes.emit(os.path.join(d, "shapes.hpp"), seed, tier)
    jobs = []
    for s in srcs:
        for i, t in enumerate(types):
            o = os.path.join(d, "%s-%d.o" % (os.path.basename(s)[:-4], i))
            t, _, small = t.partition(":")
            jobs.append((o, [cxx, "-std=" + std, *flags, "-w", "-I", INC, "-I", ENG, "-I", d, "-DVT=" + t, "-DVTI=%d" % i, *(["-DVSMALL"] if small else []), "-c", s, "-o", o]))
    ef = tuple(eng_flags) if eng_flags is not None else ("-O2",)
    eng = engine_obj(main, cxx, ef, cxx + hashlib.sha256(repr(ef).encode()).hexdigest()[:6])
    objs = [eng] + list(extra_objs)
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for (o, cmd), r in zip(jobs, ex.map(lambda j: sh(j[1]), jobs)):
            if r.returncode: compile_fail(pid, stage, cmd, r.stdout)
            objs.append(o)
    exe = os.path.join(d, "check")
    cmd = [cxx, *flags, *objs, "-o", exe, *link]
    r = sh(cmd)
    if r.returncode: compile_fail(pid, stage, cmd, r.stdout)
    for (o, _) in jobs: os.unlink(o)
    return exe

def run_exe(pid, stage, exe, tier, seed, cases, workers=None, extra=(), env=None, wrap=(), max_s=0):
    os.makedirs(OUT, exist_ok=True)
    ev = os.path.join(OUT, ".%s-%s.json" % (pid, stage))
    e = dict(os.environ); e.update(env or {})
    for attempt in (0, 1):
        cmd = [*wrap, exe, "--id", pid, "--stage", stage, "--seed", str(seed + attempt * 1000003), "--cases", str(cases), "--workers", str(workers or NPROC),
               "--evidence", ev, "--out", OUT, "--tier", tier, "--max-s", str(max_s), *extra]
        r = sh(cmd, env=e, preexec_fn=big_stack)
        sys.stdout.write(r.stdout); sys.stdout.flush()
        if r.returncode == 0:
            d = json.load(open(ev)); os.unlink(ev)
            return d
        if r.returncode == 1:
            m = re.search(r"^VIOLATION property=\S+ replay=(\S+)", r.stdout, re.M)
            if m: raise Violation("", m.group(1), True)
        if r.returncode == 5:
            # failed once, never again in a fresh process; a second such failure in an independent run is no coincidence
            if attempt == 0: continue
            path = os.path.join(OUT, "%s-%s-unstable.replay" % (pid, stage))
            open(path, "w").write("property %s\nstage %s\nkind unstable\nseed %d\n%s\n" % (pid, stage, seed, r.stdout))
            raise Violation("results vary from run to run", path)
        raise Broken("%s exited with %d" % (exe, r.returncode))

def cleanup(pid):
    shutil.rmtree(os.path.join(BUILD, pid), ignore_errors=True)

def write_evidence(pid, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=assumptions, wall_s=round(wall, 2), violations=violations), f, indent=1)
    os.replace(p + ".tmp", p)

def merge(stages):
    """one coverage object out of the stages' statistics"""
    cov = dict(evaluations=sum(s["evaluations"] for s in stages), distinct_nontrivial=sum(s["distinct_nontrivial"] for s in stages),
               discarded=sum(s.get("discarded", 0) for s in stages), rule=" | ".join(dict.fromkeys(s["rule"] for s in stages)), samples=[], stages={})
    for s in stages:
        cov["samples"] += s["samples"][:16 if len(stages) == 1 else 6]
        cov["stages"][s["stage"]] = {k: v for k, v in s.items() if k not in ("samples", "rule", "stage")}
    return cov

def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k["status"] == "open"] if os.path.exists(p) else []

def check(pid, tier):
    import checks
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time(); stages = []
    fn = checks.CHECKS[pid]
    code = 0
    try:
        fn(tier, seed, stages)
        for k in known(pid): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    except Violation as v:
        if str(v): print(str(v))
        if not v.printed: print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        code = 1
    finally:
        if not os.environ.get("VERIF_KEEP"): cleanup(pid)
    cov = merge(stages) if stages else dict(evaluations=0, distinct_nontrivial=0, rule="stopped by a violation before the first stage was complete", samples=[])
    write_evidence(pid, tier, seed, "exploration", cov, time.time() - t0, code, checks.ASSUMPTIONS.get(pid, []) + checks.COMMON)
    if code == 0: print("%s %s: held on %d generated cases (%d distinct non-trivial), %.1f s" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return code

def replay(path):
    import checks
    head = dict(l.split(" ", 1) for l in open(path).read().splitlines() if l and not l.startswith("#") and " " in l)
    pid, stage, kind = head["property"].strip(), head["stage"].strip(), head["kind"].strip()
    return checks.replay(pid, stage, kind, path, head)

def setup():
    import checks
    os.makedirs(BUILD, exist_ok=True)
    checks.setup()
    print("engine built")
    return 0

def main(a):
    try:
        if a[:1] == ["setup"]: return setup()
        if a[:1] == ["check"] and len(a) >= 2: return check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
        if a[:1] == ["replay"] and len(a) == 2: return replay(a[1])
        print(__doc__); return 2
    except Broken as e:
        print("CHECK BROKEN: %s" % e); return 2
