import os
import runner
import c24
from runner import VERIF

P = lambda n: os.path.join(VERIF, "props", n)
COMMON = ["the compiler, libstdc++ and the IEEE-754 arithmetic of the machine are correct",
          "shapes are compile-time parameters: the shapes explored are those of the generated shape table of this run"]
ASSUMPTIONS = {}

# stage table: property -> list of stages (name, source, types, compiler flags, cases quick, cases thorough)
INTS = ["int", "unsigned", "llong", "short", "uchar", "ullong", "schar"]
MORE = ["long:s", "ushort_:s", "char:s", "ulong:s"]  # fewer shapes
FLTS = ["float", "double", "ldouble"]
AO = ["int", "unsigned", "llong", "float", "double", "ldouble", "short:s", "schar:s", "uchar:s"]  # unsigned short products overflow int by the rules of the language
STD = "c++14"  # the language the repository's own tests are built with; the harness also uses extensions of later standards
MAXS = {"quick": 60, "thorough": 600}  # safety net on a slow machine; the case count decides otherwise
STAGES = {
    "C01": [dict(name="random", src=["C01.cpp"], types=INTS + MORE + FLTS + ["cplx"], quick=20000000, thorough=200000000, max_s=MAXS)],
    "C02": [dict(name="random", src=["C02.cpp"], types=INTS + MORE + FLTS + ["cplx"], quick=22000000, thorough=200000000, max_s=MAXS)],
    "C03": [dict(name="random", src=["C03.cpp"], types=["int", "unsigned", "llong", "uchar", "ullong", "short"] + MORE + FLTS + ["cplx"], quick=2000000, thorough=60000000, max_s=MAXS)],
    "C04": [dict(name="random", src=["C04.cpp"], types=INTS + MORE + FLTS + ["cplx"], quick=24000000, thorough=400000000, max_s=MAXS)],
    "C06": [dict(name="random", src=["C06.cpp"], types=["long:s", "int", "llong", "short"] + FLTS, quick=8000000, thorough=60000000, max_s=MAXS)],
    "C07": [dict(name="random", src=["C07.cpp"], types=["long:s", "short:s", "schar:s", "int", "llong"] + FLTS, quick=2400000, thorough=20000000, max_s=MAXS)],
    "C08": [dict(name="random", src=["C08.cpp"], types=["long:s", "int", "llong"] + FLTS, quick=4000000, thorough=60000000, max_s=MAXS)],
    "C09": [dict(name="random", src=["C09.cpp"], types=["long:s", "short:s", "uchar:s", "ushort_:s", "schar:s", "int", "unsigned", "llong", "ullong", "float", "double", "ldouble"], quick=1400000, thorough=20000000, max_s=MAXS)],
    "C10": [dict(name="random", src=["C10.cpp"], types=FLTS, quick=2000000, thorough=40000000, max_s=MAXS)],
    "C11": [dict(name="random", src=["C11.cpp"], types=FLTS, quick=2000000, thorough=40000000, max_s=MAXS)],
    "C12": [dict(name="random", src=["C12.cpp"], types=["int", "uchar", "short", "llong", "ullong", "float", "double", "ldouble", "cplx"] + MORE, quick=20000000, thorough=200000000, max_s=MAXS)],
    "C13": [dict(name="random", src=["C13.cpp"], types=INTS + MORE + FLTS, quick=2000000, thorough=60000000, max_s=MAXS)],
    "C14": [dict(name="random", src=["C14.cpp"], types=["int", "uchar", "short", "llong", "ullong", "float", "double", "ldouble", "cplx"] + MORE, quick=10000000, thorough=200000000, max_s=MAXS)],
    "C15": [dict(name="random", src=["C15.cpp"], types=INTS + MORE + FLTS, quick=12000000, thorough=80000000, max_s=MAXS)],
    "C16": [dict(name="random", src=["C16.cpp"], types=INTS + MORE + FLTS, quick=7000000, thorough=60000000, max_s=MAXS)],
    "C17": [dict(name="random", src=["C17.cpp"], types=INTS + MORE + FLTS + ["cplx"], quick=18000000, thorough=100000000, max_s=MAXS)],
    "C18": [dict(name="random", src=["C18.cpp"], types=INTS + MORE + FLTS + ["cplx"], quick=14000000, thorough=100000000, max_s=MAXS)],
    "C19": [dict(name="random", src=["C19.cpp"], types=INTS + MORE + FLTS + ["cplx"], quick=1000000, thorough=10000000, max_s=MAXS)],
    "C20": [dict(name="random", src=["C20.cpp"], types=AO, quick=16000000, thorough=400000000, max_s=MAXS)],
    "C21": [dict(name="random", src=["C21.cpp"], types=AO, flags=("-O1", "-fwrapv"), quick=2500000, thorough=60000000, max_s=MAXS)],
    "C22": [dict(name="tsan", src=["C22.cpp"], types=["int", "unsigned", "llong", "float", "double", "short:s", "uchar:s"], flags=("-O1", "-g", "-fwrapv", "-fsanitize=thread", "-pthread"), eng_flags=("-O1", "-fsanitize=thread"),
                 env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:abort_on_error=0:report_signal_unsafe=0:atexit_sleep_ms=0"}, quick=120000, thorough=2000000, max_s=MAXS)],
    "C23": [dict(name="asan", src=["C23.cpp"], types=AO, flags=("-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"), eng_flags=("-O1", "-fsanitize=address,undefined"),
                 env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "print_stacktrace=0"}, quick=4000000, thorough=40000000, max_s=MAXS),
            dict(name="paint", src=["C23.cpp"], types=AO, std="c++20", flags=("-O0", "-fwrapv", "-DNDEBUG", "-DC23_PAINT"), quick=1000000, thorough=40000000, max_s=MAXS),
            dict(name="memcheck", src=["C23.cpp"], types=["int", "unsigned", "double"], flags=("-O0", "-g1", "-fwrapv", "-DC23_VALGRIND"), eng_flags=("-O1", "-g1"), wrap=("valgrind", "-q", "--error-limit=no", "--undef-value-errors=yes", "--main-stacksize=8388608"), quick=60000, thorough=2000000, max_s=MAXS)],
    "C25": [dict(name="random", src=["C25.cpp"], types=["int", "unsigned", "llong", "float", "double"], quick=6000000, thorough=200000000, max_s=MAXS)],
    "C24": [dict(name="programs", run=c24.stage, quick=320, thorough=2500, max_s={"quick": 200, "thorough": 1500})],
    "C05": [dict(name="random", src=["C05.cpp"], types=["int", "uchar", "short", "llong", "ullong", "float", "double", "ldouble", "cplx"] + MORE, quick=16000000, thorough=60000000, max_s=MAXS)],
}

# the same check once more in another configuration (compiler, language standard, optimisation, NDEBUG), fewer element
# types and cases: the code under test may choose by any of these
for _p, _s in STAGES.items():
    if _s[0]["name"] != "random": continue
    _m = _s[0]
    _s.append(dict(name="config", src=_m["src"], types=[t + ":s" for t in ("int", "double", "uchar") if t in _m["types"] or t + ":s" in _m["types"]], cxx="clang++", std="c++20", flags=("-O2", "-fwrapv", "-DNDEBUG"),
                   quick=_m["quick"] // 20, thorough=_m["thorough"] // 20, max_s={"quick": 15, "thorough": 60}))

def run_stages(pid, only=None, replay=None):
    def fn(tier, seed, stages):
        for st in STAGES[pid]:
            if st.get("tier") and st["tier"] != tier: continue
            if only and st["name"] != only: continue
            if callable(st.get("run")):
                st["run"](pid, st, tier, seed, stages); continue
            exe = runner.build(pid, st["name"], [P(s) for s in st["src"]], st["types"], tier, seed, cxx=st.get("cxx", "g++"), std=st.get("std", STD),
                               flags=st.get("flags", ("-O1", "-fwrapv")), link=st.get("link", ()), eng_flags=st.get("eng_flags"))
            if replay: return exe
            stages.append(runner.run_exe(pid, st["name"], exe, tier, seed, st[tier] if isinstance(st[tier], int) else 0, workers=st.get("workers"),
                                         extra=st.get("args", ()), env=st.get("env"), wrap=st.get("wrap", ()), max_s=st.get("max_s", {}).get(tier, 0)))
    return fn

CHECKS = {p: run_stages(p) for p in STAGES}

def setup():
    for p, sts in STAGES.items():
        for st in sts:
            if callable(st.get("run")): continue
            ef = tuple(st["eng_flags"]) if st.get("eng_flags") is not None else ("-O2",)
            import hashlib
            cxx = st.get("cxx", "g++")
            runner.engine_obj("engine_main", cxx, ef, cxx + hashlib.sha256(repr(ef).encode()).hexdigest()[:6])

def replay(pid, stage, kind, path, head):
    if kind == "program": return c24.replay(path)
    if kind in ("compile", "unstable"):
        print("replay by running the check: python3 run.py check %s" % pid); return 2
    st = [s for s in STAGES[pid] if s["name"] == stage][0]
    exe = runner.build(pid, stage, [P(s) for s in st["src"]], st["types"], "quick", int(head.get("seed", "1")), cxx=st.get("cxx", "g++"),
                       std=st.get("std", STD), flags=st.get("flags", ("-O1", "-fwrapv")), link=st.get("link", ()), eng_flags=st.get("eng_flags"))
    import subprocess
    return subprocess.call([*st.get("wrap", ()), exe, "--id", pid, "--replay", path, *st.get("args", ())], preexec_fn=runner.big_stack)
