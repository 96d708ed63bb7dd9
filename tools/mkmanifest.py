"""Writes MANIFEST.json: a check for every property that has one, the others under not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import checks
TECH = {
 "C01": ("property-based testing: element-wise reference model", "all element types incl. complex; signed operands kept in range, everything else unrestricted incl. NaN/inf"),
 "C02": ("property-based testing: element-wise reference model", "all element types; complex division does not compile in the library and is not part of the property"),
 "C03": ("property-based testing: exact integer / quad-precision reference product", "exact for integers (mod 2^w for unsigned), rounding bound (2m+4) eps sum|a||b| for floating elements"),
 "C04": ("property-based testing: exact / quad-precision reference and differential against mult", "2x2 only, as the function"),
 "C05": ("stateful property-based testing: permutation model over swap/transpose sequences", "exact comparison after each step"),
 "C06": ("property-based testing: exact modular determinant / quad-precision complete-pivoting reference", "integers exact while all minors stay below 1e9 (n>=4); floating error bound 20 n^3 eps Hadamard"),
 "C07": ("property-based testing: quad-precision inverse as reference", "ill-conditioned inputs are discarded and counted"),
 "C08": ("stateful property-based testing: sequences of regular and singular calls against an exception model", "singularity constructed exactly, not by round-off"),
 "C09": ("property-based testing: modular / quad-precision reference power", "seven exponent types; exponents up to the type's maximum for signed permutations"),
 "C10": ("property-based testing: triangular-form invariant, residual and recovery of constructed factors", "residual bound 4(n+1) eps |L||U|"),
 "C11": ("property-based testing: triangular-form invariant, residual and recovery of constructed factors", "residual bound 4(n+2) eps sqrt(aii ajj)"),
 "C12": ("property-based testing: index model of the concatenations", "shapes with unequal joined dimension, and equal square ones: what the overloads accept"),
 "C13": ("property-based testing: definition of the convolution sum as reference", "exact for integers"),
 "C14": ("property-based testing: index model of the minor", "exact"),
 "C15": ("property-based testing: exact integer / quad-precision two-pass reference", "integer variance only where the mean is an integer and the sum of squares fits"),
 "C16": ("property-based testing: sort-and-count reference", "no NaN elements"),
 "C17": ("property-based testing: closed-form reference, painted stack", "exact"),
 "C18": ("property-based testing: definitional oracle on exactly representable boundary cases", "epsilon >= 0; differences exactly representable"),
 "C19": ("property-based testing: captured standard output against stream formatting", "default stream state; trailing blanks on a line are tolerated"),
 "C20": ("property-based testing: allocator interposition over generated calls to every operation", "malloc family and operator new are counted between call and return"),
 "C21": ("stateful property-based testing: call histories against a fresh process, aliasing and operand comparison", "fresh process runs the calls in another order on a differently painted stack"),
 "C22": ("randomised concurrency testing: generated call mixes under ThreadSanitizer, differential against sequential results", "schedules are sampled, races found by happens-before analysis"),
 "C23": ("fuzzing with sanitizers (ASan, UBSan, libstdc++ assertions, MSan) over generated calls to every operation", "in-domain operands only"),
 "C24": ("generated programs: random translation units, standards, compilers and options against an exact reference", "g++ and clang++ as installed"),
 "C25": ("stateful property-based testing: register machine against an exact model, algebraic laws", "values kept exactly representable"),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, n = TECH[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py check %s quick" % i, thorough_cmd="python3 run.py check %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=t, level="exploration", level_note=n))
    else: m["not_applicable"].append(dict(property=i, reason="check under construction"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
