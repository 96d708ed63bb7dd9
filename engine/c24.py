"""C24: generated programs. A program is a random list of statements (operation, element type, shape, contents, way of
writing the call) spread over translation units, with a random configuration (compiler, language standard, optimisation,
include position, using-directive). It must compile, link, run, and print what exact arithmetic says."""
import concurrent.futures, hashlib, json, os, random, shutil, subprocess, tempfile
from fractions import Fraction as Fr
import runner

STDS = ["c++11", "c++11", "c++14", "c++17", "c++20", "c++23"]
CXX = ["g++", "clang++"]
OPT = ["-O0", "-O1", "-O2", "-O3", "-Os"]
NARROW = ["short", "unsigned short", "signed char", "unsigned char", "char"]
INTS = ["int", "unsigned", "long long", "long", "unsigned long long", "unsigned long"] + NARROW
BITS = {"unsigned": 32, "unsigned long long": 64, "unsigned long": 64, "unsigned short": 16, "unsigned char": 8}
LIM = {"int": 2 ** 31, "short": 2 ** 15, "signed char": 2 ** 7, "char": 2 ** 7}
FLTS = ["float", "double", "long double"]

# ---------------------------------------------------------------- exact reference
def mul(a, b): return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]
def eye(n): return [[int(i == j) for j in range(n)] for i in range(n)]
def minor(a, i, j): return [r[:j] + r[j + 1:] for k, r in enumerate(a) if k != i]
def det(a):
    n = len(a); a = [[Fr(x) for x in r] for r in a]; d = Fr(1)
    for k in range(n):
        p = next((i for i in range(k, n) if a[i][k] != 0), None)
        if p is None: return Fr(0)
        if p != k: a[p], a[k] = a[k], a[p]; d = -d
        d *= a[k][k]
        for i in range(k + 1, n):
            f = a[i][k] / a[k][k]
            for j in range(k, n): a[i][j] -= f * a[k][j]
    return d
def inv(a):
    n = len(a); d = det(a)
    if n == 1: return [[Fr(1) / a[0][0]]]
    return [[(-1) ** (i + j) * det(minor(a, j, i)) / d for j in range(n)] for i in range(n)]
def conv(a, k, mode):
    R, C = len(a), len(a[0]); off = {"": 1, "_full": 0, "_valid": 2}[mode]; r = R + 2 - 2 * off; c = C + 2 - 2 * off
    o = [[0] * c for _ in range(r)]
    for i in range(r):
        for j in range(c):
            for u in range(3):
                for v in range(3):
                    y, x = i + off - u, j + off - v
                    if 0 <= y < R and 0 <= x < C: o[i][j] += k[u][v] * a[y][x]
    return o
def trans(a): return [list(r) for r in zip(*a)]
def flat(a): return [x for r in a for x in r]
def tdiv(a, b): return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)

# ---------------------------------------------------------------- statements
class G:
    def __init__(s, rnd): s.r = rnd
    def mat(s, i, j, t, mag=9):
        lo = 0 if t in BITS or t == "bool" else -mag
        if t == "bool": mag = 1
        if t in FLTS and s.r.random() < .3: return [[Fr(s.r.randint(-4 * mag, 4 * mag), 4) for _ in range(j)] for _ in range(i)]
        return [[s.r.randint(lo, mag) for _ in range(j)] for _ in range(i)]
    def unimod(s, n):
        m = eye(n)
        for _ in range(2 * n):
            a, b = s.r.randrange(n), s.r.randrange(n)
            if a != b:
                f = s.r.choice([-1, 1]); c = [x + f * y for x, y in zip(m[a], m[b])]
                if max(map(abs, c)) <= 4: m[a] = c
        return m
def lit(x, t):
    x = Fr(x)
    if x.denominator == 1:
        v = int(x)
        if t == "bool": return "true" if v else "false"
        if t in NARROW: return "static_cast<%s>(%d)" % (t, v)
        return "%d%s" % (v, {"unsigned": "u", "long": "l", "long long": "ll", "unsigned long long": "ull", "unsigned long": "ul"}.get(t, "")) if t in INTS else "%d%s" % (v, {"float": ".f", "double": ".", "long double": ".L"}[t])
    return "%r%s" % (float(x), {"float": "f", "double": "", "long double": "L"}.get(t, ""))
def mlit(a, t): return "{ " + ", ".join(lit(x, t) for x in flat(a)) + " }"

SHAPED = ["sum", "sub", "+", "-", "++", "--", "sum_s", "s+", "sub_s", "mult_s", "s*", "div_s", "/s0", "abs", "trans", "rot180", "mult", "*", "swap_rows", "swap_cols", "conv2", "conv2_full", "conv2_valid",
          "concatenate_v", "concatenate_h", "mean", "median", "var", "stddev", "histogram", "cumulative_histogram", "compare", "fill", "zeros", "ones", "ones_u", "print"]
SQUARE = ["eye", "eye_v", "ones_sq", "isSymetric", "isIdentity", "concatenateV", "concatenateH", "concatenate_pair", "det", "inv", "inv_singular", "pow", "pow_neg", "getminor", "lu", "chol", "strassen", "chain", "chain2"]

# operations that keep values: these make sense for truth values as well
MOVES = ["trans", "rot180", "swap_rows", "swap_cols", "concatenate_v", "concatenate_h", "histogram", "cumulative_histogram", "compare", "fill", "zeros", "ones", "print", "eye", "eye_v", "ones_sq", "isSymetric", "isIdentity", "concatenateV", "concatenateH", "concatenate_pair", "getminor"]

def statement(r):
    """returns (types used, code lines with placeholders M:: = namespace prefix, expected values or text, tolerance)"""
    g = G(r); op = r.choice(SHAPED + SQUARE)
    t = r.choice(INTS + FLTS + INTS[:4] + FLTS); u = t in BITS; fl = t in FLTS
    if op in ("mean", "var", "stddev", "chol", "lu"): t = r.choice(FLTS); fl, u = True, False
    if op == "print" and t.endswith("char"): t, u = "int", False
    if op in ("inv", "inv_singular", "pow_neg") and u: t, u = "int", False
    if op in MOVES and r.random() < .08: t, u, fl = "bool", False, False
    I, J, P = (r.choice([1, 2, 3, 4, 5, r.randint(1, 11)]) for _ in range(3))
    n = r.choice([1, 2, 3, 4, 5, r.randint(1, 7)]); tol = 0.0
    decl = []; A = g.mat(I, J, t); B = g.mat(I, J, t); s = r.randint(0 if u else -6, 6) if t != "bool" else r.randint(0, 1)
    def D(name, m, i, j): decl.append("%sM::Matrix<%s, %d, %d> %s%s;" % (r.choice(["const ", ""]) if not op.startswith("swap") else "", t, i, j, name, mlit(m, t)))
    out = "m"; shp = (I, J); S = lit(s, t); rt = t; w = None
    if op in ("sum", "sub", "+", "-"):
        D("A", A, I, J); D("B", B, I, J); sg = 1 if op in ("sum", "+") else -1
        e = "M::%s(A, B)" % op if len(op) > 1 else ("A %s B" % op, "M::operator%s(A, B)" % op); w = [x + sg * y for x, y in zip(flat(A), flat(B))]
    elif op in ("++", "--"):
        D("A", A, I, J); e = ("A%s" % op, "M::operator%s(A, 0)" % op); w = [x + (1 if op == "++" else -1) for x in flat(A)]
    elif op in ("sum_s", "sub_s", "mult_s", "div_s"):
        if op == "div_s": s = r.choice([1, 2, 4, 8]) if u or fl else r.choice([1, 2, 3, -2, 4]); S = lit(s, t)
        D("A", A, I, J); sym = {"sum_s": "+", "sub_s": "-", "mult_s": "*", "div_s": "/"}[op]
        e = ("A %s %s" % (sym, S), "M::%s(A, %s)" % (op[:-2], S))
        f = {"sum_s": lambda x: x + s, "sub_s": lambda x: x - s, "mult_s": lambda x: x * s, "div_s": lambda x: Fr(x) / s if fl else tdiv(x, s)}[op]; w = [f(x) for x in flat(A)]
    elif op in ("s+", "s*"):
        D("A", A, I, J); e = ("%s %s A" % (S, op[1]), "M::operator%s(%s, A)" % (op[1], S)); w = [x + s if op == "s+" else x * s for x in flat(A)]
    elif op == "/s0":
        D("A", A, I, J); e = "M::div(A, %s)" % lit(0, t); out = "throws"; w = [1]
    elif op == "abs": D("A", A, I, J); e = "M::abs(A)"; w = [abs(x) for x in flat(A)]
    elif op == "trans": D("A", A, I, J); e = "M::trans(A)"; shp = (J, I); w = flat(trans(A))
    elif op == "rot180": D("A", A, I, J); e = "M::rot180(A)"; w = flat(A)[::-1]
    elif op in ("mult", "*"):
        B = g.mat(J, P, t); D("A", A, I, J); D("B", B, J, P); e = "M::mult(A, B)" if op == "mult" else ("A * B", "M::operator*(A, B)"); shp = (I, P); w = flat(mul(A, B))
    elif op in ("swap_rows", "swap_cols"):
        a, b = (r.randrange(I), r.randrange(I)) if op == "swap_rows" else (r.randrange(J), r.randrange(J))
        D("A", A, I, J); decl.append("M::%s(A, %d, %d);" % (op, a, b)); e = "A"; C = [list(x) for x in (A if op == "swap_rows" else trans(A))]; C[a], C[b] = C[b], C[a]; w = flat(C if op == "swap_rows" else trans(C))
    elif op.startswith("conv2"):
        if op == "conv2_valid": I, J = max(I, 3), max(J, 3); A = g.mat(I, J, t)
        K = g.mat(3, 3, t, 3); D("A", A, I, J); D("K", K, 3, 3); e = "M::%s(A, K)" % op; o = conv(A, K, op[5:]); shp = (len(o), len(o[0])); w = flat(o)
    elif op in ("concatenate_v", "concatenate_h"):
        P = P if P != (I if op[-1] == "v" else J) else P + 1
        if op[-1] == "v": B = g.mat(P, J, t); D("A", A, I, J); D("B", B, P, J); shp = (I + P, J); w = flat(A) + flat(B)
        else: B = g.mat(I, P, t); D("A", A, I, J); D("B", B, I, P); shp = (I, J + P); w = flat([x + y for x, y in zip(A, B)])
        e = "M::concatenate(A, B)"
    elif op in ("mean", "median", "var", "stddev"):
        v = sorted(flat(A)); m = Fr(sum(v), len(v)); var = sum((x - m) ** 2 for x in v) / len(v); out = "s"; tol = 1e-4
        if op == "median": w = [v[len(v) // 2] if len(v) % 2 else Fr(v[len(v) // 2 - 1] + v[len(v) // 2]) / 2]; tol = 0.0
        if op == "median" and not fl:
            x = w[0]; w = [tdiv(x.numerator, x.denominator) if isinstance(x, Fr) else x]
        if op == "mean": w = [m]
        if op == "var": w = [var]
        if op == "stddev": w = [float(var) ** .5]
        D("A", A, I, J); e = "M::%s(A)" % op
    elif op.endswith("histogram"):
        D("A", A, I, J); e = "M::%s(A)" % op; out = "map"; d = {}
        for x in sorted(flat(A)): d[x] = d.get(x, 0) + 1
        if op[0] == "c":
            k = 0
            for x in sorted(d): k += d[x]; d[x] = k
        w = [y for x in sorted(d) for y in (x, d[x])]
    elif op == "compare":
        if r.random() < .5: B = [list(x) for x in A]
        D("A", A, I, J); D("B", B, I, J); e = "M::compare(A, B, 0.125f)"; out = "b"; w = [int(flat(A) == flat(B))]
    elif op == "fill": e = "M::fill<%s, %d, %d>(%s)" % (t, I, J, S); w = [s] * (I * J)
    elif op in ("zeros", "ones"): e = "M::%s<%s, %d, %d>()" % (op, t, I, J); w = [int(op == "ones")] * (I * J)
    elif op == "ones_u": rt = t = "unsigned"; e = "M::ones<%d, %d>()" % (I, J); w = [1] * (I * J)
    elif op == "print":
        if fl: A = [[Fr(int(x * 4), 4) for x in q] for q in A]
        D("A", A, I, J); e = "M::print(A)"; out = "print"; w = [" ".join(("%g" % float(x)) if fl else str(x) for x in q) for q in A]
    else:  # square
        shp = (n, n); A = g.mat(n, n, t, 5); B = g.mat(n, n, t, 5)
        if op in ("eye", "eye_v"): e = "M::eye<%s, %d>(%s)" % (t, n, S if op == "eye_v" else ""); w = [(s if op == "eye_v" else 1) * x for x in flat(eye(n))]
        elif op == "ones_sq": e = "M::ones<%s, %d>()" % (t, n); w = [1] * (n * n)
        elif op in ("isSymetric", "isIdentity"):
            k = r.randrange(3)
            if k == 0: A = eye(n)
            if k == 1: A = [[A[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
            D("A", A, n, n); e = "M::%s(A)" % op; out = "b"; w = [int(A == trans(A) if op == "isSymetric" else A == eye(n))]
        elif op == "concatenateV": D("A", A, n, n); D("B", B, n, n); e = "M::concatenateV(A, B)"; shp = (2 * n, n); w = flat(A) + flat(B)
        elif op == "concatenateH": D("A", A, n, n); D("B", B, n, n); e = "M::concatenateH(A, B)"; shp = (n, 2 * n); w = flat([x + y for x, y in zip(A, B)])
        elif op == "concatenate_pair": D("A", A, n, n); D("B", B, n, n); k = r.random() < .5; e = "M::concatenate(A, B).%s" % ("first" if k else "second"); shp = (2 * n, n) if k else (n, 2 * n); w = flat(A) + flat(B) if k else flat([x + y for x, y in zip(A, B)])
        elif op == "det":
            if u: A = [[(x if j >= i else 0) for j, x in enumerate(q)] for i, q in enumerate(A)]
            D("A", A, n, n); e = "M::det(A)"; out = "s"; w = [det(A)]; h = 1.0
            for q in A: h *= max(1.0, float(sum(x * x for x in q)) ** .5)
            tol = ("abs", 1e-4 * h if t == "float" else 1e-10 * h) if fl and n > 3 else 0.0
        elif op in ("inv", "pow_neg"):
            A = g.unimod(n); p = r.randint(1, 2); D("A", A, n, n); X = inv(A); tol = 0.0
            e = "M::inv(A)"
            if op == "pow_neg": e = "M::pow(A, %d)" % -p; X = X if p == 1 else mul(X, X)
            w = flat(X)
            if fl: h = 1.0; [h := h * max(1.0, float(sum(x * x for x in q)) ** .5) for q in A]; mx = max(abs(float(x)) for x in w); tol = ("abs", (1e-4 if t == "float" else 1e-9) * h * (1 + mx) * (1 + mx))
        elif op == "inv_singular": A[0] = [0] * n; D("A", A, n, n); e = "M::inv(A)"; out = "throws"; w = [1]
        elif op == "pow":
            A = g.mat(n, n, "unsigned" if u else "int", 2); p = r.randint(0, 6); D("A", A, n, n); X = eye(n)
            for _ in range(p): X = mul(X, A)
            e = "M::pow(A, %d%s)" % (p, r.choice(["", "u", "l", "ll", "ull"])); w = flat(X)
        elif op == "getminor":
            if n == 1: n = 2; A = g.mat(n, n, t, 5)
            i, j = r.randrange(n), r.randrange(n); D("A", A, n, n); e = "M::getminor(A, %d, %d)" % (i, j); shp = (n - 1, n - 1); w = flat(minor(A, i, j))
        elif op == "lu":
            L = [[r.randint(-2, 2) if j < i else int(i == j) for j in range(n)] for i in range(n)]; U = [[r.choice([1, 2, -1]) if j == i else r.randint(-2, 2) if j > i else 0 for j in range(n)] for i in range(n)]
            A = mul(L, U); D("A", A, n, n); k = r.random() < .5; e = "M::lu(A).%s" % ("first" if k else "second"); w = flat(L if k else U)
        elif op == "chol":
            L = [[r.randint(-2, 2) if j < i else r.choice([1, 2, 3]) if i == j else 0 for j in range(n)] for i in range(n)]
            A = mul(L, trans(L)); D("A", A, n, n); e = "M::chol(A)"; w = flat(L); tol = 1e-3
        elif op == "strassen": n = 2; A = g.mat(2, 2, t, 5); B = g.mat(2, 2, t, 5); shp = (2, 2); D("A", A, 2, 2); D("B", B, 2, 2); e = "M::strassen(A, B)"; w = flat(mul(A, B))
        elif op == "chain": D("A", A, n, n); D("B", B, n, n); e = "M::trans(M::mult(M::sum(A, B), M::eye<%s, %d>()))" % (t, n); w = flat(trans([[x + y for x, y in zip(p, q)] for p, q in zip(A, B)]))
        elif op == "chain2": D("A", A, n, n); D("B", B, n, n); e = ("A * B + B * A - A", "M::sub(M::sum(M::mult(A, B), M::mult(B, A)), A)"); AB, BA = mul(A, B), mul(B, A); w = [x + y - z for x, y, z in zip(flat(AB), flat(BA), flat(A))]
    if u and out in ("m", "s"): w = [int(x) % 2 ** BITS[t] for x in w]
    if not fl and out in ("m", "s"):
        lim = LIM.get(t, 2 ** 62)
        if t not in BITS and any(abs(x) >= lim for x in w): return statement(r)
    if out in ("m", "s") and t == "float" and not tol and any(abs(x) > 2 ** 22 for x in w): return statement(r)
    form = r.choice(["auto", "typed", "direct", "lambda", "template"])
    if op.startswith("swap") or out in ("print", "throws"): form = "auto"
    return dict(op=op, t=rt, decl=decl, e=e, out=out, shp=shp, want=[str(x) for x in w], tol=tol, form=form, glob=r.random() < .15 and out in ("m", "s", "b") and not op.startswith("swap"))

def code(st, k, using):
    e = st["e"]
    if not isinstance(e, str): e = e[0] if using else e[1]
    pre = "" if using else "mlib::"
    e = e.replace("M::", pre); dl = [d.replace("M::", pre) for d in st["decl"]]
    ty = {"m": "%sMatrix<%s, %d, %d>" % (pre, st["t"], st["shp"][0], st["shp"][1]), "s": st["t"], "b": "bool"}.get(st["out"])
    o = []; show = {"m": "showm(%d, %s);", "s": "shows(%d, %s);", "b": "shows(%d, %s ? 1 : 0);", "map": "showmap(%d, %s);"}.get(st["out"])
    if st["out"] == "print": body = ["std::printf(\"@%d P\\n\");" % k, "std::fflush(stdout);", e + ";", "std::printf(\"@end\\n\");"]
    elif st["out"] == "throws": body = ["int thrown = 0;", "try { auto R = %s; (void)R; } catch (const std::exception&) { thrown = 1; }" % e, "shows(%d, thrown);" % k]
    elif st["form"] == "typed" and ty: body = ["%s R = %s;" % (ty, e), show % (k, "R")]
    elif st["form"] == "direct": body = [show % (k, "(" + e + ")")]
    elif st["form"] == "lambda": body = ["auto f = [&]() { return %s; };" % e, "const auto R = f();", show % (k, "R")]
    else: body = ["const auto R = %s;" % e, show % (k, "R")]
    if st["out"] in ("m", "s") and ty and st["form"] != "auto": body.append("static_assert(std::is_same<decltype(%s), %s>::value, \"result type\");" % (e, ty) if not st["op"].startswith("swap") else "")
    if st["glob"]: # evaluated before main
        return "namespace g%d { %s\n  const %s R = %s; }\nstatic void c%d() { %s }\n" % (k, "\n  ".join("static " + d for d in dl), ty, e, k, show % (k, "g%d::R" % k))
    if st["form"] == "template": return "template<int X> void t%d() {\n  %s\n}\nstatic void c%d() { t%d<%d>(); }\n" % (k, "\n  ".join(dl + body), k, k, k)
    return "static void c%d() {\n  %s\n}\n" % (k, "\n  ".join(dl + body))

HEAD = """#include <cstdio>
#include <exception>
#include <type_traits>
template<class T> void showv(T x) { std::printf(" %.25Lg", static_cast<long double>(x)); }
template<class M> void showm(int k, const M& m) { std::printf("@%d", k); for (const auto& r : m) for (const auto& x : r) showv(x); std::printf("\\n"); }
template<class T> void shows(int k, T x) { std::printf("@%d", k); showv(x); std::printf("\\n"); }
template<class M> void showmap(int k, const M& m) { std::printf("@%d", k); for (const auto& e : m) { showv(e.first); showv(e.second); } std::printf("\\n"); }
"""
HYGIENE = ["int array = 1;", "int vector = 1;", "int map = 1;", "struct pair { int x; };", "int count = 1;", "int accumulate = 1;", "int i = 1, j = 2, n = 3;", "struct T { int x; };", "int sum = 1;", "int det = 4;", "int size_t_ = 3;", "int Matrix = 2;"]

# names of the program itself: what the header includes or uses internally is none of its business
OWN = ["array", "pair", "vector", "list", "hash", "tuple", "map", "string", "deque", "less", "greater", "ratio", "exception", "iterator", "complex", "valarray", "stack", "queue", "ios", "ostream", "istream", "allocator", "numeric_limits", "overflow_error", "set", "multimap", "multiset", "locale", "runtime_error", "function", "cout", "cin", "plus", "minus", "integral_constant", "enable_if", "common_type", "char_traits"]
# ... and in a namespace of the program, where only a macro could interfere
MACRO = ["M", "N", "K", "T", "U", "R", "C", "A", "B", "X", "Y", "P", "Q", "S", "L", "D", "ROWS", "COLS", "ROW", "COL", "SIZE", "DIM", "EPS", "EPSILON", "BLOCK", "TILE", "MAX", "MIN", "ABS", "SQR", "SWAP", "FOR", "LOOP", "INLINE", "CHECK", "PIVOT", "DET",
         "i", "j", "k", "n", "m", "it", "jt", "rows", "cols", "size", "eps", "epsilon", "swap", "abs", "square", "dim", "at", "el", "elem", "loop", "range", "pivot", "matrix", "Matrix", "mat", "print", "sum", "det", "inv", "eye", "zeros", "ones", "check", "value", "data", "type", "minor_", "factor", "kernel", "tmp", "result"]

BEFORE = ["cmath", "math.h", "stdlib.h", "cstdlib", "complex", "numeric", "algorithm", "iostream", "map", "array", "utility", "string", "functional", "vector", "limits", "random", "iterator", "memory", "valarray", "tuple", "chrono", "ctime"]

def gen(r):
    ntu = r.choice([1, 1, 2, 3]); cfg = dict(cxx=r.choice(CXX), std=r.choice(STDS), opt=r.choice(OPT), extra=r.choice([[], [], ["-DNDEBUG"], ["-fPIC"], ["-D_GLIBCXX_ASSERTIONS"], ["-pedantic-errors"], ["-fno-rtti"], ["-fvisibility=hidden", "-fno-inline"]]))
    tus = []
    for _ in range(ntu):
        tus.append(dict(std=r.choice(STDS) if ntu > 1 and r.random() < .3 else None, opt=r.choice(OPT) if ntu > 1 and r.random() < .3 else None, before=r.sample(BEFORE, 4) if r.random() < .3 else [], first=r.random() < .6, twice=r.random() < .3, using=r.random() < .5, hyg=r.sample(range(len(HYGIENE)), 3), own=r.sample(OWN, 12) if r.random() < .6 else [], mac=r.sample(MACRO, 30) if r.random() < .6 else [], st=[statement(r) for _ in range(r.randint(1, 14))]))
    if ntu > 1 and r.random() < .7: tus[1]["st"].append(tus[0]["st"][0])  # the same instantiation in two translation units
    return dict(cfg=cfg, tus=tus)

def sources(p):
    out = []; k = 0; runs = []
    for i, t in enumerate(p["tus"]):
        s = ""
        for h in t.get("before", []): s += "#include <%s>\n" % h
        if t["first"]: s += "#include \"matrix.hpp\"\n" + HEAD
        else: s += HEAD + "#include \"matrix.hpp\"\n"
        if t["twice"]: s += "#include \"matrix.hpp\"\n"
        if t["using"]: s += "using namespace mlib;\n"
        else: s += "namespace { }\nnamespace user%d { %s }\n" % (i, "") + "".join("%s\n" % HYGIENE[h] if i == 0 else "" for h in t["hyg"])
        ks = []
        own = [n for n in t.get("own", []) if not any(n in HYGIENE[h].replace("=", " ").split() for h in t["hyg"])]; mac = t.get("mac", [])
        for n in own: s += "static int %s() { return 3; }\n" % n
        s += "namespace own%d { %s }\n" % (i, " ".join("inline int %s(int a) { return a; }" % n for n in mac))
        if own or mac: s += "static int own() { return %s; }\n" % " + ".join([n + "()" for n in own] + ["own%d::%s(2)" % (i, n) for n in mac])
        for st in t["st"]: s += code(st, k, t["using"]); ks.append(k); k += 1
        chk = "if (own() != %d) std::printf(\"own names disturbed\\n\");" % (3 * len(own) + 2 * len(mac)) if own or mac else ""
        s += "void tu%d() { %s %s }\n" % (i, " ".join("c%d();" % x for x in ks), chk)
        runs.append("tu%d();" % i); out.append(s)
    main = "".join("void tu%d();\n" % i for i in range(len(p["tus"]))) + "int main() { %s return 0; }\n" % " ".join(runs)
    out[0] += main
    return out

def close(got, want, tol):
    w = Fr(want) if "." not in want and "e" not in want else Fr(float(want))
    try: g = Fr(got)
    except ValueError:
        try: g = Fr(float(got))
        except (ValueError, OverflowError): return False
    if not tol: return g == w
    if isinstance(tol, (list, tuple)): return abs(g - w) <= Fr(tol[1])
    return abs(g - w) <= Fr(tol) * max(1, abs(w))

def run_program(p, d, only_text=False):
    """None when everything is right, else a description"""
    os.makedirs(d, exist_ok=True); c = p["cfg"]; objs = []
    try:
        for i, s in enumerate(sources(p)):
            f = os.path.join(d, "tu%d.cpp" % i); open(f, "w").write(s); o = f[:-4] + ".o"; objs.append(o)
            cmd = [c["cxx"], "-std=" + (p["tus"][i].get("std") or c["std"]), p["tus"][i].get("opt") or c["opt"], *c["extra"], "-w", "-I", runner.INC, "-c", f, "-o", o]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
            if r.returncode: return "does not compile: " + " ".join(cmd) + "\n" + r.stdout[:1500]
        exe = os.path.join(d, "prog")
        r = subprocess.run([c["cxx"], *objs, "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        if r.returncode: return "does not link: " + r.stdout[:1500]
        try: r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
        except subprocess.TimeoutExpired: return "the program does not terminate"
        if r.returncode: return "the program ends with status %d: %s" % (r.returncode, r.stderr[:500])
        got = {}; cur = None
        for l in r.stdout.splitlines():
            if cur is not None:
                if l == "@end": cur = None
                else: got[cur].append(l)
            elif l.startswith("@"):
                q = l[1:].split()
                if len(q) == 2 and q[1] == "P": cur = int(q[0]); got[cur] = []
                else: got[int(q[0])] = q[1:]
            else: return "unexpected output: " + l[:200]
        k = 0
        for t in p["tus"]:
            for st in t["st"]:
                g = got.get(k); w = st["want"]
                if st["out"] == "print": ok = g is not None and [x.split() for x in g] == [x.split() for x in w]
                else: ok = g is not None and len(g) == len(w) and all(close(a, b, st["tol"]) for a, b in zip(g, w))
                if not ok: return "statement %d (%s, %s): got %s, expected %s; operands %s" % (k, st["op"], st["t"], g, w, st["decl"])
                k += 1
        return None
    finally: shutil.rmtree(d, ignore_errors=True)

def shrink(p, d, budget=60):
    """drop translation units, statements, then configuration features while the program still fails"""
    msg = run_program(p, d); n = [0]
    def bad(q):
        n[0] += 1
        return n[0] <= budget and run_program(q, d)
    changed = True
    while changed and n[0] < budget:
        changed = False
        for i in range(len(p["tus"])):
            if len(p["tus"]) > 1:
                q = dict(p, tus=p["tus"][:i] + p["tus"][i + 1:]); m = bad(q)
                if m: p, msg, changed = q, m, True; break
        if changed: continue
        for i, t in enumerate(p["tus"]):
            size = len(t["st"])
            for lo, hi in [(0, size // 2), (size // 2, size)] + [(x, x + 1) for x in range(size)]:
                if hi - lo < 1 or (hi - lo == size): continue
                q = json.loads(json.dumps(p)); del q["tus"][i]["st"][lo:hi]; m = bad(q)
                if m: p, msg, changed = q, m, True; break
            if changed: break
        if changed: continue
        for key, val in (("opt", "-O0"), ("extra", []), ("std", "c++17"), ("cxx", "g++")):
            if p["cfg"][key] != val:
                q = dict(p, cfg=dict(p["cfg"], **{key: val})); m = bad(q)
                if m: p, msg, changed = q, m, True; break
    return p, msg

def stage(pid, st, tier, seed, stages):
    base = os.path.join(runner.BUILD, pid, "programs"); shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    n = st[tier]; classes = {}; samples = []; distinct = set(); nstat = 0; fail = None
    import time; t0 = time.time(); limit = st["max_s"][tier]; done = 0
    def one(k):
        if time.time() - t0 > limit: return k, None, None, True
        p = gen(random.Random("c24-%s-%s-%d" % (seed, tier, k)))
        return k, p, run_program(p, os.path.join(base, "p%d" % k)), False
    with concurrent.futures.ThreadPoolExecutor(runner.NPROC) as ex:
        futs = [ex.submit(one, k) for k in range(n)]
        for f in concurrent.futures.as_completed(futs):
            if f.cancelled(): continue
            k, p, msg, skipped = f.result()
            if skipped: continue
            done += 1
            if msg and not fail: fail = (k, p, msg); [x.cancel() for x in futs]; break
            c = p["cfg"]
            for l in (c["cxx"] + " -std=" + c["std"], c["cxx"] + " " + c["opt"], "%d translation unit(s)" % len(p["tus"])): classes[l] = classes.get(l, 0) + 1
            for t in p["tus"]:
                for l in (["matrix.hpp first"] if t["first"] else []) + ["using namespace mlib" if t["using"] else "qualified names"]: classes[l] = classes.get(l, 0) + 1
                for s in t["st"]: nstat += 1; classes["op " + s["op"]] = classes.get("op " + s["op"], 0) + 1
            if sum(len(t["st"]) for t in p["tus"]) > 1: distinct.add(hashlib.sha256(json.dumps(p).encode()).hexdigest())
            if len(samples) < 8: samples.append("%s; statements: %s" % (json.dumps(c), "; ".join("%s<%s>%s %s" % (s["op"], s["t"], "x".join(map(str, s["shp"])), s["form"]) for t in p["tus"] for s in t["st"])[:500]))
    if fail:
        k, p, msg = fail
        p = json.loads(json.dumps(p)); first = msg
        p, msg = shrink(p, os.path.join(base, "shrink"))
        os.makedirs(runner.OUT, exist_ok=True)
        path = os.path.join(runner.OUT, "%s-programs-%s.replay" % (pid, hashlib.sha256(json.dumps(p).encode()).hexdigest()[:16]))
        with open(path, "w") as f:
            f.write("property %s\nstage programs\nkind program\n" % pid); f.write("# %s\n" % (msg or first).replace("\n", "\n# "))
            f.write("program %s\n" % json.dumps(p))
            for s in sources(p): f.write("".join("# | %s\n" % l for l in s.splitlines()))
        print("program %d failed (shrunk to %d statement(s), %s): %s" % (k, sum(len(t["st"]) for t in p["tus"]), json.dumps(p["cfg"]), msg or first))
        raise runner.Violation("", path, False)
    shutil.rmtree(base, ignore_errors=True)
    print("%s/programs: %d programs, %d statements, %.1f s" % (pid, done, nstat, time.time() - t0))
    stages.append(dict(stage="programs", evaluations=done, distinct_nontrivial=len(distinct), discarded=0, statements=nstat, classes=classes, samples=samples, wall_s=round(time.time() - t0, 1), time_limited=done < n,
                       rule="a program (translation units, statements, compiler, standard, options, include position, using-directive) is generated, compiled, linked, run and its output compared with exact arithmetic; non-trivial = more than one statement"))

def replay(path):
    p = json.loads([l for l in open(path).read().splitlines() if l.startswith("program ")][0][8:])
    m = run_program(p, os.path.join(runner.BUILD, "C24", "replay"))
    print("FAILS: " + m if m else "passes")
    if m: print("VIOLATION property=C24 replay=%s" % path)
    return 1 if m else 0
