// C25: chained operations agree with exact matrix algebra.
//  machine: random programs over matrix registers of all shapes up to 4x4 (real Matrix objects that live through the whole
//           program), after every instruction the written register is compared with an exact integer model; an
//           instruction whose exact result (or the sum of magnitudes leading to it) leaves the type is not executed.
//  laws:    algebraic laws between results of the library itself, on larger shapes.
#include "linalg.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "machine: program of 2..40 instructions over registers; laws: law, shape and operands are drawn; non-trivial = a program in which at least 3 executed instructions used a register written by the program, or a law on more than one element";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
const unsigned K = 3, D = 4;
template<std::size_t A, std::size_t B> struct R { static mlib::Matrix<T, A, B> r[K]; };
template<std::size_t A, std::size_t B> mlib::Matrix<T, A, B> R<A, B>::r[K];
struct Arg { unsigned a, b, o; std::size_t p, q; int e; T s; };
enum Kind { SUM, SUB, PLUS, MINUS, INC, DEC, SUMS, SPLUS, SUBS, MULTS, STIMES, DIVS, ABS, TRANS, MULT, TIMES, STRASSEN, SWAPR, SWAPC, MINOR, CATV, CATH, POW, CONV, CONVF, CONVV, DET, INV, FILL, ZEROS, ONES, EYE, SET, COPY };
struct Ins { Kind k; const char* name; unsigned ia, ja, ib, jb, io, jo; void (*f)(const Arg&); };
std::vector<Ins>& table() { static std::vector<Ins> t; return t; }
#define INS(KIND, NAME, AI, AJ, BI, BJ, OI, OJ, EXPR) table().push_back({KIND, NAME, AI, AJ, BI, BJ, OI, OJ, [](const Arg& g) { auto& A = R<AI, AJ>::r[g.a]; auto& B = R<BI, BJ>::r[g.b]; auto& O = R<OI, OJ>::r[g.o]; (void)A; (void)B; (void)O; using namespace mlib; EXPR; }})
template<std::size_t I, std::size_t J> void reg2() {
  INS(SUM, "sum", I, J, I, J, I, J, O = mlib::sum(A, B)); INS(SUB, "sub", I, J, I, J, I, J, O = mlib::sub(A, B));
  INS(PLUS, "tmp + tmp", I, J, I, J, I, J, O = h::tmp(A) + h::tmp(B)); INS(MINUS, "tmp - tmp", I, J, I, J, I, J, O = h::tmp(A) - h::tmp(B)); INS(MINUS, "- tmp", I, J, I, J, I, J, O = A - h::tmp(B)); INS(PLUS, "+ tmp", I, J, I, J, I, J, O = A + h::tmp(B));
  INS(PLUS, "+", I, J, I, J, I, J, O = A + B); INS(MINUS, "-", I, J, I, J, I, J, O = A - B);
  INS(INC, "++", I, J, 1, 1, I, J, O = A++); INS(DEC, "--", I, J, 1, 1, I, J, O = A--);
  INS(SUMS, "+s", I, J, 1, 1, I, J, O = A + g.s); INS(SPLUS, "s+", I, J, 1, 1, I, J, O = g.s + A); INS(SUBS, "-s", I, J, 1, 1, I, J, O = A - g.s);
  INS(MULTS, "*s", I, J, 1, 1, I, J, O = A * g.s); INS(STIMES, "s*", I, J, 1, 1, I, J, O = g.s * A); INS(DIVS, "/s", I, J, 1, 1, I, J, O = A / g.s);
  if constexpr (!is_uint<T>) INS(ABS, "abs", I, J, 1, 1, I, J, O = mlib::abs(A));
  INS(TRANS, "trans", I, J, 1, 1, J, I, O = mlib::trans(A));
  INS(SWAPR, "swap_rows", I, J, 1, 1, I, J, (O = A, mlib::swap_rows(O, g.p, g.q))); INS(SWAPC, "swap_cols", I, J, 1, 1, I, J, (O = A, mlib::swap_cols(O, g.p, g.q)));
  INS(CONV, "conv2", I, J, 3, 3, I, J, O = mlib::conv2(A, B));
  if constexpr (I + 2 <= D && J + 2 <= D) INS(CONVF, "conv2_full", I, J, 3, 3, I + 2, J + 2, O = mlib::conv2_full(A, B));
  if constexpr (I >= 3 && J >= 3) INS(CONVV, "conv2_valid", I, J, 3, 3, I - 2, J - 2, O = mlib::conv2_valid(A, B));
  { INS(FILL, "fill", 1, 1, 1, 1, I, J, O = (mlib::fill<T, I, J>(g.s))); } { INS(ZEROS, "zeros", 1, 1, 1, 1, I, J, O = (mlib::zeros<T, I, J>())); } { INS(ONES, "ones", 1, 1, 1, 1, I, J, O = (mlib::ones<T, I, J>())); }
  INS(SET, "set element", I, J, 1, 1, I, J, (O = A, O[g.p][g.q] = g.s)); INS(COPY, "copy", I, J, 1, 1, I, J, O = A);
}
template<std::size_t N> void regsq() {
  if constexpr (N == 2) INS(STRASSEN, "strassen", N, N, N, N, N, N, O = mlib::strassen(A, B));
  if constexpr (N >= 2) INS(MINOR, "getminor", N, N, 1, 1, N - 1, N - 1, O = mlib::getminor(A, g.p, g.q));
  INS(POW, "pow", N, N, 1, 1, N, N, O = mlib::pow(A, (long)g.e)); { INS(EYE, "eye", 1, 1, 1, 1, N, N, O = (mlib::eye<T, N>(g.s))); }
  if constexpr (is_int<T> || N <= 3) INS(DET, "det", N, N, 1, 1, 1, 1, O[0][0] = mlib::det(A));
  if constexpr (!is_uint<T> && (is_int<T> || N <= 3)) INS(INV, "inv", N, N, 1, 1, N, N, O = mlib::inv(A));
  if constexpr (2 * N <= D) { INS(CATV, "concatenateV", N, N, N, N, 2 * N, N, O = mlib::concatenateV(A, B)); INS(CATH, "concatenateH", N, N, N, N, N, 2 * N, O = mlib::concatenateH(A, B));
    INS(CATV, "concatenate.first", N, N, N, N, 2 * N, N, O = mlib::concatenate(A, B).first); INS(CATH, "concatenate.second", N, N, N, N, N, 2 * N, O = mlib::concatenate(A, B).second); }
}
template<std::size_t N, std::size_t M, std::size_t P> void reg3() {
  INS(MULT, "mult", N, M, M, P, N, P, O = mlib::mult(A, B)); INS(TIMES, "*", N, M, M, P, N, P, O = A * B); INS(TIMES, "tmp * tmp", N, M, M, P, N, P, O = h::tmp(A) * h::tmp(B)); INS(TIMES, "tmp *", N, M, M, P, N, P, O = h::tmp(A) * B); INS(TIMES, "* tmp", N, M, M, P, N, P, O = A * h::tmp(B));
  if constexpr (N + M <= D && N != M) { INS(CATV, "concatenate vertically", N, P, M, P, N + M, P, O = mlib::concatenate(A, B)); INS(CATH, "concatenate horizontally", P, N, P, M, P, N + M, O = mlib::concatenate(A, B)); }
}
template<std::size_t N, std::size_t M> void reg3p() { reg3<N, M, 1>(); reg3<N, M, 2>(); reg3<N, M, 3>(); reg3<N, M, 4>(); }
template<std::size_t N> void regrow() { reg2<N, 1>(); reg2<N, 2>(); reg2<N, 3>(); reg2<N, 4>(); reg3p<N, 1>(); reg3p<N, 2>(); reg3p<N, 3>(); reg3p<N, 4>(); regsq<N>(); }
template<std::size_t I, std::size_t J> void put(const Mat<i128>* m) { for (unsigned k = 0; k < K; k++) for (std::size_t i = 0; i < I; i++) for (std::size_t j = 0; j < J; j++) R<I, J>::r[k][i][j] = (T)m[k](i, j); }
template<std::size_t I, std::size_t J> T get(unsigned k, std::size_t i, std::size_t j) { return R<I, J>::r[k][i][j]; }
typedef void (*PutF)(const Mat<i128>*); typedef T (*GetF)(unsigned, std::size_t, std::size_t);
#define ROW(F, I) {&F<I, 1>, &F<I, 2>, &F<I, 3>, &F<I, 4>}
const PutF putf[4][4] = {ROW(put, 1), ROW(put, 2), ROW(put, 3), ROW(put, 4)};
const GetF getf[4][4] = {ROW(get, 1), ROW(get, 2), ROW(get, 3), ROW(get, 4)};

template<class T> i128 limit() {
  if constexpr (is_uint<T>) return (i128)1 << 120;
  if constexpr (is_int<T>) return sizeof(T) == 8 ? ((i128)1 << 62) : (i128)std::numeric_limits<T>::max();
  return (i128)1 << (std::is_same<T, float>::value ? 24 : std::is_same<T, double>::value ? 53 : 62);
}
inline i128 ab(i128 x) { return x < 0 ? -x : x; }
// exact result and, in mag, a bound on every partial sum and intermediate product
struct Model {
  Mat<i128> o; i128 mag = 0;
  void cap(i128 m) { if (m > mag) mag = m; }
};
i128 det3(const Mat<i128>& a, i128& mag) { // exact expansion; mag: sum of magnitudes
  std::size_t n = a.r;
  if (n == 1) { mag = ab(a(0, 0)); return a(0, 0); }
  i128 d = 0; mag = 0;
  for (std::size_t j = 0; j < n; j++) {
    Mat<i128> m(n - 1, n - 1); for (std::size_t x = 1; x < n; x++) for (std::size_t y = 0, c = 0; y < n; y++) if (y != j) m(x - 1, c++) = a(x, y);
    i128 mm, v = det3(m, mm); d += (j % 2 ? -1 : 1) * a(0, j) * v; mag += ab(a(0, j)) * mm;
  }
  return d;
}
Mat<i128> mulm(const Mat<i128>& a, const Mat<i128>& b, i128& mag) {
  Mat<i128> o(a.r, b.c); mag = 0;
  for (std::size_t i = 0; i < a.r; i++) for (std::size_t j = 0; j < b.c; j++) { i128 s = 0, m = 0; for (std::size_t k = 0; k < a.c; k++) { s += a(i, k) * b(k, j); m += ab(a(i, k) * b(k, j)); } o(i, j) = s; if (m > mag) mag = m; }
  return o;
}
// bounds every minor; fraction-free elimination (n >= 4) multiplies two of them in 64 bits
i128 minors(const Mat<i128>& a) { i128 h = 1; for (std::size_t i = 0; i < a.r; i++) { i128 t = 0; for (std::size_t j = 0; j < a.c; j++) t += ab(a(i, j)); if (t > 1) h *= t; if (h > ((i128)1 << 80)) return h; } return h; }
template<class T> void machine(Source& s, Ctx& c) {
  if (table().empty()) { regrow<1>(); regrow<2>(); regrow<3>(); regrow<4>(); }
  static std::vector<std::vector<unsigned>> bykind = [] { std::vector<std::vector<unsigned>> v(COPY + 1); for (unsigned i = 0; i < table().size(); i++) v[table()[i].k].push_back(i); return v; }();
  Mat<i128> m[5][5][K]; bool written[5][5][K] = {};
  uint64_t mags[] = {2, 6, 40, 1000};
  uint64_t mg = std::min<uint64_t>(mags[s.below(4)], is_int<T> && sizeof(T) == 1 ? 3 : 1000);
  for (unsigned i = 1; i <= D; i++) for (unsigned j = 1; j <= D; j++) {
    for (unsigned k = 0; k < K; k++) { m[i][j][k] = Mat<i128>(i, j); for (auto& x : m[i][j][k].v) x = is_uint<T> ? (int64_t)s.below(mg + 1) : s.zigzag(mg); }
    putf[i - 1][j - 1](m[i][j]);
  }
  const i128 L = limit<T>();
  unsigned len = 2 + (unsigned)s.below(39), done = 0, chained = 0, focus = 1 + (unsigned)s.below(D);
  for (unsigned n = 0; n < len; n++) {
    unsigned kind = (unsigned)s.below(COPY + 1); if (bykind[kind].empty()) continue;
    const Ins* insp = &table()[bykind[kind][s.below(bykind[kind].size())]];
    if (s.coin()) for (int tr = 0; tr < 3 && insp->io != focus && insp->ia != focus; tr++) insp = &table()[bykind[kind][s.below(bykind[kind].size())]]; // keep the data flowing
    const Ins& ins = *insp;
    Arg g; g.a = (unsigned)s.below(K); g.b = (unsigned)s.below(K); g.o = (unsigned)s.below(K);
    unsigned lim_p = ins.ia, lim_q = ins.ja;
    if (ins.k == SWAPR) lim_q = ins.ia; if (ins.k == SWAPC) lim_p = ins.ja;
    g.p = s.below(lim_p); g.q = s.below(lim_q); g.e = (int)s.below(5); int64_t sv = is_uint<T> ? (int64_t)s.below(12) : s.zigzag(9);
    const Mat<i128>&a = m[ins.ia][ins.ja][g.a], &b = m[ins.ib][ins.jb][g.b];
    Model r; r.o = Mat<i128>(ins.io, ins.jo); std::size_t N = a.v.size(); bool ok = true;
    auto each = [&](auto f) { for (std::size_t i = 0; i < N; i++) { r.o.v[i] = f(i); r.cap(ab(r.o.v[i])); } };
    switch (ins.k) {
      case SUM: case PLUS: each([&](std::size_t i) { return a.v[i] + b.v[i]; }); break;
      case SUB: case MINUS: each([&](std::size_t i) { return a.v[i] - b.v[i]; }); break;
      case INC: each([&](std::size_t i) { return a.v[i] + 1; }); break;
      case DEC: each([&](std::size_t i) { return a.v[i] - 1; }); break;
      case SUMS: case SPLUS: each([&](std::size_t i) { return a.v[i] + sv; }); break;
      case SUBS: each([&](std::size_t i) { return a.v[i] - sv; }); break;
      case MULTS: case STIMES: each([&](std::size_t i) { return a.v[i] * sv; }); break;
      case DIVS: if (sv == 0) sv = 1; for (auto& x : a.v) if (x % sv) ok = false; if (!ok) { sv = is_uint<T> ? 1 : -1; ok = true; } each([&](std::size_t i) { return a.v[i] / sv; }); break;
      case ABS: each([&](std::size_t i) { return ab(a.v[i]); }); break;
      case TRANS: for (std::size_t i = 0; i < a.r; i++) for (std::size_t j = 0; j < a.c; j++) r.o(j, i) = a(i, j); break;
      case MULT: case TIMES: r.o = mulm(a, b, r.mag); break;
      case STRASSEN: { r.o = mulm(a, b, r.mag); i128 x = 0, y = 0; for (auto& v : a.v) x += ab(v); for (auto& v : b.v) y += ab(v); r.cap(4 * x * y); break; }
      case SWAPR: r.o = a; for (std::size_t j = 0; j < a.c; j++) std::swap(r.o(g.p, j), r.o(g.q, j)); break;
      case SWAPC: r.o = a; for (std::size_t i = 0; i < a.r; i++) std::swap(r.o(i, g.p), r.o(i, g.q)); break;
      case MINOR: for (std::size_t i = 0, x = 0; i < a.r; i++) if (i != g.p) { for (std::size_t j = 0, y = 0; j < a.c; j++) if (j != g.q) r.o(x, y++) = a(i, j); x++; } break;
      case CATV: for (std::size_t i = 0; i < ins.io; i++) for (std::size_t j = 0; j < ins.jo; j++) r.o(i, j) = i < a.r ? a(i, j) : b(i - a.r, j); break;
      case CATH: for (std::size_t i = 0; i < ins.io; i++) for (std::size_t j = 0; j < ins.jo; j++) r.o(i, j) = j < a.c ? a(i, j) : b(i, j - a.c); break;
      case POW: {
        r.o = Mat<i128>(a.r, a.r); for (std::size_t i = 0; i < a.r; i++) r.o(i, i) = 1;
        i128 nm = 1; for (std::size_t i = 0; i < a.r; i++) { i128 t = 0; for (std::size_t j = 0; j < a.r; j++) t += ab(a(i, j)); nm = std::max(nm, t); }
        i128 tot = 1; for (int e = 0; e < g.e && tot <= L; e++) tot *= nm; // row-sum norm bounds every partial product
        if (is_uint<T>) { if (tot > L) { ok = false; break; } }
        r.cap(tot); if (tot > L) { ok = false; break; }
        for (int e = 0; e < g.e; e++) { i128 x; r.o = mulm(r.o, a, x); }
        break; }
      case CONV: case CONVF: case CONVV: {
        int off = ins.k == CONV ? 1 : ins.k == CONVF ? 0 : 2;
        for (int i = 0; i < (int)ins.io; i++) for (int j = 0; j < (int)ins.jo; j++) { i128 t = 0, mm = 0; for (int u = 0; u < 3; u++) for (int v = 0; v < 3; v++) { int y = i + off - u, x = j + off - v; if (y >= 0 && x >= 0 && y < (int)a.r && x < (int)a.c) { t += b(u, v) * a(y, x); mm += ab(b(u, v) * a(y, x)); } } r.o(i, j) = t; r.cap(mm); }
        break; }
      case DET: { i128 mm; if (minors(a) > (a.r >= 4 ? (i128)2000000000 : (i128)1 << 62)) { ok = false; break; } r.o(0, 0) = det3(a, mm); r.cap(a.r >= 4 ? mm * 4 : mm); if (is_uint<T> && mm * 4 > ((i128)1 << 30)) ok = false; break; }
      case INV: {
        if (minors(a) > (a.r >= 4 ? (i128)2000000000 : (i128)1 << 62)) { ok = false; break; } i128 mm, d = det3(a, mm); if (d != 1 && d != -1) { ok = false; break; }
        r.cap(mm * 8); std::size_t n2 = a.r;
        for (std::size_t i = 0; i < n2; i++) for (std::size_t j = 0; j < n2; j++) { // adjugate / det
          if (n2 == 1) { r.o(0, 0) = d; continue; }
          Mat<i128> mi(n2 - 1, n2 - 1); for (std::size_t x = 0, p = 0; x < n2; x++) if (x != j) { for (std::size_t y = 0, q = 0; y < n2; y++) if (y != i) mi(p, q++) = a(x, y); p++; }
          i128 m2; i128 v = det3(mi, m2); r.cap(m2 * 8); r.o(i, j) = ((i + j) % 2 ? -v : v) * d;
        }
        break; }
      case FILL: for (auto& x : r.o.v) x = sv; break;
      case ZEROS: break;
      case ONES: for (auto& x : r.o.v) x = 1; break;
      case EYE: for (std::size_t i = 0; i < ins.io; i++) r.o(i, i) = sv; break;
      case SET: r.o = a; r.o(g.p, g.q) = sv; break;
      case COPY: r.o = a; break;
    }
    if (!ok || r.mag > L) continue;
    if (is_uint<T>) for (auto& x : r.o.v) { i128 md = (i128)1 << (8 * sizeof(T)); x %= md; if (x < 0) x += md; }
    g.s = from_i<T>(sv);
    if (c.verbose) {
      c.desc << "R" << ins.io << "x" << ins.jo << "[" << g.o << "] = " << ins.name << "(R" << ins.ia << "x" << ins.ja << "[" << g.a << "]";
      c.desc << ", R" << ins.ib << "x" << ins.jb << "[" << g.b << "], s=" << sv << ", p=" << g.p << ", q=" << g.q << ", e=" << g.e << ")"; show(c, "A", a); show(c, "B", b); c.desc << "; ";
    }
    if (written[ins.ia][ins.ja][g.a] || written[ins.ib][ins.jb][g.b]) chained++;
    ins.f(g);
    m[ins.io][ins.jo][g.o] = r.o; written[ins.io][ins.jo][g.o] = true; done++;
    for (std::size_t i = 0; i < ins.io; i++) for (std::size_t j = 0; j < ins.jo; j++) {
      T x = getf[ins.io - 1][ins.jo - 1](g.o, i, j);
      if (!(x == (T)r.o(i, j))) throw Fail("after instruction " + std::to_string(n) + " (" + ins.name + ") element (" + std::to_string(i) + "," + std::to_string(j) + ") of the result is " + str(x) + ", exact value " + str(r.o(i, j)));
    }
    c.label(ins.name);
  }
  for (unsigned i = 1; i <= D; i++) for (unsigned j = 1; j <= D; j++) for (unsigned k = 0; k < K; k++) for (std::size_t x = 0; x < i; x++) for (std::size_t y = 0; y < j; y++)
    if (!(getf[i - 1][j - 1](k, x, y) == (T)m[i][j][k](x, y))) throw Fail("at the end of the program register " + std::to_string(i) + "x" + std::to_string(j) + "[" + std::to_string(k) + "] holds another value than the model at (" + std::to_string(x) + "," + std::to_string(y) + ")");
  c.nontrivial = chained >= 3;
}
REG_SUITE(m, "machine", machine<VT>, 2);

// ---------- laws
struct Q { const T *a, *b, *c; T s, t; int law; std::string* msg; std::size_t p, q; };
enum { L_ASSOC, L_COMM, L_DIST_L, L_DIST_R, L_MASSOC, L_TRANS, L_TT, L_SCAL, L_ID, L_NEG, L_SWAP, L_POW, L_TRSUM, L_DETT, L_DETAB, L_BLOCK, L_CONVLIN, L_SUBSUM, L_SUBTMP, L_CHAIN, L_COUNT };
const char* lname[] = {"(A+B)+C = A+(B+C)", "A+B = B+A", "A*(B+C) = A*B+A*C", "(A+B)*C = A*C+B*C", "(A*B)*C = A*(B*C)", "trans(A*B) = trans(B)*trans(A)", "trans(trans(A)) = A", "s*(A+B) = s*A+s*B", "A*I = I*A = A", "A-B = A+(-1)*B", "swapping twice restores", "pow(A,p)*pow(A,q) = pow(A,p+q)", "trans(A+B) = trans(A)+trans(B)", "det(trans(A)) = det(A)", "det(A*B) = det(A)*det(B)", "[A;B]*C = [A*C;B*C]", "conv2(A+B,K) = conv2(A,K)+conv2(B,K)", "A-(B+C) = (A-B)-C", "(A+B)-(A+C) = B-C", "abs, trans, ++ and -- of expressions"};
template<class M> void eq(Q& q, const M& x, const M& y) { for (std::size_t i = 0; i < x.size(); i++) for (std::size_t j = 0; j < x[i].size(); j++) if (!(x[i][j] == y[i][j]) && q.msg->empty()) *q.msg = std::string(lname[q.law]) + " fails at (" + std::to_string(i) + "," + std::to_string(j) + "): " + str(x[i][j]) + " and " + str(y[i][j]); }
template<std::size_t N, std::size_t M, std::size_t P> void law(Q& q) {
  using namespace mlib;
  auto A = h::load<T, N, M>(q.a);
  switch (q.law) {
    case L_ASSOC: { auto B = h::load<T, N, M>(q.b), C = h::load<T, N, M>(q.c); eq(q, (A + B) + C, A + (B + C)); break; }
    case L_COMM: { auto B = h::load<T, N, M>(q.b); eq(q, A + B, B + A); break; }
    case L_DIST_L: { auto B = h::load<T, M, P>(q.b), C = h::load<T, M, P>(q.c); eq(q, A * (B + C), A * B + A * C); break; }
    case L_DIST_R: { auto B = h::load<T, N, M>(q.b); auto C = h::load<T, M, P>(q.c); eq(q, (A + B) * C, A * C + B * C); break; }
    case L_MASSOC: { auto B = h::load<T, M, P>(q.b); auto C = h::load<T, P, N>(q.c); eq(q, (A * B) * C, A * (B * C)); break; }
    case L_TRANS: { auto B = h::load<T, M, P>(q.b); eq(q, trans(A * B), trans(B) * trans(A)); break; }
    case L_TT: eq(q, trans(trans(A)), A); break;
    case L_SCAL: { auto B = h::load<T, N, M>(q.b); eq(q, q.s * (A + B), q.s * A + B * q.s); break; }
    case L_ID: eq(q, A * eye<T, M>(), A); eq(q, eye<T, N>() * A, A); break;
    case L_NEG: { auto B = h::load<T, N, M>(q.b); eq(q, A - B, A + T(-1) * B); eq(q, (A - B) + B, A); break; }
    case L_SWAP: { auto B = A; swap_rows(B, q.p % N, q.q % N); swap_rows(B, q.p % N, q.q % N); eq(q, A, B); swap_cols(B, q.p % M, q.q % M); swap_cols(B, q.q % M, q.p % M); eq(q, A, B); B = A; swap_rows(B, q.p % N, q.q % N); auto C = trans(A); swap_cols(C, q.p % N, q.q % N); eq(q, trans(B), C); break; }
    case L_POW: { auto S = h::load<T, N, N>(q.b); eq(q, pow(S, (long)(q.p % 4)) * pow(S, (long)(q.q % 4)), pow(S, (long)(q.p % 4 + q.q % 4))); break; }
    case L_TRSUM: { auto B = h::load<T, N, M>(q.b); eq(q, trans(A + B), trans(A) + trans(B)); break; }
    case L_DETT: { auto S = h::load<T, N, N>(q.b); T x = det(S), y = det(trans(S)); if (!(x == y)) *q.msg = "det(trans(A)) = " + str(y) + ", det(A) = " + str(x); break; }
    case L_DETAB: { auto S = h::load<T, N, N>(q.b), U = h::load<T, N, N>(q.c); T x = det(S * U), y = (T)(det(S) * det(U)); if (!(x == y)) *q.msg = "det(A*B) = " + str(x) + ", det(A)*det(B) = " + str(y); break; }
    case L_BLOCK: if constexpr (N != P) { auto B = h::load<T, P, M>(q.b); auto C = h::load<T, M, N>(q.c); eq(q, concatenate(A, B) * C, concatenate(A * C, B * C)); } break;
    case L_CONVLIN: { auto B = h::load<T, N, M>(q.b); auto Kr = h::load<T, 3, 3>(q.c); eq(q, conv2(A + B, Kr), conv2(A, Kr) + conv2(B, Kr)); eq(q, conv2_full(A + B, Kr), conv2_full(A, Kr) + conv2_full(B, Kr)); break; }
    case L_SUBSUM: { auto B = h::load<T, N, M>(q.b), C = h::load<T, N, M>(q.c); eq(q, A - (B + C), (A - B) - C); break; }
    case L_SUBTMP: { auto B = h::load<T, N, M>(q.b), C = h::load<T, N, M>(q.c); eq(q, (A + B) - (A + C), B - C); break; }
    case L_CHAIN: { auto B = h::load<T, N, M>(q.b); eq(q, (A + B)++, q.t + (A + B)); eq(q, (A + B)--, (A + B) - q.t); eq(q, trans(trans(A + B)), A + B); if constexpr (!is_uint<T>) eq(q, mlib::abs(A - B), mlib::abs(B - A)); break; }
  }
}
typedef void (*F)(Q&);
const Table<F>& laws_t() {
  static Table<F> t = [] {
    Table<F> t;
#define X(n, m, p) t.add(&law<n, m, p>, n* m + m * p, n, m, p);
    LAWSHAPES(X)
#undef X
    t.done(); return t; }();
  return t;
}
template<class T> void laws(Source& s, Ctx& c) {
  const auto& e = laws_t().draw(s); std::size_t N = e.d[0], M = e.d[1], P = e.d[2];
  int lw = (int)s.below(L_COUNT);
  std::size_t na = N * M, nb = N * M, nc = N * M; bool sq = lw == L_POW || lw == L_DETT || lw == L_DETAB;
  if (lw == L_DIST_L) nb = nc = M * P; if (lw == L_DIST_R) nc = M * P; if (lw == L_MASSOC) { nb = M * P; nc = P * N; } if (lw == L_TRANS) nb = M * P;
  if (sq) nb = nc = N * N; if (lw == L_BLOCK) { nb = P * M; nc = M * N; } if (lw == L_CONVLIN) nc = 9;
  // magnitudes: everything stays exactly representable in every order of evaluation
  ldouble L = (ldouble)limit<T>() / 2; if (is_uint<T>) L = 1e18L; uint64_t mx;
  ldouble dim = std::max(N, std::max(M, P)) * 2.0L;
  if (lw == L_MASSOC) mx = (uint64_t)std::cbrt(L / (dim * dim)); else if (lw == L_POW) mx = (uint64_t)std::floor(std::pow(L / 2, 1.0L / 6) / N);
  else if (lw == L_DETT) mx = std::min<ldouble>(20, std::floor(std::pow(std::min(L, 1e9L), 1.0L / N) / N)); else if (lw == L_DETAB) mx = (uint64_t)std::floor(std::pow(std::min(L, 1e9L), 0.5L / N) / N);
  else if (lw == L_ASSOC || lw == L_COMM || lw == L_TRSUM || lw == L_NEG || lw == L_SCAL || lw >= L_SUBSUM) mx = (uint64_t)(L / 64); else if (lw == L_TT || lw == L_ID || lw == L_SWAP) mx = (uint64_t)(L / 4);
  else if (lw == L_CONVLIN) mx = (uint64_t)std::sqrt(L / 40); else mx = (uint64_t)std::sqrt(L / (2 * dim));
  if (mx < 1) mx = 1;
  if (sq && (is_flt<T> ? ((lw == L_DETT || lw == L_DETAB) && N > 3) : N > 8)) { c.discarded = true; return; }
  if (lw == L_POW && !is_uint<T> && std::pow((ldouble)N * mx, 6) > L) { c.discarded = true; return; }
  if (lw == L_DETAB && std::pow((ldouble)N * mx, 2.0L * N) > std::min(L, 1e17L)) { c.discarded = true; return; }
  if (lw == L_DETT && std::pow((ldouble)N * mx, (ldouble)N) > std::min(L, 1e17L)) { c.discarded = true; return; }
  if (lw == L_BLOCK && N == P) { c.discarded = true; return; }
  auto gv = [&](std::size_t n) { std::vector<T> v = gen_vec<T>(s, n, mx); for (auto& x : v) { if constexpr (is_flt<T>) x = std::trunc(x); if (is_flt<T> && std::fabs((ldouble)x) > mx) x = (T)mx; } return v; };
  std::vector<T> a = gv(na), b = gv(nb), d = gv(nc);
  if (is_uint<T> && (lw == L_DETT || lw == L_DETAB)) for (auto* v : {&b, &d}) for (auto& x : *v) x = (T)s.below(3);
  std::string msg; Q q{a.data(), b.data(), d.data(), from_i<T>(is_uint<T> ? (int64_t)s.below(9) : s.zigzag(9)), from_i<T>(1), lw, &msg, s.below(64), s.below(64)};
  if (c.verbose) { c.desc << lname[lw]; show(c, "A", a.data(), N, M); show(c, "B", b.data(), 1, nb); show(c, "C", d.data(), 1, nc); }
  e.f(q);
  if (!msg.empty()) throw Fail(msg);
  c.nontrivial = na > 1 || nb > 1; c.label(lname[lw]);
}
REG_SUITE(l, "laws", laws<VT>, 3);

// inv(A*B) = inv(B)*inv(A): exact for integers (determinants +-1), within a forward error bound otherwise
template<std::size_t N> void invlaw_t(const T* a, const T* b, T* x, T* y) {
  if constexpr (!is_uint<T>) { using namespace mlib; auto A = h::load<T, N, N>(a), B = h::load<T, N, N>(b); h::store_exact<T, N, N>(x, inv(A * B)); h::store_exact<T, N, N>(y, inv(B) * inv(A)); }
}
typedef void (*IF)(const T*, const T*, T*, T*);
const IF invf[] = {&invlaw_t<1>, &invlaw_t<2>, &invlaw_t<3>, &invlaw_t<4>, &invlaw_t<5>, &invlaw_t<6>};
template<class T> void invlaw(Source& s, Ctx& c) {
  if (is_uint<T>) { c.discarded = true; return; }
  std::size_t n = 1 + s.below(6); int d;
  Mat<int64_t> a = gen_unimodular(s, n, (unsigned)(n + s.below(2 * n + 1)), 2, d), b = gen_unimodular(s, n, (unsigned)(n + s.below(2 * n + 1)), 2, d), p(n, n);
  if (is_flt<T>) for (auto* m : {&a, &b}) if (s.coin()) for (std::size_t i = 0; i < n; i++) { int64_t f = 1 + (int64_t)s.below(3); for (std::size_t j = 0; j < n; j++) (*m)(i, j) *= f; }
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) for (std::size_t k = 0; k < n; k++) p(i, j) += a(i, k) * b(k, j);
  QMat xa, xb, xp;
  if (minor_bound(p) > 1e9L || minor_bound(a) > 1e9L || minor_bound(b) > 1e9L || !qinv(to_q(a), xa) || !qinv(to_q(b), xb) || !qinv(to_q(p), xp)) { c.discarded = true; return; }
  Mat<T> A = cast_mat<T>(a), B = cast_mat<T>(b), x(n, n), y(n, n);
  if (c.verbose) c.desc << "inv(A*B) = inv(B)*inv(A)"; show(c, "A", A); show(c, "B", B);
  quad n3 = (quad)(n * n * n) * (quad)eps_of<T>() * 40, ma = qmax(xa), mb = qmax(xb), mp = qmax(xp);
  quad tol = n3 * ((quad)minor_bound(p) * (1 + mp) + (quad)n * ((quad)minor_bound(a) * (1 + ma) * (1 + mb) + (quad)minor_bound(b) * (1 + mb) * (1 + ma)));
  if (is_flt<T> && tol > 0.2) { c.discarded = true; return; }
  invf[n - 1](A.v.data(), B.v.data(), x.v.data(), y.v.data());
  for (std::size_t i = 0; i < n * n; i++) {
    quad e = qabs((quad)x.v[i] - (quad)y.v[i]);
    if (is_int<T> ? !(x.v[i] == y.v[i]) : !(e <= tol)) throw Fail("inv(A*B) = inv(B)*inv(A) fails at element " + std::to_string(i) + ": " + str(x.v[i]) + " and " + str(y.v[i]));
  }
  c.nontrivial = n > 1; c.label("inv(A*B) = inv(B)*inv(A)");
}
REG_SUITE(i, "invlaw", invlaw<VT>, is_uint<VT> ? 0 : 1);
}
