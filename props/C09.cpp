// C09: matrix power equals repeated multiplication.
#include "linalg.hpp"
#include "shapes.hpp"
static const double TOL = 5, ITOL = 20;
#if VTI == 0
const char* const pbt::rule = "size, matrix family (general, signed permutation with huge exponents, nilpotent, unimodular or well-conditioned for negative exponents), exponent and exponent type are drawn; non-trivial = size >= 2, |p| >= 2 and the matrix is not diagonal";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
enum { E_INT, E_LONG, E_SHORT, E_SCHAR, E_UINT, E_SIZE, E_LLONG, E_UCHAR, E_USHORT, NEXP };
const char* ename[] = {"int", "long", "short", "signed char", "unsigned", "size_t", "long long", "unsigned char", "unsigned short"};
struct Call { const T* a; T *out, *aft; int64_t p; int et; };
template<std::size_t N> void call(Call& c) {
  const auto A = load<T, N, N>(c.a);
  switch (c.et) {
    case E_INT: store_exact<T, N, N>(c.out, mlib::pow(A, (int)c.p)); break;
    case E_LONG: store_exact<T, N, N>(c.out, mlib::pow(A, (long)c.p)); break;
    case E_SHORT: store_exact<T, N, N>(c.out, mlib::pow(A, (short)c.p)); break;
    case E_SCHAR: store_exact<T, N, N>(c.out, mlib::pow(A, (signed char)c.p)); break;
    case E_UINT: store_exact<T, N, N>(c.out, mlib::pow(A, (unsigned)c.p)); break;
    case E_SIZE: store_exact<T, N, N>(c.out, mlib::pow(A, (std::size_t)c.p)); break;
    case E_LLONG: store_exact<T, N, N>(c.out, mlib::pow(A, (long long)c.p)); break;
    case E_UCHAR: store_exact<T, N, N>(c.out, mlib::pow(A, (unsigned char)c.p)); break;
    case E_USHORT: store_exact<T, N, N>(c.out, mlib::pow(A, (unsigned short)c.p)); break;
  }
  store<T, N, N>(c.aft, A);
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(n) t.add(&call<n>, n <= 5 ? 20 : n <= 8 ? 90 : n <= 20 ? 400 : 12000000, n);
    POWSIZES(X)
#undef X
    t.done(); return t; }();
  return t;
}
uint64_t exp_max(int et) { return et == E_SCHAR ? 127 : et == E_UCHAR ? 255 : et == E_USHORT ? 65535 : et == E_SHORT ? 32767 : et == E_INT ? 2147483647 : et == E_UINT ? 4294967295ull : et == E_SIZE ? ~0ull : ~0ull >> 1; }
typedef Mat<uint64_t> UMat;
UMat umul(const UMat& a, const UMat& b) { UMat r(a.r, b.c); for (std::size_t i = 0; i < a.r; i++) for (std::size_t k = 0; k < a.c; k++) for (std::size_t j = 0; j < b.c; j++) r(i, j) += a(i, k) * b(k, j); return r; }
UMat upow(UMat a, uint64_t p) { // modulo 2^64
  UMat r(a.r, a.r); for (std::size_t i = 0; i < a.r; i++) r(i, i) = 1;
  if (p <= 12) { for (uint64_t k = 0; k < p; k++) r = umul(r, a); return r; }
  for (int b = 63; b >= 0; b--) { r = umul(r, r); if ((p >> b) & 1) r = umul(r, a); }
  return r;
}
QMat qpow(const QMat& a, uint64_t p) {
  QMat r(a.r, a.r); for (std::size_t i = 0; i < a.r; i++) r(i, i) = 1;
  QMat b = a; while (p) { if (p & 1) r = qmul(r, b); p >>= 1; if (p) b = qmul(b, b); }
  return r;
}
enum { G_GENERAL, G_PERM, G_NILP, G_REG, G_UNIP, G_COUNT };
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t n = e.d[0];
  int et = (int)s.below(NEXP);
  int g = (int)s.below(G_COUNT);
  bool sig = et != E_UINT && et != E_SIZE && et != E_UCHAR && et != E_USHORT;
  const uint64_t top = exp_max(et); uint64_t ap;
  if (g == G_PERM) { uint64_t m = std::min<uint64_t>(1ull << s.below(64), top); ap = s.below(m) + (uint64_t)s.coin(); if (s.chance(1, 8)) ap = top - s.below(3); }
  else if (g == G_UNIP) { ap = s.below(std::min<uint64_t>(top, 1ull << s.below(21)) + 1); if (top < 1 << 16 && s.chance(1, 8)) ap = top; }
  else ap = s.below(s.chance(1, 4) ? 40 : 10);
  bool neg = sig && !is_uint<T> && (g == G_PERM || g == G_REG || g == G_UNIP) && n <= 10 && s.coin();
  if (neg && (g == G_PERM || top < 1 << 16) && g != G_REG && s.chance(1, 8)) { ap = top + 1; c.label("most negative exponent"); }
  const int64_t p = (int64_t)(neg ? 0 - ap : ap); // for size_t the same bits
  neg = neg && ap;
  Mat<int64_t> m(n, n); int sg;
  switch (g) {
    case G_GENERAL: { static const int64_t mg[] = {1, 2, 3, 9, 50}; m = gen_square(s, n, s.coin() ? FAM_GENERAL : (int)s.below(FAM_COUNT), mg[s.below(5)]); if (is_uint<T>) { for (auto& x : m.v) x = s.chance(1, 4) ? (int64_t)s.below(type_lim<T>()) : std::llabs(x); } break; }
    case G_PERM: m = gen_square(s, n, FAM_PERM, 1); if (is_uint<T>) for (auto& x : m.v) x = std::llabs(x); break;
    case G_NILP: { int64_t mag = 1 + (int64_t)s.below(9); for (std::size_t i = 0; i < n; i++) for (std::size_t j = i + 1; j < n; j++) m(i, j) = is_uint<T> ? (int64_t)s.below(mag + 1) : s.zigzag(mag); break; }
    case G_UNIP: { // unit (or 0/1/-1) diagonal and a few entries on one side of it: large exponents with bounded results
      bool up = s.coin(); for (std::size_t i = 0; i < n; i++) m(i, i) = s.chance(1, 4) ? (is_uint<T> ? (int64_t)s.below(2) : s.zigzag(1)) : 1;
      if (n >= 2) for (unsigned k = 1 + (unsigned)s.below(3); k--;) { std::size_t i = s.below(n), j = s.below(n); if (i == j) j = (i + 1) % n; if ((i < j) != up) std::swap(i, j); m(i, j) = is_uint<T> ? (int64_t)s.below(4) : s.zigzag(3); }
      break; }
    default: m = gen_unimodular(s, n, (unsigned)(n + s.below(2 * n + 1)), 3, sg); if (is_uint<T>) for (auto& x : m.v) x = std::llabs(x);
  }
  Mat<T> a = cast_mat<T>(m), out(n, n), aft(n, n);
    if constexpr (is_flt<T>) {
    int ks = (int)std::max<int64_t>(1, std::min<int64_t>(6, 80 / (1 + (int64_t)std::min<uint64_t>(ap, 1 << 20)))); // no underflow in the power
    if (g == G_GENERAL || g == G_NILP) { if (s.coin()) scale2(a.v, -(int)s.range(1, ks)); }
    else if (g == G_REG && s.coin()) { for (std::size_t i = 0; i < n; i++) a(i, i) += (T)(2 * n) * (a(i, i) < 0 ? -1 : 1); if (s.coin()) scale2(a.v, -(int)s.range(1, std::min(ks, 4))); }
  }
  QMat q = to_q(a), x = q, u(n, n);
  QMat wq; UMat wu;
  if (neg) {
    if (is_int<T> && minor_bound(m) > std::min<ldouble>(1e9L, std::numeric_limits<T>::max())) { c.discarded = true; return; }
    if (!qinv(q, x)) { c.discarded = true; return; }
    if (is_flt<T> && g != G_PERM) {
      quad d = qabs(qdet(q)), H = hadamard(q), mxr = 0;
      std::vector<quad> rn(n); for (std::size_t i = 0; i < n; i++) { quad r = 0; for (std::size_t j = 0; j < n; j++) r += q(i, j) * q(i, j); rn[i] = qsqrt(r); }
      for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) u(i, j) = (quad)ITOL * (quad)(n * n * n) * (quad)eps_of<T>() * (H / rn[j] + qabs(x(i, j)) * H) / d;
    }
  }
  if constexpr (is_uint<T>) { UMat b(n, n); for (std::size_t i = 0; i < n * n; i++) b.v[i] = a.v[i]; wu = upow(b, ap); }
  else {
    // |x|^p bounds every intermediate product of any evaluation order
    QMat ab = qpow(qabsm(x), std::min<uint64_t>(ap, g == G_PERM ? 1 : ap));
    quad mx = qmax(ab) * (quad)n;
    if (is_int<T>) {
      if (!(mx < (quad)std::numeric_limits<T>::max())) { c.discarded = true; return; }
      UMat b(n, n);
      for (std::size_t i = 0; i < n * n; i++) { ldouble r = std::floor((ldouble)x.v[i] + 0.5L); b.v[i] = (uint64_t)(int64_t)r; }
      wu = upow(b, ap);
    } else {
      if (!(mx < (quad)(std::is_same<T, float>::value ? 1e30 : 1e250))) { c.discarded = true; return; }
      if (g == G_PERM) { UMat b(n, n); for (std::size_t i = 0; i < n * n; i++) b.v[i] = (uint64_t)(int64_t)(ldouble)x.v[i]; wu = upow(b, ap); }
      else {
        wq = qpow(x, ap);
        QMat ax = qabsm(x), up = ax; for (std::size_t i = 0; i < n * n; i++) up.v[i] += u.v[i];
        QMat hi = qpow(up, ap), lo = qpow(ax, ap);
        for (std::size_t i = 0; i < n * n; i++) u.v[i] = (hi.v[i] - lo.v[i]) * (quad)1.01 + (quad)TOL * (quad)(ap * n + 1) * (quad)eps_of<T>() * hi.v[i];
        if (neg && qmax(u) > (quad)0.05 * qmax(wq)) { c.discarded = true; c.label("ill-conditioned"); return; }
      }
    }
  }
  if (c.verbose) c.desc << "pow(A," << (neg ? "-" : "") << ap << ") exponent type " << ename[et];
  show(c, "A", a);
  Call k{a.v.data(), out.v.data(), aft.v.data(), p, et};
  e.f(k);
  for (std::size_t i = 0; i < n * n; i++) {
    std::string at = "element (" + std::to_string(i / n) + "," + std::to_string(i % n) + ") is " + str(out.v[i]);
    if constexpr (is_int<T>) { if (out.v[i] != (T)wu.v[i]) throw Fail(at + ", expected " + str((T)wu.v[i])); }
    else if (g == G_PERM) { if (out.v[i] != (T)(int64_t)wu.v[i]) throw Fail(at + ", expected " + std::to_string((int64_t)wu.v[i])); }
    else {
      quad err = qabs((quad)out.v[i] - wq.v[i]);
      if (!(err <= u.v[i])) throw Fail(at + ", exact value " + str((ldouble)wq.v[i]) + ", allowed error " + str((ldouble)u.v[i]));
      if (u.v[i] > 0) c.track(neg ? "err/tol neg" : "err/tol pos", (double)(err / u.v[i]));
    }
  }
  expect_same("operand after the call", aft, a);
  bool diag = true; for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) if (i != j && a(i, j) != 0) diag = false;
  c.nontrivial = n >= 2 && ap >= 2 && !diag;
  c.label(neg ? "p<0" : ap == 0 ? "p=0" : ap == 1 ? "p=1" : ap < 40 ? "p 2-39" : "p>=40"); c.label(ename[et]);
}
REG_SUITE(a, "pow", prop<VT>);
}
