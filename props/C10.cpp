// C10: LU decomposition yields unit-lower and upper factors of A.
#include "linalg.hpp"
#include "shapes.hpp"
static const double TOL = 4;
#if VTI == 0
const char* const pbt::rule = "size and family (product of integer factors with power-of-two pivots, random regular integer, diagonally dominant, graded by 2^k) are drawn; non-trivial = size >= 2 and not diagonal";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
struct Call { const T* a; T *l, *u, *aft; };
template<std::size_t N> void call(Call& c) {
  const auto A = load<T, N, N>(c.a);
  const auto r = mlib::lu(A);
  store_exact<T, N, N>(c.l, r.first); store_exact<T, N, N>(c.u, r.second); store<T, N, N>(c.aft, A);
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(n) t.add(&call<n>, n <= 6 ? 20 : n <= 12 ? 90 : n <= 20 ? 400 : n <= 40 ? 8000000 : 40000000, n);
    LINALG(X)
#undef X
    t.done(); return t; }();
  return t;
}
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t n = e.d[0];
  int fam = (int)s.below(4);
  Mat<int64_t> l0(n, n), u0(n, n), m(n, n);
  Mat<T> a(n, n), l(n, n), u(n, n), aft(n, n), w1, w2; bool exact = false;
  if (fam == 0) {
    int64_t mag = 1 + (int64_t)s.below(n > 12 ? 3 : 9);
    for (std::size_t i = 0; i < n; i++) { l0(i, i) = 1; for (std::size_t j = 0; j < i; j++) l0(i, j) = s.chance(1, 4) ? 0 : s.zigzag(mag); }
    for (std::size_t i = 0; i < n; i++) { u0(i, i) = (1 << s.below(4)) * (s.coin() ? -1 : 1); for (std::size_t j = i + 1; j < n; j++) u0(i, j) = s.chance(1, 4) ? 0 : s.zigzag(mag); }
    if (n > 1 && s.coin()) { Mat<int64_t> d = l0, f = u0; structure(s, l0.v, n, n); structure(s, u0.v, n, n); for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) { if (j >= i) l0(i, j) = d(i, j); if (j <= i) u0(i, j) = f(i, j); } }
    for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) for (std::size_t k = 0; k < n; k++) m(i, j) += l0(i, k) * u0(k, j);
    a = cast_mat<T>(m); w1 = cast_mat<T>(l0); w2 = cast_mat<T>(u0); exact = true;
  } else if (fam == 1) { m = gen_square(s, n, s.coin() ? FAM_GENERAL : s.coin() ? FAM_TRI : FAM_UNIMOD, 20); a = cast_mat<T>(m); }
  else {
    a = gen_mat<T>(s, n, n, 4096);
    for (std::size_t i = 0; i < n; i++) { T r = 1; for (std::size_t j = 0; j < n; j++) if (j != i) r += std::fabs(a(i, j)); a(i, i) = s.coin() ? -r : r; if (s.chance(1, 3)) a(i, i) /= 8; }
  }
  if (s.chance(1, 3)) { // graded: powers of two on rows and columns, L and U scale exactly
    int k = std::is_same<T, float>::value ? 10 : 60;
    std::vector<int> r(n), q(n); for (std::size_t i = 0; i < n; i++) { r[i] = (int)s.range(-k, k); q[i] = (int)s.range(-k, k); }
    for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) { a(i, j) = std::ldexp(a(i, j), r[i] + q[j]); if (exact) { w1(i, j) = std::ldexp(w1(i, j), r[i] - r[j]); w2(i, j) = std::ldexp(w2(i, j), r[i] + q[j]); } }
    c.label("graded");
  }
  if (fam == 1) for (std::size_t k = 1; k <= n; k++) { // exactly vanishing leading minors
    Mat<int64_t> b(k, k); for (std::size_t i = 0; i < k; i++) for (std::size_t j = 0; j < k; j++) b(i, j) = m(i, j);
    if (det_exact(b) == 0) { c.discarded = true; c.label("pivot zero"); return; }
  }
  if (c.verbose) c.desc << "lu"; show(c, "A", a);
  // exact pivots: a case whose pivots are zero or lost in cancellation is outside the domain
  { QMat x = to_q(a);
    for (std::size_t k = 0; k < n; k++) {
      quad row = 0; for (std::size_t j = 0; j < n; j++) row = std::max(row, qabs((quad)a(k, j)));
      quad g = qabs(x(k, k)), sum = qabs((quad)a(k, k)); for (std::size_t p = 0; p < k; p++) sum += qabs(x(k, p) * x(p, k));
      if (!(g > sum * (quad)eps_of<T>() * (quad)1e4)) { c.discarded = true; c.label("pivot negligible"); return; }
      for (std::size_t i = k + 1; i < n; i++) { x(i, k) /= x(k, k); for (std::size_t j = k + 1; j < n; j++) x(i, j) -= x(i, k) * x(k, j); }
    } }
  Call k{a.v.data(), l.v.data(), u.v.data(), aft.v.data()};
  e.f(k);
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) {
    std::string at = "(" + std::to_string(i) + "," + std::to_string(j) + ")";
    if (j > i && l(i, j) != 0) throw Fail("first factor is not lower triangular: element " + at + " is " + str(l(i, j)));
    if (j == i && l(i, j) != 1) throw Fail("first factor has diagonal element " + at + " = " + str(l(i, j)));
    if (j < i && u(i, j) != 0) throw Fail("second factor is not upper triangular: element " + at + " is " + str(u(i, j)));
    quad p = 0, mag = qabs((quad)a(i, j));
    for (std::size_t k = 0; k <= std::min(i, j); k++) { quad t = (quad)l(i, k) * (quad)u(k, j); p += t; mag += qabs(t); }
    quad err = qabs(p - (quad)a(i, j)), tol = (quad)TOL * (quad)(n + 1) * (quad)eps_of<T>() * mag;
    if (!(err <= tol)) throw Fail("L*U differs from A at " + at + ": " + str((ldouble)p) + " instead of " + str(a(i, j)));
    if (mag > 0) c.track("err/tol", (double)(err / tol));
  }
  if (exact) { expect_same("first factor", l, w1); expect_same("second factor", u, w2); c.label("factors recovered"); }
  expect_same("operand after the call", aft, a);
  bool diag = true; for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) if (i != j && a(i, j) != 0) diag = false;
  c.nontrivial = n >= 2 && !diag;
  c.label(n <= 3 ? "n<=3" : n <= 8 ? "n 4-8" : "n>8");
}
REG_SUITE(a, "lu", prop<VT>);
}
