// C11: Cholesky factor.
#include "linalg.hpp"
#include "shapes.hpp"
static const double TOL = 4;
#if VTI == 0
const char* const pbt::rule = "size and family (product of an integer factor with power-of-two diagonal, B*B^T plus a diagonal, graded by powers of two) are drawn; non-trivial = size >= 2 and not diagonal";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
struct Call { const T* a; T *l, *aft; };
template<std::size_t N> void call(Call& c) { const auto A = load<T, N, N>(c.a); store_exact<T, N, N>(c.l, mlib::chol(A)); store<T, N, N>(c.aft, A); }
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(n) t.add(&call<n>, n <= 6 ? 20 : n <= 12 ? 90 : n <= 20 ? 400 : n <= 40 ? 8000000 : 40000000, n);
    LINALG(X)
#undef X
    t.done(); return t; }();
  return t;
}
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t n = e.d[0];
  int fam = (int)s.below(4);
  Mat<T> a(n, n), l(n, n), aft(n, n), w; bool exact = false;
  if (fam <= 1) {
    int64_t mag = 1 + (int64_t)s.below(9); Mat<int64_t> l0(n, n), m(n, n);
    for (std::size_t i = 0; i < n; i++) { l0(i, i) = fam == 0 ? 1 << s.below(4) : 1 + (int64_t)s.below(9); for (std::size_t j = 0; j < i; j++) l0(i, j) = s.chance(1, 4) ? 0 : s.zigzag(mag); }
    if (n > 1 && s.coin()) { Mat<int64_t> d = l0; structure(s, l0.v, n, n); for (std::size_t i = 0; i < n; i++) for (std::size_t j = i; j < n; j++) l0(i, j) = d(i, j); } // below the diagonal
    for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) for (std::size_t k = 0; k < n; k++) m(i, j) += l0(i, k) * l0(j, k);
    a = cast_mat<T>(m); w = cast_mat<T>(l0); exact = fam == 0;
    if (!exact) { // positive definiteness must be clear of rounding: shift unless exactness is on our side
      for (std::size_t i = 0; i < n; i++) a(i, i) += a(i, i) / 4;
    }
  } else {
    Mat<T> b = gen_mat<T>(s, n, n, 500);
    T mx = 1; for (auto& x : b.v) mx = std::max(mx, (T)std::fabs(x));
    for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j <= i; j++) { T t = 0; for (std::size_t k = 0; k < n; k++) t += b(i, k) * b(j, k); a(i, j) = a(j, i) = t; }
    for (std::size_t i = 0; i < n; i++) a(i, i) += a(i, i) / 8 + mx * mx * (s.coin() ? (T)n : (T)n / 64);
  }
  if (s.chance(1, 3)) {
    int k = std::is_same<T, float>::value ? 12 : 100;
    std::vector<int> r(n); for (std::size_t i = 0; i < n; i++) r[i] = (int)s.range(-k, k);
    for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) { a(i, j) = std::ldexp(a(i, j), r[i] + r[j]); if (exact) w(i, j) = std::ldexp(w(i, j), r[i]); }
    c.label("graded");
  }
  if (c.verbose) c.desc << "chol"; show(c, "A", a);
  Call k{a.v.data(), l.v.data(), aft.v.data()};
  e.f(k);
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) {
    std::string at = "(" + std::to_string(i) + "," + std::to_string(j) + ")";
    if (j > i && l(i, j) != 0) throw Fail("factor is not lower triangular: element " + at + " is " + str(l(i, j)));
    if (j == i && !(l(i, j) > 0)) throw Fail("diagonal element " + at + " of the factor is " + str(l(i, j)));
    quad p = 0, mag = qsqrt((quad)a(i, i)) * qsqrt((quad)a(j, j));
    for (std::size_t k = 0; k <= std::min(i, j); k++) p += (quad)l(i, k) * (quad)l(j, k);
    quad err = qabs(p - (quad)a(i, j)), tol = (quad)TOL * (quad)(n + 2) * (quad)eps_of<T>() * mag;
    if (!(err <= tol)) throw Fail("L*L^T differs from A at " + at + ": " + str((ldouble)p) + " instead of " + str(a(i, j)));
    c.track("err/tol", (double)(err / tol));
  }
  if (exact) { expect_same("factor", l, w); c.label("factor recovered"); }
  expect_same("operand after the call", aft, a);
  bool diag = true; for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) if (i != j && a(i, j) != 0) diag = false;
  c.nontrivial = n >= 2 && !diag;
  c.label(n <= 3 ? "n<=3" : n <= 8 ? "n 4-8" : "n>8");
}
REG_SUITE(a, "chol", prop<VT>);
}
