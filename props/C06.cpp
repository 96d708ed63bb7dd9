// C06: determinant equals the exact determinant.
#include "linalg.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "size, structural family (general, dependent lines, zero line, permutation, triangular, vanishing leading minors, unimodular, zero leading block, tiny pivots) and entries are drawn; non-trivial = size >= 2 and at least n+1 non-zero entries";
void (*pbt::process_init)() = nullptr;
#endif
static const double TOL = 20;
namespace {
typedef VT T;
struct Call { const T* a; T out; T* aft; };
template<std::size_t N> void call(Call& c) { const auto A = load<T, N, N>(c.a); const T d = mlib::det(A); c.out = d; store<T, N, N>(c.aft, A); }
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(n) t.add(&call<n>, n <= 6 ? 20 : n <= 8 ? 90 : n <= 12 ? 300 : n <= 20 ? 500 : n <= 40 ? 10000000 : 60000000, n);
    LINALG(X)
#undef X
    t.done(); return t; }();
  return t;
}
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t n = e.d[0];
  int fam = (int)s.below(FAM_COUNT);
  static const int64_t mags[] = {1, 3, 9, 50, 1000, 30000};
  int64_t mag = mags[s.below(6)];
  Mat<int64_t> m = gen_square(s, n, fam, mag);
  std::size_t nzc = 0; unsigned mode = 0; int scaled = 0; quad hscaled = 0;
  Mat<T> a(n, n), aft(n, n);
  if constexpr (is_int<T>) {
    ldouble lim = n <= 3 ? (ldouble)std::numeric_limits<T>::max() / 2 : std::min<ldouble>((ldouble)std::numeric_limits<T>::max() / 2, 1e9L);
    if (n > 20 && s.chance(3, 4)) { int sg; m = gen_unimodular(s, n, (unsigned)(s.below(16) + (s.coin() ? 2 * n : 0)), 1, sg); if (s.coin()) m(s.below(n), s.below(n)) = s.zigzag(9); } // sparse: the minors stay small
    limit_minors(s, m, lim, n <= 3);
    if (minor_bound(m) > 4e18L) { c.discarded = true; return; }
    a = cast_mat<T>(m);
  } else {
    limit_minors(s, m, std::is_same<T, float>::value ? 1e25L : 1e80L, false);
    a = cast_mat<T>(m);
    mode = (unsigned)s.below(6);
    if (mode == 1) scale2(a.v, -(int)s.range(1, 12));
    else if (mode == 2) { int r = exp_room<T>(n); scale2(a.v, (int)s.range(-r, r)); }
    else if (mode == 3 && fam != FAM_ZEROLINE) { a = gen_mat<T>(s, n, n, 4096); }
    else if (mode == 4 && n >= 2 && fam != FAM_ZEROLINE) { // one tiny entry where a pivot would be
      std::size_t k = s.below(n); a(k, k) = std::ldexp((T)1, -(int)s.range(10, std::is_same<T, float>::value ? 40 : 80)); c.label("tiny pivot candidate");
    }
    else if (mode == 5 && fam != FAM_ZEROLINE) { // leading entries that cancel almost completely
      if (n >= 3) for (std::size_t j = 0; j < 2; j++) a(1, j) = a(0, j) * (1 + (j ? std::ldexp((T)1, -(int)s.range(4, std::is_same<T, float>::value ? 18 : 40)) : 0));
    }
  }
  for (auto& x : a.v) nzc += x != 0;
  if constexpr (is_flt<T>) if (!in_range(a)) { c.discarded = true; return; }
  if constexpr (is_flt<T>) if (mode == 0 && n >= 2 && s.coin()) { // one column scaled down, another one up: exact, and harmless to every intermediate result
    ldouble up = 1; for (std::size_t i = 0; i < n; i++) { ldouble t = 0; for (std::size_t j = 0; j < n; j++) t += (ldouble)m(i, j) * m(i, j); if (t > 1) up *= std::sqrt(t); }
    bool f = std::is_same<T, float>::value;
    if (up < (f ? 1e12L : 1e80L)) {
      int k = (int)s.range(1, f ? 80 : 600), ku = std::min(k, (int)s.range(0, f ? 40 : 450)); // squares of entries do not overflow
      std::size_t p = s.below(n), q = s.below(n - 1); if (q >= p) q++;
      hscaled = hadamard(to_q(a)); for (int t = 0; t < k - ku; t++) hscaled /= 2; // rounding errors scale with the columns
      scaled = 1;
      for (std::size_t i = 0; i < n; i++) { a(i, p) = std::ldexp(a(i, p), -k); a(i, q) = std::ldexp(a(i, q), ku); }
      c.label("columns scaled by 2^-k and 2^k");
    }
  }
  if (c.verbose) c.desc << "det, " << fam_name(fam);
  show(c, "A", a);
  Call k{a.v.data(), T(), aft.v.data()};
  e.f(k);
  if constexpr (is_int<T>) {
    int64_t want = det_exact(m);
    if ((int64_t)k.out != want) throw Fail("det is " + str(k.out) + ", exact value " + std::to_string(want));
    c.label(want == 0 ? "det 0" : "det non-zero");
  } else {
    QMat q = to_q(a);
    quad want = qdet(q), H = scaled != 0 ? hscaled : hadamard(q), err = qabs((quad)k.out - want);
    quad u = H * (quad)eps_of<T>() * (quad)(n * n * n);
    if (fam == FAM_ZEROLINE && k.out != 0) throw Fail("det of a matrix with a zero row or column is " + str(k.out));
    if (!(err <= u * TOL)) throw Fail("det is " + str(k.out) + ", exact value " + str((ldouble)want) + ", allowed error " + str((ldouble)(u * TOL)));
    if (u > 0) c.track("err/u", (double)(err / u));
    c.label(qabs(want) <= u ? "det 0" : "det non-zero");
  }
  expect_same("operand after the call", aft, a);
  c.nontrivial = n >= 2 && nzc > n;
  c.label(n <= 3 ? "n<=3" : n <= 8 ? "n 4-8" : "n>8"); c.label(fam_name(fam));
}
REG_SUITE(a, "det", prop<VT>);
}
