// C07: inverse is the true inverse for every invertible matrix.
#include "linalg.hpp"
#include "shapes.hpp"
static const double TOL = 20;
#if VTI == 0
const char* const pbt::rule = "size, structural family and entries are drawn; matrices whose error bound exceeds 5% of the largest inverse element are discarded as ill-conditioned; non-trivial = size >= 2 and more than n non-zero entries";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
struct Call { const T* a; T *out, *aft; };
template<std::size_t N> void call(Call& c) { const auto A = load<T, N, N>(c.a); store_exact<T, N, N>(c.out, mlib::inv(A)); store<T, N, N>(c.aft, A); }
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(n) t.add(&call<n>, n <= 4 ? 20 : n <= 6 ? 60 : n <= 8 ? 300 : n <= 12 ? 500 : n <= 20 ? 8000000 : 100000000, n);
    INVSIZES(X)
#undef X
    t.done(); return t; }();
  return t;
}
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t n = e.d[0];
  static const int fams[] = {FAM_GENERAL, FAM_GENERAL, FAM_GENERAL, FAM_PERM, FAM_TRI, FAM_ZEROLEAD, FAM_UNIMOD, FAM_BLOCK, FAM_DIAG};
  int fam = is_int<T> ? (int)FAM_UNIMOD : fams[s.below(9)];
  static const int64_t mags[] = {1, 3, 9, 50, 1000};
  Mat<int64_t> m = gen_square(s, n, fam, mags[s.below(is_int<T> && n > 3 ? 3 : 5)]);
  Mat<T> a(n, n), aft(n, n), out(n, n);
  if constexpr (is_int<T>) {
    if (minor_bound(m) > std::min<ldouble>(1e9L, std::numeric_limits<T>::max())) { c.discarded = true; return; }
    a = cast_mat<T>(m);
  } else {
    if (fam == FAM_GENERAL && s.coin()) for (std::size_t i = 0; i < n; i++) m(i, i) += (m(i, i) < 0 ? -1 : 1) * (int64_t)(2 * n); // better conditioned
    a = cast_mat<T>(m);
    unsigned mode = (unsigned)s.below(6);
    if (mode == 1) scale2(a.v, -(int)s.range(1, 12));
    else if (mode == 2) { int r = exp_room<T>(n); scale2(a.v, (int)s.range(-r, r)); c.label("scaled by 2^k"); }
    else if (mode == 3 && fam == FAM_GENERAL) a = gen_mat<T>(s, n, n, 4096);
    else if (mode == 4 && n >= 2) { a(s.below(n), s.below(n)) = std::ldexp((T)1, -(int)s.range(8, std::is_same<T, float>::value ? 30 : 60)); c.label("tiny entry"); }
    else if (mode == 5) { // close to a signed permutation (an orthogonal matrix), or to a multiple of one
      Mat<int64_t> pm = gen_square(s, n, s.coin() ? (int)FAM_DIAG : (int)FAM_PERM, 1); a = cast_mat<T>(pm);
      int lo = std::is_same<T, float>::value ? 12 : 40;
      for (unsigned k = 1 + (unsigned)s.below(s.coin() ? 2 : n * n); k--;) { T& x = a(s.below(n), s.below(n)); x += std::ldexp((T)s.zigzag(7), -(int)s.range(4, lo)); }
      if (s.chance(1, 3)) scale2(a.v, (int)s.range(-4, 4));
      fam = FAM_PERM; c.label("nearly orthogonal");
    }
    if (!in_range(a)) { c.discarded = true; return; }
  }
  std::size_t nzc = 0; for (auto& x : a.v) nzc += x != 0;
  QMat q = to_q(a), x;
  if (!qinv(q, x)) { c.discarded = true; c.label("singular"); return; }
  if (c.verbose) c.desc << "inv, " << fam_name(fam);
  show(c, "A", a);
  std::vector<quad> rn(n), cn(n); quad hr = 1, hc = 1;
  for (std::size_t i = 0; i < n; i++) {
    quad r = 0, k = 0; for (std::size_t j = 0; j < n; j++) { r += q(i, j) * q(i, j); k += q(j, i) * q(j, i); }
    rn[i] = qsqrt(r); cn[i] = qsqrt(k); hr *= rn[i]; hc *= cn[i];
  }
  quad d = qabs(qdet(q)), H = hr < hc ? hr : hc, mx = qmax(x), worst = 0;
  QMat u(n, n);
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) {
    quad hm = hr / rn[j]; if (hc / cn[i] < hm) hm = hc / cn[i];
    u(i, j) = (quad)(n * n * n) * (quad)eps_of<T>() * (hm + qabs(x(i, j)) * H) / d;
    if (u(i, j) > worst) worst = u(i, j);
  }
  if (is_flt<T> && worst * TOL > mx * (quad)0.05) { c.discarded = true; c.label("ill-conditioned"); return; }
  Call k{a.v.data(), out.v.data(), aft.v.data()};
  e.f(k);
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) {
    std::string at = "inverse element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(out(i, j)) + ", exact value " + str((ldouble)x(i, j));
    if constexpr (is_int<T>) {
      ldouble w = (ldouble)x(i, j); w = w < 0 ? -std::floor(-w + 0.5L) : std::floor(w + 0.5L);
      if ((ldouble)out(i, j) != w) throw Fail(at);
    } else {
      quad err = qabs((quad)out(i, j) - x(i, j));
      if (!(err <= u(i, j) * TOL)) throw Fail(at + ", allowed error " + str((ldouble)(u(i, j) * TOL)));
      c.track("err/u", (double)(err / u(i, j)));
    }
  }
  expect_same("operand after the call", aft, a);
  c.nontrivial = n >= 2 && nzc > n;
  c.label(n <= 3 ? "n<=3" : n <= 6 ? "n 4-6" : "n>6"); c.label(fam_name(fam));
}
REG_SUITE(a, "inv", prop<VT>, is_int<VT> ? 1 : 2);
}
