// C08: zero divisors and singular matrices are reported by std::overflow_error, nothing else throws.
#include "linalg.hpp"
#if VTI == 0
const char* const pbt::rule = "a sequence of 1..6 calls (div, A/s, inv, pow with negative and non-negative exponent, lu, det), each on an operand built to be regular or singular / with a zero pivot at a drawn position, is executed with every exception caught; non-trivial = the sequence holds a call that must throw";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
enum { DIV_F, DIV_OP, INV, POWNEG, POWPOS, LU, DET, NOPS };
const char* opname[] = {"div(A,s)", "A/s", "inv(A)", "pow(A,-p)", "pow(A,p)", "lu(A)", "det(A)"};
struct Call { const T* a; T s; int p; T *o1, *o2, *aft; int op; bool threw; std::string odd; };
template<std::size_t N, std::size_t M> void call(Call& c) {
  using namespace mlib;
  const auto A = h::load<T, N, M>(c.a);
  c.threw = false;
  try {
    switch (c.op) {
      case DIV_F: h::store_exact<T, N, M>(c.o1, mlib::div(A, c.s)); break;
      case DIV_OP: h::store_exact<T, N, M>(c.o1, A / c.s); break;
      default:
        if constexpr (N == M) switch (c.op) {
          case INV: h::store_exact<T, N, N>(c.o1, mlib::inv(A)); break;
          case POWNEG: case POWPOS: h::store_exact<T, N, N>(c.o1, mlib::pow(A, c.p)); break;
          case LU: { auto r = mlib::lu(A); h::store_exact<T, N, N>(c.o1, r.first); h::store_exact<T, N, N>(c.o2, r.second); break; }
          case DET: c.o1[0] = mlib::det(A); break;
        }
    }
  } catch (const std::overflow_error& e) { c.threw = true;
  } catch (const std::exception& e) { c.odd = std::string("an exception other than std::overflow_error: ") + e.what();
  } catch (...) { c.odd = "an exception of unknown type"; }
  h::store<T, N, M>(c.aft, A);
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(n, m) t.add(&call<n, m>, n* m, n, m);
    X(1, 1) X(2, 2) X(3, 3) X(4, 4) X(5, 5) X(6, 6) X(7, 7) X(8, 8) X(1, 3) X(3, 1) X(2, 5) X(6, 4) X(9, 2) X(10, 10)
#undef X
    t.done(); return t; }();
  return t;
}
const Table<F>& squares() {
  static Table<F> t = [] { Table<F> t; for (auto& e : table().e) if (e.d[0] == e.d[1]) t.add(e.f, e.cost, e.d[0], e.d[1]); t.done(); return t; }();
  return t;
}
// regular, with exactly computable inverse: permutation of powers of two (float) or of +-1 (int)
Mat<T> regular(Source& s, std::size_t n) {
  Mat<T> a(n, n); std::vector<std::size_t> p(n); for (std::size_t i = 0; i < n; i++) p[i] = i;
  for (std::size_t i = n; i > 1; i--) std::swap(p[i - 1], p[s.below(i)]);
  for (std::size_t i = 0; i < n; i++) { T v = s.coin() ? T(1) : T(-1); if (is_flt<T>) v = (T)std::ldexp((double)v, (int)s.range(-4, 4)); a(i, p[i]) = v; }
  return a;
}
template<class T> void prop(Source& s, Ctx& c) {
  int calls = 1 + (int)s.below(6); bool any = false;
  for (int q = 0; q < calls; q++) {
    int op = (int)s.below(NOPS);
    const auto& e = (op == DIV_F || op == DIV_OP) ? table().draw(s) : squares().draw(s);
    std::size_t n = e.d[0], m = e.d[1];
    bool bad = s.coin(), maybe = false;
    Mat<T> a(n, m), o1(n, m), o2(n, m), aft(n, m), w1(n, m), w2(n, m); bool cmp = true;
    T sc = T(2); int p = 1 + (int)s.below(6);
    if (op == DIV_F || op == DIV_OP) {
      a = gen_mat<T>(s, n, m, type_lim<T>(), true);
      if (bad) sc = is_flt<T> && s.coin() ? (T)-0.0 : T(0);
      else {
        if constexpr (is_flt<T>) {
          typedef std::numeric_limits<T> L;
          const T sp[] = {T(1), T(-1), L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), L::max(), L::infinity(), L::quiet_NaN(), (T)0.3, (T)1e-9, (T)-1e-12};
          sc = sp[s.below(12)];
        } else { sc = (T)s.zigzag(type_lim<T>()); if (sc == 0) sc = 1; }
      }
      if (!bad) for (std::size_t i = 0; i < a.v.size(); i++) w1.v[i] = a.v[i] / sc;
    } else if (op == LU) {
      // A = L*U, L unit lower, U upper with power-of-two diagonal; a zero pivot at position k makes it fail there
      Mat<int64_t> l(n, n), u(n, n), x(n, n);
      for (std::size_t i = 0; i < n; i++) { l(i, i) = 1; for (std::size_t j = 0; j < i; j++) l(i, j) = s.zigzag(3); }
      for (std::size_t i = 0; i < n; i++) { u(i, i) = (1 << s.below(3)) * (s.coin() ? -1 : 1); for (std::size_t j = i + 1; j < n; j++) u(i, j) = s.zigzag(5); }
      if (bad) { std::size_t k = s.chance(1, 3) ? n - 1 : s.below(n); u(k, k) = 0; c.label(k + 1 == n ? "zero last pivot" : "zero inner pivot"); }
      for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) for (std::size_t k = 0; k < n; k++) x(i, j) += l(i, k) * u(k, j);
      a = cast_mat<T>(x); w1 = cast_mat<T>(l); w2 = cast_mat<T>(u);
      if constexpr (is_flt<T>) if (!bad && s.chance(1, 4)) { // upper triangular: its own factor, however small (or large) the pivots are
        typedef std::numeric_limits<T> L; const T sp[] = {L::denorm_min(), -L::denorm_min(), L::min(), L::epsilon(), L::max(), (T)1e-9, (T)-1e-12, std::ldexp((T)1, L::min_exponent / 2 - 3)};
        w1 = Mat<T>(n, n); for (std::size_t i = 0; i < n; i++) w1(i, i) = 1;
        w2 = cast_mat<T>(u); for (std::size_t i = 0; i < n; i++) if (s.coin()) w2(i, i) = sp[s.below(8)];
        a = w2; c.label("tiny or huge pivots");
      }
    } else if (bad) {
      int fam = is_int<T> || n <= 3 ? (s.coin() ? FAM_DEP : FAM_ZEROLINE) : FAM_ZEROLINE;
      Mat<int64_t> x = gen_square(s, n, fam, n <= 3 ? 20 : 5);
      limit_minors(s, x, is_flt<T> ? 1e6L : n <= 3 ? 1e9L : 1e9L, n <= 3);
      if (fam == FAM_DEP && det_exact(x) != 0) for (std::size_t j = 0; j < n; j++) x(0, j) = 0; // limiting may have broken the dependency
      a = cast_mat<T>(x); cmp = false;
      c.label(fam_name(fam));
      if (op == POWPOS) { for (auto& v : a.v) v = v != 0 ? 1 : 0; } // no overflow in the power
    } else if (is_flt<T> && op == INV && s.chance(1, 6)) {
      // determinant underflows: either the exception or a finite result
      maybe = true; cmp = false;
      for (std::size_t i = 0; i < n; i++) a(i, i) = std::ldexp((T)1, std::is_same<T, float>::value ? -100 : std::is_same<T, double>::value ? -900 : -14000);
      if (n < 2) maybe = false;
      c.label("determinant underflows");
    } else {
      a = regular(s, n);
      if constexpr (is_flt<T>) if ((op == INV || op == DET || (op == POWNEG && p == 1)) && s.chance(1, 3)) { // tiny but representable determinant
        int room = std::is_same<T, float>::value ? 118 : 1012; room -= (int)(4 * n);
        for (auto& v : a.v) if (v != 0) { int k = (int)s.range(0, room); v = std::ldexp(v, -k); room -= k; }
        c.label("tiny determinant");
      }
      QMat x = to_q(a), y = x, z;
      if (op == INV || op == POWNEG) { y = QMat(n, n); for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) if (x(i, j) != 0) y(j, i) = 1 / x(i, j); } // one entry per line
      if (op == POWNEG || op == POWPOS) { z = y; for (int k = 1; k < p; k++) y = qmul(y, z); }
      for (std::size_t i = 0; i < n * n; i++) w1.v[i] = (T)y.v[i];
      if (op == DET) { w1 = Mat<T>(n, n); o1 = Mat<T>(n, n); w1.v[0] = (T)qdet(x); }
    }
    bool must = bad && (op == DIV_F || op == DIV_OP || op == INV || op == POWNEG || op == LU);
    if (op == DET || op == POWPOS) { if (bad) cmp = false; }
    if (op == POWNEG) p = -p;
    if (c.verbose) c.desc << "; " << opname[op];
    show(c, "A", a); if (op <= DIV_OP) shows(c, "s", sc); if (op == POWNEG || op == POWPOS) shows(c, "p", p);
    Call k{a.v.data(), sc, p, o1.v.data(), o2.v.data(), aft.v.data(), op, false, ""};
    e.f(k);
    std::string at = std::string("call ") + std::to_string(q + 1) + ", " + opname[op] + ": ";
    if (!k.odd.empty()) throw Fail(at + k.odd);
    if (must && !k.threw) throw Fail(at + "returned normally although the divisor, determinant or pivot is zero");
    if (!must && !maybe && k.threw) throw Fail(at + "threw although nothing is singular or zero");
    expect_same("operand after the call", aft, a);
    if (!k.threw && maybe) for (auto& v : o1.v) if (!std::isfinite((double)v)) throw Fail(at + "returned a non-finite value silently");
    if (!k.threw && cmp) { expect_same((at + "result").c_str(), o1, w1); if (op == LU) expect_same((at + "second factor").c_str(), o2, w2); }
    if (bad && op == DET && o1.v[0] != 0) throw Fail(at + "determinant of a singular matrix is " + str(o1.v[0]));
    any = any || must;
    c.label(opname[op]); c.label(must ? "must throw" : "must not throw");
  }
  c.nontrivial = any;
}
REG_SUITE(a, "exceptions", prop<VT>);
}
