// C02: scalar arithmetic and abs act on every element.
#include "ref.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "shape, operation, operand and scalar are drawn; non-trivial = at least two elements, not all equal, scalar neither 0 nor (for * and /) 1";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
enum { F_SUM, A_PLUS_S, S_PLUS_A, F_SUB, A_MINUS_S, F_MULT, A_TIMES_S, S_TIMES_A, F_DIV, A_OVER_S, ABS, NOPS };
const char* opname[] = {"sum(A,s)", "A+s", "s+A", "sub(A,s)", "A-s", "mult(A,s)", "A*s", "s*A", "div(A,s)", "A/s", "abs(A)"};
struct Call { const T* a; T s; T* out; T* aft; int op; bool tmp; };
template<std::size_t I, std::size_t J> void call(Call& c) {
  using namespace mlib;
  auto A = h::load<T, I, J>(c.a);
  const T s = c.s;
  if constexpr (I * J <= 36 || (I == J && I <= 33)) if (c.tmp) { // the matrix operand is a temporary
    switch (c.op) {
      case F_SUM: h::store_exact<T, I, J>(c.out, mlib::sum(h::tmp(A), T(s))); break;
      case A_PLUS_S: h::store_exact<T, I, J>(c.out, h::tmp(A) + T(s)); break;
      case S_PLUS_A: h::store_exact<T, I, J>(c.out, T(s) + h::tmp(A)); break;
      case F_SUB: h::store_exact<T, I, J>(c.out, mlib::sub(h::tmp(A), T(s))); break;
      case A_MINUS_S: h::store_exact<T, I, J>(c.out, h::tmp(A) - T(s)); break;
      case F_MULT: h::store_exact<T, I, J>(c.out, mlib::mult(h::tmp(A), T(s))); break;
      case A_TIMES_S: h::store_exact<T, I, J>(c.out, h::tmp(A) * T(s)); break;
      case S_TIMES_A: h::store_exact<T, I, J>(c.out, T(s) * h::tmp(A)); break;
      case F_DIV: if constexpr (!is_cplx<T>::value) h::store_exact<T, I, J>(c.out, mlib::div(h::tmp(A), T(s))); break;
      case A_OVER_S: if constexpr (!is_cplx<T>::value) h::store_exact<T, I, J>(c.out, h::tmp(A) / T(s)); break;
      case ABS: h::store_exact<T, I, J>(c.out, mlib::abs(h::tmp(A))); break;
    }
    h::store<T, I, J>(c.aft, A); return;
  }
  switch (c.op) {
    case F_SUM: h::store_exact<T, I, J>(c.out, mlib::sum(A, s)); break;
    case A_PLUS_S: h::store_exact<T, I, J>(c.out, A + s); break;
    case S_PLUS_A: h::store_exact<T, I, J>(c.out, s + A); break;
    case F_SUB: h::store_exact<T, I, J>(c.out, mlib::sub(A, s)); break;
    case A_MINUS_S: h::store_exact<T, I, J>(c.out, A - s); break;
    case F_MULT: h::store_exact<T, I, J>(c.out, mlib::mult(A, s)); break;
    case A_TIMES_S: h::store_exact<T, I, J>(c.out, A * s); break;
    case S_TIMES_A: h::store_exact<T, I, J>(c.out, s * A); break;
    case F_DIV: if constexpr (!is_cplx<T>::value) h::store_exact<T, I, J>(c.out, mlib::div(A, s)); break;
    case A_OVER_S: if constexpr (!is_cplx<T>::value) h::store_exact<T, I, J>(c.out, A / s); break;
    case ABS: h::store_exact<T, I, J>(c.out, mlib::abs(A)); break;
  }
  h::store<T, I, J>(c.aft, A);
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(i, j) t.add(&call<i, j>, i* j, i, j);
    SHAPES2S(X)
#undef X
    t.done(); return t; }();
  return t;
}
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t I = e.d[0], J = e.d[1], n = I * J;
  int op;
  do op = (int)s.below(NOPS); while (0);
  if (is_cplx<T>::value && (op == F_DIV || op == A_OVER_S)) op -= 3;
  uint64_t la = type_lim<T>(), lb = la;
  bool mul = op == F_MULT || op == A_TIMES_S || op == S_TIMES_A;
  if (is_sint<T>) {
    if (mul) split_lim(s, type_lim<T>(), 1, la, lb);
    else if (op <= A_MINUS_S) la = lb = type_lim<T>() / 2;
  }
  bool special = is_flt<T>;
  std::vector<T> a = gen_vec<T>(s, n, la, special), out(n), aft(n), want(n);
  structure(s, a, I, J);
  T sc = gen_vec<T>(s, 1, lb, special)[0];
  if (lb >= la && s.chance(1, 12)) sc = a[s.below(n)]; // a scalar that occurs in the matrix
  if (is_cplx<T>::value && op == ABS && s.coin()) { scale2(a, (int)s.range(-1000, 960)); c.label("very large or small magnitudes"); }
  if constexpr (is_sint<T>) if (op <= A_MINUS_S && s.coin()) { // up to the limits, as long as the results fit
    const i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); i128 y = sc;
    for (unsigned k = 0; k < 2; k++) { i128 r = s.coin() ? lo : hi, x = op <= S_PLUS_A ? r - y : r + y; std::size_t at = s.below(n); if (x < lo || x > hi) x = x < lo ? lo : hi; i128 z = op <= S_PLUS_A ? x + y : x - y; if (z >= lo && z <= hi) a[at] = (T)x; }
    c.label("up to the limits of the type");
  }
  if ((op == F_DIV || op == A_OVER_S) && sc == T(0)) sc = T(1) + T(1);
  if constexpr (is_sint<T>) if ((op == F_DIV || op == A_OVER_S) && sc != T(-1) && s.chance(1, 4)) a[s.below(n)] = std::numeric_limits<T>::min();
  if (c.verbose) c.desc << opname[op];
  show(c, "A", a.data(), I, J); if (op != ABS) shows(c, "s", sc);
  for (std::size_t i = 0; i < n; i++) {
    switch (op) {
      case F_SUM: case A_PLUS_S: case S_PLUS_A: want[i] = static_cast<T>(a[i] + sc); break;
      case F_SUB: case A_MINUS_S: want[i] = static_cast<T>(a[i] - sc); break;
      case F_MULT: case A_TIMES_S: case S_TIMES_A: want[i] = static_cast<T>(a[i] * sc); break;
      case F_DIV: case A_OVER_S: if constexpr (!is_cplx<T>::value) want[i] = static_cast<T>(a[i] / sc); break;
      default:
        if constexpr (is_cplx<T>::value) want[i] = T(std::hypot(a[i].real(), a[i].imag()), 0);
        else if constexpr (is_flt<T>) want[i] = std::fabs(a[i]);
        else want[i] = a[i] < 0 ? static_cast<T>(-a[i]) : a[i];
    }
  }
  Call k{a.data(), sc, out.data(), aft.data(), op, s.chance(1, 3)};
  if (k.tmp && (n <= 36 || (I == J && I <= 33))) { c.label("temporary operand"); if (c.verbose) c.desc << " (temporary operand)"; }
  e.f(k);
  if (is_cplx<T>::value && (mul || op == ABS)) {
    if constexpr (is_cplx<T>::value)
      for (std::size_t i = 0; i < n; i++) {
        double tol = 8 * eps_of<T>() * (op == ABS ? std::abs(a[i]) : std::abs(a[i]) * std::abs(sc));
        if (!(std::fabs(out[i].real() - want[i].real()) <= tol && std::fabs(out[i].imag() - want[i].imag()) <= tol))
          throw Fail(std::string(opname[op]) + ": element " + std::to_string(i) + " is " + str(out[i]) + ", expected " + str(want[i]));
      }
  } else expect_same(opname[op], out.data(), want.data(), I, J);
  if constexpr (is_flt<T>) if (op == ABS) for (std::size_t i = 0; i < n; i++) if (out[i] == 0 && std::signbit(out[i])) throw Fail("abs: element " + std::to_string(i) + " is -0");
  expect_same("operand A after the call", aft.data(), a.data(), I, J);
  c.nontrivial = n > 1 && !all_equal(a) && (op == ABS || (sc != T(0) && (op <= A_MINUS_S || sc != T(1))));
  c.label(size_class(n)); c.label(opname[op]);
}
REG_SUITE(a, "scalar", prop<VT>);
}
