// C01: sum, difference, ++ and -- are element-wise.
#include "common.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "shape, operation, element profile and both operands are drawn; non-trivial = at least two elements and the operands are not both constant";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
struct Call { const T *a, *b; T* out; T* aft; int op; bool same; unsigned tmp; };
enum { SUM, PLUS, SUB, MINUS, INC, DEC, NOPS };
const char* opname[] = {"sum(A,B)", "A+B", "sub(A,B)", "A-B", "A++", "A--"};

template<std::size_t I, std::size_t J> void call(Call& c) {
  using namespace mlib;
  auto A = h::load<T, I, J>(c.a);
  const auto B0 = h::load<T, I, J>(c.b);
  const auto& B = c.same ? A : B0;
  // operands that are temporaries (results of other expressions): left, right, both
  if constexpr (I * J <= 36 || (I == J && I <= 33)) if (c.tmp && c.op < INC && !c.same) {
    bool sm = c.op == SUM || c.op == PLUS, fn = c.op == SUM || c.op == SUB;
    switch (c.tmp) {
      case 1: h::store_exact<T, I, J>(c.out, sm ? (fn ? mlib::sum(h::tmp(A), B) : h::tmp(A) + B) : (fn ? mlib::sub(h::tmp(A), B) : h::tmp(A) - B)); break;
      case 2: h::store_exact<T, I, J>(c.out, sm ? (fn ? mlib::sum(A, h::tmp(B)) : A + h::tmp(B)) : (fn ? mlib::sub(A, h::tmp(B)) : A - h::tmp(B))); break;
      default: h::store_exact<T, I, J>(c.out, sm ? (fn ? mlib::sum(h::tmp(A), h::tmp(B)) : h::tmp(A) + h::tmp(B)) : (fn ? mlib::sub(h::tmp(A), h::tmp(B)) : h::tmp(A) - h::tmp(B))); break;
    }
    h::store<T, I, J>(c.aft, A); return;
  }
  switch (c.op) {
    case SUM: h::store_exact<T, I, J>(c.out, mlib::sum(A, B)); break;
    case PLUS: h::store_exact<T, I, J>(c.out, A + B); break;
    case SUB: h::store_exact<T, I, J>(c.out, mlib::sub(A, B)); break;
    case MINUS: h::store_exact<T, I, J>(c.out, A - B); break;
    case INC: h::store_exact<T, I, J>(c.out, A++); break;
    case DEC: h::store_exact<T, I, J>(c.out, A--); break;
  }
  h::store<T, I, J>(c.aft, A);
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(i, j) t.add(&call<i, j>, i* j * 2, i, j);
    SHAPES2(X)
#undef X
    t.done(); return t; }();
  return t;
}
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t I = e.d[0], J = e.d[1], n = I * J;
  int op = (int)s.below(NOPS);
  // signed integers: keep a+b, a-b, a+-1 representable; everything else is defined for all values
  bool sums = op == SUM || op == PLUS, binary = op < INC, same = binary && s.chance(1, 8), full = s.coin();
  uint64_t lim = is_sint<T> && !full ? type_lim<T>() / 2 : type_lim<T>();
  std::vector<T> a = gen_vec<T>(s, n, lim, true), b = gen_vec<T>(s, n, lim, true), out(n), aft(n), want(n);
  structure(s, a, I, J); structure(s, b, I, J); relate(s, a, b, I, J);
  if (same) b = a;
  if constexpr (is_sint<T>) if (full) { // up to the limits of the type, as long as the result fits
    const i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    if (s.coin()) for (unsigned k = 0; k < 2; k++) { (s.coin() || same ? a : b)[s.below(n)] = s.coin() ? (T)lo : (T)hi; }
    if (same) b = a;
    for (std::size_t i = 0; i < n; i++) {
      i128 x = a[i], y = binary ? (i128)b[i] : 1;
      i128 r = sums || op == INC ? x + y : x - y;
      if (r >= lo && r <= hi) continue;
      if (same) a[i] = b[i] = (T)(a[i] / 2);
      else if (!binary) a[i] = (T)(op == INC ? a[i] - 1 : a[i] + 1);
      else { r = r < lo ? lo : hi; y = sums ? r - x : x - r; b[i] = (T)y; } // the result is then a limit
    }
    c.label("up to the limits of the type");
  }
  if (c.verbose) c.desc << opname[op];
  show(c, "A", a.data(), I, J); if (op < INC) show(c, "B", b.data(), I, J);
  for (std::size_t i = 0; i < n; i++) {
    T one = from_i<T>(1);
    want[i] = op == SUM || op == PLUS ? static_cast<T>(a[i] + b[i]) : op == SUB || op == MINUS ? static_cast<T>(a[i] - b[i])
            : op == INC ? static_cast<T>(a[i] + one) : static_cast<T>(a[i] - one);
  }
  Call k{a.data(), b.data(), out.data(), aft.data(), op, same, (unsigned)s.below(4)};
  if (k.tmp && binary && !same && (n <= 36 || (I == J && I <= 33))) { c.label("temporary operands"); if (c.verbose) c.desc << " (temporaries: " << k.tmp << ")"; }
  if (same) { c.label("same object twice"); if (c.verbose) c.desc << " (one object)"; }
  e.f(k);
  expect_same(opname[op], out.data(), want.data(), I, J);
  expect_same("operand A after the call", aft.data(), a.data(), I, J);
  c.nontrivial = n > 1 && !(all_equal(a) && all_equal(b));
  c.label(size_class(n)); c.label(opname[op]);
}
REG_SUITE(a, "elementwise", prop<VT>);
}
