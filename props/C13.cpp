// C13: 3x3 convolution in all three modes.
#include "ref.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "operation (same, full, valid convolution, rotation), shape, image and kernel (general, single non-zero tap, symmetric) are drawn; non-trivial = the kernel (for a rotation: the matrix) differs from its 180-degree rotation and the image has a non-zero element";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
struct Call { const T *a, *k; T *out, *aa, *kk; int mode; };
template<std::size_t I, std::size_t J> void call(Call& c) {
  const auto A = load<T, I, J>(c.a); const auto K = load<T, 3, 3>(c.k);
  if (c.mode == 0) store_exact<T, I, J>(c.out, mlib::conv2(A, K));
  else if (c.mode == 1) store_exact<T, I + 2, J + 2>(c.out, mlib::conv2_full(A, K));
  else if (c.mode == 3) store_exact<T, I, J>(c.out, mlib::rot180(A));
  else if constexpr (I >= 3 && J >= 3) store_exact<T, I - 2, J - 2>(c.out, mlib::conv2_valid(A, K));
  store<T, I, J>(c.aa, A); store<T, 3, 3>(c.kk, K);
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(i, j) t.add(&call<i, j>, i* j, i, j);
    SHAPES2S(X)
#undef X
    t.done(); return t; }();
  return t;
}
void rot(Source& s, Ctx& c, F f, std::size_t I, std::size_t J) {
  Mat<T> a = gen_mat<T>(s, I, J, type_lim<T>(), true), out(I, J), aa(I, J), k(3, 3), kk(3, 3);
  if (c.verbose) c.desc << "rot180(A)"; show(c, "A", a);
  Call q{a.v.data(), k.v.data(), out.v.data(), aa.v.data(), kk.v.data(), 3};
  f(q);
  Mat<T> w = a; std::reverse(w.v.begin(), w.v.end());
  expect_moved("rot180(A)", out, w); expect_same("operand after the call", aa, a);
  c.nontrivial = !(w == a); c.label("rot180"); c.label(size_class(I * J)); if (I != J) c.label("non-square");
}
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t I = e.d[0], J = e.d[1];
  int mode = (int)s.below(3); if (mode == 2 && (I < 3 || J < 3)) mode = (int)s.below(2);
  if (s.chance(1, 12)) { rot(s, c, e.f, I, J); return; }
  uint64_t la = type_lim<T>(), lb = la;
  if (is_sint<T>) split_lim(s, type_lim<T>(), 9, la, lb);
  Mat<T> a(I, J), k(3, 3);
  unsigned fa = (unsigned)s.below(8);
  if (fa == 7) a(s.below(I), s.below(J)) = from_i<T>(1); else a = gen_mat<T>(s, I, J, la); // impulse
  unsigned fk = (unsigned)s.below(6);
  if (fk == 5) k(s.below(3), s.below(3)) = from_i<T>(1);
  else { k = gen_mat<T>(s, 3, 3, lb); if (fk == 4) for (int i = 0; i < 4; i++) k.v[8 - i] = k.v[i]; }
  if constexpr (is_flt<T>) if (s.chance(1, 16)) { // non-finite image elements, finite kernel: decided by IEEE-754 in every order of summation
    typedef std::numeric_limits<T> L; const T sp[] = {L::infinity(), -L::infinity(), L::quiet_NaN()};
    for (unsigned q = 0, m = 1 + (unsigned)s.below(3); q < m; q++) a(s.below(I), s.below(J)) = sp[s.below(3)];
    c.label("infinities or NaN in the image");
  }
  std::size_t R = mode == 0 ? I : mode == 1 ? I + 2 : I - 2, C = mode == 0 ? J : mode == 1 ? J + 2 : J - 2, off = mode == 0 ? 1 : mode == 1 ? 0 : 2;
  static const char* nm[] = {"conv2(A,K)", "conv2_full(A,K)", "conv2_valid(A,K)"};
  if (c.verbose) c.desc << nm[mode]; show(c, "A", a); show(c, "K", k);
  Mat<T> out(R, C), aa(I, J), kk(3, 3);
  Call q{a.v.data(), k.v.data(), out.v.data(), aa.v.data(), kk.v.data(), mode};
  e.f(q);
  for (std::size_t i = 0; i < R; i++) for (std::size_t j = 0; j < C; j++) {
    // full(y,x) = sum_{u,v} K(u,v) * A(y-u, x-v)
    std::size_t y = i + off, x = j + off;
    uint64_t us = 0; quad qs = 0, mag = 0, qi = 0;
    for (std::size_t u = 0; u < 3; u++) for (std::size_t v = 0; v < 3; v++) {
      if (y < u || x < v || y - u >= I || x - v >= J) continue;
      if constexpr (is_int<T>) us += (uint64_t)(int64_t)k(u, v) * (uint64_t)(int64_t)a(y - u, x - v);
      else { quad t = (quad)k(u, v) * (quad)a(y - u, x - v); qs += t; mag += qabs(t); }
    }
    std::string at = std::string(nm[mode]) + " element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(out(i, j));
    if constexpr (is_int<T>) { if (out(i, j) != (T)us) throw Fail(at + ", expected " + str((T)us)); }
    else if (!(mag <= (quad)1e300L)) { if (!same(out(i, j), (T)qs)) throw Fail(at + ", expected " + str((T)qs)); }
    else { quad err = qabs((quad)out(i, j) - qs); if (!(err <= 24 * (quad)eps_of<T>() * mag)) throw Fail(at + ", exact value " + str((ldouble)qs)); if (mag > 0) c.track("err/u", (double)(err / mag / (quad)eps_of<T>())); }
  }
  expect_same("image after the call", aa, a); expect_same("kernel after the call", kk, k);
  bool sym = true; for (int i = 0; i < 4; i++) if (k.v[i] != k.v[8 - i]) sym = false;
  bool zero = true; for (auto& x : a.v) if (x != from_i<T>(0)) zero = false;
  c.nontrivial = !sym && !zero;
  c.label(nm[mode]); c.label(size_class(I * J)); if (fk == 5) c.label("single tap"); if (I != J) c.label("non-square");
}
REG_SUITE(a, "conv2", prop<VT>);
}
