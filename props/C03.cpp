// C03: matrix product equals its definition.
#include "ref.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "shape (n,m,p), form, operand families (identity, zero, general) and elements are drawn; non-trivial = both factors have a non-zero element, the result has at least two elements or m > 1, and neither factor is the identity";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
struct Call { const T *a, *b; T* out; T *aa, *bb; int op; bool same; unsigned tmp; };
template<std::size_t N, std::size_t M, std::size_t P> void call(Call& c) {
  using namespace mlib;
  const auto A = h::load<T, N, M>(c.a); const auto B = h::load<T, M, P>(c.b);
  if constexpr (N == M && M == P) if (c.same) { h::store_exact<T, N, P>(c.out, c.op == 0 ? mlib::mult(A, A) : A * A); h::store<T, N, M>(c.aa, A); h::store<T, M, P>(c.bb, B); return; }
  if constexpr (N * M * P <= 64 || (N == M && M == P)) if (c.tmp) { // factors that are temporaries: left, right, both
    switch (c.tmp + 3 * c.op) {
      case 1: h::store_exact<T, N, P>(c.out, mlib::mult(h::tmp(A), B)); break;
      case 2: h::store_exact<T, N, P>(c.out, mlib::mult(A, h::tmp(B))); break;
      case 3: h::store_exact<T, N, P>(c.out, mlib::mult(h::tmp(A), h::tmp(B))); break;
      case 4: h::store_exact<T, N, P>(c.out, h::tmp(A) * B); break;
      case 5: h::store_exact<T, N, P>(c.out, A * h::tmp(B)); break;
      case 6: h::store_exact<T, N, P>(c.out, h::tmp(A) * h::tmp(B)); break;
    }
    h::store<T, N, M>(c.aa, A); h::store<T, M, P>(c.bb, B); return;
  }
  if (c.op == 0) h::store_exact<T, N, P>(c.out, mlib::mult(A, B)); else h::store_exact<T, N, P>(c.out, A * B);
  h::store<T, N, M>(c.aa, A); h::store<T, M, P>(c.bb, B);
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(n, m, p) t.add(&call<n, m, p>, n* m + m * p + n * m * p / 8, n, m, p);
    SHAPES3(X)
#undef X
    t.done(); return t; }();
  return t;
}
Mat<T> operand(Source& s, std::size_t r, std::size_t c, uint64_t lim) {
  unsigned f = (unsigned)s.below(16);
  if (f == 15) { Mat<T> m(r, c); for (auto& x : m.v) x = from_i<T>(0); return m; }
  if (f == 14) { Mat<T> m(r, c); for (auto& x : m.v) x = from_i<T>(0); for (std::size_t i = 0; i < std::min(r, c); i++) m(i, i) = from_i<T>(1); return m; }
  if (f == 13) { Mat<T> m(r, c); for (auto& x : m.v) x = from_i<T>(0); m(s.below(r), s.below(c)) = from_i<T>(1); return m; }
  return gen_mat<T>(s, r, c, lim);
}
bool same1(ldouble a, ldouble b) { return a == b || (a != a && b != b); }
bool isid(const Mat<T>& m) { for (std::size_t i = 0; i < m.r; i++) for (std::size_t j = 0; j < m.c; j++) if (m(i, j) != from_i<T>(i == j)) return false; return true; }
bool iszero(const Mat<T>& m) { for (auto& x : m.v) if (x != from_i<T>(0)) return false; return true; }
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t n = e.d[0], m = e.d[1], p = e.d[2];
  int op = (int)s.below(2);
  uint64_t la = type_lim<T>(), lb = la;
  if (is_sint<T>) split_lim(s, type_lim<T>(), m, la, lb);
  Mat<T> a = operand(s, n, m, la), b = operand(s, m, p, lb), out(n, p), aa(n, m), bb(m, p);
  bool same = false;
  unsigned rel = (unsigned)s.below(8); // related operands: one object twice, equal contents, a transpose, a symmetric factor
  if (rel < 4 && n == p) {
    uint64_t l = std::min(la, lb); Mat<T> x = operand(s, n, m, l);
    if (rel == 3 && n == m) for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < i; j++) x(i, j) = x(j, i);
    if (rel == 3 && n == m && s.coin()) { std::size_t i = s.below(n), j = s.below(n); x(i, j) = from_i<T>(1); }
    a = x;
    if (rel == 2) { for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < m; j++) b(j, i) = x(i, j); c.label("transpose"); }
    else if (n == m) { b = x; same = rel != 1; c.label(same ? "same object twice" : "equal operands"); }
  }
  if (!same && (is_flt<T> || is_cplx<T>::value) && s.chance(1, 6)) {
    int k = std::is_same<T, float>::value ? 30 : 300;
    scale2(a.v, (int)s.range(-k, k)); scale2(b.v, (int)s.range(-k, k)); c.label("scaled by 2^k");
  }
  if constexpr (is_flt<T>) if (!same && s.chance(1, 12)) { // 0*inf, inf-inf and NaN follow IEEE-754 in every order of summation
    typedef std::numeric_limits<T> L; const T sp[] = {L::infinity(), -L::infinity(), L::quiet_NaN()};
    for (unsigned k = 1 + (unsigned)s.below(3); k--;) { Mat<T>& x = s.coin() ? a : b; x.v[s.below(x.v.size())] = sp[s.below(3)]; }
    c.label("infinities or NaN");
  }
  if (c.verbose) c.desc << (op ? "A*B" : "mult(A,B)");
  show(c, "A", a); show(c, "B", b);
  Call k{a.v.data(), b.v.data(), out.v.data(), aa.v.data(), bb.v.data(), op, same, (unsigned)s.below(4)};
  if (k.tmp && !same && (n * m * p <= 64 || (n == m && m == p))) { c.label("temporary factors"); if (c.verbose) c.desc << " (temporaries: " << k.tmp << ")"; }
  e.f(k);
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < p; j++) {
    if constexpr (is_int<T>) {
      uint64_t sum = 0;
      for (std::size_t k = 0; k < m; k++) sum += (uint64_t)(int64_t)a(i, k) * (uint64_t)(int64_t)b(k, j);
      T want = (T)sum;
      if (out(i, j) != want) throw Fail("product element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(out(i, j)) + ", expected " + str(want));
    } else if constexpr (is_flt<T>) {
      quad sum = 0, mag = 0;
      for (std::size_t k = 0; k < m; k++) { quad t = (quad)a(i, k) * (quad)b(k, j); sum += t; mag += qabs(t); }
      if (sum != sum || mag > (quad)std::numeric_limits<T>::max()) {
        if (!same1((ldouble)out(i, j), (ldouble)sum)) throw Fail("product element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(out(i, j)) + ", expected " + str((ldouble)sum));
        continue;
      }
      quad err = qabs((quad)out(i, j) - sum), tol = (2 * (quad)m + 4) * (quad)eps_of<T>() * mag;
      if (!(err <= tol)) throw Fail("product element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(out(i, j)) + ", exact value " + str((ldouble)sum) + ", allowed error " + str((ldouble)tol));
      if (mag > 0) c.track("err/eps*mag*m", (double)(err / (mag * (quad)eps_of<T>() * (quad)m)));
    } else {
      quad re = 0, im = 0, mag = 0;
      for (std::size_t k = 0; k < m; k++) {
        quad ar = a(i, k).real(), ai = a(i, k).imag(), br = b(k, j).real(), bi = b(k, j).imag();
        re += ar * br - ai * bi; im += ar * bi + ai * br; mag += (qabs(ar) + qabs(ai)) * (qabs(br) + qabs(bi));
      }
      quad tol = (2 * (quad)m + 8) * (quad)eps_of<T>() * mag;
      if (!(qabs((quad)out(i, j).real() - re) <= tol && qabs((quad)out(i, j).imag() - im) <= tol))
        throw Fail("product element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(out(i, j)) + ", exact value (" + str((ldouble)re) + "," + str((ldouble)im) + ")");
    }
  }
  expect_same("operand A after the call", aa, a); expect_same("operand B after the call", bb, b);
  bool za = iszero(a), zb = iszero(b), ia = n == m && isid(a), ib = m == p && isid(b);
  c.nontrivial = !za && !zb && !ia && !ib && (n * p > 1 || m > 1);
  c.label(size_class(n * p)); if (za || zb) c.label("zero factor"); if (ia || ib) c.label("identity factor"); if (n == m && m == p) c.label("square");
}
REG_SUITE(a, "product", prop<VT>);
}
