// C04: Strassen multiplication agrees with the ordinary product.
#include "ref.hpp"
#if VTI == 0
const char* const pbt::rule = "both 2x2 operands are drawn (profiles: tiny, wide, sparse, unit matrices, fractions); non-trivial = both factors non-zero and not the identity";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
Mat<T> operand(Source& s, uint64_t lim) {
  unsigned f = (unsigned)s.below(12);
  if (f >= 10) { Mat<T> m(2, 2); for (auto& x : m.v) x = from_i<T>(0); if (f == 10) m(s.below(2), s.below(2)) = from_i<T>(1); else m(0, 0) = m(1, 1) = from_i<T>(1); return m; }
  return gen_mat<T>(s, 2, 2, lim);
}
template<class T> void prop(Source& s, Ctx& c) {
  uint64_t la = type_lim<T>(), lb = la;
  if (is_sint<T>) split_lim(s, type_lim<T>(), 16, la, lb);
  Mat<T> a = operand(s, la), b = operand(s, lb), out(2, 2);
  if (la == lb) relate(s, a.v, b.v, 2, 2);
  show(c, "A", a); show(c, "B", b);
  const auto A = load<T, 2, 2>(a.v.data()), B = load<T, 2, 2>(b.v.data());
  store_exact<T, 2, 2>(out.v.data(), mlib::strassen(A, B));
  Mat<T> plain(2, 2);
  store_exact<T, 2, 2>(plain.v.data(), mlib::mult(A, B));
  for (std::size_t i = 0; i < 2; i++) for (std::size_t j = 0; j < 2; j++) {
    std::string at = "strassen element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(out(i, j));
    if constexpr (is_int<T>) {
      uint64_t sum = 0;
      for (std::size_t k = 0; k < 2; k++) sum += (uint64_t)(int64_t)a(i, k) * (uint64_t)(int64_t)b(k, j);
      if (out(i, j) != (T)sum) throw Fail(at + ", expected " + str((T)sum));
      if (out(i, j) != plain(i, j)) throw Fail(at + ", mult gives " + str(plain(i, j)));
    } else if constexpr (is_flt<T>) {
      quad sum = 0, ma = 0, mb = 0;
      for (std::size_t k = 0; k < 2; k++) sum += (quad)a(i, k) * (quad)b(k, j);
      for (auto& x : a.v) ma = std::max(ma, qabs(x)); for (auto& x : b.v) mb = std::max(mb, qabs(x));
      quad err = qabs((quad)out(i, j) - sum), u = (quad)eps_of<T>() * ma * mb;
      if (!(err <= 60 * u)) throw Fail(at + ", exact value " + str((ldouble)sum));
      if (u > 0) c.track("err/u", (double)(err / u));
    } else {
      quad re = 0, im = 0, ma = 0, mb = 0;
      for (std::size_t k = 0; k < 2; k++) {
        quad ar = a(i, k).real(), ai = a(i, k).imag(), br = b(k, j).real(), bi = b(k, j).imag();
        re += ar * br - ai * bi; im += ar * bi + ai * br;
      }
      for (auto& x : a.v) ma = std::max(ma, (quad)std::abs(x)); for (auto& x : b.v) mb = std::max(mb, (quad)std::abs(x));
      quad u = (quad)eps_of<T>() * ma * mb, e1 = qabs((quad)out(i, j).real() - re), e2 = qabs((quad)out(i, j).imag() - im);
      if (!(e1 <= 90 * u && e2 <= 90 * u)) throw Fail(at + ", exact value (" + str((ldouble)re) + "," + str((ldouble)im) + ")");
      if (u > 0) { c.track("err/u cplx", (double)(e1 / u)); c.track("err/u cplx", (double)(e2 / u)); }
    }
  }
  Mat<T> aft(2, 2); store<T, 2, 2>(aft.v.data(), A); expect_same("operand A after the call", aft, a);
  store<T, 2, 2>(aft.v.data(), B); expect_same("operand B after the call", aft, b);
  auto triv = [](const Mat<T>& m) { bool z = true, id = true; for (std::size_t i = 0; i < 4; i++) { if (m.v[i] != from_i<T>(0)) z = false; if (m.v[i] != from_i<T>(i == 0 || i == 3)) id = false; } return z || id; };
  c.nontrivial = !triv(a) && !triv(b);
}
REG_SUITE(a, "strassen", prop<VT>);
}
