// Reference arithmetic: quad precision, exact determinants modulo a large prime.
#pragma once
#include "common.hpp"

namespace h {
typedef __float128 quad;
inline quad qabs(quad x) { return x < 0 ? -x : x; }
inline quad qsqrt(quad x) {
  if (!(x > 0)) return 0;
  quad r = std::sqrt((ldouble)x);
  if (!(r > 0)) return r;
  r = (r + x / r) / 2;
  return (r + x / r) / 2;
}
template<class T> constexpr double eps_of() {
  if constexpr (is_cplx<T>::value) return std::numeric_limits<double>::epsilon();
  else if constexpr (std::is_same<T, ldouble>::value) return (double)std::numeric_limits<ldouble>::epsilon();
  else return (double)std::numeric_limits<T>::epsilon();
}
// representable range split between two factors whose products are summed `terms` times
inline uint64_t isqrt64(uint64_t x) { uint64_t r = (uint64_t)std::sqrt((double)x); while (r * r > x) r--; while ((r + 1) * (r + 1) <= x) r++; return r; }
// draws (la, lb) with la*lb*terms <= lim
inline void split_lim(Source& s, uint64_t lim, uint64_t terms, uint64_t& la, uint64_t& lb) {
  uint64_t q = lim / terms; if (q < 1) q = 1;
  uint64_t r = isqrt64(q); if (r < 1) r = 1;
  switch (s.below(3)) {
    case 0: la = lb = r; break;
    case 1: la = std::min<uint64_t>(q, 3); lb = q / la; break;
    default: lb = std::min<uint64_t>(q, 3); la = q / lb; break;
  }
}
typedef Mat<quad> QMat;
template<class T> QMat to_q(const Mat<T>& a) { QMat r(a.r, a.c); for (std::size_t i = 0; i < a.v.size(); i++) r.v[i] = a.v[i]; return r; }
inline QMat qmul(const QMat& a, const QMat& b) {
  QMat r(a.r, b.c);
  for (std::size_t i = 0; i < a.r; i++) for (std::size_t k = 0; k < a.c; k++) { quad x = a(i, k); if (x != 0) for (std::size_t j = 0; j < b.c; j++) r(i, j) += x * b(k, j); }
  return r;
}
inline QMat qabsm(QMat a) { for (auto& x : a.v) x = qabs(x); return a; }
inline quad qmax(const QMat& a) { quad m = 0; for (auto& x : a.v) if (qabs(x) > m) m = qabs(x); return m; }
// determinant with complete pivoting
inline quad qdet(QMat a) {
  std::size_t n = a.r; quad d = 1;
  for (std::size_t k = 0; k < n; k++) {
    std::size_t pi = k, pj = k; quad best = 0;
    for (std::size_t i = k; i < n; i++) for (std::size_t j = k; j < n; j++) if (qabs(a(i, j)) > best) { best = qabs(a(i, j)); pi = i; pj = j; }
    if (best == 0) return 0;
    if (pi != k) { for (std::size_t j = 0; j < n; j++) std::swap(a(pi, j), a(k, j)); d = -d; }
    if (pj != k) { for (std::size_t i = 0; i < n; i++) std::swap(a(i, pj), a(i, k)); d = -d; }
    d *= a(k, k);
    for (std::size_t i = k + 1; i < n; i++) {
      quad f = a(i, k) / a(k, k);
      if (f != 0) for (std::size_t j = k; j < n; j++) a(i, j) -= f * a(k, j);
    }
  }
  return d;
}
// inverse with complete pivoting; false when numerically singular
inline bool qinv(const QMat& a0, QMat& out) {
  std::size_t n = a0.r; QMat a(n, 2 * n); std::vector<std::size_t> colp(n);
  for (std::size_t i = 0; i < n; i++) { colp[i] = i; for (std::size_t j = 0; j < n; j++) a(i, j) = a0(i, j); a(i, n + i) = 1; }
  quad scale = qmax(a0);
  for (std::size_t k = 0; k < n; k++) {
    std::size_t pi = k, pj = k; quad best = 0;
    for (std::size_t i = k; i < n; i++) for (std::size_t j = k; j < n; j++) if (qabs(a(i, j)) > best) { best = qabs(a(i, j)); pi = i; pj = j; }
    if (!(best > scale * (quad)1e-25)) return false;
    if (pi != k) for (std::size_t j = 0; j < 2 * n; j++) std::swap(a(pi, j), a(k, j));
    if (pj != k) { for (std::size_t i = 0; i < n; i++) std::swap(a(i, pj), a(i, k)); std::swap(colp[pj], colp[k]); }
    quad p = a(k, k);
    for (std::size_t j = 0; j < 2 * n; j++) a(k, j) /= p;
    for (std::size_t i = 0; i < n; i++) if (i != k) {
      quad f = a(i, k);
      if (f != 0) for (std::size_t j = 0; j < 2 * n; j++) a(i, j) -= f * a(k, j);
    }
  }
  out = QMat(n, n);
  for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) out(colp[i], j) = a(i, n + j);
  return true;
}
inline quad hadamard(const QMat& a) { // smaller of row and column bound
  quad hr = 1, hc = 1;
  for (std::size_t i = 0; i < a.r; i++) { quad s = 0, t = 0; for (std::size_t j = 0; j < a.c; j++) { s += a(i, j) * a(i, j); t += a(j, i) * a(j, i); } hr *= qsqrt(s); hc *= qsqrt(t); }
  return hr < hc ? hr : hc;
}
// ---------- exact integer determinant: modulo p = 2^61-1, exact when |det| < p/2 (checked by the caller through Hadamard)
static const uint64_t MP = (1ull << 61) - 1;
inline uint64_t mmul(uint64_t a, uint64_t b) { unsigned __int128 x = (unsigned __int128)a * b; uint64_t r = (uint64_t)(x & MP) + (uint64_t)(x >> 61); return r >= MP ? r - MP : r; }
inline uint64_t mpow(uint64_t a, uint64_t e) { uint64_t r = 1; while (e) { if (e & 1) r = mmul(r, a); a = mmul(a, a); e >>= 1; } return r; }
inline int64_t det_exact(const Mat<int64_t>& m) {
  std::size_t n = m.r; std::vector<uint64_t> a(n * n);
  for (std::size_t i = 0; i < n * n; i++) { int64_t x = m.v[i] % (int64_t)MP; a[i] = x < 0 ? x + MP : x; }
  uint64_t d = 1;
  for (std::size_t k = 0; k < n; k++) {
    std::size_t p = k; while (p < n && a[p * n + k] == 0) p++;
    if (p == n) return 0;
    if (p != k) { for (std::size_t j = 0; j < n; j++) std::swap(a[p * n + j], a[k * n + j]); d = d ? MP - d : 0; }
    d = mmul(d, a[k * n + k]);
    uint64_t inv = mpow(a[k * n + k], MP - 2);
    for (std::size_t i = k + 1; i < n; i++) {
      uint64_t f = mmul(a[i * n + k], inv);
      if (f) for (std::size_t j = k; j < n; j++) { uint64_t t = mmul(f, a[k * n + j]); a[i * n + j] = a[i * n + j] >= t ? a[i * n + j] - t : a[i * n + j] + MP - t; }
    }
  }
  return d > MP / 2 ? (int64_t)d - (int64_t)MP : (int64_t)d;
}
// Hadamard-type bound on every minor of every order, for integers (as long double)
inline ldouble minor_bound(const Mat<int64_t>& m) {
  ldouble b = 1;
  for (std::size_t i = 0; i < m.r; i++) { ldouble s = 0; for (std::size_t j = 0; j < m.c; j++) s += (ldouble)m(i, j) * m(i, j); s = std::sqrt(s); if (s > 1) b *= s; }
  return b;
}
// random unimodular matrix (determinant +1/-1) with small entries, from elementary operations
inline Mat<int64_t> gen_unimodular(Source& s, std::size_t n, unsigned ops, int64_t cap, int& detsign) {
  Mat<int64_t> m(n, n); for (std::size_t i = 0; i < n; i++) m(i, i) = 1;
  detsign = 1;
  for (unsigned k = 0; k < ops; k++) {
    unsigned what = (unsigned)s.below(8); std::size_t a = s.below(n), b = s.below(n);
    if (what == 7) { for (std::size_t j = 0; j < n; j++) m(a, j) = -m(a, j); detsign = -detsign; }
    else if (what == 6) { if (a != b) { for (std::size_t j = 0; j < n; j++) std::swap(m(a, j), m(b, j)); detsign = -detsign; } }
    else if (a != b) {
      int64_t f = s.zigzag(2); bool row = s.coin(), ok = true;
      for (std::size_t j = 0; j < n && ok; j++) ok = std::llabs(row ? m(a, j) + f * m(b, j) : m(j, a) + f * m(j, b)) <= cap;
      if (ok) for (std::size_t j = 0; j < n; j++) { if (row) m(a, j) += f * m(b, j); else m(j, a) += f * m(j, b); }
    }
  }
  return m;
}
template<class T> Mat<T> cast_mat(const Mat<int64_t>& m) { Mat<T> r(m.r, m.c); for (std::size_t i = 0; i < m.v.size(); i++) r.v[i] = from_i<T>(m.v[i]); return r; }
} // namespace h
