// Structured square integer matrices for determinant / inverse / factorisation checks.
#pragma once
#include "ref.hpp"
namespace h {
enum { FAM_GENERAL, FAM_DEP, FAM_ZEROLINE, FAM_PERM, FAM_TRI, FAM_ZEROLEAD, FAM_UNIMOD, FAM_BLOCK, FAM_DIAG, FAM_COUNT };
inline const char* fam_name(int f) {
  static const char* n[] = {"general", "linearly dependent rows/columns", "zero row or column", "scaled permutation", "triangular", "zero leading minors", "determinant +-1", "zero leading block", "diagonal"};
  return n[f];
}
// shrink entries until the Hadamard-type bound on all minors is below lim
inline void limit_minors(Source& s, Mat<int64_t>& m, ldouble lim, bool l1) {
  auto norm = [&](std::size_t i) { ldouble t = 0; for (std::size_t j = 0; j < m.c; j++) t += l1 ? (ldouble)std::llabs(m(i, j)) : (ldouble)m(i, j) * m(i, j); return l1 ? t : std::sqrt(t); };
  std::vector<ldouble> nr(m.r); ldouble b = 1;
  for (std::size_t i = 0; i < m.r; i++) nr[i] = norm(i);
  for (int guard = 0; guard < 100000; guard++) {
    b = 1; std::size_t w = 0;
    for (std::size_t i = 0; i < m.r; i++) { if (nr[i] > 1) b *= nr[i]; if (nr[i] > nr[w]) w = i; }
    if (b < lim) return;
    int64_t mx = 0; for (std::size_t j = 0; j < m.c; j++) mx = std::max<int64_t>(mx, std::llabs(m(w, j)));
    if (mx > 1) for (std::size_t j = 0; j < m.c; j++) m(w, j) /= 2;
    else m(w, s.below(m.c)) = 0;
    nr[w] = norm(w);
  }
}
inline Mat<int64_t> gen_square(Source& s, std::size_t n, int fam, int64_t mag) {
  Mat<int64_t> m(n, n);
  bool sparse = s.chance(1, 4);
  auto el = [&]() -> int64_t { return sparse && !s.chance(1, 3) ? 0 : s.zigzag(mag); };
  auto nz = [&]() -> int64_t { int64_t v = s.zigzag(mag); return v ? v : 1; };
  switch (fam) {
    case FAM_GENERAL: for (auto& x : m.v) x = el(); if (n > 1 && s.coin()) structure(s, m.v, n, n); break;
    case FAM_DEP: {
      for (auto& x : m.v) x = el();
      if (n < 2) { m.v[0] = 0; break; }
      std::size_t t = s.below(n), a = s.below(n), b = s.below(n); int64_t fa = s.zigzag(2), fb = s.zigzag(2);
      if (a == t) a = (t + 1) % n; if (b == t) b = (t + 1) % n;
      bool row = s.coin();
      for (std::size_t j = 0; j < n; j++) { if (row) m(t, j) = fa * m(a, j) + fb * m(b, j); else m(j, t) = fa * m(j, a) + fb * m(j, b); }
      break; }
    case FAM_ZEROLINE: {
      for (auto& x : m.v) x = el();
      std::size_t t = s.below(n); bool row = s.coin();
      for (std::size_t j = 0; j < n; j++) { if (row) m(t, j) = 0; else m(j, t) = 0; }
      break; }
    case FAM_PERM: {
      std::vector<std::size_t> p(n); for (std::size_t i = 0; i < n; i++) p[i] = i;
      for (std::size_t i = n; i > 1; i--) std::swap(p[i - 1], p[s.below(i)]);
      for (std::size_t i = 0; i < n; i++) m(i, p[i]) = nz();
      break; }
    case FAM_TRI: { bool up = s.coin(), anti = s.chance(1, 4);
      for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) { std::size_t q = anti ? n - 1 - j : j; if (i == j) m(i, q) = nz(); else if ((j > i) == up) m(i, q) = el(); }
      break; }
    case FAM_ZEROLEAD: { // the leading k x k minor vanishes for some k < n
      for (auto& x : m.v) x = el();
      if (n < 2) break;
      std::size_t k = s.below(n - 1); // rows k and (k-1) agree on the first k+1 columns, or A(0,0)=0
      if (k == 0) m(0, 0) = 0; else for (std::size_t j = 0; j <= k; j++) m(k, j) = m(s.coin() ? k - 1 : 0, j) * 1;
      break; }
    case FAM_UNIMOD: { int d; m = gen_unimodular(s, n, (unsigned)(2 * n + s.below(3 * n + 1)), mag < 3 ? 3 : mag, d); break; }
    case FAM_BLOCK: {
      for (auto& x : m.v) x = el();
      std::size_t k = 1 + s.below(n / 2 + 1); if (k > n) k = n;
      for (std::size_t i = 0; i < k; i++) for (std::size_t j = 0; j < k; j++) m(i, j) = 0;
      break; }
    default: for (std::size_t i = 0; i < n; i++) m(i, i) = nz(); break;
  }
  return m;
}
// products of rows stay far from overflow and underflow of T
template<class T> inline bool in_range(const Mat<T>& a) {
  ldouble up = 1, down = 1;
  for (std::size_t i = 0; i < a.r; i++) { ldouble t = 0; for (std::size_t j = 0; j < a.c; j++) t += (ldouble)a(i, j) * a(i, j); t = std::sqrt(t); if (t > 1) up *= t; else if (t > 0) down *= t; }
  return std::is_same<T, float>::value ? up < 1e28L && down > 1e-25L : up < 1e270L && down > 1e-250L;
}
// power-of-two exponent range so that n-fold products of entries stay far from under/overflow
template<class T> inline int exp_room(std::size_t n) {
  int e = std::is_same<T, float>::value ? 100 : 900; // entries contribute up to ~2^20 each on their own
  int own = (int)(std::is_same<T, float>::value ? 6 * n : 20 * n);
  return std::max(0, (e - own) / (int)n);
}
} // namespace h
