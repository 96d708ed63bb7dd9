// Shared by all property translation units: element types, value generators, shape tables, adapters to the library.
#pragma once
#include "engine.hpp"
#include "matrix.hpp"
#include <algorithm>
#include <cmath>
#include <complex>
#include <functional>
#include <limits>
#include <stdexcept>
#include <type_traits>

#define VSTR2(...) #__VA_ARGS__
#define VSTR(...) VSTR2(__VA_ARGS__)
#ifdef VSMALL
#define VWEIGHT 1
#else
#define VWEIGHT 4
#endif
#define REG_SUITE(ident, label, ...) static pbt::Reg reg_##ident(std::string(label) + "<" VSTR(VT) ">", pbt::Weight(VWEIGHT), __VA_ARGS__)

namespace h {
using pbt::Ctx;
using pbt::Fail;
using pbt::Source;

typedef std::complex<double> cplx;
typedef unsigned char uchar;
typedef signed char schar;
typedef unsigned short ushort_;
typedef unsigned long ulong;
typedef long long llong;
typedef unsigned long long ullong;
typedef long double ldouble;
typedef __int128 i128;

template<class T> struct is_cplx : std::false_type {};
template<class U> struct is_cplx<std::complex<U>> : std::true_type {};
template<class T> constexpr bool is_flt = std::is_floating_point<T>::value;
template<class T> constexpr bool is_int = std::is_integral<T>::value;
template<class T> constexpr bool is_sint = std::is_integral<T>::value && std::is_signed<T>::value;
template<class T> constexpr bool is_uint = std::is_integral<T>::value && std::is_unsigned<T>::value;

// ---------- matrix <-> flat row-major vectors
template<class T, std::size_t I, std::size_t J>
inline mlib::Matrix<T, I, J> load(const T* p) {
  mlib::Matrix<T, I, J> A;
  for (std::size_t i = 0; i < I; i++) for (std::size_t j = 0; j < J; j++) A[i][j] = p[i * J + j];
  return A;
}
template<class T, std::size_t I, std::size_t J>
inline void store(T* p, const mlib::Matrix<T, I, J>& A) {
  for (std::size_t i = 0; i < I; i++) for (std::size_t j = 0; j < J; j++) p[i * J + j] = A[i][j];
}
// a temporary with the value of A: operands that are expressions, not named objects
template<class T, std::size_t I, std::size_t J>
inline mlib::Matrix<T, I, J> tmp(const mlib::Matrix<T, I, J>& A) { return A; }
// result shape must be exactly R x C of element type T: a result of another type is a compile error
template<class T, std::size_t R, std::size_t C>
inline void store_exact(T* p, const mlib::Matrix<T, R, C>& A) { store<T, R, C>(p, A); }

// ---------- dynamic reference matrix
template<class T> struct Mat {
  std::size_t r = 0, c = 0;
  std::vector<T> v;
  Mat() {}
  Mat(std::size_t r_, std::size_t c_) : r(r_), c(c_), v(r_ * c_) {}
  T& operator()(std::size_t i, std::size_t j) { return v[i * c + j]; }
  const T& operator()(std::size_t i, std::size_t j) const { return v[i * c + j]; }
  bool operator==(const Mat& o) const { return r == o.r && c == o.c && v == o.v; }
};

inline void put_num(std::ostream& o, i128 v) {
  if (v < 0) { o << '-'; v = -v; }
  char b[64]; int n = 0;
  do { b[n++] = char('0' + int(v % 10)); v /= 10; } while (v);
  while (n) o << b[--n];
}
template<class T> inline void show1(std::ostream& o, const T& x) {
  if constexpr (is_flt<T>) { char b[64]; snprintf(b, sizeof b, "%.*Lg", std::numeric_limits<T>::max_digits10, (ldouble)x); o << b; }
  else if constexpr (is_cplx<T>::value) { o << "(" ; show1(o, x.real()); o << ","; show1(o, x.imag()); o << ")"; }
  else if constexpr (std::is_same<T, i128>::value) put_num(o, x);
  else o << +x;
}
template<class T> inline std::string str(const T& x) { std::ostringstream o; show1(o, x); return o.str(); }
template<class T> inline void show(Ctx& c, const char* name, const T* p, std::size_t r, std::size_t k) {
  if (!c.verbose) return;
  c.desc << " " << name << "[" << r << "x" << k << "]={";
  for (std::size_t i = 0; i < r * k; i++) {
    if (i == 256) { c.desc << " ..."; break; }
    if (i) c.desc << (i % k == 0 ? "; " : " ");
    show1(c.desc, p[i]);
  }
  c.desc << "}";
}
template<class T> inline void show(Ctx& c, const char* n, const Mat<T>& m) { show(c, n, m.v.data(), m.r, m.c); }
template<class T> inline void shows(Ctx& c, const char* n, const T& x) { if (c.verbose) { c.desc << " " << n << "="; show1(c.desc, x); } }

// ---------- equality
template<class T> inline bool same(const T& a, const T& b) {
  if constexpr (is_flt<T>) return a == b || (a != a && b != b);
  else if constexpr (is_cplx<T>::value) return same(a.real(), b.real()) && same(a.imag(), b.imag());
  else return a == b;
}
template<class T> inline void expect_same(const char* what, const T* got, const T* want, std::size_t r, std::size_t c) {
  for (std::size_t i = 0; i < r * c; i++)
    if (!same(got[i], want[i]))
      throw Fail(std::string(what) + ": element (" + std::to_string(i / c) + "," + std::to_string(i % c) + ") of the " + std::to_string(r) + "x" +
                 std::to_string(c) + " result is " + str(got[i]) + ", expected " + str(want[i]));
}
// elements that were only moved: the sign of a zero is theirs as well
template<class T> inline bool moved(const T& a, const T& b) {
  if constexpr (is_flt<T>) return same(a, b) && (a != 0 || std::signbit(a) == std::signbit(b));
  else if constexpr (is_cplx<T>::value) return moved(a.real(), b.real()) && moved(a.imag(), b.imag());
  else return a == b;
}
template<class T> inline void expect_moved(const char* what, const T* got, const T* want, std::size_t r, std::size_t c) {
  for (std::size_t i = 0; i < r * c; i++)
    if (!moved(got[i], want[i]))
      throw Fail(std::string(what) + ": element (" + std::to_string(i / c) + "," + std::to_string(i % c) + ") of the " + std::to_string(r) + "x" +
                 std::to_string(c) + " result is " + str(got[i]) + ", expected " + str(want[i]));
}
template<class T> inline void expect_same(const char* what, const Mat<T>& g, const Mat<T>& w) {
  if (g.r != w.r || g.c != w.c) throw Fail(std::string(what) + ": shape mismatch");
  expect_same(what, g.v.data(), w.v.data(), w.r, w.c);
}
template<class T> inline void expect_moved(const char* what, const Mat<T>& g, const Mat<T>& w) {
  if (g.r != w.r || g.c != w.c) throw Fail(std::string(what) + ": shape mismatch");
  expect_moved(what, g.v.data(), w.v.data(), w.r, w.c);
}
// |got - want| <= tol, NaN/inf never pass unless wanted
inline bool near(ldouble got, ldouble want, ldouble tol) { return got == want || std::fabs(got - want) <= tol; }
inline void expect_near(const std::string& what, ldouble got, ldouble want, ldouble tol) {
  if (!near(got, want, tol)) throw Fail(what + ": got " + str(got) + ", expected " + str(want) + " within " + str(tol));
}

// ---------- value generators
// A "profile" is drawn once per matrix, then every element from it; so that all-small, sparse, constant, distinct ...
// matrices are all frequent.
struct Profile { int kind; uint64_t mag; int shift; int64_t base; };
enum { P_TINY, P_SMALL, P_BIN, P_SPARSE, P_IOTA, P_CONST, P_MID, P_WIDE, P_FRAC, P_SPECIAL, P_COUNT };

// lim: largest magnitude allowed for integers / integer-valued numbers
inline Profile gen_profile(Source& s, uint64_t lim, bool flt, bool special) {
  Profile p; p.shift = 0; p.base = 0;
  static const int k_int[] = {P_TINY, P_SMALL, P_BIN, P_SPARSE, P_IOTA, P_CONST, P_MID, P_WIDE, P_WIDE, P_SMALL};
  static const int k_flt[] = {P_TINY, P_SMALL, P_BIN, P_SPARSE, P_IOTA, P_CONST, P_MID, P_WIDE, P_FRAC, P_FRAC, P_FRAC, P_SPECIAL};
  p.kind = flt ? k_flt[s.below(special ? 12 : 11)] : k_int[s.below(10)];
  switch (p.kind) {
    case P_TINY: p.mag = 3; break;
    case P_SMALL: p.mag = 20; break;
    case P_MID: p.mag = 1000; break;
    case P_FRAC: p.mag = 4096; p.shift = (int)s.range(1, 12); break;
    case P_CONST: p.mag = 50; p.base = s.zigzag(std::min<uint64_t>(50, lim)); break;
    case P_IOTA: p.base = s.zigzag(std::min<uint64_t>(30, lim)); p.mag = lim; break;
    default: p.mag = lim;
  }
  if (p.mag > lim) p.mag = lim;
  return p;
}
template<class T> inline T from_i(int64_t v) {
  if constexpr (is_cplx<T>::value) return T((double)v, 0);
  else return static_cast<T>(v);
}
inline int64_t wide(Source& s, uint64_t lim) { // log-uniform magnitude
  int bits = 0; while (bits < 62 && (lim >> bits)) bits++;
  int b = (int)s.below(bits + 1);
  uint64_t m = b >= 63 ? lim : ((1ull << b) - 1);
  if (m > lim) m = lim;
  if (s.chance(1, 10)) { int64_t v = (int64_t)(s.coin() ? lim : m); return s.coin() ? -v : v; } // limits and 2^b-1
  return s.zigzag(m);
}
// multiplies by 2^k (floating element types), exact as long as nothing under- or overflows
template<class T> inline void scale2(std::vector<T>& v, int k) {
  if constexpr (is_flt<T>) { for (auto& x : v) x = std::ldexp(x, k); }
  else if constexpr (is_cplx<T>::value) { for (auto& x : v) x = T(std::ldexp(x.real(), k), std::ldexp(x.imag(), k)); }
}
template<class T> inline T gen_real(Source& s, const Profile& p, std::size_t idx) {
  switch (p.kind) {
    case P_BIN: return from_i<T>((int64_t)s.below(2));
    case P_SPARSE: return s.chance(1, 4) ? from_i<T>(s.zigzag(std::min<uint64_t>(9, p.mag))) : from_i<T>(0);
    case P_IOTA: { int64_t v = p.base + (int64_t)idx; int64_t m = (int64_t)std::min<uint64_t>(p.mag, 1ull << 40); if (v > m) v = v % (m + 1); return from_i<T>(v); }
    case P_CONST: return from_i<T>(p.base);
    case P_WIDE: return from_i<T>(wide(s, p.mag));
    case P_FRAC:
      if constexpr (is_flt<T>) return std::ldexp((T)s.zigzag(p.mag), -p.shift);
      return from_i<T>(s.zigzag(p.mag));
    case P_SPECIAL:
      if constexpr (is_flt<T>) {
        typedef std::numeric_limits<T> L;
        switch (s.below(12)) {
          case 0: return 0; case 1: return -T(0); case 2: return L::infinity(); case 3: return -L::infinity();
          case 4: return L::quiet_NaN(); case 5: return L::max(); case 6: return L::lowest(); case 7: return L::min();
          case 8: return L::denorm_min(); case 9: return -L::denorm_min(); case 10: return L::epsilon();
          default: return std::ldexp((T)s.zigzag(1 << 20), (int)s.range(-60, 60));
        }
      }
      return from_i<T>(s.zigzag(p.mag));
    default: return from_i<T>(s.zigzag(p.mag));
  }
}
template<class T> inline T gen_elem(Source& s, const Profile& p, std::size_t idx) {
  if constexpr (is_cplx<T>::value) {
    double re = gen_real<double>(s, p, idx);
    double im = s.coin() ? gen_real<double>(s, p, idx + 7) : 0;
    return T(re, im);
  } else return gen_real<T>(s, p, idx);
}
// largest magnitude the type can hold, as a generator limit
template<class T> inline uint64_t type_lim() {
  if constexpr (is_int<T>) return (uint64_t)(std::numeric_limits<T>::max() >> (is_uint<T> && sizeof(T) == 8 ? 2 : 0)) & 0x3fffffffffffffffull;
  else if constexpr (std::is_same<T, float>::value) return 1ull << 24;
  else return 1ull << 40;
}
template<class T> inline std::vector<T> gen_vec(Source& s, std::size_t n, uint64_t lim, bool special = false, Profile* out = nullptr) {
  Profile p = gen_profile(s, lim, is_flt<T> || is_cplx<T>::value, special);
  std::vector<T> v(n);
  for (std::size_t i = 0; i < n; i++) v[i] = gen_elem<T>(s, p, i);
  if (out) *out = p;
  return v;
}
// a position in an r x c matrix, corners more often
inline std::size_t draw_at(Source& s, std::size_t r, std::size_t c) {
  switch (s.below(12)) { case 8: return 0; case 9: return r * c - 1; case 10: return c - 1; case 11: return (r - 1) * c; default: return s.below(r * c); }
}
// gives half of the matrices a structure: relations between elements which independent draws never have and on which
// an implementation may branch. Values stay among the drawn ones, their negatives and 0.
template<class T> inline void structure(Source& s, std::vector<T>& v, std::size_t r, std::size_t c) {
  unsigned k = (unsigned)s.below(36);
  std::size_t keep = 0; T old{}; bool spoil = k >= 14 && s.chance(1, 3);
  if (spoil) { keep = draw_at(s, r, c); old = v[keep]; } // the structure holds but for one element
  auto neg = [](T x) { if constexpr (is_uint<T>) return x; else if constexpr (is_int<T>) return x == std::numeric_limits<T>::min() ? x : static_cast<T>(-x); else return -x; };
  auto at = [&](std::size_t i, std::size_t j) -> T& { return v[i * c + j]; };
  const T O = from_i<T>(0);
  switch (k) {
    case 14: for (std::size_t i = 1; i < r; i++) for (std::size_t j = 0; j < c; j++) at(i, j) = at(0, j); break; // all rows equal
    case 15: for (std::size_t i = 0; i < r; i++) for (std::size_t j = 1; j < c; j++) at(i, j) = at(i, 0); break; // all columns equal
    case 16: { std::size_t a = s.below(r), b = s.below(r); for (std::size_t j = 0; j < c; j++) at(a, j) = at(b, j); break; } // two equal rows
    case 17: { std::size_t a = s.below(c), b = s.below(c); for (std::size_t i = 0; i < r; i++) at(i, a) = at(i, b); break; }
    case 18: { std::size_t a = s.below(r); for (std::size_t j = 0; j < c; j++) at(a, j) = O; break; } // a zero row
    case 19: { std::size_t a = s.below(c); for (std::size_t i = 0; i < r; i++) at(i, a) = O; break; }
    case 20: case 21: if (r == c) for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < i; j++) at(i, j) = k == 20 ? at(j, i) : neg(at(j, i)); // symmetric, antisymmetric
      if (r == c && k == 21 && s.coin()) for (std::size_t i = 0; i < r; i++) at(i, i) = O;
      break;
    case 22: if constexpr (!is_cplx<T>::value) { for (auto& x : v) if (!(x == x)) x = O; std::sort(v.begin(), v.end()); if (s.coin()) std::reverse(v.begin(), v.end()); } break;
    case 23: for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < c; j++) if ((i + j) & 1) at(i, j) = O; break; // checkerboard
    case 24: { bool lo = s.coin(), st = s.coin(); for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < c; j++) if ((lo ? i < j : i > j) || (st && i == j)) at(i, j) = O; break; } // triangular
    case 25: for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < c; j++) if ((i + j) & 1) at(i, j) = neg(at(0, 0)); else at(i, j) = at(0, 0); break; // +x -x
    case 26: for (std::size_t i = 0; i < v.size() / 2; i++) v[v.size() - 1 - i] = v[i]; break; // palindrome
    case 27: for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < c; j++) if (i != j) at(i, j) = O; break; // diagonal
    case 28: for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < c; j++) if (i == 0 || j == 0 || i + 1 == r || j + 1 == c) at(i, j) = at(0, 0); break; // constant border
    case 29: for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < c; j++) if (i > 0 && j > 0 && i + 1 < r && j + 1 < c) at(i, j) = at(1, 1); break; // constant inside
    case 30: for (auto& x : v) x = v[0]; break; // constant
    case 31: for (std::size_t i = r / 2; i < r; i++) for (std::size_t j = 0; j < c / 2; j++) at(i, j) = O; break; // block triangular
    case 32: { std::size_t w = s.below(3); for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < c; j++) if (i > j + w || j > i + w) at(i, j) = O; break; } // banded
    case 33: if (r == c) for (std::size_t i = 1; i < r; i++) { at(i, 0) = at(0, i); at(i, r - 1) = at(r - 1, i); } break; // symmetric border
    case 34: if (r == c) for (std::size_t i = 0; i < r; i++) at(i, i) = at(0, 0); break; // constant diagonal
    case 35: if (r == c && r > 1) { at(0, 0) = at(r - 1, r - 1); for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < i; j++) at(i, j) = neg(at(j, i)); for (std::size_t i = 0; i < r; i++) at(i, i) = at(0, 0); } break; // [a b; -b a]
    default: break;
  }
  if (spoil) v[keep] = old;
}
// makes b a relative of a (same shape): equal, negated, transposed, equal but for one element, reversed
template<class T> inline void relate(Source& s, const std::vector<T>& a, std::vector<T>& b, std::size_t r, std::size_t c) {
  auto neg = [](T x) { if constexpr (is_uint<T>) return x; else if constexpr (is_int<T>) return x == std::numeric_limits<T>::min() ? x : static_cast<T>(-x); else return -x; };
  switch (s.below(16)) {
    case 11: b = a; break;
    case 12: b = a; for (auto& x : b) x = neg(x); break;
    case 13: b = a; if (r == c) for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < c; j++) b[i * c + j] = a[j * c + i]; break;
    case 14: { std::size_t at = draw_at(s, r, c); T x = b[at]; b = a; b[at] = x; break; }
    case 15: b = a; std::reverse(b.begin(), b.end()); break;
    default: break;
  }
}
template<class T> inline Mat<T> gen_mat(Source& s, std::size_t r, std::size_t c, uint64_t lim, bool special = false) {
  Mat<T> m(r, c); m.v = gen_vec<T>(s, r * c, lim, special); structure(s, m.v, r, c); return m;
}
template<class T> inline bool all_equal(const std::vector<T>& v) {
  for (auto& x : v) if (!same(x, v[0])) return false;
  return true;
}
inline const char* size_class(std::size_t cells) {
  return cells == 1 ? "cells:1" : cells <= 4 ? "cells:2-4" : cells <= 16 ? "cells:5-16" : cells <= 64 ? "cells:17-64" : cells <= 400 ? "cells:65-400" : "cells:>400";
}

// ---------- shape tables: entry = dimensions + typed call
template<class F> struct Ent { unsigned d[4]; F f; unsigned cost; };
template<class F> struct Table {
  std::vector<Ent<F>> e; std::vector<unsigned> pick;
  // cost = number of scalars to generate; expensive shapes are drawn less often, none never
  void add(F f, unsigned cost, unsigned a, unsigned b = 0, unsigned c = 0, unsigned d = 0) { e.push_back({{a, b, c, d}, f, cost}); }
  void done() {
    std::stable_sort(e.begin(), e.end(), [](const Ent<F>& x, const Ent<F>& y) { return x.cost < y.cost; });
    for (unsigned i = 0; i < e.size(); i++) {
      unsigned w = e[i].cost <= 40 ? 32 : e[i].cost <= 100 ? 16 : e[i].cost <= 400 ? 8 : e[i].cost <= 2000 ? 4 : 1;
      for (unsigned k = 0; k < w; k++) pick.push_back(i);
    }
  }
  // cost k*1000000: taken only once in k draws of it
  const Ent<F>& draw(Source& s) const {
    const Ent<F>& x = e[pick[s.below(pick.size())]];
    if (x.cost >= 1000000 && s.below(x.cost / 1000000)) return e[pick[s.below(pick.size() / 2)]];
    return x;
  }
};
} // namespace h
using namespace h;
