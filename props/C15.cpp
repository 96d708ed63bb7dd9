// C15: mean, median, variance, standard deviation.
#include "ref.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "shape, statistic and elements (profiles, a small spread on a large offset, few distinct values, sorted and reversed order) are drawn; non-trivial = at least three elements, not all equal";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
enum { MEAN, MEDIAN, VAR, STDDEV, NOPS };
const char* opname[] = {"mean", "median", "var", "stddev"};
struct Call { const T* a; T out; T* aft; int op; };
template<std::size_t I, std::size_t J> void call(Call& c) {
  const auto A = load<T, I, J>(c.a);
  switch (c.op) {
    case MEAN: { const T r = mlib::mean(A); c.out = r; break; }
    case MEDIAN: { const T r = mlib::median(A); c.out = r; break; }
    case VAR: { const T r = mlib::var(A); c.out = r; break; }
    default: { const T r = mlib::stddev(A); c.out = r; }
  }
  store<T, I, J>(c.aft, A);
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(i, j) t.add(&call<i, j>, i* j, i, j);
    SHAPES2S(X)
#undef X
    t.done(); return t; }();
  return t;
}
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t I = e.d[0], J = e.d[1], n = I * J;
  int op = (int)s.below(NOPS);
  std::vector<T> a; bool ivar = is_int<T> && op >= VAR;
  unsigned fam = (unsigned)s.below(6);
  if constexpr (is_int<T>) {
    uint64_t lim = type_lim<T>();
    if (sizeof(T) == 8) lim /= std::max<std::size_t>(n, 2);
    if (ivar) lim = std::max<uint64_t>(1, std::min(isqrt64(type_lim<T>()), isqrt64((1ull << 62) / n) / 3)); // variance and 64-bit sum of squares fit
    if (fam == 0) { uint64_t k = std::min<uint64_t>(lim, 1 + s.below(4)); a.resize(n); for (auto& x : a) x = (T)(is_uint<T> ? (int64_t)s.below(k + 1) : s.zigzag(k)); }
    else if (fam == 1 && !ivar) { a.resize(n); T base = is_uint<T> || s.coin() ? (T)lim : (T)(-(int64_t)lim); for (auto& x : a) { int64_t d = (int64_t)s.below(std::min<uint64_t>(lim, 100) + 1); x = (T)(base > 0 ? base - d : base + d); } c.label("close to the limits of the type"); }
    else a = gen_vec<T>(s, n, lim);
    if (!ivar && sizeof(T) < 8 && s.chance(1, 4)) a[s.below(n)] = std::numeric_limits<T>::min();
    structure(s, a, I, J);
    if (!ivar && sizeof(T) == 8 && s.chance(1, 8)) { // up to the limits of the 64-bit sum
      uint64_t b = (uint64_t)std::numeric_limits<T>::max() / (op == MEAN ? n : n % 2 ? 1 : 2); bool near_ = s.coin();
      for (auto& x : a) { uint64_t v = near_ ? b - s.below(std::min<uint64_t>(b, 50) + 1) : s.below(b); x = !is_uint<T> && s.coin() ? (T)(-(int64_t)v) : (T)v; }
      c.label("64-bit limits");
    } else
    if (is_uint<T> && (ivar || sizeof(T) == 8)) for (auto& x : a) x = (T)(x % (lim + 1));
    if (ivar) { // integer variance is meaningful when the mean is an integer
      i128 sum = 0, ss = 0; for (auto& x : a) sum += (i128)x;
      i128 r = ((sum % (i128)n) + (i128)n) % (i128)n, up = r ? (i128)n - r : 0, v = (i128)a[n - 1] + up;
      if (v <= (i128)lim) a[n - 1] = (T)v; else { std::size_t k0 = s.below(n); for (i128 k = 0; k < up; k++) a[(k0 + (std::size_t)k) % n]++; } // distinct elements
      sum += up;
      for (auto& x : a) ss += ((i128)x - sum / (i128)n) * ((i128)x - sum / (i128)n);
      if (ss / (i128)n > (i128)std::numeric_limits<T>::max() || ss >> 62) { c.discarded = true; return; } // the variance has to fit
      if (fam == 1 || fam == 2) { // the spread does not depend on where the values lie
        uint64_t room = ((uint64_t)type_lim<T>() - std::min<uint64_t>(type_lim<T>(), lim + 1)) / (sizeof(T) == 8 ? n : 1); int64_t b = (int64_t)(fam == 1 ? room : s.below(room + 1)); if (!is_uint<T> && s.coin()) b = -b;
        for (auto& x : a) x = (T)(x + b);
        c.label("integer variance at an offset");
      }
    }
  } else {
    if (fam == 0) { a.resize(n); for (auto& x : a) x = (T)s.zigzag(2); }
    else if (fam == 1) { // small spread on a large offset
      int digits = std::numeric_limits<T>::digits; int eo = (int)s.range(4, digits - 4); T off = std::ldexp((T)1, eo) * (s.coin() ? 1 : -1); int es = (int)s.range(0, std::min(eo - 1, digits - eo));
      a.resize(n); for (auto& x : a) x = off + std::ldexp((T)s.zigzag(8), -es / 2);
      c.label("small spread on a large offset");
    } else a = gen_vec<T>(s, n, std::is_same<T, float>::value ? 1 << 20 : 1ull << 40);
    structure(s, a, I, J);
    if (s.chance(1, 6)) { int k = std::is_same<T, float>::value ? 20 : 200; scale2(a, (int)s.range(-k, k)); }
  }
  unsigned ord = (unsigned)s.below(6); // order matters for median implementations
  { if (ord == 4) std::sort(a.begin(), a.end()); else if (ord == 5) { std::sort(a.begin(), a.end()); std::reverse(a.begin(), a.end()); } }
  std::vector<T> aft(n);
  if (c.verbose) c.desc << opname[op]; show(c, "A", a.data(), I, J);
  Call k{a.data(), T(), aft.data(), op};
  e.f(k);
  std::string at = std::string(opname[op]) + " is " + str(k.out);
  std::vector<T> so = a; std::sort(so.begin(), so.end());
  if constexpr (is_int<T>) {
    i128 sum = 0; for (auto& x : a) sum += (i128)x;
    if (op == MEAN) { i128 w = sum / (i128)n; if ((i128)k.out != w) throw Fail(at + ", expected " + str(w)); }
    else if (op == MEDIAN) { i128 w = n % 2 ? (i128)so[n / 2] : ((i128)so[n / 2] + (i128)so[n / 2 - 1]) / 2; if ((i128)k.out != w) throw Fail(at + ", expected " + str(w)); }
    else {
      i128 m = sum / (i128)n, ss = 0; for (auto& x : a) ss += ((i128)x - m) * ((i128)x - m);
      ldouble v = (ldouble)ss / n, w = op == VAR ? v : std::sqrt(v);
      bool whole = ss % (i128)n == 0;
      ldouble err = std::fabs((ldouble)k.out - w);
      ldouble tol = op == VAR ? (whole ? 0.0L : 1.0L) : 1.0L;
      if (op == STDDEV && whole && std::floor(w) == w) tol = 0;
      if (!(err <= tol)) throw Fail(at + ", exact value " + str(w));
    }
  } else {
    quad sum = 0, mag = 0; for (auto& x : a) { sum += (quad)x; mag += qabs((quad)x); }
    quad ep = (quad)eps_of<T>(), N = (quad)n, m = sum / N, dm = (N + 2) * ep * (mag / N);
    if (op == MEAN) { quad err = qabs((quad)k.out - m); if (!(err <= dm)) throw Fail(at + ", exact value " + str((ldouble)m)); if (dm > 0) c.track("mean", (double)(err / dm)); }
    else if (op == MEDIAN) {
      quad w = n % 2 ? (quad)so[n / 2] : ((quad)so[n / 2] + (quad)so[n / 2 - 1]) / 2, tol = n % 2 ? 0 : ep * 2 * (qabs((quad)so[n / 2]) + qabs((quad)so[n / 2 - 1]));
      if (!(qabs((quad)k.out - w) <= tol)) throw Fail(at + ", exact value " + str((ldouble)w));
    } else {
      quad ss = 0; for (auto& x : a) { quad d = (quad)x - m; ss += d * d; }
      quad v = ss / N, tv = 2 * (N + 8) * ep * (v + dm * dm) + 2 * dm * dm + 2 * qsqrt(v) * dm * ep;
      if (op == VAR) { quad err = qabs((quad)k.out - v); if (!(err <= tv)) throw Fail(at + ", exact value " + str((ldouble)v) + ", allowed error " + str((ldouble)tv)); if (tv > 0) c.track("var", (double)(err / tv)); }
      else {
        quad lo = qsqrt(v - tv) * (1 - 4 * ep), hi = qsqrt(v + tv) * (1 + 4 * ep);
        if (!((quad)k.out >= lo && (quad)k.out <= hi)) throw Fail(at + ", exact value " + str((ldouble)qsqrt(v)));
      }
    }
  }
  expect_same("operand after the call", aft.data(), a.data(), I, J);
  c.nontrivial = n >= 3 && !all_equal(a);
  c.label(opname[op]); c.label(size_class(n)); c.label(n % 2 ? "odd count" : "even count");
}
REG_SUITE(a, "stats", prop<VT>);
}
