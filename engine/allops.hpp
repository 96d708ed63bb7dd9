// Every library operation over element type VT as a table entry: operands are generated inside the operation's domain,
// put into real Matrix objects (which may be shared between threads), the call is bracketed by two probe hooks, the
// result is flattened.
#pragma once
#include "linalg.hpp"
#include <iostream>
#include <memory>

// the namespace differs per element type: the same program holds one table per type
#define AO_CAT2(a, b) a##b
#define AO_CAT(a, b) AO_CAT2(a, b)
#define ao AO_CAT(ao_, VTI)
namespace aop { // shared by all types, defined in one translation unit
extern thread_local void (*probe_begin)();
extern thread_local void (*probe_end)();
}
namespace ao {
using namespace h;
using aop::probe_begin; using aop::probe_end;
typedef VT T;

struct In { std::vector<T> a, b; T s = T(); std::size_t i = 0, j = 0; int64_t p = 0; float eps = 0; };
struct Out {
  std::vector<T> v; std::size_t n = 0; bool threw = false; bool overflow = true; // everything is preallocated
  bool operator==(const Out& o) const { return threw == o.threw && n == o.n && memcmp_eq(v.data(), o.v.data(), n); }
  static bool memcmp_eq(const T* a, const T* b, std::size_t n) { for (std::size_t k = 0; k < n; k++) if (!bits(a[k], b[k])) return false; return true; }
  static bool bits(const T& a, const T& b) {
    if constexpr (is_flt<T>) { if (a != a && b != b) return true; } // which NaN is unspecified
    if constexpr (std::is_same<T, ldouble>::value) return memcmp(&a, &b, 10) == 0;
    else return memcmp(&a, &b, sizeof(T)) == 0;
  }
  void put(const T& x) { v[n++] = x; }
  void putb(bool x) { v[n++] = from_i<T>(x); }
  template<std::size_t R, std::size_t C> void put(const std::array<std::array<T, C>, R>& A) { for (auto& r : A) for (auto& x : r) v[n++] = x; }
  template<class X, class Y> void put(const std::pair<X, Y>& p) { put(p.first); put(p.second); }
  void put(const std::map<T, std::size_t>& m) { for (auto& e : m) { v[n++] = e.first; v[n++] = from_i<T>((int64_t)e.second); } }
};
struct Holder { virtual ~Holder() {} };
// every operand is an object of its own, so that a sanitizer sees one step beyond it
template<class MA, class MB> struct HolderT : Holder {
  std::unique_ptr<MA> pa; std::unique_ptr<MB> pb; MA& A; MB& B;
  HolderT() : pa(new MA()), pb(new MB()), A(*pa), B(*pb) {}
};

enum Kind { K_ANY, K_ADD, K_SCALE, K_DIVIDE, K_MUL, K_CONV, K_SQDET, K_INVERT, K_POWER, K_LUDEC, K_CHOLESKY, K_STATS, K_HISTO, K_CMP, K_ROWS, K_COLS, K_MINOR, K_STRASSEN, K_SIGN, K_PRINT };
enum Mode { M_PLAIN, M_SAME_OBJECT, M_OVERWRITE };
struct Op {
  const char* name; unsigned d[3]; Kind kind; std::size_t na, nb, nout; bool twice, overwrite; // M_SAME_OBJECT / M_OVERWRITE possible
  Holder* (*make)(const In&);
  void (*exec)(const Holder*, const In&, Out&, Mode); // throws nothing; Out::threw tells
  bool (*unchanged)(const Holder*, const In&);
  void (*refill)(Holder*, const In&); // other contents in the same objects
};
inline std::vector<Op>& ops() { static std::vector<Op> v; return v; }

template<std::size_t I, std::size_t J> bool eqm(const mlib::Matrix<T, I, J>& A, const std::vector<T>& v) {
  for (std::size_t i = 0; i < I; i++) for (std::size_t j = 0; j < J; j++) if (!Out::bits(A[i][j], v[i * J + j])) return false;
  return true;
}
template<class MA, class MB> struct Shape;
template<std::size_t I1, std::size_t J1, std::size_t I2, std::size_t J2>
struct Shape<mlib::Matrix<T, I1, J1>, mlib::Matrix<T, I2, J2>> {
  typedef mlib::Matrix<T, I1, J1> MA; typedef mlib::Matrix<T, I2, J2> MB;
  static void refill(Holder* h0, const In& in) { auto* h = static_cast<HolderT<MA, MB>*>(h0); h->A = load<T, I1, J1>(in.a.data()); if (!in.b.empty()) h->B = load<T, I2, J2>(in.b.data()); else h->B = MB(); }
  static Holder* make(const In& in) { auto* h = new HolderT<MA, MB>; refill(h, in); return h; }
  static bool unchanged(const Holder* h0, const In& in) { auto* h = static_cast<const HolderT<MA, MB>*>(h0); return eqm<I1, J1>(h->A, in.a) && (in.b.empty() || eqm<I2, J2>(h->B, in.b)); }
};
// F: functor type with static `template<class MA, class MB> auto f(const MA&, const MB&, const In&)`
template<class F, class MA, class MB> struct Exec {
  static void exec(const Holder* h0, const In& in, Out& o, Mode mode) {
    auto* h = static_cast<const HolderT<MA, MB>*>(h0);
    o.n = 0; o.threw = false;
    typedef decltype(F::f(h->A, h->B, in)) R;
    try {
      if (mode == M_SAME_OBJECT) {
        if constexpr (std::is_same<MA, MB>::value) { if (probe_begin) probe_begin(); const R r = F::f(h->A, h->A, in); if (probe_end) probe_end(); o.put(r); return; }
      }
      if (mode == M_OVERWRITE) {
        if constexpr (std::is_same<R, MA>::value) { MA A = h->A; if (probe_begin) probe_begin(); A = F::f(A, h->B, in); if (probe_end) probe_end(); o.put(A); return; }
      }
      if (probe_begin) probe_begin();
      const R r = F::f(h->A, h->B, in);
      if (probe_end) probe_end();
      o.put(r);
    } catch (const std::overflow_error&) { if (probe_end) probe_end(); o.n = 0; o.threw = true; }
  }
};
template<class F, class MA, class MB> void add(const char* name, Kind k, unsigned a, unsigned b, unsigned c, std::size_t na, std::size_t nb, std::size_t nout) {
  typedef HolderT<MA, MB> H; typedef decltype(F::f(std::declval<const MA&>(), std::declval<const MB&>(), std::declval<const In&>())) R;
  Op o; o.name = name; o.d[0] = a; o.d[1] = b; o.d[2] = c; o.kind = k; o.na = na; o.nb = nb; o.nout = nout;
  o.twice = nb && std::is_same<MA, MB>::value; o.overwrite = std::is_same<R, MA>::value;
  o.make = &Shape<MA, MB>::make; o.refill = &Shape<MA, MB>::refill; o.unchanged = &Shape<MA, MB>::unchanged; o.exec = &Exec<F, MA, MB>::exec;
  ops().push_back(o);
}
#define AO(NAME, EXPR) struct NAME { template<class MA, class MB> static auto f(const MA& A, const MB& B, const In& in) { using namespace mlib; (void)A; (void)B; (void)in; return EXPR; } };
AO(Sum, mlib::sum(A, B)) AO(Plus, A + B) AO(Sub, mlib::sub(A, B)) AO(Minus, A - B) AO(Inc, A++) AO(Dec, A--)
AO(SumS, mlib::sum(A, in.s)) AO(PlusS, A + in.s) AO(SPlus, in.s + A) AO(SubS, mlib::sub(A, in.s)) AO(MinusS, A - in.s)
AO(MultS, mlib::mult(A, in.s)) AO(TimesS, A * in.s) AO(STimes, in.s * A) AO(DivS, mlib::div(A, in.s)) AO(OverS, A / in.s)
AO(Mult, mlib::mult(A, B)) AO(Times, A * B) AO(Strassen, mlib::strassen(A, B)) AO(Abs, mlib::abs(A)) AO(Trans, mlib::trans(A))
AO(Det, mlib::det(A)) AO(Inv, mlib::inv(A)) AO(Pow, mlib::pow(A, (int)in.p)) AO(PowL, mlib::pow(A, (long)in.p)) AO(Minor, mlib::getminor(A, in.i, in.j))
AO(Lu, mlib::lu(A)) AO(Chol, mlib::chol(A)) AO(Cat, mlib::concatenate(A, B)) AO(CatV, mlib::concatenateV(A, B)) AO(CatH, mlib::concatenateH(A, B))
AO(Rot, mlib::rot180(A)) AO(Conv, mlib::conv2(A, B)) AO(ConvF, mlib::conv2_full(A, B)) AO(ConvV, mlib::conv2_valid(A, B))
AO(Mean, mlib::mean(A)) AO(Median, mlib::median(A)) AO(Var, mlib::var(A)) AO(Stddev, mlib::stddev(A)) AO(Hist, mlib::histogram(A)) AO(CumHist, mlib::cumulative_histogram(A))
AO(Compare, h::from_i<T>(mlib::compare(A, B, in.eps))) AO(IsSym, h::from_i<T>(mlib::isSymetric(A))) AO(IsId, h::from_i<T>(mlib::isIdentity(A)))
#undef AO
template<std::size_t I, std::size_t J> struct Fill { template<class MA, class MB> static auto f(const MA&, const MB&, const In& in) { return mlib::fill<T, I, J>(in.s); } };
template<std::size_t I, std::size_t J> struct Zeros { template<class MA, class MB> static auto f(const MA&, const MB&, const In&) { return mlib::zeros<T, I, J>(); } };
template<std::size_t I, std::size_t J> struct Ones { template<class MA, class MB> static auto f(const MA&, const MB&, const In&) { return mlib::ones<T, I, J>(); } };
template<std::size_t N> struct Eye { template<class MA, class MB> static auto f(const MA&, const MB&, const In& in) { return mlib::eye<T, N>(in.s); } };
// in-place operations work on a copy
struct SwapRows { template<class MA, class MB> static auto f(const MA& A, const MB&, const In& in) { MA C = A; mlib::swap_rows(C, in.i, in.j); return C; } };
struct SwapCols { template<class MA, class MB> static auto f(const MA& A, const MB&, const In& in) { MA C = A; mlib::swap_cols(C, in.i, in.j); return C; } };
struct Print { template<class MA, class MB> static auto f(const MA& A, const MB&, const In&) { mlib::print(A); return T(); } };

struct Nothing {};
template<std::size_t I, std::size_t J> void add2(bool print) {
  typedef mlib::Matrix<T, I, J> M; typedef mlib::Matrix<T, 1, 1> O; typedef mlib::Matrix<T, 3, 3> K;
  const std::size_t n = I * J;
  add<Sum, M, M>("sum", K_ADD, I, J, 0, n, n, n); add<Plus, M, M>("A+B", K_ADD, I, J, 0, n, n, n);
  add<Sub, M, M>("sub", K_ADD, I, J, 0, n, n, n); add<Minus, M, M>("A-B", K_ADD, I, J, 0, n, n, n);
  add<Inc, M, O>("A++", K_ADD, I, J, 0, n, 0, n); add<Dec, M, O>("A--", K_ADD, I, J, 0, n, 0, n);
  add<SumS, M, O>("sum(A,s)", K_ADD, I, J, 0, n, 0, n); add<PlusS, M, O>("A+s", K_ADD, I, J, 0, n, 0, n); add<SPlus, M, O>("s+A", K_ADD, I, J, 0, n, 0, n);
  add<SubS, M, O>("sub(A,s)", K_ADD, I, J, 0, n, 0, n); add<MinusS, M, O>("A-s", K_ADD, I, J, 0, n, 0, n);
  add<MultS, M, O>("mult(A,s)", K_SCALE, I, J, 0, n, 0, n); add<TimesS, M, O>("A*s", K_SCALE, I, J, 0, n, 0, n); add<STimes, M, O>("s*A", K_SCALE, I, J, 0, n, 0, n);
  add<DivS, M, O>("div(A,s)", K_DIVIDE, I, J, 0, n, 0, n); add<OverS, M, O>("A/s", K_DIVIDE, I, J, 0, n, 0, n);
  add<Abs, M, O>("abs", K_SIGN, I, J, 0, n, 0, n); add<Compare, M, M>("compare", K_CMP, I, J, 0, n, n, 1);
  add<Trans, M, O>("trans", K_ANY, I, J, 0, n, 0, n);
  add<Rot, M, O>("rot180", K_ANY, I, J, 0, n, 0, n);
  add<SwapRows, M, O>("swap_rows", K_ROWS, I, J, 0, n, 0, n); add<SwapCols, M, O>("swap_cols", K_COLS, I, J, 0, n, 0, n);
  add<Conv, M, K>("conv2", K_CONV, I, J, 0, n, 9, n); add<ConvF, M, K>("conv2_full", K_CONV, I, J, 0, n, 9, (I + 2) * (J + 2));
  if constexpr (I >= 3 && J >= 3) add<ConvV, M, K>("conv2_valid", K_CONV, I, J, 0, n, 9, (I - 2) * (J - 2));
  add<Mean, M, O>("mean", K_STATS, I, J, 0, n, 0, 1); add<Median, M, O>("median", K_STATS, I, J, 0, n, 0, 1);
  add<Var, M, O>("var", K_STATS, I, J, 0, n, 0, 1); add<Stddev, M, O>("stddev", K_STATS, I, J, 0, n, 0, 1);
  add<Hist, M, O>("histogram", K_HISTO, I, J, 0, n, 0, 2 * n); add<CumHist, M, O>("cumulative_histogram", K_HISTO, I, J, 0, n, 0, 2 * n);
  add<Fill<I, J>, O, O>("fill", K_ANY, I, J, 0, 1, 0, n); add<Zeros<I, J>, O, O>("zeros", K_ANY, I, J, 0, 1, 0, n); add<Ones<I, J>, O, O>("ones", K_ANY, I, J, 0, 1, 0, n);
  if (print) add<Print, M, O>("print", K_PRINT, I, J, 0, n, 0, 1);
}
template<std::size_t N> void addsq() {
  typedef mlib::Matrix<T, N, N> M; typedef mlib::Matrix<T, 1, 1> O;
  const std::size_t n = N * N;
  add<Eye<N>, O, O>("eye", K_ANY, N, N, 0, 1, 0, n);
  add<IsSym, M, O>("isSymetric", K_ANY, N, N, 0, n, 0, 1); add<IsId, M, O>("isIdentity", K_ANY, N, N, 0, n, 0, 1);
  add<CatV, M, M>("concatenateV", K_ANY, N, N, 0, n, n, 2 * n); add<CatH, M, M>("concatenateH", K_ANY, N, N, 0, n, n, 2 * n); add<Cat, M, M>("concatenate pair", K_ANY, N, N, 0, n, n, 4 * n);
  add<Det, M, O>("det", K_SQDET, N, N, 0, n, 0, 1);
  if constexpr (N <= 20) { // the inverse, and with it the power, costs n^5
    if constexpr (!is_uint<T>) { add<Inv, M, O>("inv", K_INVERT, N, N, 0, n, 0, n); add<Pow, M, O>("pow", K_POWER, N, N, 0, n, 0, n); }
    add<PowL, M, O>("pow(long)", K_POWER, N, N, 0, n, 0, n);
  } else if constexpr (is_uint<T> && sizeof(T) > 2) add<PowL, M, O>("pow(long)", K_POWER, N, N, 0, n, 0, n);
  if constexpr (!is_uint<T>) add<Lu, M, O>("lu", K_LUDEC, N, N, 0, n, 0, 2 * n);
  if constexpr (is_flt<T>) add<Chol, M, O>("chol", K_CHOLESKY, N, N, 0, n, 0, n);
  if constexpr (N >= 2) add<Minor, M, O>("getminor", K_MINOR, N, N, 0, n, 0, (N - 1) * (N - 1));
  if constexpr (N == 2) add<Strassen, M, M>("strassen", K_STRASSEN, N, N, 0, n, n, n);
}
template<std::size_t N, std::size_t M, std::size_t P> void add3() {
  typedef mlib::Matrix<T, N, M> A; typedef mlib::Matrix<T, M, P> B;
  add<Mult, A, B>("mult", K_MUL, N, M, P, N * M, M * P, N * P); add<Times, A, B>("A*B", K_MUL, N, M, P, N * M, M * P, N * P);
}
template<std::size_t A, std::size_t B, std::size_t K> void addcat() {
  typedef mlib::Matrix<T, A, K> V1; typedef mlib::Matrix<T, B, K> V2; typedef mlib::Matrix<T, K, A> H1; typedef mlib::Matrix<T, K, B> H2;
  add<Cat, V1, V2>("concatenate vertical", K_ANY, A, B, K, A * K, B * K, (A + B) * K);
  add<Cat, H1, H2>("concatenate horizontal", K_ANY, K, A, B, A * K, B * K, (A + B) * K);
}
inline void build(bool print) {
#define X(i, j) add2<i, j>(print);
  AO_SHAPES2(X)
#undef X
#define X(n) addsq<n>();
  AO_SQUARES(X)
#undef X
#ifndef AO_NOBIG
#define X(i, j) add2<i, j>(print);
  AO_BIG2(X)
#undef X
#define X(n) addsq<n>();
  AO_BIGSQ(X)
#undef X
#define X(n, m, p) add3<n, m, p>();
  AO_BIG3(X)
#undef X
#define X(a, b, k) addcat<a, b, k>();
  AO_BIGCATS(X)
#undef X
#endif
#define X(n, m, p) add3<n, m, p>();
  AO_SHAPES3(X)
#undef X
#define X(a, b, k) addcat<a, b, k>();
  AO_CATS(X)
#undef X
}

// operands inside the domain of the operation (no signed overflow by the mathematics itself, in-range indices);
// singular operands are in the domain: they make the call throw
inline In gen(Source& s, const Op& o) {
  In in; std::size_t n = o.d[0];
  uint64_t lim = type_lim<T>(), la = lim, lb = lim;
  auto vec = [&](std::size_t k, uint64_t l, bool sp = false) { return gen_vec<T>(s, k, l, sp && is_flt<T>); };
  auto sq = [&](Mat<int64_t> m) { return cast_mat<T>(m).v; };
  switch (o.kind) {
    case K_ANY: in.a = vec(o.na, lim, true); in.s = vec(1, lim, true)[0];
      if (o.na == o.d[0] * o.d[0] && s.coin()) { // symmetric / identity-like
        std::size_t m = o.d[0]; for (std::size_t i = 0; i < m; i++) for (std::size_t j = 0; j < i; j++) in.a[i * m + j] = in.a[j * m + i];
        if (s.coin()) for (std::size_t i = 0; i < m; i++) for (std::size_t j = 0; j < m; j++) in.a[i * m + j] = from_i<T>(i == j);
        if (s.coin()) in.a[s.below(m * m)] = from_i<T>(3);
      }
      break;
    case K_ADD: lim = is_sint<T> ? lim / 2 : lim; in.a = vec(o.na, lim, true); in.s = vec(1, lim, true)[0]; la = lb = lim; break;
    case K_SIGN: in.a = vec(o.na, lim, true); break;
    case K_SCALE: if (is_sint<T>) split_lim(s, lim, 1, la, lb); in.a = vec(o.na, la, true); in.s = vec(1, lb, true)[0]; break;
    case K_DIVIDE: in.a = vec(o.na, lim, true); in.s = s.chance(1, 6) ? T(0) : vec(1, lim, true)[0]; break;
    case K_MUL: if (is_sint<T>) split_lim(s, lim, o.d[1], la, lb); in.a = vec(o.na, la); break;
    case K_CONV: if (is_sint<T>) split_lim(s, lim, 9, la, lb); in.a = vec(o.na, la); break;
    case K_STRASSEN: if (is_sint<T>) split_lim(s, lim, 16, la, lb); in.a = vec(o.na, la); break;
    case K_CMP: lim = is_sint<T> ? lim / 2 : lim; in.a = vec(o.na, lim, true); lb = lim; in.eps = s.coin() ? 0 : std::ldexp((float)s.below(100), -4); break;
    case K_SQDET: case K_INVERT: {
      int fam = (int)s.below(FAM_COUNT); static const int64_t mg[] = {1, 3, 9, 100}; Mat<int64_t> m = gen_square(s, n, fam, mg[s.below(4)]);
      limit_minors(s, m, is_int<T> ? (n <= 3 ? (ldouble)lim / 2 : std::min((ldouble)lim / 2, 1e9L)) : std::is_same<T, float>::value ? 1e25L : 1e100L, n <= 3);
      if (is_uint<T>) for (auto& x : m.v) x = std::llabs(x);
      in.a = sq(m); if (s.coin()) scale2(in.a, -(int)s.range(1, 3)); break; }
    case K_POWER: {
      in.p = s.chance(1, 3) ? (int64_t)s.below((uint64_t)1 << s.range(4, 31)) : (int64_t)s.below(12); int sg; bool neg = !is_uint<T> && s.chance(1, 3); if (neg) in.p %= 12;
      Mat<int64_t> m(n, n);
      if (neg && s.chance(1, 8)) { in.p = std::string(o.name) == "pow" ? std::numeric_limits<int>::min() : std::numeric_limits<long>::min(); in.a = sq(gen_square(s, n, FAM_PERM, 1)); break; }
      if (neg) { m = gen_unimodular(s, n, (unsigned)(2 * n), 2, sg); if (s.chance(1, 6)) for (std::size_t j = 0; j < n; j++) m(0, j) = 0; in.p = -in.p; if (minor_bound(m) > (is_int<T> ? std::min((ldouble)lim / 2, 1e9L) : 1e9L)) { m = Mat<int64_t>(n, n); for (std::size_t i = 0; i < n; i++) m(i, i) = 1; } }
      else m = gen_square(s, n, s.coin() ? FAM_PERM : FAM_GENERAL, 2);
      if (is_uint<T>) for (auto& x : m.v) x = std::llabs(x);
      if (is_sint<T>) { // |A|^p must fit; for negative exponents the inverse decides: keep p small there
        if (neg) in.p = std::max<int64_t>(in.p, -2);
        ldouble norm = 1; for (std::size_t i = 0; i < n; i++) { ldouble r = 0; for (std::size_t j = 0; j < n; j++) r += std::llabs(m(i, j)); norm = std::max(norm, r); }
        if (neg) { QMat x; if (det_exact(m) != 0 && qinv(to_q(m), x)) { norm = 1; for (std::size_t i = 0; i < n; i++) { ldouble r = 0; for (std::size_t j = 0; j < n; j++) r += std::fabs((ldouble)x(i, j)); norm = std::max(norm, r); } } }
        if (norm > 1 && std::llabs(in.p) > 64) in.p = in.p < 0 ? -64 : 64;
        while (std::llabs(in.p) > 1 && std::pow(norm, 2 * (ldouble)std::llabs(in.p)) > (ldouble)lim / 4) /* one squaring more than needed is no misuse */ in.p += in.p < 0 ? 1 : -1;
      }
      in.a = sq(m); break; }
    case K_LUDEC: { // integer factors, pivots +-1 or 2, sometimes 0
      Mat<int64_t> l(n, n), u(n, n), x(n, n);
      for (std::size_t i = 0; i < n; i++) { l(i, i) = 1; for (std::size_t j = 0; j < i; j++) l(i, j) = s.zigzag(2); u(i, i) = s.coin() ? 1 : -2; for (std::size_t j = i + 1; j < n; j++) u(i, j) = s.zigzag(3); }
      if (s.chance(1, 5)) { std::size_t k = s.below(n); u(k, k) = 0; }
      for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) for (std::size_t k = 0; k < n; k++) x(i, j) += l(i, k) * u(k, j);
      in.a = sq(x); break; }
    case K_CHOLESKY: {
      Mat<int64_t> l(n, n), x(n, n);
      for (std::size_t i = 0; i < n; i++) { l(i, i) = 1 + (int64_t)s.below(4); for (std::size_t j = 0; j < i; j++) l(i, j) = s.zigzag(3); }
      for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) for (std::size_t k = 0; k < n; k++) x(i, j) += l(i, k) * l(j, k);
      in.a = sq(x); if (s.coin()) for (std::size_t i = 0; i < n; i++) in.a[i * n + i] += in.a[i * n + i] / 4; break; }
    case K_STATS: in.a = vec(o.na, is_int<T> ? std::max<uint64_t>(1, std::min(isqrt64(lim), isqrt64((1ull << 62) / o.na)) / 2) : lim); break;
    case K_HISTO: in.a = vec(o.na, lim); if (s.coin()) for (auto& x : in.a) x = from_i<T>((int64_t)s.below(4)); break;
    case K_ROWS: in.a = vec(o.na, lim, true); in.i = s.below(o.d[0]); in.j = s.below(o.d[0]); break;
    case K_COLS: in.a = vec(o.na, lim, true); in.i = s.below(o.d[1]); in.j = s.below(o.d[1]); break;
    case K_MINOR: in.a = vec(o.na, lim, true); in.i = s.below(n); in.j = s.below(n); break;
    case K_PRINT: in.a = vec(o.na, lim, true); break;
  }
  if (o.kind != K_SQDET && o.kind != K_INVERT && o.kind != K_POWER && o.kind != K_LUDEC && o.kind != K_CHOLESKY && o.na == o.d[0] * o.d[1] && o.na > 1) structure(s, in.a, o.d[0], o.d[1]);
  if (o.nb) {
    bool sp = o.kind == K_ADD || o.kind == K_CMP || o.kind == K_ANY;
    in.b = vec(o.nb, lb, sp);
    if (o.kind == K_CMP && s.coin()) in.b = in.a;
    else if (o.kind == K_MUL && o.nb == o.d[1] * o.d[2]) structure(s, in.b, o.d[1], o.d[2]);
    else if (o.kind == K_CONV && o.nb == 9) structure(s, in.b, 3, 3);
    else if (o.nb == o.d[0] * o.d[1]) structure(s, in.b, o.d[0], o.d[1]);
    if (o.na == o.nb && o.na == o.d[0] * o.d[1] && (sp || !is_sint<T>)) relate(s, in.a, in.b, o.d[0], o.d[1]);
  }
  if constexpr (is_sint<T>) { // the limits of a signed type, where the result fits
    const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    if (o.kind == K_ADD && o.na > 0 && s.chance(1, 4)) {
      std::string nm = o.name; bool plus = nm == "sum" || nm == "A+B" || nm == "A++" || nm == "sum(A,s)" || nm == "A+s" || nm == "s+A";
      std::size_t k = s.below(o.na); bool low = s.coin(); int64_t d = (int64_t)s.below(3);
      if (o.nb) { in.b[k] = low ? (T)(lo + d) : (T)(hi - d); in.a[k] = low == plus ? (T)d : (T)(-1 - d); }
      else if (nm == "A++") in.a[k] = low ? lo : (T)(hi - 1);
      else if (nm == "A--") in.a[k] = low ? (T)(lo + 1) : hi;
      else { in.s = low ? (T)(lo + d) : (T)(hi - d); for (auto& x : in.a) x = low == plus ? (T)(x < 0 ? -x : x) : (T)(x < 0 ? x : -1 - x); }
    }
    if (o.kind == K_DIVIDE && in.s != -1 && s.chance(1, 8)) in.a[s.below(o.na)] = lo;
  }
  return in;
}
// similar operands that stay in the domain: only the scalar, the indices or the exponent change, or some elements (rows,
// for the kinds where magnitudes are bounded by minors) change place, or all but the first and the last one do; shape,
// multiset of values and often the first and last elements stay
inline In variant(Source& s, const Op& o, const In& in0) {
  In in = in0; std::size_t n = o.d[0];
  if (s.chance(1, 4)) switch (o.kind) { // everything but the matrix
    case K_ANY: case K_ADD: case K_SCALE: case K_DIVIDE:
      in.s = (T)(in.s / from_i<T>(2)); if (o.kind == K_DIVIDE && is_sint<T> && in.s == (T)-1) in.s = (T)1;
      if (!o.nb || in.s != in0.s) return in; break;
    case K_POWER: in.p = in.p < 0 ? -(int64_t)s.below((uint64_t)-in.p + 1) : (int64_t)s.below((uint64_t)in.p + 1); return in;
    case K_ROWS: in.i = s.below(o.d[0]); in.j = s.below(o.d[0]); return in;
    case K_COLS: in.i = s.below(o.d[1]); in.j = s.below(o.d[1]); return in;
    case K_MINOR: in.i = s.below(n); in.j = s.below(n); return in;
    case K_CMP: in.eps = in.eps == 0 ? 1.f : in.eps / 2; return in;
    default: break;
  }
  switch (o.kind) {
    case K_POWER: return gen(s, o);
    case K_LUDEC: if (s.coin()) return gen(s, o); { std::size_t j = n - 1 - s.below(s.coin() ? 1 : n); for (std::size_t i = 0; i < n; i++) in.a[i * n + j] = -in.a[i * n + j]; } break;
    case K_CHOLESKY: if (s.coin()) return gen(s, o); { std::size_t j = s.below(n); in.a[j * n + j] += from_i<T>(1 + (int64_t)s.below(5)); } break;
    case K_SQDET: case K_INVERT: { std::size_t p = s.below(n), q = s.below(n); for (std::size_t j = 0; j < n; j++) std::swap(in.a[p * n + j], in.a[q * n + j]); break; }
    default: {
      std::vector<T>& v = !in.b.empty() && s.coin() ? in.b : in.a;
      if (v.size() > 3 && s.coin()) {
        uint64_t x = s.below(1 << 20) * 2 + 1;
        for (std::size_t k = v.size() - 2; k > 1; k--) { x = x * 6364136223846793005ull + 1442695040888963407ull; std::swap(v[k], v[1 + (x >> 33) % k]); }
        break;
      }
      std::size_t p = s.below(v.size()), q = s.below(v.size());
      if (s.chance(1, 4)) v[p] = v[q]; else std::swap(v[p], v[q]); }
  }
  return in;
}
// both operands are the same object: keep the products inside a signed type
template<class X = T> void tame(const Op& o, In& in) {
  if constexpr (is_sint<X>) if (o.kind != K_ANY && o.kind != K_CMP) for (X& x : in.a) x = (X)(x % 100);
  (void)o; (void)in;
}
inline void describe(Ctx& c, const Op& o, const In& in) {
  if (!c.verbose) return;
  c.desc << o.name << " " << o.d[0] << "x" << o.d[1]; if (o.d[2]) c.desc << "x" << o.d[2];
  show(c, "A", in.a.data(), 1, in.a.size()); if (o.nb) show(c, "B", in.b.data(), 1, in.b.size());
  c.desc << " s="; show1(c.desc, in.s); c.desc << " i=" << in.i << " j=" << in.j << " p=" << in.p;
}
// fills the unused part of the stack: further down for operations on large matrices
template<std::size_t N> __attribute__((noinline)) void paint_n(unsigned char b) { unsigned char p[N]; memset(p, b, sizeof p); asm volatile("" : : "r"(p) : "memory"); }
inline void paint(unsigned char b, const Op& o) { if ((o.na + o.nb + o.nout) * sizeof(T) > 12000) paint_n<3000000>(b); else paint_n<100000>(b); }
inline const std::vector<unsigned>& pick() { // cheap shapes more often
  static std::vector<unsigned> p = [] { std::vector<unsigned> p; for (unsigned i = 0; i < ops().size(); i++) { std::size_t k = ops()[i].na + ops()[i].nout; unsigned w = k <= 40 ? 32 : k <= 150 ? 16 : k <= 3000 ? 4 : 1; for (unsigned q = 0; q < w; q++) p.push_back(i); } return p; }();
  return p;
}
inline const Op& draw(Source& s) {
  const auto& p = pick(); const Op& o = ops()[p[s.below(p.size())]];
  return o.na + o.nout > 60000 && s.below(20) ? ops()[p[s.below(p.size() / 2)]] : o; // the largest even less often
}
} // namespace ao
