// C18: comparison predicates decide their definition exactly.
#include "ref.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "predicate, shape, base matrix and deviations (none, within tolerance, exactly at it, just beyond it; one element or several, at any position; NaN and infinities) are drawn; non-trivial = more than one element and a deviation in at least one of them";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
enum { COMPARE, SYM, IDENT };
struct Call { const T *a, *b; float eps; bool out; T *aa, *bb; int op; bool self; };
template<std::size_t I, std::size_t J> void call(Call& c) {
  const auto A = load<T, I, J>(c.a); const auto B = load<T, I, J>(c.b);
  if (c.op == COMPARE) { const bool r = mlib::compare(A, c.self ? A : B, c.eps); c.out = r; }
  else if constexpr (I == J) { if (c.op == SYM) { const bool r = mlib::isSymetric(A); c.out = r; } else if constexpr (!is_cplx<T>::value) { const bool r = mlib::isIdentity(A); c.out = r; } }
  store<T, I, J>(c.aa, A); store<T, I, J>(c.bb, B);
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(i, j) t.add(&call<i, j>, i* j, i, j);
    SHAPES2(X)
#undef X
    t.done(); return t; }();
  return t;
}
const Table<F>& squares() {
  static Table<F> t = [] { Table<F> t; for (auto& e : table().e) if (e.d[0] == e.d[1]) { t.add(e.f, e.cost, e.d[0], e.d[1]); } t.done(); return t; }();
  return t;
}
template<class T> bool isnan_(const T& x) { return !(x == x); }
// values of any magnitude, deviations from one unit in the last place to a change of sign
template<class T> void any_magnitude(Source& s, Mat<T>& a, Mat<T>& b, float& eps, bool& want, std::size_t& dev) {
  std::size_t n = a.v.size(); want = true;
  if constexpr (is_flt<T>) {
    a.v = gen_vec<T>(s, n, type_lim<T>()); structure(s, a.v, a.r, a.c);
    int k = std::is_same<T, float>::value ? 90 : 900; if (s.chance(2, 3)) scale2(a.v, (int)s.range(-k, k));
    b = a; eps = s.coin() ? 0.0f : std::ldexp((float)(1 + s.below(7)), (int)s.range(-120, 100));
    for (unsigned q = (unsigned)s.below(3); q--;) {
      T& x = b.v[draw_at(s, a.r, a.c)];
      switch (s.below(6)) {
        case 0: for (uint64_t z = 1 + s.below(3); z--;) x = std::nextafter(x, s.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest()); break;
        case 1: x = -x; break;
        case 2: x = std::numeric_limits<T>::denorm_min(); break;
        case 3: x += (T)eps * (T)2; break;
        case 4: x -= (T)eps / (T)2; break;
        default: x = std::ldexp(x, s.coin() ? 1 : -1);
      }
    }
    for (std::size_t i = 0; i < n; i++) {
      T x = a.v[i], y = b.v[i]; quad d = qabs((quad)x - (quad)y), t = d - (quad)eps; // a difference that rounds to the tolerance is neither
      if (!std::isfinite(y) || (eps > 0 && qabs(t) <= 4 * (quad)eps_of<T>() * (qabs((quad)x) + qabs((quad)y)))) y = b.v[i] = x;
      if (!(x == y || t <= 0)) want = false;
      if (x != y) dev++;
    }
  } else {
    uint64_t lim = is_sint<T> ? type_lim<T>() / 2 : type_lim<T>();
    a.v = gen_vec<T>(s, n, lim); structure(s, a.v, a.r, a.c); b = a; eps = s.coin() ? 0.0f : (float)(1 + s.below(9));
    for (unsigned q = (unsigned)s.below(3); q--;) { T& x = b.v[draw_at(s, a.r, a.c)]; x = s.coin() ? (T)(x ^ (T)(1ull << s.below(sizeof(T) * 8 - 2))) : gen_vec<T>(s, 1, lim)[0]; }
    for (std::size_t i = 0; i < n; i++) { i128 d = (i128)a.v[i] - (i128)b.v[i]; if (d < 0) d = -d; if (d > (i128)eps) want = false; if (d) dev++; }
  }
}
template<class T> void prop(Source& s, Ctx& c) {
  int op = (int)s.below(4); if (op == 3) op = COMPARE;
  if (is_cplx<T>::value && op == IDENT) op = SYM;
  const auto& e = op == COMPARE ? table().draw(s) : squares().draw(s);
  std::size_t I = e.d[0], J = e.d[1], n = I * J;
  Mat<T> a(I, J), b(I, J), aa(I, J), bb(I, J);
  float eps = 0; bool want = true; std::size_t dev = 0; bool odd = false, self = false;
  bool any = false;
  if constexpr (!is_cplx<T>::value) if (op == COMPARE && s.chance(1, 5)) { any = true; any_magnitude(s, a, b, eps, want, dev); c.label("any magnitude"); }
  if (any) {}
  else if (op == COMPARE) {
    // multiples of 1/64 below 2^12: differences, and epsilon, are exact in every type
    bool fl = is_flt<T> || is_cplx<T>::value; int sh = fl ? 6 : 0;
    auto unit = [&](int64_t k) -> T { if constexpr (is_flt<T>) return std::ldexp((T)k, -6); else if constexpr (is_cplx<T>::value) return T(std::ldexp((double)k, -6), 0); else return (T)k; };
    int64_t ek = s.chance(1, 4) ? 0 : (int64_t)s.below(s.coin() ? 8 : 300);
    eps = std::ldexp((float)ek, -sh);
    if (!fl && s.chance(1, 4) && ek > 0) eps = (float)ek - 0.5f; // not an integer
    for (auto& x : a.v) x = unit(s.zigzag(sizeof(T) == 2 ? 3000 : 1 << 15));
    unsigned special = fl && s.chance(1, 5) ? 1 + (unsigned)s.below(4) : 0;
    b = a;
    // deviations: all elements within tolerance, or none
    if (s.coin()) for (auto& x : b.v) if (s.coin()) x = x + unit((s.coin() ? 1 : -1) * (int64_t)s.below(ek + 1));
    unsigned nd = (unsigned)s.below(3);
    if (nd == 2) nd = 1;
    for (unsigned k = 0; k < nd; k++) { std::size_t at = draw_at(s, I, J); b.v[at] = a.v[at] + unit((s.coin() ? 1 : -1) * (ek + (int64_t)(s.coin() ? 1 : s.below(50)))); dev++; }
    if (n >= 2 && s.chance(1, 4)) { // several deviations beyond the tolerance whose sum (in the matrix, in a row or column) is zero
      std::size_t x = s.below(n), y = s.below(n); unsigned how = (unsigned)s.below(3);
      if (how == 1) y = x / J * J + s.below(J); if (how == 2) y = s.below(I) * J + x % J;
      T d = unit(ek + 1 + (int64_t)s.below(4)); if (x != y) { b.v[x] = a.v[x] + d; b.v[y] = a.v[y] - d; dev += 2; c.label("compensating deviations"); }
    }
    if constexpr (is_flt<T>) if (special) {
      typedef std::numeric_limits<T> L; std::size_t at = draw_at(s, I, J); odd = true;
      switch (special) {
        case 1: a.v[at] = L::quiet_NaN(); break;
        case 2: b.v[at] = L::quiet_NaN(); if (s.coin()) a.v[at] = L::quiet_NaN(); break;
        case 3: a.v[at] = s.coin() ? L::infinity() : -L::infinity(); b.v[at] = a.v[at]; break;
        default: a.v[at] = s.coin() ? L::infinity() : -L::infinity(); if (s.coin()) b.v[at] = -a.v[at];
      }
    }
    if constexpr (is_cplx<T>::value) { if (s.coin()) { std::size_t at = draw_at(s, I, J); double d = std::ldexp((double)(ek + (int64_t)s.below(3)), -6); b.v[at] = a.v[at] + T(0, s.coin() ? d : -d); dev++; } }
    if (s.chance(1, 8)) { b = a; self = true; c.label("one object twice"); }
    bool usual = true;
    if (s.chance(1, 16)) { // unusual tolerances: the definition covers them
      typedef std::numeric_limits<float> L; const float q[] = {L::infinity(), -1.0f, -L::denorm_min(), L::quiet_NaN(), -0.0f, L::max(), L::denorm_min(), -L::infinity()};
      eps = q[s.below(8)]; usual = false; c.label("unusual epsilon");
    }
    for (std::size_t i = 0; i < n; i++) {
      if constexpr (is_flt<T>) { if (!(a.v[i] == b.v[i] || qabs((quad)a.v[i] - (quad)b.v[i]) <= (quad)eps)) want = false; }
      else if constexpr (is_cplx<T>::value) { T d = a.v[i] - b.v[i]; if (d.imag() != 0 && d.real() != 0) { c.discarded = true; return; } if (!(d == T() || std::max(std::fabs(d.real()), std::fabs(d.imag())) <= eps)) want = false; }
      else { i128 d = (i128)a.v[i] - (i128)b.v[i]; if (d < 0) d = -d; if (!(d == 0 || (double)d <= (double)eps)) want = false; }
      if (!same(a.v[i], b.v[i])) dev++;
    }
    if (usual && !self && is_sint<T> && sizeof(T) >= 4 && s.chance(1, 8)) { // far apart: no wrap-around of the difference
      std::size_t at = draw_at(s, I, J); a.v[at] = (T)(type_lim<T>() / 2); b.v[at] = (T)(-(int64_t)(type_lim<T>() / 2) + (int64_t)s.below(3)); want = false; dev++;
    }
  } else if (op == SYM) {
    for (std::size_t i = 0; i < I; i++) for (std::size_t j = 0; j <= i; j++) a(i, j) = a(j, i) = gen_vec<T>(s, 1, type_lim<T>(), false)[0];
    if (I >= 3 && s.chance(1, 6)) { // three pairs whose deviations cancel in (weighted) row and column sums
      std::size_t p = s.below(I), q = s.below(I), r = s.below(I);
      if (p != q && q != r && p != r) {
        bool wt = s.coin(); auto w = [&](std::size_t k) { return from_i<T>(wt ? (int64_t)(k % 7 + 1) : 1); };
        for (auto& x : a.v) x = from_i<T>(0);
        for (std::size_t i = 0; i < I; i++) for (std::size_t j = 0; j <= i; j++) a(i, j) = a(j, i) = from_i<T>(is_uint<T> ? 10 + (int64_t)s.below(30) : s.zigzag(30));
        auto dev1 = [&](std::size_t x, std::size_t y, T d) { a(x, y) = (T)(a(x, y) + d); a(y, x) = (T)(a(y, x) - d); };
        dev1(p, q, w(r)); dev1(q, r, w(p)); dev1(r, p, w(q)); dev += 3; c.label("compensating deviations");
      }
    } else if (I >= 3 && s.chance(1, 12)) { // a permutation of the rows of the identity
      for (auto& x : a.v) x = from_i<T>(0);
      std::size_t k = 1 + s.below(I - 1); for (std::size_t i = 0; i < I; i++) a(i, (i + k) % I) = from_i<T>(1);
      dev++; c.label("circulant");
    } else if (I >= 2 && s.chance(2, 3)) { // break one pair by the smallest possible amount
      std::size_t i = s.below(I), j = s.below(J); if (s.chance(1, 4)) { i = I - 1; j = J - 2; } if (i == j) j = (i + 1) % I;
      if constexpr (is_flt<T>) { unsigned w = (unsigned)s.below(6); a(i, j) = w == 0 ? std::numeric_limits<T>::quiet_NaN() : w == 1 ? a(i, j) + 1 : w == 2 ? -a(i, j) : std::nextafter(a(i, j), s.coin() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()); }
      else if constexpr (is_cplx<T>::value) a(i, j) = s.coin() ? std::conj(a(i, j)) : a(i, j) + T(0, 1);
      else a(i, j) = (T)(a(i, j) ^ (T)(1ull << s.below(sizeof(T) * 8 - 1)));
      dev++;
    }
    for (std::size_t i = 0; i < I; i++) for (std::size_t j = 0; j < i; j++) if (!(a(i, j) == a(j, i))) want = false;
  } else {
    for (std::size_t i = 0; i < I; i++) a(i, i) = from_i<T>(1);
    if (s.chance(2, 3)) {
      std::size_t i = s.below(I), j = s.coin() ? i : s.below(J); if (s.chance(1, 6)) i = j = I - 1;
      if constexpr (is_flt<T>) { unsigned w = (unsigned)s.below(7); T o = a(i, j), x = s.coin() ? 10 : -10; a(i, j) = w == 0 ? std::numeric_limits<T>::quiet_NaN() : w == 1 ? o + 1 : w == 2 ? -o : w == 3 ? std::numeric_limits<T>::denorm_min() : w == 4 ? T(0) : std::nextafter(o, x); }
      else if constexpr (is_cplx<T>::value) a(i, j) = a(i, j) + (s.coin() ? T(0, s.coin() ? 1 : 1e-300) : T(1, 0));
      else a(i, j) = (T)(a(i, j) ^ (T)(1ull << s.below(sizeof(T) * 8 - 1)));
      dev++;
    } else if (I >= 2 && s.chance(1, 2)) { // several deviations with sum zero: in a row, in a column, on the diagonal, anywhere
      std::size_t x = s.below(I), y = s.below(I), x2 = s.below(I), y2 = s.below(I); unsigned how = (unsigned)s.below(4);
      if (how == 0) x2 = x; if (how == 1) y2 = y; if (how == 2) { y = x; y2 = x2; }
      if (x != x2 || y != y2) { T d = from_i<T>(1 + (int64_t)s.below(5)); a(x, y) = (T)(a(x, y) + d); a(x2, y2) = (T)(a(x2, y2) - d); dev += 2; c.label("compensating deviations"); }
    } else if (s.chance(1, 4)) { T v = from_i<T>(s.zigzag(5)); for (std::size_t i = 0; i < I; i++) a(i, i) = v; dev++; }
    else if (s.chance(1, 4)) { a = gen_mat<T>(s, I, J, 3); dev++; }
    for (std::size_t i = 0; i < I; i++) for (std::size_t j = 0; j < J; j++) if (!(a(i, j) == from_i<T>(i == j))) want = false;
    b = a;
  }
  static const char* nm[] = {"compare(A,B,eps)", "isSymetric(A)", "isIdentity(A)"};
  if (c.verbose) c.desc << nm[op]; show(c, "A", a); if (op == COMPARE) { show(c, "B", b); shows(c, "eps", eps); }
  Call k{a.v.data(), b.v.data(), eps, false, aa.v.data(), bb.v.data(), op, self};
  e.f(k);
  if (k.out != want) throw Fail(std::string(nm[op]) + " returned " + (k.out ? "true" : "false") + ", expected " + (want ? "true" : "false"));
  expect_same("operand A after the call", aa, a); expect_same("operand B after the call", bb, b);
  c.nontrivial = n > 1 && dev > 0;
  c.label(std::string(nm[op]) + (want ? " true" : " false")); c.label(size_class(n)); if (odd) c.label("NaN/infinity");
}
REG_SUITE(a, "predicates", prop<VT>);
}
