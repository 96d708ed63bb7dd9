// C12: concatenation keeps every element of both operands in place.
#include "common.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "form (vertical, horizontal, square pair, concatenateV, concatenateH), shapes and elements are drawn; non-trivial = the operands hold at least two distinct values";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
struct Call { const T *a, *b; T *o1, *o2, *aa, *bb; int op; bool same; };
template<std::size_t I1, std::size_t I2, std::size_t J> void callv(Call& c) {
  const auto A = load<T, I1, J>(c.a); const auto B = load<T, I2, J>(c.b);
  store_exact<T, I1 + I2, J>(c.o1, mlib::concatenate(A, B)); store<T, I1, J>(c.aa, A); store<T, I2, J>(c.bb, B);
}
template<std::size_t I, std::size_t J1, std::size_t J2> void callh(Call& c) {
  const auto A = load<T, I, J1>(c.a); const auto B = load<T, I, J2>(c.b);
  store_exact<T, I, J1 + J2>(c.o1, mlib::concatenate(A, B)); store<T, I, J1>(c.aa, A); store<T, I, J2>(c.bb, B);
}
template<std::size_t N> void calls(Call& c) {
  const auto A = load<T, N, N>(c.a), B0 = load<T, N, N>(c.b); const auto& B = c.same ? A : B0;
  if (c.op == 0) { auto r = mlib::concatenate(A, B); store_exact<T, N + N, N>(c.o1, r.first); store_exact<T, N, N + N>(c.o2, r.second); }
  else { store_exact<T, N + N, N>(c.o1, mlib::concatenateV(A, B)); store_exact<T, N, N + N>(c.o2, mlib::concatenateH(A, B)); }
  store<T, N, N>(c.aa, A); store<T, N, N>(c.bb, B);
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(i1, i2, j) t.add(&callv<i1, i2, j>, (i1 + i2) * j, 0, i1, i2, j);
    CATV(X)
#undef X
#define X(i, j1, j2) t.add(&callh<i, j1, j2>, i*(j1 + j2), 1, i, j1, j2);
    CATH(X)
#undef X
#define X(n) t.add(&calls<n>, 2 * n * n, 2, n); t.add(&calls<n>, 2 * n * n, 2, n); t.add(&calls<n>, 2 * n * n, 2, n);
    SQUARES(X)
#undef X
    t.done(); return t; }();
  return t;
}
Mat<T> vcat(const Mat<T>& a, const Mat<T>& b) { Mat<T> r(a.r + b.r, a.c); for (std::size_t i = 0; i < r.r; i++) for (std::size_t j = 0; j < r.c; j++) r(i, j) = i < a.r ? a(i, j) : b(i - a.r, j); return r; }
Mat<T> hcat(const Mat<T>& a, const Mat<T>& b) { Mat<T> r(a.r, a.c + b.c); for (std::size_t i = 0; i < r.r; i++) for (std::size_t j = 0; j < r.c; j++) r(i, j) = j < a.c ? a(i, j) : b(i, j - a.c); return r; }
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t r1, c1, r2, c2; int kind = (int)e.d[0], op = 0;
  if (kind == 0) { r1 = e.d[1]; r2 = e.d[2]; c1 = c2 = e.d[3]; } else if (kind == 1) { r1 = r2 = e.d[1]; c1 = e.d[2]; c2 = e.d[3]; } else { r1 = r2 = c1 = c2 = e.d[1]; op = (int)s.below(2); }
  Mat<T> a, b;
  if (s.coin()) { a = Mat<T>(r1, c1); b = Mat<T>(r2, c2); int64_t k = 1; for (auto& x : a.v) x = from_i<T>(k++); for (auto& x : b.v) x = from_i<T>(k++); }
  else { a = gen_mat<T>(s, r1, c1, type_lim<T>(), true); b = gen_mat<T>(s, r2, c2, type_lim<T>(), true); if (kind == 2) relate(s, a.v, b.v, r1, c1); }
  bool same = kind == 2 && s.chance(1, 6);
  if (same) { b = a; c.label("same object twice"); }
  static const char* nm[] = {"concatenate vertical", "concatenate horizontal", "concatenate square pair", "concatenateV/H"};
  const char* name = nm[kind + (kind == 2 ? op : 0)];
  if (c.verbose) c.desc << name; show(c, "A", a); show(c, "B", b);
  Mat<T> w1 = kind == 1 ? hcat(a, b) : vcat(a, b), w2 = kind == 2 ? hcat(a, b) : Mat<T>(), o1(w1.r, w1.c), o2(w2.r, w2.c), aa = a, bb = b;
  Call k{a.v.data(), b.v.data(), o1.v.data(), o2.v.data(), aa.v.data(), bb.v.data(), op, same};
  e.f(k);
  expect_moved((std::string(name) + (kind == 1 ? ", result" : kind == 0 ? ", result" : ", vertical result")).c_str(), o1, w1);
  if (kind == 2) expect_moved((std::string(name) + ", horizontal result").c_str(), o2, w2);
  expect_same("operand A after the call", aa, a); expect_same("operand B after the call", bb, b);
  c.nontrivial = !(all_equal(w1.v));
  c.label(name); c.label(size_class(r1 * c1 + r2 * c2));
}
REG_SUITE(a, "concat", prop<VT>);
}
