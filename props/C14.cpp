// C14: minor extraction drops exactly the named row and column.
#include "common.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "size, row, column and elements are drawn; non-trivial = size >= 3 or all four elements distinct";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
struct Call { const T* a; T *out, *aft; std::size_t r, c; };
template<std::size_t N> void call(Call& c) { const auto A = load<T, N, N>(c.a); store_exact<T, N - 1, N - 1>(c.out, mlib::getminor(A, c.r, c.c)); store<T, N, N>(c.aft, A); }
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(n) t.add(&call<n>, n* n, n);
    SQUARES_2UP(X)
#undef X
    t.done(); return t; }();
  return t;
}
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t n = e.d[0], r = s.below(n), k = s.below(n);
  if (s.chance(1, 6)) r = n - 1; if (s.chance(1, 6)) k = n - 1;
  Mat<T> a(n, n), out(n - 1, n - 1), aft(n, n), want(n - 1, n - 1);
  bool dist = s.coin();
  if (dist) { int64_t q = 1; for (auto& x : a.v) x = from_i<T>(q++); } else a = gen_mat<T>(s, n, n, type_lim<T>(), true);
  if (c.verbose) c.desc << "getminor(A," << r << "," << k << ")"; show(c, "A", a);
  for (std::size_t i = 0; i + 1 < n; i++) for (std::size_t j = 0; j + 1 < n; j++) want(i, j) = a(i < r ? i : i + 1, j < k ? j : j + 1);
  Call q{a.v.data(), out.v.data(), aft.v.data(), r, k};
  e.f(q);
  expect_moved("minor", out, want); expect_same("operand after the call", aft, a);
  c.nontrivial = n >= 3 ? !all_equal(a.v) : dist;
  c.label(size_class(n * n)); if (r == n - 1 || k == n - 1) c.label("last row/column"); if (r == 0 || k == 0) c.label("first row/column");
}
REG_SUITE(a, "minor", prop<VT>);
}
