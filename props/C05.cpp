// C05: transpose and swaps permute elements exactly.
#include "common.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "shape, elements and a sequence of 1..12 swaps / transposes (indices anywhere in range, equal ones included) are drawn and checked after every step against a permutation model; non-trivial = at least two distinct elements and one step that moves something";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
struct Step { int op; std::size_t a, b; };
struct Call { const T* a; T *out, *aft; Step st; };
// one step on a fresh copy of the current state: rows / cols / trans / trans of trans
template<std::size_t I, std::size_t J> void call(Call& c) {
  auto A = load<T, I, J>(c.a);
  switch (c.st.op) {
    case 0: mlib::swap_rows(A, c.st.a, c.st.b); store<T, I, J>(c.out, A); return;
    case 1: mlib::swap_cols(A, c.st.a, c.st.b); store<T, I, J>(c.out, A); return;
    case 2: { const auto& B = A; store_exact<T, J, I>(c.out, mlib::trans(B)); store<T, I, J>(c.aft, A); return; }
    case 3: store_exact<T, I, J>(c.out, mlib::trans(mlib::trans(A))); store<T, I, J>(c.aft, A); return;
    case 4: mlib::swap_rows(A, c.st.a, c.st.b); mlib::swap_rows(A, c.st.b, c.st.a); store<T, I, J>(c.out, A); return;
    default: mlib::swap_cols(A, c.st.a, c.st.b); mlib::swap_cols(A, c.st.b, c.st.a); store<T, I, J>(c.out, A); return;
  }
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(i, j) t.add(&call<i, j>, i* j, i, j);
    SHAPES2(X)
#undef X
    t.done(); return t; }();
  return t;
}
template<class T> void prop(Source& s, Ctx& c) {
  static std::map<std::pair<unsigned, unsigned>, F> byshape = [] { std::map<std::pair<unsigned, unsigned>, F> m; for (auto& e : table().e) m[{e.d[0], e.d[1]}] = e.f; return m; }();
  const auto& e = table().draw(s);
  std::size_t I = e.d[0], J = e.d[1], n = I * J;
  Mat<T> cur(I, J);
  if (s.coin()) { for (std::size_t k = 0; k < n; k++) cur.v[k] = from_i<T>((int64_t)k + 1); } else cur.v = gen_vec<T>(s, n, type_lim<T>(), true);
  structure(s, cur.v, I, J);
  show(c, "A", cur);
  bool moved = false; int steps = 1 + (int)s.below(n > 400 ? 3 : 12);
  for (int q = 0; q < steps; q++) {
    int op = (int)s.below(6);
    std::size_t lim = (op == 0 || op == 4) ? cur.r : cur.c;
    std::size_t a = s.below(lim), b = s.below(lim);
    if (s.chance(1, 4)) { a = s.coin() ? lim - 1 : 0; }
    if (op == 2 && !byshape.count({(unsigned)cur.c, (unsigned)cur.r}) && q + 1 < steps) op = 3;
    static const char* nm[] = {"swap_rows", "swap_cols", "trans", "trans(trans)", "swap_rows twice", "swap_cols twice"};
    if (c.verbose) { c.desc << "; " << nm[op]; if (op != 2 && op != 3) c.desc << "(" << a << "," << b << ")"; }
    Mat<T> want = cur;
    if (op == 0 && a != b) for (std::size_t j = 0; j < cur.c; j++) std::swap(want(a, j), want(b, j));
    if (op == 1 && a != b) for (std::size_t i = 0; i < cur.r; i++) std::swap(want(i, a), want(i, b));
    if (op == 2) { want = Mat<T>(cur.c, cur.r); for (std::size_t i = 0; i < cur.r; i++) for (std::size_t j = 0; j < cur.c; j++) want(j, i) = cur(i, j); }
    Mat<T> out(want.r, want.c), aft = cur;
    auto f = byshape.find({(unsigned)cur.r, (unsigned)cur.c});
    Call k{cur.v.data(), out.v.data(), aft.v.data(), {op, a, b}};
    f->second(k);
    expect_moved(nm[op], out, want);
    expect_same("operand after trans", aft, cur);
    if (op <= 2 && !(want == cur)) moved = true;
    c.label(nm[op]); if (op < 2 && a == b) c.label("equal indices");
    cur = out;
  }
  c.nontrivial = moved && !all_equal(cur.v);
  c.label(size_class(n));
}
REG_SUITE(a, "permute", prop<VT>);
}
