// C17: constructors produce exactly the promised matrix.
#include "common.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "constructor, shape and value are drawn, the stack below is painted with a drawn pattern first; non-trivial = more than one element";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
enum { FILL, ZEROS, ONES, ONES_U, EYE, EYE_V, ONES_SQ, NOPS };
const char* opname[] = {"fill<T,i,j>(v)", "zeros<T,i,j>()", "ones<T,i,j>()", "ones<i,j>()", "eye<T,n>()", "eye<T,n>(v)", "ones<T,n>()"};
struct Call { T v; T* out; unsigned* uout; int op; };
__attribute__((noinline)) void paint(unsigned char b) { volatile unsigned char p[40000]; for (std::size_t i = 0; i < sizeof p; i += 1) p[i] = b; }
template<std::size_t I, std::size_t J> void call(Call& c) {
  switch (c.op) {
    case FILL: store_exact<T, I, J>(c.out, mlib::fill<T, I, J>(c.v)); break;
    case ZEROS: store_exact<T, I, J>(c.out, mlib::zeros<T, I, J>()); break;
    case ONES: store_exact<T, I, J>(c.out, mlib::ones<T, I, J>()); break;
    case ONES_U: store_exact<unsigned, I, J>(c.uout, mlib::ones<I, J>()); break;
    default:
      if constexpr (I == J) switch (c.op) {
        case EYE: store_exact<T, I, I>(c.out, mlib::eye<T, I>()); break;
        case EYE_V: store_exact<T, I, I>(c.out, mlib::eye<T, I>(c.v)); break;
        case ONES_SQ: store_exact<T, I, I>(c.out, mlib::ones<T, I>()); break;
      }
  }
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(i, j) t.add(&call<i, j>, i* j, i, j);
    SHAPES2(X)
#undef X
    t.done(); return t; }();
  return t;
}
const Table<F>& squares() {
  static Table<F> t = [] { Table<F> t; for (auto& e : table().e) if (e.d[0] == e.d[1]) t.add(e.f, e.cost, e.d[0], e.d[1]); t.done(); return t; }();
  return t;
}
template<class T> void prop(Source& s, Ctx& c) {
  int op = (int)s.below(NOPS);
  const auto& e = op >= EYE ? squares().draw(s) : table().draw(s);
  std::size_t I = e.d[0], J = e.d[1], n = I * J;
  T v = gen_vec<T>(s, 1, type_lim<T>(), true)[0];
  unsigned char pat = (unsigned char)s.below(256);
  std::vector<T> out(n, from_i<T>(77)), want(n); std::vector<unsigned> uo(n, 77), uw(n, 1);
  if (c.verbose) c.desc << opname[op] << " " << I << "x" << J; shows(c, "v", v);
  for (std::size_t i = 0; i < n; i++) {
    bool d = i / J == i % J;
    want[i] = op == FILL ? v : op == ONES || op == ONES_SQ ? from_i<T>(1) : op == EYE ? from_i<T>(d) : op == EYE_V ? (d ? v : from_i<T>(0)) : from_i<T>(0);
  }
  if (s.chance(1, 8)) paint(pat);
  Call k{v, out.data(), uo.data(), op};
  e.f(k);
  if (op == ONES_U) expect_moved(opname[op], uo.data(), uw.data(), I, J); else expect_moved(opname[op], out.data(), want.data(), I, J);
  c.nontrivial = n > 1;
  c.label(opname[op]); c.label(size_class(n)); if (I != J) c.label("non-square");
}
REG_SUITE(a, "construct", prop<VT>);
}
