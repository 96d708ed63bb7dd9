// C16: histograms.
#include "common.hpp"
#include "shapes.hpp"
#if VTI == 0
const char* const pbt::rule = "shape, elements (few distinct values, all distinct, constant, wide range) are drawn, both histograms are checked; non-trivial = at least two distinct values and one value occurring twice";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
typedef VT T;
typedef std::vector<std::pair<T, std::size_t>> Hist;
struct Call { const T* a; Hist *h, *ch; T* aft; };
template<std::size_t I, std::size_t J> void call(Call& c) {
  const auto A = load<T, I, J>(c.a);
  const std::map<T, std::size_t> h = mlib::histogram(A), ch = mlib::cumulative_histogram(A);
  c.h->assign(h.begin(), h.end()); c.ch->assign(ch.begin(), ch.end());
  store<T, I, J>(c.aft, A);
}
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(i, j) t.add(&call<i, j>, i* j, i, j);
    SHAPES2(X)
#undef X
    t.done(); return t; }();
  return t;
}
template<class T> std::string hs(const std::vector<std::pair<T, std::size_t>>& h) { std::string o; for (auto& p : h) o += str(p.first) + ":" + std::to_string(p.second) + " "; return o; }
template<class T> void prop(Source& s, Ctx& c) {
  const auto& e = table().draw(s);
  std::size_t I = e.d[0], J = e.d[1], n = I * J;
  std::vector<T> a, aft(n);
  switch (s.below(is_flt<T> ? 5 : 4)) {
    case 0: { uint64_t k = 1 + s.below(4); a.resize(n); for (auto& x : a) x = is_uint<T> ? (T)s.below(k + 1) : (T)s.zigzag(k); break; }
    case 1: a.resize(n); for (std::size_t i = 0; i < n; i++) a[i] = (T)(n - i); break;
    case 4: if constexpr (is_flt<T>) { // neighbours: a few units in the last place apart, at any magnitude
      int k = std::is_same<T, float>::value ? 100 : 900; T base = std::ldexp((T)(1 + s.below(1000)), (int)s.range(-k, k)); if (s.chance(1, 4)) base = 0;
      a.resize(n); for (auto& x : a) { x = base; for (uint64_t q = s.below(4); q--;) x = std::nextafter(x, std::numeric_limits<T>::max()); if (s.chance(1, 5)) x = -x; }
    } break;
    default: a = gen_vec<T>(s, n, type_lim<T>(), true);
  }
  structure(s, a, I, J);
  if constexpr (is_flt<T>) for (auto& x : a) if (x != x) x = T(7); // no NaN keys
  show(c, "A", a.data(), I, J);
  Hist h, ch, wh, wc;
  std::vector<T> so = a; std::sort(so.begin(), so.end());
  bool twice = false;
  for (std::size_t i = 0; i < n;) { std::size_t j = i; while (j < n && so[j] == so[i]) j++; wh.push_back({so[i], j - i}); wc.push_back({so[i], j}); twice = twice || j - i > 1; i = j; }
  Call k{a.data(), &h, &ch, aft.data()};
  e.f(k);
  if (h != wh) throw Fail("histogram is {" + hs<T>(h) + "}, expected {" + hs<T>(wh) + "}");
  if (ch != wc) throw Fail("cumulative_histogram is {" + hs<T>(ch) + "}, expected {" + hs<T>(wc) + "}");
  expect_same("operand after the call", aft.data(), a.data(), I, J);
  c.nontrivial = wh.size() >= 2 && twice;
  c.label(size_class(n)); c.label(wh.size() == 1 ? "1 key" : wh.size() < 5 ? "2-4 keys" : wh.size() < 50 ? "5-49 keys" : ">=50 keys");
}
REG_SUITE(a, "histogram", prop<VT>);
}
