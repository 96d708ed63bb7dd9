// C19: printing shows every element in row-major layout. File descriptor 1 is captured, so any way of writing counts.
#include "common.hpp"
#include "shapes.hpp"
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
#if VTI == 0
int g_cap = -1;
static void init() { g_cap = memfd_create("stdout", 0); std::cout.flush(); fflush(stdout); if (g_cap < 0 || dup2(g_cap, 1) < 0) _exit(9); }
const char* const pbt::rule = "1..3 matrices of drawn shapes and elements are printed one after the other in one process; non-trivial = more than one element";
void (*pbt::process_init)() = init;
#else
extern int g_cap;
#endif
namespace {
typedef VT T;
struct Call { const T* a; T* aft; };
template<std::size_t I, std::size_t J> void call(Call& c) { const auto A = load<T, I, J>(c.a); mlib::print(A); store<T, I, J>(c.aft, A); }
typedef void (*F)(Call&);
const Table<F>& table() {
  static Table<F> t = [] {
    Table<F> t;
#define X(i, j) t.add(&call<i, j>, i* j, i, j);
    SHAPES2S(X)
#undef X
    t.done(); return t; }();
  return t;
}
std::vector<std::string> lines(const std::string& t) { std::vector<std::string> r; std::string cur; for (char ch : t) { if (ch == '\n') { r.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) r.push_back(cur); return r; }
template<class T> void prop(Source& s, Ctx& c) {
  int count = 1 + (int)s.below(3);
  for (int q = 0; q < count; q++) {
    const auto& e = table().draw(s);
    std::size_t I = e.d[0], J = e.d[1], n = I * J;
    std::vector<T> a(n), aft(n);
    if (sizeof(T) == 1) { for (auto& x : a) x = from_i<T>(33 + (int64_t)s.below(94)); } // printed as characters
    else a = gen_vec<T>(s, n, type_lim<T>(), true);
    if constexpr (is_flt<T>) if (s.chance(1, 4)) for (auto& x : a) x = std::ldexp((T)s.zigzag(1 << 22), (int)s.range(-60, 40));
    if (c.verbose) c.desc << "print"; show(c, "A", a.data(), I, J);
    if (ftruncate(g_cap, 0) || lseek(g_cap, 0, SEEK_SET)) throw Fail("harness: cannot reset the capture file");
    Call k{a.data(), aft.data()};
    const auto fl0 = std::cout.flags(); const auto pr0 = std::cout.precision();
    if (s.chance(1, 4)) { // the program has chosen another format for its output
      static const std::ios::fmtflags base[] = {std::ios::dec, std::ios::hex, std::ios::oct}, flt[] = {std::ios::fmtflags(), std::ios::fixed, std::ios::scientific};
      std::cout.setf(base[s.below(3)], std::ios::basefield); std::cout.setf(flt[n <= 36 ? s.below(3) : 2 * s.below(2)], std::ios::floatfield); std::cout.precision((int)s.below(12)); // fixed: up to 5000 digits each
      if (s.coin()) std::cout << std::showpos; if (s.coin()) std::cout << std::showbase; if (s.coin()) std::cout << std::uppercase; if (s.coin()) std::cout << std::showpoint;
      c.label("format flags set on the stream");
    }
    std::ostringstream fmt; fmt.copyfmt(std::cout);
    auto fl = std::cout.flags(); auto pr = std::cout.precision(), wd = std::cout.width(); auto fc = std::cout.fill(); auto st = std::cout.rdstate();
    e.f(k);
    bool keep = fl == std::cout.flags() && pr == std::cout.precision() && wd == std::cout.width() && fc == std::cout.fill() && st == std::cout.rdstate();
    std::cout.flags(fl0); std::cout.precision(pr0); std::cout.width(wd); std::cout.fill(fc); std::cout.clear();
    std::cout.flush(); fflush(stdout);
    std::string text; char buf[4096]; lseek(g_cap, 0, SEEK_SET);
    for (ssize_t r; (r = read(g_cap, buf, sizeof buf)) > 0;) text.append(buf, (std::size_t)r);
    if (text.empty() || text.back() != '\n') throw Fail("the output does not end with a newline: \"" + text + "\"");
    auto ls = lines(text);
    if (ls.size() != I) throw Fail(std::to_string(ls.size()) + " lines printed for " + std::to_string(I) + " rows:\n" + text);
    for (std::size_t i = 0; i < I; i++) {
      std::vector<std::string> tok; std::string cur;
      for (char ch : ls[i]) { if (ch == ' ') { if (!cur.empty()) tok.push_back(cur); cur.clear(); } else cur += ch; }
      if (!cur.empty()) tok.push_back(cur);
      if (ls[i][0] == ' ' || ls[i].find("  ") != std::string::npos) throw Fail("line " + std::to_string(i) + " holds blanks other than single ones between its elements: \"" + ls[i] + "\"");
      if (tok.size() != J) throw Fail("line " + std::to_string(i) + " has " + std::to_string(tok.size()) + " elements instead of " + std::to_string(J) + ": " + ls[i]);
      for (std::size_t j = 0; j < J; j++) { std::ostringstream o; o.copyfmt(fmt); o << a[i * J + j]; if (tok[j] != o.str()) throw Fail("row " + std::to_string(i) + ", element " + std::to_string(j) + " printed as \"" + tok[j] + "\", expected \"" + o.str() + "\""); }
    }
    if (!keep) throw Fail("print left std::cout with other format flags, precision, width, fill or state");
    expect_same("operand after the call", aft.data(), a.data(), I, J);
    if (n > 1) c.nontrivial = true;
    c.label(size_class(n));
  }
}
REG_SUITE(a, "print", prop<VT>);
#if VTI == 0
// bool elements: their text depends on a flag of its own
template<std::size_t I, std::size_t J> void call_bool(const unsigned char* a) { mlib::Matrix<bool, I, J> A; for (std::size_t i = 0; i < I; i++) for (std::size_t j = 0; j < J; j++) A[i][j] = a[i * J + j] != 0; const auto& R = A; mlib::print(R); }
void bools(Source& s, Ctx& c) {
  struct E { void (*f)(const unsigned char*); std::size_t i, j; };
  static const E es[] = {{&call_bool<1, 1>, 1, 1}, {&call_bool<1, 2>, 1, 2}, {&call_bool<3, 1>, 3, 1}, {&call_bool<2, 2>, 2, 2}, {&call_bool<2, 5>, 2, 5}, {&call_bool<9, 8>, 9, 8}, {&call_bool<1, 70>, 1, 70}};
  const E& e = es[s.below(7)]; std::size_t n = e.i * e.j; std::vector<unsigned char> a(n); for (auto& x : a) x = s.coin();
  if (c.verbose) { c.desc << "print of bool elements"; for (auto x : a) c.desc << " " << (int)x; }
  if (ftruncate(g_cap, 0) || lseek(g_cap, 0, SEEK_SET)) throw Fail("harness: cannot reset the capture file");
  const auto fl0 = std::cout.flags(); if (s.coin()) std::cout << std::boolalpha; if (s.chance(1, 3)) std::cout << std::showpos; if (s.chance(1, 3)) std::cout << std::hex << std::showbase;
  std::ostringstream fmt; fmt.copyfmt(std::cout); const auto fl = std::cout.flags();
  e.f(a.data());
  bool keep = fl == std::cout.flags(); std::cout.flags(fl0); std::cout.clear(); std::cout.flush(); fflush(stdout);
  std::string text; char buf[4096]; lseek(g_cap, 0, SEEK_SET);
  for (ssize_t r; (r = read(g_cap, buf, sizeof buf)) > 0;) text.append(buf, (std::size_t)r);
  auto ls = lines(text); if (ls.size() != e.i || text.back() != '\n') throw Fail(std::to_string(ls.size()) + " lines printed for " + std::to_string(e.i) + " rows:\n" + text);
  for (std::size_t i = 0; i < e.i; i++) {
    std::ostringstream o; o.copyfmt(fmt); for (std::size_t j = 0; j < e.j; j++) o << (a[i * e.j + j] != 0) << (j + 1 < e.j ? " " : "");
    std::string got = ls[i]; if (!got.empty() && got.back() == ' ') got.pop_back();
    if (got != o.str()) throw Fail("row " + std::to_string(i) + " of bool elements printed as \"" + ls[i] + "\", expected \"" + o.str() + "\"");
  }
  if (!keep) throw Fail("print left std::cout with other format flags");
  c.nontrivial = n > 1; c.label("bool elements");
}
REG_SUITE(b, "print bool", bools);
#endif
}
