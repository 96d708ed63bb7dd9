// C23: memory safety and absence of undefined behaviour. The same generated calls are executed in several builds:
//  asan   (ASan + UBSan + libstdc++ assertions): out-of-range accesses, overflow, bad shifts, division by zero ...
//  paint  (-O0, stack painted with three patterns): a result that changes depends on uninitialised memory
//  memcheck (valgrind, results checked for definedness): branches on or results from uninitialised memory
// Operands lie inside the documented domain; there is no functional oracle here.
#include "shapes.hpp"
#ifdef C23_VALGRIND
#define AO_NOBIG
#endif
#include "allops.hpp"
#ifdef C23_VALGRIND
#include <valgrind/memcheck.h>
#endif
#if VTI == 0
#include <fcntl.h>
#include <unistd.h>
namespace aop { thread_local void (*probe_begin)() = nullptr; thread_local void (*probe_end)() = nullptr; }
static void init() { int fd = open("/dev/null", O_WRONLY); if (fd < 0 || dup2(fd, 1) < 0) _exit(9); }
const char* const pbt::rule = "operation, shape, call mode and in-domain operands are drawn; non-trivial = the operation handles more than one element";
void (*pbt::process_init)() = init;
#endif
namespace {
template<class T> void prop(Source& s, Ctx& c) {
  if (ao::ops().empty()) ao::build(true);
  const ao::Op& o = ao::draw(s);
  ao::Mode m = (ao::Mode)s.below(3);
  if (m == ao::M_SAME_OBJECT && !o.twice) m = ao::M_PLAIN; if (m == ao::M_OVERWRITE && !o.overwrite) m = ao::M_PLAIN;
  ao::In in = ao::gen(s, o);
  if (m == ao::M_SAME_OBJECT) { ao::tame(o, in); in.b = in.a; }
  ao::describe(c, o, in);
  std::unique_ptr<ao::Holder> h(o.make(in)); ao::Out out; out.v.resize(o.nout);
#ifdef C23_VALGRIND
  unsigned before = VALGRIND_COUNT_ERRORS;
  o.exec(h.get(), in, out, m);
  VALGRIND_CHECK_MEM_IS_DEFINED(out.v.data(), out.n * sizeof(T));
  if (VALGRIND_COUNT_ERRORS != before) throw Fail(std::string(o.name) + ": uses uninitialised memory or accesses memory it does not own (valgrind memcheck)");
#elif defined(C23_PAINT)
  ao::Out o2; o2.v.resize(o.nout);
  ao::paint(0x00, o); o.exec(h.get(), in, out, m);
  for (unsigned char p : {0xff, 0x41}) { ao::paint(p, o); o.exec(h.get(), in, o2, m); if (!(out == o2)) throw Fail(std::string(o.name) + ": the result depends on the previous contents of the stack (uninitialised value)"); }
#else
  o.exec(h.get(), in, out, m);
#endif
  c.nontrivial = o.na + o.nb > 1 || o.nout > 1;
  c.label(out.threw ? "threw" : o.name);
}
REG_SUITE(a, "safe", prop<VT>);
}
