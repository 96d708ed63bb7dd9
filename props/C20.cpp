// C20: no dynamic memory allocation. The malloc family and operator new are interposed; allocations between entry and
// normal return of an operation are counted.
#include "shapes.hpp"
#include "allops.hpp"
#if VTI == 0
#include <cerrno>
#include <fcntl.h>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
thread_local bool g_armed = false; thread_local unsigned long g_allocs = 0; thread_local size_t g_bytes = 0;
static inline void note(size_t n) { if (g_armed) { g_allocs++; g_bytes += n; } }
extern "C" {
void* malloc(size_t n) { note(n); return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { note(a * b); return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { note(n); return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { note(n); return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { note(n); return __libc_memalign(a, n); }
void* valloc(size_t n) { note(n); return __libc_memalign(4096, n); }
void* pvalloc(size_t n) { note(n); return __libc_memalign(4096, (n + 4095) / 4096 * 4096); }
void* reallocarray(void* p, size_t a, size_t b) { note(a * b); return __libc_realloc(p, a * b); }
void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { note(n); return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o); }
void* mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o) { note(n); return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o); }
int posix_memalign(void** p, size_t a, size_t n) { note(n); *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
}
// operator new of libstdc++ calls malloc, so it is counted as well
static void init() { // the first use of the streams allocates their buffers: not the library's doing
  int fd = open("/dev/null", O_WRONLY); if (fd < 0 || dup2(fd, 1) < 0) _exit(9);
  std::cout << 1 << 2.5 << 3.25L << ' ' << std::endl; printf("%d\n", 1); fflush(stdout);
}
const char* const pbt::rule = "operation (all of them except the two histograms, print included), shape, call mode (plain, same object twice, result overwrites an operand) and in-domain operands are drawn; non-trivial = the operation handles more than one element";
void (*pbt::process_init)() = init;
#else
extern thread_local bool g_armed; extern thread_local unsigned long g_allocs; extern thread_local size_t g_bytes;
#endif
#if VTI == 0
namespace aop { thread_local void (*probe_begin)() = nullptr; thread_local void (*probe_end)() = nullptr; }
#endif
namespace {
void pb() { g_allocs = 0; g_bytes = 0; g_armed = true; }
void pe() { g_armed = false; }
template<class T> void prop(Source& s, Ctx& c) {
  if (ao::ops().empty()) ao::build(true);
  const ao::Op& o = ao::draw(s);
  if (o.kind == ao::K_HISTO) { c.discarded = true; return; }
  ao::Mode m = (ao::Mode)s.below(3);
  if (m == ao::M_SAME_OBJECT && !o.twice) m = ao::M_PLAIN; if (m == ao::M_OVERWRITE && !o.overwrite) m = ao::M_PLAIN;
  ao::In in = ao::gen(s, o);
  if (m == ao::M_SAME_OBJECT) { ao::tame(o, in); in.b = in.a; }
  ao::describe(c, o, in);
  std::unique_ptr<ao::Holder> h(o.make(in)); ao::Out out; out.v.resize(o.nout);
  aop::probe_begin = pb; aop::probe_end = pe;
  g_allocs = 0;
  o.exec(h.get(), in, out, m);
  aop::probe_begin = aop::probe_end = nullptr;
  if (!out.threw && g_allocs) throw Fail(std::string(o.name) + ": " + std::to_string(g_allocs) + " heap allocation(s), " + std::to_string(g_bytes) + " bytes");
  c.nontrivial = o.na + o.nb > 1 || o.nout > 1;
  c.label(out.threw ? "threw (allocation permitted)" : o.name);
}
REG_SUITE(a, "alloc", prop<VT>);
}
