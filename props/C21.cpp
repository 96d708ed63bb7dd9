// C21: operations are pure. A case is a history of calls on real objects; it is executed twice in the (long-lived)
// worker process, in two orders over differently painted stacks, and - for some cases - in a process that never called
// the library before, in a third order. Operands must stay bit-identical, aliased calls must equal plain ones.
#include "shapes.hpp"
#include "allops.hpp"
#include <unistd.h>
namespace c21 {
struct Sh { unsigned type, order; uint64_t nch; uint64_t ch[1 << 16]; int32_t status; uint64_t nbytes; unsigned char bytes[1 << 25]; };
extern Sh* sh; extern int to_z, from_z;
typedef void (*Body)(Source&, Sh&);
extern Body body[16];
}
#if VTI == 0
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
namespace c21 {
Sh* sh; int to_z, from_z; Body body[16];
// the zygote never runs a library operation itself: its children start from a pristine state
static void zygote() {
  char b;
  while (read(to_z, &b, 1) == 1) {
    pid_t p = fork();
    if (p == 0) {
      alarm(60);
      Source s; s.start_replay(sh->ch, sh->nch);
      body[sh->type](s, *sh);
      _exit(0);
    }
    int st = -1; if (p > 0) waitpid(p, &st, 0);
    sh->status = st;
    if (write(from_z, &b, 1) != 1) break;
  }
  _exit(0);
}
static void init() {
  int fd = open("/dev/null", O_WRONLY); if (fd < 0 || dup2(fd, 1) < 0) _exit(9);
  sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int a[2], b[2]; if (sh == MAP_FAILED || pipe(a) || pipe(b)) _exit(9);
  pid_t p = fork();
  if (p < 0) _exit(9);
  if (p == 0) { close(a[1]); close(b[0]); to_z = a[0]; from_z = b[1]; zygote(); }
  close(a[0]); close(b[1]); to_z = a[1]; from_z = b[0];
}
}
namespace aop { thread_local void (*probe_begin)() = nullptr; thread_local void (*probe_end)() = nullptr; }
const char* const pbt::rule = "a history of 1..6 calls (operation, shape, call mode, fresh objects or new contents in the previous call's objects, fresh or slightly changed contents) is drawn and executed in 2 or 3 orders; non-trivial = at least two calls";
void (*pbt::process_init)() = c21::init;
#endif
namespace {
struct Step { const ao::Op* o; ao::In in; ao::Mode mode; bool reuse; };
struct Plan { std::vector<Step> st; unsigned p1, p2; std::vector<unsigned> perm; bool fresh; };
Plan make(Source& s) {
  if (ao::ops().empty()) ao::build(true);
  Plan pl; unsigned k = 1 + (unsigned)s.below(6);
  pl.fresh = s.chance(1, 100); pl.p1 = (unsigned)s.below(256); pl.p2 = (unsigned)s.below(256);
  for (unsigned i = 0; i < k; i++) {
    Step t; t.reuse = false;
    bool again = i && s.coin();
    t.o = again ? pl.st[i - 1].o : &ao::draw(s);
    t.mode = (ao::Mode)s.below(3);
    if (t.mode == ao::M_SAME_OBJECT && !t.o->twice) t.mode = ao::M_PLAIN; if (t.mode == ao::M_OVERWRITE && !t.o->overwrite) t.mode = ao::M_PLAIN;
    if (again) { t.reuse = s.coin(); t.in = s.coin() ? ao::variant(s, *t.o, pl.st[i - 1].in) : ao::gen(s, *t.o); } else t.in = ao::gen(s, *t.o);
    if (t.mode == ao::M_SAME_OBJECT) { ao::tame(*t.o, t.in); t.in.b = t.in.a; }
    pl.st.push_back(t);
  }
  for (unsigned i = 0; i < k; i++) pl.perm.push_back(i);
  for (unsigned i = k; i > 1; i--) std::swap(pl.perm[i - 1], pl.perm[s.below(i)]);
  return pl;
}
const char* mname[] = {"", " with one object as both operands", " with the result stored over the operand"};
// executes the calls in the given order; results are kept per call
void run(const Plan& pl, const std::vector<unsigned>& order, bool reuse, bool modes, unsigned pat, std::vector<ao::Out>& res) {
  std::vector<std::unique_ptr<ao::Holder>> hold(pl.st.size()); ao::Holder* prev = nullptr; const ao::Op* po = nullptr;
  for (unsigned i : order) {
    const Step& t = pl.st[i]; ao::Holder* h;
    if (reuse && t.reuse && prev && po == t.o) { t.o->refill(prev, t.in); h = prev; }
    else { hold[i].reset(t.o->make(t.in)); h = hold[i].get(); }
    prev = h; po = t.o;
    res[i].v.assign(t.o->nout, VT());
    ao::paint((unsigned char)pat, *t.o);
    t.o->exec(h, t.in, res[i], modes ? t.mode : ao::M_PLAIN);
    if (!t.o->unchanged(h, t.in)) throw Fail(std::string(t.o->name) + (modes ? mname[t.mode] : "") + " changed an operand" + (res[i].threw ? " (the call threw)" : ""));
  }
}
std::string diff(const ao::Op& o, const ao::Out& a, const ao::Out& b) {
  std::ostringstream s; s << o.name << " " << o.d[0] << "x" << o.d[1];
  if (a.threw != b.threw) { s << (a.threw ? " throws" : " returns") << " one way and " << (b.threw ? "throws" : "returns") << " the other"; return s.str(); }
  for (std::size_t k = 0; k < a.n && k < b.n; k++) if (!ao::Out::bits(a.v[k], b.v[k])) { s << ": value " << k << " of the result is " << str(a.v[k]) << " one way and " << str(b.v[k]) << " the other"; return s.str(); }
  s << ": " << a.n << " values one way, " << b.n << " the other"; return s.str();
}
void body(Source& s, c21::Sh& sh) { // runs in the pristine process
  Plan pl = make(s); std::vector<ao::Out> r(pl.st.size()); std::vector<unsigned> order;
  for (unsigned i = (unsigned)pl.st.size(); i-- > 0;) order.push_back((i + sh.order) % pl.st.size());
  run(pl, order, false, false, 0x5a, r);
  sh.nbytes = 0;
  for (auto& o : r) {
    sh.bytes[sh.nbytes++] = o.threw; memcpy(sh.bytes + sh.nbytes, &o.n, 8); sh.nbytes += 8;
    memcpy(sh.bytes + sh.nbytes, o.v.data(), o.n * sizeof(VT)); sh.nbytes += o.n * sizeof(VT);
  }
}
template<class T> void prop(Source& s, Ctx& c) {
  std::vector<uint64_t> ch; s.tee = &ch;
  Plan pl = make(s); unsigned order = (unsigned)s.below(pl.st.size());
  s.tee = nullptr;
  if (c.verbose) for (auto& t : pl.st) { c.desc << (t.reuse ? "same objects, new contents: " : ""); ao::describe(c, *t.o, t.in); c.desc << mname[t.mode] << "; "; }
  std::vector<ao::Out> a(pl.st.size()), b(pl.st.size());
  std::vector<unsigned> fwd; for (unsigned i = 0; i < pl.st.size(); i++) fwd.push_back(i);
  run(pl, fwd, true, true, pl.p1, a);
  run(pl, pl.perm, false, false, pl.p2, b);
  for (unsigned i : fwd) if (!(a[i] == b[i])) throw Fail("result depends on call order, aliasing, object identity or stack contents: " + diff(*pl.st[i].o, a[i], b[i]) + mname[pl.st[i].mode]);
  if (pl.fresh && ch.size() <= 60000) {
    c21::sh->type = VTI; c21::sh->order = order; c21::sh->nch = ch.size(); memcpy(c21::sh->ch, ch.data(), ch.size() * 8);
    char x = 0; if (write(c21::to_z, &x, 1) != 1 || read(c21::from_z, &x, 1) != 1) throw Fail("harness: the zygote is gone");
    if (c21::sh->status != 0) throw Fail("the calls crash in a process that made no call before, status " + std::to_string(c21::sh->status));
    const unsigned char* p = c21::sh->bytes;
    for (unsigned i : fwd) {
      ao::Out f; f.threw = *p++; memcpy(&f.n, p, 8); p += 8; f.v.resize(f.n + 1); memcpy(f.v.data(), p, f.n * sizeof(T)); p += f.n * sizeof(T);
      if (!(f == a[i])) throw Fail("result differs in a process that made no call before: " + diff(*pl.st[i].o, a[i], f));
    }
    c.label("compared with a fresh process");
  }
  c.nontrivial = pl.st.size() > 1;
  for (auto& t : pl.st) { if (t.reuse) c.label("same objects, new contents"); if (t.mode == ao::M_SAME_OBJECT) c.label("one object as both operands"); if (t.mode == ao::M_OVERWRITE) c.label("result over operand"); }
  for (auto& r : a) c.label(r.threw ? "call threw" : "call returned");
}
struct Hook { Hook() { c21::body[VTI] = body; } } hook;
REG_SUITE(a, "pure", prop<VT>);
}
