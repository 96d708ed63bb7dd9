// C22: operations may run concurrently. Several threads execute a generated mix of calls, partly on shared read-only
// operands; ThreadSanitizer watches, and every result must be the one the same call gives when executed alone.
#include "shapes.hpp"
#include "allops.hpp"
#include <atomic>
#include <sched.h>
#include <thread>
#if VTI == 0
namespace aop { thread_local void (*probe_begin)() = nullptr; thread_local void (*probe_end)() = nullptr; }
const char* const pbt::rule = "2..4 threads each execute a list of 1..8 calls several times; operations, operands (shared with other threads, own copies of equal contents, own contents) and lists are drawn; non-trivial = an operation is executed by at least two threads";
void (*pbt::process_init)() = nullptr;
#endif
namespace {
struct Job { const ao::Op* o; ao::In in; std::unique_ptr<ao::Holder> shared; std::vector<std::unique_ptr<ao::Holder>> own; ao::Out want; };
template<class T> void prop(Source& s, Ctx& c) {
  if (ao::ops().empty()) ao::build(false);
  unsigned nt = 2 + (unsigned)s.below(3), nj = 1 + (unsigned)s.below(3), reps = 1 + (unsigned)s.below(12);
  std::vector<Job> jobs(nj);
  for (unsigned k = 0; k < nj; k++) {
    Job& j = jobs[k];
    bool again = k && s.coin();
    j.o = again ? jobs[k - 1].o : &ao::draw(s);
    j.in = again && s.coin() ? ao::variant(s, *j.o, jobs[k - 1].in) : ao::gen(s, *j.o);
    j.shared.reset(j.o->make(j.in)); for (unsigned t = 0; t < nt; t++) j.own.emplace_back(j.o->make(j.in));
    j.want.v.resize(j.o->nout);
    ao::describe(c, *j.o, j.in); if (c.verbose) c.desc << "; ";
  }
  bool big = false; for (auto& j : jobs) big = big || j.o->na + j.o->nout > 1500;
  if (big) reps = 1;
  std::vector<std::vector<std::pair<unsigned, bool>>> list(nt); std::vector<unsigned> by(nj);
  for (unsigned t = 0; t < nt; t++) {
    unsigned len = 1 + (unsigned)s.below(big ? 2 : 8); std::vector<bool> in(nj);
    for (unsigned k = 0; k < len; k++) { unsigned j = (unsigned)s.below(nj); list[t].push_back({j, s.coin()}); in[j] = true; }
    for (unsigned j = 0; j < nj; j++) by[j] += in[j];
    if (c.verbose) { c.desc << " thread " << t << " (x" << reps << "):"; for (auto& e : list[t]) c.desc << " call" << e.first << (e.second ? "/own" : "/shared"); }
  }
  // results: one slot per executed call
  std::vector<std::vector<ao::Out>> got(nt);
  for (unsigned t = 0; t < nt; t++) { got[t].resize(list[t].size() * reps); for (std::size_t k = 0; k < got[t].size(); k++) got[t][k].v.resize(jobs[list[t][k % list[t].size()].first].o->nout); }
  bool before = s.coin(); // expected results computed before or after the concurrent part
  if (before) for (auto& j : jobs) j.o->exec(j.shared.get(), j.in, j.want, ao::M_PLAIN);
  std::atomic<unsigned> ready(0);
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
    ready.fetch_add(1); while (ready.load() < nt) sched_yield();
    for (std::size_t k = 0; k < got[t].size(); k++) {
      const auto& e = list[t][k % list[t].size()]; Job& j = jobs[e.first];
      j.o->exec(e.second ? j.own[t].get() : j.shared.get(), j.in, got[t][k], ao::M_PLAIN);
    }
  });
  for (auto& x : th) x.join();
  if (!before) for (auto& j : jobs) j.o->exec(j.shared.get(), j.in, j.want, ao::M_PLAIN);
  for (unsigned t = 0; t < nt; t++) for (std::size_t k = 0; k < got[t].size(); k++) {
    Job& j = jobs[list[t][k % list[t].size()].first];
    if (!(got[t][k] == j.want)) throw Fail(std::string("thread ") + std::to_string(t) + ", call " + std::to_string(k) + " (" + j.o->name + "): the result differs from that of the call executed alone" + (got[t][k].threw != j.want.threw ? " (one of them threw)" : ""));
  }
  for (auto& j : jobs) { if (!j.o->unchanged(j.shared.get(), j.in)) throw Fail(std::string(j.o->name) + ": a shared operand was changed"); }
  for (unsigned n : by) if (n > 1) c.nontrivial = true;
  c.label(std::to_string(nt) + " threads");
  for (auto& j : jobs) { c.label(j.o->name); if (j.want.threw) c.label("throwing calls"); }
}
REG_SUITE(a, "threads", prop<VT>);
}
