// Drivers: seeded random search over forked workers, confirmation, fork-based shrinking, replay.
#include "engine.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

namespace pbt {
std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }

static std::vector<unsigned> g_pick; // weighted index table
static void prepare() {
  auto& v = suites();
  std::sort(v.begin(), v.end(), [](const Suite& a, const Suite& b) { return a.name < b.name; });
  g_pick.clear();
  for (unsigned i = 0; i < v.size(); i++) for (unsigned k = 0; k < v[i].weight; k++) g_pick.push_back(i);
}
static int g_only = -1;
const Suite& run_case(Source& s, Ctx& c) {
  if (g_pick.empty()) prepare();
  unsigned i = g_pick[s.below(g_pick.size())];
  if (g_only >= 0) i = (unsigned)g_only;
  const Suite& su = suites()[i];
  if (c.verbose) c.desc << su.name << ": ";
  su.fn(s, c);
  return su;
}
} // namespace pbt

using namespace pbt;
typedef std::chrono::steady_clock Clock;

static const size_t CAP = 1u << 18;
struct Shm {
  volatile uint64_t nrec;
  volatile uint64_t cur;
  volatile uint64_t failed;
  char msg[8192];
  char desc[16384];
  uint64_t rec[CAP];
};
static Shm* new_shm() {
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shm*)p;
}
static void put(char* dst, size_t cap, const std::string& s) {
  size_t n = std::min(cap - 1, s.size());
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

static unsigned g_case_cpu = 60; // CPU seconds one case may take (usual case: microseconds)
static void arm(unsigned sec) {
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}

// runs one case in this process; true = passed
static bool exec_case(Source& s, Ctx& c, std::string& msg) {
  try {
    run_case(s, c);
    return true;
  } catch (const Fail& f) { msg = f.msg;
  } catch (const std::exception& e) { msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
  } catch (...) { msg = "unexpected exception of unknown type"; }
  return false;
}

static std::string status_text(int st) {
  std::ostringstream o;
  if (WIFSIGNALED(st)) {
    int sig = WTERMSIG(st);
    if (sig == SIGPROF) o << "no result after " << g_case_cpu << " s of CPU time in one case (endless loop)";
    else o << "process died: " << strsignal(sig);
  } else o << "process exited with status " << WEXITSTATUS(st);
  return o.str();
}

// evaluates a choice sequence in a fresh process; returns true if it FAILS
static bool eval_fresh(Shm* sh, const std::vector<uint64_t>& ch, std::string& msg, std::string& desc) {
  sh->msg[0] = 0; memset(sh->desc, 0, sizeof sh->desc);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    arm(g_case_cpu);
    if (process_init) process_init();
    Source s; s.start_replay(ch.data(), ch.size());
    Ctx c; c.verbose = true; c.buf.use(sh->desc, sizeof sh->desc); std::string m;
    bool ok = exec_case(s, c, m);
    put(sh->msg, sizeof sh->msg, m);
    _exit(ok ? 0 : 3);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  desc = sh->desc;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  msg = (WIFEXITED(st) && WEXITSTATUS(st) == 3) ? sh->msg : status_text(st);
  return true;
}

static uint64_t g_seed = 1;
static uint64_t case_seed(uint64_t i) { return mix(g_seed * 0x100000001B3ull + 0x51ED27) ^ mix(i + 0x1234567); }

// runs cases [a,b] of the random stream in one fresh process; returns true if some case fails, at index `at`
static bool eval_history(Shm* sh, uint64_t a, uint64_t b, std::string& msg, uint64_t& at) {
  sh->msg[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    if (process_init) process_init();
    for (uint64_t i = a; i <= b; i++) {
      arm(g_case_cpu); sh->cur = i;
      Source s; s.start_random(case_seed(i), sh->rec, &sh->nrec, CAP);
      Ctx c; std::string m;
      if (!exec_case(s, c, m)) { put(sh->msg, sizeof sh->msg, m); _exit(3); }
    }
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  msg = (WIFEXITED(st) && WEXITSTATUS(st) == 3) ? sh->msg : status_text(st);
  at = sh->cur;
  return true;
}

static void shrink(Shm* sh, std::vector<uint64_t>& ch, std::string& msg, std::string& desc) {
  auto t0 = Clock::now();
  unsigned evals = 0;
  auto budget = [&] { return evals < 6000 && std::chrono::duration<double>(Clock::now() - t0).count() < 60; };
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (!budget()) return false;
    evals++;
    std::string m, d;
    if (eval_fresh(sh, cand, m, d)) { ch = cand; msg = m; desc = d; return true; }
    return false;
  };
  auto strip = [&] { while (!ch.empty() && ch.back() == 0) ch.pop_back(); };
  strip();
  bool improved = true;
  while (improved && budget()) {
    improved = false;
    for (size_t len = ch.size(); len >= 1 && budget(); len /= 2) {          // delete chunks
      for (size_t i = 0; i + len <= ch.size() && budget();) {
        std::vector<uint64_t> c2(ch.begin(), ch.begin() + i);
        c2.insert(c2.end(), ch.begin() + i + len, ch.end());
        if (attempt(c2)) { improved = true; strip(); } else i += len;
      }
    }
    for (size_t len = ch.size(); len >= 1 && budget(); len /= 2) {          // zero chunks
      for (size_t i = 0; i < ch.size() && budget(); i += len) {
        std::vector<uint64_t> c2 = ch; bool ch1 = false;
        for (size_t k = i; k < std::min(ch.size(), i + len); k++) if (c2[k]) { c2[k] = 0; ch1 = true; }
        if (ch1 && attempt(c2)) improved = true;
      }
    }
    strip();
    for (size_t i = 0; i < ch.size() && budget(); i++) {                    // lower single choices
      uint64_t lo = 0;
      while (i < ch.size() && ch[i] > lo && budget()) {
        std::vector<uint64_t> c2 = ch;
        uint64_t midv = lo + (ch[i] - lo) / 2;
        c2[i] = midv;
        if (attempt(c2)) improved = true; else lo = midv + 1;
      }
    }
    strip();
  }
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Args {
  std::string id = "X", evidence, outdir = ".", replay, tier = "quick", stage = "random", worker_dir = ".";
  uint64_t cases = 10000; unsigned workers = 8; bool calibrate = false; bool list = false; double max_s = 0;
};

static int report(const Args& a, const std::string& kind, const std::vector<uint64_t>& ch, uint64_t h0, uint64_t h1,
                  const std::string& msg, const std::string& desc) {
  uint64_t hash = 1469598103934665603ull;
  for (uint64_t v : ch) hash = mix(hash ^ v);
  char name[256];
  snprintf(name, sizeof name, "%s/%s-%s-%016llx.replay", a.outdir.c_str(), a.id.c_str(), a.stage.c_str(),
           (unsigned long long)mix(hash ^ h0 ^ h1));
  std::ofstream f(name);
  f << "property " << a.id << "\nstage " << a.stage << "\nkind " << kind << "\nseed " << g_seed << "\nhistory " << h0 << " " << h1 << "\n";
  f << "choices " << ch.size();
  for (uint64_t v : ch) f << " " << v;
  f << "\n# case: " << desc << "\n# failure: " << msg << "\n";
  f.close();
  std::cout << "FAILED CASE (" << kind << ", shrunk): " << desc << "\n  " << msg << "\n";
  std::cout << "VIOLATION property=" << a.id << " replay=" << name << std::endl;
  return 1;
}

static int do_replay(const Args& a) {
  std::ifstream f(a.replay);
  if (!f) { std::cerr << "cannot read " << a.replay << "\n"; return 2; }
  std::string w, kind = "case"; std::vector<uint64_t> ch; uint64_t h0 = 0, h1 = 0;
  while (f >> w) {
    if (w == "kind") f >> kind;
    else if (w == "seed") f >> g_seed;
    else if (w == "history") f >> h0 >> h1;
    else if (w == "choices") { size_t n; f >> n; ch.resize(n); for (auto& v : ch) f >> v; }
    else if (w == "#") std::getline(f, w);
    else f >> w;
  }
  Shm* sh = new_shm(); std::string msg, desc; uint64_t at;
  bool bad = kind == "history" ? eval_history(sh, h0, h1, msg, at) : eval_fresh(sh, ch, msg, desc);
  std::cout << (bad ? "FAILS: " : "passes: ") << desc << "\n" << msg << "\n";
  if (bad) { std::cout << "VIOLATION property=" << a.id << " replay=" << a.replay << std::endl; return 1; }
  return 0;
}

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) {
  Args a;
  for (int i = 1; i < argc; i++) {
    std::string k = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (k == "--id") a.id = val(); else if (k == "--seed") g_seed = strtoull(val().c_str(), 0, 10);
    else if (k == "--cases") a.cases = strtoull(val().c_str(), 0, 10);
    else if (k == "--workers") a.workers = atoi(val().c_str());
    else if (k == "--evidence") a.evidence = val(); else if (k == "--out") a.outdir = val();
    else if (k == "--replay") a.replay = val(); else if (k == "--tier") a.tier = val();
    else if (k == "--stage") a.stage = val(); else if (k == "--calibrate") a.calibrate = true;
    else if (k == "--list") a.list = true; else if (k == "--max-s") a.max_s = atof(val().c_str());
    else if (k == "--only") { prepare(); std::string n = val(); for (size_t q = 0; q < suites().size(); q++) if (suites()[q].name == n) g_only = (int)q; }
    else if (k == "--case-cpu") g_case_cpu = atoi(val().c_str());
    else { std::cerr << "unknown argument " << k << "\n"; return 2; }
  }
  prepare();
  if (suites().empty()) { std::cerr << "no suites registered\n"; return 2; }
  if (a.list) { for (auto& s : suites()) std::cout << s.name << " " << s.weight << "\n"; return 0; }
  if (!a.replay.empty()) return do_replay(a);

  auto t0 = Clock::now();
  unsigned W = std::max(1u, a.workers);
  struct Wk { pid_t pid; Shm* sh; uint64_t a, b; std::string file; int st; bool done; };
  std::vector<Wk> ws(W);
  for (unsigned w = 0; w < W; w++) {
    Wk& k = ws[w];
    k.sh = new_shm(); k.a = a.cases * w / W; k.b = a.cases * (w + 1) / W; k.done = false; k.st = 0;
    k.file = a.outdir + "/." + a.id + "-" + a.stage + "-w" + std::to_string(w) + ".stat";
    fflush(stdout); fflush(stderr);
    k.pid = fork();
    if (k.pid < 0) { perror("fork"); return 2; }
    if (k.pid == 0) {
      if (process_init) process_init();
      std::map<std::string, uint64_t> labels, persuite; std::map<std::string, double> maxima;
      std::vector<uint64_t> hashes; std::vector<std::string> samples;
      uint64_t ev = 0, disc = 0; bool timed_out = false;
      for (uint64_t i = k.a; i < k.b; i++) {
        if ((i & 63) == 0 && a.max_s > 0 && std::chrono::duration<double>(Clock::now() - t0).count() > a.max_s) { timed_out = true; break; }
        arm(g_case_cpu);
        k.sh->cur = i;
        Source s; s.start_random(case_seed(i), k.sh->rec, &k.sh->nrec, CAP);
        Ctx c; c.labels = &labels; if (a.calibrate) c.maxima = &maxima;
        std::string m;
        if (!exec_case(s, c, m)) {
          put(k.sh->msg, sizeof k.sh->msg, m); k.sh->failed = 1; _exit(3);
        }
        ev++;
        uint64_t n = k.sh->nrec;
        if (c.discarded) disc++;
        else if (c.nontrivial) {
          uint64_t h = 0xcbf29ce484222325ull;
          for (uint64_t q = 0; q < n; q++) h = mix(h ^ k.sh->rec[q]);
          if (hashes.size() < 6000000) hashes.push_back(h); // a lower bound beyond that
          if (samples.size() < 2 && n < 200 && (samples.empty() || (i - k.a) > (k.b - k.a) / 2)) {
            std::vector<uint64_t> ch(k.sh->rec, k.sh->rec + n);
            Source s2; s2.start_replay(ch.data(), n); Ctx c2; c2.verbose = true; std::string m2;
            std::vector<char> buf(16384); c2.buf.use(buf.data(), buf.size());
            exec_case(s2, c2, m2);
            samples.push_back(buf.data());
          }
        }
        persuite[suites()[g_only >= 0 ? g_only : g_pick[k.sh->rec[0] % g_pick.size()]].name]++;
      }
      arm(0);
      std::ofstream f(k.file, std::ios::binary);
      f << ev << " " << disc << " " << (timed_out ? 1 : 0) << " " << hashes.size() << " " << labels.size() << " " << persuite.size() << " " << samples.size() << " " << maxima.size() << "\n";
      for (auto& l : labels) f << l.second << " " << l.first << "\n";
      for (auto& l : persuite) f << l.second << " " << l.first << "\n";
      for (auto& l : maxima) f << l.second << " " << l.first << "\n";
      for (auto& s : samples) { std::string t = s; std::replace(t.begin(), t.end(), '\n', ' '); f << t << "\n"; }
      f.write((const char*)hashes.data(), hashes.size() * 8);
      f.close();
      fflush(stdout);
      _exit(f.good() ? 0 : 4);
    }
  }
  // collect
  int bad = -1; unsigned left = W;
  while (left) {
    int st; pid_t p = wait(&st);
    if (p < 0) { if (errno == EINTR) continue; break; }
    for (unsigned w = 0; w < W; w++) if (ws[w].pid == p) {
      ws[w].st = st; ws[w].done = true; left--;
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0) {
        bad = (int)w;
        for (auto& o : ws) if (!o.done) kill(o.pid, SIGKILL);
      }
    }
  }
  if (bad >= 0) {
    Wk& k = ws[bad];
    if (WIFEXITED(k.st) && WEXITSTATUS(k.st) == 4) { std::cerr << "cannot write statistics\n"; return 2; }
    std::vector<uint64_t> ch(k.sh->rec, k.sh->rec + std::min<uint64_t>((uint64_t)k.sh->nrec, CAP));
    uint64_t idx = k.sh->cur;
    std::string first = WIFEXITED(k.st) && WEXITSTATUS(k.st) == 3 ? std::string(k.sh->msg) : status_text(k.st);
    std::cout << "case " << idx << " failed: " << first << "\n";
    if (WIFSIGNALED(k.st) && WTERMSIG(k.st) == SIGKILL) { std::cerr << "worker was killed (memory?)\n"; return 2; }
    for (auto& o : ws) unlink(o.file.c_str());
    Shm* sh = new_shm();
    std::string msg, desc; bool all = true;
    for (int r = 0; r < 3 && all; r++) all = eval_fresh(sh, ch, msg, desc);
    if (all) {
      shrink(sh, ch, msg, desc);
      for (int r = 0; r < 3; r++) all = all && eval_fresh(sh, ch, msg, desc);
      return report(a, "case", ch, 0, 0, msg, desc);
    }
    std::cout << "the case alone does not fail in a fresh process: replaying its history\n";
    uint64_t at = 0; all = true;
    for (int r = 0; r < 3 && all; r++) all = eval_history(sh, k.a, idx, msg, at);
    if (all) {
      uint64_t lo = k.a, step = 1;
      while (idx >= k.a + step) {                       // shortest suffix that still fails
        std::string m; uint64_t at2;
        if (eval_history(sh, idx - step, idx, m, at2)) { lo = idx - step; msg = m; break; }
        step *= 2;
      }
      std::ostringstream d; d << "calls " << lo << ".." << idx << " of the random stream, in one process";
      return report(a, "history", {}, lo, idx, msg, d.str());
    }
    int again = 0; uint64_t last = idx;
    for (int r = 0; r < 3; r++) { std::string m; if (eval_history(sh, k.a, k.b - 1, m, at)) { again++; msg = m; last = at; } }
    if (again >= 2) {
      std::ostringstream d; d << "calls " << k.a << ".." << last << " of the random stream, in one process (not always the same call fails)";
      return report(a, "history", {}, k.a, k.b - 1, msg, d.str());
    }
    std::cout << "NOT REPRODUCIBLE, recorded as inconclusive: " << first << "\n";
    return 5;
  }
  // merge statistics
  uint64_t ev = 0, disc = 0; bool timed = false;
  std::map<std::string, uint64_t> labels, persuite; std::map<std::string, double> maxima;
  std::vector<uint64_t> hashes; std::vector<std::string> samples;
  for (auto& k : ws) {
    std::ifstream f(k.file, std::ios::binary);
    uint64_t e, d, t, nh, nl, np, ns, nm; f >> e >> d >> t >> nh >> nl >> np >> ns >> nm;
    ev += e; disc += d; timed = timed || t;
    std::string s; uint64_t c; double x;
    for (uint64_t i = 0; i < nl; i++) { f >> c; f.get(); std::getline(f, s); labels[s] += c; }
    for (uint64_t i = 0; i < np; i++) { f >> c; f.get(); std::getline(f, s); persuite[s] += c; }
    for (uint64_t i = 0; i < nm; i++) { f >> x; f.get(); std::getline(f, s); maxima[s] = std::max(maxima[s], x); }
    if (nl + np + nm == 0) f.get();
    for (uint64_t i = 0; i < ns; i++) { std::getline(f, s); samples.push_back(s); }
    std::vector<uint64_t> h(nh); f.read((char*)h.data(), nh * 8);
    if (!f) { std::cerr << "statistics damaged\n"; return 2; }
    hashes.insert(hashes.end(), h.begin(), h.end());
    f.close(); unlink(k.file.c_str());
  }
  std::sort(hashes.begin(), hashes.end());
  uint64_t distinct = std::unique(hashes.begin(), hashes.end()) - hashes.begin();
  double wall = std::chrono::duration<double>(Clock::now() - t0).count();
  std::ostringstream o;
  o << "{\"stage\":" << jstr(a.stage) << ",\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << distinct << ",\"discarded\":" << disc
    << ",\"time_limited\":" << (timed ? "true" : "false") << ",\"rule\":" << jstr(rule) << ",\"suites\":{";
  bool first = true;
  for (auto& l : persuite) { o << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
  o << "},\"classes\":{"; first = true;
  for (auto& l : labels) { o << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
  o << "},\"samples\":["; first = true;
  for (auto& s : samples) { o << (first ? "" : ",") << jstr(s.substr(0, 700)); first = false; }
  o << "],\"wall_s\":" << wall << "}";
  if (!a.evidence.empty()) { std::ofstream f(a.evidence); f << o.str() << "\n"; if (!f) return 2; }
  std::cout << a.id << "/" << a.stage << ": " << ev << " cases, " << distinct << " distinct non-trivial, " << disc << " discarded, " << wall << " s\n";
  if (a.calibrate) for (auto& m : maxima) std::cout << "  max " << m.first << " = " << m.second << "\n";
  return 0;
}
#endif
