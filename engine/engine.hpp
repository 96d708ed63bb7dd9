// Property-based testing engine: choice-sequence generation, classification, replay.
// A property ("suite") is a function over a Source of choices. Everything random is drawn from the Source, so a
// recorded choice sequence is a complete, shrinkable and replayable test case.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>

namespace pbt {

inline uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

struct Fail {
  std::string msg;
  explicit Fail(std::string m) : msg(std::move(m)) {}
};

class Source {
public:
  // random mode
  void start_random(uint64_t seed, uint64_t* rec, volatile uint64_t* n, size_t cap) {
    mode_ = 0; s_ = mix(seed); rec_ = rec; nrec_ = n; cap_ = cap; *n = 0;
  }
  // replay mode (choices exhausted -> 0, the simplest choice)
  void start_replay(const uint64_t* in, size_t n) { mode_ = 1; in_ = in; n_ = n; pos_ = 0; nrec_ = nullptr; }
  // byte mode (libFuzzer)
  void start_bytes(const uint8_t* b, size_t n) { mode_ = 2; b_ = b; n_ = n; pos_ = 0; nrec_ = nullptr; }
  size_t consumed() const { return pos_; }
  std::vector<uint64_t>* tee = nullptr; // copies every decision (byte mode -> replay file)

  // uniform in [0,n), 0 is the simplest choice
  uint64_t below(uint64_t n) {
    uint64_t v = 0;
    if (n <= 1) return 0;
    if (mode_ == 0) {
      s_ += 0x9E3779B97F4A7C15ull;
      uint64_t z = s_;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      z ^= z >> 31;
      v = (uint64_t)(((unsigned __int128)z * n) >> 64);
      uint64_t k = *nrec_;
      if (k < cap_) { rec_[k] = v; *nrec_ = k + 1; }
    } else if (mode_ == 1) {
      v = pos_ < n_ ? in_[pos_] % n : 0;
      pos_++;
    } else {
      int nb = n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ull ? 4 : 8;
      for (int i = 0; i < nb && pos_ < n_; i++) v = (v << 8) | b_[pos_++];
      v %= n;
    }
    if (tee) tee->push_back(v);
    return v;
  }
  bool coin() { return below(2); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  // 0, 1, -1, 2, -2, ...
  int64_t zigzag(uint64_t mag) {
    uint64_t k = below(2 * mag + 1);
    return (k & 1) ? (int64_t)((k + 1) / 2) : -(int64_t)(k / 2);
  }

private:
  int mode_ = 1;
  uint64_t s_ = 0;
  uint64_t* rec_ = nullptr;
  volatile uint64_t* nrec_ = nullptr;
  size_t cap_ = 0;
  const uint64_t* in_ = nullptr;
  const uint8_t* b_ = nullptr;
  size_t n_ = 0, pos_ = 0;
};

// fixed memory behind an ostream: what was written survives in shared memory when the process dies
struct FixedBuf : std::streambuf {
  void use(char* p, size_t n) { setp(p, p + n - 1); }
};
struct Ctx {
  Ctx() : desc(&buf) {}
  FixedBuf buf;
  bool verbose = false;     // build a human-readable description
  bool nontrivial = false;  // set by the property according to its rule
  bool discarded = false;   // outside the stated domain (e.g. ill-conditioned), nothing was checked
  std::ostream desc;         // description of the case, used when verbose
  std::map<std::string, uint64_t>* labels = nullptr;
  std::map<std::string, double>* maxima = nullptr; // calibration: largest observed error / bound
  void label(const char* l) { if (labels) (*labels)[l]++; }
  void label(const std::string& l) { if (labels) (*labels)[l]++; }
  void track(const std::string& l, double v) {
    if (maxima) { double& m = (*maxima)[l]; if (v > m) m = v; }
  }
};

struct Suite {
  std::string name;
  void (*fn)(Source&, Ctx&);
  unsigned weight;
};

std::vector<Suite>& suites();
struct Weight { unsigned w; explicit Weight(unsigned x) : w(x) {} };
struct Reg {
  Reg(const std::string& name, Weight w, void (*fn)(Source&, Ctx&), unsigned weight = 1) { suites().push_back({name, fn, weight * w.w}); }
};
// non-triviality rule, shown in the evidence
extern const char* const rule;
// hook run once in every fresh worker/replay process before the first case (may be null)
extern void (*process_init)();

// decodes suite + case from the source
const Suite& run_case(Source& s, Ctx& c);

} // namespace pbt
