// Choice-sequence property tester.  A case is a pure function of a list of
// bounded draws; see driver.cc for the worker, shrinker and replay modes.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

constexpr size_t kMaxChoices = 1u << 17;

// Lives in shared memory so that it survives a crash of the worker.
struct Shared {
  volatile uint64_t case_idx;     // case being run (+1), 0 before the first
  volatile uint64_t cases_done;
  volatile uint32_t failed;       // 1 if the case failed an oracle
  volatile uint32_t busy;         // 1 while a case is running
  volatile uint32_t num_choices;
  char message[8192];
  uint32_t choices[kMaxChoices];
};

// Thrown by a failed oracle.
struct Fail : std::runtime_error {
  using std::runtime_error::runtime_error;
};
// Thrown when a case cannot be built from its draws (counted, not a failure).
struct Discard {};

class Source {
 public:
  enum Mode { kRandom, kReplay };
  void StartRandom(uint64_t seed, Shared* out);
  void StartReplay(const uint32_t* data, size_t n, Shared* out,
                   bool modulo = false);
  // Uniform in [0, n); 0 is the simplest value.
  uint32_t Draw(uint32_t n);
  // Records a value decided by the driver (the size of the case).
  uint32_t DrawForced(uint32_t n, uint32_t value);
  bool exhausted() const { return exhausted_; }
  uint64_t hash() const { return hash_; }

 private:
  uint64_t Next();
  uint32_t Record(uint32_t v);
  Mode mode_ = kRandom;
  uint64_t s_[2] = {1, 2};
  const uint32_t* data_ = nullptr;
  size_t n_ = 0, pos_ = 0;
  Shared* out_ = nullptr;
  bool exhausted_ = false;
  bool modulo_ = false;
  uint64_t hash_ = 0;
};

class Ctx {
 public:
  Ctx(Source* src, bool logging) : src_(src), logging_(logging) {}

  int size = 50;  // 0..100, grows with the case number

  uint32_t below(uint32_t n) { return n <= 1 ? 0 : src_->Draw(n); }
  int range(int lo, int hi) {  // inclusive
    return lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1)));
  }
  bool chance(int num, int den) {
    return static_cast<int>(below(den)) >= den - num;
  }
  bool flip() { return below(2) == 1; }
  template <typename V>
  typename V::value_type pick(const V& v) {
    return v[below(static_cast<uint32_t>(v.size()))];
  }
  // Index chosen with the given weights; put the simplest alternative first.
  int weighted(std::initializer_list<int> w) {
    int total = 0;
    for (int x : w) total += x;
    int r = static_cast<int>(below(total)), i = 0;
    for (int x : w) {
      if (r < x) return i;
      r -= x;
      i++;
    }
    return 0;
  }
  // Scales n with the size of the case (at least 1).
  int scaled(int n) { int v = n * size / 100; return v < 1 ? 1 : v; }

  void label(const std::string& l) { labels.push_back(l); }
  void nontrivial() { is_nontrivial = true; }

  bool logging() const { return logging_; }
  std::ostringstream& log() { return log_; }
  std::string log_text() const { return log_.str(); }

  std::vector<std::string> labels;
  bool is_nontrivial = false;

 private:
  Source* src_;
  bool logging_;
  std::ostringstream log_;
};

using TargetFn = void (*)(Ctx&);
struct Target {
  const char* name;
  TargetFn fn;
  const char* rule;  // what makes a case non-trivial
};
std::vector<Target>& Targets();
struct Registrar {
  Registrar(const char* name, TargetFn fn, const char* rule) {
    Targets().push_back({name, fn, rule});
  }
};

}  // namespace pbt

#define PBT_TARGET(NAME, RULE)                                    \
  static void target_##NAME(pbt::Ctx&);                           \
  static pbt::Registrar registrar_##NAME(#NAME, target_##NAME, RULE); \
  static void target_##NAME(pbt::Ctx& c)

#define PBT_LOG(C, X)                       \
  do {                                      \
    if ((C).logging()) (C).log() << X << "\n"; \
  } while (0)

#define PBT_FAIL(X)                \
  do {                             \
    std::ostringstream pbt_ss_;    \
    pbt_ss_ << X;                  \
    throw pbt::Fail(pbt_ss_.str()); \
  } while (0)

#define PBT_CHECK(COND, X)                                   \
  do {                                                       \
    if (!(COND)) PBT_FAIL(X << "   [violated: " #COND "]");  \
  } while (0)

#endif
