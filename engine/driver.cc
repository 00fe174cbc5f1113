#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <unordered_set>

#include "pbt.h"

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:hard_rss_limit_mb=2500:"
         "allocator_may_return_null=0:max_allocation_size_mb=1500:"
         "detect_stack_use_after_return=1:handle_segv=1:symbolize=1:fast_unwind_on_malloc=1:"
         "quarantine_size_mb=16:malloc_context_size=8";
}
extern "C" const char* __ubsan_default_options() {
  return "halt_on_error=1:print_stacktrace=1:exitcode=99";
}

namespace pbt {

std::vector<Target>& Targets() {
  static std::vector<Target> t;
  return t;
}

static uint64_t SplitMix(uint64_t* x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

void Source::StartRandom(uint64_t seed, Shared* out) {
  mode_ = kRandom;
  s_[0] = SplitMix(&seed);
  s_[1] = SplitMix(&seed);
  out_ = out;
  out_->num_choices = 0;
  exhausted_ = false;
  hash_ = 1469598103934665603ull;
}
void Source::StartReplay(const uint32_t* data, size_t n, Shared* out,
                         bool modulo) {
  mode_ = kReplay;
  modulo_ = modulo;
  data_ = data;
  n_ = n;
  pos_ = 0;
  out_ = out;
  out_->num_choices = 0;
  exhausted_ = false;
  hash_ = 1469598103934665603ull;
}
uint64_t Source::Next() {
  uint64_t s1 = s_[0];
  const uint64_t s0 = s_[1];
  const uint64_t r = s0 + s1;
  s_[0] = s0;
  s1 ^= s1 << 23;
  s_[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
uint32_t Source::Record(uint32_t v) {
  const uint32_t i = out_->num_choices;
  if (i < kMaxChoices) {
    out_->choices[i] = v;
    out_->num_choices = i + 1;
  }
  hash_ = (hash_ ^ v) * 1099511628211ull;
  return v;
}
uint32_t Source::Draw(uint32_t n) {
  if (out_->num_choices >= kMaxChoices) exhausted_ = true;
  if (exhausted_) return 0;
  if (mode_ == kRandom) return Record(static_cast<uint32_t>((Next() >> 11) % n));
  if (pos_ >= n_) {
    exhausted_ = true;
    return 0;
  }
  const uint32_t v = data_[pos_++];
  return Record(modulo_ ? v % n : std::min(v, n - 1));
}
uint32_t Source::DrawForced(uint32_t n, uint32_t value) {
  if (mode_ == kRandom) return Record(std::min(value, n - 1));
  return Draw(n);
}

namespace {

struct Options {
  std::string target, out, replay_in, replay_out, tmp = "/tmp";
  uint64_t seed = 1, cases = 1000;
  int jobs = 8;
  double cpu_limit = 20, time_cap = 400, shrink_time = 60;
};

double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

Shared* MakeShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Shared*>(p);
}

const Target* Find(const std::string& name) {
  for (const Target& t : Targets())
    if (name == t.name) return &t;
  return nullptr;
}

void SetMessage(Shared* sh, const std::string& m) {
  strncpy(sh->message, m.c_str(), sizeof(sh->message) - 1);
  sh->message[sizeof(sh->message) - 1] = 0;
}

enum Outcome { kPass, kDiscard, kFail };

// Runs one case in this process.
Outcome RunCase(const Target& t, Source* src, Ctx* ctx, Shared* sh,
                int forced_size) {
  sh->failed = 0;
  sh->message[0] = 0;
  ctx->size = static_cast<int>(src->DrawForced(101, forced_size));
  try {
    t.fn(*ctx);
  } catch (const Discard&) {
    return kDiscard;
  } catch (const Fail& e) {
    SetMessage(sh, e.what());
    sh->failed = 1;
    return kFail;
  } catch (const std::exception& e) {
    SetMessage(sh, std::string("unexpected exception: ") + e.what());
    sh->failed = 1;
    return kFail;
  } catch (...) {
    SetMessage(sh, "unexpected exception of unknown type");
    sh->failed = 1;
    return kFail;
  }
  return kPass;
}

int SizeFor(uint64_t idx, uint64_t cases) {
  // Small cases first, then a mixture of all sizes.
  if (idx < cases / 20) return static_cast<int>(5 + idx * 400 / (cases + 1));
  uint64_t x = idx * 0x9e3779b97f4a7c15ull + 12345;
  const uint64_t r = SplitMix(&x) % 100;
  if (r < 60) return static_cast<int>(5 + SplitMix(&x) % 45);
  return static_cast<int>(30 + SplitMix(&x) % 71);
}

uint64_t Mix(const std::string& s, uint64_t seed, uint64_t idx) {
  uint64_t h = 1469598103934665603ull;
  for (char c : s) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  uint64_t x = h ^ (seed * 0xd1342543de82ef95ull) ^ (idx * 0xaf251af3b0f025b5ull);
  return SplitMix(&x);
}

std::string JsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      case '\r': o += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", c);
          o += b;
        } else {
          o += static_cast<char>(c);
        }
    }
  }
  return o;
}

std::string Tail(const std::string& path, size_t n) {
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  // Keep the head of a sanitizer report.
  const size_t p = s.find("ERROR: ");
  const size_t q = s.find("runtime error:");
  size_t start = std::min(p, q);
  if (start != std::string::npos) {
    start = start > 100 ? start - 100 : 0;
    return s.substr(start, n);
  }
  return s.size() > n ? s.substr(s.size() - n) : s;
}

void RedirectStdio(const std::string& path) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  dup2(fd, 2);
  close(fd);
  close(nul);
}

[[noreturn]] void Worker(const Options& o, const Target& t, int w, Shared* sh, uint64_t from, double t_start) {
  const std::string base = o.tmp + "/w" + std::to_string(w);
  RedirectStdio(base + ".err");
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> nontrivial;
  std::vector<std::string> samples;
  uint64_t discards = 0;
  for (uint64_t idx = from; idx < o.cases; idx += o.jobs) {
    if (Now() - t_start > o.time_cap) break;
    Source src;
    Ctx ctx(&src, w == 0 && samples.size() < 4);
    src.StartRandom(Mix(o.target, o.seed, idx), sh);
    sh->case_idx = idx + 1;
    sh->busy = 1;
    const Outcome r = RunCase(t, &src, &ctx, sh, SizeFor(idx, o.cases));
    sh->busy = 0;
    if (r == kFail) _exit(3);
    if (r == kDiscard) discards++;
    sh->cases_done = sh->cases_done + 1;
    for (const std::string& l : ctx.labels) labels[l]++;
    if (r == kPass && ctx.is_nontrivial) {
      nontrivial.insert(src.hash());
      if (ctx.logging() && (idx > 20 || idx > o.cases / 4) )
        samples.push_back(ctx.log_text().substr(0, 1500));
    }
  }
  std::ofstream f(base + ".stats");
  f << discards << "\n" << labels.size() << "\n";
  for (const auto& kv : labels) f << kv.second << " " << kv.first << "\n";
  f << samples.size() << "\n";
  for (const std::string& s : samples) f << JsonEscape(s) << "\n";
  f << nontrivial.size() << "\n";
  for (uint64_t h : nontrivial) f << h << "\n";
  f.close();
  _exit(0);
}

double CpuTime(pid_t pid) {
  clockid_t c;
  if (clock_getcpuclockid(pid, &c) != 0) return 0;
  timespec ts;
  if (clock_gettime(c, &ts) != 0) return 0;
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

struct RunResult {
  bool failed = false;
  bool hang = false;
  std::string message;
  std::vector<uint32_t> used;
};

// Runs one choice list in a fresh process.
RunResult RunIsolated(const Options& o, const Target& t,
                      const std::vector<uint32_t>& choices, double cpu_limit,
                      Shared* sh, bool modulo = false) {
  sh->failed = 0;
  sh->message[0] = 0;
  sh->num_choices = 0;
  const std::string err = o.tmp + "/iso.err";
  const pid_t pid = fork();
  if (pid == 0) {
    RedirectStdio(err);
    rlimit rl;
    const rlim_t lim = static_cast<rlim_t>(cpu_limit + 1);
    rl.rlim_cur = lim;
    rl.rlim_max = lim + 2;
    signal(SIGXCPU, SIG_DFL);
    setrlimit(RLIMIT_CPU, &rl);
    Source src;
    Ctx ctx(&src, false);
    src.StartReplay(choices.data(), choices.size(), sh, modulo);
    const Outcome r = RunCase(t, &src, &ctx, sh, 0);
    _exit(r == kFail ? 3 : 0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  RunResult r;
  r.used.assign(sh->choices, sh->choices + sh->num_choices);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return r;
  r.failed = true;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 3) {
    r.message = sh->message;
  } else if (WIFSIGNALED(status) &&
             (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL)) {
    r.hang = true;
    r.message = "the case does not finish within " + std::to_string(static_cast<int>(cpu_limit + 1)) +
                " s of CPU time (or exhausts memory)";
  } else {
    r.message = "crash (" +
                (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status))
                                     : "exit " + std::to_string(WEXITSTATUS(status))) +
                "): " + Tail(err, 3000);
  }
  return r;
}

bool Shorter(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

struct Shrinker {
  const Options& o;
  const Target& t;
  Shared* sh;
  double limit;
  double deadline;
  std::vector<uint32_t> best;
  std::string message;
  uint64_t tried = 0;

  bool Try(const std::vector<uint32_t>& cand) {
    if (Now() > deadline) return false;
    if (!Shorter(cand, best)) return false;
    tried++;
    RunResult r = RunIsolated(o, t, cand, limit, sh);
    if (!r.failed) return false;
    // The draws actually used are an equivalent, normalised list.
    if (!r.used.empty() && Shorter(r.used, cand)) {
      best = r.used;
    } else {
      best = cand;
    }
    message = r.message;
    return true;
  }

  void Run() {
    bool improved = true;
    while (improved && Now() < deadline) {
      improved = false;
      // Delete chunks.
      for (size_t k = std::max<size_t>(1, best.size() / 2);; k /= 2) {
        for (size_t i = best.size(); i-- > 0 && Now() < deadline;) {
          if (i + k > best.size()) continue;
          std::vector<uint32_t> c = best;
          c.erase(c.begin() + i, c.begin() + i + k);
          if (Try(c)) {
            improved = true;
            if (i > best.size()) i = best.size();
          } else if (k > 8) {
            i -= std::min(i, k / 2);
          }
        }
        if (k <= 1) break;
      }
      // Zero chunks.
      for (size_t k = 16; k >= 1; k /= 2) {
        for (size_t i = 0; i + k <= best.size() && Now() < deadline; i += k) {
          std::vector<uint32_t> c = best;
          std::fill(c.begin() + i, c.begin() + i + k, 0);
          if (Try(c)) improved = true;
        }
      }
      // Minimise values.
      for (size_t i = 0; i < best.size() && Now() < deadline; i++) {
        uint32_t lo = 0;
        while (i < best.size() && best[i] > lo && Now() < deadline) {
          std::vector<uint32_t> c = best;
          const uint32_t mid = lo + (best[i] - lo) / 2;
          c[i] = mid;
          if (Try(c)) {
            improved = true;
          } else {
            lo = mid + 1;
          }
        }
        // Lower a count and delete one later draw.
        if (i < best.size() && best[i] > 0 && best.size() < 400) {
          for (size_t j = i + 1; j < best.size() && Now() < deadline; j++) {
            std::vector<uint32_t> c = best;
            c[i]--;
            c.erase(c.begin() + j);
            if (Try(c)) {
              improved = true;
              break;
            }
          }
        }
      }
    }
  }
};

void WriteReplay(const std::string& path, const Options& o,
                 const std::vector<uint32_t>& c, const std::string& message,
                 const std::string& log) {
  std::ofstream f(path);
  f << "target " << o.target << "\n" << "choices " << c.size();
  for (uint32_t v : c) f << " " << v;
  f << "\n--- message\n" << message << "\n--- case\n" << log << "\n";
}

// The description of a case, taken from a child process as it may crash.
std::string Describe(const Options& o, const Target& t,
                     const std::vector<uint32_t>& c, Shared* sh) {
  const std::string path = o.tmp + "/describe.txt";
  const pid_t pid = fork();
  if (pid == 0) {
    RedirectStdio(o.tmp + "/describe.err");
    rlimit rl;
    rl.rlim_cur = rl.rlim_max = 5;
    setrlimit(RLIMIT_CPU, &rl);
    Source src;
    Ctx* ctx = new Ctx(&src, true);
    // Flush on any exit path we can catch.
    static Ctx* g_ctx;
    static std::string g_path;
    g_ctx = ctx;
    g_path = path;
    atexit([] { std::ofstream(g_path) << g_ctx->log_text(); });
    src.StartReplay(c.data(), c.size(), sh);
    RunCase(t, &src, ctx, sh, 0);
    std::ofstream(path) << ctx->log_text();
    _exit(0);
  }
  unlink(path.c_str());
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str().substr(0, 20000);
}

std::vector<uint32_t> ReadReplay(const std::string& path) {
  std::ifstream f(path);
  std::string word;
  std::vector<uint32_t> c;
  while (f >> word) {
    if (word == "choices") {
      size_t n;
      f >> n;
      c.resize(n);
      for (uint32_t& v : c) f >> v;
      break;
    }
  }
  return c;
}

// libFuzzer input: one byte per draw, taken modulo the bound.
std::vector<uint32_t> DecodeBytes(const uint8_t* data, size_t size) {
  return std::vector<uint32_t>(data, data + size);
}
std::vector<uint32_t> DecodeFile(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  const std::string s = ss.str();
  return DecodeBytes(reinterpret_cast<const uint8_t*>(s.data()), s.size());
}

// Confirms and shrinks a failing choice list.  Returns 1 and writes the replay
// file if it fails every time, 4 if it does not reproduce.
int ConfirmAndShrink(const Options& o, const Target& t,
                     std::vector<uint32_t> choices, std::string* message,
                     Shared* sh) {
  RunResult r = RunIsolated(o, t, choices, 4 * o.cpu_limit, sh);
  if (!r.failed) return 4;
  if (!r.used.empty() && r.used.size() < choices.size()) choices = r.used;
  Shrinker s{o, t, sh, r.hang ? o.cpu_limit : 4 * o.cpu_limit, Now() + o.shrink_time,
             choices, r.message};
  s.Run();
  std::vector<uint32_t> best = s.best;
  std::string msg = s.message;
  bool ok = true;
  for (int i = 0; i < (r.hang ? 1 : 3) && ok; i++) {
    RunResult rr = RunIsolated(o, t, best, 4 * o.cpu_limit, sh);
    ok = rr.failed;
    if (ok) msg = rr.message;
  }
  if (!ok) {  // fall back on the unshrunk list
    best = choices;
    ok = true;
    for (int i = 0; i < (r.hang ? 1 : 3) && ok; i++) {
      RunResult rr = RunIsolated(o, t, best, 4 * o.cpu_limit, sh);
      ok = rr.failed;
      if (ok) msg = rr.message;
    }
    if (!ok) return 4;
  }
  *message = msg;
  WriteReplay(o.replay_out, o, best, msg, Describe(o, t, best, sh));
  return 1;
}

int Search(const Options& o, const Target& t) {
  const double t0 = Now();
  std::vector<Shared*> sh(o.jobs);
  Shared* extra = MakeShared();
  std::vector<pid_t> pids(o.jobs);
  std::vector<uint64_t> last_case(o.jobs, 0);
  std::vector<double> cpu_at(o.jobs, 0), wall_at(o.jobs, 0);
  std::vector<bool> done(o.jobs, false);
  for (int w = 0; w < o.jobs; w++) {
    sh[w] = MakeShared();
    unlink((o.tmp + "/w" + std::to_string(w) + ".stats").c_str());
  }
  fflush(stdout);
  for (int w = 0; w < o.jobs; w++) {
    pids[w] = fork();
    if (pids[w] == 0) Worker(o, t, w, sh[w], w, t0);
  }
  int remaining = o.jobs;
  int bad = -1;
  std::string how;
  while (remaining > 0 && bad < 0) {
    usleep(20000);
    for (int w = 0; w < o.jobs && bad < 0; w++) {
      if (done[w]) continue;
      int st;
      const pid_t p = waitpid(pids[w], &st, WNOHANG);
      if (p == pids[w]) {
        done[w] = true;
        remaining--;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          bad = w;
          how = "case failed";
        }
        continue;
      }
      const uint64_t c = sh[w]->case_idx;
      const double cpu = CpuTime(pids[w]);
      if (c != last_case[w] || !sh[w]->busy) {
        last_case[w] = c;
        cpu_at[w] = cpu;
      } else if (cpu - cpu_at[w] > o.cpu_limit) {
        // Slow cases are no failures: only one that does not finish within a
        // much longer time either is reported.
        kill(pids[w], SIGKILL);
        int killed;
        waitpid(pids[w], &killed, 0);
        const std::vector<uint32_t> choices(sh[w]->choices, sh[w]->choices + sh[w]->num_choices);
        const uint64_t next = sh[w]->case_idx - 1 + o.jobs;
        const RunResult r = RunIsolated(o, t, choices, 4 * o.cpu_limit, extra);
        if (r.failed) {
          sh[w]->failed = 0;
          done[w] = true;
          bad = w;
          how = "case does not finish";
          continue;
        }
        std::cerr << "slow case:";
        for (uint32_t x : choices) std::cerr << " " << x;
        std::cerr << std::endl;
        fflush(stdout);
        pids[w] = fork();
        if (pids[w] == 0) Worker(o, t, w, sh[w], next, t0);
        last_case[w] = 0;
        cpu_at[w] = 0;
      }
    }
  }
  for (int w = 0; w < o.jobs; w++) {
    if (done[w]) continue;
    if (bad >= 0) kill(pids[w], SIGKILL);
    int st;
    waitpid(pids[w], &st, 0);
  }
  uint64_t total = 0;
  for (int w = 0; w < o.jobs; w++) total += sh[w]->cases_done;

  int rc = 0;
  std::string message;
  if (bad >= 0) {
    std::vector<uint32_t> choices(sh[bad]->choices,
                                  sh[bad]->choices + sh[bad]->num_choices);
    std::cerr << "target " << o.target << " case " << sh[bad]->case_idx - 1
              << ": " << how << ": "
              << (sh[bad]->failed ? std::string(sh[bad]->message)
                                  : Tail(o.tmp + "/w" + std::to_string(bad) + ".err", 2000))
              << std::endl;
    const std::string first = sh[bad]->message;
    rc = ConfirmAndShrink(o, t, choices, &message, sh[bad]);
    if (rc == 4) message = "not reproducible: " + first;
  }

  // Aggregate statistics.
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> nontrivial;
  std::vector<std::string> samples;
  uint64_t discards = 0;
  for (int w = 0; w < o.jobs; w++) {
    std::ifstream f(o.tmp + "/w" + std::to_string(w) + ".stats");
    uint64_t d = 0, n = 0;
    if (!(f >> d)) continue;
    discards += d;
    f >> n;
    for (uint64_t i = 0; i < n; i++) {
      uint64_t k;
      std::string l;
      f >> k;
      std::getline(f, l);
      labels[l.substr(1)] += k;
    }
    f >> n;
    std::string line;
    std::getline(f, line);
    for (uint64_t i = 0; i < n; i++) {
      std::getline(f, line);
      samples.push_back(line);
    }
    f >> n;
    for (uint64_t i = 0; i < n; i++) {
      uint64_t h;
      f >> h;
      nontrivial.insert(h);
    }
  }
  std::ofstream f(o.out);
  f << "{\"target\":\"" << o.target << "\",\"rule\":\"" << JsonEscape(t.rule)
    << "\",\"planned\":" << o.cases << ",\"evaluations\":" << total
    << ",\"discarded\":" << discards
    << ",\"distinct_nontrivial\":" << nontrivial.size() << ",\"labels\":{";
  bool first = true;
  for (const auto& kv : labels) {
    f << (first ? "" : ",") << "\"" << JsonEscape(kv.first) << "\":" << kv.second;
    first = false;
  }
  f << "},\"samples\":[";
  first = true;
  for (const std::string& s : samples) {
    f << (first ? "" : ",") << "\"" << s << "\"";
    first = false;
  }
  f << "],\"rc\":" << rc << ",\"message\":\"" << JsonEscape(message)
    << "\",\"wall_s\":" << Now() - t0 << "}\n";
  return rc;
}

int Main(int argc, char** argv) {
  Options o;
  bool list = false, shrink = false, bytes = false;
  for (int i = 1; i < argc; i++) {
    const std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--target") o.target = next();
    else if (a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--cases") o.cases = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--jobs") o.jobs = atoi(next().c_str());
    else if (a == "--cpu-limit") o.cpu_limit = atof(next().c_str());
    else if (a == "--time-cap") o.time_cap = atof(next().c_str());
    else if (a == "--shrink-time") o.shrink_time = atof(next().c_str());
    else if (a == "--out") o.out = next();
    else if (a == "--tmp") o.tmp = next();
    else if (a == "--replay-out") o.replay_out = next();
    else if (a == "--replay") o.replay_in = next();
    else if (a == "--shrink") { o.replay_in = next(); shrink = true; }
    else if (a == "--shrink-bytes") { o.replay_in = next(); shrink = bytes = true; }
    else if (a == "--list") list = true;
    else { std::cerr << "unknown option " << a << "\n"; return 2; }
  }
  if (list) {
    for (const Target& t : Targets()) std::cout << t.name << "\n";
    return 0;
  }
  const Target* t = Find(o.target);
  if (!t) {
    std::cerr << "no target " << o.target << "\n";
    return 2;
  }
  if (!o.replay_in.empty()) {
    std::vector<uint32_t> c =
        bytes ? DecodeFile(o.replay_in) : ReadReplay(o.replay_in);
    if (bytes) {  // normalise the draws
      RunResult r = RunIsolated(o, *t, c, o.cpu_limit, MakeShared(), true);
      if (!r.failed) return 4;
      c = r.used;
    }
    if (shrink) {
      std::string m;
      const int rc = ConfirmAndShrink(o, *t, c, &m, MakeShared());
      std::cout << m << std::endl;
      return rc;
    }
    Shared* sh = MakeShared();
    Source src;
    Ctx ctx(&src, true);
    src.StartReplay(c.data(), c.size(), sh);
    const Outcome r = RunCase(*t, &src, &ctx, sh, 0);
    std::cout << ctx.log_text() << "\n"
              << (r == kFail ? "FAILED: " : r == kDiscard ? "DISCARDED" : "PASSED")
              << sh->message << std::endl;
    return r == kFail ? 1 : 0;
  }
  return Search(o, *t);
}

}  // namespace

}  // namespace pbt

#ifndef PBT_FUZZ
int main(int argc, char** argv) { return pbt::Main(argc, argv); }
#else
// libFuzzer mode: each byte is a draw (modulo the bound).  The target is named
// in PBT_FUZZ_TARGET.  A failing input is saved by libFuzzer and is converted to
// a choice list by the normal driver (--shrink-bytes).
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  using namespace pbt;
  static Shared* sh = MakeShared();
  static const Target* t = Find(getenv("PBT_FUZZ_TARGET"));
  if (!t) {
    fprintf(stderr, "no target\n");
    exit(2);
  }
  const std::vector<uint32_t> c = DecodeBytes(data, size);
  Source src;
  Ctx ctx(&src, false);
  src.StartReplay(c.data(), c.size(), sh, true);
  if (RunCase(*t, &src, &ctx, sh, 0) == kFail) {
    fprintf(stderr, "FUZZ-FAIL %s\n", sh->message);
    __builtin_trap();
  }
  return 0;
}
#endif
