// C05, C06: CombinationGenerator against a straightforward odometer.
#include <deque>
#include <string>

#include "pbt.h"
#include "symbolic/utils/combination_generator.h"

namespace {

template <typename T>
T Make(int slot, int i);
template <>
int Make<int>(int slot, int i) { return slot * 100 + i; }
template <>
std::string Make<std::string>(int slot, int i) { return "e" + std::to_string(slot) + "_" + std::to_string(i) + "-long-enough-for-heap"; }

template <typename T>
std::string Str(const std::vector<T>& v) {
  std::ostringstream ss;
  ss << "(";
  for (const T& x : v) ss << " " << x;
  ss << " )";
  return ss.str();
}

template <typename Container>
struct World {
  using T = typename Container::value_type;
  std::deque<std::remove_const_t<Container>> options;
  std::vector<Container*> ptrs;
  std::vector<std::vector<T>> all;  // reference enumeration
  bool unique = true;
  bool has_size_one = false, has_larger = false;

  explicit World(pbt::Ctx& c, size_t max_total = 2000) {
    const int n = (c.weighted({4, 8, 10, 6, 2, 2, 1}) + 1) % 7;  // no options: the empty combination only
    size_t total = 1;
    for (int i = 0; i < n; i++) {
      int k = c.weighted({4, 4, 4, 2, 1}) + 1;
      if (c.chance(1, 12)) k = c.range(1, 3 + c.scaled(30));
      while (k > 1 && total * k > max_total) k--;
      total *= k;
      (k == 1 ? has_size_one : has_larger) = true;
      options.emplace_back();
      const bool repeat = c.chance(1, 8);
      const bool shared = c.chance(1, 3);  // same elements in several slots
      for (int j = 0; j < k; j++) {
        int v = j;
        if (repeat && j > 0 && c.flip()) {
          v = c.below(j);
          unique = false;
        }
        options.back().push_back(Make<T>(shared ? 0 : i + 1, v));
      }
    }
    for (auto& o : options) ptrs.push_back(&o);
    std::vector<size_t> digit(n, 0);
    for (size_t t = 0; t < total; t++) {
      std::vector<T> comb;
      for (int i = 0; i < n; i++) comb.push_back(options[i][digit[i]]);
      all.push_back(comb);
      for (int i = n - 1; i >= 0; i--) {
        if (++digit[i] < options[i].size()) break;
        digit[i] = 0;
      }
    }
    if (c.logging()) {
      c.log() << "options:";
      for (auto& o : options) c.log() << " " << Str(std::vector<T>(o.begin(), o.end()));
      c.log() << "\n";
    }
  }
};

template <typename Gen, typename W>
void CheckEnumeration(pbt::Ctx& c, Gen& gen, W& w, const char* what) {
  const auto& all = w.all;
  PBT_CHECK(gen.size() == all.size(), what << ": size " << gen.size() << " instead of " << all.size());
  PBT_CHECK(gen.empty() == all.empty(), what << ": empty()");
  size_t i = 0;
  for (const auto& comb : gen) {
    PBT_CHECK(i < all.size(), what << ": iteration yields more than " << all.size() << " combinations");
    PBT_CHECK(comb == all[i], what << ": combination " << i << " is " << Str(comb) << " instead of " << Str(all[i]));
    i++;
  }
  PBT_CHECK(i == all.size(), what << ": iteration ends after " << i << " of " << all.size());
  i = 0;
  for (auto it = gen.cbegin(); it != gen.cend(); it++) {
    PBT_CHECK(i < all.size() && *it == all[i] && it->size() == all[i].size(), what << ": const iteration at " << i);
    i++;
  }
  PBT_CHECK(i == all.size(), what << ": const iteration ends after " << i);
}

template <typename Container>
void Enumerate(pbt::Ctx& c) {
  using Gen = symbolic::CombinationGenerator<Container>;
  using T = typename Container::value_type;
  World<Container> w(c);
  Gen gen(w.ptrs);
  const Gen& cgen = gen;
  const auto& all = w.all;
  const int n = static_cast<int>(all.size());
  CheckEnumeration(c, gen, w, "generator");
  CheckEnumeration(c, cgen, w, "const generator");
  if (c.chance(1, 4)) {
    Gen copy(gen);
    CheckEnumeration(c, copy, w, "copied generator");
    Gen assigned;
    PBT_CHECK(assigned.size() == 0 && assigned.empty() && assigned.begin() == assigned.end(), "default generator is empty");
    assigned = copy;
    CheckEnumeration(c, assigned, w, "assigned generator");
  }
  // Indexed access: all positions when few, a sample otherwise.
  auto at = [&](int i) {
    const int j = i < 0 ? i + n : i;
    if (j >= 0 && j < n) {
      PBT_CHECK(gen.at(i) == all[j], "at(" << i << ") is " << Str(gen.at(i)) << " instead of " << Str(all[j]));
    } else {
      bool thrown = false;
      try {
        (void)gen.at(i);
      } catch (const std::out_of_range&) {
        thrown = true;
      }
      PBT_CHECK(thrown, "at(" << i << ") with size " << n << " does not throw out_of_range");
    }
    if (i >= 0 && i < n) {
      PBT_CHECK(cgen[i] == all[i], "[" << i << "]");
      const int f = cgen.find(all[i]);
      PBT_CHECK(f >= 0 && f < n && all[f] == all[i], "find of combination " << i << " returns " << f << " with size " << n);
      PBT_CHECK(!w.unique || f == i, "find of combination " << i << " returns " << f);
    }
  };
  if (n <= 200) {
    for (int i = -2 * n - 2; i <= 2 * n + 2; i++) at(i);
  } else {
    for (int k = 0; k < 60; k++) at(c.range(-n - 3, n + 3));
    for (int i : {-n - 1, -n, -n + 1, -1, 0, 1, n - 1, n, n + 1}) at(i);
  }
  // Foreign element in one slot.
  for (size_t slot = 0; slot < w.options.size(); slot++) {
    std::vector<T> bad = all[c.below(n)];
    bad[slot] = Make<T>(77, 7);
    bool thrown = false;
    try {
      (void)cgen.find(bad);
    } catch (const std::out_of_range&) {
      thrown = true;
    }
    PBT_CHECK(thrown, "find with a foreign element in slot " << slot << " does not throw out_of_range");
  }
  // An empty option anywhere is rejected.
  if (c.chance(1, 3)) {
    auto ptrs = w.ptrs;
    std::remove_const_t<Container> none;
    const size_t pos = c.below(static_cast<uint32_t>(ptrs.size() + 1));
    ptrs.insert(ptrs.begin() + pos, &none);
    bool thrown = false;
    try {
      Gen g(ptrs);
    } catch (const std::invalid_argument&) {
      thrown = true;
    }
    PBT_CHECK(thrown, "empty option at position " << pos << " is not rejected");
    c.label("empty option");
  }
  if (w.has_size_one) c.label("has option of size one");
  if (!w.unique) c.label("repeated elements");
  if (w.options.size() >= 2 && w.has_larger && n >= 4) c.nontrivial();
}

// A walk of several iterators with positions tracked as integers.
template <typename It, typename W>
void Walk(pbt::Ctx& c, W& w, It first, It last, bool reverse, bool from_end) {
  const int n = static_cast<int>(w.all.size());
  auto want = [&](int p) -> const auto& { return w.all[reverse ? n - 1 - p : p]; };
  struct State { It it; int p; };
  std::vector<State> its{{first, 0}, {last, n}};
  if (from_end) std::swap(its[0], its[1]);
  std::vector<std::pair<typename It::value_type, int>> kept;
  auto verify = [&](const State& s, const char* op) {
    if (s.p >= 0 && s.p < n) {
      PBT_CHECK(*s.it == want(s.p), op << ": at position " << s.p << " of " << n << (reverse ? " (reverse)" : "")
                << " finds " << Str(*s.it) << " instead of " << Str(want(s.p)));
      PBT_CHECK(*(s.it.operator->()) == want(s.p), op << ": operator-> at " << s.p);
    }
  };
  const int steps = c.range(1, 4 + c.scaled(40));
  int inc = 0, jumps = 0, outside = 0;
  for (int k = 0; k < steps; k++) {
    const size_t i = c.below(static_cast<uint32_t>(its.size()));
    State& s = its[i];
    const int target = c.chance(1, 3) ? c.pick(std::vector<int>{0, n - 1, n, -1, n / 2}) : c.range(-2, n + 1);
    const int d = target - s.p;
    const char* op = "";
    switch (c.weighted({6, 6, 3, 3, 4, 4, 2, 2, 2, 2, 3, 2})) {
      case 0: op = "++it"; if (s.p < n + 2) { It& r = ++s.it; s.p++; PBT_CHECK(&r == &s.it, "++ returns itself"); inc++; } break;
      case 1: op = "--it"; if (s.p > -3) { It& r = --s.it; s.p--; PBT_CHECK(&r == &s.it, "-- returns itself"); inc++; } break;
      case 2: op = "it++"; if (s.p < n + 2) { State old{s.it++, s.p}; s.p++; verify(old, "value of it++"); } break;
      case 3: op = "it--"; if (s.p > -3) { State old{s.it--, s.p}; s.p--; verify(old, "value of it--"); } break;
      case 4: op = "it+=d"; s.it += d; s.p = target; jumps++; break;
      case 5: op = "it-=d"; s.it -= -d; s.p = target; jumps++; break;
      case 6: op = "it+d"; { State t{s.it + d, target}; verify(t, op); s = t; } break;
      case 7: op = "d+it"; { State t{d + s.it, target}; verify(t, op); s = t; } break;
      case 8: op = "it-d"; { State t{s.it - (-d), target}; verify(t, op); s = t; } break;
      case 9:
        op = "it[d]";
        if (target >= 0 && target < n) PBT_CHECK(s.it[d] == want(target), "it[" << d << "] at " << s.p << " of " << n);
        break;
      case 10:
        op = "copy";
        if (its.size() < 5) {
          its.push_back(its[i]);
        } else {
          its[c.below(5)] = its[i];
        }
        break;
      default:
        op = "keep";
        if (s.p >= 0 && s.p < n) kept.emplace_back(*s.it, s.p);
    }
    PBT_LOG(c, "iterator " << i << ": " << op << " d=" << d << " -> position " << its[i].p);
    if (its[i].p < 0 || its[i].p >= n) outside++;
    verify(its[i], op);
  }
  for (const State& a : its) {
    verify(a, "after the walk");
    for (const State& b : its) {
      PBT_CHECK(b.it - a.it == b.p - a.p, "difference of positions " << b.p << " and " << a.p << " is " << (b.it - a.it));
      PBT_CHECK((a.it == b.it) == (a.p == b.p), "== of positions " << a.p << " and " << b.p);
      PBT_CHECK((a.it != b.it) == (a.p != b.p), "!= of positions " << a.p << " and " << b.p);
      PBT_CHECK((a.it < b.it) == (a.p < b.p), "< of positions " << a.p << " and " << b.p);
      PBT_CHECK((a.it > b.it) == (a.p > b.p), "> of positions " << a.p << " and " << b.p);
      PBT_CHECK((a.it <= b.it) == (a.p <= b.p), "<= of positions " << a.p << " and " << b.p);
      PBT_CHECK((a.it >= b.it) == (a.p >= b.p), ">= of positions " << a.p << " and " << b.p);
    }
  }
  for (const auto& k : kept) PBT_CHECK(k.first == want(k.second), "a combination copied out earlier changed");
  if (outside) c.label("left the range and came back or stayed");
  if (n >= 4 && inc && jumps && outside) c.nontrivial();
}

template <typename Container>
void Walks(pbt::Ctx& c) {
  using Gen = symbolic::CombinationGenerator<Container>;
  World<Container> w(c, 300);
  Gen gen(w.ptrs);
  const Gen& cgen = gen;
  const bool from_end = c.flip();
  switch (c.below(6)) {
    case 0: Walk<typename Gen::iterator>(c, w, gen.begin(), gen.end(), false, from_end); c.label("iterator"); break;
    case 1: Walk<typename Gen::const_iterator>(c, w, cgen.begin(), cgen.end(), false, from_end); c.label("const_iterator"); break;
    case 2: Walk<typename Gen::const_iterator>(c, w, gen.cbegin(), gen.cend(), false, from_end); c.label("cbegin"); break;
    case 3: Walk<typename Gen::reverse_iterator>(c, w, gen.rbegin(), gen.rend(), true, from_end); c.label("reverse_iterator"); break;
    case 4: Walk<typename Gen::const_reverse_iterator>(c, w, cgen.rbegin(), cgen.rend(), true, from_end); c.label("const_reverse_iterator"); break;
    default: Walk<typename Gen::const_reverse_iterator>(c, w, gen.crbegin(), gen.crend(), true, from_end); c.label("crbegin"); break;
  }
  if (w.has_size_one) c.label("has option of size one");
}

// Every pair of positions: jump from p to q in every way.
template <typename Container>
void AllJumps(pbt::Ctx& c) {
  using Gen = symbolic::CombinationGenerator<Container>;
  World<Container> w(c, 24);
  Gen gen(w.ptrs);
  const Gen& cgen = gen;
  const int n = static_cast<int>(w.all.size());
  for (int p = -2; p <= n + 1; p++) {
    for (int q = 0; q < n; q++) {
      auto it = gen.begin();
      it += p;
      auto via_end = gen.end();
      via_end -= n - p;
      PBT_CHECK(it == via_end && it - gen.begin() == p, "position " << p << " reached from both ends");
      if (p >= 0 && p < n) PBT_CHECK(*it == w.all[p] && *via_end == w.all[p], "combination at " << p << " reached from both ends");
      it += q - p;
      via_end -= p - q;
      PBT_CHECK(*it == w.all[q], "jump from " << p << " to " << q << " finds " << Str(*it) << " instead of " << Str(w.all[q]));
      PBT_CHECK(*via_end == w.all[q], "jump from " << p << " (via end) to " << q << " finds " << Str(*via_end));
      auto step = cgen.begin() + p;
      while (step - cgen.begin() < q) ++step;
      while (step - cgen.begin() > q) --step;
      PBT_CHECK(*step == w.all[q], "steps from " << p << " to " << q << " find " << Str(*step) << " instead of " << Str(w.all[q]));
    }
  }
  int i = n;
  for (auto it = gen.rbegin(); it != gen.rend(); ++it) {
    PBT_CHECK(i > 0, "reverse iteration yields too many");
    --i;
    PBT_CHECK(*it == w.all[i], "reverse iteration at " << i << " finds " << Str(*it) << " instead of " << Str(w.all[i]));
  }
  PBT_CHECK(i == 0, "reverse iteration ends early");
  i = n;
  for (auto it = cgen.crbegin(); it != cgen.crend(); it++) {
    PBT_CHECK(i > 0, "const reverse iteration yields too many");
    --i;
    PBT_CHECK(*it == w.all[i], "const reverse iteration at " << i);
  }
  PBT_CHECK(i == 0, "const reverse iteration ends early");
  if (w.has_size_one) c.label("has option of size one");
  if (n >= 4) c.nontrivial();
}

template <template <typename> class F>
struct Dispatch {};

}  // namespace

PBT_TARGET(C05_enumerate, "at least two options, one larger than one element, at least four combinations") {
  switch (c.below(4)) {
    case 0: Enumerate<const std::vector<int>>(c); break;
    case 1: Enumerate<std::vector<int>>(c); break;
    case 2: Enumerate<const std::vector<std::string>>(c); break;
    default: Enumerate<const std::deque<int>>(c); break;
  }
}

PBT_TARGET(C05_large, "two options or more with a product of at least 100000 combinations") {
  // Products far too large to enumerate: positions and combinations are
  // converted into each other by arithmetic in 64 bits.
  using Gen = symbolic::CombinationGenerator<const std::vector<int>>;
  std::deque<std::vector<int>> options;
  std::vector<const std::vector<int>*> ptrs;
  int64_t total = 1;
  const int n = c.range(1, 10);
  for (int i = 0; i < n; i++) {
    int64_t k = c.pick(std::vector<int>{1, 2, 3, 10, 255, 256, 257, 1000, 1290, 40000, 66000});
    if (c.chance(1, 3)) k += c.range(0, 9);
    k = std::min(k, int64_t{2147483000} / total);
    if (k < 1) k = 1;
    total *= k;
    options.emplace_back();
    const int offset = c.range(0, 5);
    for (int64_t j = 0; j < k; j++) options.back().push_back(static_cast<int>(j * 3 + offset));
  }
  for (auto& o : options) ptrs.push_back(&o);
  if (c.logging()) for (auto& o : options) c.log() << "option of " << o.size() << " elements\n";
  const Gen gen(ptrs);
  PBT_CHECK(gen.size() == static_cast<size_t>(total) && !gen.empty(), "size " << gen.size() << " instead of " << total);
  auto comb = [&](int64_t p) {
    std::vector<int> r(n);
    for (int i = n - 1; i >= 0; i--) {
      r[i] = options[i][p % options[i].size()];
      p /= options[i].size();
    }
    return r;
  };
  auto it = gen.begin(), last = gen.end();
  auto rit = gen.rbegin();
  int64_t p = 0, rp = 0;
  PBT_CHECK(last - it == total, "end() - begin() is " << (last - it) << " instead of " << total);
  const int steps = c.range(1, 30);
  for (int k = 0; k < steps; k++) {
    int64_t q = c.weighted({3, 1, 1, 1, 1});
    if (q == 0) q = static_cast<int64_t>(c.below(static_cast<uint32_t>(total)));
    else if (q == 1) q = total - 1;
    else if (q == 2) q = 0;
    else if (q == 3) q = std::min(total - 1, p + 1);
    else q = std::max<int64_t>(0, p - c.range(1, 300));
    PBT_LOG(c, "position " << p << " to " << q);
    const std::vector<int> want = comb(q);
    const int i = static_cast<int>(q);
    PBT_CHECK(gen.at(i) == want && gen[i] == want, "at(" << q << ") is " << Str(gen.at(i)) << " instead of " << Str(want));
    PBT_CHECK(gen.at(static_cast<int>(q - total)) == want, "at(" << q - total << ")");
    PBT_CHECK(gen.find(want) == i, "find of combination " << q << " returns " << gen.find(want));
    if (q == p + 1 && c.flip()) ++it; else it += q - p;
    p = q;
    PBT_CHECK(*it == want && it - gen.begin() == q && last - it == total - q, "the iterator at " << q << " finds " << Str(*it) << " instead of " << Str(want));
    rit += (total - 1 - q) - rp;
    rp = total - 1 - q;
    PBT_CHECK(*rit == want && rit - gen.rbegin() == rp, "the reverse iterator at " << rp << " finds " << Str(*rit) << " instead of " << Str(want));
  }
  // Some more steps across the carries.
  for (int k = 0; k < 40 && p + 1 < total; k++) {
    ++it;
    p++;
    PBT_CHECK(*it == comb(p), "step to " << p << " finds " << Str(*it) << " instead of " << Str(comb(p)));
  }
  if (n >= 2 && total >= 100000) c.nontrivial();
}

PBT_TARGET(C06_walk, "a walk with steps and jumps that leaves the valid range, over at least four combinations") {
  switch (c.below(3)) {
    case 0: Walks<const std::vector<int>>(c); break;
    case 1: Walks<std::vector<int>>(c); break;
    default: Walks<const std::vector<std::string>>(c); break;
  }
}

PBT_TARGET(C06_all_jumps, "at least four combinations; every ordered pair of positions is tried") {
  switch (c.below(2)) {
    case 0: AllJumps<const std::vector<int>>(c); break;
    default: AllJumps<const std::vector<std::string>>(c); break;
  }
}
