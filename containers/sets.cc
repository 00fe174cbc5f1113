// C01, C02 on the generic containers: HashSet and UniqueVector against std::set.
#include <algorithm>
#include <set>
#include <string>
#include <utility>

#include "pbt.h"
#include "symbolic/utils/hash_set.h"
#include "symbolic/utils/unique_vector.h"

namespace {

int g_hash_mode = 0;

size_t HashOf(int v) {
  switch (g_hash_mode) {
    case 0: return static_cast<size_t>(v);
    case 1: return 7;                                   // all collide
    case 2: return static_cast<size_t>(v) % 3;
    case 3: return static_cast<size_t>(v) * 0x9e3779b97f4a7c15ull;
    case 4: return static_cast<size_t>(v) << 40;        // low bits equal
    case 5: return ~static_cast<size_t>(v);             // huge values
    default: return static_cast<size_t>(v) * 2147483647u + 11;
  }
}

// Query base class, as PropositionBase is for Proposition.
struct KeyBase {
  virtual ~KeyBase() = default;
  virtual int v() const = 0;
  virtual const std::string& payload() const = 0;
  friend bool operator<(const KeyBase& a, const KeyBase& b) { return a.v() < b.v(); }
  friend bool operator==(const KeyBase& a, const KeyBase& b) { return a.v() == b.v(); }
  friend bool operator!=(const KeyBase& a, const KeyBase& b) { return !(a == b); }
};

std::string PayloadOf(int v) {
  // Long enough to live on the heap, so that a moved-from element shows.
  return "element-with-a-long-payload-" + std::to_string(v);
}

struct Key : KeyBase {
  Key() = default;
  explicit Key(int x) : v_(x), payload_(PayloadOf(x)) {}
  explicit Key(const KeyBase& o) : v_(o.v()), payload_(o.payload()) {}
  int v() const override { return v_; }
  const std::string& payload() const override { return payload_; }
  int v_ = -1;
  std::string payload_;
};

struct KeyRef : KeyBase {
  explicit KeyRef(int x) : v_(x), payload_(PayloadOf(x)) {}
  int v() const override { return v_; }
  const std::string& payload() const override { return payload_; }
  int v_;
  std::string payload_;
};

}  // namespace

namespace std {
template <> struct hash<Key> {
  size_t operator()(const Key& k) const noexcept { return HashOf(k.v()); }
};
template <> struct hash<KeyBase> {
  size_t operator()(const KeyBase& k) const noexcept { return HashOf(k.v()); }
};
template <> struct hash<KeyRef> {
  size_t operator()(const KeyRef& k) const noexcept { return HashOf(k.v()); }
};
}  // namespace std

namespace {

using Set = symbolic::HashSet<Key>;
using Model = std::set<int>;

std::string Str(const Model& m) {
  std::ostringstream ss;
  ss << "{";
  for (int v : m) ss << " " << v;
  ss << " }";
  return ss.str();
}

template <typename S>
void FullCheck(S& s, const Model& m, int pool, const char* what) {
  PBT_CHECK(s.size() == m.size(), what << ": size " << s.size() << " for " << Str(m));
  PBT_CHECK(s.empty() == m.empty(), what << ": empty() for " << Str(m));
  // Forward.
  Model seen;
  size_t n = 0;
  std::vector<int> order;
  for (auto it = s.begin(); it != s.end(); ++it) {
    PBT_CHECK(n++ < m.size(), what << ": iteration visits more than " << m.size() << " elements of " << Str(m));
    const int v = (*it).v();
    PBT_CHECK(it->v() == v, what << ": -> and * differ");
    PBT_CHECK((*it).payload() == PayloadOf(v), what << ": element " << v << " has a damaged payload '" << (*it).payload() << "'");
    PBT_CHECK(m.count(v) == 1, what << ": iteration visits " << v << " which is not in " << Str(m));
    PBT_CHECK(seen.insert(v).second, what << ": iteration visits " << v << " twice");
    order.push_back(v);
  }
  PBT_CHECK(n == m.size(), what << ": iteration visits " << n << " of " << Str(m));
  // Backward.
  auto it = s.end();
  for (size_t i = order.size(); i-- > 0;) {
    --it;
    PBT_CHECK((*it).v() == order[i], what << ": backward iteration differs from forward at " << i);
  }
  PBT_CHECK(it == s.begin(), what << ": backward iteration does not end at begin()");
  for (int v = 0; v < pool; v++) {
    const bool in = m.count(v) == 1;
    PBT_CHECK(s.contains(Key(v)) == in, what << ": contains(" << v << ") for " << Str(m));
  }
}

// A walk in both directions against the order of a plain iteration.
template <typename S>
void WalkCheck(pbt::Ctx& c, S& s, const char* what) {
  std::vector<int> order;
  for (auto it = s.begin(); it != s.end(); ++it) order.push_back(it->v());
  const int n = static_cast<int>(order.size());
  auto it = s.begin();
  int at = 0;
  for (int k = c.range(1, 12); k > 0; k--) {
    auto old = it;
    const int was = at;
    const int op = static_cast<int>(c.below(4));
    if (op < 2 && at < n) {
      at++;
      if (op == 0) ++it; else old = it++;
    } else if (op >= 2 && at > 0) {
      at--;
      if (op == 2) --it; else old = it--;
    }
    PBT_CHECK((it == s.end()) == (at == n) && (it != s.end()) == (at != n) && (it == s.begin()) == (at == 0), what << ": position " << at << " of " << n << " compared with begin() and end()");
    PBT_CHECK((it == old) == (at == was), what << ": iterators at " << at << " and " << was << " compared");
    if (at < n) PBT_CHECK(it->v() == order[at] && (*it).payload() == PayloadOf(order[at]), what << ": element at " << at << " after a step from " << was);
    if (was < n) PBT_CHECK(old->v() == order[was], what << ": the iterator left behind at " << was);
  }
}

template <typename S, typename E, size_t... I>
S FromArray(const E* e, std::index_sequence<I...>) {
  return S{e[I]...};
}

// The set made from an initializer list of the n elements.
template <typename S, typename E>
S FromList(const std::vector<E>& e) {
  switch (e.size()) {
    case 0: return S(std::initializer_list<E>{});
    case 1: return FromArray<S, E>(e.data(), std::make_index_sequence<1>());
    case 2: return FromArray<S, E>(e.data(), std::make_index_sequence<2>());
    case 3: return FromArray<S, E>(e.data(), std::make_index_sequence<3>());
    case 4: return FromArray<S, E>(e.data(), std::make_index_sequence<4>());
    case 5: return FromArray<S, E>(e.data(), std::make_index_sequence<5>());
    case 6: return FromArray<S, E>(e.data(), std::make_index_sequence<6>());
    case 7: return FromArray<S, E>(e.data(), std::make_index_sequence<7>());
    case 8: return FromArray<S, E>(e.data(), std::make_index_sequence<8>());
    case 9: return FromArray<S, E>(e.data(), std::make_index_sequence<9>());
    case 10: return FromArray<S, E>(e.data(), std::make_index_sequence<10>());
    case 11: return FromArray<S, E>(e.data(), std::make_index_sequence<11>());
    case 12: return FromArray<S, E>(e.data(), std::make_index_sequence<12>());
    case 13: return FromArray<S, E>(e.data(), std::make_index_sequence<13>());
    case 14: return FromArray<S, E>(e.data(), std::make_index_sequence<14>());
    case 15: return FromArray<S, E>(e.data(), std::make_index_sequence<15>());
    default: return FromArray<S, E>(e.data(), std::make_index_sequence<16>());
  }
}

void PostfixCheck(Set& s, size_t n) {
  size_t k = 0;
  for (auto it = s.begin(); it != s.end(); it++) PBT_CHECK(k++ < n, "postfix iteration does not end");
  const Set& cs = s;
  k = 0;
  for (auto it = cs.begin(); it != cs.end(); it++) PBT_CHECK(k++ < n, "postfix iteration does not end");
  PBT_CHECK(k == n, "postfix iteration over const set");
  auto it = cs.end();
  for (size_t i = 0; i < n; i++) it--;
  PBT_CHECK(it == cs.begin(), "postfix decrement");
}

struct History {
  pbt::Ctx& c;
  Set s;
  Model m;
  int pool;
  size_t max_size = 0;
  int rehash_seen = 0, shrink_seen = 0, erased = 0, dup = 0;
  size_t last_buckets;

  History(pbt::Ctx& ctx, int pool_) : c(ctx), pool(pool_), last_buckets(s.bucket_count()) {}

  void Note() {
    max_size = std::max(max_size, m.size());
    const size_t b = s.bucket_count();
    if (b > last_buckets) rehash_seen++;
    if (b < last_buckets) shrink_seen++;
    last_buckets = b;
    PBT_CHECK(s.size() == m.size(), "size " << s.size() << " but the model has " << m.size());
  }
  const Key* Own(int v) {
    const Set& cs = s;
    for (const Key& k : cs) {
      if (k.v() == v) return &k;
    }
    return nullptr;
  }
  void Insert(int v, int form) {
    const bool want = m.insert(v).second;
    bool got = false;
    if (!want) dup++;
    switch (form) {
      case 0: got = s.insert(Key(v)); break;                         // rvalue
      case 1: { const Key k(v); got = s.insert(k); break; }          // copy
      case 2: { const KeyRef k(v); got = s.insert(k); break; }       // other type
      case 3: {  // an element of the set itself, if it is there
        const Key* k = Own(v);
        got = k ? s.insert(*k) : s.insert(Key(v));
        break;
      }
      default: { const KeyRef k(v); const KeyBase& b = k; got = s.insert(b); }  // base class
    }
    PBT_LOG(c, "insert " << v << " form " << form << " -> " << got);
    PBT_CHECK(got == want, "insert(" << v << ") returned " << got);
    PBT_CHECK(s.contains(Key(v)), "not contained right after insert(" << v << ")");
    Note();
  }
  void Erase(int v, int form) {
    const bool want = m.erase(v) == 1;
    bool got = false;
    switch (form) {
      case 0: got = s.erase(Key(v)); break;
      case 1: got = s.erase(KeyRef(v)); break;
      case 2: {  // an element of the set itself, if it is there
        const Key* k = Own(v);
        got = k ? s.erase(*k) : s.erase(Key(v));
        break;
      }
      default: { const KeyRef k(v); const KeyBase& b = k; got = s.erase(b); }
    }
    if (got) erased++;
    PBT_LOG(c, "erase " << v << " form " << form << " -> " << got);
    PBT_CHECK(got == want, "erase(" << v << ") returned " << got);
    PBT_CHECK(!s.contains(Key(v)), "still contained right after erase(" << v << ")");
    Note();
  }
  int Element() {  // favour elements that are present
    if (!m.empty() && c.chance(1, 3)) {
      auto it = m.begin();
      std::advance(it, c.below(static_cast<uint32_t>(m.size())));
      return *it;
    }
    return static_cast<int>(c.below(pool));
  }
  void RandomOps(int n) {
    std::vector<std::pair<Set, Model>> snaps;
    for (int i = 0; i < n; i++) {
      switch (c.weighted({30, 24, 6, 5, 6, 4, 3, 2, 2})) {
        case 0: Insert(Element(), c.below(5)); break;
        case 1: Erase(Element(), c.below(4)); break;
        case 2: {  // grow
          const int k = c.range(1, c.scaled(60) + 2), start = c.below(pool), step = c.pick(std::vector<int>{1, 1, 2, 3, 7});
          for (int j = 0; j < k; j++) Insert((start + j * step) % pool, j % 5);
          break;
        }
        case 3: {  // shrink
          int k = c.range(1, static_cast<int>(m.size()) + 1);
          const bool front = c.flip();
          while (k-- > 0 && !m.empty()) Erase(front ? *m.begin() : *m.rbegin(), k % 4);
          break;
        }
        case 4: FullCheck(s, m, pool, "set"); break;
        case 5:
          if (snaps.size() < 4) snaps.emplace_back(s, m);
          PBT_LOG(c, "copy");
          break;
        case 6: {  // copy assignment through another set
          Set t;
          t.insert(Key(3));
          t = s;
          FullCheck(t, m, pool, "assigned copy");
          s = t;
          PBT_LOG(c, "assign");
          break;
        }
        case 7: {
          if (c.flip()) {
            Set t;
            const int k = c.range(0, 9);
            for (int j = 0; j < k; j++) t.insert(Key(j));
            std::swap(s, t);
            FullCheck(t, m, pool, "swapped");
            std::swap(s, t);
            const Set& self = s;
            s = self;
            PBT_LOG(c, "swap and back, self assignment");
            FullCheck(s, m, pool, "swapped back and assigned to itself");
            break;
          }
          Set t(s);
          Set u(std::move(t));
          FullCheck(u, m, pool, "move-constructed");
          s = std::move(u);
          last_buckets = s.bucket_count();
          PBT_LOG(c, "move");
          break;
        }
        default: {  // empty it completely
          while (!m.empty()) Erase(*m.begin(), 0);
          break;
        }
      }
    }
    FullCheck(s, m, pool, "set");
    const Set& cs = s;
    FullCheck(cs, m, pool, "const set");
    PostfixCheck(s, m.size());
    WalkCheck(c, s, "walk");
    WalkCheck(c, cs, "walk over a const set");
    for (auto& sm : snaps) FullCheck(sm.first, sm.second, pool, "copy taken earlier");
  }
};

int Pool(pbt::Ctx& c) {
  return c.weighted({3, 2, 1}) == 0 ? c.range(1, 12) : c.range(4, 20 + c.scaled(180));
}

Set BuildByOtherRoute(pbt::Ctx& c, const Model& m, int pool) {
  if (!m.empty() && m.size() <= 12 && c.chance(1, 4)) {
    // From a list, possibly with repeats.
    std::vector<Key> keys;
    for (int v : m) keys.emplace_back(v);
    const int repeats = c.range(0, 4);
    for (int i = 0; i < repeats; i++) keys.push_back(keys[c.below(static_cast<uint32_t>(m.size()))]);
    for (size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[c.below(static_cast<uint32_t>(i))]);
    PBT_LOG(c, "a set made from a list of " << keys.size() << " for " << m.size() << " elements");
    Set s = FromList<Set>(keys);
    FullCheck(s, m, pool, "set made from a list");
    return s;
  }
  // Same contents by another history: shuffled order with detours.
  std::vector<int> order(m.begin(), m.end());
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.below(static_cast<uint32_t>(i))]);
  Set s;
  std::vector<int> detour;
  for (int v : order) {
    if (c.chance(1, 4)) {
      const int x = static_cast<int>(c.below(pool));
      if (m.count(x) == 0 && s.insert(Key(x))) detour.push_back(x);
    }
    s.insert(Key(v));
    if (!detour.empty() && c.chance(1, 4)) {
      s.erase(Key(detour.back()));
      detour.pop_back();
    }
    if (c.chance(1, 10)) {
      s.erase(Key(v));
      s.insert(Key(v));
    }
  }
  for (int x : detour) s.erase(Key(x));
  return s;
}

}  // namespace

PBT_TARGET(C01_hash_set, "history with at least one growth and one shrink rehash, an erase and a repeated insert") {
  g_hash_mode = c.range(0, 6);
  const int pool = Pool(c);
  PBT_LOG(c, "hash mode " << g_hash_mode << ", pool " << pool);
  History h(c, pool);
  h.RandomOps(c.range(1, 4 + c.scaled(60)));
  if (h.rehash_seen > 0) c.label("grew");
  if (h.shrink_seen > 0) c.label("shrank");
  if (h.max_size >= 16) c.label("size>=16");
  if (h.max_size >= 64) c.label("size>=64");
  c.label("hash mode " + std::to_string(g_hash_mode));
  if (h.rehash_seen && h.shrink_seen && h.erased && h.dup) c.nontrivial();
}

PBT_TARGET(C01_initializer_and_vector, "unsorted input with a repeated element") {
  g_hash_mode = c.range(0, 6);
  // Initializer lists.
  int v[5];
  for (int& x : v) x = c.range(0, 6);
  const Model m5(v, v + 5);
  const Set s{Key(v[0]), Key(v[1]), Key(v[2]), Key(v[3]), Key(v[4])};
  FullCheck(s, m5, 8, "initializer list");
  symbolic::UniqueVector<int> u{v[0], v[1], v[2], v[3], v[4]};
  PBT_CHECK(std::vector<int>(u) == std::vector<int>(m5.begin(), m5.end()), "UniqueVector initializer list");
  std::vector<Key> keys;
  Model m16;
  const int n16 = c.range(0, 16);
  for (int i = 0; i < n16; i++) {
    const int x = c.range(0, 20);
    keys.emplace_back(x);
    m16.insert(x);
  }
  const Set s16 = FromList<Set>(keys);
  FullCheck(s16, m16, 22, "longer initializer list");
  // A history on the sorted vector.
  Model m = m5;
  bool dup = m5.size() < 5;
  const int n = c.range(0, c.scaled(80));
  for (int i = 0; i < n; i++) {
    const int x = c.range(-20, 20);
    bool got = false, want = false;
    switch (c.below(7)) {
      case 5:
        if (!u.empty()) {  // an element of the vector itself
          const int& own = u[c.below(static_cast<uint32_t>(u.size()))];
          m.erase(int(own));
          want = true;
          got = u.erase(own);
        }
        break;
      case 6:
        if (!u.empty()) got = u.insert(u[c.below(static_cast<uint32_t>(u.size()))]);
        break;
      case 0: want = m.insert(x).second; got = u.insert(int(x)); dup |= !want; break;
      case 1: want = m.insert(x).second; got = u.insert(static_cast<const int&>(x)); break;
      case 2: want = m.insert(x).second; got = u.emplace(x); break;
      case 3: want = m.erase(x) == 1; got = u.erase(x); break;
      default: want = m.count(x) == 1; got = u.contains(x);
    }
    PBT_CHECK(got == want, "UniqueVector operation on " << x << " returned " << got);
    PBT_CHECK(std::vector<int>(u) == std::vector<int>(m.begin(), m.end()), "UniqueVector contents");
  }
  if (dup && !std::is_sorted(v, v + 5)) c.nontrivial();
}

PBT_TARGET(C02_hash_set, "two different histories to the same contents of at least 3 elements, and different sets of equal size") {
  g_hash_mode = c.range(0, 6);
  const int pool = Pool(c);
  History h(c, pool);
  h.RandomOps(c.range(1, 4 + c.scaled(25)));
  const Set& a = h.s;
  const Set b = BuildByOtherRoute(c, h.m, pool);
  PBT_CHECK(a == b && b == a, "sets with equal contents " << Str(h.m) << " compare unequal");
  PBT_CHECK(!(a != b), "operator!= on equal sets");
  PBT_CHECK(!(a < b) && !(b < a), "equal sets are ordered");
  // A set differing in one or two elements.
  auto mutate = [&](Model m) {
    const int k = c.range(1, 2);
    for (int i = 0; i < k; i++) {
      const int x = static_cast<int>(c.below(pool + 2));
      if (!m.erase(x)) m.insert(x);
      if (c.flip() && !m.empty()) m.erase(m.begin());
    }
    return m;
  };
  const Model m2 = mutate(h.m), m3 = mutate(m2);
  const Set s2 = BuildByOtherRoute(c, m2, pool), s3 = BuildByOtherRoute(c, m3, pool);
  const Set* ss[3] = {&a, &s2, &s3};
  const Model* ms[3] = {&h.m, &m2, &m3};
  bool lt[3][3];
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      const bool eq = *ms[i] == *ms[j];
      PBT_CHECK((*ss[i] == *ss[j]) == eq, "== of " << Str(*ms[i]) << " and " << Str(*ms[j]));
      PBT_CHECK((*ss[i] != *ss[j]) == !eq, "!= of " << Str(*ms[i]) << " and " << Str(*ms[j]));
      lt[i][j] = *ss[i] < *ss[j];
    }
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      if (*ms[i] == *ms[j]) {
        PBT_CHECK(!lt[i][j], "< holds between equal sets");
      } else {
        PBT_CHECK(lt[i][j] != lt[j][i], "< is not total on different sets " << Str(*ms[i]) << " and " << Str(*ms[j]));
      }
      for (int k = 0; k < 3; k++) PBT_CHECK(!(lt[i][j] && lt[j][k]) || lt[i][k], "< is not transitive");
    }
  bool same_size = h.m.size() == m2.size() && h.m != m2;
  if (h.m.size() >= 3 && h.erased > 0) c.nontrivial();
  if (same_size) c.label("different sets of equal size");
}

PBT_TARGET(C01_large_sets, "more than 300 elements were inserted and most of them erased again") {
  // Sizes far from those of unit tests: thousands of elements, few checks on the way.
  g_hash_mode = c.pick(std::vector<int>{0, 3, 4, 5, 6, 2});
  const int limit = g_hash_mode == 2 ? 600 : c.pick(std::vector<int>{300, 1200, 5000, 9000});
  const int stride = c.pick(std::vector<int>{1, 2, 3, 64, 1024, 4096});
  PBT_LOG(c, "hash mode " << g_hash_mode << ", up to " << limit << " elements, stride " << stride);
  Set s;
  symbolic::UniqueVector<int> u;
  Model m;
  size_t max_size = 0;
  bool shrunk = false;
  auto full = [&](const Set& set, const Model& model, const char* what) {
    PBT_CHECK(set.size() == model.size() && set.empty() == model.empty(), what << ": size " << set.size() << " instead of " << model.size());
    std::vector<int> seen;
    for (const Key& k : set) {
      PBT_CHECK(k.payload() == PayloadOf(k.v()), what << ": element " << k.v() << " has a damaged payload");
      seen.push_back(k.v());
      PBT_CHECK(seen.size() <= model.size(), what << ": iteration visits more than " << model.size() << " elements");
    }
    auto it = set.end();
    for (size_t i = seen.size(); i-- > 0;) {
      --it;
      PBT_CHECK(it->v() == seen[i], what << ": backward iteration differs at " << i);
    }
    PBT_CHECK(it == set.begin(), what << ": backward iteration does not end at the beginning");
    std::sort(seen.begin(), seen.end());
    PBT_CHECK(std::equal(seen.begin(), seen.end(), model.begin(), model.end()), what << ": iteration does not visit the elements of the set once each");
    for (int v : model) PBT_CHECK(set.contains(Key(v)), what << ": element " << v << " is not found");
  };
  const int phases = c.range(1, 4);
  for (int phase = 0; phase < phases; phase++) {
    const bool grow = phase % 2 == 0;
    const int n = c.range(1, limit), start = c.range(0, limit), step = c.pick(std::vector<int>{1, 1, 3, 7, 11});
    PBT_LOG(c, (grow ? "insert " : "erase ") << n << " from " << start << " step " << step << " at size " << m.size());
    for (int i = 0; i < n; i++) {
      const int v = static_cast<int>((start + static_cast<int64_t>(i) * step) % limit) * stride;
      const bool want = grow ? m.insert(v).second : m.erase(v) == 1;
      bool got;
      if (grow) got = i % 2 ? s.insert(Key(v)) : s.insert(KeyRef(v));
      else got = i % 2 ? s.erase(Key(v)) : s.erase(KeyRef(v));
      PBT_CHECK(got == want, (grow ? "insert " : "erase ") << v << " returned " << got << " at size " << m.size());
      PBT_CHECK(s.size() == m.size() && s.contains(Key(v)) == grow, (grow ? "insert " : "erase ") << v << " left size " << s.size() << " instead of " << m.size());
      const bool got_u = grow ? u.insert(v) : u.erase(v);
      PBT_CHECK(got_u == want && u.size() == m.size(), "sorted vector: " << (grow ? "insert " : "erase ") << v << " returned " << got_u);
    }
    max_size = std::max(max_size, m.size());
    shrunk |= !grow && m.size() * 2 < max_size;
    full(s, m, "set");
    PBT_CHECK(std::equal(u.begin(), u.end(), m.begin(), m.end()), "contents of the sorted vector");
    if (c.chance(1, 3)) {
      Set t = s;
      full(t, m, "copy");
      s = std::move(t);
      full(s, m, "moved copy");
    }
  }
  // Another route to the same contents: descending order, then one changed.
  Set t;
  for (auto it = m.rbegin(); it != m.rend(); ++it) t.insert(Key(*it));
  PBT_CHECK(s == t && !(s != t) && !(s < t) && !(t < s), "sets with the same " << m.size() << " elements compare unequal");
  const int x = c.range(0, limit - 1) * stride;
  if (m.count(x)) t.erase(Key(x)); else t.insert(Key(x));
  PBT_CHECK(s != t && (s < t) != (t < s), "sets of " << m.size() << " elements that differ in " << x << " compare equal");
  if (max_size > 300 && shrunk) c.nontrivial();
}

PBT_TARGET(C02_large, "two histories to the same contents of more than 500 elements") {
  // Large sets whose tables got their size on different ways.
  g_hash_mode = c.pick(std::vector<int>{0, 3, 4, 5, 6});
  const int n = c.pick(std::vector<int>{60, 300, 700, 1500, 4000}) + c.range(0, 40);
  const int stride = c.pick(std::vector<int>{1, 2, 3, 64, 1024});
  const int step = c.pick(std::vector<int>{1, 7, 11, 13});  // which elements to keep
  const int extra = c.pick(std::vector<int>{0, 10, 200, 3000});
  PBT_LOG(c, "hash mode " << g_hash_mode << ", " << n << " elements, stride " << stride << ", keep by " << step << ", " << extra << " more for a while");
  Model m;
  for (int i = 0; i < n; i++) {
    if (i % step != 1) m.insert(i * stride);
  }
  auto fill = [&](int way) {
    Set s;
    switch (way) {
      case 0: for (int v : m) s.insert(Key(v)); break;
      case 1: for (auto it = m.rbegin(); it != m.rend(); ++it) s.insert(Key(*it)); break;
      case 2: {  // far too many first
        for (int i = n + extra - 1; i >= 0; i--) s.insert(Key(i * stride));
        for (int i = 0; i < n + extra; i++) {
          if (!m.count(i * stride)) s.erase(Key(i * stride));
        }
        break;
      }
      case 3: {  // every other one first, then emptied, then all
        for (int v : m) s.insert(Key(v));
        for (int v : m) s.erase(Key(v));
        size_t i = 0;
        for (int v : m) {
          if (i++ % 2 == 0) s.insert(Key(v));
        }
        for (int v : m) s.insert(Key(v));
        break;
      }
      default: {  // through a copy halfway
        Set t;
        size_t i = 0;
        for (int v : m) {
          if (i++ == m.size() / 2) {
            s = t;
            t = s;
          }
          t.insert(Key(v));
        }
        s = std::move(t);
      }
    }
    return s;
  };
  const int way_a = c.range(0, 4), way_b = c.range(0, 4);
  const Set a = fill(way_a);
  Set b = fill(way_b);
  PBT_CHECK(a.size() == m.size() && b.size() == m.size(), "sizes " << a.size() << " and " << b.size() << " instead of " << m.size());
  PBT_CHECK(a == b && b == a && !(a != b) && !(b != a), "sets of the same " << m.size() << " elements, made on ways " << way_a << " and " << way_b << ", compare unequal");
  PBT_CHECK(!(a < b) && !(b < a), "sets of the same " << m.size() << " elements, made on ways " << way_a << " and " << way_b << ", are ordered");
  // One element more, less, or another one.
  const int x = c.range(0, n - 1) * stride, y = (n + c.range(0, 50)) * stride;
  Set d = b;
  Model md = m;
  const int change = c.range(0, 2);
  if (change != 1) { d.insert(Key(y)); md.insert(y); }
  if (change != 0) { d.erase(Key(x)); md.erase(x); }
  const bool same = md == m;
  PBT_CHECK((a == d) == same && (d == a) == same && (a != d) == !same, "sets of " << m.size() << " and " << md.size() << " elements compare equal: " << !same);
  PBT_CHECK((a < d) != (d < a) || same, "neither or both of two different sets of " << m.size() << " and " << md.size() << " elements are less");
  // Back again.
  if (change != 1) d.erase(Key(y));
  if (change != 0 && m.count(x)) d.insert(Key(x));
  PBT_CHECK(a == d && !(a < d) && !(d < a), "a set of " << m.size() << " elements differs after a change was undone");
  if (m.size() > 500 && way_a != way_b) c.nontrivial();
}
