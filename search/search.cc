// C09, C10, C11: the three search templates over synthetic graphs.
#include <algorithm>
#include <iostream>
#include <set>

#include "pbt.h"
#include "symbolic/planning/a_star.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/depth_first_search.h"

namespace {

struct Graph {
  std::vector<std::vector<int>> adj;
  std::vector<bool> goal;
  std::vector<int> value;  // priorities for A*
};

// Every occurrence of a node in the unfolding of the graph is identified by
// the list of child positions from the root.
using Route = std::vector<int>;

struct Log {
  std::vector<Route> expanded;  // routes in order of first evaluation
  std::set<Route> seen;
};

Log* g_log = nullptr;

// Nodes looked at in this case: a search that goes on far beyond what there is
// to be found does not end.
size_t g_work = 0;
constexpr size_t kMaxWork = 300000;
size_t g_max_route = 40;  // longer routes than that mean that the depth bound is ignored

class Node {
 public:
  Node() = default;
  Node(const Graph* g, int id, Route route) : g_(g), id_(id), route_(std::move(route)) {}
  Node(const Node&) = default;
  Node& operator=(const Node&) = default;
  Node(Node&& o) noexcept : g_(o.g_), id_(o.id_), route_(std::move(o.route_)) { o.g_ = nullptr; o.id_ = -1; }
  Node& operator=(Node&& o) noexcept {
    g_ = o.g_; id_ = o.id_; route_ = std::move(o.route_);
    o.g_ = nullptr; o.id_ = -1;
    return *this;
  }

  class iterator;
  iterator begin() const;
  iterator end() const;
  explicit operator bool() const {
    Valid();
    if (++g_work > kMaxWork || route_.size() > g_max_route) PBT_FAIL("the search does not end");
    if (g_log && g_log->seen.insert(route_).second) g_log->expanded.push_back(route_);
    return g_->goal[id_];
  }
  int id() const { return id_; }
  const Route& route() const { return route_; }
  void Valid() const { if (!g_) PBT_FAIL("the search uses a moved-from node"); }
  friend std::ostream& operator<<(std::ostream& os, const Node& n) { return os << "node" << n.id_; }

 private:
  const Graph* g_ = nullptr;
  int id_ = -1;
  Route route_;
};

class Node::iterator {
 public:
  using iterator_category = std::bidirectional_iterator_tag;
  using value_type = Node;
  using difference_type = ptrdiff_t;
  using pointer = const Node*;
  using reference = const Node&;
  iterator() = default;
  iterator(const Node* parent, size_t i) : parent_(parent), i_(i) { Load(); }
  iterator& operator++() { i_++; Load(); return *this; }
  iterator operator++(int) { iterator old = *this; ++*this; return old; }
  iterator& operator--() { i_--; Load(); return *this; }
  iterator operator--(int) { iterator old = *this; --*this; return old; }
  bool operator==(const iterator& o) const { return i_ == o.i_; }
  bool operator!=(const iterator& o) const { return i_ != o.i_; }
  reference operator*() const { child_.Valid(); return child_; }
  pointer operator->() const { child_.Valid(); return &child_; }

 private:
  void Load() {
    // The parent has to stay alive and in place while its children are listed.
    const auto& a = parent_->g_->adj[parent_->id_];
    if (i_ >= a.size()) {
      child_ = Node();
      return;
    }
    Route r = parent_->route_;
    r.push_back(static_cast<int>(i_));
    child_ = Node(parent_->g_, a[i_], std::move(r));
  }
  const Node* parent_ = nullptr;
  size_t i_ = 0;
  Node child_;
};

Node::iterator Node::begin() const { Valid(); return iterator(this, 0); }
Node::iterator Node::end() const { Valid(); return iterator(this, g_->adj[id_].size()); }

struct Path {
  std::vector<int> ids;
  Route route;
  bool operator==(const Path& o) const { return ids == o.ids && route == o.route; }
  bool operator<(const Path& o) const { return route < o.route; }
};

std::string Str(const Path& p) {
  std::ostringstream ss;
  ss << "[";
  for (int i : p.ids) ss << " " << i;
  ss << " via";
  for (int i : p.route) ss << " " << i;
  ss << " ]";
  return ss.str();
}
std::string Str(const std::vector<Path>& v) {
  std::string s;
  for (size_t i = 0; i < v.size() && i < 12; i++) s += Str(v[i]);
  return s + (v.size() > 12 ? "..." : "");
}

void Enumerate(const Graph& g, int id, size_t depth, size_t max_depth, Path* cur, std::vector<Path>* out, size_t* visited) {
  (*visited)++;
  cur->ids.push_back(id);
  if (g.goal[id]) {
    out->push_back(*cur);
  } else if (depth < max_depth) {
    for (size_t i = 0; i < g.adj[id].size(); i++) {
      cur->route.push_back(static_cast<int>(i));
      Enumerate(g, g.adj[id][i], depth + 1, max_depth, cur, out, visited);
      cur->route.pop_back();
    }
  }
  cur->ids.pop_back();
}

size_t CountNodes(const Graph& g, int root, size_t max_depth) {
  // Number of nodes of the unfolding up to the bound.
  std::vector<double> at(g.adj.size(), 0);
  at[root] = 1;
  double total = 0;
  for (size_t d = 0;; d++) {
    for (double x : at) total += x;
    if (d == max_depth || total > 1e7) break;
    std::vector<double> next(g.adj.size(), 0);
    for (size_t i = 0; i < at.size(); i++)
      if (at[i] > 0 && !g.goal[i])
        for (int j : g.adj[i]) next[j] += at[i];
    at = next;
  }
  return static_cast<size_t>(total);
}

struct World {
  Graph g;
  int root = 0;
  size_t max_depth = 0;
  std::vector<Path> all;  // reference, in depth-first child order
  bool cyclic = false;

  explicit World(pbt::Ctx& c, size_t budget = 4000) {
    g_work = 0;
    g_max_route = 40;
    const int n = c.range(1, 3 + c.scaled(10));
    g.adj.resize(n);
    g.goal.resize(n);
    g.value.resize(n);
    const int shape = c.weighted({4, 3, 2, 1});
    const int goal_rate = c.weighted({2, 1, 3, 2}) == 0 ? 1 : 2;
    for (int i = 0; i < n; i++) {
      const int k = shape == 3 ? c.range(0, 1) : c.weighted({1, 3, 4, 3, 1});
      for (int j = 0; j < k; j++) {
        int t;
        if (shape == 1 && i + 1 < n) t = c.range(i + 1, n - 1);      // acyclic
        else if (shape == 2) t = (i + 1 + c.below(3)) % n;           // ring-like
        else t = c.below(n);
        if (shape == 1 && i + 1 >= n) continue;
        g.adj[i].push_back(t);
        if (t <= i) cyclic = true;
      }
      g.goal[i] = c.chance(goal_rate, 6);
      g.value[i] = c.range(0, 5);
    }
    root = c.chance(1, 4) ? c.below(n) : 0;
    if (std::find(g.goal.begin(), g.goal.end(), true) == g.goal.end() && !c.chance(1, 6)) g.goal[c.below(n)] = true;
    if (g.goal[root] && !c.chance(1, 6)) g.goal[root] = false;
    max_depth = c.weighted({1, 1, 2, 3, 4, 4, 3, 3, 2, 2, 1, 1, 1});
    if (shape == 1 && c.chance(1, 5)) max_depth = 1000000;  // the graph bounds the search
    while (shape == 1 && max_depth > 100 && CountNodes(g, root, 40) > budget) max_depth = 12;
    if (max_depth <= 100) while (max_depth > 0 && CountNodes(g, root, max_depth) > budget) max_depth--;
    Path cur;
    size_t visited = 0;
    Enumerate(g, root, 0, max_depth, &cur, &all, &visited);
    for (int tries = 0; tries < 2 && all.size() < 2 && !c.chance(1, 5); tries++) {
      // Put a goal at the end of some walk.
      int id = root;
      const size_t steps = max_depth > 12 ? 12 : max_depth;
      for (size_t i = 0; i < steps && !g.adj[id].empty() && !(i > 0 && c.chance(1, 6)); i++) {
        const int next = c.pick(g.adj[id]);
        if (g.goal[next]) break;
        id = next;
      }
      if (id == root) break;
      g.goal[id] = true;
      all.clear();
      cur = Path();
      Enumerate(g, root, 0, max_depth, &cur, &all, &visited);
    }
    if (c.logging()) {
      c.log() << "root " << root << ", depth bound " << max_depth << "\n";
      for (int i = 0; i < n; i++) {
        c.log() << "  " << i << (g.goal[i] ? " goal" : "") << " value " << g.value[i] << " ->";
        for (int t : g.adj[i]) c.log() << " " << t;
        c.log() << "\n";
      }
      c.log() << "goal paths: " << Str(all) << "\n";
    }
  }
  // Graphs with long paths, many children or wide layers.
  struct Large {};
  World(pbt::Ctx& c, Large, size_t budget) {
    g_work = 0;
    auto node = [&] {
      g.adj.emplace_back();
      g.goal.push_back(false);
      g.value.push_back(c.range(0, 5));
      return static_cast<int>(g.adj.size()) - 1;
    };
    const int shape = c.weighted({2, 2, 2});
    node();
    if (shape == 0) {
      // A long chain with some branches at its side.
      const int n = c.range(40, 300);
      int cur = 0;
      for (int i = 0; i < n; i++) {
        const int next = node();
        if (c.chance(1, 12)) {
          const int side = node();
          g.goal[side] = c.flip();
          const bool before = c.flip();
          if (before) g.adj[cur].push_back(side);
          g.adj[cur].push_back(next);
          if (!before) g.adj[cur].push_back(side);
        } else {
          g.adj[cur].push_back(next);
        }
        cur = next;
      }
      g.goal[cur] = true;
      max_depth = c.weighted({3, 1, 1}) == 0 ? 1000000 : static_cast<size_t>(c.range(n - 2, n + 1));
    } else if (shape == 1) {
      // A node with very many children, some levels down.
      const int k = c.pick(std::vector<int>{100, 255, 256, 257, 1000, 1024, 1500});
      int hub = 0;
      for (int i = c.range(0, 3); i > 0; i--) {
        const int next = node();
        g.adj[hub].push_back(next);
        hub = next;
      }
      const int every = c.range(1, 50), leaf = node(), end = node();
      g.goal[end] = true;
      g.adj[leaf].push_back(end);
      for (int i = 0; i < k; i++) {
        const int child = i % every == every - 1 ? (c.flip() ? end : leaf) : (c.chance(1, 8) ? leaf : node());
        g.adj[hub].push_back(child);
      }
      max_depth = static_cast<size_t>(c.range(2, 8));
    } else {
      // Layers of a few nodes each, all linked to the next layer: the number of
      // paths doubles or triples with every step.
      const int width = c.range(2, 3), layers = width == 2 ? c.range(6, 11) : c.range(4, 7);
      std::vector<int> last{0};
      for (int l = 0; l < layers; l++) {
        std::vector<int> next;
        for (int i = 0; i < width; i++) next.push_back(node());
        for (int a : last) g.adj[a] = next;
        last = next;
      }
      g.goal[last[c.below(static_cast<uint32_t>(last.size()))]] = true;
      if (c.flip()) g.goal[1 + c.below(static_cast<uint32_t>(g.adj.size() - 1))] = true;
      max_depth = static_cast<size_t>(c.range(layers - 1, layers + 1));
    }
    g_max_route = std::min<size_t>(max_depth, g.adj.size()) + 5;
    while (max_depth > 1 && CountNodes(g, root, std::min<size_t>(max_depth, g.adj.size())) > budget) max_depth = std::min<size_t>(max_depth, g.adj.size()) - 1;
    Path cur;
    size_t visited = 0;
    Enumerate(g, root, 0, max_depth, &cur, &all, &visited);
    if (c.logging()) c.log() << "large graph " << shape << " of " << g.adj.size() << " nodes, depth bound " << max_depth << ", " << all.size() << " goal paths\n";
    c.label("large graph " + std::to_string(shape));
  }
  bool Nontrivial() const {
    std::set<size_t> lengths;
    for (const Path& p : all) lengths.insert(p.ids.size());
    return all.size() >= 2 && lengths.size() >= 2;
  }
  bool Big() const {
    return all.size() >= 10 || std::any_of(all.begin(), all.end(), [](const Path& p) { return p.ids.size() > 40; });
  }
  void Labels(pbt::Ctx& c) const {
    if (all.empty()) c.label("no goal path");
    if (g.goal[root]) c.label("root is a goal");
    if (cyclic) c.label("cyclic");
    if (max_depth == 0) c.label("depth bound 0");
    for (const Path& p : all)
      if (p.ids.size() == max_depth + 1) { c.label("goal at the depth bound"); break; }
  }
};

Path PathOf(const World& w, const std::vector<Node>& nodes) {
  Path p;
  PBT_CHECK(!nodes.empty(), "a returned path is empty");
  for (const Node& n : nodes) {
    n.Valid();
    p.ids.push_back(n.id());
  }
  p.route = nodes.back().route();
  for (size_t i = 0; i < nodes.size(); i++) {
    PBT_CHECK(nodes[i].route().size() == i && std::equal(nodes[i].route().begin(), nodes[i].route().end(), p.route.begin()),
              "a returned path is not a path from the root: " << Str(p));
  }
  PBT_CHECK(p.ids[0] == w.root, "path does not start at the root");
  return p;
}

template <typename It>
std::vector<Path> Collect(const World& w, It it, const It& end, size_t limit) {
  std::vector<Path> out;
  while (it != end) {
    out.push_back(PathOf(w, *it));
    PBT_CHECK(out.size() <= limit, "the search yields more than the " << limit << " goal paths, e.g. " << Str(out.back()));
    const Path kept = out.back();
    const std::vector<Node> copy = *it;
    ++it;
    PBT_CHECK(PathOf(w, copy) == kept, "a path copied out changed");
  }
  PBT_CHECK(!(it != end) && it == end, "end comparison");
  return out;
}

void CheckSame(std::vector<Path> got, std::vector<Path> want, const char* what) {
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  for (size_t i = 0; i + 1 < got.size(); i++) PBT_CHECK(!(got[i] == got[i + 1]), what << " yields a path twice: " << Str(got[i]));
  if (got == want) return;
  for (const Path& p : want)
    PBT_CHECK(std::find(got.begin(), got.end(), p) != got.end(), what << " misses the goal path " << Str(p) << " (" << got.size() << " of " << want.size() << " found)");
  for (const Path& p : got)
    PBT_CHECK(std::find(want.begin(), want.end(), p) != want.end(), what << " yields " << Str(p) << " which is not a goal path within the bound");
  PBT_FAIL(what << " differs");
}

struct SilenceCout {
  SilenceCout() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~SilenceCout() { std::cout.rdbuf(old); }
  std::ostringstream sink;
  std::streambuf* old;
};

template <typename Search>
void Repeat(const World& w, Search& s, const std::vector<Path>& first, const char* what) {
  const std::vector<Path> again = Collect(w, s.begin(), s.end(), w.all.size());
  PBT_CHECK(again == first, what << ": a second iteration differs from the first");
  // Two iterations in lock step.
  auto a = s.begin();
  auto b = s.begin();
  for (size_t i = 0; i < first.size(); i++) {
    PBT_CHECK(a != s.end() && b != s.end(), what << ": interleaved iteration ends early");
    PBT_CHECK(PathOf(w, *a) == first[i], what << ": interleaved iteration (first iterator)");
    ++a;
    PBT_CHECK(PathOf(w, *b) == first[i], what << ": interleaved iteration (second iterator)");
    ++b;
  }
  PBT_CHECK(a == s.end() && b == s.end(), what << ": interleaved iteration does not end");
  // A copy taken on the way goes on independently.
  if (first.empty()) return;
  auto it = s.begin();
  const size_t stop = first.size() / 2;
  for (size_t i = 0; i < stop; i++) ++it;
  {
    auto copy = it;
    for (size_t i = stop; i < first.size(); i++) {
      PBT_CHECK(copy != s.end() && PathOf(w, *copy) == first[i], what << ": a copied iterator yields something else");
      ++copy;
    }
    PBT_CHECK(copy == s.end(), what << ": a copied iterator does not end");
  }
  for (size_t i = stop; i < first.size(); i++) {
    PBT_CHECK(it != s.end() && PathOf(w, *it) == first[i], what << ": an iterator is disturbed by its copy");
    ++it;
  }
  PBT_CHECK(it == s.end(), what << ": an iterator is disturbed by its copy");
}

}  // namespace

namespace {

void CheckBfs(pbt::Ctx& c, const World& w) {
  const Node root(&w.g, w.root, {});
  std::vector<Path> want = w.all;
  std::stable_sort(want.begin(), want.end(), [](const Path& a, const Path& b) { return a.ids.size() < b.ids.size(); });
  symbolic::BreadthFirstSearch<Node> bfs(root, w.max_depth);
  const std::vector<Path> got = Collect(w, bfs.begin(), bfs.end(), w.all.size());
  CheckSame(got, want, "breadth-first search");
  for (size_t i = 0; i + 1 < got.size(); i++)
    PBT_CHECK(got[i].ids.size() <= got[i + 1].ids.size(), "a longer path comes before a shorter one: " << Str(got[i]) << Str(got[i + 1]));
  PBT_CHECK(got == want, "paths of equal length are not in child order: " << Str(got) << " instead of " << Str(want));
  Repeat(w, bfs, got, "breadth-first search");
  {
    SilenceCout silence;
    symbolic::BreadthFirstSearch<Node> verbose(root, w.max_depth, true);
    const std::vector<Path> v = Collect(w, verbose.begin(), verbose.end(), w.all.size());
    PBT_CHECK(v == got, "verbose output changes the result: " << Str(v) << " instead of " << Str(got));
  }
  symbolic::BreadthFirstSearch<Node> patient(root, w.max_depth, false, std::chrono::hours(10));
  PBT_CHECK(Collect(w, patient.begin(), patient.end(), w.all.size()) == got, "a timeout that is not reached changes the result");
  symbolic::BreadthFirstSearch<Node> hasty(root, w.max_depth, false, std::chrono::microseconds(c.range(1, 40)));
  const std::vector<Path> h = Collect(w, hasty.begin(), hasty.end(), w.all.size());
  PBT_CHECK(h.size() <= got.size() && std::equal(h.begin(), h.end(), got.begin()), "results under a timeout are not a prefix");
  w.Labels(c);
}

}  // namespace

PBT_TARGET(C09_bfs, "at least two goal paths of different lengths") {
  const World w(c);
  CheckBfs(c, w);
  if (w.Nontrivial()) c.nontrivial();
}

PBT_TARGET(C09_large, "ten goal paths or more, or one of more than 40 nodes") {
  const World w(c, World::Large(), 6000);
  CheckBfs(c, w);
  if (w.Big()) c.nontrivial();
}

namespace {

void CheckDfs(pbt::Ctx& c, const World& w) {
  const Node root(&w.g, w.root, {});
  symbolic::DepthFirstSearch<Node> dfs(root, w.max_depth);
  const std::vector<Path> got = Collect(w, dfs.begin(), dfs.end(), w.all.size());
  CheckSame(got, w.all, "depth-first search");
  // One branch is finished before the next: paths with a common prefix are adjacent.
  std::set<Route> closed;
  for (size_t i = 0; i < got.size(); i++) {
    for (size_t k = 0; k <= got[i].route.size(); k++) {
      const Route prefix(got[i].route.begin(), got[i].route.begin() + k);
      PBT_CHECK(closed.count(prefix) == 0, "the search returns to a branch it had left: " << Str(got[i]));
    }
    if (i + 1 < got.size()) {
      for (size_t k = 0; k <= got[i].route.size(); k++) {
        const Route prefix(got[i].route.begin(), got[i].route.begin() + k);
        const Route& next = got[i + 1].route;
        if (next.size() < k || !std::equal(prefix.begin(), prefix.end(), next.begin())) closed.insert(prefix);
      }
    }
  }
  Repeat(w, dfs, got, "depth-first search");
  w.Labels(c);
}

}  // namespace

PBT_TARGET(C10_dfs, "at least two goal paths of different lengths") {
  const World w(c);
  CheckDfs(c, w);
  if (w.Nontrivial()) c.nontrivial();
}

PBT_TARGET(C10_large, "ten goal paths or more, or one of more than 40 nodes") {
  const World w(c, World::Large(), 6000);
  CheckDfs(c, w);
  if (w.Big()) c.nontrivial();
}

namespace {

// Orders search nodes by a cost computed from the path and the graph: the queue
// yields the smallest cost first.
struct Compare {
  const Graph* g;
  int kind;
  int Cost(const std::vector<int>& ids) const {
    const int depth = static_cast<int>(ids.size()) - 1;
    switch (kind) {
      case 0: return depth;                                       // uniform cost
      case 1: return depth + g->value[ids.back()];                // A* with a heuristic
      case 2: return g->value[ids.back()];                        // greedy
      case 3: return 0;                                           // all ties
      case 4: { int s = 0; for (int i : ids) s += g->value[i]; return s; }  // additive costs
      default: return -depth;                                     // deepest first
    }
  }
  int Cost(const symbolic::SearchNode<Node>& n) const {
    std::vector<int> ids;
    for (const Node& a : n.ancestors) {
      a.Valid();
      ids.push_back(a.id());
    }
    n.node.Valid();
    ids.push_back(n.node.id());
    PBT_CHECK(n.ancestors.size() == n.node.route().size(), "a queued node carries " << n.ancestors.size() << " ancestors at depth " << n.node.route().size());
    return Cost(ids);
  }
  bool operator()(const symbolic::SearchNode<Node>& a, const symbolic::SearchNode<Node>& b) const {
    return Cost(a) > Cost(b);
  }
};

std::vector<int> IdsOf(const World& w, const Route& r) {
  std::vector<int> ids{w.root};
  for (int i : r) ids.push_back(w.g.adj[ids.back()][i]);
  return ids;
}

void CheckAStar(pbt::Ctx& c, const World& w, bool* tied) {
  const Node root(&w.g, w.root, {});
  const Compare compare{&w.g, c.range(0, 5)};
  PBT_LOG(c, "priority kind " << compare.kind);
  symbolic::AStar<Node, Compare> search(compare, root, w.max_depth);
  Log log;
  g_log = &log;
  struct Reset { ~Reset() { g_log = nullptr; } } reset;
  const std::vector<Path> got = Collect(w, search.begin(), search.end(), w.all.size());
  g_log = nullptr;
  CheckSame(got, w.all, "best-first search");
  // Replay the expansions: each one must be of least cost among the open ones.
  std::multiset<int> open_costs;
  std::set<Route> open;
  auto cost = [&](const Route& r) { return compare.Cost(IdsOf(w, r)); };
  open.insert(Route());
  open_costs.insert(cost(Route()));
  for (const Route& r : log.expanded) {
    PBT_CHECK(open.count(r) == 1, "a node is expanded that was not generated");
    const int k = cost(r);
    PBT_CHECK(k == *open_costs.begin(), "a node of cost " << k << " is expanded while one of cost " << *open_costs.begin() << " waits");
    open.erase(r);
    open_costs.erase(open_costs.find(k));
    const std::vector<int> ids = IdsOf(w, r);
    if (w.g.goal[ids.back()] || ids.size() > w.max_depth) continue;
    for (size_t i = 0; i < w.g.adj[ids.back()].size(); i++) {
      Route child = r;
      child.push_back(static_cast<int>(i));
      open_costs.insert(cost(child));
      open.insert(std::move(child));
    }
  }
  if (compare.kind == 0 || compare.kind == 4) {
    for (size_t i = 0; i + 1 < got.size(); i++)
      PBT_CHECK(compare.Cost(got[i].ids) <= compare.Cost(got[i + 1].ids), "goal paths are not in order of cost");
  }
  Repeat(w, search, got, "best-first search");
  w.Labels(c);
  c.label("priority kind " + std::to_string(compare.kind));
  *tied = compare.kind == 3;
}

}  // namespace

PBT_TARGET(C11_a_star, "at least two goal paths of different lengths, and not all priorities tied") {
  const World w(c, 1500);
  bool tied = false;
  CheckAStar(c, w, &tied);
  if (w.Nontrivial() && !tied) c.nontrivial();
}

PBT_TARGET(C11_large, "ten goal paths or more, or one of more than 40 nodes, and not all priorities tied") {
  const World w(c, World::Large(), 3000);
  bool tied = false;
  CheckAStar(c, w, &tied);
  if (w.Big() && !tied) c.nontrivial();
}
