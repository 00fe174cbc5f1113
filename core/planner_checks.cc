// C12, C13: planner nodes and planning.
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <unordered_set>

#include "plan_model.h"
#include "symbolic/planning/a_star.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/depth_first_search.h"
#include "symbolic/planning/planner.h"

using namespace model;     // NOLINT
using namespace symbolic;  // NOLINT

namespace {

using Node = Planner::Node;

void CheckNode(const World& w, const Node& n, const MState& m, const std::string& action, size_t depth) {
  PBT_CHECK(FromState(n.state()) == m, "the state of node " << action << " is " << n.state() << ", expected " << Show(m));
  PBT_CHECK(n.depth() == depth, "node " << action << " has depth " << n.depth() << ", expected " << depth);
  if (depth > 0) PBT_CHECK(n.action() == action, "node has action " << n.action() << ", expected " << action);
  const bool goal = Eval(w, w.goal, {}, m);
  PBT_CHECK(static_cast<bool>(n) == goal, "the node with state " << Show(m) << " is a goal: " << !goal << ", goal " << Show(w.goal, w));
}

std::string Texts(const std::vector<Child>& cs) {
  std::string r;
  for (const Child& x : cs) r += x.call + " -> " + Show(x.state) + "; ";
  return r;
}

std::vector<Node> Iterate(const Node& n) {
  std::vector<Node> r;
  for (const Node& child : n) r.push_back(child);
  return r;
}

void CheckChildren(const World& w, const std::vector<Child>& expect, const std::vector<Node>& got, size_t depth, const MState& m) {
  auto show = [&] {
    std::ostringstream ss;
    ss << "children of " << Show(m) << ": expected " << Texts(expect) << " got ";
    for (const Node& n : got) ss << n.action() << " -> " << n.state() << "; ";
    return ss.str();
  };
  PBT_CHECK(got.size() == expect.size(), show());
  for (size_t i = 0; i < got.size(); i++) {
    PBT_CHECK(got[i].action() == expect[i].call && FromState(got[i].state()) == expect[i].state, "child " << i << " of " << show());
    CheckNode(w, got[i], expect[i].state, expect[i].call, depth + 1);
  }
}

}  // namespace

PBT_TARGET(C12_children, "a node below the root had children and an applicable action led back to a visited state") {
  Opts o = PlanOpts(c);
  const World w = PlanWorld(c, o);
  const bool closed = c.flip();
  std::unique_ptr<Pddl> p = Load(w, c, closed);
  // The root, made in one of the possible ways.
  MState m;
  auto root = std::make_unique<Node>();
  size_t depth = 0;
  switch (c.weighted({2, 2, 2})) {
    case 0: {
      m = Close(w, w.init);
      const Planner planner(*p);
      *root = planner.root();
      break;
    }
    case 1: {
      const MState start = GenState(c, w);
      m = Close(w, start);
      const Planner planner(*p, ToState(*p, start));
      *root = planner.root();
      break;
    }
    case 2: {
      m = Close(w, GenState(c, w));
      depth = static_cast<size_t>(c.range(0, 5));
      *root = depth == 0 && c.flip() ? Node(*p, ToState(*p, m)) : Node(*p, ToState(*p, m), depth);
      break;
    }
  }
  PBT_LOG(c, "root " << Show(m) << " at depth " << depth);
  CheckNode(w, *root, m, "", depth);
  std::vector<MState> path = {m};
  std::vector<Node> chain = {*root};
  if (c.flip()) root.reset();
  std::vector<Node> seen = chain;
  const int levels = c.range(1, 5);
  bool deep = false, pruned = false;
  for (int k = 0; k < levels; k++) {
    const std::vector<Child> expect = Children(w, path);
    const size_t d = depth + static_cast<size_t>(k);
    for (const Act& a : w.acts) {
      for (const Args& args : w.Tuples(a.params)) {
        if (Eval(w, a.pre, MakeEnv(a.params, args), path.back()) && std::find(path.begin(), path.end(), Next(w, path.back(), a, args)) != path.end()) pruned = true;
      }
    }
    const Node node = chain.back();
    const std::vector<Node> got = Iterate(node);
    CheckChildren(w, expect, got, d, path.back());
    deep |= k > 0 && !expect.empty();
    // Again, on a copy, and with a second iterator in between.
    switch (c.below(4)) {
      case 0: CheckChildren(w, expect, Iterate(node), d, path.back()); break;
      case 1: {
        const Node copy = node;
        CheckChildren(w, expect, Iterate(copy), d, path.back());
        break;
      }
      case 2: {
        auto it = node.begin();
        auto other = node.begin();
        std::vector<Node> a, b;
        while (it != node.end() || other != node.end()) {
          const bool first = it != node.end() && (other == node.end() || c.flip());
          if (first) {
            a.push_back(*it);
            ++it;
          } else {
            b.push_back(*other);
            ++other;
          }
        }
        CheckChildren(w, expect, a, d, path.back());
        CheckChildren(w, expect, b, d, path.back());
        break;
      }
      default: break;
    }
    seen.insert(seen.end(), got.begin(), got.end());
    if (expect.empty()) break;
    const size_t i = c.below(static_cast<uint32_t>(expect.size()));
    // Siblings that were iterated over in between do not matter.
    if (got.size() > 1 && c.flip()) {
      const size_t j = c.below(static_cast<uint32_t>(got.size()));
      std::vector<MState> other = path;
      other.push_back(expect[j].state);
      CheckChildren(w, Children(w, other), Iterate(got[j]), d + 1, expect[j].state);
    }
    path.push_back(expect[i].state);
    chain.push_back(got[i]);
    PBT_LOG(c, "descend into " << expect[i].call << " -> " << Show(expect[i].state));
  }
  // A node keeps its ancestors when they are gone.
  const Node last = chain.back();
  chain.clear();
  if (path.size() <= static_cast<size_t>(levels)) CheckChildren(w, Children(w, path), Iterate(last), depth + path.size() - 1, path.back());
  // Equality, order and hash follow the state.
  std::unordered_set<Node> unique;
  std::set<MState> unique_states;
  if (seen.size() > 40) seen.resize(40);
  for (const Node& x : seen) {
    unique.insert(x);
    unique_states.insert(FromState(x.state()));
    const Node again(*p, ToState(*p, FromState(x.state()), &c), x.depth() + 3);
    PBT_CHECK(again == x && !(again < x) && !(x < again) && std::hash<Node>{}(again) == std::hash<Node>{}(x), "two nodes with the state " << x.state() << " differ");
    for (const Node& y : seen) {
      const bool same = FromState(x.state()) == FromState(y.state());
      PBT_CHECK((x == y) == same, "nodes with states " << x.state() << " and " << y.state() << " compare equal: " << !same);
      PBT_CHECK((x < y) == (x.state() < y.state()), "the order of nodes differs from that of their states");
      if (same) PBT_CHECK(std::hash<Node>{}(x) == std::hash<Node>{}(y), "equal nodes have different hashes");
    }
  }
  PBT_CHECK(unique.size() == unique_states.size(), "an unordered set of nodes holds " << unique.size() << " of " << unique_states.size() << " states");
  if (deep && pruned) c.nontrivial();
}

namespace {

std::string Join(const std::vector<std::string>& v) {
  std::string r;
  for (const std::string& x : v) r += x + "; ";
  return r;
}

// Checks a returned path and gives its calls.
std::vector<std::string> CheckPlan(const World& w, const Pddl& p, const std::vector<Node>& path, const MState& root) {
  PBT_CHECK(!path.empty(), "an empty path");
  PBT_CHECK(FromState(path[0].state()) == root, "a path starts in " << path[0].state() << ", expected " << Show(root));
  std::vector<std::string> calls;
  for (size_t i = 1; i < path.size(); i++) {
    const State& before = path[i - 1].state();
    const std::string& call = path[i].action();
    calls.push_back(call);
    PBT_CHECK(path[i].depth() == i, "node " << i << " of a path has depth " << path[i].depth());
    PBT_CHECK(p.IsValidAction(before, call), "step " << i << " of the plan " << Join(calls) << " is not applicable in " << before);
    PBT_CHECK(p.NextState(before, call) == path[i].state(), "step " << i << " of the plan " << Join(calls) << " does not lead to " << path[i].state());
    PBT_CHECK(p.IsValidTuple(before, call, path[i].state()), "step " << i << " of the plan " << Join(calls) << " is not a valid tuple");
  }
  PBT_CHECK(Eval(w, w.goal, {}, FromState(path.back().state())), "the plan " << Join(calls) << " does not reach the goal");
  return calls;
}

struct Shorter {
  bool operator()(const SearchNode<Node>& a, const SearchNode<Node>& b) const { return a.ancestors.size() > b.ancestors.size(); }
};

}  // namespace

namespace {

// Searches for plans; gives the length of the longest one.
size_t CheckPlanning(pbt::Ctx& c, const World& w, Pddl& p, const State& start, const MState& root, size_t max_depth, size_t cap) {
  size_t longest = 0;
  Tree tree;
  size_t depth = max_depth;
  while (!Explore(w, root, depth, cap, &tree)) {
    if (depth == 0) throw pbt::Discard();
    depth--;
    tree = Tree();
  }
  PBT_LOG(c, "depth " << depth << " from " << Show(root) << ", " << tree.nodes << " nodes, " << tree.plans.size() << " plans");
  const Planner planner(p, start);
  // The plan validator starts from the problem's initial state.
  p.set_initial_state(p.ConsistentState(start));
  const int distance = Distance(w, root, static_cast<int>(depth));
  std::vector<std::vector<std::string>> plans;
  const BreadthFirstSearch<Node> bfs(planner.root(), depth);
  for (const std::vector<Node>& path : bfs) {
    plans.push_back(CheckPlan(w, p, path, root));
    PBT_CHECK(p.IsValidPlan(plans.back()), "the plan " << Join(plans.back()) << " is rejected by the plan validator");
    longest = std::max(longest, plans.back().size());
  }
  PBT_CHECK((distance >= 0) == !plans.empty(), "the goal is " << distance << " steps away but breadth-first search finds " << plans.size() << " plans within " << depth);
  if (distance >= 0) PBT_CHECK(static_cast<int>(plans[0].size()) == distance, "the first plan " << Join(plans[0]) << " takes " << plans[0].size() << " steps instead of " << distance);
  PBT_CHECK(plans == tree.plans, "breadth-first search finds " << plans.size() << " plans, expected " << tree.plans.size() << " (or in another order)");
  auto sorted = [](std::vector<std::vector<std::string>> v) {
    std::sort(v.begin(), v.end());
    return v;
  };
  {
    DepthFirstSearch<Node> dfs(planner.root(), depth);
    std::vector<std::vector<std::string>> found;
    auto end = dfs.end();
    for (auto it = dfs.begin(); it != end; ++it) found.push_back(CheckPlan(w, p, *it, root));
    PBT_CHECK(sorted(found) == sorted(tree.plans), "depth-first search finds " << found.size() << " plans, expected " << tree.plans.size());
  }
  {
    const Shorter shorter;
    AStar<Node, Shorter> a_star(shorter, planner.root(), depth);
    std::vector<std::vector<std::string>> found;
    auto end = a_star.end();
    for (auto it = a_star.begin(); it != end; ++it) found.push_back(CheckPlan(w, p, *it, root));
    PBT_CHECK(sorted(found) == sorted(tree.plans), "best-first search finds " << found.size() << " plans, expected " << tree.plans.size());
    for (size_t i = 1; i < found.size(); i++) PBT_CHECK(found[i - 1].size() <= found[i].size(), "best-first search by length finds a longer plan first");
  }
  return longest;
}

}  // namespace

PBT_TARGET(C13_planning, "a plan of two actions or more was found") {
  Opts o = PlanOpts(c);
  o.min_acts = 2;
  o.min_preds = 2;
  o.max_objs = 3;
  o.min_objs = std::min(o.min_objs, 3);
  o.max_ground = 24;
  World w = PlanWorld(c, o);
  if (c.chance(2, 3)) SteerGoal(c, &w);
  const bool closed = c.flip();
  std::unique_ptr<Pddl> p = Load(w, c, closed);
  MState root = w.init;
  if (c.chance(1, 3)) root = GenState(c, w);
  const State start = ToState(*p, root);
  root = Close(w, root);
  const size_t max_depth = static_cast<size_t>(c.range(0, 5));
  if (CheckPlanning(c, w, *p, start, root, max_depth, 400) >= 2) c.nontrivial();
}

namespace {

F AtomOf(const std::string& name, const std::vector<Term>& terms) {
  F f;
  f.kind = F::kAtom;
  f.name = name;
  f.terms = terms;
  return f;
}

F Not(const F& g) {
  F f;
  f.kind = F::kNot;
  f.subs = {g};
  return f;
}

F And(const std::vector<F>& subs) {
  F f;
  f.kind = F::kAnd;
  f.subs = subs;
  return f;
}

E Set(bool value, const std::string& name, const std::vector<Term>& terms) {
  E e;
  e.kind = value ? E::kAdd : E::kDel;
  e.name = name;
  e.terms = terms;
  return e;
}

std::vector<std::string> AddObjects(pbt::Ctx& c, World* w, int n) {
  w->types = {{"thing", -1, c.flip()}};
  std::vector<std::string> names;
  for (int i = 0; i < n; i++) {
    names.push_back("o" + std::to_string(i));
    w->objs.push_back({names.back(), 0, false});
  }
  return names;
}

// Flags that can be turned over one at a time: every path of different states
// is long, and every action leads back.
World Flags(pbt::Ctx& c, int n) {
  World w;
  const std::vector<std::string> names = AddObjects(c, &w, n);
  const Params one = {{"?x", 0}};
  const std::vector<Term> x = {{true, "?x"}};
  w.preds = {{"on", one, 0}};
  if (c.flip()) {
    Act a{"turn", one, And({}), {}};
    E off, on;
    off.kind = on.kind = E::kWhen;
    off.cond = AtomOf("on", x);
    off.subs = {Set(false, "on", x)};
    on.cond = Not(AtomOf("on", x));
    on.subs = {Set(true, "on", x)};
    a.eff = {off, on};
    w.acts = {a};
  } else {
    w.acts = {{"up", one, Not(AtomOf("on", x)), {Set(true, "on", x)}}, {"down", one, AtomOf("on", x), {Set(false, "on", x)}}};
  }
  for (const std::string& o : names) {
    if (c.flip()) w.init.insert({"on", o});
  }
  w.goal = And({});
  for (const std::string& o : names) {
    if (c.chance(1, 4)) continue;
    const F f = AtomOf("on", {{false, o}});
    w.goal.subs.push_back(c.flip() ? f : Not(f));
  }
  return w;
}

// A corridor of places with dead ends and a few shortcuts, walked in one or in
// both directions.
World Corridor(pbt::Ctx& c, int n) {
  World w;
  const std::vector<std::string> names = AddObjects(c, &w, n);
  const Params two = {{"?a", 0}, {"?b", 0}};
  const std::vector<Term> a = {{true, "?a"}}, b = {{true, "?b"}}, ab = {{true, "?a"}, {true, "?b"}};
  w.preds = {{"at", {{"?x", 0}}, 0}, {"link", two, 0}};
  Act act{"walk", two, And({AtomOf("at", a), AtomOf("link", ab)}), {Set(false, "at", a), Set(true, "at", b)}};
  if (c.chance(1, 3)) {  // links that break
    act.eff.push_back(Set(false, "link", ab));
  }
  w.acts = {act};
  const int main = n - c.range(0, n / 4);
  const bool back = c.flip();
  auto link = [&](int i, int j) {
    if (i == j) return;
    w.init.insert({"link", names[i], names[j]});
    if (back) w.init.insert({"link", names[j], names[i]});
  };
  for (int i = 0; i + 1 < main; i++) link(i, i + 1);
  for (int i = main; i < n; i++) link(c.range(0, main - 1), i);
  for (int k = c.range(0, 2); k > 0; k--) {
    const int i = c.range(0, main - 1);
    link(i, std::min(main - 1, i + c.range(2, 12)));
  }
  w.init.insert({"at", names[0]});
  w.goal = And({AtomOf("at", {{false, names[c.chance(1, 8) ? c.range(0, n - 1) : main - 1]}})});
  return w;
}

}  // namespace

PBT_TARGET(C12_walks, "the children of a node with more than 12 ancestors were compared, and an action led back to one of them") {
  const World w = c.flip() ? Flags(c, c.range(3, 6)) : Corridor(c, c.range(4, 20));
  NewWorld();
  const bool closed = c.flip();
  std::unique_ptr<Pddl> p = Load(w, c, closed);
  const size_t start = c.flip() ? 0 : static_cast<size_t>(c.pick(std::vector<int>{3, 120, 250, 32760, 65530, 2147483640}));
  std::vector<MState> path = {w.init};
  Node node = start == 0 && c.flip() ? Planner(*p).root() : Node(*p, ToState(*p, w.init), start);
  CheckNode(w, node, w.init, "", start);
  const int levels = c.range(5, 45);
  const bool copies = c.flip();
  std::vector<Node> kept;
  for (int k = 0; k < levels; k++) {
    const std::vector<Child> expect = Children(w, path);
    std::vector<Node> got;
    if (copies) {
      const Node copy = node;
      got = Iterate(copy);
    } else {
      got = Iterate(node);
    }
    CheckChildren(w, expect, got, start + static_cast<size_t>(k), path.back());
    if (k > 12 && Successors(w, path.back()).size() > expect.size()) c.nontrivial();
    if (expect.empty()) break;
    // Rather not into a dead end.
    size_t i = c.below(static_cast<uint32_t>(expect.size()));
    for (int tries = 0; tries < 3; tries++) {
      std::vector<MState> next = path;
      next.push_back(expect[i].state);
      if (!Children(w, next).empty()) break;
      i = (i + 1) % expect.size();
    }
    path.push_back(expect[i].state);
    PBT_LOG(c, "descend into " << expect[i].call);
    node = got[i];
    kept.push_back(node);
  }
  // The nodes on the way are as they were.
  for (size_t i = 0; i < kept.size(); i++) {
    PBT_CHECK(FromState(kept[i].state()) == path[i + 1] && kept[i].depth() == start + i + 1, "node " << i + 1 << " on the way changed to " << kept[i].state());
  }
  if (!kept.empty()) {
    const size_t i = c.below(static_cast<uint32_t>(kept.size()));
    const std::vector<MState> part(path.begin(), path.begin() + static_cast<int64_t>(i) + 2);
    CheckChildren(w, Children(w, part), Iterate(kept[i]), start + i + 1, part.back());
  }
}

PBT_TARGET(C13_long, "a plan of more than 8 actions was found") {
  const World w = c.chance(1, 3) ? Flags(c, c.range(2, 4)) : Corridor(c, c.range(8, 22));
  NewWorld();
  // Every node of a corridor tries all pairs of places.
  const size_t n = w.objs.size(), cap = n < 8 ? 600 : 24000 / (n * n);
  const bool closed = c.flip();
  std::unique_ptr<Pddl> p = Load(w, c, closed);
  const size_t longest = CheckPlanning(c, w, *p, ToState(*p, w.init), w.init, static_cast<size_t>(c.pick(std::vector<int>{5, 9, 16, 25, 50})), cap);
  if (longest > 9) c.nontrivial();
}
