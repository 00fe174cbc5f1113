#include "plan_model.h"

#include <algorithm>
#include <functional>
#include <map>
#include <set>

namespace model {

Opts PlanOpts(pbt::Ctx& c) {
  Opts o;
  o.max_objs = 4;
  o.max_preds = 4;
  o.max_arity = 2;
  o.max_ground = 60;
  o.formula_depth = 2;
  o.pre_depth_small = c.flip();
  o.derived = c.chance(1, 4);
  o.axioms = c.chance(1, 4) ? 2 : 0;
  o.conditional = c.chance(1, 3);
  o.forall_effects = c.chance(1, 3);
  if (!c.chance(1, 8)) {
    o.min_objs = c.range(1, 3);
    o.min_acts = c.range(1, 2);
    o.min_preds = c.range(1, 3);
  }
  return o;
}

namespace {

// The effects of no grounding contradict each other in any state.
bool CanContradict(const World& w, const Act& a) {
  std::function<void(const std::vector<E>&, const Env&, MState*, MState*)> all = [&](const std::vector<E>& eff, const Env& env, MState* add, MState* del) {
    for (const E& e : eff) {
      if (e.kind == E::kAdd) add->insert(GroundAtom(e.name, e.terms, env));
      if (e.kind == E::kDel) del->insert(GroundAtom(e.name, e.terms, env));
      if (e.kind == E::kWhen) all(e.subs, env, add, del);
      if (e.kind == E::kForall) {
        for (const Args& x : w.Tuples(e.vars)) {
          Env inner = env;
          for (size_t i = 0; i < x.size(); i++) inner.emplace_back(e.vars[i].name, x[i]);
          all(e.subs, inner, add, del);
        }
      }
    }
  };
  for (const Args& args : w.Tuples(a.params)) {
    MState add, del;
    all(a.eff, MakeEnv(a.params, args), &add, &del);
    if (Contradicts(add, del)) return true;
  }
  return false;
}

std::map<MState, std::vector<Child>> g_successors;

}  // namespace

void NewWorld() { g_successors.clear(); }

World PlanWorld(pbt::Ctx& c, const Opts& o) {
  NewWorld();
  World w = GenWorld(c, o);
  for (Act& a : w.acts) {
    // Give up the effects that can contradict others.
    while (!a.eff.empty() && CanContradict(w, a)) a.eff.pop_back();
    if (c.chance(1, 3)) a.pre = F();
  }
  return w;
}

MState Next(const World& w, const MState& m, const Act& a, const Args& args) {
  MState add, del;
  Effects(w, a.eff, MakeEnv(a.params, args), m, &add, &del);
  // Axiom contexts are about basic propositions, so triggering them in a state
  // closed before gives the closure.
  return Derive(w, Close(w, ApplyTo(m, add, del)));
}

const std::vector<Child>& Successors(const World& w, const MState& m) {
  auto it = g_successors.find(m);
  if (it != g_successors.end()) return it->second;
  std::vector<Child> r;
  for (const Act& a : w.acts) {
    for (const Args& args : w.Tuples(a.params)) {
      if (!Eval(w, a.pre, MakeEnv(a.params, args), m)) continue;
      r.push_back({CallText(a.name, args), Next(w, m, a, args)});
    }
  }
  return g_successors[m] = std::move(r);
}

std::vector<Child> Children(const World& w, const std::vector<MState>& path) {
  std::vector<Child> r;
  for (const Child& x : Successors(w, path.back())) {
    if (std::find(path.begin(), path.end(), x.state) == path.end()) r.push_back(x);
  }
  return r;
}

void SteerGoal(pbt::Ctx& c, World* w) {
  MState m = Close(*w, w->init);
  std::vector<MState> path = {m};
  for (int i = c.range(1, 4); i > 0; i--) {
    const std::vector<Child> next = Children(*w, path);
    if (next.empty()) break;
    path.push_back(c.pick(next).state);
  }
  F goal;
  goal.kind = F::kAnd;
  for (const Atom& a : w->GroundAtoms()) {
    if ((path.front().count(a) > 0) == (path.back().count(a) > 0) && !c.chance(1, 4)) continue;
    F f;
    f.kind = F::kAtom;
    f.name = a[0];
    for (size_t i = 1; i < a.size(); i++) f.terms.push_back({false, a[i]});
    if (!path.back().count(a)) {
      F g;
      g.kind = F::kNot;
      g.subs = {f};
      f = g;
    }
    goal.subs.push_back(f);
  }
  w->goal = goal;
}

// All paths that end at their first goal, breadth first.  False if the tree is
// too big.
bool Explore(const World& w, const MState& root, size_t max_depth, size_t cap, Tree* out) {
  struct P {
    std::vector<MState> states;
    std::vector<std::string> calls;
  };
  std::vector<P> level = {{{root}, {}}};
  for (size_t d = 0; d <= max_depth; d++) {
    std::vector<P> next;
    for (const P& x : level) {
      if (++out->nodes > cap) return false;
      if (Eval(w, w.goal, {}, x.states.back())) {
        out->plans.push_back(x.calls);
        out->states.push_back(x.states);
        continue;
      }
      if (d == max_depth) continue;
      for (const Child& y : Children(w, x.states)) {
        P z = x;
        z.states.push_back(y.state);
        z.calls.push_back(y.call);
        next.push_back(std::move(z));
        if (next.size() > cap) return false;
      }
    }
    level = std::move(next);
  }
  return true;
}

// Distance to the goal in the graph of states, or -1.
int Distance(const World& w, const MState& root, int max_depth) {
  std::set<MState> visited = {root};
  std::vector<MState> level = {root};
  for (int d = 0; d <= max_depth; d++) {
    std::vector<MState> next;
    for (const MState& m : level) {
      if (Eval(w, w.goal, {}, m)) return d;
      for (const Child& x : Successors(w, m)) {
        if (visited.insert(x.state).second) next.push_back(x.state);
      }
    }
    level = std::move(next);
  }
  return -1;
}

}  // namespace model
