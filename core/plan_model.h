// Reference semantics of planning over the generated worlds.
#ifndef VERIF_CORE_PLAN_MODEL_H_
#define VERIF_CORE_PLAN_MODEL_H_

#include <string>
#include <vector>

#include "model.h"

namespace model {

struct Child {
  std::string call;
  MState state;
};

Opts PlanOpts(pbt::Ctx& c);
// A world whose actions never contradict themselves.
World PlanWorld(pbt::Ctx& c, const Opts& o);
// Replaces the goal by the atoms that a walk of a few steps makes true or false.
void SteerGoal(pbt::Ctx& c, World* w);
MState Next(const World& w, const MState& m, const Act& a, const Args& args);
// Forgets the successors of the world before; PlanWorld does so too.
void NewWorld();
// The results of all applicable calls, in the order of actions and arguments;
// remembered until the next world.
const std::vector<Child>& Successors(const World& w, const MState& m);
// The successors that are not on the path.
std::vector<Child> Children(const World& w, const std::vector<MState>& path);

struct Tree {
  std::vector<std::vector<std::string>> plans;  // goal paths in breadth-first order
  std::vector<std::vector<MState>> states;      // the states of each plan
  size_t nodes = 0;
};

// All paths that end at their first goal, breadth first.  False if the tree is
// too big.
bool Explore(const World& w, const MState& root, size_t max_depth, size_t cap, Tree* out);
// Distance to the goal in the graph of states, or -1.
int Distance(const World& w, const MState& root, int max_depth);

}  // namespace model

#endif
