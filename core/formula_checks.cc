// C07, C16, C17, C24, C25, C27: parameter generators, formulas and normal forms.
#include <algorithm>
#include <cmath>
#include <set>

#include "model.h"
#include "symbolic/normal_form.h"

using namespace model;     // NOLINT
using namespace symbolic;  // NOLINT

namespace {

// --- C07 ---------------------------------------------------------------------------
void CheckGenerator(pbt::Ctx& c, const Pddl& p, const ParameterGenerator& g, const std::vector<Args>& expect, const std::string& what) {
  PBT_CHECK(&g.pddl() == &p, what << ": pddl() is another domain");
  PBT_CHECK(g.size() == expect.size() && g.empty() == expect.empty(), what << ": size " << g.size() << ", empty " << g.empty() << " for " << expect.size() << " tuples");
  size_t i = 0;
  for (const std::vector<Object>& args : g) {
    PBT_CHECK(i < expect.size(), what << ": gives more than " << expect.size() << " tuples");
    PBT_CHECK(FromObjects(args) == expect[i], what << ": tuple " << i << " is " << CallText("", FromObjects(args)) << ", expected " << CallText("", expect[i]));
    i++;
  }
  PBT_CHECK(i == expect.size(), what << ": gives " << i << " of " << expect.size() << " tuples");
  for (int k = 0; k < 3 && !expect.empty(); k++) {
    const size_t j = c.below(static_cast<uint32_t>(expect.size()));
    PBT_CHECK(FromObjects(g.at(static_cast<int>(j))) == expect[j], what << ": at(" << j << ")");
    PBT_CHECK(FromObjects(g[j]) == expect[j], what << ": [" << j << "]");
    PBT_CHECK(g.find(ToObjects(p, expect[j])) == j, what << ": find of tuple " << j << " gives " << g.find(ToObjects(p, expect[j])));
  }
}

// One parameter generator with its expected tuples.
struct Gen {
  std::unique_ptr<ParameterGenerator> g;
  std::vector<Args> expect;
  std::string what;
};

}  // namespace

PBT_TARGET(C07_generators, "a generator with two parameters or more and two tuples or more was copied, moved or assigned") {
  Opts o;
  o.max_arity = 3;
  o.formula_depth = 1;
  o.many = 60;
  o.derived = c.chance(1, 4);
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c);
  std::vector<Gen> gens;
  auto add = [&](const ParameterGenerator& g, const Params& ps, const std::string& what) {
    CheckGenerator(c, *p, g, w.Tuples(ps), what);
    gens.push_back({std::make_unique<ParameterGenerator>(g), w.Tuples(ps), "copy of the generator of " + what});
  };
  PBT_CHECK(p->actions().size() == w.acts.size() && p->predicates().size() == w.preds.size(), "the numbers of actions and predicates");
  for (size_t i = 0; i < w.acts.size(); i++) {
    add(p->actions()[i].parameter_generator(), w.acts[i].params, "action " + w.acts[i].name);
    PBT_CHECK(&p->actions()[i].pddl() == p.get(), "pddl() of action " << w.acts[i].name);
    // A generator built from the same parameters, from some of them and from repeated ones.
    std::vector<Object> ps = p->actions()[i].parameters();
    Params mp = w.acts[i].params;
    if (!ps.empty() && c.flip()) {
      ps.push_back(ps[0]);
      mp.push_back(mp[0]);
    }
    if (ps.size() > 1 && c.flip()) {
      ps.erase(ps.begin());
      mp.erase(mp.begin());
    }
    if (w.Tuples(mp).size() < 400) add(ParameterGenerator(*p, ps), mp, "parameters of action " + w.acts[i].name);
  }
  for (size_t i = 0; i < w.preds.size(); i++) {
    add(p->predicates()[i].parameter_generator(), w.preds[i].params, "predicate " + w.preds[i].name);
    PBT_CHECK(&p->predicates()[i].pddl() == p.get(), "pddl() of predicate " << w.preds[i].name);
  }
  for (size_t i = 0; i < p->derived_predicates().size() && i < w.rules.size(); i++) {
    add(p->derived_predicates()[i].parameter_generator(), w.rules[i].params, "derived predicate " + p->derived_predicates()[i].name());
    PBT_CHECK(&p->derived_predicates()[i].pddl() == p.get(), "pddl() of a derived predicate");
  }
  const ParameterGenerator none;
  PBT_CHECK(none.size() == 0 && none.empty() && none.begin() == none.end(), "a default-constructed generator is not empty");
  bool moved = false;
  const int ops = gens.empty() ? 0 : c.range(0, 12);
  for (int k = 0; k < ops; k++) {
    const size_t i = c.below(static_cast<uint32_t>(gens.size())), j = c.below(static_cast<uint32_t>(gens.size()));
    if (!gens[i].g) continue;
    const int op = c.weighted({3, 3, 3, 3, 1, 1, 1});
    PBT_LOG(c, "operation " << op << " on " << i << " (" << gens[i].what << ") and " << j << " (" << gens[j].what << ")");
    moved |= !gens[i].expect.empty() && gens[i].expect.size() >= 2 && gens[i].expect[0].size() >= 2;
    switch (op) {
      case 0: {  // copy, then destroy the source
        auto g = std::make_unique<ParameterGenerator>(*gens[i].g);
        if (c.flip()) CheckGenerator(c, *p, *gens[i].g, gens[i].expect, "source of a copy");
        gens[i].g = std::move(g);
        break;
      }
      case 1: {  // move, then destroy the source
        auto g = std::make_unique<ParameterGenerator>(std::move(*gens[i].g));
        gens[i].g = std::move(g);
        break;
      }
      case 2:  // copy assignment, also to itself
        if (!gens[j].g) gens[j].g = std::make_unique<ParameterGenerator>();
        *gens[j].g = *gens[i].g;
        gens[j].expect = gens[i].expect;
        CheckGenerator(c, *p, *gens[i].g, gens[i].expect, "source of an assignment");
        break;
      case 3:  // move assignment
        if (i == j) break;
        if (!gens[j].g) gens[j].g = std::make_unique<ParameterGenerator>();
        *gens[j].g = std::move(*gens[i].g);
        gens[j].expect = gens[i].expect;
        gens[i].g.reset();
        if (c.flip()) {
          // The source is usable again after an assignment.
          gens[i].g = std::make_unique<ParameterGenerator>(*gens[j].g);
        }
        break;
      case 4: {  // through a vector that grows
        std::vector<ParameterGenerator> v;
        for (int n = 0; n < 5; n++) v.push_back(*gens[i].g);
        v.erase(v.begin());
        v.insert(v.begin(), *gens[i].g);
        for (const ParameterGenerator& g : v) CheckGenerator(c, *p, g, gens[i].expect, "generator in a vector");
        *gens[i].g = v[c.below(5)];
        break;
      }
      case 5: {  // an iterator survives on its own generator while copies come and go
        ParameterGenerator g(*gens[i].g);
        auto it = g.begin();
        size_t n = 0;
        while (it != g.end()) {
          PBT_CHECK(n < gens[i].expect.size() && FromObjects(*it) == gens[i].expect[n], "tuple " << n << " while copying");
          { ParameterGenerator h(g); ParameterGenerator h2(std::move(h)); }
          ++it;
          n++;
        }
        PBT_CHECK(n == gens[i].expect.size(), "tuples while copying");
        break;
      }
      case 6: {  // actions and predicates carry their generator along
        if (p->actions().empty()) break;
        const size_t a = c.below(static_cast<uint32_t>(p->actions().size()));
        auto copy = std::make_unique<Action>(p->actions()[a]);
        Action copy2 = *copy;
        copy.reset();
        CheckGenerator(c, *p, copy2.parameter_generator(), w.Tuples(w.acts[a].params), "copied action");
        copy2 = Action(*p, w.acts[a].name);
        CheckGenerator(c, *p, copy2.parameter_generator(), w.Tuples(w.acts[a].params), "assigned action");
        break;
      }
    }
    if (gens[j].g) CheckGenerator(c, *p, *gens[j].g, gens[j].expect, gens[j].what);
    if (gens[i].g) CheckGenerator(c, *p, *gens[i].g, gens[i].expect, gens[i].what);
  }
  for (Gen& g : gens) {
    if (g.g) CheckGenerator(c, *p, *g.g, g.expect, g.what);
  }
  if (moved) c.nontrivial();
}

namespace {

Opts FormulaOpts() {
  Opts o;
  o.min_preds = 1;
  o.min_objs = 1;
  o.max_objs = 4;
  o.max_ground = 80;
  o.formula_depth = 4;
  o.min_acts = 1;
  return o;
}

size_t Depth(const F& f) {
  size_t d = 0;
  for (const F& g : f.subs) d = std::max(d, Depth(g));
  return d + 1;
}

}  // namespace

PBT_TARGET(C16_formulas, "a formula of depth 2 or more took both truth values") {
  const World w = GenWorld(c, FormulaOpts());
  std::unique_ptr<Pddl> p = Load(w, c);
  const int states = c.range(1, 5);
  std::map<std::string, std::set<bool>> values;
  for (int k = 0; k < states; k++) {
    const MState m = GenState(c, w);
    const State s = ToState(*p, m, &c);
    PBT_LOG(c, "state " << Show(m));
    const bool goal = Eval(w, w.goal, {}, m);
    PBT_CHECK(p->goal()(s) == goal, "goal " << Show(w.goal, w) << " in " << Show(m) << " is " << !goal);
    PBT_CHECK(p->IsGoalSatisfied(s) == goal && p->IsGoalSatisfied(ToStrings(m)) == goal, "IsGoalSatisfied of " << Show(w.goal, w) << " in " << Show(m));
    PBT_CHECK(p->goal()(s) == goal, "the second evaluation differs");
    if (Depth(w.goal) > 1) values["goal"].insert(goal);
    for (size_t i = 0; i < w.acts.size(); i++) {
      const Act& a = w.acts[i];
      const Action& act = FindAction(*p, a.name);
      std::vector<Args> tuples = w.Tuples(a.params);
      // All the arguments, in a random rotation.
      const size_t start = tuples.empty() ? 0 : c.below(static_cast<uint32_t>(tuples.size()));
      for (size_t j = 0; j < std::min<size_t>(tuples.size(), 25); j++) {
        const Args& args = tuples[(start + j) % tuples.size()];
        const std::vector<Object> objs = ToObjects(*p, args);
        const bool pre = Eval(w, a.pre, MakeEnv(a.params, args), m);
        PBT_CHECK(act.preconditions()(s, objs) == pre, "precondition " << Show(a.pre, w) << " of " << CallText(a.name, args) << " in " << Show(m) << " is " << !pre);
        PBT_CHECK(act.IsValid(s, objs) == pre, "IsValid of " << CallText(a.name, args));
        if (Depth(a.pre) > 1) values[a.name].insert(pre);
      }
    }
    PBT_CHECK(FromState(s) == m, "evaluation changed the state " << Show(m) << " to " << s);
    // Interleaved evaluation of copies gives the same again.
    const Formula copy = p->goal();
    PBT_CHECK(copy(s) == goal, "a copy of the goal evaluates differently");
  }
  for (const auto& v : values) {
    if (v.second.size() == 2) c.nontrivial();
  }
}

// --- C17 ----------------------------------------------------------------------------
namespace {

bool HasRigidUnknown(const World& w, const F& f) {
  if (f.kind == F::kType) {
    for (size_t i = 0; i < w.types.size(); i++) {
      if (w.types[i].name == f.name && w.ObjsOf(static_cast<int>(i)).empty()) return true;
    }
  }
  for (const F& g : f.subs) {
    if (HasRigidUnknown(w, g)) return true;
  }
  return false;
}
bool HasRigid(const F& f) {
  if (f.kind == F::kType || f.kind == F::kEq) return true;
  for (const F& g : f.subs) {
    if (HasRigid(g)) return true;
  }
  return false;
}

// Calls fn for total states that agree with pos and neg on everything and vary
// over the unknown atoms: all of them if there are few, random ones otherwise.
template <typename Fn>
void Completions(pbt::Ctx& c, const MState& pos, const std::vector<Atom>& unknown, size_t max_exact, int samples, Fn fn) {
  if (unknown.size() <= max_exact) {
    for (size_t bits = 0; bits < (size_t{1} << unknown.size()); bits++) {
      MState s = pos;
      for (size_t i = 0; i < unknown.size(); i++) {
        if (bits >> i & 1) s.insert(unknown[i]);
      }
      fn(s);
    }
    return;
  }
  for (int k = 0; k < samples; k++) {
    MState s = pos;
    const int den = c.pick(std::vector<int>{2, 4, 8});
    const bool inv = c.flip();
    for (const Atom& a : unknown) {
      if (c.chance(1, den) != inv) s.insert(a);
    }
    fn(s);
  }
}

}  // namespace

PBT_TARGET(C17_partial_formulas, "a formula over some unknown proposition still had a value") {
  Opts o = FormulaOpts();
  o.max_ground = 40;
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c);
  const int states = c.range(1, 4);
  for (int k = 0; k < states; k++) {
    MState pos, neg;
    std::vector<Atom> unknown;
    const std::vector<Atom> all = w.GroundAtoms();
    const int u = c.pick(std::vector<int>{1, 4, 0, 12});
    PartialState s;
    for (const Atom& a : all) {
      const int v = c.weighted({3, 3, u});
      if (v == 0) { neg.insert(a); s.erase(ToProp(*p, a)); }
      if (v == 1) { pos.insert(a); s.insert(ToProp(*p, a)); }
      if (v == 2) unknown.push_back(a);
    }
    PBT_LOG(c, "partial state: true " << Show(pos) << " unknown " << Show(MState(unknown.begin(), unknown.end())));
    auto check = [&](const F& f, const Env& env, const std::optional<bool>& got, const std::string& what) {
      MState mentioned;
      Mentioned(w, f, env, &mentioned);
      std::vector<Atom> open;
      for (const Atom& a : unknown) {
        if (mentioned.count(a)) open.push_back(a);
      }
      if (got.has_value()) {
        if (!open.empty()) c.nontrivial();
        Completions(c, pos, open, 7, 30, [&](const MState& t) {
          PBT_CHECK(Eval(w, f, env, t) == *got, what << " is " << *got << " on the partial state with true " << Show(pos) << " and unknown "
                    << Show(MState(unknown.begin(), unknown.end())) << " but not on its completion " << Show(t));
        });
      } else {
        PBT_CHECK(!open.empty() || HasRigidUnknown(w, f), what << " is undetermined although the partial state fixes all it mentions: true " << Show(pos));
      }
    };
    check(w.goal, {}, p->goal()(s), "goal " + Show(w.goal, w));
    for (const Act& a : w.acts) {
      const Action& act = FindAction(*p, a.name);
      const std::vector<Args> tuples = w.Tuples(a.params);
      const size_t start = tuples.empty() ? 0 : c.below(static_cast<uint32_t>(tuples.size()));
      for (size_t j = 0; j < std::min<size_t>(tuples.size(), 12); j++) {
        const Args& args = tuples[(start + j) % tuples.size()];
        const std::vector<Object> objs = ToObjects(*p, args);
        const std::optional<bool> v = act.preconditions()(s, objs);
        check(a.pre, MakeEnv(a.params, args), v, "precondition " + Show(a.pre, w) + " of " + CallText(a.name, args));
        const std::optional<bool> v2 = act.IsValid(s, objs);
        PBT_CHECK(v2 == v, "IsValid of " << CallText(a.name, args) << " on a partial state differs from its precondition");
      }
    }
    PBT_CHECK(FromState(s.pos()) == pos && FromState(s.neg()) == neg, "evaluation changed the partial state");
  }
}

// --- C24, C25 ------------------------------------------------------------------------
namespace {

// Upper bounds on the conjunctions of a normal form and their sizes, and on the
// work of building it with negation by distribution.
struct Bound {
  double count = 1, width = 1, work = 1;
};
Bound NegateBound(const Bound& b) {
  const double count = std::min(1e9, std::pow(std::max(1.0, b.width), b.count));
  return {count, b.count, b.work + count * b.count};
}
Bound DnfBound(const World& w, const F& f) {
  if (f.subs.empty() && (f.kind == F::kAtom || f.kind == F::kEq || f.kind == F::kType)) return {};
  if (f.kind == F::kNot) return NegateBound(DnfBound(w, f.subs[0]));
  double times = 1;
  for (const Param& q : f.vars) times *= static_cast<double>(w.ObjsOf(q.type).size());
  const bool conj = f.kind == F::kAnd || f.kind == F::kForall;
  Bound r = {conj ? 1.0 : 0.0, 0, 1};
  for (const F& g : f.subs) {
    const Bound b = DnfBound(w, g);
    for (double k = 0; k < times; k++) {
      if (conj) {
        r.count *= std::max(1.0, b.count);
        r.width += b.width;
        r.work += b.work + r.count * r.width;
      } else {
        r.count += b.count;
        r.width = std::max(r.width, b.width);
        r.work += b.work;
      }
      if (r.count > 1e8 || r.work > 1e8) return {1e9, 1e9, 1e9};
    }
  }
  r.work += r.count * r.width;
  return r;
}
bool TooBig(const World& w, const F& f) { return NegateBound(DnfBound(w, f)).work > 4000; }

bool RigidHolds(const World& w, const Atom& a) {
  F f;
  f.kind = a[0] == "=" ? F::kEq : F::kType;
  f.name = a[0];
  for (size_t i = 1; i < a.size(); i++) f.terms.push_back({false, a[i]});
  return Eval(w, f, {}, {});
}
bool AtomHolds(const World& w, const Proposition& q, const MState& s) {
  const Atom a = FromProp(q);
  if (a[0] == "=" || w.FindPred(a[0]) == nullptr) return RigidHolds(w, a);
  return s.count(a) == 1;
}
bool ConjHolds(const World& w, const PartialState& conj, const MState& s) {
  for (const Proposition& q : conj.pos()) {
    if (!AtomHolds(w, q, s)) return false;
  }
  for (const Proposition& q : conj.neg()) {
    if (AtomHolds(w, q, s)) return false;
  }
  return true;
}
bool DnfHolds(const World& w, const DisjunctiveFormula& dnf, const MState& s) {
  if (dnf.empty()) return true;
  for (const PartialState& conj : dnf.conjunctions) {
    if (ConjHolds(w, conj, s)) return true;
  }
  return false;
}
std::string Show(const std::optional<DisjunctiveFormula>& dnf) {
  if (!dnf) return "nothing";
  std::ostringstream ss;
  ss << *dnf;
  return ss.str();
}

// Compares a normal form with the (possibly negated) formula over the states
// that matter.
void CheckDnf(pbt::Ctx& c, const World& w, const F& f, const Env& env, bool negated, const std::optional<DisjunctiveFormula>& dnf, const std::string& what) {
  MState mentioned;
  Mentioned(w, f, env, &mentioned);
  const std::vector<Atom> atoms(mentioned.begin(), mentioned.end());
  if (dnf) {
    for (const PartialState& conj : dnf->conjunctions) {
      PBT_CHECK(conj.IsConsistent(), what << " has an inconsistent conjunction: " << Show(dnf));
    }
  }
  size_t num_true = 0, num_false = 0;
  Completions(c, {}, atoms, 8, 60, [&](const MState& s) {
    const bool v = Eval(w, f, env, s) != negated;
    (v ? num_true : num_false)++;
    if (dnf) {
      PBT_CHECK(DnfHolds(w, *dnf, s) == v, what << " is " << v << " in " << model::Show(s) << " but its normal form is not: " << Show(dnf));
    } else {
      PBT_CHECK(!v, what << " is true in " << model::Show(s) << " but has no normal form");
    }
  });
  if (atoms.size() <= 8 && num_true == 0 && !HasRigid(f)) {
    PBT_CHECK(!dnf, what << " is unsatisfiable but has the normal form " << Show(dnf));
  }
  if (num_true > 0 && num_false > 0 && dnf && dnf->conjunctions.size() >= 2) c.nontrivial();
}

Opts NormalOpts() {
  Opts o = FormulaOpts();
  o.max_objs = 3;
  o.max_ground = 30;
  o.formula_depth = 3;
  return o;
}

}  // namespace

PBT_TARGET(C24_normal_forms, "a formula that is neither valid nor unsatisfiable with two conjunctions or more") {
  World w = GenWorld(c, NormalOpts());
  if (TooBig(w, w.goal)) w.goal = F();
  w.acts.resize(std::min<size_t>(w.acts.size(), 2));
  std::unique_ptr<Pddl> p = Load(w, c);
  {
    std::optional<DisjunctiveFormula> dnf = DisjunctiveFormula::NormalizeGoal(*p);
    CheckDnf(c, w, w.goal, {}, false, dnf, "goal " + model::Show(w.goal, w));
    const std::optional<DisjunctiveFormula> again = DisjunctiveFormula::Create(*p, p->goal(), {}, {});
    PBT_CHECK(again == dnf, "Create and NormalizeGoal differ: " << Show(again) << " and " << Show(dnf));
    if (dnf) {
      const std::optional<DisjunctiveFormula> neg = Negate(*p, DisjunctiveFormula(*dnf));
      CheckDnf(c, w, w.goal, {}, true, neg, "negated goal (not " + model::Show(w.goal, w) + ")");
    }
  }
  for (const Act& a : w.acts) {
    const Action& act = FindAction(*p, a.name);
    if (TooBig(w, a.pre)) continue;
    const std::vector<Args> tuples = w.Tuples(a.params);
    const size_t start = tuples.empty() ? 0 : c.below(static_cast<uint32_t>(tuples.size()));
    for (size_t j = 0; j < std::min<size_t>(tuples.size(), 4); j++) {
      const Args& args = tuples[(start + j) % tuples.size()];
      const std::string what = "precondition " + model::Show(a.pre, w) + " of " + CallText(a.name, args);
      const std::optional<DisjunctiveFormula> dnf = DisjunctiveFormula::Create(*p, act.preconditions(), act.parameters(), ToObjects(*p, args));
      CheckDnf(c, w, a.pre, MakeEnv(a.params, args), false, dnf, what);
      if (dnf) {
        const std::optional<DisjunctiveFormula> neg = Negate(*p, DisjunctiveFormula(*dnf));
        CheckDnf(c, w, a.pre, MakeEnv(a.params, args), true, neg, "negated " + what);
      }
    }
  }
}

PBT_TARGET(C25_conditions, "an action with a satisfiable precondition and two effects or more, not contradictory") {
  Opts o = NormalOpts();
  o.conditional = false;
  World w = GenWorld(c, o);
  w.goal = F();
  for (Act& a : w.acts) {
    if (TooBig(w, a.pre)) a.pre = F();
  }
  std::unique_ptr<Pddl> p = Load(w, c);
  for (const Act& a : w.acts) {
    const Action& act = FindAction(*p, a.name);
    const std::vector<Args> tuples = w.Tuples(a.params);
    const size_t start = tuples.empty() ? 0 : c.below(static_cast<uint32_t>(tuples.size()));
    for (size_t j = 0; j < std::min<size_t>(tuples.size(), 5); j++) {
      const Args& args = tuples[(start + j) % tuples.size()];
      const std::string call = CallText(a.name, args);
      const Env env = MakeEnv(a.params, args);
      const std::vector<Object> objs = ToObjects(*p, args);
      PBT_LOG(c, call);
      const std::optional<DisjunctiveFormula> pre = DisjunctiveFormula::NormalizePreconditions(*p, call);
      CheckDnf(c, w, a.pre, env, false, pre, "precondition of " + call);
      const std::optional<DisjunctiveFormula> post = DisjunctiveFormula::NormalizePostconditions(*p, call);
      const auto both = DisjunctiveFormula::NormalizeConditions(*p, call);
      if (pre && post) {
        PBT_CHECK(both.has_value(), "NormalizeConditions gives nothing for " << call);
        PBT_CHECK(both->first == *pre && both->second == *post, "NormalizeConditions differs from the separate forms for " << call);
      } else {
        PBT_CHECK(!both.has_value(), "NormalizeConditions gives a pair for " << call << " although one of its conditions has no normal form");
      }
      MState add, del;
      Effects(w, a.eff, env, {}, &add, &del);
      if (Contradicts(add, del)) {
        PBT_CHECK(!post.has_value(), "the contradictory effects of " << call << " have the postcondition " << Show(post));
        continue;
      }
      PBT_CHECK(post.has_value(), "the effects of " << call << " have no postcondition");
      MState pos, neg;
      if (add.empty() && del.empty()) {
        PBT_CHECK(post->empty(), "no effects, but the postcondition is " << Show(post));
      } else {
        PBT_CHECK(post->conjunctions.size() == 1, "the postcondition of " << call << " has " << post->conjunctions.size() << " conjunctions");
        PBT_CHECK(FromState(post->conjunctions[0].pos()) == add && FromState(post->conjunctions[0].neg()) == del,
                  "the postcondition of " << call << " is " << Show(post) << ", expected true " << model::Show(add) << " false " << model::Show(del));
      }
      bool sat = false;
      const int states = 3;
      for (int k = 0; k < states; k++) {
        const MState m = GenState(c, w);
        const State s = ToState(*p, m);
        const bool valid = act.IsValid(s, objs);
        sat |= valid;
        PBT_CHECK(valid == (pre && DnfHolds(w, *pre, m)), call << " is applicable: " << valid << " in " << model::Show(m) << ", but its normalised precondition says otherwise: " << Show(pre));
        const State next = act.Apply(s, objs);
        PBT_CHECK(DnfHolds(w, *post, FromState(next)), "after " << call << " the state is " << next << " which does not satisfy " << Show(post));
      }
      if (sat && add.size() + del.size() >= 2) c.nontrivial();
    }
  }
}

// --- C27 ---------------------------------------------------------------------------
PBT_TARGET(C27_printing, "a printed formula of depth 2 or more with a quantifier or a variable") {
  World w = GenWorld(c, FormulaOpts());
  std::unique_ptr<Pddl> p = Load(w, c);
  // Read the printed formulas back in the place of the originals.
  const std::string marker = "REPLACED";
  World w2 = w;
  std::string domain, problem;
  {
    // Write the same problem with each formula replaced by a marker atom.
    auto mark = [&](int i) {
      F f;
      f.kind = F::kAtom;
      f.name = marker + std::to_string(i);
      return f;
    };
    for (size_t i = 0; i < w2.acts.size(); i++) w2.acts[i].pre = mark(static_cast<int>(i));
    w2.goal = mark(99);
    domain = DomainText(w2);
    problem = ProblemText(w2);
    auto replace = [](std::string* text, const std::string& from, const std::string& to) {
      const size_t at = text->find(from);
      if (at == std::string::npos) throw std::logic_error("marker not found");
      text->replace(at, from.size(), to);
    };
    for (size_t i = 0; i < w.acts.size(); i++) {
      const std::string text = FindAction(*p, w.acts[i].name).preconditions().to_string();
      PBT_LOG(c, w.acts[i].name << " prints " << text);
      replace(&domain, "(" + marker + std::to_string(i) + ")", text);
      if (Depth(w.acts[i].pre) > 1 && !w.acts[i].params.empty()) c.nontrivial();
    }
    std::ostringstream ss;
    ss << p->goal();
    PBT_CHECK(ss.str() == p->goal().to_string(), "the printed goal differs from its text");
    PBT_LOG(c, "goal prints " << ss.str());
    replace(&problem, "(" + marker + "99)", ss.str());
  }
  std::unique_ptr<Pddl> q;
  try {
    q = LoadText(domain, problem);
  } catch (const std::exception& e) {
    PBT_FAIL("the printed formulas cannot be read back: " << e.what() << "\n" << domain << problem);
  }
  const int states = c.range(1, 5);
  for (int k = 0; k < states; k++) {
    const MState m = GenState(c, w);
    const State s = ToState(*p, m);
    PBT_CHECK(q->goal()(s) == Eval(w, w.goal, {}, m), "goal " << Show(w.goal, w) << " printed as " << p->goal() << " has another value in " << Show(m));
    for (const Act& a : w.acts) {
      const Action& act = FindAction(*q, a.name);
      const std::vector<Args> tuples = w.Tuples(a.params);
      for (size_t j = 0; j < std::min<size_t>(tuples.size(), 20); j++) {
        const Args& args = tuples[j];
        PBT_CHECK(act.IsValid(s, ToObjects(*q, args)) == Eval(w, a.pre, MakeEnv(a.params, args), m),
                  "precondition " << Show(a.pre, w) << " printed as " << FindAction(*p, a.name).preconditions() << " has another value for " << CallText("", args) << " in " << Show(m));
      }
    }
  }
  // A second round gives the same text.
  PBT_CHECK(q->goal().to_string() == p->goal().to_string(), "the goal text changes when read back");
  auto names = [](const Params& ps) {
    Args r;
    for (const Param& x : ps) r.push_back(x.name);
    return r;
  };
  for (const Act& a : w.acts) {
    const Action& act = FindAction(*p, a.name);
    std::ostringstream ss;
    ss << act;
    PBT_CHECK(act.to_string() == CallText(a.name, names(a.params)) && ss.str() == act.to_string(), "action " << a.name << " prints " << act.to_string() << " and " << ss.str());
    const std::vector<Args> tuples = w.Tuples(a.params);
    if (!tuples.empty()) {
      const Args args = c.pick(tuples);
      PBT_CHECK(act.to_string(ToObjects(*p, args)) == CallText(a.name, args), CallText(a.name, args) << " prints " << act.to_string(ToObjects(*p, args)));
    }
  }
  for (size_t i = 0; i < w.preds.size(); i++) {
    const Predicate& pred = p->predicates()[i];
    std::ostringstream ss;
    ss << pred;
    const std::string expect = CallText(w.preds[i].name, names(w.preds[i].params));
    PBT_CHECK(pred.to_string() == expect && ss.str() == expect, "predicate " << expect << " prints " << pred.to_string() << " and " << ss.str());
    const std::vector<Args> tuples = w.Tuples(w.preds[i].params);
    if (!tuples.empty()) {
      const Args args = c.pick(tuples);
      PBT_CHECK(pred.to_string(ToObjects(*p, args)) == CallText(w.preds[i].name, args), CallText(w.preds[i].name, args) << " prints " << pred.to_string(ToObjects(*p, args)));
    }
  }
  // The parameter lists carry the names and types.
  for (size_t i = 0; i < w.preds.size(); i++) {
    const std::vector<Object>& ps = p->predicates()[i].parameters();
    PBT_CHECK(FromObjects(ps) == names(w.preds[i].params), "parameters of predicate " << w.preds[i].name);
  }
}
