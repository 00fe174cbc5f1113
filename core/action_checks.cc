// C18, C19, C20: applying actions and the query functions of a problem.
#include <algorithm>
#include <set>

#include "model.h"

using namespace model;     // NOLINT
using namespace symbolic;  // NOLINT

namespace {

Opts ActionOpts() {
  Opts o;
  o.min_acts = 1;
  o.min_objs = 1;
  o.min_preds = 1;
  o.max_ground = 120;
  o.formula_depth = 2;
  return o;
}

// The ground calls of an action, starting anywhere, at most n.
std::vector<Args> SomeTuples(pbt::Ctx& c, const World& w, const Params& params, size_t n) {
  std::vector<Args> all = w.Tuples(params), r;
  if (all.empty()) return r;
  const size_t start = c.below(static_cast<uint32_t>(all.size()));
  for (size_t i = 0; i < std::min(n, all.size()); i++) r.push_back(all[(start + i) % all.size()]);
  return r;
}

// What is known about a condition in a partial state: it must be taken as
// holding if all it mentions is known, it must not if some completion falsifies
// it, and otherwise it may.
enum class Fires { kNo, kMay, kMust };

bool TestsEmptyType(const World& w, const F& f) {
  if (f.kind == F::kType) {
    for (size_t i = 0; i < w.types.size(); i++) {
      if (w.types[i].name == f.name && w.ObjsOf(static_cast<int>(i)).empty()) return true;
    }
  }
  for (const F& g : f.subs) {
    if (TestsEmptyType(w, g)) return true;
  }
  return false;
}

Fires CondFires(pbt::Ctx& c, const World& w, const F& f, const Env& env, const MState& pos, const MState& neg, bool* unknown) {
  MState mentioned;
  Mentioned(w, f, env, &mentioned);
  std::vector<Atom> open;
  for (const Atom& a : mentioned) {
    if (!pos.count(a) && !neg.count(a)) open.push_back(a);
  }
  if (open.empty()) {
    if (!Eval(w, f, env, pos)) return Fires::kNo;
    return TestsEmptyType(w, f) ? Fires::kMay : Fires::kMust;
  }
  *unknown = true;
  const size_t n = open.size();
  for (size_t bits = 0; bits < (n <= 7 ? size_t{1} << n : size_t{48}); bits++) {
    MState s = pos;
    const bool inv = c.flip();
    for (size_t i = 0; i < n; i++) {
      if (n <= 7 ? (bits >> i & 1) : bits < n ? (bits == i) != inv : c.flip()) s.insert(open[i]);
    }
    if (!Eval(w, f, env, s)) return Fires::kNo;
  }
  return Fires::kMay;
}

// Effects on a partial state: those that must take place and those that may.
void PartialEffects(pbt::Ctx& c, const World& w, const std::vector<E>& eff, const Env& env, const MState& pos, const MState& neg, bool must,
                    MState* add, MState* del, MState* may_add, MState* may_del, bool* unknown, bool* known) {
  for (const E& e : eff) {
    if (e.kind == E::kAdd || e.kind == E::kDel) {
      const Atom a = GroundAtom(e.name, e.terms, env);
      (e.kind == E::kAdd ? may_add : may_del)->insert(a);
      if (must) (e.kind == E::kAdd ? add : del)->insert(a);
    } else if (e.kind == E::kForall) {
      for (const Args& args : w.Tuples(e.vars)) {
        Env inner = env;
        for (size_t i = 0; i < e.vars.size(); i++) inner.emplace_back(e.vars[i].name, args[i]);
        PartialEffects(c, w, e.subs, inner, pos, neg, must, add, del, may_add, may_del, unknown, known);
      }
    } else {
      bool u = false;
      const Fires f = CondFires(c, w, e.cond, env, pos, neg, &u);
      *unknown |= u;
      *known |= f == Fires::kMust;
      if (f == Fires::kNo) continue;
      PartialEffects(c, w, e.subs, env, pos, neg, must && f == Fires::kMust, add, del, may_add, may_del, unknown, known);
    }
  }
}

}  // namespace

PBT_TARGET(C18_apply, "an action with two effects or more changed the state, and one with a quantified or conditional effect was applied") {
  const World w = GenWorld(c, ActionOpts());
  std::unique_ptr<Pddl> p = Load(w, c);
  bool changed_any = false, rich = false;
  MState m = w.init;
  if (c.flip()) m = GenState(c, w);
  State s = ToState(*p, m, &c);
  const int steps = c.range(1, 10);
  for (int k = 0; k < steps; k++) {
    const Act& a = c.pick(w.acts);
    const Action& act = FindAction(*p, a.name);
    for (const Args& args : SomeTuples(c, w, a.params, 8)) {
      const std::string call = CallText(a.name, args);
      MState add, del;
      Effects(w, a.eff, MakeEnv(a.params, args), m, &add, &del);
      const bool bad = Contradicts(add, del);
      const MState next = ApplyTo(m, add, del);
      const std::vector<Object> objs = ToObjects(*p, args);
      const std::string what = call + " with effects " + Show(a.eff, w) + " in " + Show(m);
      const State out = act.Apply(s, objs);
      PBT_CHECK(FromState(s) == m, "the copying form of " << what << " changed its input to " << s);
      State in_place = s;
      const bool changed = act.Apply(objs, &in_place);
      PBT_CHECK(in_place == out && FromState(in_place) == FromState(out), what << ": in place gives " << in_place << ", copying gives " << out);
      const State facade = p->NextState(s, call);
      PBT_CHECK(facade == out, what << ": NextState gives " << facade << " instead of " << out);
      if (bad) {
        // Which of the contradictory effects wins is open, but nothing else
        // may change.
        for (const Atom& x : w.GroundAtoms()) {
          if (add.count(x) && del.count(x)) continue;
          PBT_CHECK(FromState(out).count(x) == next.count(x), what << ": " << Show(x) << " is " << FromState(out).count(x));
        }
        continue;
      }
      PBT_CHECK(FromState(out) == next, what << " gives " << Show(FromState(out)) << ", expected " << Show(next));
      PBT_CHECK(changed == (next != m), what << " reports a change: " << changed);
      changed_any |= changed && add.size() + del.size() >= 2;
      for (const E& e : a.eff) rich |= e.kind == E::kWhen || e.kind == E::kForall;
      // Applying again in place changes only what conditions now allow.
      if (c.chance(1, 4)) {
        MState add2, del2;
        Effects(w, a.eff, MakeEnv(a.params, args), next, &add2, &del2);
        if (!Contradicts(add2, del2)) {
          const bool changed2 = act.Apply(objs, &in_place);
          const MState next2 = ApplyTo(next, add2, del2);
          PBT_CHECK(FromState(in_place) == next2 && changed2 == (next2 != next), "applying " << call << " a second time gives " << in_place << " (reported " << changed2 << "), expected " << Show(next2));
        }
      }
    }
    // Move on.
    const std::vector<Args> one = SomeTuples(c, w, a.params, 1);
    if (one.empty()) continue;
    act.Apply(ToObjects(*p, one[0]), &s);
    m = FromState(s);
    PBT_LOG(c, "after " << CallText(a.name, one[0]) << ": " << Show(m));
  }
  if (changed_any && rich) c.nontrivial();
}

PBT_TARGET(C19_partial_apply, "an effect made an unknown proposition known and another one flipped, or a conditional effect with an unknown condition met one whose condition was known to hold") {
  Opts o = ActionOpts();
  o.conditional = c.flip();
  o.max_ground = 60;
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c);
  bool learned = false, flipped = false, mixed = false;
  const int states = c.range(1, 4);
  for (int k = 0; k < states; k++) {
    MState pos, neg;
    PartialState s;
    const int u = c.pick(std::vector<int>{2, 0, 8});
    for (const Atom& a : w.GroundAtoms()) {
      const int v = c.weighted({2, 2, u});
      if (v == 0) { neg.insert(a); s.erase(ToProp(*p, a)); }
      if (v == 1) { pos.insert(a); s.insert(ToProp(*p, a)); }
    }
    PBT_LOG(c, "partial state: true " << Show(pos) << " false " << Show(neg));
    for (const Act& a : w.acts) {
      const Action& act = FindAction(*p, a.name);
      for (const Args& args : SomeTuples(c, w, a.params, 6)) {
        MState add, del, may_add, may_del;
        bool unknown = false, known = false;
        PartialEffects(c, w, a.eff, MakeEnv(a.params, args), pos, neg, true, &add, &del, &may_add, &may_del, &unknown, &known);
        if (Contradicts(may_add, may_del)) continue;
        const bool exact = add == may_add && del == may_del;
        mixed |= exact && unknown && known;
        int code = 0;
        MState pos2 = pos, neg2 = neg;
        for (const Atom& x : add) {
          if (!pos.count(x)) code = std::max(code, neg.count(x) ? 2 : 1);
          pos2.insert(x);
          neg2.erase(x);
        }
        for (const Atom& x : del) {
          if (!neg.count(x)) code = std::max(code, pos.count(x) ? 2 : 1);
          neg2.insert(x);
          pos2.erase(x);
        }
        const std::vector<Object> objs = ToObjects(*p, args);
        const std::string what = CallText(a.name, args) + " with effects " + Show(a.eff, w) + " on true " + Show(pos) + " false " + Show(neg);
        const PartialState out = act.Apply(s, objs);
        PBT_CHECK(FromState(s.pos()) == pos && FromState(s.neg()) == neg, what << ": the copying form changed its input");
        PartialState in_place = s;
        const int got = act.Apply(objs, &in_place);
        PBT_CHECK(in_place == out, what << ": the in-place form differs");
        if (!exact) {
          // Conditions that hold in all completions although they mention
          // unknown propositions: their effects may take place or not.
          const MState out_pos = FromState(out.pos()), out_neg = FromState(out.neg());
          for (const Atom& x : w.GroundAtoms()) {
            if (may_add.count(x) > add.count(x) || may_del.count(x) > del.count(x)) continue;
            PBT_CHECK(out_pos.count(x) == pos2.count(x) && out_neg.count(x) == neg2.count(x), what << " gives true " << out.pos() << " false " << out.neg() << ", unexpected value of " << Show(x));
          }
          continue;
        }
        PBT_CHECK(FromState(out.pos()) == pos2 && FromState(out.neg()) == neg2, what << " gives true " << out.pos() << " false " << out.neg() << ", expected true " << Show(pos2) << " false " << Show(neg2));
        PBT_CHECK(got == code, what << " reports " << got << ", expected " << code);
        learned |= code >= 1;
        flipped |= code == 2;
        // A completion of the state goes to a completion of the result, unless
        // a condition that is not known to hold does hold there.
        if (unknown) continue;
        MState total = pos;
        for (const Atom& x : w.GroundAtoms()) {
          if (!pos.count(x) && !neg.count(x) && c.chance(1, 3)) total.insert(x);
        }
        const MState total2 = FromState(act.Apply(ToState(*p, total), objs));
        for (const Proposition& q : out.pos()) PBT_CHECK(total2.count(FromProp(q)), what << ": " << q << " is not true after the total application to " << Show(total));
        for (const Proposition& q : out.neg()) PBT_CHECK(!total2.count(FromProp(q)), what << ": " << q << " is true after the total application to " << Show(total));
      }
    }
  }
  if ((learned && flipped) || mixed) c.nontrivial();
}

PBT_TARGET(C20_facade, "some but not all ground actions were applicable and a plan of two actions or more was valid or failed at a later step") {
  Opts o = ActionOpts();
  o.max_objs = 4;
  o.derived = c.flip();
  o.axioms = c.chance(1, 4) ? 2 : 0;
  o.min_acts = 0;
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c, c.flip());
  bool some = false, none = false, plans = false;
  const int states = c.range(1, 3);
  for (int k = 0; k < states; k++) {
    MState m = c.chance(1, 3) ? FromState(p->initial_state()) : GenState(c, w);
    const State s = ToState(*p, m, &c);
    const std::set<std::string> text = ToStrings(m);
    PBT_LOG(c, "state " << Show(m));
    PBT_CHECK(Stringify(s) == text, "Stringify of " << s);
    // Applicable actions.
    std::vector<std::string> listed;
    for (const Act& a : w.acts) {
      const Action& act = FindAction(*p, a.name);
      std::vector<Args> args_listed;
      for (const Args& args : w.Tuples(a.params)) {
        const std::string call = CallText(a.name, args);
        const bool valid = Eval(w, a.pre, MakeEnv(a.params, args), m);
        (valid ? some : none) = true;
        PBT_CHECK(act.IsValid(s, ToObjects(*p, args)) == valid, "IsValid of " << call << " in " << Show(m) << " is " << !valid);
        if (valid) {
          listed.push_back(call);
          args_listed.push_back(args);
        }
        if (c.chance(1, 8)) PBT_CHECK(p->IsValidAction(s, call) == valid, "IsValidAction of " << call << " in " << Show(m) << " is " << !valid);
      }
      const auto got = p->ListValidArguments(s, act);
      PBT_CHECK(Stringify(got) == args_listed, "ListValidArguments of " << a.name << " in " << Show(m));
      PBT_CHECK(p->ListValidArguments(text, a.name) == args_listed, "ListValidArguments of " << a.name << " in the text of " << Show(m));
      for (const auto& g : got) PBT_CHECK(Stringify(g) == FromObjects(g), "Stringify of arguments");
    }
    PBT_CHECK(p->ListValidActions(s) == listed, "ListValidActions in " << Show(m));
    PBT_CHECK(p->ListValidActions(text) == listed, "ListValidActions in the text of " << Show(m));
    const bool goal = Eval(w, w.goal, {}, m);
    PBT_CHECK(p->IsGoalSatisfied(s) == goal && p->IsGoalSatisfied(text) == goal, "IsGoalSatisfied in " << Show(m));
    // Next states.
    for (const Act& a : w.acts) {
      const Action& act = FindAction(*p, a.name);
      for (const Args& args : SomeTuples(c, w, a.params, 3)) {
        const std::string call = CallText(a.name, args);
        const std::vector<Object> objs = ToObjects(*p, args);
        const State expect = p->DerivedState(act.Apply(s, objs));
        const State next = p->NextState(s, call);
        PBT_CHECK(next == expect, "NextState of " << call << " in " << Show(m) << " is " << next << ", expected " << expect);
        PBT_CHECK(FromState(s) == m, "NextState changed its input");
        const bool valid = act.IsValid(s, objs);
        const std::set<std::string> next_text = Stringify(next);
        PBT_CHECK(p->IsValidTuple(s, call, next) == valid, "IsValidTuple with the next state of " << call << " in " << Show(m) << " is " << !valid);
        PBT_CHECK(p->IsValidTuple(text, call, next_text) == valid, "IsValidTuple with the text of the next state of " << call << " in " << Show(m) << " is " << !valid);
        // A next state that differs is never valid.
        MState other = FromState(next);
        const std::vector<Atom> all = w.GroundAtoms();
        if (!all.empty()) {
          const Atom x = c.pick(all);
          if (!other.erase(x)) other.insert(x);
          PBT_CHECK(!p->IsValidTuple(s, call, ToState(*p, other)), "IsValidTuple accepts " << Show(other) << " after " << call << " in " << Show(m));
          PBT_CHECK(!p->IsValidTuple(text, call, ToStrings(other)), "IsValidTuple accepts the text of " << Show(other) << " after " << call << " in " << Show(m));
        }
        PBT_CHECK(p->IsValidTuple(s, call, s) == (valid && expect == s), "IsValidTuple with the unchanged state of " << call);
      }
    }
  }
  // Sequences from any state and plans from the initial state.
  const int seqs = c.range(0, 4);
  for (int k = 0; k < seqs && !w.acts.empty(); k++) {
    const bool plan = c.chance(2, 3);
    State s = plan ? p->initial_state() : ToState(*p, GenState(c, w));
    const State start = s;
    std::vector<std::string> calls;
    bool valid = true;
    const int n = c.range(0, 6);
    size_t failed_at = 0;
    for (int i = 0; i < n; i++) {
      std::vector<std::string> next = p->ListValidActions(s);
      std::string call;
      if (!next.empty() && !c.chance(1, 12)) {
        call = c.pick(next);
      } else {
        const Act& a = c.pick(w.acts);
        const std::vector<Args> one = SomeTuples(c, w, a.params, 1);
        if (one.empty()) continue;
        call = CallText(a.name, one[0]);
      }
      calls.push_back(call);
      const auto parsed = Action::Parse(*p, call);
      const bool ok = parsed.first.IsValid(s, parsed.second);
      if (!ok && valid) failed_at = calls.size();
      valid &= ok;
      parsed.first.Apply(parsed.second, &s);
      s = p->DerivedState(s);
    }
    std::string text;
    for (const std::string& x : calls) text += x + "; ";
    PBT_LOG(c, "sequence " << text << " from " << start);
    const State end = p->ApplyActions(start, calls);
    PBT_CHECK(end == s, "ApplyActions of " << text << " from " << start << " gives " << end << ", expected " << s);
    State step = start;
    for (const std::string& x : calls) step = p->NextState(step, x);
    PBT_CHECK(step == s, "the next states of " << text << " from " << start << " end in " << step << ", expected " << s);
    if (plan) {
      const bool expect = valid && Eval(w, w.goal, {}, FromState(s));
      PBT_CHECK(p->IsValidPlan(calls) == expect, "IsValidPlan of " << text << " is " << !expect);
      PBT_CHECK(p->initial_state() == start, "validating a plan changed the initial state");
      if (calls.size() >= 2 && (expect || failed_at >= 2)) plans = true;
    }
  }
  // Every prefix of a goal-reaching random walk is judged by its own end.
  if (!w.acts.empty()) {
    State s = p->initial_state();
    std::vector<std::string> calls;
    for (int i = 0; i < 6; i++) {
      PBT_CHECK(p->IsValidPlan(calls) == Eval(w, w.goal, {}, FromState(s)), "IsValidPlan of the first " << i << " actions of a walk");
      const std::vector<std::string> next = p->ListValidActions(s);
      if (next.empty()) break;
      calls.push_back(c.pick(next));
      s = p->NextState(s, calls.back());
    }
  }
  // The initial state can be replaced.
  const MState m = GenState(c, w);
  p->set_initial_state(ToState(*p, m));
  PBT_CHECK(FromState(p->initial_state()) == m, "set_initial_state");
  PBT_CHECK(p->IsValidPlan({}) == Eval(w, w.goal, {}, m), "IsValidPlan of the empty plan after set_initial_state");
  std::vector<std::string> names;
  for (const Act& a : w.acts) names.push_back(a.name);
  PBT_CHECK(Stringify(p->actions()) == names, "Stringify of the actions");
  if (some && none && plans) c.nontrivial();
}
