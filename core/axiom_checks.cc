// C21, C22, C23: derived predicates and axioms.
#include <algorithm>
#include <optional>
#include <set>

#include "model.h"

using namespace model;     // NOLINT
using namespace symbolic;  // NOLINT

namespace {

std::vector<Args> SomeTuples(pbt::Ctx& c, const World& w, const Params& params, size_t n) {
  std::vector<Args> all = w.Tuples(params), r;
  if (all.empty()) return r;
  const size_t start = c.below(static_cast<uint32_t>(all.size()));
  for (size_t i = 0; i < std::min(n, all.size()); i++) r.push_back(all[(start + i) % all.size()]);
  return r;
}

bool IsDerived(const World& w, const Atom& a) {
  const Pred* q = w.FindPred(a[0]);
  return q != nullptr && q->level > 0;
}

}  // namespace

PBT_TARGET(C21_derived, "deriving added a proposition that depends on another derived proposition or removed one that was unsupported") {
  Opts o;
  o.derived = true;
  o.min_preds = 2;
  o.min_objs = 1;
  o.max_objs = 5;
  o.max_ground = 120;
  o.formula_depth = 3;
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c);
  // The same rules in another order.
  World w2 = w;
  for (size_t i = w2.rules.size(); i > 1; i--) std::swap(w2.rules[i - 1], w2.rules[c.below(static_cast<uint32_t>(i))]);
  std::unique_ptr<Pddl> p2 = Load(w2, c);
  PBT_CHECK(p->derived_predicates().size() == w.rules.size(), "the problem has " << p->derived_predicates().size() << " derived predicates for " << w.rules.size() << " rules");
  const int states = c.range(1, 5);
  for (int k = 0; k < states; k++) {
    const MState m = GenState(c, w, c.flip());
    const MState expect = Derive(w, m);
    const State s = ToState(*p, m, &c);
    PBT_LOG(c, "state " << Show(m));
    const State d = p->DerivedState(s);
    PBT_CHECK(FromState(s) == m, "DerivedState changed its input");
    PBT_CHECK(FromState(d) == expect, "deriving " << Show(m) << " gives " << Show(FromState(d)) << ", expected " << Show(expect));
    PBT_CHECK(p->DerivedState(d) == d, "deriving twice differs");
    PBT_CHECK(FromState(p2->DerivedState(ToState(*p2, m))) == expect, "another order of the rules gives another result for " << Show(m));
    State in_place = s;
    const bool changed = DerivedPredicate::Apply(p->derived_predicates(), &in_place);
    PBT_CHECK(in_place == d, "deriving in place gives " << in_place << ", expected " << d);
    PBT_CHECK(changed == (expect != m), "deriving in place reports a change: " << changed << " for " << Show(m));
    PBT_CHECK(DerivedPredicate::Apply(s, p->derived_predicates()) == d, "the copying form differs");
    // The derived propositions of before do not matter.
    MState basic;
    for (const Atom& a : m) {
      if (!IsDerived(w, a)) basic.insert(a);
    }
    MState other = basic;
    for (const Atom& a : w.GroundAtoms()) {
      if (IsDerived(w, a) && c.flip()) other.insert(a);
    }
    PBT_CHECK(FromState(p->DerivedState(ToState(*p, other))) == expect, "the derived propositions of before matter: " << Show(other) << " gives " << p->DerivedState(ToState(*p, other)) << ", expected " << Show(expect));
    // Next states are derived.
    for (const Act& a : w.acts) {
      for (const Args& args : SomeTuples(c, w, a.params, 2)) {
        MState add, del;
        Effects(w, a.eff, MakeEnv(a.params, args), m, &add, &del);
        if (Contradicts(add, del)) continue;
        const MState next = Derive(w, ApplyTo(m, add, del));
        const State got = p->NextState(s, CallText(a.name, args));
        PBT_CHECK(FromState(got) == next, "NextState of " << CallText(a.name, args) << " in " << Show(m) << " is " << Show(FromState(got)) << ", expected " << Show(next));
      }
    }
    bool removed = false, deep = false;
    for (const Atom& a : m) removed |= !expect.count(a);
    World shallow = w;
    shallow.rules.clear();
    for (const Atom& a : expect) {
      if (!IsDerived(w, a)) continue;
      // Not supported by the basic propositions alone.
      bool direct = false;
      for (const Rule& r : w.rules) {
        if (w.preds[r.pred].name != a[0]) continue;
        const std::vector<Args> ts = w.Tuples(r.params);
        const Args args(a.begin() + 1, a.end());
        if (std::find(ts.begin(), ts.end(), args) != ts.end() && Eval(w, r.body, MakeEnv(r.params, args), basic)) direct = true;
      }
      deep |= !direct;
    }
    if (removed || deep) c.nontrivial();
  }
}

namespace {

Opts AxiomOpts(pbt::Ctx& c) {
  Opts o;
  o.axioms = 4;
  o.min_preds = 2;
  o.min_objs = 1;
  o.max_objs = 4;
  o.max_ground = 80;
  o.max_arity = 2;
  o.formula_depth = 2;
  o.name_clash = c.chance(3, 4);
  return o;
}

// Known values of a partial state.
struct Partial {
  MState pos, neg;
};
Partial FromPartial(const PartialState& s) { return {FromState(s.pos()), FromState(s.neg())}; }

bool IsRigidAtom(const World& w, const Atom& a) { return a[0] == "=" || w.FindPred(a[0]) == nullptr; }
bool RigidHolds(const World& w, const Atom& a) {
  F f;
  f.kind = a[0] == "=" ? F::kEq : F::kType;
  f.name = a[0];
  for (size_t i = 1; i < a.size(); i++) f.terms.push_back({false, a[i]});
  return Eval(w, f, {}, {});
}

// The three-valued closure: what follows, instance by instance, from contexts
// that are known to hold.  Nothing if that is contradictory.
std::optional<Partial> ClosePartial(const World& w, Partial s) {
  for (bool changed = true; changed;) {
    changed = false;
    for (const Ax& x : w.axioms) {
      for (const Args& args : w.Tuples(x.params)) {
        const Env env = MakeEnv(x.params, args);
        const Atom ctx = GroundAtom(x.context.name, x.context.terms, env);
        if (!(x.pos ? s.pos : s.neg).count(ctx)) continue;
        MState add, del;
        Effects(w, x.eff, env, {}, &add, &del);
        for (const Atom& a : add) {
          if (IsRigidAtom(w, a)) {
            if (!RigidHolds(w, a)) return {};
            continue;
          }
          if (s.neg.count(a)) return {};
          changed |= s.pos.insert(a).second;
        }
        for (const Atom& a : del) {
          if (IsRigidAtom(w, a)) {
            if (RigidHolds(w, a)) return {};
            continue;
          }
          if (s.pos.count(a)) return {};
          changed |= s.neg.insert(a).second;
        }
      }
    }
  }
  return s;
}

PartialState ToPartial(const Pddl& p, const Partial& s) {
  PartialState r;
  for (const Atom& a : s.pos) r.insert(ToProp(p, a));
  for (const Atom& a : s.neg) r.erase(ToProp(p, a));
  return r;
}
Partial GenPartial(pbt::Ctx& c, const World& w) {
  Partial s;
  const int u = c.pick(std::vector<int>{2, 0, 8});
  const int t = c.range(1, 3);
  for (const Atom& a : w.GroundAtoms()) {
    const int v = c.weighted({2, t, u});
    if (v == 0) s.neg.insert(a);
    if (v == 1) s.pos.insert(a);
  }
  return s;
}

// Applies the instances whose context becomes true between two states, and
// those that become true by that.
MState Trigger(const World& w, const MState& before, MState s) {
  MState changed;
  for (const Atom& a : w.GroundAtoms()) {
    if (before.count(a) != s.count(a)) changed.insert(a);
  }
  while (!changed.empty()) {
    MState next;
    for (const Ax& x : w.axioms) {
      for (const Args& args : w.Tuples(x.params)) {
        const Env env = MakeEnv(x.params, args);
        const Atom ctx = GroundAtom(x.context.name, x.context.terms, env);
        if (!changed.count(ctx) || (s.count(ctx) > 0) != x.pos) continue;
        MState add, del;
        Effects(w, x.eff, env, s, &add, &del);
        for (const Atom& a : add) {
          if (s.insert(a).second) next.insert(a);
        }
        for (const Atom& a : del) {
          if (s.erase(a)) next.insert(a);
        }
      }
    }
    changed = std::move(next);
  }
  return s;
}

}  // namespace

PBT_TARGET(C22_closure, "closing a state changed it by two propositions or more, or a state was judged consistent although some context holds") {
  Opts o = AxiomOpts(c);
  const World w = GenWorld(c, o);
  const bool closed_init = c.flip();
  std::unique_ptr<Pddl> p = Load(w, c, closed_init);
  PBT_CHECK(p->axioms().size() == w.axioms.size(), "the number of axioms");
  const MState init = closed_init ? Close(w, w.init) : w.init;
  PBT_CHECK(FromState(p->initial_state()) == init, "the initial state is " << p->initial_state() << ", expected " << Show(init) << (closed_init ? " (closed)" : ""));
  bool active = false;
  const int states = c.range(1, 5);
  for (int k = 0; k < states; k++) {
    MState m = GenState(c, w);
    if (c.chance(1, 3)) {
      // Near a consistent state.
      m = Close(w, m);
      const std::vector<Atom> all = w.GroundAtoms();
      if (!all.empty() && c.flip()) {
        const Atom a = c.pick(all);
        if (!m.erase(a)) m.insert(a);
      }
    }
    const State s = ToState(*p, m, &c);
    PBT_LOG(c, "state " << Show(m));
    const MState closed = Close(w, m);
    const bool valid = AxiomsHold(w, m);
    PBT_CHECK(p->IsValidState(s) == valid, "IsValidState of " << Show(m) << " is " << !valid);
    const State got = p->ConsistentState(s);
    PBT_CHECK(FromState(s) == m, "ConsistentState changed its input");
    PBT_CHECK(FromState(got) == closed, "closing " << Show(m) << " gives " << Show(FromState(got)) << ", expected " << Show(closed));
    PBT_CHECK(AxiomsHold(w, FromState(got)) && p->IsValidState(got), "the closure of " << Show(m) << " is not judged consistent");
    PBT_CHECK(p->ConsistentState(got) == got, "closing twice differs");
    // Axioms one by one.
    for (size_t i = 0; i < w.axioms.size(); i++) {
      World one = w;
      one.axioms = {w.axioms[i]};
      const bool holds = AxiomsHold(one, m);
      PBT_CHECK(p->axioms()[i]->IsConsistent(s) == holds, "IsConsistent of axiom " << i << " in " << Show(m) << " is " << !holds);
      State next = s;
      const bool changed = p->axioms()[i]->Apply(&next);
      PBT_CHECK(p->axioms()[i]->Apply(s) == next, "the two forms of applying axiom " << i << " differ");
      if (holds) PBT_CHECK(next == s && !changed, "axiom " << i << " changes " << Show(m) << " in which it holds, to " << next << " (reported " << changed << ")");
      if (!holds) PBT_CHECK(next != s && changed, "axiom " << i << " does not change " << Show(m) << " in which it is violated");
      PBT_CHECK(AxiomsHold(one, FromState(next)), "axiom " << i << " does not hold after it was applied to " << Show(m));
      // It adds nothing that the axioms do not imply.
      for (const Atom& a : w.GroundAtoms()) {
        const bool before = m.count(a) > 0, after = FromState(next).count(a) > 0;
        PBT_CHECK(before == after || after == (closed.count(a) > 0), "axiom " << i << " changes " << Show(a) << " in " << Show(m));
      }
      for (const Args& args : w.Tuples(w.axioms[i].params)) active |= holds && Eval(w, w.axioms[i].context, MakeEnv(w.axioms[i].params, args), m) == w.axioms[i].pos;
    }
    size_t diff = 0;
    for (const Atom& a : w.GroundAtoms()) diff += m.count(a) != closed.count(a);
    if (diff >= 2) c.nontrivial();
  }
  if (active) c.nontrivial();
}

PBT_TARGET(C22_rigid, "an axiom with an equality or type consequence was violated in one state and held in another") {
  Opts o = AxiomOpts(c);
  o.axiom_eq = true;
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c);
  bool rigid = false;
  for (const Ax& x : w.axioms) {
    for (const E& e : x.eff) rigid |= IsRigidAtom(w, {e.name});
  }
  bool yes = false, no = false;
  const int states = c.range(2, 8);
  for (int k = 0; k < states; k++) {
    MState m = GenState(c, w);
    if (c.chance(2, 3)) m = Close(w, m);
    const State s = ToState(*p, m, &c);
    PBT_LOG(c, "state " << Show(m));
    const bool valid = AxiomsHold(w, m);
    (valid ? yes : no) = true;
    PBT_CHECK(p->IsValidState(s) == valid, "IsValidState of " << Show(m) << " is " << !valid);
    const Partial full = {m, [&] {
      MState n;
      for (const Atom& a : w.GroundAtoms()) {
        if (!m.count(a)) n.insert(a);
      }
      return n;
    }()};
    PBT_CHECK(p->IsValidState(ToPartial(*p, full)) == valid, "IsValidState of the partial state that fixes all of " << Show(m) << " is " << !valid);
    const MState closed = Close(w, m);
    if (AxiomsHold(w, closed)) {
      const State got = p->ConsistentState(s);
      PBT_CHECK(FromState(got) == closed, "closing " << Show(m) << " gives " << Show(FromState(got)) << ", expected " << Show(closed));
    }
  }
  if (rigid && yes && no) c.nontrivial();
}

PBT_TARGET(C22_partial, "closing a partial state made an unknown proposition known, or found a contradiction") {
  Opts o = AxiomOpts(c);
  o.max_ground = 40;
  o.axiom_eq = c.chance(1, 3);
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c);
  const int states = c.range(1, 5);
  for (int k = 0; k < states; k++) {
    Partial m = GenPartial(c, w);
    if (c.chance(2, 3)) {
      // Mostly consistent ones: some of the values of a closed state.
      const MState total = Close(w, GenState(c, w));
      const int keep = c.range(1, 4);
      m = Partial();
      for (const Atom& a : w.GroundAtoms()) {
        if (!c.chance(keep, 5)) continue;
        (total.count(a) ? m.pos : m.neg).insert(a);
      }
    }
    const PartialState s = ToPartial(*p, m);
    const std::string what = "true " + Show(m.pos) + " false " + Show(m.neg);
    PBT_LOG(c, "partial state " << what);
    const std::optional<Partial> closed = ClosePartial(w, m);
    const bool valid = p->IsValidState(s);
    PBT_CHECK(valid == closed.has_value(), "IsValidState of " << what << " is " << valid);
    bool failed = false;
    PartialState got;
    try {
      got = p->ConsistentState(s);
    } catch (const std::exception&) {
      failed = true;
    }
    PBT_CHECK(failed == !closed.has_value(), "closing " << what << (failed ? " fails" : " does not fail"));
    const Partial after = FromPartial(s);
    PBT_CHECK(after.pos == m.pos && after.neg == m.neg, "closing changed its input");
    if (closed) {
      const Partial g = FromPartial(got);
      PBT_CHECK(g.pos == closed->pos && g.neg == closed->neg, "closing " << what << " gives true " << Show(g.pos) << " false " << Show(g.neg) << ", expected true " << Show(closed->pos) << " false " << Show(closed->neg));
      PBT_CHECK(p->ConsistentState(got) == got && p->IsValidState(got), "closing twice differs for " << what);
      if (g.pos != m.pos || g.neg != m.neg) c.nontrivial();
    } else {
      c.nontrivial();
    }
    for (size_t i = 0; i < w.axioms.size(); i++) {
      World one = w;
      one.axioms = {w.axioms[i]};
      const std::optional<Partial> alone = ClosePartial(one, m);
      // An axiom's effects trigger the other axioms, so a refutation may be
      // theirs; it is never wrong as long as all of them are meant.
      if (alone && closed) PBT_CHECK(p->axioms()[i]->IsConsistent(s), "IsConsistent of axiom " << i << " refutes " << what);
      if (!alone) PBT_CHECK(!p->axioms()[i]->IsConsistent(s), "IsConsistent of axiom " << i << " accepts " << what);
    }
  }
}

PBT_TARGET(C23_triggers, "an action triggered a consequence") {
  Opts o = AxiomOpts(c);
  o.min_acts = 1;
  o.conditional = c.flip();
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c, c.flip());
  bool triggered = false;
  MState m = Close(w, c.flip() ? w.init : GenState(c, w));
  const int steps = c.range(1, 6);
  for (int k = 0; k < steps; k++) {
    const State s = ToState(*p, m, &c);
    PBT_LOG(c, "state " << Show(m));
    std::vector<MState> nexts;
    if (c.flip()) {
      // In any other state only the instances whose context has just become
      // true are applied.
      const MState any = GenState(c, w);
      const State s_any = ToState(*p, any);
      for (const Act& a : w.acts) {
        for (const Args& args : SomeTuples(c, w, a.params, 3)) {
          MState add, del;
          Effects(w, a.eff, MakeEnv(a.params, args), any, &add, &del);
          if (Contradicts(add, del)) continue;
          const MState direct = ApplyTo(any, add, del);
          const MState expect = Trigger(w, any, direct);
          const State out = FindAction(*p, a.name).Apply(s_any, ToObjects(*p, args));
          PBT_CHECK(FromState(out) == expect, CallText(a.name, args) << " with effects " << Show(a.eff, w) << " in the unclosed state " << Show(any) << " gives " << Show(FromState(out)) << ", expected " << Show(expect));
          triggered |= direct != expect;
        }
      }
    }
    for (const Act& a : w.acts) {
      const Action& act = FindAction(*p, a.name);
      for (const Args& args : SomeTuples(c, w, a.params, 6)) {
        const std::string call = CallText(a.name, args);
        MState add, del;
        Effects(w, a.eff, MakeEnv(a.params, args), m, &add, &del);
        if (Contradicts(add, del)) continue;
        const MState direct = ApplyTo(m, add, del);
        const MState expect = Close(w, direct);
        const std::vector<Object> objs = ToObjects(*p, args);
        const std::string what = call + " with effects " + Show(a.eff, w) + " in " + Show(m);
        const State out = act.Apply(s, objs);
        PBT_CHECK(FromState(s) == m, "applying " << call << " changed its input");
        PBT_CHECK(FromState(out) == expect, what << " gives " << Show(FromState(out)) << ", expected " << Show(expect));
        State in_place = s;
        const bool changed = act.Apply(objs, &in_place);
        PBT_CHECK(in_place == out && changed == (expect != m), what << " in place gives " << in_place << " and reports a change: " << changed);
        PBT_CHECK(FromState(p->NextState(s, call)) == expect, what << ": NextState differs");
        PBT_CHECK(p->IsValidState(out), what << " leads to a state that is judged inconsistent: " << out);
        triggered |= direct != expect;
        nexts.push_back(expect);
      }
    }
    if (nexts.empty()) break;
    m = c.pick(nexts);
  }
  if (triggered) c.nontrivial();
}

PBT_TARGET(C23_partial_triggers, "an action in a closed partial state triggered a consequence") {
  Opts o = AxiomOpts(c);
  o.min_acts = 1;
  o.conditional = false;
  o.max_ground = 40;
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c);
  const int states = c.range(1, 4);
  for (int k = 0; k < states; k++) {
    // Some of the values of a closed state, closed.
    const MState total = Close(w, GenState(c, w));
    Partial m;
    const int keep = c.range(1, 5);
    for (const Atom& a : w.GroundAtoms()) {
      if (c.chance(keep, 5)) (total.count(a) ? m.pos : m.neg).insert(a);
    }
    m = *ClosePartial(w, m);
    const PartialState s = ToPartial(*p, m);
    for (const Act& a : w.acts) {
      const Action& act = FindAction(*p, a.name);
      for (const Args& args : SomeTuples(c, w, a.params, 5)) {
        MState add, del;
        Effects(w, a.eff, MakeEnv(a.params, args), {}, &add, &del);
        if (Contradicts(add, del)) continue;
        Partial next = m;
        for (const Atom& x : add) {
          next.neg.erase(x);
          next.pos.insert(x);
        }
        for (const Atom& x : del) {
          next.pos.erase(x);
          next.neg.insert(x);
        }
        const Partial direct = next;
        // Consequences override, as the generator keeps them from conflicting.
        for (bool changed = true; changed;) {
          changed = false;
          for (const Ax& x : w.axioms) {
            for (const Args& xs : w.Tuples(x.params)) {
              const Env env = MakeEnv(x.params, xs);
              if (!(x.pos ? next.pos : next.neg).count(GroundAtom(x.context.name, x.context.terms, env))) continue;
              MState xadd, xdel;
              Effects(w, x.eff, env, {}, &xadd, &xdel);
              for (const Atom& y : xadd) {
                next.neg.erase(y);
                changed |= next.pos.insert(y).second;
              }
              for (const Atom& y : xdel) {
                next.pos.erase(y);
                changed |= next.neg.insert(y).second;
              }
            }
          }
        }
        const PartialState out = act.Apply(s, ToObjects(*p, args));
        const Partial g = FromPartial(out);
        PBT_CHECK(g.pos == next.pos && g.neg == next.neg, CallText(a.name, args) << " on true " << Show(m.pos) << " false " << Show(m.neg) << " gives true " << Show(g.pos) << " false " << Show(g.neg)
                  << ", expected true " << Show(next.pos) << " false " << Show(next.neg));
        if (direct.pos != next.pos || direct.neg != next.neg) c.nontrivial();
      }
    }
  }
}

namespace {

// Axioms that turn some consequence or context of the others around.  None of
// them triggers another, as a cycle of contradictions would never end.
bool AddConflicts(pbt::Ctx& c, World* w) {
  const size_t n = w->axioms.size();
  bool any = false;
  for (int k = c.range(1, 2); n > 0 && k > 0; k--) {
    Ax x = w->axioms[c.below(static_cast<uint32_t>(n))];
    const Ax& y = w->axioms[c.below(static_cast<uint32_t>(n))];
    if (c.flip()) x.pos = !x.pos;
    if (c.flip() && y.params.size() == x.params.size()) {
      // The context of another axiom if the parameters agree.
      bool same = true;
      for (size_t i = 0; i < x.params.size(); i++) same &= x.params[i].name == y.params[i].name && x.params[i].type == y.params[i].type;
      if (same) x.context = y.context;
    }
    for (E& e : x.eff) {
      if (!IsRigidAtom(*w, {e.name}) && c.chance(2, 3)) e.kind = e.kind == E::kAdd ? E::kDel : E::kAdd;
    }
    bool contradicts = false;
    for (const Args& args : w->Tuples(x.params)) {
      MState add, del;
      Effects(*w, x.eff, MakeEnv(x.params, args), {}, &add, &del);
      contradicts |= Contradicts(add, del);
    }
    if (contradicts) continue;
    w->axioms.insert(w->axioms.begin() + static_cast<int64_t>(c.below(static_cast<uint32_t>(w->axioms.size() + 1))), x);
    any = true;
  }
  std::set<std::string> contexts;
  for (const Ax& x : w->axioms) contexts.insert(x.context.name);
  for (size_t i = w->axioms.size(); i-- > 0;) {
    std::vector<E>& eff = w->axioms[i].eff;
    eff.erase(std::remove_if(eff.begin(), eff.end(), [&](const E& e) { return contexts.count(e.name) > 0; }), eff.end());
    if (eff.empty()) w->axioms.erase(w->axioms.begin() + static_cast<int64_t>(i));
  }
  return any;
}

}  // namespace

PBT_TARGET(C22_conflicts, "axioms with opposite consequences, and a partial state in which they contradict each other") {
  Opts o = AxiomOpts(c);
  o.max_ground = 40;
  o.axiom_eq = c.chance(1, 4);
  o.min_preds = 3;
  World w = GenWorld(c, o);
  const bool conflicts = AddConflicts(c, &w);
  std::unique_ptr<Pddl> p = Load(w, c);
  const int states = c.range(1, 5);
  for (int k = 0; k < states; k++) {
    // Total states.
    const MState m = GenState(c, w);
    const bool valid = AxiomsHold(w, m);
    PBT_CHECK(p->IsValidState(ToState(*p, m, &c)) == valid, "IsValidState of " << Show(m) << " is " << !valid);
    // Partial states, of which most values are unknown in some.
    Partial q = GenPartial(c, w);
    if (c.chance(1, 3)) {
      q = Partial();
      for (const Atom& a : w.GroundAtoms()) {
        if (c.chance(1, 6)) (c.flip() ? q.pos : q.neg).insert(a);
      }
    }
    const std::string what = "true " + Show(q.pos) + " false " + Show(q.neg);
    PBT_LOG(c, "partial state " << what);
    const bool possible = ClosePartial(w, q).has_value();
    const PartialState s = ToPartial(*p, q);
    PBT_CHECK(p->IsValidState(s) == possible, "IsValidState of " << what << " is " << !possible);
    const Partial after = FromPartial(s);
    PBT_CHECK(after.pos == q.pos && after.neg == q.neg, "judging a partial state changed it");
    bool alone = true;
    for (size_t i = 0; i < w.axioms.size(); i++) {
      World one = w;
      one.axioms = {w.axioms[i]};
      const bool ok = ClosePartial(one, q).has_value();
      alone &= ok;
      if (!ok) PBT_CHECK(!p->axioms()[i]->IsConsistent(s), "IsConsistent of axiom " << i << " accepts " << what);
      if (possible) PBT_CHECK(p->axioms()[i]->IsConsistent(s), "IsConsistent of axiom " << i << " refutes " << what);
    }
    if (conflicts && !possible && alone) c.nontrivial();
  }
}
