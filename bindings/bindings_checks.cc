// C30: the Python API (src/python/symbolic.cc) over the stand-in for pybind11.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <algorithm>

#include "plan_model.h"
#include "symbolic/normal_form.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/planner.h"

extern "C" void pyshim_load_pysymbolic(::pybind11::module_&);

using namespace model;     // NOLINT
using namespace symbolic;  // NOLINT
using pybind11::Python;
using pybind11::Value;

namespace {

using Strings = std::vector<std::string>;
using StringSet = std::set<std::string>;

const Python& Py() {
  static const Python py(pyshim_load_pysymbolic);
  return py;
}

Value PySet(const MState& m) { return Value::Of(Value::kSet, ToStrings(m)); }
Value PyList(const Strings& v) { return Value::Of(Value::kList, v); }

StringSet SetOf(const Value& v) {
  PBT_CHECK(v.kind == Value::kSet, "the result is no set of strings");
  StringSet r;
  for (const Value& x : v.items) {
    PBT_CHECK(x.kind == Value::kStr, "the result is no set of strings");
    r.insert(x.s);
  }
  PBT_CHECK(r.size() == v.items.size(), "a set holds an element twice");
  return r;
}
Strings ListOf(const Value& v) {
  PBT_CHECK(v.kind == Value::kList, "the result is no list of strings");
  Strings r;
  for (const Value& x : v.items) {
    PBT_CHECK(x.kind == Value::kStr, "the result is no list of strings");
    r.push_back(x.s);
  }
  return r;
}
bool BoolOf(const Value& v) {
  PBT_CHECK(v.kind == Value::kBool, "the result is no bool");
  return v.i != 0;
}
Strings Names(const Value& list) {
  Strings r;
  for (const Value& x : list.items) r.push_back(Py().Get(x, "name").s);
  return r;
}
std::string Join(const StringSet& v) {
  std::string r;
  for (const std::string& x : v) r += x + " ";
  return r;
}
StringSet Printed(const State& s) {
  StringSet r;
  for (const Proposition& p : s) r.insert(p.to_string());
  return r;
}
template <typename T>
std::string Print(const T& x) {
  std::ostringstream ss;
  ss << x;
  return ss.str();
}

// Calls f and tells whether it threw a C++ exception, as Python would see it.
template <typename Fn>
bool Throws(Fn f) {
  try {
    f();
  } catch (const pbt::Fail&) {
    throw;
  } catch (const pybind11::type_error& e) {
    PBT_FAIL("the call is not accepted: " << e.what());
  } catch (const pybind11::attribute_error& e) {
    PBT_FAIL("the call is not accepted: " << e.what());
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

struct Session {
  const World& w;
  pbt::Ctx& c;
  Value pddl;
  const Pddl& p() const { return Python::Cpp<Pddl>(pddl); }

  std::pair<std::string, Args> AnyCall() {
    const Act& a = c.pick(w.acts);
    const std::vector<Args> t = w.Tuples(a.params);
    if (t.empty()) throw pbt::Discard();
    const Args args = c.pick(t);
    return {CallText(a.name, args), args};
  }

  void StateFunctions();
  void Properties();
  void Symbols();
  void Index();
  void Planning();
  void NormalForms();
  void BadCalls();
};

#define SAME_SET(GOT, WANT, WHAT)                                                                              \
  do {                                                                                                         \
    const StringSet got_ = SetOf(GOT), want_ = WANT;                                                           \
    PBT_CHECK(got_ == want_, WHAT << " gives { " << Join(got_) << "}, the library " << "{ " << Join(want_) << "}"); \
  } while (0)

void Session::StateFunctions() {
  MState m = GenState(c, w);
  if (c.flip()) m = Close(w, m);
  const State s = ToState(p(), m);
  const Value v = PySet(m);
  PBT_LOG(c, "state " << Show(m));
  if (!w.acts.empty()) {
    const std::string call = AnyCall().first;
    PBT_LOG(c, "action " << call);
    State next;
    const bool named = c.flip();
    // Actions with effects on themselves may be rejected by both.
    if (Throws([&] { next = p().NextState(s, call); })) throw pbt::Discard();
    const Value got = named ? Py().Call(pddl, "next_state", {}, {{"state", v}, {"action", call}}) : Py().Call(pddl, "next_state", {v, call});
    SAME_SET(got, Printed(next), "next_state");
    PBT_CHECK(BoolOf(Py().Call(pddl, "is_valid_action", {v, call})) == p().IsValidAction(s, call), "is_valid_action differs for " << call << " in " << Show(m));
    // The next state, or something else.
    MState other = FromState(next);
    if (c.flip()) other = GenState(c, w);
    PBT_CHECK(BoolOf(Py().Call(pddl, "is_valid_tuple", {v, call, PySet(other)})) == p().IsValidTuple(s, call, ToState(p(), other)), "is_valid_tuple differs for " << call << " in " << Show(m));
    Strings calls;
    for (int i = c.range(0, 3); i > 0; i--) calls.push_back(AnyCall().first);
    SAME_SET(Py().Call(pddl, "apply_actions", {v, PyList(calls)}), Printed(p().ApplyActions(s, calls)), "apply_actions");
    Strings plan;
    MState at = FromState(p().initial_state());
    for (int i = c.range(0, 3); i > 0; i--) {
      const auto& next_states = Successors(w, at);
      if (next_states.empty() || c.chance(1, 6)) {
        plan.push_back(AnyCall().first);
        break;
      }
      const Child x = c.pick(next_states);
      plan.push_back(x.call);
      at = x.state;
    }
    PBT_CHECK(BoolOf(Py().Call(pddl, "is_valid_plan", {PyList(plan)})) == p().IsValidPlan(plan), "is_valid_plan differs");
    const Act& a = c.pick(w.acts);
    const Value lists = Py().Call(pddl, "list_valid_arguments", {v, a.name});
    std::vector<Strings> got_args, want_args;
    for (const Value& x : lists.items) got_args.push_back(ListOf(x));
    for (const auto& x : p().ListValidArguments(s, FindAction(p(), a.name))) want_args.push_back(FromObjects(x));
    PBT_CHECK(got_args == want_args, "list_valid_arguments gives " << got_args.size() << " argument lists, the library " << want_args.size());
  }
  PBT_CHECK(ListOf(Py().Call(pddl, "list_valid_actions", {v})) == p().ListValidActions(s), "list_valid_actions differs in " << Show(m));
  SAME_SET(Py().Call(pddl, "derived_state", {v}), Printed(p().DerivedState(s)), "derived_state");
  SAME_SET(Py().Call(pddl, "consistent_state", {v}), Printed(p().ConsistentState(s)), "consistent_state");
  PBT_CHECK(BoolOf(Py().Call(pddl, "is_valid_state", {v})) == p().IsValidState(s), "is_valid_state differs in " << Show(m));
  PBT_CHECK(BoolOf(Py().Call(pddl, "is_goal_satisfied", {v})) == p().IsGoalSatisfied(s) && p().IsGoalSatisfied(s) == Eval(w, w.goal, {}, m), "is_goal_satisfied differs in " << Show(m));
  // A partial state.
  MState pos, neg;
  PartialState partial;
  for (const Atom& a : w.GroundAtoms()) {
    switch (c.below(3)) {
      case 1:
        pos.insert(a);
        partial.insert(ToProp(p(), a));
        break;
      case 2:
        neg.insert(a);
        partial.erase(ToProp(p(), a));
        break;
      default: break;
    }
  }
  PBT_LOG(c, "partial state " << Show(pos) << " not " << Show(neg));
  PBT_CHECK(BoolOf(Py().Call(pddl, "is_valid_state", {PySet(pos), PySet(neg)})) == p().IsValidState(partial), "is_valid_state differs for a partial state");
  // A partial state may have no closure that all orders of axioms agree on.
  if (w.axioms.empty() || p().IsValidState(partial)) {
    const Value r = c.flip() ? Py().Call(pddl, "consistent_state", {PySet(pos), PySet(neg)}) : Py().Call(pddl, "consistent_state", {}, {{"state_pos", PySet(pos)}, {"state_neg", PySet(neg)}});
    const PartialState closed = p().ConsistentState(partial);
    PBT_CHECK(r.kind == Value::kTuple && r.items.size() == 2, "consistent_state gives no pair for a partial state");
    PBT_CHECK(SetOf(r.items[0]) == Printed(closed.pos()) && SetOf(r.items[1]) == Printed(closed.neg()), "consistent_state gives { " << Join(SetOf(r.items[0])) << "} not { " << Join(SetOf(r.items[1])) << "} for a partial state, the library " << closed);
  }
}

void Session::Properties() {
  PBT_CHECK(Py().Get(pddl, "name").s == w.domain_name, "the name is " << Py().Get(pddl, "name").s);
  Args constants, objects;
  for (const Obj& x : w.objs) {
    if (x.constant) constants.push_back(x.name);
    objects.push_back(x.name);
  }
  PBT_CHECK(Names(Py().Get(pddl, "constants")) == constants, "the constants differ");
  const Value list = Py().Get(pddl, "objects");
  PBT_CHECK(Names(list) == objects, "the objects differ");
  for (size_t i = 0; i < w.objs.size(); i++) {
    const Value& x = list.items[i];
    PBT_CHECK(Py().Repr(x) == w.objs[i].name, "the object prints as " << Py().Repr(x));
    const Value type = Py().Get(x, "type");
    PBT_CHECK(Py().Get(type, "name").s == w.TypeName(w.objs[i].type) && Py().Repr(type) == w.TypeName(w.objs[i].type), "object " << w.objs[i].name << " has type " << Py().Repr(type));
    for (size_t t = 0; t < w.types.size(); t++) {
      PBT_CHECK(BoolOf(Py().Call(type, "is_subtype", {w.types[t].name})) == w.IsSub(w.objs[i].type, static_cast<int>(t)), "is_subtype(" << w.types[t].name << ") of object " << w.objs[i].name);
    }
  }
  const Value map = Py().Get(pddl, "object_map");
  PBT_CHECK(map.kind == Value::kDict && map.items.size() == 2 * p().object_map().size(), "the object table has " << map.items.size() / 2 << " types");
  for (size_t i = 0; i + 1 < map.items.size(); i += 2) {
    PBT_CHECK(Names(map.items[i + 1]) == FromObjects(p().object_map().at(map.items[i].s)), "the objects of type " << map.items[i].s);
  }
  SAME_SET(Py().Get(pddl, "initial_state"), Printed(p().initial_state()), "initial_state");
  PBT_CHECK(Py().Get(pddl, "domain_pddl").s == p().domain_pddl() && Py().Get(pddl, "problem_pddl").s == p().problem_pddl(), "the sources differ");
  PBT_CHECK(Py().Repr(pddl) == "symbolic.Pddl('" + p().domain_pddl() + "', '" + p().problem_pddl() + "')", "the problem prints as " << Py().Repr(pddl));
  PBT_CHECK(Py().Repr(Py().Get(pddl, "goal")) == p().goal().to_string(), "the goal prints as " << Py().Repr(Py().Get(pddl, "goal")));
  // Lists of rules can be read again and again.
  for (int k = 0; k < 2; k++) {
    const Value axioms = Py().Get(pddl, "axioms");
    PBT_CHECK(axioms.kind == Value::kList && axioms.items.size() == p().axioms().size(), "there are " << axioms.items.size() << " axioms");
    for (size_t i = 0; i < axioms.items.size(); i++) PBT_CHECK(Py().Repr(axioms.items[i]) == Print(*p().axioms()[i]), "axiom " << i << " prints as " << Py().Repr(axioms.items[i]));
    const Value derived = Py().Get(pddl, "derived_predicates");
    PBT_CHECK(derived.kind == Value::kList && derived.items.size() == p().derived_predicates().size(), "there are " << derived.items.size() << " derived predicates");
    for (const Value& x : derived.items) {
      const std::string text = Py().Repr(x);
      bool known = false;
      for (const Rule& r : w.rules) known |= text.find(w.preds[static_cast<size_t>(r.pred)].name) != std::string::npos;
      PBT_CHECK(known, "a derived predicate prints as " << text);
    }
  }
}

void Session::Symbols() {
  const bool predicates = w.acts.empty() || c.flip();
  const Value list = Py().Get(pddl, predicates ? "predicates" : "actions");
  const size_t n = predicates ? w.preds.size() : w.acts.size();
  PBT_CHECK(list.kind == Value::kList && list.items.size() == n, "there are " << list.items.size() << (predicates ? " predicates" : " actions") << ", expected " << n);
  if (n == 0) return;
  const size_t i = c.below(static_cast<uint32_t>(n));
  const Value& x = list.items[i];
  const std::string name = predicates ? w.preds[i].name : w.acts[i].name;
  const Params params = predicates ? w.preds[i].params : w.acts[i].params;
  PBT_CHECK(Py().Get(x, "name").s == name, "symbol " << i << " is called " << Py().Get(x, "name").s);
  Args names;
  for (const Param& q : params) names.push_back(q.name);
  const Value py_params = Py().Get(x, "parameters");
  PBT_CHECK(Names(py_params) == names, "the parameters of " << name << " differ");
  PBT_CHECK(Py().Repr(x) == (predicates ? p().predicates()[i].to_string() : p().actions()[i].to_string()), name << " prints as " << Py().Repr(x));
  const std::vector<Args> tuples = w.Tuples(params);
  const Value gen = Py().Get(x, "parameter_generator");
  PBT_CHECK(Py().Call(gen, "__len__").i == static_cast<long long>(tuples.size()), name << " has " << Py().Call(gen, "__len__").i << " argument lists, expected " << tuples.size());
  // All of them in a list, looked at after they were produced.
  const std::vector<Value> all = Py().List(gen);
  PBT_CHECK(all.size() == tuples.size(), "iterating over the arguments of " << name << " gives " << all.size() << " lists, expected " << tuples.size());
  for (size_t k = 0; k < all.size(); k++) PBT_CHECK(Names(all[k]) == tuples[k], "argument list " << k << " of " << name << " is " << CallText("", Names(all[k])) << ", expected " << CallText("", tuples[k]) << ", when they are kept in a list");
  const int size = static_cast<int>(tuples.size());
  for (int k = 0; k < 4; k++) {
    const int at = c.range(-size - 2, size + 1);
    Value got;
    const bool bad = Throws([&] { got = Py().Call(gen, "__getitem__", {at}); });
    PBT_CHECK(bad == (at < -size || at >= size), "position " << at << " of " << size << " is rejected: " << bad);
    if (bad) continue;
    const Args& want = tuples[static_cast<size_t>(at < 0 ? at + size : at)];
    PBT_CHECK(Names(got) == want, "position " << at << " is " << CallText("", Names(got)));
    PBT_CHECK(tuples[static_cast<size_t>(Py().Call(gen, "index", {PyList(want)}).i)] == want, "the index of " << CallText("", want) << " is " << Py().Call(gen, "index", {PyList(want)}).i);
    PBT_CHECK(Py().Call(x, "to_string", {PyList(want)}).s == CallText(name, want), name << " prints as " << Py().Call(x, "to_string", {PyList(want)}).s);
    if (!predicates) {
      const Value parsed = Py().Static("Action", "parse", {pddl, CallText(name, want)});
      PBT_CHECK(parsed.kind == Value::kTuple && Py().Get(parsed.items[0], "name").s == name && Names(parsed.items[1]) == want, "parsing " << CallText(name, want));
    }
  }
}

void Session::Index() {
  const Value index = Py().Get(pddl, "state_index");
  const std::vector<Atom> atoms = w.GroundAtoms();
  const int n = static_cast<int>(atoms.size());
  PBT_CHECK(Py().Call(index, "__len__").i == n, "the state index has " << Py().Call(index, "__len__").i << " entries, expected " << n);
  // The index of a domain without predicates has no problem to look names up in.
  if (w.preds.empty()) return;
  StringSet all;
  for (int i = 0; i < n; i++) {
    const std::string s = Py().Call(index, "get_proposition", {i}).s;
    all.insert(s);
    PBT_CHECK(Py().Call(index, "get_proposition", {i - n}).s == s, "position " << i - n << " differs from position " << i);
    PBT_CHECK(Py().Call(index, "get_proposition_index", {s}).i == i, "the index of " << s << " is " << Py().Call(index, "get_proposition_index", {s}).i);
  }
  PBT_CHECK(all == ToStrings(MState(atoms.begin(), atoms.end())), "the state index lists { " << Join(all) << "}");
  const MState m = GenState(c, w);
  const Value v = Py().Call(index, "get_indexed_state", {PySet(m)});
  PBT_CHECK(v.kind == Value::kArray && static_cast<int>(v.items.size()) == n, "the indexed state has " << v.items.size() << " entries");
  for (int i = 0; i < n; i++) PBT_CHECK(BoolOf(v.items[static_cast<size_t>(i)]) == (ToStrings(m).count(Py().Call(index, "get_proposition", {i}).s) > 0), "entry " << i << " of the indexed state of " << Show(m));
  SAME_SET(Py().Call(index, "get_state", {v}), ToStrings(m), "get_state(get_indexed_state)");
}

void Session::Planning() {
  MState root = w.init;
  Value planner;
  if (c.flip()) {
    planner = c.flip() ? Py().New("Planner", {pddl}) : Py().New("Planner", {}, {{"pddl", pddl}});
    root = FromState(p().initial_state());
  } else {
    root = GenState(c, w);
    planner = Py().New("Planner", {pddl, PySet(root)});
  }
  root = FromState(p().ConsistentState(ToState(p(), root)));
  const Planner reference(p(), ToState(p(), root));
  // A random walk over kept children.
  Value node = Py().Get(planner, "root");
  if (c.flip()) node = Py().New("PlannerNode", {node});
  if (c.flip()) planner = Value();
  Planner::Node cpp = reference.root();
  for (int k = c.range(0, 3); k >= 0; k--) {
    SAME_SET(Py().Get(node, "state"), Printed(cpp.state()), "the state of the node");
    PBT_CHECK(Py().Get(node, "depth").i == static_cast<long long>(cpp.depth()) && Py().Get(node, "action").s == cpp.action(), "the node has depth " << Py().Get(node, "depth").i << " and action " << Py().Get(node, "action").s);
    PBT_CHECK(Py().Repr(node) == Print(cpp), "the node prints as " << Py().Repr(node));
    const std::vector<Value> got = Py().List(node);
    std::vector<Planner::Node> want;
    for (const Planner::Node& x : cpp) want.push_back(x);
    PBT_CHECK(got.size() == want.size(), "the node has " << got.size() << " children, expected " << want.size());
    for (size_t i = 0; i < got.size(); i++) {
      SAME_SET(Py().Get(got[i], "state"), Printed(want[i].state()), "the state of child " << i << ", kept in a list,");
      PBT_CHECK(Py().Get(got[i], "action").s == want[i].action(), "child " << i << ", kept in a list, has action " << Py().Get(got[i], "action").s << ", expected " << want[i].action());
    }
    if (got.empty()) break;
    const size_t i = c.below(static_cast<uint32_t>(got.size()));
    node = got[i];
    cpp = want[i];
  }

  // Breadth-first search from a root that only the search holds on to.
  size_t depth = static_cast<size_t>(c.range(0, 3));
  Tree tree;
  while (!Explore(w, root, depth, 150, &tree)) {
    if (depth == 0) return;
    depth--;
    tree = Tree();
  }
  Value start = Py().New("Planner", {pddl, PySet(root)});
  Value search = c.flip() ? Py().New("BreadthFirstSearch", {Py().Get(start, "root"), depth}) : Py().New("BreadthFirstSearch", {}, {{"root", Py().Get(start, "root")}, {"max_depth", depth}, {"timeout", 0.0}});
  start = Value();
  // iter() may be asked for at any time; the first call of next() starts.
  std::vector<Value> found;
  Value x;
  for (int k = c.range(0, 2); k > 0; k--) {
    if (!Py().Next(search, &x)) {
      PBT_CHECK(found.size() == tree.plans.size(), "the search ends after " << found.size() << " of " << tree.plans.size() << " plans");
      break;
    }
    found.push_back(x);
  }
  if (found.size() < tree.plans.size()) {
    Value it = Py().Iter(search);
    search = Value();
    while (found.size() <= tree.plans.size() && Py().Next(it, &x)) found.push_back(x);
  }
  PBT_CHECK(found.size() == tree.plans.size(), "the search gives " << found.size() << " plans, expected " << tree.plans.size());
  for (size_t i = 0; i < found.size(); i++) {
    Strings calls;
    std::vector<StringSet> states, want;
    for (const Value& step : found[i].items) {
      calls.push_back(Py().Get(step, "action").s);
      states.push_back(SetOf(Py().Get(step, "state")));
    }
    calls.erase(calls.begin());
    for (const MState& m : tree.states[i]) want.push_back(ToStrings(m));
    PBT_CHECK(calls == tree.plans[i] && states == want, "plan " << i << " differs");
    if (calls.size() >= 2) c.label("plan of two actions");
  }
}

void CheckDnf(const Value& v, const std::optional<DisjunctiveFormula>& want) {
  PBT_CHECK((v.kind == Value::kNone) == !want.has_value(), "there is a normal form: " << (v.kind != Value::kNone));
  if (!want) return;
  const Value list = Py().Get(v, "conjunctions");
  PBT_CHECK(list.items.size() == want->conjunctions.size(), "there are " << list.items.size() << " conjunctions, expected " << want->conjunctions.size());
  for (size_t i = 0; i < list.items.size(); i++) {
    SAME_SET(Py().Get(list.items[i], "pos"), Printed(want->conjunctions[i].pos()), "conjunction " << i);
    SAME_SET(Py().Get(list.items[i], "neg"), Printed(want->conjunctions[i].neg()), "conjunction " << i);
    PBT_CHECK(Py().Repr(list.items[i]) == Print(want->conjunctions[i]), "conjunction " << i << " prints as " << Py().Repr(list.items[i]));
  }
  PBT_CHECK(Py().Repr(v) == Print(*want), "the normal form prints as " << Py().Repr(v));
}

void Session::NormalForms() {
  const bool axioms = c.flip();
  // Axioms that cannot be satisfied are an error in both.
  auto check = [&](const char* name, auto library, auto python, auto compare) {
    decltype(library()) want;
    Value got;
    const bool bad = Throws([&] { want = library(); });
    PBT_CHECK(Throws([&] { got = python(); }) == bad, name << " throws: " << !bad);
    if (!bad) compare(got, want);
  };
  check("normalize_goal", [&] { return DisjunctiveFormula::NormalizeGoal(p(), axioms); }, [&] { return axioms ? Py().Static("DisjunctiveFormula", "normalize_goal", {pddl}, {{"apply_axioms", true}}) : Py().Static("DisjunctiveFormula", "normalize_goal", {pddl}); }, CheckDnf);
  if (w.acts.empty()) return;
  const std::string call = AnyCall().first;
  PBT_LOG(c, "normal forms of " << call);
  auto get = [&](const char* name) { return axioms ? Py().Static("DisjunctiveFormula", name, {pddl, call, true}) : Py().Static("DisjunctiveFormula", name, {pddl}, {{"action_call", call}}); };
  check("normalize_preconditions", [&] { return DisjunctiveFormula::NormalizePreconditions(p(), call, axioms); }, [&] { return get("normalize_preconditions"); }, CheckDnf);
  check("normalize_postconditions", [&] { return DisjunctiveFormula::NormalizePostconditions(p(), call, axioms); }, [&] { return get("normalize_postconditions"); }, CheckDnf);
  check("normalize_conditions", [&] { return DisjunctiveFormula::NormalizeConditions(p(), call, axioms); }, [&] { return get("normalize_conditions"); },
        [&](const Value& v, const std::optional<std::pair<DisjunctiveFormula, DisjunctiveFormula>>& both) {
          PBT_CHECK((v.kind == Value::kNone) == !both.has_value(), "there is a pair of normal forms: " << (v.kind != Value::kNone));
          if (!both) return;
          PBT_CHECK(v.kind == Value::kTuple && v.items.size() == 2, "the conditions are no pair");
          CheckDnf(v.items[0], both->first);
          CheckDnf(v.items[1], both->second);
        });
}

void Session::BadCalls() {
  const Value v = PySet(GenState(c, w));
  const Strings bad = {"nosuchaction()", "nosuchaction(a)", "nosuchaction"};
  const std::string call = c.pick(bad);
  switch (c.below(6)) {
    case 0: PBT_CHECK(Throws([&] { Py().Call(pddl, "next_state", {v, call}); }), "next_state accepts " << call); break;
    case 1: PBT_CHECK(Throws([&] { Py().Call(pddl, "is_valid_action", {v, call}); }), "is_valid_action accepts " << call); break;
    case 2: PBT_CHECK(Throws([&] { Py().Call(pddl, "is_valid_state", {Value::Of(Value::kSet, Strings{"nosuchpredicate(nosuchobject)"})}); }), "is_valid_state accepts unknown objects"); break;
    case 3:
      if (w.preds.empty()) break;
      PBT_CHECK(Throws([&] { Py().Call(Py().Get(pddl, "state_index"), "get_proposition_index", {"nosuchpredicate()"}); }), "get_proposition_index accepts an unknown predicate"); break;
    case 4: PBT_CHECK(Throws([&] { Py().Static("Action", "parse", {pddl, call}); }), "Action.parse accepts " << call); break;
    default: PBT_CHECK(Throws([&] { Py().New("Pddl", {"/nonexistent/domain.pddl", "/nonexistent/problem.pddl"}); }), "files that do not exist are accepted"); break;
  }
}

void CheckSame(const Value& a, const Value& b, const char* what) {
  const Pddl &p = Python::Cpp<Pddl>(a), &q = Python::Cpp<Pddl>(b);
  PBT_CHECK(p.name() == q.name() && FromObjects(p.objects()) == FromObjects(q.objects()) && FromObjects(p.constants()) == FromObjects(q.constants()), what << " has other objects");
  PBT_CHECK(Printed(p.initial_state()) == Printed(q.initial_state()), what << " has another initial state");
  PBT_CHECK(p.actions().size() == q.actions().size() && p.predicates().size() == q.predicates().size() && p.state_index().size() == q.state_index().size(), what << " has other symbols");
}

}  // namespace

PBT_TARGET(C30_api, "a problem with an action, an object and a predicate was queried in two ways or more") {
  Opts o = PlanOpts(c);
  o.max_objs = 3;
  o.min_objs = std::min(o.min_objs, 3);
  o.max_ground = 24;
  World w = PlanWorld(c, o);
  if (c.chance(1, 3)) SteerGoal(c, &w);
  const std::string domain = DomainText(w, &c), problem = ProblemText(w, &c);
  PBT_LOG(c, domain << problem);
  const TempFile fd(domain), fp(problem);
  const std::string source = c.flip() ? fp.path() : problem;
  Value pddl;
  switch (c.below(4)) {
    case 0: pddl = Py().New("Pddl", {fd.path(), source}); break;
    case 1: pddl = Py().New("Pddl", {}, {{"domain", fd.path()}, {"problem", source}}); break;
    case 2: pddl = Py().New("Pddl", {fd.path(), source, true}); break;
    default: pddl = Py().New("Pddl", {}, {{"domain", fd.path()}, {"problem", source}, {"apply_axioms", false}}); break;
  }
  Session s{w, c, pddl};
  pddl = Value();
  PBT_CHECK(BoolOf(Py().Call(s.pddl, "is_valid")) == s.p().IsValid(false), "is_valid differs");
  const int ops = c.range(1, 4);
  for (int k = 0; k < ops; k++) {
    const int op = c.weighted({4, 2, 3, 2, 3, 2, 1, 1, 1});
    PBT_LOG(c, "operation " << op);
    switch (op) {
      case 0: s.StateFunctions(); break;
      case 1: s.Properties(); break;
      case 2: s.Symbols(); break;
      case 3: s.Index(); break;
      case 4: s.Planning(); break;
      case 5: s.NormalForms(); break;
      case 6: s.BadCalls(); break;
      case 7: {
        const MState m = GenState(c, w);
        Py().Set(s.pddl, "initial_state", PySet(m));
        SAME_SET(Py().Get(s.pddl, "initial_state"), ToStrings(m), "the initial state that was set");
        break;
      }
      default: {
        // A new object and back, on a problem of its own.
        const Value other = Py().New("Pddl", {fd.path(), source});
        const Pddl& q = Python::Cpp<Pddl>(other);
        const int type = w.types.empty() ? -1 : c.range(-1, static_cast<int>(w.types.size()) - 1);
        const Value actions = Py().Get(other, "actions");
        Py().Call(other, "add_object", {"verynew", w.TypeName(type)});
        World bigger = w;
        bigger.objs.push_back({"verynew", type, false});
        PBT_CHECK(FromObjects(q.objects()).back() == "verynew", "the new object is not the last");
        for (size_t i = 0; i < w.acts.size(); i++) PBT_CHECK(Py().Call(Py().Get(actions.items[i], "parameter_generator"), "__len__").i == static_cast<long long>(bigger.TupleCount(w.acts[i].params)), "action " << w.acts[i].name << " does not know the new object");
        Py().Call(other, "remove_object", {}, {{"name", "verynew"}});
        PBT_CHECK(q.objects().size() == w.objs.size(), "the object is not removed");
        break;
      }
    }
  }
  if (c.chance(1, 8)) {
    // Written to a pickle and read back.
    const Value fresh = Py().New("Pddl", {fd.path(), source});
    CheckSame(fresh, Py().Pickled(fresh), "the problem read back from a pickle");
    Session again{w, c, Py().Pickled(fresh)};
    again.StateFunctions();
    again.Symbols();
    const Value only = Py().New("Pddl", {fd.path()});
    CheckSame(only, Py().Pickled(only), "the domain read back from a pickle");
    c.label("pickle");
  }
  if (ops >= 2 && !w.acts.empty() && !w.objs.empty() && !w.preds.empty()) c.nontrivial();
}
