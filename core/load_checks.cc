// C14, C15, C26: types, parsing of calls and loading.
#include <algorithm>
#include <set>
#include <sstream>

#include "model.h"

using namespace model;     // NOLINT
using namespace symbolic;  // NOLINT

namespace {

Opts LoadOpts() {
  Opts o;
  o.max_objs = 7;
  o.max_ground = 2000;
  o.formula_depth = 1;
  o.max_arity = 3;
  return o;
}

Args Names(const Params& ps) {
  Args r;
  for (const Param& p : ps) r.push_back(p.name);
  return r;
}

// What the object table has to say about a list of objects.
void CheckTypes(const World& w, const Pddl& p) {
  std::vector<std::string> names = {"object"};
  for (const Type& t : w.types) names.push_back(t.name);
  auto is_a = [&](int type, const std::string& name) {
    const std::vector<std::string> chain = w.TypeChain(type);
    return std::find(chain.begin(), chain.end(), name) != chain.end();
  };
  auto check = [&](const Object& o, int type, const std::string& what) {
    PBT_CHECK(o.type().name() == w.TypeName(type), what << " has type " << o.type().name() << ", expected " << w.TypeName(type));
    PBT_CHECK(o.type().ListTypes() == w.TypeChain(type), what << " lists " << o.type().ListTypes().size() << " types, expected " << w.TypeChain(type).size() << " or in another order");
    for (const std::string& n : names) PBT_CHECK(o.type().IsSubtype(n) == is_a(type, n), what << " is of type " << n << ": " << !is_a(type, n));
    PBT_CHECK(!o.type().IsSubtype("nosuchtype") && !o.type().IsSubtype(""), what << " is of an unknown type");
    std::ostringstream ss;
    ss << o.type();
    PBT_CHECK(ss.str() == w.TypeName(type), "the type of " << what << " prints " << ss.str());
  };
  std::vector<Object> objs;
  for (const Obj& o : w.objs) {
    objs.emplace_back(p, o.name);
    check(objs.back(), o.type, "object " + o.name);
    PBT_CHECK(objs.back().name() == o.name, "object " << o.name << " has the name " << objs.back().name());
    std::ostringstream ss;
    ss << objs.back();
    PBT_CHECK(ss.str() == o.name, "object " << o.name << " prints " << ss.str());
  }
  for (size_t i = 0; i < w.preds.size(); i++) {
    const std::vector<Object>& ps = p.predicates()[i].parameters();
    PBT_CHECK(ps.size() == w.preds[i].params.size(), "predicate " << w.preds[i].name << " has " << ps.size() << " parameters");
    for (size_t k = 0; k < ps.size(); k++) check(ps[k], w.preds[i].params[k].type, "parameter " + w.preds[i].params[k].name + " of predicate " + w.preds[i].name);
  }
  for (size_t i = 0; i < w.acts.size(); i++) {
    const std::vector<Object>& ps = p.actions()[i].parameters();
    PBT_CHECK(ps.size() == w.acts[i].params.size(), "action " << w.acts[i].name << " has " << ps.size() << " parameters");
    for (size_t k = 0; k < ps.size(); k++) check(ps[k], w.acts[i].params[k].type, "parameter " + w.acts[i].params[k].name + " of action " + w.acts[i].name);
  }
  // Pairs of objects.
  for (size_t i = 0; i < objs.size(); i++) {
    for (size_t k = 0; k < objs.size(); k++) {
      const std::string &a = w.objs[i].name, &b = w.objs[k].name;
      PBT_CHECK((objs[i] == objs[k]) == (a == b) && (objs[i] != objs[k]) == (a != b), "objects " << a << " and " << b << " compare equal: " << (objs[i] == objs[k]));
      PBT_CHECK((objs[i] < objs[k]) == (a < b), "object " << a << " is before " << b << ": " << (objs[i] < objs[k]));
      if (a == b) PBT_CHECK(std::hash<Object>{}(objs[i]) == std::hash<Object>{}(Object(p, b)), "equal objects have different hashes");
      const bool sub = w.IsSub(w.objs[i].type, w.objs[k].type);
      PBT_CHECK(objs[i].type().IsSubtype(objs[k].type()) == sub, "the type of " << a << " is a subtype of that of " << b << ": " << !sub);
      PBT_CHECK((objs[i].type() == objs[k].type()) == (w.objs[i].type == w.objs[k].type), "the types of " << a << " and " << b << " compare equal");
      PBT_CHECK((objs[i].type() < objs[k].type()) == (w.TypeName(w.objs[i].type) < w.TypeName(w.objs[k].type)), "the order of the types of " << a << " and " << b);
    }
  }
  // The table.
  for (const std::string& n : names) {
    Args expect;
    for (const Obj& o : w.objs) {
      if (is_a(o.type, n)) expect.push_back(o.name);
    }
    const auto it = p.object_map().find(n);
    const Args got = it == p.object_map().end() ? Args() : FromObjects(it->second);
    PBT_CHECK(got == expect, "the table lists " << CallText(n, got) << ", expected " << CallText(n, expect));
  }
  for (const auto& kv : p.object_map()) PBT_CHECK(std::find(names.begin(), names.end(), kv.first) != names.end(), "the table lists an unknown type " << kv.first);
}

}  // namespace

PBT_TARGET(C14_types, "a type with a grandparent and objects of two types or more") {
  Opts o = LoadOpts();
  o.max_preds = 2;
  o.max_acts = 1;
  o.formula_depth = 1;
  o.many = 30;
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c);
  CheckTypes(w, *p);
  {
    // Without a problem there are only the constants.
    World dom = w;
    dom.objs.clear();
    for (const Obj& x : w.objs) {
      if (x.constant) dom.objs.push_back(x);
    }
    TempFile f(DomainText(w));
    const Pddl q(f.path());
    CheckTypes(dom, q);
  }
  std::set<int> used;
  bool deep = false;
  for (const Obj& x : w.objs) {
    used.insert(x.type);
    deep |= w.TypeChain(x.type).size() >= 3;
  }
  if (deep && used.size() >= 2) c.nontrivial();
}

namespace {

std::string Spaced(pbt::Ctx& c, const std::string& name, const Args& args) {
  auto space = [&]() -> std::string {
    static const std::vector<std::string> kSpaces = {"", " ", "  ", "\t", " \t ", "\n"};
    return kSpaces[static_cast<size_t>(c.weighted({6, 3, 2, 1, 1, 1}))];
  };
  std::string r = name + "(" + space();
  for (size_t i = 0; i < args.size(); i++) {
    if (i) r += "," + space();
    r += args[i] + space();
  }
  return r + ")";
}

bool Rejected(const std::function<void()>& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

}  // namespace

PBT_TARGET(C15_parsing, "calls with two arguments or more were accepted and others rejected for a type and for a number of arguments") {
  Opts o = LoadOpts();
  o.min_objs = 1;
  o.min_acts = 1;
  o.min_preds = 1;
  o.max_objs = 8;
  World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c);
  const State s = p->initial_state();
  bool accepted = false, bad_type = false, bad_count = false;
  auto well_typed = [&](const Params& ps, const Args& args) {
    if (ps.size() != args.size()) return false;
    for (size_t i = 0; i < args.size(); i++) {
      const int t = w.ObjType(args[i]);
      if (t == -2 || !w.IsSub(t, ps[i].type)) return false;
    }
    return true;
  };
  const int calls = c.range(1, 12);
  for (int k = 0; k < calls; k++) {
    const Act& a = c.pick(w.acts);
    Args args;
    for (const Param& q : a.params) {
      const std::vector<std::string> os = w.ObjsOf(q.type);
      args.push_back(os.empty() || c.chance(1, 6) ? c.pick(w.objs).name : c.pick(os));
    }
    std::string name = a.name;
    // Corrupt it in some way.
    switch (c.weighted({6, 1, 1, 1, 1, 1, 1})) {
      case 1:
        args.push_back(c.pick(w.objs).name);
        break;
      case 2:
        if (!args.empty()) args.erase(args.begin() + c.below(static_cast<uint32_t>(args.size())));
        break;
      case 3:
        if (!args.empty()) {
          static const std::vector<std::string> kBad = {"nosuch", "ob", "obj100", "tabl", "?x", "A", "x1", "object"};
          args[c.below(static_cast<uint32_t>(args.size()))] = c.pick(kBad);
        }
        break;
      case 4: {
        static const std::vector<std::string> kBad = {"nosuch", "pi", "picks", "", "Pick", "on", "p"};
        name = c.pick(kBad);
        break;
      }
      case 5:
        std::reverse(args.begin(), args.end());
        break;
      case 6:
        args.clear();
        break;
      default: break;
    }
    const Act* act = nullptr;
    for (const Act& b : w.acts) {
      if (b.name == name) act = &b;
    }
    const std::string text = Spaced(c, name, args);
    PBT_LOG(c, "call " << text);
    const bool ok = act != nullptr && well_typed(act->params, args);
    if (ok) {
      try {
        const std::pair<Action, std::vector<Object>> r = Action::Parse(*p, text);
        PBT_CHECK(r.first.name() == name && FromObjects(r.second) == args, "the call " << text << " is parsed as " << r.first.to_string(r.second));
        PBT_CHECK(FromObjects(r.first.parameters()) == Names(act->params), "the parsed action of " << text << " has other parameters");
        PBT_CHECK(r.first == FindAction(*p, name), "the parsed action of " << text << " is another one");
        PBT_CHECK(Action(*p, text).name() == name && Action(*p, name).name() == name, "the action of " << text);
        accepted |= args.size() >= 2;
        MState m = w.init;
        const bool valid = Eval(w, act->pre, MakeEnv(act->params, args), m);
        PBT_CHECK(p->IsValidAction(s, text) == valid, "IsValidAction of " << text);
        PBT_CHECK(p->NextState(s, text) == FindAction(*p, name).Apply(s, ToObjects(*p, args)), "NextState of " << text);
      } catch (const pbt::Fail&) {
        throw;
      } catch (const std::exception& e) {
        PBT_FAIL("the call " << text << " is rejected: " << e.what());
      }
    } else {
      PBT_CHECK(Rejected([&] { Action::Parse(*p, text); }), "the bad call " << text << " is accepted");
      PBT_CHECK(Rejected([&] { p->IsValidAction(s, text); }), "IsValidAction accepts the bad call " << text);
      PBT_CHECK(Rejected([&] { p->NextState(s, text); }), "NextState accepts the bad call " << text);
      PBT_CHECK(Rejected([&] { p->IsValidTuple(s, text, s); }), "IsValidTuple accepts the bad call " << text);
      PBT_CHECK(Rejected([&] { p->ApplyActions(s, {text}); }), "ApplyActions accepts the bad call " << text);
      PBT_CHECK(Rejected([&] { p->IsValidPlan({text}); }), "IsValidPlan accepts the bad call " << text);
      if (act != nullptr) {
        bool known = true;
        for (const std::string& x : args) known &= w.ObjType(x) != -2;
        if (act->params.size() != args.size()) bad_count = true;
        if (known && act->params.size() == args.size()) bad_type = true;
      }
    }
    // The same arguments in a proposition: only the objects have to be known.
    bool known = true;
    for (const std::string& x : args) known &= w.ObjType(x) != -2;
    const std::string head = w.preds.empty() ? "on" : c.pick(w.preds).name;
    const std::string prop_text = Spaced(c, head, args);
    if (known) {
      const Proposition prop(*p, prop_text);
      PBT_CHECK(prop.name() == head && FromObjects(prop.arguments()) == args, "the proposition " << prop_text << " is parsed as " << prop);
      PBT_CHECK(Proposition::ParseHead(prop_text) == head, "the head of " << prop_text);
      PBT_CHECK(FromObjects(Object::ParseArguments(*p, prop_text)) == args, "the arguments of " << prop_text);
      PBT_CHECK(FromObjects(Object::ParseArguments(*p, args)) == args, "the list of arguments of " << prop_text);
      Atom atom = {head};
      atom.insert(atom.end(), args.begin(), args.end());
      PBT_CHECK(prop == ToProp(*p, atom), "the parsed proposition " << prop_text << " differs from the one built");
    } else {
      PBT_CHECK(Rejected([&] { Proposition prop(*p, prop_text); }), "the proposition " << prop_text << " is accepted");
      PBT_CHECK(Rejected([&] { Object::ParseArguments(*p, args); }), "the arguments of " << prop_text << " are accepted");
      PBT_CHECK(Rejected([&] { p->IsGoalSatisfied(std::set<std::string>{prop_text}); }), "a state with " << prop_text << " is accepted");
    }
  }
  for (const char* bad : {"nosuch", "", "ob", "?x"}) PBT_CHECK(Rejected([&] { Object obj(*p, bad); }), "the unknown object '" << bad << "' is accepted");
  if (accepted && bad_type && bad_count) c.nontrivial();
}

PBT_TARGET(C26_loading, "a problem with constants, objects, actions and initial propositions") {
  Opts o = LoadOpts();
  o.max_ground = 300;
  o.axioms = c.chance(1, 3) ? 3 : 0;
  o.derived = c.chance(1, 3);
  o.formula_depth = 2;
  const World w = GenWorld(c, o);
  const std::string domain = DomainText(w, &c), problem = ProblemText(w, &c);
  PBT_LOG(c, domain << problem);
  const TempFile domain_file(domain);
  auto check = [&](const Pddl& p, bool has_problem, const std::string& what) {
    PBT_CHECK(p.name() == w.domain_name, what << ": the domain is called " << p.name());
    Args constants, objects;
    for (const Obj& x : w.objs) {
      if (x.constant) constants.push_back(x.name);
      if (x.constant || has_problem) objects.push_back(x.name);
    }
    PBT_CHECK(FromObjects(p.constants()) == constants, what << ": the constants are " << CallText("", FromObjects(p.constants())));
    PBT_CHECK(FromObjects(p.objects()) == objects, what << ": the objects are " << CallText("", FromObjects(p.objects())));
    PBT_CHECK(p.predicates().size() == w.preds.size(), what << ": there are " << p.predicates().size() << " predicates");
    for (size_t i = 0; i < w.preds.size(); i++) {
      PBT_CHECK(p.predicates()[i].name() == w.preds[i].name && FromObjects(p.predicates()[i].parameters()) == Names(w.preds[i].params), what << ": predicate " << i << " is " << p.predicates()[i]);
    }
    PBT_CHECK(p.actions().size() == w.acts.size(), what << ": there are " << p.actions().size() << " actions");
    for (size_t i = 0; i < w.acts.size(); i++) {
      PBT_CHECK(p.actions()[i].name() == w.acts[i].name && FromObjects(p.actions()[i].parameters()) == Names(w.acts[i].params), what << ": action " << i << " is " << p.actions()[i]);
    }
    PBT_CHECK(p.axioms().size() == w.axioms.size(), what << ": there are " << p.axioms().size() << " axioms");
    for (size_t i = 0; i < w.axioms.size(); i++) {
      PBT_CHECK(p.axioms()[i]->context().is_pos() == w.axioms[i].pos && p.axioms()[i]->context().name() == w.axioms[i].context.name, what << ": the context of axiom " << i << " is " << p.axioms()[i]->context());
    }
    PBT_CHECK(p.derived_predicates().size() == w.rules.size(), what << ": there are " << p.derived_predicates().size() << " derived predicates");
    for (size_t i = 0; i < w.rules.size(); i++) PBT_CHECK(p.derived_predicates()[i].name() == w.preds[w.rules[i].pred].name, what << ": derived predicate " << i);
    PBT_CHECK(p.domain_pddl() == domain_file.path(), what << ": domain_pddl()");
    std::ostringstream ss;
    ss << p;
    PBT_CHECK(ss.str().find("Name: " + w.domain_name + "\n") != std::string::npos, what << ": the printed domain has no name");
    PBT_CHECK((ss.str().find("Name: " + w.problem_name + "\n") != std::string::npos) == has_problem, what << ": the printed problem has no name");
    if (!has_problem) return;
    const MState init = FromState(p.initial_state());
    PBT_CHECK(init == w.init, what << ": the initial state is " << model::Show(init) << ", expected " << model::Show(w.init));
    for (int k = 0; k < 3; k++) {
      const MState m = GenState(c, w);
      PBT_CHECK(p.goal()(ToState(p, m)) == Eval(w, w.goal, {}, m), what << ": goal " << Show(w.goal, w) << " in " << model::Show(m));
    }
  };
  {
    const Pddl p(domain_file.path(), problem, false);
    check(p, true, "problem text");
    PBT_CHECK(p.problem_pddl() == problem, "problem_pddl()");
    static const std::vector<std::string> kBefore = {"\n \t", " ", "; the (problem\n", ";) it is\n\n", "\n;;; one\n; two)\n  "};
    const std::string spaced = c.pick(kBefore) + problem + (c.flip() ? "\n" : " \t\r\n ");
    const Pddl q(domain_file.path(), spaced, false);
    check(q, true, "problem text with space around it");
    const TempFile problem_file(problem + (c.flip() ? "\n" : ""));
    const Pddl r(domain_file.path(), problem_file.path(), false);
    check(r, true, "problem file");
    PBT_CHECK(r.problem_pddl() == problem_file.path(), "problem_pddl()");
    const Pddl d(domain_file.path());
    check(d, false, "domain only");
    // Loading in turns does not mix them up.
    check(p, true, "first problem after loading others");
    bool constant = false, object = false;
    for (const Obj& x : w.objs) (x.constant ? constant : object) = true;
    if (constant && object && !w.acts.empty() && !w.init.empty()) c.nontrivial();
  }
  // Cut off or corrupted text.
  std::ostringstream quiet;
  auto rejected = [&](const std::string& d, const std::string& q) {
    std::streambuf* out = std::cout.rdbuf(quiet.rdbuf());
    std::streambuf* err = std::cerr.rdbuf(quiet.rdbuf());
    const bool r = Rejected([&] { LoadText(d, q); });
    std::cout.rdbuf(out);
    std::cerr.rdbuf(err);
    return r;
  };
  {
    // The last parenthesis of the domain, or any rest of it, is missing.
    const size_t end = domain.find_last_of(')');
    const size_t cut = c.flip() ? end : c.below(static_cast<uint32_t>(end));
    PBT_CHECK(rejected(domain.substr(0, cut), problem), "the domain cut off at " << cut << " is accepted");
  }
  {
    const size_t end = problem.find_last_of(')');
    const size_t cut = c.flip() ? end : c.below(static_cast<uint32_t>(end) - 1) + 1;
    PBT_CHECK(rejected(domain, problem.substr(0, cut)), "the problem cut off at " << cut << " is accepted");
    PBT_CHECK(rejected(domain, "/nosuch/problem.pddl"), "a missing problem file is accepted");
    PBT_CHECK(rejected(domain, "nosuchproblem.pddl"), "a missing problem file is accepted");
    PBT_CHECK(rejected("", problem), "an empty domain is accepted");
    PBT_CHECK(Rejected([&] { Pddl q("/nosuch/domain.pddl", problem); }), "a missing domain file is accepted");
    PBT_CHECK(rejected(problem, problem) && rejected(domain, domain), "a problem is accepted for a domain, or a domain for a problem");
  }
  // Still loads as before.
  const Pddl p(domain_file.path(), problem, false);
  check(p, true, "problem text loaded again");
}

namespace {

bool MentionsAny(const F& f, const std::set<std::string>& names) {
  for (const Term& t : f.terms) {
    if (!t.var && names.count(t.name)) return true;
  }
  for (const F& g : f.subs) {
    if (MentionsAny(g, names)) return true;
  }
  return false;
}

template <typename G>
std::vector<std::string> AllArguments(const Pddl& p, const G& g) {
  std::vector<std::string> r;
  for (const std::vector<Object>& args : ParameterGenerator(p, g.parameters())) r.push_back(CallText(g.name(), FromObjects(args)));
  return r;
}

// Everything that enumerates objects agrees with a problem loaded from a text
// which lists these objects.  The goal keeps speaking of the object that was
// removed when one of the same name comes back.
void CheckAsLoaded(pbt::Ctx& c, const World& w, const std::vector<Obj>& objs, const std::set<std::string>& gone, const Pddl& p) {
  World now = w;
  now.objs = objs;
  now.init.clear();
  const bool goal = !MentionsAny(w.goal, gone);
  if (!goal) now.goal = F();
  const std::unique_ptr<Pddl> fresh = LoadText(DomainText(now), ProblemText(now));
  const Pddl& q = *fresh;
  std::set<std::string> keys;
  for (const auto& kv : p.object_map()) keys.insert(kv.first);
  for (const auto& kv : q.object_map()) keys.insert(kv.first);
  for (const std::string& key : keys) {
    const auto a = p.object_map().find(key), b = q.object_map().find(key);
    const Args as = a == p.object_map().end() ? Args() : FromObjects(a->second);
    const Args bs = b == q.object_map().end() ? Args() : FromObjects(b->second);
    PBT_CHECK(as == bs, "the objects of type " << key << " are " << CallText("", as) << ", expected " << CallText("", bs));
  }
  for (size_t i = 0; i < now.preds.size(); i++) PBT_CHECK(AllArguments(p, p.predicates()[i]) == AllArguments(q, q.predicates()[i]), "the propositions of " << now.preds[i].name << " do not follow the objects");
  PBT_CHECK(p.state_index().size() == q.state_index().size(), "the state index has " << p.state_index().size() << " propositions, expected " << q.state_index().size());
  for (size_t i = 0; i < q.state_index().size(); i++) PBT_CHECK(p.state_index().GetProposition(i).to_string() == q.state_index().GetProposition(i).to_string(), "proposition " << i << " of the state index is " << p.state_index().GetProposition(i));
  for (size_t i = 0; i < now.acts.size(); i++) PBT_CHECK(AllArguments(p, p.actions()[i]) == AllArguments(q, q.actions()[i]), "the calls of " << now.acts[i].name << " do not follow the objects");
  for (int k = 0; k < 2; k++) {
    const MState m = GenState(c, now);
    const State s = ToState(p, m), t = ToState(q, m);
    const std::vector<std::string> calls = q.ListValidActions(t);
    PBT_CHECK(p.ListValidActions(s) == calls, "after the changes other calls are valid in " << model::Show(m));
    for (size_t i = 0; i < calls.size() && i < 10; i++) {
      const MState a = FromState(p.NextState(s, calls[i])), b = FromState(q.NextState(t, calls[i]));
      PBT_CHECK(a == b, "after the changes " << calls[i] << " leads from " << model::Show(m) << " to " << model::Show(a) << ", expected " << model::Show(b));
    }
    const MState a = FromState(p.DerivedState(s)), b = FromState(q.DerivedState(t));
    PBT_CHECK(a == b, "after the changes " << model::Show(a) << " is derived, expected " << model::Show(b));
    if (goal) PBT_CHECK(p.goal()(s) == q.goal()(t) && p.goal()(s) == Eval(now, w.goal, {}, m), "after the changes the goal " << Show(w.goal, w) << " is " << p.goal()(s) << " in " << model::Show(m));
  }
}

}  // namespace

PBT_TARGET(C26_objects, "objects were added and removed, one of them again after its removal") {
  Opts o = LoadOpts();
  o.max_ground = 100;
  o.axioms = c.chance(1, 4) ? 2 : 0;
  o.derived = c.chance(1, 4);
  o.formula_depth = 2;
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c);
  std::vector<Obj> objs = w.objs;
  std::vector<std::pair<Proposition, std::string>> kept;
  std::set<std::string> removed, gone;  // now, and at any time
  bool added = false, again = false;
  // References taken now are used to the end.
  std::vector<const Action*> actions;
  std::vector<const Predicate*> predicates;
  for (const Action& a : p->actions()) actions.push_back(&a);
  for (const Predicate& q : p->predicates()) predicates.push_back(&q);
  static const std::vector<std::string> kNew = {"new1", "new2", "new", "obj2", "table2"};
  auto check = [&] {
    Args names;
    for (const Obj& x : objs) names.push_back(x.name);
    PBT_CHECK(FromObjects(p->objects()) == names, "the objects are " << CallText("", FromObjects(p->objects())) << ", expected " << CallText("", names));
    for (size_t i = 0; i < objs.size(); i++) {
      PBT_CHECK(p->objects()[i].type().name() == w.TypeName(objs[i].type) && p->objects()[i].type().ListTypes() == w.TypeChain(objs[i].type), "object " << objs[i].name << " has type " << p->objects()[i].type());
      const Object x(*p, objs[i].name);
      PBT_CHECK(x == p->objects()[i] && x.type().ListTypes() == w.TypeChain(objs[i].type), "object " << objs[i].name << " found by name");
      const Proposition q(*p, "p(" + objs[i].name + ", " + objs[0].name + ")");
      PBT_CHECK(FromObjects(q.arguments()) == (Args{objs[i].name, objs[0].name}), "the proposition parsed is " << q);
    }
    for (const std::string& x : removed) {
      PBT_CHECK(Rejected([&] { Object obj(*p, x); }), "the removed object " << x << " is known");
      PBT_CHECK(Rejected([&] { Proposition q(*p, "p(" + x + ")"); }), "a proposition about the removed object " << x << " is accepted");
    }
    World now = w;
    now.objs = objs;
    for (size_t i = 0; i < actions.size(); i++) {
      const Action& a = *actions[i];
      const size_t n = now.TupleCount(w.acts[i].params);
      PBT_CHECK(a.name() == w.acts[i].name && a.parameter_generator().size() == n, "the action " << a << " has " << a.parameter_generator().size() << " argument tuples, expected " << n);
      if (n > 0) PBT_CHECK(now.Tuples(w.acts[i].params).back() == FromObjects(a.parameter_generator()[static_cast<int>(n) - 1]), "the last arguments of " << a);
    }
    for (size_t i = 0; i < predicates.size(); i++) {
      const Predicate& q = *predicates[i];
      const size_t n = now.TupleCount(w.preds[i].params);
      PBT_CHECK(q.name() == w.preds[i].name && q.parameter_generator().size() == n, "the predicate " << q << " has " << q.parameter_generator().size() << " argument tuples, expected " << n);
    }
    for (const auto& k : kept) PBT_CHECK(k.first.to_string() == k.second, "a proposition about a removed object prints " << k.first);
  };
  check();
  const int ops = c.range(1, 10);
  for (int k = 0; k < ops; k++) {
    if (c.flip()) {
      const std::string name = !removed.empty() && c.flip() ? *removed.begin() : c.pick(kNew);
      bool known = false;
      for (const Obj& x : objs) known |= x.name == name;
      if (known) continue;
      const int type = w.types.empty() ? -1 : c.range(-1, static_cast<int>(w.types.size()) - 1);
      PBT_LOG(c, "add " << name << " - " << w.TypeName(type));
      p->AddObject(name, w.TypeName(type));
      objs.push_back({name, type, false});
      again |= removed.erase(name) > 0;
      added = true;
    } else {
      std::vector<size_t> can;
      for (size_t i = 0; i < objs.size(); i++) {
        if (!objs[i].constant) can.push_back(i);
      }
      if (can.empty()) continue;
      const size_t i = c.pick(can);
      const std::string name = objs[i].name;
      PBT_LOG(c, "remove " << name);
      if (c.flip()) kept.emplace_back(Proposition(*p, "p(" + name + ")"), "p(" + name + ")");
      p->RemoveObject(name);
      if (c.chance(1, 3)) p->RemoveObject("nosuchobject");
      objs.erase(objs.begin() + static_cast<long>(i));
      removed.insert(name);
      gone.insert(name);
    }
    check();
    if (c.chance(1, 3)) CheckAsLoaded(c, w, objs, gone, *p);
  }
  CheckAsLoaded(c, w, objs, gone, *p);
  if (added && again) c.nontrivial();
}
