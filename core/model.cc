#include "model.h"

#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>

namespace model {

// --- world ----------------------------------------------------------------------
bool World::IsSub(int t, int ancestor) const {
  if (ancestor < 0) return true;
  for (; t >= 0; t = types[t].parent) {
    if (t == ancestor) return true;
  }
  return false;
}
std::vector<std::string> World::TypeChain(int t) const {
  std::vector<std::string> r;
  for (; t >= 0; t = types[t].parent) r.push_back(types[t].name);
  r.push_back("object");
  return r;
}
int World::ObjType(const std::string& name) const {
  for (const Obj& o : objs) {
    if (o.name == name) return o.type;
  }
  return -2;
}
std::vector<std::string> World::ObjsOf(int type) const {
  std::vector<std::string> r;
  for (const Obj& o : objs) {
    if (IsSub(o.type, type)) r.push_back(o.name);
  }
  return r;
}
std::vector<Args> World::Tuples(const Params& params) const {
  std::vector<Args> r = {{}};
  for (const Param& p : params) {
    const std::vector<std::string> os = ObjsOf(p.type);
    std::vector<Args> next;
    for (const Args& a : r) {
      for (const std::string& o : os) {
        next.push_back(a);
        next.back().push_back(o);
      }
    }
    r = std::move(next);
  }
  return r;
}
size_t World::TupleCount(const Params& params) const {
  size_t n = 1;
  for (const Param& p : params) n *= ObjsOf(p.type).size();
  return n;
}
const Pred* World::FindPred(const std::string& name) const {
  for (const Pred& p : preds) {
    if (p.name == name) return &p;
  }
  return nullptr;
}
std::vector<Atom> World::GroundAtoms(bool basic_only) const {
  std::vector<Atom> r;
  for (const Pred& p : preds) {
    if (basic_only && p.level > 0) continue;
    for (const Args& a : Tuples(p.params)) {
      r.push_back({p.name});
      r.back().insert(r.back().end(), a.begin(), a.end());
    }
  }
  return r;
}

// --- semantics --------------------------------------------------------------------
std::string Ground(const Term& t, const Env& env) {
  if (!t.var) return t.name;
  for (auto it = env.rbegin(); it != env.rend(); ++it) {
    if (it->first == t.name) return it->second;
  }
  throw std::logic_error("model: unbound variable " + t.name);
}
Atom GroundAtom(const std::string& name, const std::vector<Term>& terms, const Env& env) {
  Atom a = {name};
  for (const Term& t : terms) a.push_back(Ground(t, env));
  return a;
}
Env MakeEnv(const Params& params, const Args& args) {
  Env e;
  for (size_t i = 0; i < params.size(); i++) e.emplace_back(params[i].name, args[i]);
  return e;
}
static Env Extend(Env e, const Params& params, const Args& args) {
  for (size_t i = 0; i < params.size(); i++) e.emplace_back(params[i].name, args[i]);
  return e;
}
static int TypeIndex(const World& w, const std::string& name) {
  for (size_t i = 0; i < w.types.size(); i++) {
    if (w.types[i].name == name) return static_cast<int>(i);
  }
  return -1;
}

bool Eval(const World& w, const F& f, const Env& env, const MState& s) {
  switch (f.kind) {
    case F::kAtom: return s.count(GroundAtom(f.name, f.terms, env)) > 0;
    case F::kEq: return Ground(f.terms[0], env) == Ground(f.terms[1], env);
    case F::kType: return w.IsSub(w.ObjType(Ground(f.terms[0], env)), TypeIndex(w, f.name));
    case F::kNot: return !Eval(w, f.subs[0], env, s);
    case F::kAnd:
      for (const F& g : f.subs) {
        if (!Eval(w, g, env, s)) return false;
      }
      return true;
    case F::kOr:
      for (const F& g : f.subs) {
        if (Eval(w, g, env, s)) return true;
      }
      return false;
    case F::kForall:
    case F::kExists:
      for (const Args& a : w.Tuples(f.vars)) {
        if (Eval(w, f.subs[0], Extend(env, f.vars, a), s) != (f.kind == F::kForall)) return f.kind == F::kExists;
      }
      return f.kind == F::kForall;
  }
  return false;
}

void Mentioned(const World& w, const F& f, const Env& env, MState* out) {
  if (f.kind == F::kAtom) out->insert(GroundAtom(f.name, f.terms, env));
  if (f.kind == F::kForall || f.kind == F::kExists) {
    for (const Args& a : w.Tuples(f.vars)) Mentioned(w, f.subs[0], Extend(env, f.vars, a), out);
    return;
  }
  for (const F& g : f.subs) Mentioned(w, g, env, out);
}

size_t GroundSize(const World& w, const F& f) {
  size_t n = f.subs.empty() ? 1 : 0;
  for (const F& g : f.subs) n += GroundSize(w, g);
  for (const Param& p : f.vars) n *= w.ObjsOf(p.type).size();
  return n + 1;
}

void Effects(const World& w, const std::vector<E>& eff, const Env& env, const MState& pre, MState* add, MState* del) {
  for (const E& e : eff) {
    switch (e.kind) {
      case E::kAdd: add->insert(GroundAtom(e.name, e.terms, env)); break;
      case E::kDel: del->insert(GroundAtom(e.name, e.terms, env)); break;
      case E::kForall:
        for (const Args& a : w.Tuples(e.vars)) Effects(w, e.subs, Extend(env, e.vars, a), pre, add, del);
        break;
      case E::kWhen:
        if (Eval(w, e.cond, env, pre)) Effects(w, e.subs, env, pre, add, del);
        break;
    }
  }
}
bool HasWhen(const std::vector<E>& eff) {
  for (const E& e : eff) {
    if (e.kind == E::kWhen || HasWhen(e.subs)) return true;
  }
  return false;
}
bool Contradicts(const MState& add, const MState& del) {
  for (const Atom& a : add) {
    if (del.count(a)) return true;
  }
  return false;
}
MState ApplyTo(const MState& s, const MState& add, const MState& del) {
  MState r;
  for (const Atom& a : s) {
    if (!del.count(a)) r.insert(a);
  }
  r.insert(add.begin(), add.end());
  return r;
}

MState Derive(const World& w, const MState& s) {
  MState r;
  for (const Atom& a : s) {
    const Pred* p = w.FindPred(a[0]);
    if (p == nullptr || p->level == 0) r.insert(a);
  }
  int top = 0;
  for (const Pred& p : w.preds) top = std::max(top, p.level);
  for (int level = 1; level <= top; level++) {
    for (;;) {
      // All the consequences of one round are found before they are added.
      MState found;
      for (const Rule& rule : w.rules) {
        if (w.preds[rule.pred].level != level) continue;
        for (const Args& args : w.Tuples(rule.params)) {
          Atom a = {w.preds[rule.pred].name};
          a.insert(a.end(), args.begin(), args.end());
          if (!r.count(a) && Eval(w, rule.body, MakeEnv(rule.params, args), r)) found.insert(a);
        }
      }
      if (found.empty()) break;
      r.insert(found.begin(), found.end());
    }
  }
  return r;
}

static bool EqHolds(const World& w, const Atom& a) {
  if (a[0] == "=") return a[1] == a[2];
  return w.IsSub(w.ObjType(a[1]), TypeIndex(w, a[0]));
}
static bool IsRigid(const World& w, const Atom& a) {
  return a[0] == "=" || w.FindPred(a[0]) == nullptr;
}

bool AxiomsHold(const World& w, const MState& s) {
  for (const Ax& x : w.axioms) {
    for (const Args& args : w.Tuples(x.params)) {
      const Env env = MakeEnv(x.params, args);
      if (Eval(w, x.context, env, s) != x.pos) continue;
      MState add, del;
      Effects(w, x.eff, env, s, &add, &del);
      for (const Atom& a : add) {
        if (IsRigid(w, a) ? !EqHolds(w, a) : !s.count(a)) return false;
      }
      for (const Atom& a : del) {
        if (IsRigid(w, a) ? EqHolds(w, a) : s.count(a) > 0) return false;
      }
    }
  }
  return true;
}

MState Close(const World& w, MState s) {
  for (;;) {
    MState next = s;
    for (const Ax& x : w.axioms) {
      for (const Args& args : w.Tuples(x.params)) {
        const Env env = MakeEnv(x.params, args);
        if (Eval(w, x.context, env, s) != x.pos) continue;
        MState add, del;
        Effects(w, x.eff, env, s, &add, &del);
        for (const Atom& a : add) {
          if (!IsRigid(w, a)) next.insert(a);
        }
        for (const Atom& a : del) next.erase(a);
      }
    }
    if (next == s) return s;
    s = std::move(next);
  }
}

// --- text -----------------------------------------------------------------------------
static std::string ShowTerm(const Term& t) { return (t.var ? "?" : "") + t.name; }
static std::string ShowParams(const Params& ps, const World& w) {
  std::string r;
  for (size_t i = 0; i < ps.size(); i++) {
    if (i) r += " ";
    r += "?" + ps[i].name;
    // Adjacent parameters of one type share it; a trailing untyped group is
    // left untyped.
    if (i + 1 < ps.size() && ps[i + 1].type == ps[i].type) continue;
    if (ps[i].type < 0 && i + 1 == ps.size()) continue;
    r += " - " + w.TypeName(ps[i].type);
  }
  return r;
}
static std::string ShowAtomF(const std::string& name, const std::vector<Term>& terms) {
  std::string r = "(" + name;
  for (const Term& t : terms) r += " " + ShowTerm(t);
  return r + ")";
}
std::string Show(const F& f, const World& w) {
  switch (f.kind) {
    case F::kAtom:
    case F::kType: return ShowAtomF(f.name, f.terms);
    case F::kEq: return ShowAtomF("=", f.terms);
    case F::kNot: return "(not " + Show(f.subs[0], w) + ")";
    case F::kAnd:
    case F::kOr: {
      std::string r = f.kind == F::kAnd ? "(and" : "(or";
      for (const F& g : f.subs) r += " " + Show(g, w);
      return r + ")";
    }
    case F::kForall:
    case F::kExists:
      return std::string(f.kind == F::kForall ? "(forall (" : "(exists (") + ShowParams(f.vars, w) + ") " + Show(f.subs[0], w) + ")";
  }
  return "";
}
static std::string ShowE(const E& e, const World& w) {
  switch (e.kind) {
    case E::kAdd: return ShowAtomF(e.name, e.terms);
    case E::kDel: return "(not " + ShowAtomF(e.name, e.terms) + ")";
    case E::kForall: return "(forall (" + ShowParams(e.vars, w) + ") " + Show(e.subs, w) + ")";
    case E::kWhen: return "(when " + Show(e.cond, w) + " " + Show(e.subs, w) + ")";
  }
  return "";
}
std::string Show(const std::vector<E>& eff, const World& w) {
  if (eff.size() == 1) return ShowE(eff[0], w);
  std::string r = "(and";
  for (const E& e : eff) r += " " + ShowE(e, w);
  return r + ")";
}
std::string CallText(const std::string& name, const Args& args) {
  std::string r = name + "(";
  for (size_t i = 0; i < args.size(); i++) r += (i ? ", " : "") + args[i];
  return r + ")";
}
std::string Show(const Atom& a) { return CallText(a[0], Args(a.begin() + 1, a.end())); }
std::string Show(const MState& s) {
  std::string r = "{";
  for (const Atom& a : s) r += (r.size() > 1 ? ", " : "") + Show(a);
  return r + "}";
}

static std::string ShowObjs(const World& w, bool constants) {
  std::vector<const Obj*> os;
  for (const Obj& o : w.objs) {
    if (o.constant == constants) os.push_back(&o);
  }
  std::string r;
  for (size_t i = 0; i < os.size(); i++) {
    r += " " + os[i]->name;
    if (i + 1 < os.size() && os[i + 1]->type == os[i]->type) continue;
    if (os[i]->type < 0 && i + 1 == os.size()) continue;
    r += " - " + w.TypeName(os[i]->type);
  }
  return r;
}

std::string DomainText(const World& w, pbt::Ctx* c) {
  std::ostringstream t;
  t << "(define (domain " << w.domain_name << ")\n";
  t << "  (:requirements :strips :typing)\n";
  if (!w.types.empty()) {
    t << "  (:types";
    for (size_t i = 0; i < w.types.size(); i++) {
      const Type& ty = w.types[i];
      t << " " << ty.name;
      if (ty.parent >= 0) {
        t << " - " << w.types[ty.parent].name;
      } else {
        // Only a trailing group can stay without a parent.
        bool tail = true;
        for (size_t k = i; k < w.types.size(); k++) {
          if (w.types[k].parent >= 0 || w.types[k].writes_object) tail = false;
        }
        if (!tail) t << " - object";
      }
      t << "\n";
    }
    t << "  )\n";
  }
  bool has_const = false;
  for (const Obj& o : w.objs) has_const |= o.constant;
  if (has_const) t << "  (:constants" << ShowObjs(w, true) << ")\n";
  if (!w.preds.empty()) {
    t << "  (:predicates";
    for (const Pred& p : w.preds) t << " (" << p.name << (p.params.empty() ? "" : " ") << ShowParams(p.params, w) << ")\n";
    t << "  )\n";
  }
  for (const Rule& r : w.rules) {
    const Pred& p = w.preds[r.pred];
    t << "  (:derived (" << p.name << (r.params.empty() ? "" : " ") << ShowParams(r.params, w) << ") " << Show(r.body, w) << ")\n";
  }
  std::vector<std::string> ops;
  for (const Act& a : w.acts) {
    std::ostringstream o;
    o << "  (:action " << a.name << " :parameters (" << ShowParams(a.params, w) << ")\n";
    if (!(a.pre.kind == F::kAnd && a.pre.subs.empty())) o << "    :precondition " << Show(a.pre, w) << "\n";
    o << "    :effect " << Show(a.eff, w) << ")\n";
    ops.push_back(o.str());
  }
  size_t at = 0;
  for (const Ax& x : w.axioms) {
    std::ostringstream o;
    o << "  (:axiom :vars (" << ShowParams(x.params, w) << ")\n    :context ";
    o << (x.pos ? Show(x.context, w) : "(not " + Show(x.context, w) + ")") << "\n";
    o << "    :implies " << Show(x.eff, w) << ")\n";
    // Axioms and actions may be mixed, each in their own order.
    if (c != nullptr) at += c->below(static_cast<uint32_t>(ops.size() - at + 1));
    ops.insert(ops.begin() + static_cast<long>(at), o.str());
    at++;
  }
  for (const std::string& s : ops) t << s;
  t << ")\n";
  return t.str();
}

std::string ProblemText(const World& w, pbt::Ctx*) {
  std::ostringstream t;
  t << "(define (problem " << w.problem_name << ")\n  (:domain " << w.domain_name << ")\n";
  bool has_obj = false;
  for (const Obj& o : w.objs) has_obj |= !o.constant;
  if (has_obj) t << "  (:objects" << ShowObjs(w, false) << ")\n";
  t << "  (:init";
  for (const Atom& a : w.init) {
    t << " (" << a[0];
    for (size_t i = 1; i < a.size(); i++) t << " " << a[i];
    t << ")";
  }
  t << ")\n  (:goal " << Show(w.goal, w) << ")\n)";
  return t.str();
}

// --- generation -----------------------------------------------------------------------------
static const std::vector<std::string> kVarNames = {"x", "y", "z", "a", "b", "box"};
static const std::vector<std::string> kPlainVarNames = {"x", "y", "z", "u", "v", "w"};

Params GenParams(pbt::Ctx& c, const World& w, int max, bool objs_needed, bool clash) {
  Params ps;
  const std::vector<std::string>& names = clash ? kVarNames : kPlainVarNames;
  if (max == 3 && c.chance(1, 30)) max = 5;
  const int n = c.range(0, max);
  for (int i = 0; i < n; i++) {
    std::string name = names[i % names.size()];
    // Sometimes start from a name that objects use as well.
    if (clash && c.chance(1, 4)) name = names[(i + 3) % names.size()];
    bool dup = false;
    for (const Param& p : ps) dup |= p.name == name;
    if (dup) name = "v" + std::to_string(i);
    int type = -1;
    if (!w.types.empty()) type = c.range(-1, static_cast<int>(w.types.size()) - 1);
    if (objs_needed && w.ObjsOf(type).empty() && !c.chance(1, 8)) type = -1;
    ps.push_back({name, type});
  }
  return ps;
}

// The visible variables: inner ones shadow outer ones of the same name.
static std::vector<Param> Visible(const Params& scope) {
  std::vector<Param> v;
  for (auto it = scope.rbegin(); it != scope.rend(); ++it) {
    bool hidden = false;
    for (const Param& p : v) hidden |= p.name == it->name;
    if (!hidden) v.push_back(*it);
  }
  std::reverse(v.begin(), v.end());
  return v;
}

static std::vector<Term> TermsOf(const World& w, const Params& scope, int type, bool constants_only) {
  std::vector<Term> r;
  for (const Param& p : Visible(scope)) {
    if (w.IsSub(p.type, type)) r.push_back({true, p.name});
  }
  for (const Obj& o : w.objs) {
    if (constants_only && !o.constant) continue;
    if (w.IsSub(o.type, type)) r.push_back({false, o.name});
  }
  return r;
}

static bool GenTerms(pbt::Ctx& c, const World& w, const Params& scope, const Params& params, bool constants_only, std::vector<Term>* out) {
  for (const Param& p : params) {
    const std::vector<Term> ts = TermsOf(w, scope, p.type, constants_only);
    if (ts.empty()) return false;
    // Variables come first; prefer them.
    size_t vars = 0;
    while (vars < ts.size() && ts[vars].var) vars++;
    if (vars > 0 && !c.chance(1, 5)) {
      out->push_back(ts[c.below(static_cast<uint32_t>(vars))]);
    } else {
      out->push_back(ts[c.below(static_cast<uint32_t>(ts.size()))]);
    }
  }
  return true;
}

static F True() { return F(); }

// Formulas in the domain may only name constants; those of the goal and of
// direct evaluations may name every object.
static F GenF(pbt::Ctx& c, const World& w, const Params& scope, int depth, const Opts& o, bool constants_only, int max_level, int neg_level, bool positive) {
  const int pick = depth <= 0 ? c.weighted({6, 2, 1}) : c.weighted({6, 2, 1, 4, 4, 4, 3, 3});
  switch (pick) {
    case 1:
      if (o.typed_goal_eq) {
        std::vector<Term> ts = TermsOf(w, scope, -1, constants_only);
        if (ts.size() < 1) break;
        F f;
        f.kind = F::kEq;
        f.terms = {c.pick(ts), c.pick(ts)};
        return f;
      }
      break;
    case 2:
      if (o.typed_goal_eq && !w.types.empty()) {
        std::vector<Term> ts = TermsOf(w, scope, -1, constants_only);
        if (ts.empty()) break;
        F f;
        f.kind = F::kType;
        f.name = c.pick(w.types).name;
        f.terms = {c.pick(ts)};
        return f;
      }
      break;
    case 3:
    case 4: {
      F f;
      f.kind = pick == 3 ? F::kAnd : F::kOr;
      const int n = c.weighted({1, 2, 6, 3});
      for (int i = 0; i < n; i++) f.subs.push_back(GenF(c, w, scope, depth - 1, o, constants_only, max_level, neg_level, positive));
      return f;
    }
    case 5: {
      F f;
      f.kind = F::kNot;
      f.subs.push_back(GenF(c, w, scope, depth - 1, o, constants_only, max_level, neg_level, !positive));
      return f;
    }
    case 6:
    case 7: {
      F f;
      f.kind = pick == 6 ? F::kForall : F::kExists;
      f.vars = GenParams(c, w, 2, true, o.name_clash);
      if (f.vars.empty()) f.vars.push_back({o.name_clash ? kVarNames[c.below(4)] : kPlainVarNames[c.below(3)], w.types.empty() ? -1 : c.range(-1, static_cast<int>(w.types.size()) - 1)});
      Params inner = scope;
      inner.insert(inner.end(), f.vars.begin(), f.vars.end());
      f.subs.push_back(GenF(c, w, inner, depth - 1, o, constants_only, max_level, neg_level, positive));
      return f;
    }
    default: break;
  }
  // An atom.
  std::vector<const Pred*> ps;
  for (const Pred& p : w.preds) {
    if (p.level > max_level || (!positive && p.level > neg_level)) continue;
    ps.push_back(&p);
  }
  for (int tries = 0; tries < 3 && !ps.empty(); tries++) {
    const Pred* p = c.pick(ps);
    F f;
    f.kind = F::kAtom;
    f.name = p->name;
    if (GenTerms(c, w, scope, p->params, constants_only, &f.terms)) return f;
  }
  return True();
}

F GenFormula(pbt::Ctx& c, const World& w, const Params& scope, int depth, const Opts& o, int max_level, bool) {
  return GenF(c, w, scope, depth, o, false, max_level, max_level, true);
}

static E GenLeaf(pbt::Ctx& c, const World& w, const Params& scope, const std::map<std::string, bool>& fixed, std::map<std::string, bool>* polarity, bool* ok) {
  E e;
  std::vector<const Pred*> ps;
  for (const Pred& p : w.preds) {
    if (p.level == 0) ps.push_back(&p);
  }
  *ok = false;
  for (int tries = 0; tries < 3 && !ps.empty(); tries++) {
    const Pred* p = c.pick(ps);
    e.terms.clear();
    if (!GenTerms(c, w, scope, p->params, true, &e.terms)) continue;
    e.name = p->name;
    bool add = c.flip();
    auto it = fixed.find(p->name);
    if (it != fixed.end()) {
      add = it->second;
    } else {
      // Mostly one polarity per predicate, so that few effects contradict.
      auto f = polarity->find(p->name);
      if (f == polarity->end()) {
        (*polarity)[p->name] = add;
      } else if (!c.chance(1, 6)) {
        add = f->second;
      }
    }
    e.kind = add ? E::kAdd : E::kDel;
    *ok = true;
    return e;
  }
  return e;
}

static std::vector<E> GenEffects(pbt::Ctx& c, const World& w, const Params& scope, int depth, const Opts& o, const std::map<std::string, bool>& fixed, std::map<std::string, bool>* polarity) {
  std::vector<E> r;
  const int n = c.weighted({1, 4, 4, 2});
  for (int i = 0; i < n; i++) {
    const int pick = depth <= 0 ? 0 : c.weighted({6, o.forall_effects ? 2 : 0, o.conditional ? 3 : 0});
    if (pick == 0) {
      bool ok;
      E e = GenLeaf(c, w, scope, fixed, polarity, &ok);
      if (ok) r.push_back(e);
    } else if (pick == 1) {
      E e;
      e.kind = E::kForall;
      e.vars = GenParams(c, w, 2, true, o.name_clash);
      if (e.vars.empty()) e.vars.push_back({"x", -1});
      Params inner = scope;
      inner.insert(inner.end(), e.vars.begin(), e.vars.end());
      e.subs = GenEffects(c, w, inner, depth - 1, o, fixed, polarity);
      r.push_back(e);
    } else {
      E e;
      e.kind = E::kWhen;
      e.cond = GenF(c, w, scope, 1, o, true, 1000, 1000, true);
      e.subs = GenEffects(c, w, scope, depth - 1, o, fixed, polarity);
      r.push_back(e);
    }
  }
  return r;
}

World GenWorld(pbt::Ctx& c, const Opts& opts) {
  World w;
  Opts o = opts;
  // Now and then, many more types, objects and predicates than usual.
  const bool many = o.many > 0 && c.chance(1, o.many);
  if (many) {
    o.max_types = o.max_types > 0 ? 9 : 0;
    o.max_objs = 40;
    o.max_preds = o.max_preds > 0 ? 14 : 0;
    o.max_ground = std::max<size_t>(o.max_ground, 1200);
  }
  std::vector<std::string> kTypes = {"movable", "t", "tool", "place"};
  std::vector<std::string> kObjs = {"a", "b", "box", "table", "x", "hook", "obj1", "obj10"};
  std::vector<std::string> kPreds = {"on", "p", "clear", "p1", "onto", "at"};
  // Other names: ones that run together to the same text, ones that sort
  // against their declaration, ones that types, objects and predicates share.
  switch (c.weighted({5, 2, 1, 1})) {
    case 1:
      kObjs = {"a", "ab", "b", "bb", "aa", "ba", "aab", "abb"};
      kPreds = {"p", "pa", "pab", "a", "on", "ona"};
      break;
    case 2:
      kObjs = {"z9", "z10", "y", "x", "t", "place", "a-b", "a_b"};
      kPreds = {"zz", "on", "m", "b", "a", "a-b"};
      kTypes = {"t9", "t10", "box", "c"};
      break;
    case 3:
      kObjs = {"on", "tool", "p", "object1", "obj", "o", "box", "x"};
      kPreds = {"p", "box", "on", "x", "obj", "not-on"};
      kTypes = {"o", "table", "z", "tool"};
      break;
  }
  while (many && kTypes.size() < 9) kTypes.push_back("kind" + std::to_string(kTypes.size()));
  while (many && kObjs.size() < 40) kObjs.push_back((kObjs.size() % 2 ? "thing" : "n") + std::to_string(kObjs.size()));
  while (many && kPreds.size() < 14) kPreds.push_back("rel" + std::to_string(kPreds.size()));
  const int nt = c.range(0, o.max_types);
  for (int i = 0; i < nt; i++) {
    // Parents may be declared before or after their children.
    w.types.push_back({kTypes[i], -1, c.flip()});
  }
  for (int i = 1; i < nt; i++) {
    if (c.chance(2, 3)) {
      const int other = c.range(0, i - 1);
      // Link one way or the other without making a cycle.
      if (c.chance(2, 3)) {
        w.types[i].parent = other;
      } else if (w.types[other].parent < 0) {
        int root = i;
        while (w.types[root].parent >= 0) root = w.types[root].parent;
        if (root != other) w.types[other].parent = i;
      }
    }
  }
  const int no = c.range(o.min_objs, o.max_objs);
  const int nc = c.chance(1, 2) ? c.range(0, no) : 0;
  for (int i = 0; i < no; i++) {
    w.objs.push_back({kObjs[i], nt == 0 ? -1 : c.range(-1, nt - 1), i < nc});
  }
  const int np = c.range(o.min_preds, o.max_preds);
  for (int i = 0; i < np; i++) {
    Pred p;
    p.name = kPreds[i];
    p.params = GenParams(c, w, o.max_arity, true, o.name_clash);
    w.preds.push_back(p);
    while (w.preds.back().params.size() > 1 && w.TupleCount(w.preds.back().params) > o.max_ground) w.preds.back().params.pop_back();
    if (w.GroundAtoms().size() > o.max_ground && p.params.size() > 1) w.preds.back().params.resize(1);
    if (w.GroundAtoms().size() > o.max_ground) w.preds.back().params.clear();
  }
  if (o.derived && np > 0) {
    // The last predicates are derived, each in a stratum not below the one
    // before it.
    const int nd = c.range(0, std::min(3, np));
    int level = 1;
    for (int i = np - nd; i < np; i++) {
      if (i > np - nd && c.flip()) level++;
      w.preds[i].level = level;
    }
    if (nd > 0) {
      const int nr = c.range(nd, nd + 3);
      for (int i = 0; i < nr; i++) {
        Rule r;
        r.pred = i < nd ? np - nd + i : c.range(np - nd, np - 1);
        r.params = w.preds[r.pred].params;
        const int lv = w.preds[r.pred].level;
        for (Param& p : r.params) {
          // A rule may be about a subtype.
          if (c.chance(1, 5)) {
            for (int t = 0; t < nt; t++) {
              if (w.IsSub(t, p.type)) p.type = t;
            }
          }
        }
        r.body = GenF(c, w, r.params, c.range(0, 2), o, true, lv, lv - 1, true);
        w.rules.push_back(r);
      }
      // Any order of the rules.
      for (size_t i = w.rules.size(); i > 1; i--) std::swap(w.rules[i - 1], w.rules[c.below(static_cast<uint32_t>(i))]);
    }
  }
  std::map<std::string, bool> fixed;  // polarity of axiom consequences
  if (o.axioms > 0) {
    std::set<std::pair<std::string, bool>> contexts;
    const int nx = c.range(0, o.axioms);
    for (int i = 0; i < nx; i++) {
      Ax x;
      std::vector<const Pred*> ps;
      for (const Pred& p : w.preds) {
        if (p.level == 0) ps.push_back(&p);
      }
      if (ps.empty()) break;
      const Pred* p = c.pick(ps);
      x.pos = !c.chance(1, 3);
      // A consequence must not undo a context.
      auto it = fixed.find(p->name);
      if (it != fixed.end()) x.pos = it->second;
      x.params = p->params;
      x.context.kind = F::kAtom;
      x.context.name = p->name;
      for (Param& q : x.params) {
        if (c.chance(1, 5)) {
          for (int t = 0; t < nt; t++) {
            if (w.IsSub(t, q.type)) q.type = t;
          }
        }
      }
      for (const Param& q : x.params) x.context.terms.push_back({true, q.name});
      // Repeated variables and constants in the context.
      if (x.params.size() >= 2 && c.chance(1, 4) && w.IsSub(x.params[0].type, p->params[1].type)) x.context.terms[1] = x.context.terms[0];
      if (!x.params.empty() && c.chance(1, 6)) {
        const size_t k = c.below(static_cast<uint32_t>(x.params.size()));
        std::vector<Term> ts = TermsOf(w, {}, p->params[k].type, true);
        if (!ts.empty()) x.context.terms[k] = c.pick(ts);
      }
      // Parameters outside of the context.
      if (c.chance(1, 5)) x.params.push_back({"extra", nt == 0 ? -1 : c.range(-1, nt - 1)});
      if (c.chance(1, 3)) std::reverse(x.params.begin(), x.params.end());
      const int ne = c.weighted({0, 5, 2});
      for (int k = 0; k < ne; k++) {
        if (o.axiom_eq && c.chance(1, 3)) {
          std::vector<Term> ts = TermsOf(w, x.params, -1, true);
          if (ts.empty()) continue;
          E e;
          e.kind = c.flip() ? E::kAdd : E::kDel;
          if (nt > 0 && c.chance(1, 3)) {
            e.name = c.pick(w.types).name;
            e.terms = {c.pick(ts)};
            if (w.ObjsOf(TypeIndex(w, e.name)).empty()) continue;
          } else {
            e.name = "=";
            e.terms = {c.pick(ts), c.pick(ts)};
          }
          x.eff.push_back(e);
          continue;
        }
        const Pred* q = c.pick(ps);
        bool add = c.flip();
        if (fixed.count(q->name)) add = fixed[q->name];
        // Contexts that use this predicate must agree with the consequence.
        if (q == p) add = x.pos;
        if (contexts.count({q->name, !add})) {
          if (contexts.count({q->name, add})) continue;
          add = !add;
          if (fixed.count(q->name) && fixed[q->name] != add) continue;
          if (q == p && add != x.pos) continue;
        }
        E e;
        e.name = q->name;
        if (!GenTerms(c, w, x.params, q->params, true, &e.terms)) continue;
        e.kind = add ? E::kAdd : E::kDel;
        fixed[q->name] = add;
        x.eff.push_back(e);
      }
      if (x.eff.empty()) continue;
      contexts.insert({p->name, x.pos});
      w.axioms.push_back(x);
    }
  }
  static const std::vector<std::string> kActs = {"pick", "place", "push", "pic"};
  const int na = c.range(o.min_acts, o.max_acts);
  for (int i = 0; i < na; i++) {
    Act a;
    a.name = kActs[i];
    a.params = GenParams(c, w, 3, true, o.name_clash);
    while (w.TupleCount(a.params) > 130 && a.params.size() > 2) a.params.pop_back();
    if (!c.chance(1, 6)) a.pre = GenF(c, w, a.params, o.pre_depth_small ? 1 : c.range(0, o.formula_depth - 1), o, true, 1000, 1000, true);
    std::map<std::string, bool> polarity;
    a.eff = GenEffects(c, w, a.params, 2, o, fixed, &polarity);
    w.acts.push_back(a);
  }
  for (const Atom& a : w.GroundAtoms(true)) {
    if (c.chance(2, 5)) w.init.insert(a);
    if (w.init.size() > 60) break;
  }
  w.goal = GenF(c, w, {}, c.range(0, o.formula_depth), o, false, 1000, 1000, true);
  return w;
}

MState GenState(pbt::Ctx& c, const World& w, bool basic_only) {
  MState s;
  const std::vector<Atom> all = w.GroundAtoms(basic_only);
  const int den = c.pick(std::vector<int>{2, 4, 1, 8});
  for (const Atom& a : all) {
    if (den == 1 ? !c.chance(1, 6) : c.chance(1, den)) s.insert(a);
  }
  return s;
}

// --- bridge -------------------------------------------------------------------------------
TempFile::TempFile(const std::string& text) {
  fd_ = memfd_create("pddl", 0);
  if (fd_ >= 0) {
    path_ = "/proc/self/fd/" + std::to_string(fd_);
    if (access(path_.c_str(), R_OK) != 0) {
      close(fd_);
      fd_ = -1;
    }
  }
  if (fd_ < 0) {
    char name[] = "/tmp/verif-pddl-XXXXXX";
    fd_ = mkstemp(name);
    path_ = name;
    unlink_ = true;
  }
  size_t done = 0;
  while (done < text.size()) {
    const ssize_t n = write(fd_, text.data() + done, text.size() - done);
    if (n <= 0) throw std::logic_error("cannot write the domain file");
    done += static_cast<size_t>(n);
  }
}
TempFile::~TempFile() {
  close(fd_);
  if (unlink_) unlink(path_.c_str());
}

std::unique_ptr<symbolic::Pddl> LoadText(const std::string& domain, const std::string& problem, bool apply_axioms) {
  TempFile f(domain);
  return std::make_unique<symbolic::Pddl>(f.path(), problem, apply_axioms);
}
std::unique_ptr<symbolic::Pddl> Load(const World& w, pbt::Ctx& c, bool apply_axioms) {
  const std::string d = DomainText(w, &c), p = ProblemText(w, &c);
  PBT_LOG(c, d << p);
  return LoadText(d, p, apply_axioms);
}
std::vector<symbolic::Object> ToObjects(const symbolic::Pddl& p, const Args& args) {
  std::vector<symbolic::Object> r;
  for (const std::string& a : args) r.emplace_back(p, a);
  return r;
}
symbolic::Proposition ToProp(const symbolic::Pddl& p, const Atom& a) {
  return symbolic::Proposition(a[0], ToObjects(p, Args(a.begin() + 1, a.end())));
}
symbolic::State ToState(const symbolic::Pddl& p, const MState& s, pbt::Ctx* c) {
  std::vector<Atom> v(s.begin(), s.end());
  if (c != nullptr && c->flip()) std::reverse(v.begin(), v.end());
  symbolic::State r;
  for (const Atom& a : v) r.insert(ToProp(p, a));
  return r;
}
std::set<std::string> ToStrings(const MState& s) {
  std::set<std::string> r;
  for (const Atom& a : s) r.insert(Show(a));
  return r;
}
Atom FromProp(const symbolic::PropositionBase& p) {
  Atom a = {p.name()};
  for (const symbolic::Object& o : p.arguments()) a.push_back(o.name());
  return a;
}
MState FromState(const symbolic::State& s) {
  MState r;
  for (const symbolic::Proposition& p : s) {
    const bool fresh = r.insert(FromProp(p)).second;
    PBT_CHECK(fresh, "the state lists " << p << " twice");
  }
  PBT_CHECK(r.size() == s.size(), "the state's size is " << s.size() << " but it lists " << r.size() << " propositions");
  return r;
}
Args FromObjects(const std::vector<symbolic::Object>& v) {
  Args r;
  for (const symbolic::Object& o : v) r.push_back(o.name());
  return r;
}
const symbolic::Action& FindAction(const symbolic::Pddl& p, const std::string& name) {
  for (const symbolic::Action& a : p.actions()) {
    if (a.name() == name) return a;
  }
  PBT_FAIL("the loaded problem has no action " << name);
}

}  // namespace model
