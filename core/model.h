// Reference model of a planning problem: an abstract syntax, a PDDL writer, a
// random generator and a direct (closed-world, set-based) semantics.  Nothing
// here uses the library except the conversion functions at the end.
#ifndef VERIF_CORE_MODEL_H_
#define VERIF_CORE_MODEL_H_

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "pbt.h"
#include "symbolic/pddl.h"

namespace model {

using Atom = std::vector<std::string>;  // predicate, arguments
using MState = std::set<Atom>;
using Args = std::vector<std::string>;
using Env = std::vector<std::pair<std::string, std::string>>;  // inner last

struct Param {
  std::string name;
  int type;  // index into World::types, -1 for object
};
using Params = std::vector<Param>;

struct Term {
  bool var;
  std::string name;
};

struct F {
  enum Kind { kAtom, kEq, kType, kAnd, kOr, kNot, kForall, kExists };
  Kind kind = kAnd;
  std::string name;  // predicate or type
  std::vector<Term> terms;
  std::vector<F> subs;
  Params vars;
};

struct E {
  enum Kind { kAdd, kDel, kForall, kWhen };
  Kind kind = kAdd;
  std::string name;
  std::vector<Term> terms;
  Params vars;
  F cond;
  std::vector<E> subs;
};

struct Pred {
  std::string name;
  Params params;
  int level = 0;  // 0: basic, otherwise the stratum of a derived predicate
};
struct Act {
  std::string name;
  Params params;
  F pre;
  std::vector<E> eff;
};
struct Ax {
  Params params;
  bool pos = true;
  F context;  // an atom
  std::vector<E> eff;
};
struct Rule {
  int pred;
  Params params;
  F body;
};
struct Type {
  std::string name;
  int parent;            // -1: none
  bool writes_object;    // "- object" is written out when parent is -1
};
struct Obj {
  std::string name;
  int type;
  bool constant;
};

struct World {
  std::string domain_name = "dom", problem_name = "prob";
  std::vector<Type> types;
  std::vector<Obj> objs;  // constants first
  std::vector<Pred> preds;
  std::vector<Act> acts;
  std::vector<Ax> axioms;
  std::vector<Rule> rules;
  MState init;
  F goal;

  std::string TypeName(int t) const { return t < 0 ? "object" : types[t].name; }
  bool IsSub(int t, int ancestor) const;
  std::vector<std::string> TypeChain(int t) const;
  int ObjType(const std::string& name) const;  // -2 if unknown
  std::vector<std::string> ObjsOf(int type) const;
  std::vector<Args> Tuples(const Params& params) const;
  size_t TupleCount(const Params& params) const;
  const Pred* FindPred(const std::string& name) const;
  std::vector<Atom> GroundAtoms(bool basic_only = false) const;
};

struct Opts {
  int max_types = 4, max_objs = 5, max_preds = 5, max_arity = 3, max_acts = 3;
  int min_objs = 0, min_preds = 0, min_acts = 0;
  int formula_depth = 3;
  bool pre_depth_small = false;
  bool conditional = true;       // conditional effects
  bool forall_effects = true;
  bool derived = false;
  int axioms = 0;                // maximum number
  bool axiom_eq = false;         // equality and type consequences
  size_t max_ground = 400;       // cap on ground atoms
  bool name_clash = true;        // variables named like objects
  int many = 0;                  // one world in so many is much larger
  bool typed_goal_eq = true;     // = and type tests in formulas
};

World GenWorld(pbt::Ctx& c, const Opts& o);
F GenFormula(pbt::Ctx& c, const World& w, const Params& scope, int depth, const Opts& o, int max_level = 1000, bool pos_level = true);
MState GenState(pbt::Ctx& c, const World& w, bool basic_only = false);
Params GenParams(pbt::Ctx& c, const World& w, int max, bool objs_needed, bool clash);

// --- semantics ----------------------------------------------------------------
std::string Ground(const Term& t, const Env& env);
Atom GroundAtom(const std::string& name, const std::vector<Term>& terms, const Env& env);
Env MakeEnv(const Params& params, const Args& args);
bool Eval(const World& w, const F& f, const Env& env, const MState& s);
void Mentioned(const World& w, const F& f, const Env& env, MState* out);
size_t GroundSize(const World& w, const F& f);
void Effects(const World& w, const std::vector<E>& eff, const Env& env, const MState& pre, MState* add, MState* del);
bool HasWhen(const std::vector<E>& eff);
bool Contradicts(const MState& add, const MState& del);
MState ApplyTo(const MState& s, const MState& add, const MState& del);
MState Derive(const World& w, const MState& s);
// One closure step order; false if some consequence undoes another.
MState Close(const World& w, MState s);
bool AxiomsHold(const World& w, const MState& s);

// --- text -----------------------------------------------------------------------
std::string Show(const F& f, const World& w);
std::string Show(const std::vector<E>& eff, const World& w);
std::string Show(const Atom& a);
std::string Show(const MState& s);
std::string DomainText(const World& w, pbt::Ctx* c = nullptr);
std::string ProblemText(const World& w, pbt::Ctx* c = nullptr);
std::string CallText(const std::string& name, const Args& args);

// --- bridge to the library --------------------------------------------------------
// A readable file holding the text, removed with the object.
class TempFile {
 public:
  explicit TempFile(const std::string& text);
  ~TempFile();
  TempFile(const TempFile&) = delete;
  const std::string& path() const { return path_; }

 private:
  int fd_ = -1;
  bool unlink_ = false;
  std::string path_;
};
std::unique_ptr<symbolic::Pddl> Load(const World& w, pbt::Ctx& c, bool apply_axioms = false);
std::unique_ptr<symbolic::Pddl> LoadText(const std::string& domain, const std::string& problem, bool apply_axioms = false);
std::vector<symbolic::Object> ToObjects(const symbolic::Pddl& p, const Args& args);
symbolic::Proposition ToProp(const symbolic::Pddl& p, const Atom& a);
symbolic::State ToState(const symbolic::Pddl& p, const MState& s, pbt::Ctx* c = nullptr);
std::set<std::string> ToStrings(const MState& s);
MState FromState(const symbolic::State& s);
Atom FromProp(const symbolic::PropositionBase& p);
Args FromObjects(const std::vector<symbolic::Object>& v);
const symbolic::Action& FindAction(const symbolic::Pddl& p, const std::string& name);

}  // namespace model

#endif
