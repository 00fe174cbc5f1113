// Stand-in for the parse tree of VAL (the PDDL plan validator that the
// repository uses as a submodule and that is not available offline).  It has
// the classes and members of VAL's ptree.h that the library's sources use, and
// follows VAL's conventions: variables are stored without '?', all uses of a
// variable in its scope share one var_symbol, and lists are lists of pointers.
#ifndef VERIF_SHIM_VAL_PTREE_H_
#define VERIF_SHIM_VAL_PTREE_H_

#include <cstddef>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>

// VAL's headers bring these names into the global namespace.
using std::ostream;
using std::string;

namespace VAL {

class analysis;
class pddl_type;

class parse_category {
 public:
  virtual ~parse_category() {}
};

// --- symbols ---------------------------------------------------------------
class symbol : public parse_category {
 public:
  symbol() {}
  explicit symbol(const std::string& n) : name(n) {}
  const std::string& getName() const { return name; }
  const std::string& getNameRef() const { return name; }
  void setName(const std::string& n) { name = n; }

 protected:
  std::string name;
};

template <class T>
class pc_list : public parse_category, public std::list<T> {};

template <class T>
class typed_symbol_list : public pc_list<T*> {};

class pddl_typed_symbol : public symbol {
 public:
  using symbol::symbol;
  pddl_type* type = nullptr;
  typed_symbol_list<pddl_type>* either_types = nullptr;
};

class parameter_symbol : public pddl_typed_symbol {
 public:
  using pddl_typed_symbol::pddl_typed_symbol;
};
class var_symbol : public parameter_symbol {
 public:
  using parameter_symbol::parameter_symbol;
};
class const_symbol : public parameter_symbol {
 public:
  using parameter_symbol::parameter_symbol;
};
class pddl_type : public pddl_typed_symbol {
 public:
  using pddl_typed_symbol::pddl_typed_symbol;
};
class pred_symbol : public symbol {
 public:
  using symbol::symbol;
};
class func_symbol : public symbol {
 public:
  using symbol::symbol;
};
class operator_symbol : public symbol {
 public:
  using symbol::symbol;
};

using pddl_type_list = typed_symbol_list<pddl_type>;
class parameter_symbol_list : public typed_symbol_list<parameter_symbol> {};
class var_symbol_list : public typed_symbol_list<var_symbol> {};
// Owns its elements, as the library adds and deletes them itself.
class const_symbol_list : public typed_symbol_list<const_symbol> {
 public:
  ~const_symbol_list() override {
    for (const_symbol* s : *this) delete s;
  }
};

// --- propositions and goals -------------------------------------------------
class proposition : public parse_category {
 public:
  pred_symbol* head = nullptr;
  parameter_symbol_list* args = nullptr;
};

class pred_decl : public parse_category {
 public:
  pred_symbol* getPred() const { return head; }
  var_symbol_list* getArgs() const { return args; }
  pred_symbol* head = nullptr;
  var_symbol_list* args = nullptr;
};
class pred_decl_list : public pc_list<pred_decl*> {};
class func_decl : public parse_category {};
class func_decl_list : public pc_list<func_decl*> {};

class goal : public parse_category {};
class goal_list : public pc_list<goal*> {};

enum quantifier { E_FORALL, E_EXISTS };
enum polarity { E_NEG, E_POS };

class simple_goal : public goal {
 public:
  explicit simple_goal(proposition* p) : prop(p) {}
  const proposition* getProp() const { return prop; }
  proposition* getProp() { return prop; }

 private:
  proposition* prop;
};
class conj_goal : public goal {
 public:
  explicit conj_goal(goal_list* g) : goals(g) {}
  const goal_list* getGoals() const { return goals; }
  goal_list* getGoals() { return goals; }

 private:
  goal_list* goals;
};
class disj_goal : public goal {
 public:
  explicit disj_goal(goal_list* g) : goals(g) {}
  const goal_list* getGoals() const { return goals; }
  goal_list* getGoals() { return goals; }

 private:
  goal_list* goals;
};
class neg_goal : public goal {
 public:
  explicit neg_goal(goal* g) : g_(g) {}
  const goal* getGoal() const { return g_; }
  goal* getGoal() { return g_; }

 private:
  goal* g_;
};
class imply_goal : public goal {
 public:
  imply_goal(goal* l, goal* r) : lhs(l), rhs(r) {}
  const goal* getAntecedent() const { return lhs; }
  const goal* getConsequent() const { return rhs; }

 private:
  goal* lhs;
  goal* rhs;
};
class qfied_goal : public goal {
 public:
  qfied_goal(quantifier q, var_symbol_list* v, goal* g) : q_(q), vars(v), g_(g) {}
  quantifier getQuantifier() const { return q_; }
  const var_symbol_list* getVars() const { return vars; }
  var_symbol_list* getVars() { return vars; }
  const goal* getGoal() const { return g_; }
  goal* getGoal() { return g_; }

 private:
  quantifier q_;
  var_symbol_list* vars;
  goal* g_;
};
class con_goal : public goal {};
class constraint_goal : public con_goal {};
class preference : public con_goal {};
class timed_goal : public goal {};
class comparison : public goal {};

// --- effects ------------------------------------------------------------------
class effect_lists;

class effect : public parse_category {};
class simple_effect : public effect {
 public:
  explicit simple_effect(proposition* p) : prop(p) {}
  proposition* prop;
};
class forall_effect : public effect {
 public:
  forall_effect(effect_lists* e, var_symbol_list* v) : operand(e), vars(v) {}
  const var_symbol_list* getVarsList() const { return vars; }
  effect_lists* getEffects() const { return operand; }

 private:
  effect_lists* operand;
  var_symbol_list* vars;
};
class cond_effect : public effect {
 public:
  cond_effect(goal* g, effect_lists* e) : cond(g), effects(e) {}
  goal* getCondition() const { return cond; }
  effect_lists* getEffects() const { return effects; }

 private:
  goal* cond;
  effect_lists* effects;
};
class effect_lists : public parse_category {
 public:
  pc_list<simple_effect*> add_effects;
  pc_list<simple_effect*> del_effects;
  pc_list<forall_effect*> forall_effects;
  pc_list<cond_effect*> cond_effects;
};

// --- domain and problem ---------------------------------------------------------
class operator_ : public parse_category {
 public:
  operator_symbol* name = nullptr;
  var_symbol_list* parameters = nullptr;
  goal* precondition = nullptr;
  effect_lists* effects = nullptr;
};
class action : public operator_ {};
class durative_action : public operator_ {};
class axiom : public operator_ {};
class operator_list : public pc_list<operator_*> {};

class derivation_rule : public parse_category {
 public:
  derivation_rule(proposition* h, goal* b) : head(h), body(b) {}
  proposition* get_head() const { return head; }
  goal* get_body() const { return body; }

 private:
  proposition* head;
  goal* body;
};
class derivations_list : public pc_list<derivation_rule*> {};

typedef unsigned long pddl_req_flag;

class domain : public parse_category {
 public:
  pddl_req_flag req = 0;
  pddl_type_list* types = nullptr;
  const_symbol_list* constants = nullptr;
  pred_decl_list* predicates = nullptr;
  func_decl_list* functions = nullptr;
  operator_list* ops = nullptr;
  derivations_list* drvs = nullptr;
  std::string name;
};
class problem : public parse_category {
 public:
  pddl_req_flag req = 0;
  const_symbol_list* objects = nullptr;
  effect_lists* initial_state = nullptr;
  goal* the_goal = nullptr;
  std::string name;
  std::string domain_name;
};

struct parse_error_list {
  std::vector<std::string> errors;
  void report() const {}
};

class analysis {
 public:
  analysis();
  ~analysis();
  analysis(const analysis&) = delete;
  analysis& operator=(const analysis&) = delete;

  domain* the_domain = nullptr;
  problem* the_problem = nullptr;
  parse_error_list error_list;

  // The parser's symbol tables and the storage of all nodes.
  std::map<std::string, pddl_type*> type_tab;
  std::map<std::string, const_symbol*> const_tab;
  std::map<std::string, pred_symbol*> pred_tab;
  std::vector<parse_category*> arena;
  template <typename T, typename... A>
  T* make(A&&... a) {
    T* t = new T(std::forward<A>(a)...);
    arena.push_back(t);
    return t;
  }
};

std::string pddl_req_flags_string(pddl_req_flag flags);

extern parse_category* top_thing;
extern analysis* current_analysis;
extern bool Verbose;
extern std::ostream* report;

}  // namespace VAL

extern int line_no;

#endif
