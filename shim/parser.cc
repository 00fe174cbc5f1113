// Recursive-descent PDDL parser that builds the stand-in parse tree.
#include <cctype>
#include <set>
#include <stdexcept>

#include "VAL/FlexLexer.h"
#include "VAL/ptree.h"

int line_no = 1;
const char* current_filename = nullptr;
int yydebug = 0;

namespace VAL {

analysis::analysis() {
  // The root type exists in every domain.
}
analysis::~analysis() {
  for (auto it = arena.rbegin(); it != arena.rend(); ++it) delete *it;
}

std::string pddl_req_flags_string(pddl_req_flag) { return ":strips"; }

}  // namespace VAL

namespace {

using namespace VAL;

struct SyntaxError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// An S-expression.
struct Sexp {
  bool is_list = false;
  std::string atom;
  std::vector<Sexp> items;
};

struct Lexer {
  std::string text;
  size_t pos = 0;
  std::string Next() {
    for (;;) {
      while (pos < text.size() && isspace(static_cast<unsigned char>(text[pos]))) pos++;
      if (pos < text.size() && text[pos] == ';') {
        while (pos < text.size() && text[pos] != '\n') pos++;
        continue;
      }
      break;
    }
    if (pos >= text.size()) return "";
    if (text[pos] == '(' || text[pos] == ')') return std::string(1, text[pos++]);
    size_t start = pos;
    while (pos < text.size() && !isspace(static_cast<unsigned char>(text[pos])) && text[pos] != '(' && text[pos] != ')' && text[pos] != ';') pos++;
    std::string s = text.substr(start, pos - start);
    for (char& c : s) c = static_cast<char>(tolower(c));
    return s;
  }
};

Sexp ParseSexp(Lexer* lex, const std::string& tok) {
  Sexp s;
  if (tok.empty()) throw SyntaxError("unexpected end of input");
  if (tok == ")") throw SyntaxError("unexpected )");
  if (tok != "(") {
    s.atom = tok;
    return s;
  }
  s.is_list = true;
  for (;;) {
    const std::string t = lex->Next();
    if (t.empty()) throw SyntaxError("missing )");
    if (t == ")") return s;
    s.items.push_back(ParseSexp(lex, t));
  }
}

class Builder {
 public:
  explicit Builder(analysis* a) : a_(a) {}

  void Build(const Sexp& s) {
    Expect(s.is_list && s.items.size() >= 2 && Atom(s.items[0]) == "define", "define");
    Expect(s.items[1].is_list && s.items[1].items.size() == 2, "(domain NAME) or (problem NAME)");
    const std::string kind = Atom(s.items[1].items[0]);
    if (kind == "domain") {
      BuildDomain(s);
    } else if (kind == "problem") {
      BuildProblem(s);
    } else {
      throw SyntaxError("expected domain or problem");
    }
  }

 private:
  static void Expect(bool ok, const std::string& what) {
    if (!ok) throw SyntaxError("expected " + what);
  }
  static const std::string& Atom(const Sexp& s) {
    if (s.is_list) throw SyntaxError("expected a name");
    return s.atom;
  }
  static const Sexp& List(const Sexp& s) {
    if (!s.is_list) throw SyntaxError("expected a list instead of " + s.atom);
    return s;
  }
  static const std::string& Name(const Sexp& s) {
    const std::string& n = Atom(s);
    if (n[0] == '?' || n[0] == ':') throw SyntaxError("expected a name instead of " + n);
    return n;
  }

  pddl_type* Type(const std::string& n) {
    pddl_type*& t = a_->type_tab[n];
    if (t == nullptr) t = a_->make<pddl_type>(n);
    return t;
  }
  pred_symbol* Pred(const std::string& n) {
    pred_symbol*& p = a_->pred_tab[n];
    if (p == nullptr) p = a_->make<pred_symbol>(n);
    return p;
  }

  // NAME* - TYPE NAME* - TYPE NAME*; calls add(name) for each one and then
  // set(type) for the group.
  template <typename Add, typename Set>
  void TypedList(const Sexp& s, size_t from, Add add, Set set) {
    size_t i = from;
    while (i < s.items.size()) {
      const std::string& n = Atom(s.items[i]);
      if (n == "-") {
        i++;
        if (i >= s.items.size()) throw SyntaxError("expected a type");
        if (s.items[i].is_list) throw SyntaxError("either types are not supported");
        set(Type(Name(s.items[i])));
        i++;
      } else {
        add(n);
        i++;
      }
    }
    set(nullptr);
  }

  const_symbol_list* Constants(const Sexp& s) {
    const_symbol_list* list = a_->make<const_symbol_list>();
    std::vector<const_symbol*> group;
    TypedList(
        s, 1,
        [&](const std::string& n) {
          if (n[0] == '?') throw SyntaxError("variable among the objects");
          const_symbol* c = new const_symbol(n);
          list->push_back(c);
          if (a_->const_tab.count(n)) throw SyntaxError("object declared twice: " + n);
          a_->const_tab[n] = c;
          group.push_back(c);
        },
        [&](pddl_type* t) {
          for (const_symbol* c : group) c->type = t;
          group.clear();
        });
    return list;
  }

  var_symbol_list* Variables(const Sexp& s, size_t from) {
    var_symbol_list* list = a_->make<var_symbol_list>();
    std::vector<var_symbol*> group;
    TypedList(
        s, from,
        [&](const std::string& n) {
          if (n.size() < 2 || n[0] != '?') throw SyntaxError("expected a variable instead of " + n);
          var_symbol* v = a_->make<var_symbol>(n.substr(1));
          list->push_back(v);
          group.push_back(v);
        },
        [&](pddl_type* t) {
          for (var_symbol* v : group) v->type = t;
          group.clear();
        });
    return list;
  }

  struct Scope {
    Scope(Builder* b, const var_symbol_list* vars) : b_(b) {
      b_->scopes_.emplace_back();
      for (var_symbol* v : *vars) b_->scopes_.back()[v->getName()] = v;
    }
    ~Scope() { b_->scopes_.pop_back(); }
    Builder* b_;
  };

  parameter_symbol* Term(const Sexp& s) {
    const std::string& n = Atom(s);
    if (n[0] == '?') {
      const std::string v = n.substr(1);
      for (auto it = scopes_.rbegin(); it != scopes_.rend(); ++it) {
        auto found = it->find(v);
        if (found != it->end()) return found->second;
      }
      throw SyntaxError("undeclared variable " + n);
    }
    auto found = a_->const_tab.find(n);
    if (found == a_->const_tab.end()) throw SyntaxError("undeclared object " + n);
    return found->second;
  }

  proposition* Prop(const Sexp& s) {
    List(s);
    Expect(!s.items.empty(), "a predicate");
    proposition* p = a_->make<proposition>();
    p->head = Pred(Name(s.items[0]));
    p->args = a_->make<parameter_symbol_list>();
    for (size_t i = 1; i < s.items.size(); i++) p->args->push_back(Term(s.items[i]));
    return p;
  }

  goal* Goal(const Sexp& s) {
    List(s);
    if (s.items.empty()) return a_->make<conj_goal>(a_->make<goal_list>());
    const std::string& head = Atom(s.items[0]);
    if (head == "and" || head == "or") {
      goal_list* l = a_->make<goal_list>();
      for (size_t i = 1; i < s.items.size(); i++) l->push_back(Goal(s.items[i]));
      if (head == "and") return a_->make<conj_goal>(l);
      return a_->make<disj_goal>(l);
    }
    if (head == "not") {
      Expect(s.items.size() == 2, "one negated goal");
      return a_->make<neg_goal>(Goal(s.items[1]));
    }
    if (head == "imply") {
      Expect(s.items.size() == 3, "two goals");
      return a_->make<imply_goal>(Goal(s.items[1]), Goal(s.items[2]));
    }
    if (head == "forall" || head == "exists") {
      Expect(s.items.size() == 3, "variables and a goal");
      var_symbol_list* vars = Variables(List(s.items[1]), 0);
      Scope scope(this, vars);
      return a_->make<qfied_goal>(head == "forall" ? E_FORALL : E_EXISTS, vars, Goal(s.items[2]));
    }
    return a_->make<simple_goal>(Prop(s));
  }

  void Effect(const Sexp& s, effect_lists* out) {
    List(s);
    if (s.items.empty()) return;
    const std::string& head = Atom(s.items[0]);
    if (head == "and") {
      for (size_t i = 1; i < s.items.size(); i++) Effect(s.items[i], out);
    } else if (head == "not") {
      Expect(s.items.size() == 2, "one negated proposition");
      out->del_effects.push_back(a_->make<simple_effect>(Prop(s.items[1])));
    } else if (head == "forall") {
      Expect(s.items.size() == 3, "variables and an effect");
      var_symbol_list* vars = Variables(List(s.items[1]), 0);
      Scope scope(this, vars);
      out->forall_effects.push_back(a_->make<forall_effect>(Effects(s.items[2]), vars));
    } else if (head == "when") {
      Expect(s.items.size() == 3, "a condition and an effect");
      goal* g = Goal(s.items[1]);
      out->cond_effects.push_back(a_->make<cond_effect>(g, Effects(s.items[2])));
    } else {
      out->add_effects.push_back(a_->make<simple_effect>(Prop(s)));
    }
  }
  effect_lists* Effects(const Sexp& s) {
    effect_lists* e = a_->make<effect_lists>();
    Effect(s, e);
    return e;
  }

  void Operator(const Sexp& s, operator_* op, const std::string& name, size_t from,
                const char* vars_key, const char* pre_key, const char* eff_key) {
    op->name = a_->make<operator_symbol>(name);
    op->parameters = nullptr;
    for (size_t i = from; i + 1 < s.items.size(); i += 2) {
      if (Atom(s.items[i]) == vars_key) op->parameters = Variables(List(s.items[i + 1]), 0);
    }
    if (op->parameters == nullptr) op->parameters = a_->make<var_symbol_list>();
    Scope scope(this, op->parameters);
    for (size_t i = from; i < s.items.size(); i += 2) {
      const std::string& key = Atom(s.items[i]);
      Expect(i + 1 < s.items.size(), "a value of " + key);
      if (key == pre_key) {
        op->precondition = Goal(s.items[i + 1]);
      } else if (key == eff_key) {
        op->effects = Effects(s.items[i + 1]);
      } else if (key != vars_key) {
        throw SyntaxError("unknown key " + key);
      }
    }
    if (op->precondition == nullptr) op->precondition = a_->make<conj_goal>(a_->make<goal_list>());
    if (op->effects == nullptr) op->effects = a_->make<effect_lists>();
  }

  void BuildDomain(const Sexp& s) {
    domain* d = a_->make<domain>();
    d->name = Name(s.items[1].items[1]);
    d->predicates = a_->make<pred_decl_list>();
    d->ops = a_->make<operator_list>();
    d->drvs = a_->make<derivations_list>();
    for (size_t i = 2; i < s.items.size(); i++) {
      const Sexp& e = List(s.items[i]);
      Expect(!e.items.empty(), "a section");
      const std::string& key = Atom(e.items[0]);
      if (key == ":requirements") {
      } else if (key == ":types") {
        d->types = a_->make<pddl_type_list>();
        std::vector<pddl_type*> group;
        TypedList(
            e, 1,
            [&](const std::string& n) {
              pddl_type* t = Type(n);
              d->types->push_back(t);
              group.push_back(t);
            },
            [&](pddl_type* t) {
              for (pddl_type* g : group) g->type = t;
              group.clear();
            });
        for (pddl_type* t : *d->types) {
          std::set<pddl_type*> seen;
          for (pddl_type* p = t; p != nullptr; p = p->type) Expect(seen.insert(p).second, "acyclic types");
        }
      } else if (key == ":constants") {
        d->constants = Constants(e);
      } else if (key == ":predicates") {
        for (size_t k = 1; k < e.items.size(); k++) {
          const Sexp& p = List(e.items[k]);
          Expect(!p.items.empty(), "a predicate");
          pred_decl* decl = a_->make<pred_decl>();
          decl->head = Pred(Name(p.items[0]));
          decl->args = Variables(p, 1);
          d->predicates->push_back(decl);
        }
      } else if (key == ":action") {
        Expect(e.items.size() >= 2, "an action name");
        action* op = a_->make<action>();
        Operator(e, op, Name(e.items[1]), 2, ":parameters", ":precondition", ":effect");
        d->ops->push_back(op);
      } else if (key == ":axiom") {
        axiom* op = a_->make<axiom>();
        Operator(e, op, "axiom", 1, ":vars", ":context", ":implies");
        d->ops->push_back(op);
      } else if (key == ":derived") {
        Expect(e.items.size() == 3, "a head and a body");
        const Sexp& h = List(e.items[1]);
        Expect(!h.items.empty(), "a predicate");
        var_symbol_list* vars = Variables(h, 1);
        Scope scope(this, vars);
        proposition* p = a_->make<proposition>();
        p->head = Pred(Name(h.items[0]));
        p->args = a_->make<parameter_symbol_list>();
        for (var_symbol* v : *vars) p->args->push_back(v);
        d->drvs->push_back(a_->make<derivation_rule>(p, Goal(e.items[2])));
      } else {
        throw SyntaxError("unknown section " + key);
      }
    }
    a_->the_domain = d;
  }

  void BuildProblem(const Sexp& s) {
    problem* p = a_->make<problem>();
    p->name = Name(s.items[1].items[1]);
    for (size_t i = 2; i < s.items.size(); i++) {
      const Sexp& e = List(s.items[i]);
      Expect(!e.items.empty(), "a section");
      const std::string& key = Atom(e.items[0]);
      if (key == ":domain") {
        Expect(e.items.size() == 2, "a domain name");
        p->domain_name = Name(e.items[1]);
      } else if (key == ":requirements") {
      } else if (key == ":objects") {
        p->objects = Constants(e);
      } else if (key == ":init") {
        p->initial_state = a_->make<effect_lists>();
        for (size_t k = 1; k < e.items.size(); k++) Effect(e.items[k], p->initial_state);
      } else if (key == ":goal") {
        Expect(e.items.size() == 2, "one goal");
        p->the_goal = Goal(e.items[1]);
      } else {
        throw SyntaxError("unknown section " + key);
      }
    }
    if (p->objects == nullptr) p->objects = a_->make<const_symbol_list>();
    if (p->initial_state == nullptr) p->initial_state = a_->make<effect_lists>();
    if (p->the_goal == nullptr) p->the_goal = a_->make<conj_goal>(a_->make<goal_list>());
    a_->the_problem = p;
  }

  analysis* a_;
  std::vector<std::map<std::string, var_symbol*>> scopes_;
};

}  // namespace

int yyparse() {
  if (VAL::yfl == nullptr || VAL::yfl->in() == nullptr || VAL::current_analysis == nullptr) return 1;
  std::istream& in = *VAL::yfl->in();
  Lexer lex;
  char buf[4096];
  while (in.read(buf, sizeof buf) || in.gcount() > 0) lex.text.append(buf, static_cast<size_t>(in.gcount()));
  try {
    const Sexp s = ParseSexp(&lex, lex.Next());
    if (!lex.Next().empty()) throw SyntaxError("text after the definition");
    Builder(VAL::current_analysis).Build(s);
  } catch (const SyntaxError& e) {
    VAL::current_analysis->error_list.errors.push_back(e.what());
    return 1;
  }
  return 0;
}
