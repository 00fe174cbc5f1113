// C01..C04, C08: states, partial states, propositions and the state index.
#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>

#include "model.h"
#include "symbolic/state.h"

using namespace model;           // NOLINT
using namespace symbolic;        // NOLINT

namespace {

Opts StateOpts() {
  Opts o;
  o.max_acts = 0;
  o.formula_depth = 0;
  o.min_objs = 1;
  o.min_preds = 1;
  o.max_objs = 7;
  o.max_ground = 500;
  o.many = 50;
  return o;
}

struct Fixture {
  World w;
  std::unique_ptr<Pddl> pddl;
  std::vector<Atom> pool;
  Fixture(pbt::Ctx& c, size_t max_pool) {
    w = GenWorld(c, StateOpts());
    pddl = Load(w, c);
    pool = w.GroundAtoms();
    // Ill-typed and unknown propositions are propositions as well.
    if (c.chance(1, 3)) pool.push_back({"unknown", w.objs[0].name, w.objs[0].name});
    if (c.chance(1, 3)) pool.push_back({w.preds[0].name, w.objs[0].name, w.objs[0].name, w.objs[0].name, w.objs[0].name});
    if (pool.empty()) pool.push_back({w.preds[0].name});
    if (pool.size() > max_pool) {
      // A random part of the pool.
      for (size_t i = 0; i < max_pool; i++) std::swap(pool[i], pool[i + c.below(static_cast<uint32_t>(pool.size() - i))]);
      pool.resize(max_pool);
    }
  }
};

// The ways to hand a proposition to a state.
enum Form { kOwned, kRef, kSigned, kCopy, kParsed, kNumForms };

struct AnyProp {
  Proposition owned;
  std::string name;
  std::vector<Object> args;
  AnyProp(const Pddl& p, const Atom& a) : owned(ToProp(p, a)), name(a[0]), args(ToObjects(p, Args(a.begin() + 1, a.end()))) {}
  template <typename R>
  R With(int form, const Pddl& p, const std::function<R(const PropositionBase&)>& f) const {
    switch (form) {
      case kRef: return f(PropositionRef(&name, &args, std::hash<std::string>{}(name)));
      case kSigned: return f(SignedProposition(name, std::vector<Object>(args), args.size() % 2 == 0));
      case kCopy: return f(Proposition(static_cast<const PropositionBase&>(owned)));
      case kParsed: return f(Proposition(p, owned.to_string()));
      default: return f(owned);
    }
  }
};

const Proposition* Own(const State& s, const Atom& a) {
  for (const Proposition& q : s) {
    if (FromProp(q) == a) return &q;
  }
  return nullptr;
}

template <size_t... I>
State FromArray(const Proposition* e, std::index_sequence<I...>) {
  return State{e[I]...};
}

void CheckState(const Pddl& p, State& s, const MState& m, const std::vector<Atom>& pool, pbt::Ctx& c) {
  PBT_CHECK(s.size() == m.size() && s.empty() == m.empty(), "size " << s.size() << ", empty " << s.empty() << " for " << Show(m));
  const State& cs = s;
  std::vector<Atom> order;
  MState seen;
  for (auto it = cs.begin(); it != cs.end(); ++it) {
    PBT_CHECK(order.size() < m.size(), "iteration visits more than " << m.size() << " propositions of " << Show(m));
    order.push_back(FromProp(*it));
    PBT_CHECK(FromProp(*it) == Atom(order.back()) && it->name() == order.back()[0], "-> and * differ");
    PBT_CHECK(m.count(order.back()) == 1, "iteration visits " << Show(order.back()) << " which is not in " << Show(m));
    PBT_CHECK(seen.insert(order.back()).second, "iteration visits " << Show(order.back()) << " twice");
  }
  PBT_CHECK(order.size() == m.size(), "iteration visits " << order.size() << " of " << Show(m));
  auto it = cs.end();
  for (size_t i = order.size(); i-- > 0;) {
    --it;
    PBT_CHECK(FromProp(*it) == order[i], "backward iteration visits " << *it << " and not " << Show(order[i]));
  }
  PBT_CHECK(it == cs.begin(), "backward iteration does not end at begin()");
  size_t i = 0;
  for (const Proposition& q : s) PBT_CHECK(FromProp(q) == order[i++], "a second iteration differs");
  // Membership of the whole pool when it is small, of a part of it otherwise.
  const size_t step = pool.size() > 60 ? 1 + c.below(7) : 1;
  for (size_t k = 0; k < pool.size(); k += step) {
    const bool in = m.count(pool[k]) == 1;
    PBT_CHECK(cs.contains(ToProp(p, pool[k])) == in, "contains(" << Show(pool[k]) << ") is " << !in << " for " << Show(m));
  }
}

}  // namespace

PBT_TARGET(C01_state_history, "at least 8 operations, one of which changed the state by removing a proposition") {
  Fixture f(c, c.pick(std::vector<size_t>{6, 20, 80, 500}));
  const Pddl& p = *f.pddl;
  State s;
  MState m;
  if (c.chance(1, 3)) {
    std::unordered_set<std::string> text;
    for (const Atom& a : f.pool) {
      if (!f.w.FindPred(a[0]) || !c.flip()) continue;
      m.insert(a);
      text.insert(Show(a));
    }
    PBT_LOG(c, "State(pddl, " << Show(m) << ")");
    s = State(p, text);
    CheckState(p, s, m, f.pool, c);
  } else if (c.chance(1, 3)) {
    const Atom a = c.pick(f.pool), b = c.pick(f.pool), d = c.pick(f.pool);
    PBT_LOG(c, "State{" << Show(a) << ", " << Show(b) << ", " << Show(d) << "}");
    s = State{ToProp(p, a), ToProp(p, b), ToProp(p, d)};
    m = {a, b, d};
    CheckState(p, s, m, f.pool, c);
  }
  std::vector<std::pair<State, MState>> copies;
  const int ops = c.range(1, c.scaled(f.pool.size() > 60 ? 200 : 60));
  int changed = 0, removed = 0;
  bool grow = true;
  for (int k = 0; k < ops; k++) {
    if (c.chance(1, 12)) grow = !grow;
    const int form = static_cast<int>(c.below(kNumForms));
    // Mostly hits: erase what is there, insert what is not.
    Atom a = c.pick(f.pool);
    if (!grow && !m.empty() && c.chance(3, 4)) {
      auto it = m.begin();
      std::advance(it, c.below(static_cast<uint32_t>(m.size())));
      a = *it;
    }
    const AnyProp q(p, a);
    const int op = grow ? c.weighted({8, 2, 2, 2, 2, 3, 1, 1, 1, 1}) : c.weighted({2, 1, 1, 1, 1, 12, 1, 1, 1, 3});
    bool expect = false, got = false;
    switch (op) {
      case 0:
        PBT_LOG(c, "insert(" << Show(a) << ") form " << form);
        expect = m.insert(a).second;
        got = q.With<bool>(form, p, [&](const PropositionBase& x) { return s.insert(x); });
        break;
      case 1:
        PBT_LOG(c, "insert(&&" << Show(a) << ")");
        expect = m.insert(a).second;
        got = s.insert(Proposition(q.owned));
        break;
      case 2:
        PBT_LOG(c, "emplace(text " << Show(a) << ")");
        expect = m.insert(a).second;
        got = s.emplace(p, Show(a));
        break;
      case 3:
        PBT_LOG(c, "emplace(name, args of " << Show(a) << ")");
        expect = m.insert(a).second;
        got = s.emplace(q.name, q.args);
        break;
      case 4: {
        std::vector<Proposition> range;
        const int n = c.range(0, 6);
        for (int i = 0; i < n; i++) {
          const Atom b = c.pick(f.pool);
          PBT_LOG(c, "range insert " << Show(b));
          range.push_back(ToProp(p, b));
          expect |= m.insert(b).second;
        }
        got = s.insert(range.begin(), range.end());
        break;
      }
      case 5:
        PBT_LOG(c, "erase(" << Show(a) << ") form " << form);
        expect = m.erase(a) == 1;
        got = q.With<bool>(form, p, [&](const PropositionBase& x) { return s.erase(x); });
        removed += expect;
        break;
      case 6:
        PBT_LOG(c, "copy kept aside");
        copies.emplace_back(s, m);
        break;
      case 7:
        if (!copies.empty()) {
          const size_t i = c.below(static_cast<uint32_t>(copies.size()));
          PBT_LOG(c, "assigned from copy " << i);
          s = copies[i].first;
          m = copies[i].second;
        } else if (c.flip()) {
          PBT_LOG(c, "swapped and assigned to itself");
          State t;
          t.insert(q.owned);
          std::swap(s, t);
          CheckState(p, t, m, f.pool, c);
          std::swap(t, s);
          const State& self = s;
          s = self;
        } else {
          PBT_LOG(c, "assigned from a moved copy");
          State t(s);
          State u(std::move(t));
          s = std::move(u);
        }
        break;
      case 9: {
        // By a proposition of the state itself.
        const Proposition* own = Own(s, a);
        PBT_LOG(c, "erase or insert of its own proposition " << Show(a));
        if (own == nullptr) break;
        got = s.insert(*own);
        PBT_CHECK(!got, "insert of a proposition of the state returned true");
        got = s.insert(s.begin(), s.end());
        PBT_CHECK(!got, "insert of the state into itself returned true");
        expect = m.erase(a) == 1;
        got = s.erase(*own);
        removed += expect;
        break;
      }
      case 8: {
        // A state inserted into another one.
        State t;
        MState n;
        const int k2 = c.range(0, 5);
        for (int i = 0; i < k2; i++) {
          const Atom b = c.pick(f.pool);
          t.insert(ToProp(p, b));
          n.insert(b);
        }
        PBT_LOG(c, "insert of the state " << Show(n));
        got = s.insert(t.begin(), t.end());
        for (const Atom& b : n) expect |= m.insert(b).second;
        CheckState(p, t, n, f.pool, c);
        break;
      }
    }
    PBT_CHECK(got == expect, "operation returned " << got << " but changed " << expect << "; state is now " << Show(m));
    changed += expect;
    if (f.pool.size() <= 60 || c.chance(1, 8)) {
      CheckState(p, s, m, f.pool, c);
    } else {
      PBT_CHECK(s.size() == m.size(), "size " << s.size() << " for " << Show(m));
      q.With<bool>(form, p, [&](const PropositionBase& x) {
        PBT_CHECK(s.contains(x) == (m.count(a) == 1), "contains(" << Show(a) << ")");
        return true;
      });
    }
  }
  CheckState(p, s, m, f.pool, c);
  for (auto& x : copies) CheckState(p, x.first, x.second, f.pool, c);
  if (ops >= 8 && removed > 0 && changed > 3) c.nontrivial();
}

namespace {

// Builds the state by a history of its own: detours, any order, any form.
State BuildState(pbt::Ctx& c, const Pddl& p, const MState& m, const std::vector<Atom>& pool) {
  State s;
  std::vector<Atom> todo(m.begin(), m.end());
  const int mode = c.weighted({3, 2, 2, 1});
  if (mode >= 1) {
    for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[c.below(static_cast<uint32_t>(i))]);
  }
  if (mode == 1 && !todo.empty() && todo.size() <= 9 && c.flip()) {
    // From a list with repeats.
    std::vector<Proposition> e;
    const size_t size = todo.size() <= 1 ? c.range(1, 3) : todo.size() <= 3 ? c.range(3, 4) : todo.size() <= 7 ? c.range(7, 8) : 9;
    for (const Atom& a : todo) e.push_back(ToProp(p, a));
    while (e.size() < size) e.insert(e.begin() + c.below(static_cast<uint32_t>(e.size())), e[c.below(static_cast<uint32_t>(e.size()))]);
    switch (size) {
      case 1: return FromArray(e.data(), std::make_index_sequence<1>());
      case 2: return FromArray(e.data(), std::make_index_sequence<2>());
      case 3: return FromArray(e.data(), std::make_index_sequence<3>());
      case 4: return FromArray(e.data(), std::make_index_sequence<4>());
      case 7: return FromArray(e.data(), std::make_index_sequence<7>());
      case 8: return FromArray(e.data(), std::make_index_sequence<8>());
      default: return FromArray(e.data(), std::make_index_sequence<9>());
    }
  }
  if (mode == 3) {
    std::unordered_set<std::string> text;
    for (const Atom& a : todo) text.insert(Show(a));
    return State(p, text);
  }
  std::vector<Atom> detour;
  if (mode == 2) {
    const int n = c.range(0, static_cast<int>(pool.size()));
    for (int i = 0; i < n; i++) detour.push_back(c.pick(pool));
  }
  for (const Atom& a : detour) s.insert(ToProp(p, a));
  size_t i = 0;
  for (const Atom& a : todo) {
    if (mode == 2 && !detour.empty() && c.chance(1, 4)) {
      const Atom& b = detour[i++ % detour.size()];
      s.erase(ToProp(p, b));
    }
    s.insert(ToProp(p, a));
  }
  for (const Atom& a : detour) {
    if (!m.count(a)) s.erase(ToProp(p, a));
  }
  for (const Atom& a : todo) s.insert(ToProp(p, a));
  return s;
}

std::string Printed(const State& s) {
  std::ostringstream ss;
  ss << s;
  return ss.str();
}

// Equality, order and hash of a list of states against their models.
template <typename S, typename M>
void CheckLaws(const std::vector<S>& s, const std::vector<M>& m) {
  const size_t n = s.size();
  for (size_t i = 0; i < n; i++) {
    for (size_t j = 0; j < n; j++) {
      const bool eq = m[i] == m[j];
      PBT_CHECK((s[i] == s[j]) == eq, "== of states " << i << " and " << j << " is " << !eq);
      PBT_CHECK((s[i] != s[j]) == !eq, "!= of states " << i << " and " << j << " is " << eq);
      const bool lt = s[i] < s[j], gt = s[j] < s[i];
      if (eq) {
        PBT_CHECK(!lt && !gt, "equal states " << i << " and " << j << " are ordered");
      } else {
        PBT_CHECK(lt != gt, "different states " << i << " and " << j << ": < both ways is " << lt);
      }
      for (size_t k = 0; k < n; k++) {
        if (lt && s[j] < s[k]) PBT_CHECK(s[i] < s[k], "< is not transitive for " << i << ", " << j << ", " << k);
      }
    }
  }
}

MState NearCopy(pbt::Ctx& c, MState m, const std::vector<Atom>& pool) {
  const int n = c.weighted({4, 4, 2});
  for (int i = 0; i < n; i++) {
    const Atom a = c.pick(pool);
    if (!m.insert(a).second) m.erase(a);
  }
  return m;
}

}  // namespace

PBT_TARGET(C02_state_equality, "two states with equal contents built by different histories and one differing in one or two propositions") {
  Fixture f(c, c.pick(std::vector<size_t>{4, 12, 40, 200}));
  const Pddl& p = *f.pddl;
  std::vector<Atom> pool;
  for (const Atom& a : f.pool) pool.push_back(a);
  MState base;
  const int den = c.pick(std::vector<int>{2, 3, 8});
  for (const Atom& a : pool) {
    if (c.chance(1, den)) base.insert(a);
  }
  std::vector<MState> m = {base, base};
  const int extra = c.range(1, 4);
  for (int i = 0; i < extra; i++) m.push_back(NearCopy(c, c.pick(m), pool));
  std::vector<State> s;
  for (const MState& x : m) {
    s.push_back(BuildState(c, p, x, pool));
    PBT_LOG(c, "state " << s.size() - 1 << ": " << Show(x));
    CheckState(p, s.back(), x, pool, c);
  }
  CheckLaws(s, m);
  bool some_eq = false, some_ne = false;
  for (size_t i = 0; i < s.size(); i++) {
    const std::set<std::string> text = ToStrings(m[i]);
    PBT_CHECK(symbolic::Stringify(s[i]) == text, "Stringify of state " << i);
    const std::unordered_set<std::string> member = s[i].Stringify();
    PBT_CHECK(std::set<std::string>(member.begin(), member.end()) == text, "State::Stringify of state " << i);
    std::string expect = "{ ";
    for (const std::string& t : text) expect += (expect.size() > 2 ? ", " : "") + t;
    PBT_CHECK(Printed(s[i]) == expect + " }", "state " << i << " is printed as " << Printed(s[i]) << ", expected " << expect << " }");
    for (size_t j = 0; j < i; j++) {
      const bool eq = m[i] == m[j];
      (eq ? some_eq : some_ne) = true;
      PBT_CHECK((Printed(s[i]) == Printed(s[j])) == eq, "printed states " << i << " and " << j << ": " << Printed(s[i]) << Printed(s[j]));
      if (eq) PBT_CHECK(std::hash<State>{}(s[i]) == std::hash<State>{}(s[j]), "hashes of equal states " << i << " and " << j);
    }
  }
  if (some_eq && some_ne && base.size() >= 2) c.nontrivial();
}

namespace {
using MPartial = std::map<Atom, bool>;
using model::Show;

std::string Show(const MPartial& m) {
  std::string r = "{";
  for (const auto& x : m) r += (r.size() > 1 ? ", " : "") + std::string(x.second ? "" : "not ") + model::Show(x.first);
  return r + "}";
}

std::string PrintedP(const PartialState& s) {
  std::ostringstream ss;
  ss << s;
  return ss.str();
}

void CheckPartial(const Pddl& p, const PartialState& s, const MPartial& m, const std::vector<Atom>& pool) {
  MState pos, neg;
  for (const auto& x : m) (x.second ? pos : neg).insert(x.first);
  PBT_CHECK(FromState(s.pos()) == pos, "pos is " << s.pos() << " for " << Show(m));
  PBT_CHECK(FromState(s.neg()) == neg, "neg is " << s.neg() << " for " << Show(m));
  PBT_CHECK(s.size() == m.size() && s.empty() == m.empty(), "size " << s.size() << " for " << Show(m));
  PBT_CHECK(s.IsConsistent(), "IsConsistent is false for " << Show(m));
  for (const Atom& a : pool) {
    const Proposition q = ToProp(p, a);
    const auto it = m.find(a);
    if (it == m.end()) {
      for (int k = 0; k < 2; k++) {
        bool thrown = false;
        try {
          k == 0 ? s.contains(q) : s.does_not_contain(q);
        } catch (const PartialState::UnknownEvaluation& e) {
          thrown = true;
          PBT_CHECK(e.proposition() == q && FromProp(e.proposition()) == a, "the unknown-evaluation error names " << e.proposition() << " for " << model::Show(a));
          PBT_CHECK(std::string(e.what()) == model::Show(a), "the unknown-evaluation error says " << e.what() << " for " << model::Show(a));
        }
        PBT_CHECK(thrown, (k == 0 ? "contains(" : "does_not_contain(") << model::Show(a) << ") has an answer in " << Show(m));
      }
    } else {
      PBT_CHECK(s.contains(q) == it->second, "contains(" << model::Show(a) << ") in " << Show(m));
      PBT_CHECK(s.does_not_contain(q) == !it->second, "does_not_contain(" << model::Show(a) << ") in " << Show(m));
    }
  }
  const auto text = s.Stringify();
  PBT_CHECK(std::set<std::string>(text.first.begin(), text.first.end()) == ToStrings(pos), "Stringify first of " << Show(m));
  PBT_CHECK(std::set<std::string>(text.second.begin(), text.second.end()) == ToStrings(neg), "Stringify second of " << Show(m));
  const auto text2 = symbolic::Stringify(s);
  PBT_CHECK(text2.first == ToStrings(pos) && text2.second == ToStrings(neg), "symbolic::Stringify of " << Show(m));
}

}  // namespace

PBT_TARGET(C03_partial_history, "at least 6 operations with a proposition flipped both ways") {
  Fixture f(c, c.pick(std::vector<size_t>{2, 5, 15, 40}));
  const Pddl& p = *f.pddl;
  PartialState s;
  MPartial m;
  if (c.chance(1, 4)) {
    // From two sets of text; keep them disjoint here.
    std::unordered_set<std::string> pos, neg;
    for (const Atom& a : f.pool) {
      const int v = c.weighted({2, 1, 1});
      if (v == 0 || !f.w.FindPred(a[0])) continue;
      m[a] = v == 1;
      (v == 1 ? pos : neg).insert(model::Show(a));
    }
    PBT_LOG(c, "PartialState(" << Show(m) << ")");
    s = PartialState(p, pos, neg);
    CheckPartial(p, s, m, f.pool);
  }
  std::vector<std::pair<PartialState, MPartial>> copies;
  const int ops = c.range(1, c.scaled(50));
  int to_true = 0, to_false = 0;
  for (int k = 0; k < ops; k++) {
    const Atom a = c.pick(f.pool);
    const AnyProp q(p, a);
    const int form = static_cast<int>(c.below(kNumForms));
    const bool value = c.flip();
    const int how = c.weighted({4, 2, 2, 2});
    int expect = m.count(a) == 0 ? 1 : (m[a] == value ? 0 : 2);
    if (expect == 2) (value ? to_true : to_false)++;
    m[a] = value;
    int got = 0;
    PBT_LOG(c, (value ? "insert " : "erase ") << model::Show(a) << " form " << form << " how " << how);
    if (how == 0) {
      got = q.With<int>(form, p, [&](const PropositionBase& x) { return value ? s.insert(x) : s.erase(x); });
    } else if (how == 1) {
      got = value ? s.insert(Proposition(q.owned)) : s.erase(Proposition(q.owned));
    } else if (how == 3) {
      // A proposition of the partial state itself.
      const PartialState& cs = s;
      const Proposition* own = Own(cs.pos(), a);
      if (own == nullptr) own = Own(cs.neg(), a);
      const PropositionBase& x = own != nullptr ? *own : q.owned;
      got = value ? s.insert(x) : s.erase(x);
    } else {
      got = value ? s.emplace(q.name, q.args) : s.erase(Proposition(p, model::Show(a)));
    }
    PBT_CHECK(got == expect, "the operation returned " << got << ", expected " << expect << "; now " << Show(m));
    CheckPartial(p, s, m, f.pool);
    if (c.chance(1, 10)) copies.emplace_back(s, m);
    if (!copies.empty() && c.chance(1, 15)) {
      PBT_LOG(c, "assigned from a copy");
      const auto x = c.pick(copies);
      s = x.first;
      m = x.second;
    }
  }
  for (const auto& x : copies) CheckPartial(p, x.first, x.second, f.pool);
  if (ops >= 6 && to_true > 0 && to_false > 0) c.nontrivial();
}

PBT_TARGET(C03_assembled, "both sets have two propositions or more") {
  Fixture f(c, c.pick(std::vector<size_t>{3, 8, 30}));
  const Pddl& p = *f.pddl;
  MState pos, neg;
  const int style = c.weighted({1, 1, 1});
  for (const Atom& a : f.pool) {
    const int v = c.weighted({3, 3, 3, style == 0 ? 0 : 1});
    if (v == 1 || v == 3) pos.insert(a);
    if (v == 2 || v == 3) neg.insert(a);
  }
  if (style == 2 && !pos.empty()) neg.insert(*std::next(pos.begin(), c.below(static_cast<uint32_t>(pos.size()))));
  bool disjoint = true;
  for (const Atom& a : pos) disjoint &= neg.count(a) == 0;
  PBT_LOG(c, "pos " << model::Show(pos) << " neg " << model::Show(neg));
  const State spos = BuildState(c, p, pos, f.pool), sneg = BuildState(c, p, neg, f.pool);
  const PartialState s = c.flip() ? PartialState(spos, sneg) : PartialState(State(spos), State(sneg));
  PBT_CHECK(s.IsConsistent() == disjoint, "IsConsistent is " << !disjoint << " for pos " << model::Show(pos) << " neg " << model::Show(neg));
  PBT_CHECK(PartialState(sneg, spos).IsConsistent() == disjoint, "IsConsistent is " << !disjoint << " for pos " << model::Show(neg) << " neg " << model::Show(pos));
  PBT_CHECK(FromState(s.pos()) == pos && FromState(s.neg()) == neg, "the sets differ from those given");
  PBT_CHECK(s.size() == pos.size() + neg.size(), "size " << s.size());
  if (pos.size() >= 2 && neg.size() >= 2) c.nontrivial();
}

PBT_TARGET(C02_partial_equality, "three partial states of which two are equal and two differ") {
  Fixture f(c, c.pick(std::vector<size_t>{3, 8, 30}));
  const Pddl& p = *f.pddl;
  MPartial base;
  for (const Atom& a : f.pool) {
    const int v = c.weighted({1, 1, 1});
    if (v) base[a] = v == 1;
  }
  std::vector<MPartial> m = {base, base};
  const int extra = c.range(1, 4);
  for (int i = 0; i < extra; i++) {
    MPartial n = c.pick(m);
    const int k = c.weighted({2, 4, 1});
    for (int j = 0; j < k; j++) {
      const Atom a = c.pick(f.pool);
      const int v = c.weighted({1, 1, 1});
      if (v == 0) n.erase(a); else n[a] = v == 1;
    }
    m.push_back(n);
  }
  std::vector<PartialState> s;
  for (const MPartial& x : m) {
    PBT_LOG(c, "partial state " << s.size() << ": " << Show(x));
    PartialState q;
    if (c.flip()) {
      MState pos, neg;
      for (const auto& y : x) (y.second ? pos : neg).insert(y.first);
      q = PartialState(BuildState(c, p, pos, f.pool), BuildState(c, p, neg, f.pool));
    } else {
      std::vector<std::pair<Atom, bool>> todo(x.begin(), x.end());
      for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[c.below(static_cast<uint32_t>(i))]);
      for (const auto& y : todo) {
        if (c.chance(1, 4)) y.second ? q.erase(ToProp(p, y.first)) : q.insert(ToProp(p, y.first));
        y.second ? q.insert(ToProp(p, y.first)) : q.erase(ToProp(p, y.first));
      }
    }
    s.push_back(q);
  }
  CheckLaws(s, m);
  bool some_eq = false, some_ne = false;
  for (size_t i = 0; i < s.size(); i++) {
    CheckPartial(p, s[i], m[i], {});
    std::multiset<std::string> lines, expect = {"(and", ")"};
    std::istringstream in(PrintedP(s[i]));
    for (std::string line; std::getline(in, line);) {
      const size_t at = line.find_first_not_of(" \t");
      if (at != std::string::npos) lines.insert(line.substr(at));
    }
    for (const auto& x : m[i]) expect.insert((x.second ? "" : "not ") + *ToStrings({x.first}).begin());
    PBT_CHECK(lines == expect, "partial state " << i << " is printed as " << PrintedP(s[i]) << " for " << Show(m[i]));
    for (size_t j = 0; j < i; j++) {
      const bool eq = m[i] == m[j];
      PBT_CHECK((PrintedP(s[i]) == PrintedP(s[j])) == eq, "printed partial states " << i << " and " << j << ": " << PrintedP(s[i]) << PrintedP(s[j]));
      (eq ? some_eq : some_ne) = true;
    }
  }
  if (some_eq && some_ne) c.nontrivial();
}

PBT_TARGET(C04_propositions, "two different propositions that share the predicate name or the arguments, or two equal ones in different forms") {
  const World w = GenWorld(c, StateOpts());
  std::unique_ptr<Pddl> p1 = Load(w, c), p2 = Load(w, c);
  std::vector<Atom> atoms;
  const int n = c.range(2, 5);
  for (int i = 0; i < n; i++) {
    Atom a;
    if (i > 0 && c.chance(2, 3)) {
      // Close to one of the others.
      a = c.pick(atoms);
      const int change = c.weighted({2, 2, 2, 1, 1, 1});
      if (change == 1) a[0] = c.pick(w.preds).name;
      if (change == 2 && a.size() > 1) a[1 + c.below(static_cast<uint32_t>(a.size() - 1))] = c.pick(w.objs).name;
      if (change == 3 && a.size() > 1) a.pop_back();
      if (change == 4) a.push_back(c.pick(w.objs).name);
      if (change == 5 && a.size() > 2) std::swap(a[1], a[2]);
    } else {
      a = {c.pick(w.preds).name};
      const int k = c.range(0, 4);
      for (int j = 0; j < k; j++) a.push_back(c.pick(w.objs).name);
    }
    atoms.push_back(a);
    PBT_LOG(c, "proposition " << i << ": " << Show(a));
  }
  bool near = false;
  const std::string parts[] = {"owned", "reference", "signed", "copy", "parsed"};
  for (int i = 0; i < n; i++) {
    const Atom& a = atoms[i];
    const Pddl& pa = c.flip() ? *p1 : *p2;
    const AnyProp qa(pa, a);
    for (int form = 0; form < kNumForms; form++) {
      qa.With<bool>(form, pa, [&](const PropositionBase& x) {
        PBT_CHECK(FromProp(x) == a, parts[form] << " form of " << Show(a) << " is " << x);
        PBT_CHECK(x.to_string() == Show(a), parts[form] << " form of " << Show(a) << " prints " << x.to_string());
        std::ostringstream ss;
        ss << x;
        PBT_CHECK(ss.str() == Show(a), parts[form] << " form of " << Show(a) << " prints " << ss.str());
        std::string pddl_text = "(" + a[0];
        for (size_t k = 1; k < a.size(); k++) pddl_text += " " + a[k];
        PBT_CHECK(x.to_pddl() == pddl_text + ")", parts[form] << " form of " << Show(a) << " has PDDL text " << x.to_pddl());
        const Proposition back(pa, x.to_string());
        PBT_CHECK(back == x && x == back && FromProp(back) == a && back.hash() == x.hash(), "parsing the text of " << Show(a) << " gives " << back);
        PBT_CHECK(std::hash<PropositionBase>{}(x) == x.hash(), "std::hash of " << Show(a));
        return true;
      });
    }
    PBT_CHECK(Proposition::ParseHead(Show(a)) == a[0], "ParseHead of " << Show(a));
    Proposition moved_from(qa.owned);
    const Proposition moved(std::move(moved_from));
    PBT_CHECK(moved == qa.owned && FromProp(moved) == a && moved.hash() == qa.owned.hash(), "a moved " << Show(a) << " is " << moved);
    Proposition assigned;
    assigned = qa.owned;
    PBT_CHECK(assigned == qa.owned && FromProp(assigned) == a && assigned.hash() == qa.owned.hash(), "an assigned " << Show(a) << " is " << assigned);
    for (int sign = 0; sign < 2; sign++) {
      const SignedProposition sp(Proposition(qa.owned), sign == 1);
      PBT_CHECK(sp.is_pos() == (sign == 1) && sp.sign() == (sign ? "+" : "-"), "the sign of a signed proposition");
      PBT_CHECK(sp == qa.owned && FromProp(sp) == a, "a signed " << Show(a) << " is " << sp);
    }
    for (int j = 0; j < n; j++) {
      const Atom& b = atoms[j];
      const Pddl& pb = c.flip() ? *p1 : *p2;
      const AnyProp qb(pb, b);
      const int fa = static_cast<int>(c.below(kNumForms)), fb = static_cast<int>(c.below(kNumForms));
      if (i != j && (a[0] == b[0] || (a.size() == b.size() && std::equal(a.begin() + 1, a.end(), b.begin() + 1)))) near = true;
      PBT_LOG(c, Show(a) << " as " << parts[fa] << " against " << Show(b) << " as " << parts[fb]);
      qa.With<bool>(fa, pa, [&](const PropositionBase& x) {
        return qb.With<bool>(fb, pb, [&](const PropositionBase& y) {
          const bool eq = a == b;
          PBT_CHECK((x == y) == eq && (x != y) == !eq, Show(a) << " == " << Show(b) << " is " << (x == y) << ", != is " << (x != y));
          PBT_CHECK((x < y) == (a < b), Show(a) << " < " << Show(b) << " is " << (x < y));
          if (eq) PBT_CHECK(x.hash() == y.hash(), "hashes of equal propositions " << Show(a));
          State s;
          s.insert(x);
          PBT_CHECK(s.contains(y) == eq, "{" << Show(a) << "} contains " << Show(b) << " is " << !eq);
          PBT_CHECK(s.insert(y) == !eq, "inserting " << Show(b) << " in {" << Show(a) << "}");
          return true;
        });
      });
    }
  }
  if (near) c.nontrivial();
}

// --- C08 -------------------------------------------------------------------------
namespace {

size_t StateIndexCheck(pbt::Ctx& c, const World& w, const StateIndex& idx, const std::vector<Atom>& all, const char* what) {
  const Pddl* dummy = nullptr;
  (void)dummy;
  PBT_CHECK(idx.size() == all.size(), what << ": size " << idx.size() << " for " << all.size() << " ground propositions");
  std::map<Atom, size_t> at;
  for (size_t i = 0; i < all.size(); i++) at[all[i]] = i;
  const int queries = c.range(0, 25);
  for (int k = 0; k < queries && !all.empty(); k++) {
    const size_t i = c.below(static_cast<uint32_t>(all.size()));
    const int kind = c.weighted({3, 3, 1});
    PBT_LOG(c, what << ": query kind " << kind << " at " << i);
    if (kind == 0) {
      const Proposition q = idx.GetProposition(i);
      PBT_CHECK(FromProp(q) == all[i], what << ": GetProposition(" << i << ") is " << q << ", expected " << Show(all[i]));
      PBT_CHECK(idx.GetPropositionIndex(q) == i, what << ": the index of " << q << " is " << idx.GetPropositionIndex(q) << ", expected " << i);
    } else if (kind == 1) {
      const Proposition q = ToProp(idx.pddl(), all[i]);
      PBT_CHECK(idx.GetPropositionIndex(q) == i, what << ": the index of " << q << " is " << idx.GetPropositionIndex(q) << ", expected " << i);
    } else {
      PBT_CHECK(FromProp(idx.begin()[static_cast<ptrdiff_t>(i)]) == all[i], what << ": begin()[" << i << "]");
    }
  }
  return static_cast<size_t>(queries);
}

}  // namespace

PBT_TARGET(C08_state_index, "two predicates or more with propositions and 5 or more queries") {
  Opts o = StateOpts();
  o.min_objs = 0;
  o.min_preds = 0;
  o.max_ground = 300;
  o.derived = c.chance(1, 4);
  const World w = GenWorld(c, o);
  std::unique_ptr<Pddl> p = Load(w, c);
  const std::vector<Atom> all = w.GroundAtoms();
  std::vector<StateIndex> idx;
  idx.emplace_back(p->predicates(), true);
  idx.emplace_back(p->predicates(), false);
  idx.push_back(p->state_index());
  size_t queries = 0;
  const int rounds = c.range(1, 4);
  for (int r = 0; r < rounds; r++) {
    const size_t k = c.below(static_cast<uint32_t>(idx.size()));
    const int op = c.weighted({4, 2, 2, 2, 1});
    PBT_LOG(c, "index " << k << ", operation " << op);
    StateIndex& x = idx[k];
    switch (op) {
      case 0: queries += StateIndexCheck(c, w, x, all, "index"); break;
      case 1: {
        // States to vectors and back.
        const MState m = GenState(c, w);
        const State s = ToState(*p, m, &c);
        const StateIndex::IndexedState v = x.GetIndexedState(s);
        PBT_CHECK(static_cast<size_t>(v.size()) == all.size(), "the vector has " << v.size() << " entries for " << all.size() << " propositions");
        for (size_t i = 0; i < all.size(); i++) {
          PBT_CHECK(v(static_cast<long>(i)) == (m.count(all[i]) == 1), "entry " << i << " (" << Show(all[i]) << ") of the vector of " << Show(m) << " is " << v(static_cast<long>(i)));
        }
        const State back = x.GetState(v);
        PBT_CHECK(back == s && FromState(back) == m, "the state " << Show(m) << " comes back as " << back);
        queries += 5;
        break;
      }
      case 2: {
        StateIndex::IndexedState v = StateIndex::IndexedState::Zero(static_cast<long>(all.size()));
        MState m;
        for (size_t i = 0; i < all.size(); i++) {
          if (!c.flip()) continue;
          v(static_cast<long>(i)) = true;
          m.insert(all[i]);
        }
        const State s = x.GetState(v);
        PBT_CHECK(FromState(s) == m, "the vector of " << Show(m) << " gives the state " << s);
        const StateIndex::IndexedState back = x.GetIndexedState(s);
        PBT_CHECK(back.size() == v.size() && (back == v).all(), "the vector of " << Show(m) << " does not come back");
        queries += 5;
        break;
      }
      case 3: {
        size_t i = 0;
        for (const Proposition& q : x) {
          PBT_CHECK(i < all.size(), "iteration gives more than " << all.size() << " propositions");
          PBT_CHECK(FromProp(q) == all[i], "iteration gives " << q << " at " << i << ", expected " << Show(all[i]));
          i++;
        }
        PBT_CHECK(i == all.size(), "iteration gives " << i << " of " << all.size());
        PBT_CHECK(x.end() - x.begin() == static_cast<ptrdiff_t>(all.size()), "end() - begin()");
        // A walk.
        auto it = x.begin();
        long pos = 0;
        const int steps = c.range(0, 12);
        for (int j = 0; j < steps && !all.empty(); j++) {
          const long target = c.range(0, static_cast<int>(all.size()) - 1);
          switch (c.below(6)) {
            case 0: it += target - pos; break;
            case 1: it -= pos - target; break;
            case 2: it = it + (target - pos); break;
            case 3: it = (target - pos) + it; break;
            case 4: for (; pos < target; pos++) ++it; for (; pos > target; pos--) --it; break;
            default: for (; pos < target; pos++) it++; for (; pos > target; pos--) it--; break;
          }
          pos = target;
          PBT_CHECK(FromProp(*it) == all[static_cast<size_t>(pos)] && it->name() == all[static_cast<size_t>(pos)][0], "the iterator at " << pos << " gives " << *it);
          PBT_CHECK(it - x.begin() == pos && (it == x.begin()) == (pos == 0) && (it != x.end()), "the position of the iterator at " << pos);
          const auto other = x.begin() + c.range(0, static_cast<int>(all.size()));
          const long q = other - x.begin();
          PBT_CHECK((it < other) == (pos < q) && (it > other) == (pos > q) && (it <= other) == (pos <= q) && (it >= other) == (pos >= q) && (it == other) == (pos == q),
                    "comparisons of iterators at " << pos << " and " << q);
        }
        queries += 5;
        break;
      }
      case 4: {
        // A copy works on after its source is gone.
        StateIndex copy(x);
        idx.push_back(copy);
        if (c.flip()) {
          std::unique_ptr<StateIndex> temp = std::make_unique<StateIndex>(p->predicates(), c.flip());
          StateIndexCheck(c, w, *temp, all, "temporary");
          StateIndex kept(*temp);
          temp.reset();
          queries += StateIndexCheck(c, w, kept, all, "copy of a destroyed index");
        }
        break;
      }
    }
  }
  queries += StateIndexCheck(c, w, p->state_index(), all, "the problem's index");
  size_t nonempty = 0;
  for (const Pred& q : w.preds) nonempty += !w.Tuples(q.params).empty();
  if (nonempty >= 2 && queries >= 5) c.nontrivial();
}
