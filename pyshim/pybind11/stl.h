#ifndef VERIF_PYSHIM_STL_H_
#define VERIF_PYSHIM_STL_H_

#include "pybind11.h"

namespace pybind11 {

template <typename C, Value::Kind K>
struct SequenceCaster {
  using T = typename C::value_type;
  using Holder = C;
  static Holder Load(const Value& v) {
    const bool set = K == Value::kSet;
    if (set ? v.kind != Value::kSet : (v.kind != Value::kList && v.kind != Value::kTuple)) throw NoMatch();
    C c;
    for (const Value& x : v.items) {
      auto h = Caster<T>::Load(x);
      if constexpr (K == Value::kSet) {
        c.insert(Caster<T>::Get(h));
      } else {
        c.push_back(Caster<T>::Get(h));
      }
    }
    return c;
  }
  static C& Get(Holder& h) { return h; }
  template <typename U>
  static Value Cast(U&& c, return_value_policy policy, const InstanceP& parent) {
    std::vector<Value> r;
    for (auto&& x : c) {
      if constexpr (std::is_lvalue_reference<U&&>::value) {
        r.push_back(Caster<T>::Cast(x, policy, parent));
      } else if constexpr (K == Value::kSet) {
        r.push_back(Caster<T>::Cast(T(x), policy, parent));
      } else {
        r.push_back(Caster<T>::Cast(T(std::move(x)), policy, parent));
      }
    }
    return Value::Sequence(K, std::move(r));
  }
};
template <typename T>
struct Caster<std::vector<T>> : SequenceCaster<std::vector<T>, Value::kList> {};
template <typename T>
struct Caster<std::set<T>> : SequenceCaster<std::set<T>, Value::kSet> {};
template <typename T>
struct Caster<std::unordered_set<T>> : SequenceCaster<std::unordered_set<T>, Value::kSet> {};

template <typename C>
struct MapCaster {
  using Key = typename C::key_type;
  using T = typename C::mapped_type;
  template <typename U>
  static Value Cast(U&& c, return_value_policy policy, const InstanceP& parent) {
    std::vector<Value> r;
    for (auto& x : c) {
      r.push_back(Caster<Key>::Cast(x.first, policy, parent));
      r.push_back(Caster<T>::Cast(x.second, policy, parent));
    }
    return Value::Sequence(Value::kDict, std::move(r));
  }
};
template <typename K, typename T>
struct Caster<std::map<K, T>> : MapCaster<std::map<K, T>> {};
template <typename K, typename T>
struct Caster<std::unordered_map<K, T>> : MapCaster<std::unordered_map<K, T>> {};

template <typename A, typename B>
struct Caster<std::pair<A, B>> {
  template <typename U>
  static Value Cast(U&& p, return_value_policy policy, const InstanceP& parent) {
    if constexpr (std::is_lvalue_reference<U&&>::value) {
      return Value::Sequence(Value::kTuple, {Caster<A>::Cast(p.first, policy, parent), Caster<B>::Cast(p.second, policy, parent)});
    } else {
      return Value::Sequence(Value::kTuple, {Caster<A>::Cast(A(std::move(p.first)), policy, parent), Caster<B>::Cast(B(std::move(p.second)), policy, parent)});
    }
  }
};
template <typename T>
struct Caster<std::optional<T>> {
  template <typename U>
  static Value Cast(U&& o, return_value_policy policy, const InstanceP& parent) {
    if (!o) return Value();
    if constexpr (std::is_lvalue_reference<U&&>::value) {
      return Caster<T>::Cast(*o, policy, parent);
    } else {
      return Caster<T>::Cast(T(std::move(*o)), policy, parent);
    }
  }
};
template <typename T>
struct Caster<std::shared_ptr<T>> {
  static Value Cast(const std::shared_ptr<T>& p, return_value_policy policy, const InstanceP& parent) {
    if (p == nullptr) return Value();
    if (!SharedHolders().count(typeid(T))) throw type_error("a std::shared_ptr to a class with another holder is returned");
    auto it = Live().find({p.get(), typeid(T)});
    if (it != Live().end()) {
      if (InstanceP known = it->second.lock()) return known;
    }
    auto r = std::make_shared<Instance>(typeid(T), p.get());
    r->owned = p;
    Live()[{p.get(), typeid(T)}] = r;
    (void)policy;
    (void)parent;
    return r;
  }
};

template <typename T>
struct Caster<std::unique_ptr<T>> {
  static Value Cast(std::unique_ptr<T>&& p, return_value_policy, const InstanceP&) {
    if (p == nullptr) return Value();
    return Caster<T>::Own(p.release());
  }
};

}  // namespace pybind11

#endif
