#ifndef VERIF_PYSHIM_EIGEN_H_
#define VERIF_PYSHIM_EIGEN_H_

#include <Eigen/Eigen>

#include "pybind11.h"

namespace pybind11 {

// One-dimensional arrays.
template <typename A>
struct ArrayCaster {
  using S = typename A::Scalar;
  using Holder = A;
  static Holder Load(const Value& v) {
    if (v.kind != Value::kArray && v.kind != Value::kList) throw NoMatch();
    A a(static_cast<Eigen::Index>(v.items.size()));
    for (size_t i = 0; i < v.items.size(); i++) {
      auto h = Caster<S>::Load(v.items[i]);
      a(static_cast<Eigen::Index>(i)) = Caster<S>::Get(h);
    }
    return a;
  }
  static A& Get(Holder& h) { return h; }
  static Value Cast(const A& a, return_value_policy policy, const InstanceP& parent) {
    std::vector<Value> r;
    for (Eigen::Index i = 0; i < a.size(); i++) r.push_back(Caster<S>::Cast(a(i), policy, parent));
    return Value::Sequence(Value::kArray, std::move(r));
  }
};
template <typename S, int R, int C, int O, int MR, int MC>
struct Caster<Eigen::Array<S, R, C, O, MR, MC>> : ArrayCaster<Eigen::Array<S, R, C, O, MR, MC>> {};
template <typename S, int R, int C, int O, int MR, int MC>
struct Caster<Eigen::Matrix<S, R, C, O, MR, MC>> : ArrayCaster<Eigen::Matrix<S, R, C, O, MR, MC>> {};
template <typename A, int O, typename T>
struct Caster<Eigen::Ref<A, O, T>> {
  using Plain = std::remove_const_t<A>;
  using Holder = Plain;
  static Holder Load(const Value& v) { return Caster<Plain>::Load(v); }
  static Plain& Get(Holder& h) { return h; }
};

}  // namespace pybind11

#endif
