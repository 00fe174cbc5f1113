// A stand-in for the part of pybind11 that src/python/symbolic.cc uses.  It
// records the bound classes and functions, and calls them with dynamically typed
// values the way Python does: overloads are tried in order, arguments may be
// named or left to their defaults, returned references follow pybind11's return
// value policies (properties and iterators refer to memory of their owner and
// keep it alive, other functions copy), an address that already has a Python
// object gives that object again, and keep_alive is honoured.  Objects are
// destroyed with the last reference to them.
#ifndef VERIF_PYSHIM_PYBIND11_H_
#define VERIF_PYSHIM_PYBIND11_H_

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pybind11 {

// --- values -------------------------------------------------------------------
struct Instance;
using InstanceP = std::shared_ptr<Instance>;

struct Value {
  enum Kind { kNone, kBool, kInt, kFloat, kStr, kList, kTuple, kSet, kDict, kArray, kObject };
  Kind kind = kNone;
  long long i = 0;
  double d = 0;
  std::string s;
  std::vector<Value> items;  // a dict alternates keys and values
  InstanceP obj;

  Value() = default;
  Value(bool b) : kind(kBool), i(b) {}                  // NOLINT
  Value(int n) : kind(kInt), i(n) {}                    // NOLINT
  Value(size_t n) : kind(kInt), i(static_cast<long long>(n)) {}  // NOLINT
  Value(double x) : kind(kFloat), d(x) {}               // NOLINT
  Value(const char* t) : kind(kStr), s(t) {}            // NOLINT
  Value(const std::string& t) : kind(kStr), s(t) {}     // NOLINT
  Value(InstanceP p) : kind(kObject), obj(std::move(p)) {}  // NOLINT
  static Value Sequence(Kind k, std::vector<Value> v) {
    Value r;
    r.kind = k;
    r.items = std::move(v);
    return r;
  }
  template <typename C>
  static Value Of(Kind k, const C& c) {
    Value r;
    r.kind = k;
    for (const auto& x : c) r.items.emplace_back(x);
    return r;
  }
};

// A Python object that holds a C++ object.
struct Instance {
  Instance(std::type_index t, void* p) : type(t), ptr(p) {}
  ~Instance();
  Instance(const Instance&) = delete;

  std::type_index type;
  void* ptr;
  std::vector<InstanceP> keeps;  // released after the owned object
  std::shared_ptr<void> owned;
  std::function<bool(Value*)> next;  // of iterators
};

// Objects by the address of what they hold.
using Registry = std::map<std::pair<void*, std::type_index>, std::weak_ptr<Instance>>;
inline Registry& Live() {
  static Registry r;
  return r;
}
inline Instance::~Instance() {
  auto it = Live().find({ptr, type});
  if (it != Live().end() && it->second.expired()) Live().erase(it);
}

// Classes bound with std::shared_ptr as their holder.  Returning a shared_ptr to
// any other class is undefined behaviour in pybind11.
inline std::set<std::type_index>& SharedHolders() {
  static std::set<std::type_index> r;
  return r;
}

// The arguments do not fit; the next overload is tried.
struct NoMatch {};
struct type_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct attribute_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct stop_iteration {
  explicit stop_iteration(const char* = "") {}
};

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

// --- conversion -----------------------------------------------------------------
template <typename T>
using bare = std::remove_cv_t<std::remove_reference_t<T>>;

template <typename T, typename = void>
struct Caster {  // a bound class
  using Holder = T*;
  static Holder Load(const Value& v) {
    if (v.kind != Value::kObject || v.obj->type != typeid(T)) throw NoMatch();
    return static_cast<T*>(v.obj->ptr);
  }
  static T& Get(Holder& h) { return *h; }
  static InstanceP Own(T* p) {
    auto r = std::make_shared<Instance>(typeid(T), p);
    r->owned = std::shared_ptr<T>(p);
    Live()[{p, typeid(T)}] = r;
    return r;
  }
  template <typename U>
  static Value Cast(U&& x, return_value_policy policy, const InstanceP& parent) {
    if constexpr (!std::is_lvalue_reference<U&&>::value) {
      return Own(new T(std::forward<U>(x)));
    } else {
      T* p = const_cast<T*>(&x);
      auto it = Live().find({p, typeid(T)});
      if (it != Live().end()) {
        if (InstanceP known = it->second.lock()) return known;
      }
      if (policy == return_value_policy::reference_internal || policy == return_value_policy::reference) {
        auto r = std::make_shared<Instance>(typeid(T), p);
        if (policy == return_value_policy::reference_internal) r->keeps.push_back(parent);
        Live()[{p, typeid(T)}] = r;
        return r;
      }
      if constexpr (std::is_copy_constructible<T>::value) {
        return Own(new T(x));
      } else {
        throw type_error("the object cannot be copied");
      }
    }
  }
};

template <>
struct Caster<bool> {
  using Holder = bool;
  static Holder Load(const Value& v) {
    if (v.kind != Value::kBool) throw NoMatch();
    return v.i != 0;
  }
  static bool& Get(Holder& h) { return h; }
  static Value Cast(bool b, return_value_policy, const InstanceP&) { return b; }
};
template <typename T>
struct Caster<T, std::enable_if_t<std::is_integral<T>::value>> {
  using Holder = T;
  static Holder Load(const Value& v) {
    if (v.kind != Value::kInt && v.kind != Value::kBool) throw NoMatch();
    const T t = static_cast<T>(v.i);
    if (static_cast<long long>(t) != v.i || (t < 0) != (v.i < 0)) throw NoMatch();
    return t;
  }
  static T& Get(Holder& h) { return h; }
  static Value Cast(T x, return_value_policy, const InstanceP&) {
    Value r(0);
    r.i = static_cast<long long>(x);
    return r;
  }
};
template <typename T>
struct Caster<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  using Holder = T;
  static Holder Load(const Value& v) {
    if (v.kind == Value::kInt) return static_cast<T>(v.i);
    if (v.kind != Value::kFloat) throw NoMatch();
    return static_cast<T>(v.d);
  }
  static T& Get(Holder& h) { return h; }
  static Value Cast(T x, return_value_policy, const InstanceP&) { return static_cast<double>(x); }
};
template <>
struct Caster<std::string> {
  using Holder = std::string;
  static Holder Load(const Value& v) {
    if (v.kind != Value::kStr) throw NoMatch();
    return v.s;
  }
  static std::string& Get(Holder& h) { return h; }
  static Value Cast(const std::string& x, return_value_policy, const InstanceP&) { return x; }
};

// --- arguments ------------------------------------------------------------------
struct arg_v {
  const char* name;
  Value value;
};
struct arg {
  const char* name;
  explicit arg(const char* n) : name(n) {}
  template <typename T>
  arg_v operator=(T&& x) const {
    return {name, Value(std::forward<T>(x))};
  }
};
namespace literals {
inline arg operator""_a(const char* name, size_t) { return arg(name); }
}  // namespace literals

template <int Nurse, int Patient>
struct keep_alive {};

struct Function {
  size_t num_args = 0;  // with self
  std::vector<std::string> names;
  std::vector<std::optional<Value>> defaults;
  std::vector<std::pair<int, int>> keeps;
  bool is_static = false;
  std::function<Value(std::vector<Value>&)> call;
};

inline void Extra(Function* f, const arg& a) {
  f->names.emplace_back(a.name);
  f->defaults.emplace_back();
}
inline void Extra(Function* f, const arg_v& a) {
  f->names.emplace_back(a.name);
  f->defaults.emplace_back(a.value);
}
inline void Extra(Function*, const char*) {}
inline void Extra(Function*, return_value_policy) {}
template <int N, int P>
void Extra(Function* f, const keep_alive<N, P>&) {
  f->keeps.emplace_back(N, P);
}

// The policy asked for among the extras, or the default.
inline return_value_policy PolicyOf(return_value_policy d) { return d; }
template <typename X, typename... R>
return_value_policy PolicyOf(return_value_policy d, const X& x, const R&... r) {
  if constexpr (std::is_same<X, return_value_policy>::value) {
    return PolicyOf(x, r...);
  } else {
    return PolicyOf(d, r...);
  }
}

template <typename R, typename F, typename... A, size_t... I>
Value Invoke(F& f, std::vector<Value>& args, return_value_policy policy, std::index_sequence<I...>) {
  std::tuple<typename Caster<bare<A>>::Holder...> holders{Caster<bare<A>>::Load(args[I])...};
  (void)holders;
  if constexpr (std::is_void<R>::value) {
    f(static_cast<A>(Caster<bare<A>>::Get(std::get<I>(holders)))...);
    return Value();
  } else {
    return Caster<bare<R>>::Cast(f(static_cast<A>(Caster<bare<A>>::Get(std::get<I>(holders)))...), policy, args.empty() ? nullptr : args[0].obj);
  }
}

// C++ callables of the signature R(A...).
template <typename R, typename... A, typename F>
Function MakeTyped(F f, return_value_policy policy) {
  Function r;
  r.num_args = sizeof...(A);
  r.call = [f = std::move(f), policy](std::vector<Value>& args) mutable { return Invoke<R, F, A...>(f, args, policy, std::index_sequence_for<A...>{}); };
  return r;
}

// C: the bound class, for member functions of its bases.
template <typename C, typename R, typename... A>
Function MakeFunction(R (*f)(A...), return_value_policy p) {
  return MakeTyped<R, A...>(f, p);
}
template <typename C, typename R, typename B, typename... A>
Function MakeFunction(R (B::*f)(A...) const, return_value_policy p) {
  return MakeTyped<R, const C&, A...>([f](const C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, p);
}
template <typename C, typename R, typename B, typename... A>
Function MakeFunction(R (B::*f)(A...), return_value_policy p) {
  return MakeTyped<R, C&, A...>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, p);
}
template <typename C, typename R, typename B, typename... A>
Function MakeFunction(R (B::*f)(A...) const noexcept, return_value_policy p) {
  return MakeTyped<R, const C&, A...>([f](const C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }, p);
}
template <typename F, typename R, typename... A>
Function MakeLambda(F f, R (F::*)(A...) const, return_value_policy p) {
  return MakeTyped<R, A...>(std::move(f), p);
}
template <typename F, typename R, typename... A>
Function MakeLambda(F f, R (F::*)(A...), return_value_policy p) {
  return MakeTyped<R, A...>(std::move(f), p);
}
template <typename C, typename F, typename = decltype(&F::operator())>
Function MakeFunction(F f, return_value_policy p) {
  return MakeLambda(std::move(f), &F::operator(), p);
}

// --- classes --------------------------------------------------------------------
struct ClassInfo {
  std::map<std::string, std::vector<Function>> functions;
  std::map<std::string, Function> getters, setters;
  std::vector<Function> pickle;  // getstate, setstate
};

struct module_ {
  std::map<std::string, ClassInfo> classes;
  std::map<std::type_index, std::string> names;
  std::string text;
  std::string& doc() { return text; }
};
using module = module_;

class tuple {
 public:
  Value value;
  explicit tuple(Value v) : value(std::move(v)) {}
  struct Item {
    const Value& v;
    template <typename T>
    T cast() const {
      auto h = Caster<T>::Load(v);
      return Caster<T>::Get(h);
    }
  };
  Item operator[](size_t i) const {
    if (i >= value.items.size()) throw std::out_of_range("tuple index");
    return {value.items[i]};
  }
  size_t size() const { return value.items.size(); }
};
template <typename... A>
tuple make_tuple(A&&... a) {
  return tuple(Value::Sequence(Value::kTuple, {Caster<bare<A>>::Cast(std::forward<A>(a), return_value_policy::copy, nullptr)...}));
}
template <>
struct Caster<tuple> {
  using Holder = tuple;
  static Holder Load(const Value& v) {
    if (v.kind != Value::kTuple) throw NoMatch();
    return tuple(v);
  }
  static tuple& Get(Holder& h) { return h; }
  static Value Cast(const tuple& t, return_value_policy, const InstanceP&) { return t.value; }
};

struct iterator {
  InstanceP obj;
};
struct IteratorState {};
template <>
struct Caster<iterator> {
  static Value Cast(const iterator& it, return_value_policy, const InstanceP&) { return it.obj; }
};
template <return_value_policy Policy = return_value_policy::reference_internal, typename It, typename End, typename... X>
iterator make_iterator(It first, End last, X&&...) {
  struct State {
    It it;
    End end;
    bool first_or_done;
  };
  auto state = std::make_shared<State>(State{std::move(first), std::move(last), true});
  iterator r{std::make_shared<Instance>(typeid(IteratorState), state.get())};
  r.obj->owned = state;
  Live()[{r.obj->ptr, r.obj->type}] = r.obj;
  State* s = state.get();
  Instance* self = r.obj.get();
  r.obj->next = [s, self](Value* out) {
    if (!s->first_or_done) {
      ++s->it;
    } else {
      s->first_or_done = false;
    }
    if (s->it == s->end) {
      s->first_or_done = true;
      return false;
    }
    const InstanceP owner = Live()[{self->ptr, self->type}].lock();
    using R = decltype(*s->it);
    *out = Caster<bare<R>>::Cast(static_cast<R>(*s->it), Policy, owner);
    return true;
  };
  return r;
}

template <typename... A>
struct init_args {};
template <typename... A>
init_args<A...> init() {
  return {};
}
template <typename F>
struct init_fn {
  F f;
};
template <typename F>
init_fn<F> init(F f) {
  return {std::move(f)};
}
template <typename G, typename S>
struct pickle_fns {
  G get;
  S set;
};
template <typename G, typename S>
pickle_fns<G, S> pickle(G g, S s) {
  return {std::move(g), std::move(s)};
}

template <typename T, typename... Options>
class class_ {
 public:
  class_(module_& m, const char* name) : info_(m.classes[name]) {
    m.names[typeid(T)] = name;
    if constexpr ((std::is_same<Options, std::shared_ptr<T>>::value || ...)) SharedHolders().insert(typeid(T));
  }

  template <typename F, typename... X>
  class_& def(const char* name, F f, const X&... x) {
    Add(name, MakeFunction<T>(std::move(f), PolicyOf(return_value_policy::automatic, x...)), false, x...);
    return *this;
  }
  template <typename... A, typename... X>
  class_& def(init_args<A...>, const X&... x) {
    Add("__init__", MakeTyped<T*, A...>([](A... a) { return new T(std::forward<A>(a)...); }, return_value_policy::take_ownership), true, x...);
    return *this;
  }
  template <typename F, typename... X>
  class_& def(init_fn<F> f, const X&... x) {
    Add("__init__", MakeFunction<T>(std::move(f.f), return_value_policy::automatic), true, x...);
    return *this;
  }
  template <typename G, typename S>
  class_& def(pickle_fns<G, S> p) {
    info_.pickle = {MakeFunction<T>(std::move(p.get), return_value_policy::automatic), MakeFunction<T>(std::move(p.set), return_value_policy::automatic)};
    return *this;
  }
  template <typename F, typename... X>
  class_& def_static(const char* name, F f, const X&... x) {
    Add(name, MakeFunction<T>(std::move(f), PolicyOf(return_value_policy::automatic, x...)), true, x...);
    return *this;
  }
  template <typename F, typename... X>
  class_& def_property_readonly(const char* name, F f, const X&... x) {
    info_.getters[name] = MakeFunction<T>(std::move(f), PolicyOf(return_value_policy::reference_internal, x...));
    return *this;
  }
  template <typename F, typename G, typename... X>
  class_& def_property(const char* name, F f, G g, const X&... x) {
    info_.setters[name] = MakeFunction<T>(std::move(g), return_value_policy::automatic);
    return def_property_readonly(name, std::move(f), x...);
  }
  template <typename C, typename D>
  class_& def_readonly(const char* name, const D C::*member) {
    return def_property_readonly(name, [member](const T& t) -> const D& { return t.*member; });
  }
  template <typename C, typename D>
  class_& def_readonly(const char* name, D C::*member) {
    return def_property_readonly(name, [member](const T& t) -> const D& { return t.*member; });
  }

 private:
  template <typename... X>
  void Add(const char* name, Function f, bool is_static, const X&... x) {
    f.is_static = is_static;
    (Extra(&f, x), ...);
    info_.functions[name].push_back(std::move(f));
  }
  ClassInfo& info_;
};

// Pointers are only returned by constructors.
template <typename T>
struct Caster<T*> {
  static Value Cast(T* p, return_value_policy, const InstanceP&) { return Caster<T>::Own(p); }
};

inline void add_ostream_redirect(module_&) {}

// --- calls ----------------------------------------------------------------------
using Kwargs = std::map<std::string, Value>;

class Python {
 public:
  explicit Python(void (*load)(module_&)) { load(m_); }

  // cls.name(args) or, with self as the first argument, self.name(args).
  Value Static(const std::string& cls, const std::string& name, std::vector<Value> args, const Kwargs& kwargs = {}) const {
    const ClassInfo& info = Class(cls);
    auto it = info.functions.find(name);
    if (it == info.functions.end()) throw attribute_error(cls + " has no function " + name);
    for (const Function& f : it->second) {
      std::vector<Value> full = args;
      if (!Bind(f, &full, kwargs)) continue;
      try {
        Value r = const_cast<Function&>(f).call(full);
        for (const auto& [nurse, patient] : f.keeps) {
          // 0 is the result; a constructor's object is 1, its arguments start at 2.
          const bool ctor = name == "__init__";
          auto at = [&](int k) -> Value& { return k == 0 || (ctor && k == 1) ? r : full[static_cast<size_t>(ctor ? k - 2 : k - 1)]; };
          Value &n = at(nurse), &p = at(patient);
          if (n.kind == Value::kNone || p.kind == Value::kNone) continue;
          if (n.obj == nullptr) throw type_error("cannot keep an argument alive by a value that is no instance");
          if (p.obj != nullptr && p.obj != n.obj) n.obj->keeps.push_back(p.obj);
        }
        return r;
      } catch (const NoMatch&) {
      }
    }
    throw type_error(cls + "." + name + ": incompatible arguments");
  }
  Value Call(const Value& self, const std::string& name, std::vector<Value> args = {}, const Kwargs& kwargs = {}) const {
    args.insert(args.begin(), self);
    return Static(ClassOf(self), name, std::move(args), kwargs);
  }
  Value New(const std::string& cls, std::vector<Value> args, const Kwargs& kwargs = {}) const { return Static(cls, "__init__", std::move(args), kwargs); }
  Value Get(const Value& self, const std::string& name) const {
    const ClassInfo& info = Class(ClassOf(self));
    auto it = info.getters.find(name);
    if (it == info.getters.end()) throw attribute_error(ClassOf(self) + " has no property " + name);
    return Access(it->second, {self});
  }
  void Set(const Value& self, const std::string& name, const Value& v) const {
    const ClassInfo& info = Class(ClassOf(self));
    auto it = info.setters.find(name);
    if (it == info.setters.end()) throw attribute_error(ClassOf(self) + " cannot set " + name);
    Access(it->second, {self, v});
  }
  // pickle.loads(pickle.dumps(self))
  Value Pickled(const Value& self) const {
    const ClassInfo& info = Class(ClassOf(self));
    if (info.pickle.size() != 2) throw type_error("cannot pickle " + ClassOf(self));
    return Access(info.pickle[1], {Access(info.pickle[0], {self})});
  }
  // iter(v), for values that are iterators themselves too.
  Value Iter(const Value& v) const {
    if (v.kind == Value::kObject && v.obj->next) return v;
    return Call(v, "__iter__");
  }
  bool Next(const Value& it, Value* out) const {
    if (it.kind == Value::kObject && it.obj->next) return it.obj->next(out);
    try {
      *out = Call(it, "__next__");
      return true;
    } catch (const stop_iteration&) {
      return false;
    }
  }
  std::vector<Value> List(const Value& iterable, size_t cap = 100000) const {
    const Value it = Iter(iterable);
    std::vector<Value> r;
    Value x;
    while (r.size() < cap && Next(it, &x)) r.push_back(x);
    return r;
  }
  std::string Repr(const Value& v) const { return Call(v, "__repr__").s; }
  const std::string& ClassOf(const Value& v) const {
    if (v.kind != Value::kObject) throw attribute_error("not an object");
    auto it = m_.names.find(v.obj->type);
    if (it == m_.names.end()) throw type_error("unregistered class");
    return it->second;
  }
  template <typename T>
  static const T& Cpp(const Value& v) {
    return *Caster<T>::Load(v);
  }

 private:
  const ClassInfo& Class(const std::string& name) const {
    auto it = m_.classes.find(name);
    if (it == m_.classes.end()) throw attribute_error("no class " + name);
    return it->second;
  }
  Value Access(const Function& f, std::vector<Value> args) const {
    try {
      return const_cast<Function&>(f).call(args);
    } catch (const NoMatch&) {
      throw type_error("incompatible value");
    }
  }
  static bool Bind(const Function& f, std::vector<Value>* args, const Kwargs& kwargs) {
    const size_t self = f.is_static ? 0 : 1;
    if (args->size() > f.num_args) return false;
    size_t used = 0;
    while (args->size() < f.num_args) {
      const size_t k = args->size() - self;
      if (args->size() < self || k >= f.names.size()) return false;
      auto it = kwargs.find(f.names[k]);
      if (it != kwargs.end()) {
        args->push_back(it->second);
        used++;
      } else if (f.defaults[k]) {
        args->push_back(*f.defaults[k]);
      } else {
        return false;
      }
    }
    return used == kwargs.size();
  }
  module_ m_;
};

}  // namespace pybind11

#define PYBIND11_MODULE(NAME, M)                                   \
  extern "C" void pyshim_load_##NAME(::pybind11::module_&);        \
  extern "C" void pyshim_load_##NAME(::pybind11::module_& M)

#endif
