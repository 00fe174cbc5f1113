From 57d8877ee028fdf380100f991fcc8fb992bc1420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 01/32] fix: make ReverseIterator::operator-(n) of
 CombinationGenerator compile

---
 include/symbolic/utils/combination_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 94d0f99..0b7dedf 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -437,7 +437,7 @@ class CombinationGenerator<ContainerT>::ReverseIterator {
   ReverseIterator& operator-=(difference_type n) { return operator+=(-n); }
 
   ReverseIterator operator-(difference_type n) const {
-    Iterator temp = *this;
+    ReverseIterator temp = *this;
     return temp -= n;
   }
 
-- 
2.43.0


From 8e508cb04ce469cc72f85e30cff707294433df10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 02/32] fix: recompute the combination when a
 CombinationGenerator iterator re-enters the valid range

---
 include/symbolic/utils/combination_generator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 0b7dedf..8ad89ac 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -333,6 +333,14 @@ class CombinationGenerator<ContainerT>::Iterator {
       return;
     }
 
+    // If the current index is outside the bounds, the combination isn't in sync
+    // with it, so set all the values
+    if (idx_ >= gen_->size() || idx_ < 0) {
+      idx_ = idx_new;
+      UpdateCombination();
+      return;
+    }
+
     // Preallocate combination if it hasn't been already
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
-- 
2.43.0


From 097db50244b63d883867451169e2c20b0c052c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 03/32] fix: yield the last path found by the depth-first and
 A* iterators

The iterators compared equal to end() as soon as the open list was empty,
so a path found by expanding the last open node was never yielded.
---
 include/symbolic/planning/a_star.h             | 7 +++++--
 include/symbolic/planning/depth_first_search.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/symbolic/planning/a_star.h b/include/symbolic/planning/a_star.h
index 2c62ab7..97a93cb 100644
--- a/include/symbolic/planning/a_star.h
+++ b/include/symbolic/planning/a_star.h
@@ -67,12 +67,14 @@ class AStar<NodeT, Compare>::iterator {
 
   iterator& operator++();
   bool operator==(const iterator& other) const {
-    return queue_.empty() && other.queue_.empty();
+    return IsFinished() && other.IsFinished();
   }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
+  bool IsFinished() const { return queue_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::priority_queue<SearchNode<NodeT>, std::vector<SearchNode<NodeT>>,
@@ -94,7 +96,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -104,6 +106,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
       queue_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
diff --git a/include/symbolic/planning/depth_first_search.h b/include/symbolic/planning/depth_first_search.h
index 711b1f2..7297b88 100644
--- a/include/symbolic/planning/depth_first_search.h
+++ b/include/symbolic/planning/depth_first_search.h
@@ -54,12 +54,14 @@ class DepthFirstSearch<NodeT>::iterator {
       : stack_({{root, std::vector<NodeT>()}}), kMaxDepth(max_depth) {}
 
   iterator& operator++();
-  bool operator==(const iterator& other) const { return stack_.empty() && other.stack_.empty(); }
+  bool operator==(const iterator& other) const { return IsFinished() && other.IsFinished(); }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
 
+  bool IsFinished() const { return stack_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::stack<std::pair<NodeT, std::vector<NodeT>>> stack_;
@@ -79,7 +81,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -90,6 +92,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
       stack_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
-- 
2.43.0


From 8371dc150eade29319bec76eb7821110ea56281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 04/32] fix: set the Pddl reference of predicates, derived
 predicates and parameter generators

---
 src/derived_predicate.cc         | 1 +
 src/predicate.cc                 | 4 +++-
 src/utils/parameter_generator.cc | 6 +++---
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index 116ab62..73939f9 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -18,6 +18,7 @@ namespace symbolic {
 DerivedPredicate::DerivedPredicate(const Pddl& pddl,
                                    const VAL::derivation_rule* symbol)
     : symbol_(symbol) {
+  pddl_ = &pddl;
   name_ = symbol_->get_head()->head->getName();
   parameters_ = Object::CreateList(pddl, symbol_->get_head()->args);
   param_gen_ = ParameterGenerator(pddl, parameters_);
diff --git a/src/predicate.cc b/src/predicate.cc
index fbf589e..6911c92 100644
--- a/src/predicate.cc
+++ b/src/predicate.cc
@@ -21,7 +21,9 @@ Predicate::Predicate(const Pddl& pddl, const VAL::pred_decl* symbol)
     : symbol_(symbol),
       name_(symbol_->getPred()->getName()),
       parameters_(Object::CreateList(pddl, symbol_->getArgs())),
-      param_gen_(ParameterGenerator(pddl, parameters_)) {}
+      param_gen_(ParameterGenerator(pddl, parameters_)) {
+  pddl_ = &pddl;
+}
 
 std::string Predicate::to_string() const {
   std::stringstream ss;
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 2972bb1..653cccf 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -57,18 +57,18 @@ namespace symbolic {
 
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
-    : param_types_(ParamTypes(pddl.object_map(), params)) {
+    : pddl_(&pddl), param_types_(ParamTypes(pddl.object_map(), params)) {
   Base::operator=(Base(Options(param_types_)));
 }
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
-    : param_types_(other.param_types_) {
+    : pddl_(other.pddl_), param_types_(other.param_types_) {
   Base::operator=(Base(Options(param_types_)));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
-    : param_types_(std::move(other.param_types_)) {
+    : pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {
   Base::operator=(Base(Options(param_types_)));
 }
 
-- 
2.43.0


From 8b799b104d5ecfb6e1149a9408179d0919145e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 05/32] fix: nullary actions, predicates and axioms have one
 combination of arguments

---
 include/symbolic/utils/combination_generator.h |  3 ++-
 src/normal_form.cc                             |  4 ++++
 src/utils/parameter_generator.cc               | 18 ++++++++++++++----
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 8ad89ac..d216c60 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -194,7 +194,8 @@ class CombinationGenerator {
    */
   static size_t ComputeSize(const std::vector<ContainerT*>& options,
                             const std::vector<size_t>& size_groups) {
-    if (options.empty()) return 0;
+    // The product over no options is the empty combination
+    if (options.empty()) return 1;
     return options.front()->size() * size_groups.front();
   }
 
diff --git a/src/normal_form.cc b/src/normal_form.cc
index f178b0c..936ad02 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -212,6 +212,10 @@ std::optional<DisjunctiveFormula> Conjoin(
     if (dnf.empty()) continue;
     conjunctions.push_back(&dnf.conjunctions);
   }
+
+  // All the terms are true
+  if (conjunctions.empty()) return std::move(conj);
+
   CombinationGenerator<const std::vector<DisjunctiveFormula::Conjunction>> gen(
       conjunctions);
 
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 653cccf..aa47eae 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -51,6 +51,14 @@ std::vector<const std::vector<Object>*> Options(
   return options;
 }
 
+// Copies of an empty generator are empty, whatever the number of parameters.
+ParameterGenerator::Base CreateBase(
+    const ParameterGenerator& other,
+    const std::vector<std::vector<Object>>& param_types) {
+  if (other.empty()) return ParameterGenerator::Base();
+  return ParameterGenerator::Base(Options(param_types));
+}
+
 }  // namespace
 
 namespace symbolic {
@@ -58,18 +66,20 @@ namespace symbolic {
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
     : pddl_(&pddl), param_types_(ParamTypes(pddl.object_map(), params)) {
+  // Without objects of a parameter type, there are no combinations
+  if (param_types_.size() != params.size()) return;
   Base::operator=(Base(Options(param_types_)));
 }
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
     : pddl_(other.pddl_), param_types_(other.param_types_) {
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(other, param_types_));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
     : pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(other, param_types_));
 }
 
 ParameterGenerator& ParameterGenerator::operator=(
@@ -78,7 +88,7 @@ ParameterGenerator& ParameterGenerator::operator=(
 
   pddl_ = rhs.pddl_;
   param_types_ = rhs.param_types_;
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(rhs, param_types_));
   return *this;
 }
 
@@ -86,7 +96,7 @@ ParameterGenerator& ParameterGenerator::operator=(
     ParameterGenerator&& rhs) noexcept {
   pddl_ = rhs.pddl_;
   param_types_ = std::move(rhs.param_types_);
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(rhs, param_types_));
   return *this;
 }
 
-- 
2.43.0


From 98bb436c8ce0a3cddfbe5cff9f0b15dd13ca8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 06/32] fix: keep true and false apart when normal forms are
 disjoined or negated

---
 src/normal_form.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 936ad02..77474ab 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -190,7 +190,14 @@ std::optional<DisjunctiveFormula> Disjoin(
     const Pddl& pddl, std::vector<DisjunctiveFormula>&& dnfs,
     bool apply_axioms) {
   DisjunctiveFormula disj;
+
+  // No disjunct can be true
+  if (dnfs.empty()) return {};
+
   for (DisjunctiveFormula& dnf : dnfs) {
+    // One of the disjuncts is always true
+    if (dnf.empty()) return DisjunctiveFormula();
+
     disj.conjunctions.insert(disj.conjunctions.end(),
                              std::make_move_iterator(dnf.conjunctions.begin()),
                              std::make_move_iterator(dnf.conjunctions.end()));
@@ -265,6 +272,9 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
 
 std::optional<DisjunctiveFormula> Negate(const Pddl& pddl,
                                          DisjunctiveFormula&& dnf) {
+  // The negation of true is false
+  if (dnf.empty()) return {};
+
   // !((a & b) | (c & d) | (e & f))
 
   // ((!a & !b) | (!c & !d) | (!e & !f))
-- 
2.43.0


From 141b2df8df63559b2914bc79bb09a55f9c773a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 07/32] fix: parenthesise quantified variables and parse
 nullary propositions in the problem builder

---
 symbolic/problem.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 518dee6..6db502c 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -41,18 +41,24 @@ def _not(formulas: Formula):
 
 def _forall(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"forall {var_obj}", formula)
+    return create_group(f"forall ({var_obj})", formula)
 
 
 def _exists(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"exists {var_obj}", formula)
+    return create_group(f"exists ({var_obj})", formula)
 
 
 def _when(condition: Formula, implies: Formula):
     return create_group("when", (condition, implies))
 
 
+def _split_args(str_args: str) -> List[str]:
+    """Splits comma-separated arguments."""
+    str_args = str_args.replace(" ", "")
+    return str_args.split(",") if str_args else []
+
+
 def parse_proposition(str_prop: str) -> Tuple[str, List[str]]:
     """Parses the head and arguments of a proposition string.
 
@@ -64,8 +70,7 @@ def parse_proposition(str_prop: str) -> Tuple[str, List[str]]:
     if matches is None:
         raise ValueError(f"Unable to parse proposition from '{str_prop}'.")
     name_pred = matches.group(1)
-    str_args = matches.group(2).replace(" ", "").split(",")
-    return name_pred, str_args
+    return name_pred, _split_args(matches.group(2))
 
 
 def parse_head(str_prop: str) -> str:
@@ -86,8 +91,7 @@ def parse_args(str_prop: str) -> List[str]:
     matches = re.match(r"[^\(]*\(([^\)]*)", str_prop)
     if matches is None:
         raise ValueError(f"Unable to parse objects from '{str_prop}'.")
-    str_args = matches.group(1).replace(" ", "").split(",")
-    return str_args
+    return _split_args(matches.group(1))
 
 
 def pprint_formula(strings: Union[str, List], indent: int = 0) -> str:
-- 
2.43.0


From f114447a2c881f62538fc8d3b9e152b97620f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 08/32] fix: write untyped objects of the problem builder so
 that they stay untyped

---
 symbolic/problem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 6db502c..6ee3967 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -135,7 +135,10 @@ class Problem:
 
     @property
     def objects(self) -> List[Union[str, Sequence[str]]]:
-        return create_group(":objects", list(map(str, self._objects)))
+        # In a typed list, an untyped name takes the type of the names after it.
+        default_type = "object" if any(obj.type for obj in self._objects) else ""
+        objects = [Object(obj.name, obj.type or default_type) for obj in self._objects]
+        return create_group(":objects", list(map(str, objects)))
 
     @property
     def initial_state(self) -> List[Union[str, Sequence[str]]]:
-- 
2.43.0


From d6b91f723dcc40e8810c975308a62be7f5ca46a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 09/32] fix: do not replace constants by arguments of
 parameters with the same name

---
 src/axiom.cc   | 27 +++++++++++++++++++--------
 src/formula.cc |  5 +++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index 60b511d..7fd8150 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -28,6 +28,23 @@ using ::symbolic::SignedProposition;
 using AxiomApplicationFunction =
     std::function<const std::vector<Object>*(const std::vector<Object>&)>;
 
+/**
+ * Finds the index of the parameter that the proposition parameter refers to.
+ *
+ * Returns the number of parameters if the proposition parameter is a constant,
+ * which may have the same name as a parameter. Inner quantified parameters come
+ * last and shadow the outer ones.
+ */
+size_t FindParameter(const std::vector<Object>& params,
+                     const Object& prop_param) {
+  if (dynamic_cast<const VAL::var_symbol*>(prop_param.symbol()) != nullptr) {
+    for (size_t i = params.size(); i > 0; i--) {
+      if (params[i - 1] == prop_param) return i - 1;
+    }
+  }
+  return params.size();
+}
+
 /**
  * Prepares list of possible arguments given axiom parameters.
  */
@@ -248,18 +265,12 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
     // Check if axiom prop param has corresponding axiom param.
     const Object& axiom_prop_param = axiom_prop_params[idx_prop];
-    size_t i = 0;
-    for (; i < axiom_params.size(); i++) {
-      if (axiom_params[i] == axiom_prop_param) break;
-    }
+    const size_t i = FindParameter(axiom_params, axiom_prop_param);
     const bool is_axiom_prop_arg = i == axiom_params.size();
 
     // Check if action prop param has corresponding action param.
     const Object& action_prop_param = action_prop_params[idx_prop];
-    size_t j = 0;
-    for (; j < action_params.size(); j++) {
-      if (action_params[j] == action_prop_param) break;
-    }
+    const size_t j = FindParameter(action_params, action_prop_param);
     const bool is_action_prop_arg = j == action_params.size();
 
     if (is_axiom_prop_arg && is_action_prop_arg) {
diff --git a/src/formula.cc b/src/formula.cc
index 6299073..6ca81dc 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -384,6 +384,11 @@ ApplicationFunction Formula::CreateApplicationFunction(
   // List of (prop parameter index, action parameter index) pairs.
   std::vector<std::pair<size_t, size_t>> idx_params;
   for (size_t i = 0; i < prop_params.size(); i++) {
+    // A constant may have the same name as a parameter
+    if (dynamic_cast<const VAL::var_symbol*>(prop_params[i].symbol()) ==
+        nullptr) {
+      continue;
+    }
     for (size_t j = 0; j < action_params.size(); j++) {
       if (prop_params[i] == action_params[j]) {
         idx_params.emplace_back(i, j);
-- 
2.43.0


From 6536153688ef02425e0e3a083e2a1080b249629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 10/32] fix: trigger axioms only for arguments that match the
 types and repeated variables of their context

---
 src/axiom.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index 7fd8150..8b9fce8 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -262,6 +262,7 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   std::vector<std::pair<size_t, size_t>> idx_params;
   auto axiom_args = std::make_shared<std::vector<Object>>(axiom_params);
   std::vector<std::pair<size_t, Object>> future_action_args;
+  std::vector<std::pair<size_t, Object>> constant_args;
   for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
     // Check if axiom prop param has corresponding axiom param.
     const Object& axiom_prop_param = axiom_prop_params[idx_prop];
@@ -282,6 +283,7 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
     } else if (is_action_prop_arg) {
       // Instantiate axiom prop param with action prop arg.
       (*axiom_args)[i] = action_prop_param;
+      constant_args.emplace_back(i, action_prop_param);
     } else {
       // Match axiom prop param and action prop param.
       idx_params.emplace_back(i, j);
@@ -291,7 +293,8 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   // TODO(tmigimatsu): shared_ptr makes this not thread-safe.
   return [ptr_axiom_args = std::move(axiom_args),
           idx_params = std::move(idx_params),
-          future_action_args = std::move(future_action_args)](
+          future_action_args = std::move(future_action_args),
+          constant_args = std::move(constant_args), axiom_params](
              const std::vector<Object>& action_args)
              -> const std::vector<Object>* {
     // Check that action args match up with axiom context proposition.
@@ -308,6 +311,22 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
       const size_t idx_action = idx_axiom_action.second;
       axiom_args[idx_axiom] = action_args[idx_action];
     }
+
+    // Check that every axiom param gets a single argument of its type.
+    const auto IsMatch = [&axiom_args, &axiom_params](size_t idx_axiom,
+                                                      const Object& arg) {
+      return axiom_args[idx_axiom] == arg &&
+             arg.type().IsSubtype(axiom_params[idx_axiom].type());
+    };
+    for (const std::pair<size_t, size_t>& idx_axiom_action : idx_params) {
+      if (!IsMatch(idx_axiom_action.first,
+                   action_args[idx_axiom_action.second])) {
+        return nullptr;
+      }
+    }
+    for (const std::pair<size_t, Object>& idx_argument : constant_args) {
+      if (!IsMatch(idx_argument.first, idx_argument.second)) return nullptr;
+    }
     return &axiom_args;
   };
 }
-- 
2.43.0


From 3bf064153e65d29a991db393cc3fe48890983311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 11/32] fix: apply triggered axioms for all values of
 parameters outside their context

---
 src/action.cc | 72 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index 68d42b5..fa039ed 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -45,6 +45,48 @@ EffectsFunction<T> CreateEffectsFunction(const Pddl& pddl,
                                          const VAL::effect_lists* effects,
                                          const std::vector<Object>& parameters);
 
+/**
+ * Applies the axioms whose context matches the arguments of an effect.
+ */
+template <typename T>
+void ApplyAxioms(
+    const std::vector<std::pair<std::weak_ptr<Axiom>,
+                                AxiomApplicationFunction>>& axioms,
+    const std::vector<Object>& arguments, T* state) {
+  for (const auto& axiom_apply : axioms) {
+    const Axiom& axiom = *axiom_apply.first.lock();
+    const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
+    const std::vector<Object>* axiom_args = AxiomApply(arguments);
+    if (axiom_args == nullptr) continue;
+
+    // Copy the arguments, since applying the axiom may trigger it again.
+    const std::vector<Object> args = *axiom_args;
+
+    // Parameters that don't appear in the context are left unassigned.
+    const std::vector<Object>& params = axiom.parameters();
+    const auto IsUnassigned = [&args, &params](size_t i) {
+      return args[i].symbol() == params[i].symbol();
+    };
+    bool is_assigned = true;
+    for (size_t i = 0; i < params.size(); i++) {
+      if (IsUnassigned(i)) is_assigned = false;
+    }
+    if (is_assigned) {
+      axiom.Action::Apply(args, state);
+      continue;
+    }
+
+    // Apply the axiom for all the values of the unassigned parameters.
+    for (const std::vector<Object>& axiom_objs : axiom.parameter_generator()) {
+      bool is_match = true;
+      for (size_t i = 0; i < params.size(); i++) {
+        if (!IsUnassigned(i) && args[i] != axiom_objs[i]) is_match = false;
+      }
+      if (is_match) axiom.Action::Apply(axiom_objs, state);
+    }
+  }
+}
+
 template <typename T>
 EffectsFunction<T> CreateForall(const Pddl& pddl,
                                 const VAL::forall_effect* effect,
@@ -146,20 +188,7 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     // Return early to avoid infinite loop of axiom application.
     if (status == 0) return status;
 
-    // Apply axioms.
-    for (const auto& axiom_apply : axioms) {
-      const Axiom& axiom = *axiom_apply.first.lock();
-      const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
-
-      // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
-
-      // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
-      // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
-      // std::cout << "]" << *state << std::endl << std::endl;
-    }
+    ApplyAxioms(axioms, arguments, state);
     return status;
   };
 }
@@ -235,20 +264,7 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     // Return early to avoid infinite loop of axiom application.
     if (status == 0) return status;
 
-    // Apply axioms.
-    for (const auto& axiom_apply : axioms) {
-      const Axiom& axiom = *axiom_apply.first.lock();
-      const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
-
-      // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
-
-      // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
-      // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
-      // std::cout << "]" << *state << std::endl << std::endl;
-    }
+    ApplyAxioms(axioms, arguments, state);
     return status;
   };
 }
-- 
2.43.0


From fc10a971e0c11383220985588ce956bd881fa37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 12/32] fix: evaluate the conditions of conditional effects in
 the state before the action

---
 src/action.cc | 70 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index fa039ed..3014d25 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -31,8 +31,10 @@ using ::symbolic::PropositionRef;
 using ::symbolic::SignedProposition;
 using ::symbolic::State;
 
+// Conditions are evaluated in prev_state, the state before the action.
 template <typename T>
-using EffectsFunction = std::function<int(const std::vector<Object>&, T*)>;
+using EffectsFunction = std::function<int(const std::vector<Object>& arguments,
+                                          const T& prev_state, T* state)>;
 
 using ApplicationFunction =
     std::function<const std::vector<Object>&(const std::vector<Object>&)>;
@@ -101,7 +103,8 @@ EffectsFunction<T> CreateForall(const Pddl& pddl,
 
   return [gen = ParameterGenerator(pddl, types),
           ForallEffects = std::move(ForallEffects)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     // Loop over forall arguments
     int is_state_changed = 0;
     for (const std::vector<Object>& forall_objs : gen) {
@@ -111,7 +114,8 @@ EffectsFunction<T> CreateForall(const Pddl& pddl,
                          forall_objs.end());
 
       is_state_changed =
-          std::max(is_state_changed, ForallEffects(forall_args, state));
+          std::max(is_state_changed,
+                   ForallEffects(forall_args, prev_state, state));
     }
     return is_state_changed;
   };
@@ -131,7 +135,7 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     // Equality predicate
     return [Apply = std::move(Apply)](const std::vector<Object>& arguments,
                                       // NOLINTNEXTLINE(misc-unused-parameters)
-                                      T* state) -> int {
+                                      const T& prev_state, T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
       assert(prop_args.size() == 2);
       if (prop_args[0] != prop_args[1]) {
@@ -147,7 +151,8 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     // Type predicate
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
-               const std::vector<Object>& arguments, T* state) -> int {
+               const std::vector<Object>& arguments, const T& prev_state,
+               T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
       assert(prop_args.size() == 1);
       if (!prop_args[0].type().IsSubtype(name_predicate)) {
@@ -182,7 +187,9 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             // NOLINTNEXTLINE(misc-unused-parameters)
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     int status = state->insert(
         PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
     // Return early to avoid infinite loop of axiom application.
@@ -207,7 +214,7 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     // Equality predicate
     return [Apply = std::move(Apply)](const std::vector<Object>& arguments,
                                       // NOLINTNEXTLINE(misc-unused-parameters)
-                                      T* state) -> int {
+                                      const T& prev_state, T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
       assert(prop_args.size() == 2);
       if (prop_args[0] == prop_args[1]) {
@@ -223,7 +230,8 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     // Type predicate
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
-               const std::vector<Object>& arguments, T* state) -> int {
+               const std::vector<Object>& arguments, const T& prev_state,
+               T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
       assert(prop_args.size() == 1);
       if (prop_args[0].type().IsSubtype(name_predicate)) {
@@ -258,7 +266,9 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             // NOLINTNEXTLINE(misc-unused-parameters)
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     int status = state->erase(
         PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
     // Return early to avoid infinite loop of axiom application.
@@ -283,11 +293,10 @@ EffectsFunction<T> CreateCond(const Pddl& pddl, const VAL::cond_effect* effect,
       CreateEffectsFunction<T>(pddl, effect->getEffects(), parameters);
   return
       [Condition = std::move(Condition), CondEffects = std::move(CondEffects)](
-          const std::vector<Object>& arguments, T* state) -> int {
-        // TODO(tmigimatsu): Condition might return different results depending
-        // on ordering of other effects since state is modified in place.
-        if (EvaluateCondition(Condition(*state, arguments))) {
-          return CondEffects(arguments, state);
+          const std::vector<Object>& arguments, const T& prev_state,
+          T* state) -> int {
+        if (EvaluateCondition(Condition(prev_state, arguments))) {
+          return CondEffects(arguments, prev_state, state);
         }
         return false;
       };
@@ -319,15 +328,38 @@ EffectsFunction<T> CreateEffectsFunction(
   }
 
   return [effect_functions = std::move(effect_functions)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     int is_state_changed = 0;
     for (const EffectsFunction<T>& Effect : effect_functions) {
-      is_state_changed = std::max(is_state_changed, Effect(arguments, state));
+      is_state_changed =
+          std::max(is_state_changed, Effect(arguments, prev_state, state));
     }
     return is_state_changed;
   };
 }
 
+bool HasConditions(const VAL::effect_lists* effects) {
+  if (!effects->cond_effects.empty()) return true;
+  for (const VAL::forall_effect* effect : effects->forall_effects) {
+    if (HasConditions(effect->getEffects())) return true;
+  }
+  return false;
+}
+
+template <typename T>
+std::function<int(const std::vector<Object>&, T*)> CreateApplyFunction(
+    const Pddl& pddl, const VAL::effect_lists* effects,
+    const std::vector<Object>& parameters) {
+  return [Effects = CreateEffectsFunction<T>(pddl, effects, parameters),
+          has_conditions = HasConditions(effects)](
+             const std::vector<Object>& arguments, T* state) -> int {
+    // The state is modified in place, so keep a copy for the conditions.
+    if (has_conditions) return Effects(arguments, T(*state), state);
+    return Effects(arguments, *state, state);
+  };
+}
+
 const VAL::operator_* GetSymbol(const Pddl& pddl,
                                 const std::string& name_action) {
   assert(pddl.symbol()->the_domain->ops != nullptr);
@@ -351,9 +383,9 @@ Action::Action(const Pddl& pddl, const VAL::operator_* symbol)
       parameters_(Object::CreateList(pddl, symbol_->parameters)),
       param_gen_(pddl, parameters_),
       Preconditions_(pddl, symbol_->precondition, parameters_),
-      Apply_(CreateEffectsFunction<State>(pddl, symbol_->effects, parameters_)),
-      ApplyPartial_(CreateEffectsFunction<PartialState>(pddl, symbol_->effects,
-                                                        parameters_)) {}
+      Apply_(CreateApplyFunction<State>(pddl, symbol_->effects, parameters_)),
+      ApplyPartial_(CreateApplyFunction<PartialState>(pddl, symbol_->effects,
+                                                      parameters_)) {}
 
 Action::Action(const Pddl& pddl, const std::string& action_call)
     : Action(pddl, GetSymbol(pddl, Proposition::ParseHead(action_call))) {}
-- 
2.43.0


From da620728a8495977bbe1f9f62580751dc0b874df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 13/32] fix: print quantified variables and variable markers in
 formula strings

---
 src/formula.cc | 66 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/formula.cc b/src/formula.cc
index 6ca81dc..dd2469d 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -26,7 +26,6 @@ using ::symbolic::Object;
 using ::symbolic::ParameterGenerator;
 using ::symbolic::PartialState;
 using ::symbolic::Pddl;
-using ::symbolic::Proposition;
 using ::symbolic::PropositionRef;
 
 template <typename T>
@@ -39,6 +38,39 @@ using ApplicationFunction =
 template <typename T>
 using NamedFormulaFunction = std::pair<FormulaFunction<T>, std::string>;
 
+/**
+ * Creates the pddl string of the proposition, with variables marked by '?'.
+ */
+std::string StringifyProposition(const std::string& name_predicate,
+                                 const std::vector<Object>& prop_params) {
+  std::stringstream ss;
+  ss << "(" << name_predicate;
+  for (const Object& param : prop_params) {
+    const bool is_variable =
+        dynamic_cast<const VAL::var_symbol*>(param.symbol()) != nullptr;
+    ss << (is_variable ? " ?" : " ") << param;
+  }
+  ss << ")";
+  return ss.str();
+}
+
+/**
+ * Creates the pddl string of a quantified formula.
+ */
+std::string StringifyQuantifier(const std::string& quantifier,
+                                const std::vector<Object>& params,
+                                const std::string& str_formula) {
+  std::stringstream ss;
+  ss << "(" << quantifier << " (";
+  std::string delim;
+  for (const Object& param : params) {
+    ss << delim << "?" << param << " - " << param.type().name();
+    if (delim.empty()) delim = " ";
+  }
+  ss << ")" << std::endl << str_formula << std::endl << ")";
+  return ss.str();
+}
+
 template <typename T>
 NamedFormulaFunction<T> CreateFormula(const Pddl& pddl, const VAL::goal* symbol,
                                       const std::vector<Object>& parameters);
@@ -63,7 +95,7 @@ NamedFormulaFunction<T> CreateProposition(
       return prop_args[0] == prop_args[1];
     };
 
-    return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+    return {std::move(F), StringifyProposition(name_predicate, prop_params)};
   }
   if (pddl.object_map().find(name_predicate) != pddl.object_map().end()) {
     // Predicate is a type. If it isn't in the object map, then no objects of
@@ -78,7 +110,7 @@ NamedFormulaFunction<T> CreateProposition(
       return prop_args[0].type().IsSubtype(name_predicate);
     };
 
-    return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+    return {std::move(F), StringifyProposition(name_predicate, prop_params)};
   }
 
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
@@ -91,7 +123,7 @@ NamedFormulaFunction<T> CreateProposition(
     return state.contains(P);
   };
 
-  return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+  return {std::move(F), StringifyProposition(name_predicate, prop_params)};
 }
 
 template <typename T>
@@ -202,7 +234,7 @@ NamedFormulaFunction<PartialState> CreateNegation(
       };
 
       return {std::move(F),
-              "(not " + Proposition(name_predicate, prop_params).to_pddl() + ")"};
+              "(not " + StringifyProposition(name_predicate, prop_params) + ")"};
     }
     // Otherwise proposition is an = or type, so evaluate as normal.
   }
@@ -233,6 +265,8 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
   const VAL::goal* goal = symbol->getGoal();
   NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, forall_params);
 
+  std::string str_formula = StringifyQuantifier("forall", types, P_str.second);
+
   FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),
                           types = std::move(types), P = std::move(P_str.first)](
                              const T& state,
@@ -249,15 +283,7 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
     return true;
   };
 
-  std::stringstream ss("(forall (");
-  std::string delim;
-  for (const Object& param : parameters) {
-    ss << delim << "?" << param << " - " << param.type().name();
-    if (delim.empty()) delim = " ";
-  }
-  ss << ")" << std::endl << P_str.second << std::endl << ")";
-
-  return {std::move(F), ss.str()};
+  return {std::move(F), std::move(str_formula)};
 }
 
 template <typename T>
@@ -272,6 +298,8 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
   const VAL::goal* goal = symbol->getGoal();
   NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, exists_params);
 
+  std::string str_formula = StringifyQuantifier("exists", types, P_str.second);
+
   FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),
                           types = std::move(types), P = std::move(P_str.first)](
                              const T& state,
@@ -288,15 +316,7 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
     return false;
   };
 
-  std::stringstream ss("(exists (");
-  std::string delim;
-  for (const Object& param : parameters) {
-    ss << delim << "?" << param << " - " << param.type().name();
-    if (delim.empty()) delim = " ";
-  }
-  ss << ")" << std::endl << P_str.second << std::endl << ")";
-
-  return {std::move(F), ss.str()};
+  return {std::move(F), std::move(str_formula)};
 }
 
 template <typename T>
-- 
2.43.0


From 569d0bc268a6b01367d678ae425b70d958c764d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 14/32] fix: nodes of a domain without actions have no children

---
 src/planning/planner.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/planning/planner.cc b/src/planning/planner.cc
index 9cc9e63..125787c 100644
--- a/src/planning/planner.cc
+++ b/src/planning/planner.cc
@@ -139,11 +139,22 @@ std::ostream& operator<<(std::ostream& os, const Planner::Node& node) {
   return os;
 }
 
+namespace {
+
+// Parameters of the first action, or none if there are no actions.
+const ParameterGenerator& FirstParameters(const Pddl& pddl) {
+  static const ParameterGenerator kNoParameters;
+  return pddl.actions().empty() ? kNoParameters
+                                : pddl.actions().front().parameter_generator();
+}
+
+}  // namespace
+
 Planner::Node::iterator::iterator(const Node& parent)
     : pddl_(parent->pddl_),
       parent_(parent),
       it_action_(pddl_.actions().begin()),
-      it_param_(it_action_->parameter_generator().begin()) {}
+      it_param_(FirstParameters(pddl_).begin()) {}
 
 Planner::Node::iterator& Planner::Node::iterator::operator++() {
   while (it_action_ != pddl_.actions().end()) {
-- 
2.43.0


From 84844c12cdfb5d0523ec02b41ad77682a3f015b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 15/32] fix: state index of a domain without predicates is
 empty

---
 src/state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.cc b/src/state.cc
index 8330f34..a7139ee 100644
--- a/src/state.cc
+++ b/src/state.cc
@@ -140,7 +140,7 @@ std::ostream& operator<<(std::ostream& os, const PartialState& state) {
 }
 
 StateIndex::StateIndex(const std::vector<Predicate>& predicates, bool use_cache)
-    : pddl_(&predicates.front().pddl()),
+    : pddl_(predicates.empty() ? nullptr : &predicates.front().pddl()),
       predicates_(predicates),
       idx_predicate_group_(PredicateCumSum(predicates_)),
       idx_predicates_(PredicateIndices(predicates_)),
-- 
2.43.0


From afc73354497501bbc9fdff30acc2ff5e1c700a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 16/32] fix: keep the constants of a domain loaded without a
 problem

---
 src/pddl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pddl.cc b/src/pddl.cc
index 9c220bf..806e149 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -282,6 +282,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
 Pddl::Pddl(const std::string& domain_pddl)
     : analysis_(ParsePddl(domain_pddl, "")),
       domain_pddl_(domain_pddl),
+      constants_(GetObjects(*analysis_->the_domain)),
       objects_(GetObjects(*analysis_->the_domain)),
       object_map_(CreateObjectTypeMap(objects_)),
       axioms_(GetAxioms(*this, *analysis_->the_domain)),
-- 
2.43.0


From 40a80aa1de8b7e35868b14b8d96fb8e8900b9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 17/32] fix: print the problem instead of the domain twice

---
 src/pddl.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 806e149..9a19b0f 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -592,7 +592,9 @@ std::vector<std::string> Stringify(const std::vector<Object>& objects) {
 
 std::ostream& operator<<(std::ostream& os, const Pddl& pddl) {
   os << *pddl.symbol()->the_domain << std::endl;
-  os << *pddl.symbol()->the_domain << std::endl;
+  if (pddl.symbol()->the_problem != nullptr) {
+    os << *pddl.symbol()->the_problem << std::endl;
+  }
   return os;
 }
 
@@ -768,9 +770,11 @@ std::ostream& operator<<(std::ostream& os, const problem& problem) {
   os << "Requirements: " << pddl_req_flags_string(problem.req) << std::endl;
 
   os << "Objects:" << std::endl;
-  for (const const_symbol* object : *problem.objects) {
-    os << "\t" << object->getName() << " [" << object << "]"
-       << ": " << object->type->getName() << std::endl;
+  if (problem.objects != nullptr) {
+    for (const const_symbol* object : *problem.objects) {
+      os << "\t" << object->getName() << " [" << object << "]"
+         << ": " << object->type->getName() << std::endl;
+    }
   }
 
   os << "Initial State:" << std::endl;
-- 
2.43.0


From 8a4f8fdaa1e828c537d48a10e604aa81a3c8dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 18/32] fix: print domains and problems with untyped symbols

---
 src/pddl.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 9a19b0f..5966593 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -602,6 +602,11 @@ std::ostream& operator<<(std::ostream& os, const Pddl& pddl) {
 
 namespace {
 
+// Symbols without a declared type are objects.
+std::string TypeName(const VAL::pddl_type* type) {
+  return type != nullptr ? type->getName() : "object";
+}
+
 void PrintGoal(std::ostream& os, const VAL::goal* goal, size_t depth) {
   std::string padding(depth, '\t');
 
@@ -703,7 +708,7 @@ void PrintArgs(std::ostream& os, const VAL::typed_symbol_list<T>& args) {
   os << "(";
   for (const VAL::parameter_symbol* param : args) {
     os << separator << param->getName() << " [" << param
-       << "]: " << param->type->getName();
+       << "]: " << TypeName(param->type);
     if (separator.empty()) separator = ", ";
   }
   os << ")";
@@ -723,7 +728,7 @@ std::ostream& operator<<(std::ostream& os, const domain& domain) {
   os << "Types: " << std::endl;
   if (domain.types != nullptr) {
     for (const pddl_type* type : *domain.types) {
-      os << "\t" << type->getName() << ": " << type->type->getName() << " ["
+      os << "\t" << type->getName() << ": " << TypeName(type->type) << " ["
          << type << "]" << std::endl;
     }
   }
@@ -732,7 +737,7 @@ std::ostream& operator<<(std::ostream& os, const domain& domain) {
   if (domain.constants != nullptr) {
     for (const const_symbol* c : *domain.constants) {
       os << "\t" << c->getName() << " [" << c << "]"
-         << ": " << c->type->getName() << std::endl;
+         << ": " << TypeName(c->type) << std::endl;
     }
   }
 
@@ -773,7 +778,7 @@ std::ostream& operator<<(std::ostream& os, const problem& problem) {
   if (problem.objects != nullptr) {
     for (const const_symbol* object : *problem.objects) {
       os << "\t" << object->getName() << " [" << object << "]"
-         << ": " << object->type->getName() << std::endl;
+         << ": " << TypeName(object->type) << std::endl;
     }
   }
 
-- 
2.43.0


From 9917fafebdafa218a3a1d2abe3c48c5c36c6efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 19/32] fix: keep the symbols of removed objects alive while
 they are referred to

---
 include/symbolic/pddl.h | 1 +
 src/pddl.cc             | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/symbolic/pddl.h b/include/symbolic/pddl.h
index 4713874..acf80c3 100644
--- a/include/symbolic/pddl.h
+++ b/include/symbolic/pddl.h
@@ -256,6 +256,7 @@ class Pddl {
 
   std::vector<Object> constants_;
   std::vector<Object> objects_;
+  std::vector<std::shared_ptr<const VAL::pddl_typed_symbol>> removed_objects_;
   ObjectTypeMap object_map_;
 
   AxiomContextMap axiom_map_;
diff --git a/src/pddl.cc b/src/pddl.cc
index 5966593..dec794d 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -535,10 +535,11 @@ void Pddl::RemoveObject(const std::string& name) {
     for (auto itt = objects->begin(); itt != objects->end(); ++itt) {
       if ((*itt)->getNameRef() != name) continue;
       objects->erase(itt);
+
+      // Propositions and argument lists may still refer to the object.
+      removed_objects_.emplace_back(symbol);
       break;
     }
-
-    delete symbol;
     break;
   }
 }
-- 
2.43.0


From f089c12ca834d66d8111ec690f9a5fd3572686d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 20/32] fix: derive the least model of the rules, stratum by
 stratum

---
 src/derived_predicate.cc | 104 +++++++++++++++++++++++++++++++++++----
 1 file changed, 95 insertions(+), 9 deletions(-)

diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index 73939f9..bc8ee56 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -11,8 +11,74 @@
 
 #include <VAL/ptree.h>
 
+#include <algorithm>      // std::max
+#include <unordered_map>  // std::unordered_map
+
 #include "symbolic/pddl.h"
 
+namespace {
+
+using ::symbolic::DerivedPredicate;
+
+/**
+ * Computes the lowest stratum in which the goal can be evaluated.
+ *
+ * A derived predicate needs to be complete before its negation is evaluated.
+ */
+size_t GoalStratum(const VAL::goal* goal, bool is_pos,
+                   const std::unordered_map<std::string, size_t>& strata) {
+  size_t stratum = 0;
+  if (const auto* simple_goal = dynamic_cast<const VAL::simple_goal*>(goal)) {
+    const auto it = strata.find(simple_goal->getProp()->head->getName());
+    if (it != strata.end()) stratum = is_pos ? it->second : it->second + 1;
+  } else if (const auto* conj_goal =
+                 dynamic_cast<const VAL::conj_goal*>(goal)) {
+    for (const VAL::goal* g : *conj_goal->getGoals()) {
+      stratum = std::max(stratum, GoalStratum(g, is_pos, strata));
+    }
+  } else if (const auto* disj_goal =
+                 dynamic_cast<const VAL::disj_goal*>(goal)) {
+    for (const VAL::goal* g : *disj_goal->getGoals()) {
+      stratum = std::max(stratum, GoalStratum(g, is_pos, strata));
+    }
+  } else if (const auto* neg_goal = dynamic_cast<const VAL::neg_goal*>(goal)) {
+    stratum = GoalStratum(neg_goal->getGoal(), !is_pos, strata);
+  } else if (const auto* qfied_goal =
+                 dynamic_cast<const VAL::qfied_goal*>(goal)) {
+    stratum = GoalStratum(qfied_goal->getGoal(), is_pos, strata);
+  }
+  return stratum;
+}
+
+/**
+ * Assigns a stratum to each derived predicate.
+ */
+std::unordered_map<std::string, size_t> Stratify(
+    const std::vector<DerivedPredicate>& predicates) {
+  std::unordered_map<std::string, size_t> strata;
+  for (const DerivedPredicate& pred : predicates) {
+    strata[pred.name()] = 0;
+  }
+
+  // The strata settle within as many iterations as there are predicates, unless
+  // a predicate depends on its own negation.
+  bool is_changed = true;
+  for (size_t i = 0; is_changed && i < predicates.size(); i++) {
+    is_changed = false;
+    for (const DerivedPredicate& pred : predicates) {
+      size_t& stratum = strata[pred.name()];
+      const size_t stratum_body =
+          GoalStratum(pred.symbol()->get_body(), true, strata);
+      if (stratum_body <= stratum) continue;
+      stratum = stratum_body;
+      is_changed = true;
+    }
+  }
+  return strata;
+}
+
+}  // namespace
+
 namespace symbolic {
 
 DerivedPredicate::DerivedPredicate(const Pddl& pddl,
@@ -43,17 +109,37 @@ bool DerivedPredicate::Apply(State* state) const {
 
 bool DerivedPredicate::Apply(const std::vector<DerivedPredicate>& predicates,
                              State* state) {
-  bool is_changed = false;
-  bool is_iter_changed = true;
-  while (is_iter_changed) {
-    // Keep iterating until predicates converge
-    is_iter_changed = false;
-    for (const DerivedPredicate& pred : predicates) {
-      is_iter_changed |= pred.Apply(state);
+  if (predicates.empty()) return false;
+  const State prev_state = *state;
+
+  // Forget what was derived before
+  for (const DerivedPredicate& pred : predicates) {
+    for (const std::vector<Object>& arguments : pred.parameter_generator()) {
+      state->erase(Proposition(pred.name(), arguments));
     }
-    is_changed |= is_iter_changed;
   }
-  return is_changed;
+
+  const std::unordered_map<std::string, size_t> strata = Stratify(predicates);
+  size_t num_strata = 0;
+  for (const auto& name_stratum : strata) {
+    num_strata = std::max(num_strata, name_stratum.second + 1);
+  }
+  for (size_t i = 0; i < num_strata; i++) {
+    // Keep adding propositions until the predicates of this stratum converge
+    bool is_iter_changed = true;
+    while (is_iter_changed) {
+      is_iter_changed = false;
+      for (const DerivedPredicate& pred : predicates) {
+        if (strata.at(pred.name()) != i) continue;
+        for (const std::vector<Object>& arguments :
+             pred.parameter_generator()) {
+          if (!pred.IsValid(*state, arguments)) continue;
+          is_iter_changed |= state->emplace(pred.name(), arguments);
+        }
+      }
+    }
+  }
+  return *state != prev_state;
 }
 
 State DerivedPredicate::Apply(const State& state,
-- 
2.43.0


From 2d0f3f0f7fefaf5bb30b8a1a57ac09cee061cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 21/32] fix: report the changes made by triggered axioms when
 applying an action

---
 src/action.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index 3014d25..603068a 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -49,12 +49,15 @@ EffectsFunction<T> CreateEffectsFunction(const Pddl& pddl,
 
 /**
  * Applies the axioms whose context matches the arguments of an effect.
+ *
+ * Returns the largest change made by the axioms.
  */
 template <typename T>
-void ApplyAxioms(
+int ApplyAxioms(
     const std::vector<std::pair<std::weak_ptr<Axiom>,
                                 AxiomApplicationFunction>>& axioms,
     const std::vector<Object>& arguments, T* state) {
+  int is_state_changed = 0;
   for (const auto& axiom_apply : axioms) {
     const Axiom& axiom = *axiom_apply.first.lock();
     const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
@@ -74,7 +77,8 @@ void ApplyAxioms(
       if (IsUnassigned(i)) is_assigned = false;
     }
     if (is_assigned) {
-      axiom.Action::Apply(args, state);
+      is_state_changed = std::max<int>(is_state_changed,
+                                       axiom.Action::Apply(args, state));
       continue;
     }
 
@@ -84,9 +88,12 @@ void ApplyAxioms(
       for (size_t i = 0; i < params.size(); i++) {
         if (!IsUnassigned(i) && args[i] != axiom_objs[i]) is_match = false;
       }
-      if (is_match) axiom.Action::Apply(axiom_objs, state);
+      if (!is_match) continue;
+      is_state_changed = std::max<int>(is_state_changed,
+                                       axiom.Action::Apply(axiom_objs, state));
     }
   }
+  return is_state_changed;
 }
 
 template <typename T>
@@ -195,8 +202,7 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     // Return early to avoid infinite loop of axiom application.
     if (status == 0) return status;
 
-    ApplyAxioms(axioms, arguments, state);
-    return status;
+    return std::max(status, ApplyAxioms(axioms, arguments, state));
   };
 }
 
@@ -274,8 +280,7 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     // Return early to avoid infinite loop of axiom application.
     if (status == 0) return status;
 
-    ApplyAxioms(axioms, arguments, state);
-    return status;
+    return std::max(status, ApplyAxioms(axioms, arguments, state));
   };
 }
 
-- 
2.43.0


From cce1bccad9135d0f9d320e6fc7fbfb2b67762f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 22/32] fix: forget derived propositions that no rule has the
 arguments of

---
 src/derived_predicate.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index bc8ee56..22c921c 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -112,14 +112,13 @@ bool DerivedPredicate::Apply(const std::vector<DerivedPredicate>& predicates,
   if (predicates.empty()) return false;
   const State prev_state = *state;
 
+  const std::unordered_map<std::string, size_t> strata = Stratify(predicates);
+
   // Forget what was derived before
-  for (const DerivedPredicate& pred : predicates) {
-    for (const std::vector<Object>& arguments : pred.parameter_generator()) {
-      state->erase(Proposition(pred.name(), arguments));
-    }
+  for (const Proposition& prop : prev_state) {
+    if (strata.count(prop.name()) > 0) state->erase(prop);
   }
 
-  const std::unordered_map<std::string, size_t> strata = Stratify(predicates);
   size_t num_strata = 0;
   for (const auto& name_stratum : strata) {
     num_strata = std::max(num_strata, name_stratum.second + 1);
-- 
2.43.0


From e4f6042466e77223993f6771a55128621abaa255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 23/32] fix: print axioms whose condition has no normal form

---
 src/axiom.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index 8b9fce8..d3d813b 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -69,15 +69,17 @@ std::string StringifyFormula(const Pddl& pddl, const Formula& preconditions,
                              const std::vector<Object>& parameters) {
   std::stringstream ss;
   try {
-    ss << *DisjunctiveFormula::Create(pddl, preconditions, parameters,
-                                      parameters);
+    ss << DisjunctiveFormula::Create(pddl, preconditions, parameters,
+                                     parameters)
+              .value();
   } catch (...) {
     ss << "false";
   }
   ss << " => ";
   try {
-    ss << *DisjunctiveFormula::Create(pddl, postconditions, parameters,
-                                      parameters);
+    ss << DisjunctiveFormula::Create(pddl, postconditions, parameters,
+                                     parameters)
+              .value();
   } catch (...) {
     ss << "false";
   }
-- 
2.43.0


From bd4ba69d6529856b23eb87174bf27031b31e9ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 24/32] fix: add objects to problems of domains without types

---
 src/pddl.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index dec794d..fe6d290 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -516,10 +516,12 @@ std::vector<std::string> Pddl::ListValidActions(
 
 void Pddl::AddObject(const std::string& name, const std::string& type) {
   VAL::const_symbol* symbol = new VAL::const_symbol(name);
-  for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
-    if (type_symbol->getName() != type) continue;
-    symbol->type = type_symbol;
-    break;
+  if (analysis_->the_domain->types != nullptr) {
+    for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
+      if (type_symbol->getName() != type) continue;
+      symbol->type = type_symbol;
+      break;
+    }
   }
   analysis_->the_problem->objects->push_back(symbol);
   objects_.emplace_back(*this, symbol);
-- 
2.43.0


From 1ece5f51fbcc03557dd4d74402c80597fe58a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 25/32] fix: let added and removed objects take part in all
 that enumerates objects

---
 include/symbolic/pddl.h |  5 +++++
 src/pddl.cc             | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/symbolic/pddl.h b/include/symbolic/pddl.h
index acf80c3..733d342 100644
--- a/include/symbolic/pddl.h
+++ b/include/symbolic/pddl.h
@@ -250,6 +250,11 @@ class Pddl {
   const Formula& goal() const { return goal_; }
 
  private:
+  /**
+   * Update everything that depends on the objects.
+   */
+  void UpdateObjects();
+
   std::shared_ptr<VAL::analysis> analysis_;
   std::string domain_pddl_;
   std::string problem_pddl_;
diff --git a/src/pddl.cc b/src/pddl.cc
index fe6d290..a325865 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -525,6 +525,7 @@ void Pddl::AddObject(const std::string& name, const std::string& type) {
   }
   analysis_->the_problem->objects->push_back(symbol);
   objects_.emplace_back(*this, symbol);
+  UpdateObjects();
 }
 
 void Pddl::RemoveObject(const std::string& name) {
@@ -542,10 +543,28 @@ void Pddl::RemoveObject(const std::string& name) {
       removed_objects_.emplace_back(symbol);
       break;
     }
+    UpdateObjects();
     break;
   }
 }
 
+void Pddl::UpdateObjects() {
+  object_map_ = CreateObjectTypeMap(objects_);
+
+  // Recreate everything that enumerates objects, as in the constructor.
+  axiom_map_.clear();
+  UpdateAxioms(*this, &axioms_);
+  predicates_ = GetPredicates(*this, *analysis_->the_domain);
+  derived_predicates_ = GetDerivedPredicates(*this, *analysis_->the_domain);
+  state_index_ = StateIndex(predicates_);
+  axiom_map_ = CreateAxiomContextMap(axioms());
+  UpdateAxioms(*this, &axioms_);
+  actions_ = GetActions(*this, *analysis_->the_domain);
+  if (analysis_->the_problem != nullptr) {
+    goal_ = Formula(*this, analysis_->the_problem->the_goal);
+  }
+}
+
 const std::string& Pddl::name() const { return symbol()->the_domain->name; }
 
 std::set<std::string> Stringify(const State& state) {
-- 
2.43.0


From 38802684ac905b6058dfc589bc85febeb54e3890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 26/32] fix: keep references to actions and predicates valid
 when objects change

---
 src/pddl.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index a325865..c7762fa 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -13,10 +13,11 @@
 #include <VAL/ptree.h>
 #include <VAL/typecheck.h>
 
-#include <fstream>  // std::ifstream
-#include <sstream>  // std::stringstream
-#include <string>   // std::string
-#include <utility>  // std::move
+#include <algorithm>  // std::move
+#include <fstream>    // std::ifstream
+#include <sstream>    // std::stringstream
+#include <string>     // std::string
+#include <utility>    // std::move
 
 #include "symbolic/utils/parameter_generator.h"
 #include "utils/doctest.h"
@@ -191,6 +192,12 @@ void UpdateAxioms(const Pddl& pddl,
   }
 }
 
+// Assigns to the existing elements, so that references to them stay valid.
+template <typename T>
+void UpdateElements(std::vector<T>&& from, std::vector<T>* to) {
+  std::move(from.begin(), from.end(), to->begin());
+}
+
 std::unordered_map<std::string, std::vector<std::weak_ptr<Axiom>>>
 CreateAxiomContextMap(const std::vector<std::shared_ptr<Axiom>>& axioms) {
   std::unordered_map<std::string, std::vector<std::weak_ptr<Axiom>>> axiom_map(
@@ -554,12 +561,13 @@ void Pddl::UpdateObjects() {
   // Recreate everything that enumerates objects, as in the constructor.
   axiom_map_.clear();
   UpdateAxioms(*this, &axioms_);
-  predicates_ = GetPredicates(*this, *analysis_->the_domain);
-  derived_predicates_ = GetDerivedPredicates(*this, *analysis_->the_domain);
+  UpdateElements(GetPredicates(*this, *analysis_->the_domain), &predicates_);
+  UpdateElements(GetDerivedPredicates(*this, *analysis_->the_domain),
+                 &derived_predicates_);
   state_index_ = StateIndex(predicates_);
   axiom_map_ = CreateAxiomContextMap(axioms());
   UpdateAxioms(*this, &axioms_);
-  actions_ = GetActions(*this, *analysis_->the_domain);
+  UpdateElements(GetActions(*this, *analysis_->the_domain), &actions_);
   if (analysis_->the_problem != nullptr) {
     goal_ = Formula(*this, analysis_->the_problem->the_goal);
   }
-- 
2.43.0


From 9f61eba607a49c637de82c261d5904082f6ee284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 27/32] fix: bind axioms with the holder they are returned with

---
 src/python/symbolic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index b248614..f4e638f 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -405,7 +405,7 @@ PYBIND11_MODULE(pysymbolic, m) {
        )pbdoc");
 
   // Axiom
-  py::class_<Axiom>(m, "Axiom")
+  py::class_<Axiom, std::shared_ptr<Axiom>>(m, "Axiom")
       .def("is_consistent",
            static_cast<bool (Axiom::*)(const State&) const>(
                &Axiom::IsConsistent),
-- 
2.43.0


From fa30fc229c2984218b958151beafa1d3d5dfe157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 28/32] fix: print derived predicates in Python

---
 src/python/symbolic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index f4e638f..116ed28 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -459,9 +459,9 @@ PYBIND11_MODULE(pysymbolic, m) {
                   [](const DerivedPredicate& pred) {
                     // TODO
                   })
-      .def("__repr__", [](const Axiom& axiom) {
+      .def("__repr__", [](const DerivedPredicate& pred) {
         std::stringstream ss;
-        ss << axiom;
+        ss << pred;
         return ss.str();
       });
 
-- 
2.43.0


From 13a0c93271538368d251b22ab2ffb8a4cadd46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 29/32] fix: give each element of a Python iteration its own
 value

---
 src/python/symbolic.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 116ed28..ff472e6 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -478,7 +478,8 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def(
           "__iter__",
           [](ParameterGenerator& param_gen) {
-            return py::make_iterator(param_gen.begin(), param_gen.end());
+            return py::make_iterator<py::return_value_policy::copy>(
+                param_gen.begin(), param_gen.end());
           },
           py::keep_alive<0, 1>())  // Keep vector alive while iterator is used
       .def("index",
@@ -539,7 +540,8 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def(
           "__iter__",
           [](const Planner::Node& node) {
-            return py::make_iterator(node.begin(), node.end());
+            return py::make_iterator<py::return_value_policy::copy>(
+                node.begin(), node.end());
           },
           py::keep_alive<0, 1>())
       .def("__repr__", [](const Planner::Node& node) {
-- 
2.43.0


From d1b0e3c4824edaa6b5688814eca9a8c1b614c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 30/32] fix: read domains without a problem and usable problems
 from Python pickles

---
 src/python/symbolic.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index ff472e6..58ec85c 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -328,7 +328,10 @@ PYBIND11_MODULE(pysymbolic, m) {
           [](const py::tuple& domain_problem) {
             const auto domain = domain_problem[0].cast<std::string>();
             const auto problem = domain_problem[1].cast<std::string>();
-            return Pddl(domain, problem);
+            // Actions and predicates refer to the problem they were created for,
+            // so it must not be moved.
+            return problem.empty() ? std::make_unique<Pddl>(domain)
+                                   : std::make_unique<Pddl>(domain, problem);
           }));
 
   // Object::Type
-- 
2.43.0


From d7898672dab5b4af1261876dda88b8ae718cd39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 31/32] fix: keep the root and the state of a Python
 breadth-first search

---
 src/python/symbolic.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 58ec85c..d3152ed 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -15,6 +15,7 @@
 #include <pybind11/stl.h>
 
 #include <exception>  // std::out_of_range
+#include <memory>     // std::make_unique, std::shared_ptr
 #include <sstream>    // std::stringstream
 
 #include "symbolic/normal_form.h"
@@ -595,8 +596,10 @@ PYBIND11_MODULE(pysymbolic, m) {
   //     py::keep_alive<0, 1>());
   py::class_<::BreadthFirstSearch>(m, "BreadthFirstSearch")
       .def(py::init<const Planner::Node&, size_t, bool, double>(), "root"_a,
-           "max_depth"_a, "verbose"_a = false, "timeout"_a = 0)
-      .def("__iter__", [](::BreadthFirstSearch& it) { return it; })
+           "max_depth"_a, "verbose"_a = false, "timeout"_a = 0,
+           py::keep_alive<1, 2>())  // Keep root alive while search is used
+      .def("__iter__",
+           [](::BreadthFirstSearch& it) -> ::BreadthFirstSearch& { return it; })
       .def("__next__", [](::BreadthFirstSearch& it) {
         if (!it.initialized) {
           it.it = it.bfs.begin();
-- 
2.43.0


From ce04864cbf502012c8c6e8e4fa682e73bb792c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 32/32] fix: change propositions of a partial state by its own
 elements

The arguments of insert() and erase() may be elements of the set they are
first erased from, such as *state.neg().begin().
---
 src/state.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/state.cc b/src/state.cc
index a7139ee..ab0a587 100644
--- a/src/state.cc
+++ b/src/state.cc
@@ -92,8 +92,9 @@ bool PartialState::does_not_contain(const PropositionBase& prop) const {
 }
 
 int PartialState::insert(const PropositionBase& prop) {
-  const int was_negated = static_cast<int>(neg_.erase(prop));
+  // Insert first, since the proposition may be an element of the negative state
   const int was_added = static_cast<int>(pos_.insert(prop));
+  const int was_negated = static_cast<int>(neg_.erase(prop));
   return was_negated + was_added;
 }
 
@@ -104,8 +105,9 @@ int PartialState::insert(Proposition&& prop) {
 }
 
 int PartialState::erase(const PropositionBase& prop) {
-  const int was_negated = static_cast<int>(pos_.erase(prop));
+  // Insert first, since the proposition may be an element of the positive state
   const int was_erased = static_cast<int>(neg_.insert(prop));
+  const int was_negated = static_cast<int>(pos_.erase(prop));
   return was_negated + was_erased;
 }
 
-- 
2.43.0

