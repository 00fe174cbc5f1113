#ifndef VERIF_SHIM_VAL_TYPECHECK_H_
#define VERIF_SHIM_VAL_TYPECHECK_H_

#include "ptree.h"

namespace VAL {

class TypeChecker {
 public:
  explicit TypeChecker(const analysis* a) : analysis_(a) {}
  bool typecheckDomain() const { return analysis_->the_domain != nullptr; }
  bool typecheckProblem() const { return true; }

 private:
  const analysis* analysis_;
};

}  // namespace VAL

#endif
