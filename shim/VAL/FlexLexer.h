#ifndef VERIF_SHIM_VAL_FLEXLEXER_H_
#define VERIF_SHIM_VAL_FLEXLEXER_H_

#include <iostream>

class FlexLexer {
 public:
  virtual ~FlexLexer() {}
};

class yyFlexLexer : public FlexLexer {
 public:
  void switch_streams(std::istream* in, std::ostream* out = nullptr) {
    in_ = in;
    out_ = out;
  }
  std::istream* in() const { return in_; }

 private:
  std::istream* in_ = nullptr;
  std::ostream* out_ = nullptr;
};

namespace VAL {
extern yyFlexLexer* yfl;
}

#endif
