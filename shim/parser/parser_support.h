// Stand-in for @bazel_rules//parser:parser_support.
#ifndef SHIM_PARSER_SUPPORT_H_
#define SHIM_PARSER_SUPPORT_H_
#include <iostream>
#include <string>
namespace parser_support {
struct ScannerExtra {
  std::string* filename = nullptr;
};
template <class L>
void Error(const L& loc, const std::string& msg, ScannerExtra* extra) {
  const std::string* f = loc.begin.filename ? loc.begin.filename
                         : extra            ? extra->filename
                                            : nullptr;
  std::cerr << "error " << (f ? *f : std::string("??")) << ":" << loc.begin.line
            << ":[" << loc.begin.column << "," << loc.end.column << "]: " << msg << "\n";
}
}  // namespace parser_support
#endif
