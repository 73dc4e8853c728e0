#ifndef SHIM_ABSL_FLAGS_PARSE_H_
#define SHIM_ABSL_FLAGS_PARSE_H_
#include <vector>
namespace absl { inline std::vector<char*> ParseCommandLine(int c, char** v) { return std::vector<char*>(v, v + c); } }
#endif
