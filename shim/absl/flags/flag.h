// Stand-in for absl/flags: a flag is a global variable; parsing the command line is out of scope.
#ifndef SHIM_ABSL_FLAGS_FLAG_H_
#define SHIM_ABSL_FLAGS_FLAG_H_
#include <string>
#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
namespace absl {
template <class T>
struct ShimFlag { T value; };
template <class T>
T GetFlag(const ShimFlag<T>& f) { return f.value; }
template <class T, class V>
void SetFlag(ShimFlag<T>* f, const V& v) { f->value = T(v); }
}  // namespace absl
#define ABSL_FLAG(T, name, def, help) absl::ShimFlag<T> FLAGS_##name{T(def)}
#define ABSL_RETIRED_FLAG(T, name, def, help) static_assert(true, "")
#define ABSL_DECLARE_FLAG(T, name) extern absl::ShimFlag<T> FLAGS_##name
#endif
