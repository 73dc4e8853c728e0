// Stand-in for absl/log/check.h (absent from the installed abseil 20220623).
// CHECK aborts when its condition is false; streamed operands are discarded.
#ifndef SHIM_ABSL_LOG_CHECK_H_
#define SHIM_ABSL_LOG_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include "absl/base/attributes.h"

extern "C" [[noreturn]] void stl_shim_check_failed(const char* what, const char* file, int line);

namespace shim_log {
struct NullStream {
  template <class T>
  const NullStream& operator<<(const T&) const { return *this; }
  const NullStream& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; }
};
struct FatalStream {
  const char *what, *file; int line;
  FatalStream(const char* w, const char* f, int l) : what(w), file(f), line(l) {}
  template <class T>
  const FatalStream& operator<<(const T&) const { return *this; }
  [[noreturn]] ~FatalStream() { stl_shim_check_failed(what, file, line); }
};
struct Voidify {
  template <class T>
  void operator&(const T&) const {}
};
}  // namespace shim_log

#define SHIM_FATAL(w) ::shim_log::FatalStream((w), __FILE__, __LINE__)
#define CHECK(c) (c) ? (void)0 : ::shim_log::Voidify() & SHIM_FATAL(#c)
#define SHIM_CHECK_OP(a, op, b) CHECK((a)op(b))
#define CHECK_EQ(a, b) SHIM_CHECK_OP(a, ==, b)
#define CHECK_NE(a, b) SHIM_CHECK_OP(a, !=, b)
#define CHECK_LT(a, b) SHIM_CHECK_OP(a, <, b)
#define CHECK_LE(a, b) SHIM_CHECK_OP(a, <=, b)
#define CHECK_GT(a, b) SHIM_CHECK_OP(a, >, b)
#define CHECK_GE(a, b) SHIM_CHECK_OP(a, >=, b)
#define QCHECK CHECK
#ifdef NDEBUG
#define DCHECK(c) (true || (c)) ? (void)0 : ::shim_log::Voidify() & ::shim_log::NullStream()
#else
#define DCHECK(c) CHECK(c)
#endif
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
#endif
