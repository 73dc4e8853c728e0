#include <cstdio>
#include <cstdlib>
extern "C" [[noreturn]] void stl_shim_check_failed(const char* w, const char* f, int l) {
  fprintf(stderr, "CHECK failed: %s at %s:%d\n", w, f, l);
  abort();
}
