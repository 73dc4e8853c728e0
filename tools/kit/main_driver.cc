// prog SCRIPT OUTPUT [load_path=...]: the program itself, with its flags set as given.
#include <cstring>
#define main stl2ps_main
#include "stl-to-ps/stl-to-ps-main.cc"
#undef main
ABSL_DECLARE_FLAG(std::string, load_path);
ABSL_DECLARE_FLAG(bool, timestamp);
int main(int c, char** v) {
  absl::SetFlag(&FLAGS_timestamp, false);
  absl::SetFlag(&FLAGS_script, std::string(v[1]));
  absl::SetFlag(&FLAGS_output, std::string(v[2]));
  for (int i = 3; i < c; i++)
    if (!strncmp(v[i], "load_path=", 10)) absl::SetFlag(&FLAGS_load_path, std::string(v[i] + 10));
  char* a[] = {v[0], nullptr};
  return stl2ps_main(1, a);
}
