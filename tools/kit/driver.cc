// driver SCRIPT OUT [LOAD_PATH [LIB_FLAGS]]: exit 0/1 as ScriptToPS says; OUT gets the PostScript.
#include <cstring>
#include <fstream>
#include <sstream>
#include "absl/flags/flag.h"
#include "stl-to-ps/stl-to-ps.h"
ABSL_DECLARE_FLAG(std::string, load_path);
ABSL_DECLARE_FLAG(bool, timestamp);
ABSL_DECLARE_FLAG(bool, number_pages);
ABSL_DECLARE_FLAG(std::string, name);
int main(int c, char** v) {
  absl::SetFlag(&FLAGS_timestamp, false);
  for (int i = 3; i < c; i++) {
    if (!strncmp(v[i], "load_path=", 10)) absl::SetFlag(&FLAGS_load_path, std::string(v[i] + 10));
    if (!strncmp(v[i], "name=", 5)) absl::SetFlag(&FLAGS_name, std::string(v[i] + 5));
    if (!strcmp(v[i], "numbers=0")) absl::SetFlag(&FLAGS_number_pages, false);
    if (!strcmp(v[i], "timestamp=1")) absl::SetFlag(&FLAGS_timestamp, true);
  }
  std::ifstream in(v[1]);
  std::ostringstream out;
  bool ok = stl2ps::ScriptToPS(v[1], in, out);
  std::ofstream(v[2]) << out.str();
  return ok ? 0 : 1;
}
