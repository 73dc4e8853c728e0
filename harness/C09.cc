// Which file a model is read from.
#include "h.h"
#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
ABSL_DECLARE_FLAG(std::string, load_path);
// A triangle of the given width: which file was read shows in the drawing.
static std::string Sized(double w) {
  return StlText({Tri{{{0, 0, 0}, {w, 0, 0}, {0, 1, 0}}, {0, 0, 1}}});
}
static double Width(const Result& r) {
  double lo = 1e9, hi = -1e9;
  for (auto& i : r.ps.items) {
    if (i.kind != 'l' || i.x[1] < 100) continue;
    for (int k = 0; k < 4; k += 2) { if (i.x[k] < lo) lo = i.x[k]; if (i.x[k] > hi) hi = i.x[k]; }
  }
  return (hi - lo) / 72;
}
static void Check(const Result& r, double want) {
  SYM_ASSERT(r.ok == (want > 0), "found iff in one of the places");
  if (!r.ok) { SYM_ASSERT(r.out.empty(), "nothing written"); sym_reach("not found"); return; }
  SYM_ASSERT(r.ps.ok, "well formed");
  sym_assert_near(Width(r), want, 1e-3, "the first place that has it");
  sym_reach("found");
}
// Any subset of the places has the file.
ENTRY C09_places() {
  static const char* const f[] = {"m.stl", "a/m.stl", "b/m.stl", "a/b/m.stl"};
  int have = sym_choose("have", 16);
  for (int i = 0; i < 4; i++) if (have >> i & 1) File(f[i], Sized(i + 1));
  static const char* const path[] = {"", "a", "b", "a,b", "b,a", "a/b,a", "c,b,a", "a/b,c", ",a", "a,"};
  static const int order[][4] = {{0}, {0, 1}, {0, 2}, {0, 1, 2}, {0, 2, 1}, {0, 3, 1}, {0, 2, 1}, {0, 3}, {0, 1}, {0, 1}};
  static const int len[] = {1, 2, 2, 3, 3, 3, 3, 2, 2, 2};
  int p = sym_choose("path", 10);
  absl::SetFlag(&FLAGS_load_path, std::string(path[p]));
  double want = 0;
  for (int i = 0; i < len[p] && want == 0; i++) if (have >> order[p][i] & 1) want = order[p][i] + 1;
  Check(Run("load m=\"m.stl\";page{draw m{@[0,0];}}"), want);
}
// A name with a directory in it is looked up in the same places.
ENTRY C09_below() {
  static const char* const f[] = {"s/m.stl", "a/s/m.stl", "b/s/m.stl", "s/a/m.stl", "m.stl", "a/m.stl"};
  int have = sym_choose("have", 64);
  for (int i = 0; i < 6; i++) if (have >> i & 1) File(f[i], Sized((i + 1) / 2.));
  static const char* const name[] = {"s/m.stl", "./s/m.stl", "s/../m.stl", "s//m.stl"};
  int n = sym_choose("name", 4);
  static const int order[][4] = {{0, 2, 1}, {0, 2, 1}, {4, -1, 5}, {0, 2, 1}};
  // "s/.." is only there when s is
  if (n == 2) sym_assume((have & 9) && (have & 2));
  absl::SetFlag(&FLAGS_load_path, std::string("b,a"));
  double want = 0;
  for (int i = 0; i < 3 && want == 0; i++) if (order[n][i] >= 0 && have >> order[n][i] & 1) want = (order[n][i] + 1) / 2.;
  Check(Run(std::string("load m=\"") + name[n] + "\";page{draw m{@[0,0];}}"), want);
}
// A load path spelled with symbolic characters.
ENTRY C09_path() {
  std::string p;
  int n = sym_choose("n", 5);
  for (int i = 0; i < n; i++) {
    char nm[3] = {'p', (char)('0' + i), 0};
    unsigned char c = sym_byte(nm);
    sym_assume((c == 'a') | (c == 'b') | (c == ',') | (c == ' '));
    p += (char)c;
  }
  static const char* const dir[] = {"a", "b", "ab", "ba", "aa"};
  for (int i = 0; i < 5; i++) File((std::string(dir[i]) + "/m.stl").c_str(), Sized(i + 1));
  absl::SetFlag(&FLAGS_load_path, p);
  double want = 0;
  for (size_t b = 0; b <= p.size();) {
    size_t e = b;
    while (e < p.size() && p[e] != ',') e++;
    std::string d = p.substr(b, e - b);
    for (int i = 0; i < 5 && want == 0; i++) if (d == dir[i]) want = i + 1;
    b = e + 1;
  }
  Check(Run("load m=\"m.stl\";page{draw m{@[0,0];}}"), want);
}
// A file name spelled with symbolic characters.
ENTRY C09_name() {
  std::string s;
  int n = sym_choose("n", 3) + 1;
  for (int i = 0; i < n; i++) {
    char nm[3] = {'n', (char)('0' + i), 0};
    unsigned char c = sym_byte(nm);
    sym_assume((c != '"') & (c != '\\') & (c != '\n') & (c != '/') & (c != 0) & (c != '.'));
    s += (char)c;
  }
  File("a", Sized(1));
  File("bc", Sized(2));
  File("d/a", Sized(3));
  File("d/xy", Sized(4));
  absl::SetFlag(&FLAGS_load_path, std::string("d"));
  Check(Run("load m=\"" + s + "\";page{draw m{@[0,0];}}"), s == "a" ? 1 : s == "bc" ? 2 : s == "xy" ? 4 : 0);
}
// Paths from the root are taken as they are; several models keep their own files.
ENTRY C09_root() {
  File("no/such/place/m.stl", Sized(1));
  File("a/no/such/place/m.stl", Sized(2));
  absl::SetFlag(&FLAGS_load_path, std::string("a"));
  int rooted = sym_choose("rooted", 2);
  Check(Run(std::string("load m=\"") + (rooted ? "/" : "") + "no/such/place/m.stl\";page{draw m{@[0,0];}}"), rooted ? 0 : 1);
}
ENTRY C09_many() {
  double w[3] = {sym_double("w0", 0.5, 3), sym_double("w1", 0.5, 3), sym_double("w2", 0.5, 3)};
  File("x.stl", Sized(w[0]));
  File("a/x.stl", Sized(w[1]));
  File("a/y.stl", Sized(w[2]));
  absl::SetFlag(&FLAGS_load_path, std::string("a"));
  static const char* const src[] = {"x.stl", "a/x.stl", "y.stl", "a/y.stl"};
  static const int file[] = {0, 1, 2, 2};
  int f[3], d = sym_choose("draw", 3);
  std::string s;
  for (int i = 0; i < 3; i++) {
    f[i] = sym_choose("file", 4);
    s += std::string("load m") + (char)('2' - i) + "=\"" + src[f[i]] + "\";";
  }
  Check(Run(s + "page{draw m" + (char)('2' - d) + "{@[0,0];}}"), w[file[f[d]]]);
}
