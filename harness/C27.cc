// Reads and writes that fail: never a success with less than the whole document.
#include "h.h"
#define main stl2ps_main
#include "stl-to-ps/stl-to-ps-main.cc"
#undef main
static int Program(const std::string& script, const std::string& output) {
  absl::SetFlag(&FLAGS_script, script);
  absl::SetFlag(&FLAGS_output, output);
  char name[] = "stl-to-ps";
  char* argv[] = {name, nullptr};
  return stl2ps_main(1, argv);
}
static bool Content(const char* name, std::string* s) {
  const char* p;
  size_t n;
  if (!sym_content(name, &p, &n)) return false;
  s->assign(p, n);
  return true;
}
static std::string Model() {
  return StlText({Tri{{{-1, -1, 0}, {1, -1, 0}, {0, 2, 0}}, {0, 0, 1}}, Tri{{{2, -1, 0}, {3, -1, 0}, {2, 2, 0}}, {0, 0, 1}}});
}
static const std::string kScript = "load m=\"m.stl\";page{draw m{@[0,0];}}page{text[\"hello\"]{@[1,1];}}\n";
// A script whose document is longer than any buffer on the way.
static std::string Long(int texts) {
  std::string s = "load m=\"m.stl\";page{draw m{@[0,0];}";
  for (int i = 0; i < texts; i++) s += "text[\"0123456789012345678901234567890123456789012345678901234567890123456789\"]{@[1,1];}";
  return s + "}";
}
// The disk is full after any number of bytes.
static void Full(const std::string& script, int room, int whole, const std::string& out) {
  File("s.txt", script);
  sym_write_fault("o.ps", room);
  bool fits = room >= whole;
  if (!fits) sym_expect_exit(1);
  int st = Program("s.txt", "o.ps");
  SYM_ASSERT((st & 255) != 0 || fits, "a full disk is a failure");
  SYM_ASSERT((st & 255) == 0 || !fits, "enough room is a success");
  std::string got;
  if (fits) SYM_ASSERT(Content("o.ps", &got) && got == out, "the whole document");
  sym_reach(fits ? "written" : "refused");
}
ENTRY C27_full() {
  File("m.stl", Model());
  File("o.ps", "");
  Result r = Run(kScript, "s.txt");
  int whole = r.out.size();
  Full(kScript, sym_int("room", 0, whole + 100), whole, r.out);
}
ENTRY C27_full_long() {
  File("m.stl", Model());
  File("o.ps", "");
  std::string s = Long(200);
  Result r = Run(s, "s.txt");
  int whole = r.out.size();
  SYM_ASSERT(whole > 16384, "longer than two buffers");
  Full(s, sym_int("room", 0, whole + 100), whole, r.out);
}
// Documents with any numbers in them.
ENTRY C27_full_any() {
  double h = sym_double("h", -4, 4);
  File("m.stl", StlText({Tri{{{-1, -1, h}, {1, -1, h}, {h, 2, h}}, {0, 0, 1}}}));
  File("o.ps", "");
  std::string s = "load m=\"m.stl\";page{draw m{@[" + N(h) + ",0];}}\n";
  File("s.txt", s);
  // No page fits in so little.
  sym_write_fault("o.ps", sym_int("room", 0, 500));
  sym_expect_exit(1);
  SYM_ASSERT((Program("s.txt", "o.ps") & 255) != 0, "a full disk is a failure");
  sym_reach("refused");
}
// Closing reports what writing did not.
ENTRY C27_close() {
  File("m.stl", Model());
  File("o.ps", "");
  std::string s = sym_choose("long", 2) ? Long(200) : kScript;
  File("s.txt", s);
  bool bad = sym_choose("bad", 2);
  if (bad) { sym_close_fault("o.ps"); sym_expect_exit(1); }
  int st = Program("s.txt", "o.ps");
  SYM_ASSERT(((st & 255) == 0) == !bad, "a failing close is a failure");
  sym_reach(bad ? "refused" : "written");
}
// The script cannot be read past any point.
static void Script(const std::string& script, int after) {
  File("m.stl", Model());
  File("s.txt", script);
  sym_read_fault("s.txt", after);
  bool ok = after > (int)script.size();
  if (!ok) sym_expect_exit(1);
  int st = Program("s.txt", "o.ps");
  SYM_ASSERT(((st & 255) == 0) == ok, "a script not read to its end is a failure");
  std::string got;
  if (!ok) SYM_ASSERT(!Content("o.ps", &got) || got.empty(), "nothing in the file");
  sym_reach(ok ? "written" : "refused");
}
ENTRY C27_script() {
  // Every part of it is a complete script of its own.
  std::string s = "load m=\"m.stl\";page{}page{text[\"hello\"]{@[1,1];}}page{draw m{@[0,0];}} // end\n";
  Script(s, sym_int("after", 0, s.size() + 9));
}
ENTRY C27_script_long() {
  std::string s;
  while (s.size() < 20000) s += "page{text[\"hello\"]{@[1,1];}}\n";
  static const int at[] = {0, 29, 4096, 8190, 8191, 8192, 8193, 8120, 16240, 16382, 16384};
  int k = sym_choose("after", 13);
  Script(s, k < 11 ? at[k] : s.size() + k - 11);
}
// Nor the model: a facet missing from a drawing is not a drawing of it.
static void TheModel(const std::string& text, int after) {
  File("m.stl", text);
  sym_read_fault("m.stl", after);
  // The end of the file has to be seen, or more would be missing.
  bool ok = after > (int)text.size();
  Result r = Run(kScript, "s.txt");
  SYM_ASSERT(r.ok == ok, "a model not read to its end is refused");
  if (!ok) SYM_ASSERT(r.out.empty() && !r.err.empty(), "nothing written, and explained");
  File("s.txt", kScript);
  int st = Program("s.txt", "o.ps");
  std::string got;
  SYM_ASSERT(((st & 255) == 0) == ok, "status");
  if (ok) SYM_ASSERT(Content("o.ps", &got) && got == r.out, "the whole document");
  sym_reach(ok ? "written" : "refused");
}
ENTRY C27_model() {
  std::string t = Model();
  TheModel(t, sym_int("after", 0, t.size() + 9));
}
ENTRY C27_model_long() {
  std::string t;
  for (int i = 0; i < 90; i++) t += Model();
  int k = sym_choose("after", 40);
  static const int edge[] = {0, 1, 8190, 8191, 8192, 8193, 16382, 16383, 16384};
  TheModel(t, k < 9 ? edge[k] : k < 37 ? t.size() * (k - 8) / 29 : (int)t.size() - 1 + (k - 37));
}
// A directory where a file should be.
ENTRY C27_dir() {
  sym_mkdir("d");
  sym_mkdir("m.stl");
  static const char* const m[] = {"d", "m.stl", ".", "./d", "d/"};
  Result r = Run("load m=\"" + std::string(m[sym_choose("model", 5)]) + "\";page{draw m{@[0,0];}}", "s.txt");
  SYM_ASSERT(!r.ok && r.out.empty() && !r.err.empty(), "a directory is no model");
  sym_reach("refused");
}
