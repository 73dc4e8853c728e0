// The program: exit status and the file it writes.
#include "h.h"
#define main stl2ps_main
#include "stl-to-ps/stl-to-ps-main.cc"
#undef main
static int Program(const std::string& script, const std::string& output) {
  absl::SetFlag(&FLAGS_script, script);
  absl::SetFlag(&FLAGS_output, output);
  char name[] = "stl-to-ps";
  char* argv[] = {name, nullptr};
  return stl2ps_main(1, argv);
}
static bool Content(const char* name, std::string* s) {
  const char* p;
  size_t n;
  if (!sym_content(name, &p, &n)) return false;
  s->assign(p, n);
  return true;
}
static void Model() { File("m.stl", StlText({Tri{{{-1, -1, 0}, {1, -1, 0}, {0, 2, 0}}, {0, 0, 1}}})); }
// What the library makes of the script is what the program writes, and its status says so.
static void Check(const std::string& script, const char* name = "s.txt", const char* output = "o.ps") {
  Model();
  Result r = Run(script, name);
  File(name, script);
  int st = Program(name, output);
  SYM_ASSERT((st & 255) == 0 || !r.ok, "success for a good script");
  SYM_ASSERT((st & 255) != 0 || r.ok, "failure for a bad script");
  std::string got;
  bool have = Content(output, &got);
  if (r.ok) {
    SYM_ASSERT(have && got == r.out, "the document is in the file");
    sym_reach("written");
  } else {
    SYM_ASSERT(!have || got.empty(), "nothing in the file");
    sym_reach("refused");
  }
  std::string s2;
  SYM_ASSERT(Content(name, &s2) && s2 == script, "the script is left alone");
}
ENTRY C26_flags() {
  static const char* const src[] = {"", "s.txt", "none", "d/s.txt", "d"};
  static const char* const dst[] = {"", "o.ps", "d/o.ps", "nodir/o.ps", "d"};
  int a = sym_choose("script", 5), b = sym_choose("output", 5);
  Model();
  sym_mkdir("d");
  std::string script = "load m=\"m.stl\";page{draw m{@[0,0];}}";
  File("s.txt", script);
  File("d/s.txt", script);
  bool good = (a == 1 || a == 3) && (b == 1 || b == 2);
  Result r = Run(script, src[a]);
  if (!good) sym_expect_exit(1);
  int st = Program(src[a], dst[b]);
  SYM_ASSERT(((st & 255) == 0) == good, "status");
  std::string got;
  if (good) {
    SYM_ASSERT(Content(dst[b], &got) && got == r.out, "the document is in the file");
    sym_reach("written");
  } else {
    sym_reach("refused");
  }
}
ENTRY C26_script() {
  static const char* const pre[] = {"load m=\"m.stl\";page{draw m{@[0,0];}", "page{text[\"a\"]{@[1,1];}", "page{"};
  static const char* const post[] = {"}", "page{}", ""};
  int n = sym_choose("n", 3);
  std::string s = pre[sym_choose("pre", 3)];
  for (int i = 0; i < n; i++) {
    char nm[3] = {'c', (char)('0' + i), 0};
    s += (char)sym_byte(nm);
  }
  s += post[sym_choose("post", 3)];
  Check(s);
}
ENTRY C26_model() {
  double h = sym_double("h", -4, 4), w = sym_double("w", .5, 4);
  File("n.stl", StlText({Tri{{{-1, -1, h}, {w, -1, h}, {0, 2, h}}, {0, 0, 1}}}));
  Check("load m=\"n.stl\";page{draw m{@[" + N(h) + ",0];}}page{text[\"b\"]{@[" + N(w) + ",1];}}");
}
// Any name of a script and of an output.
ENTRY C26_names() {
  std::string a = "s", b = "o";
  int n = sym_choose("n", 3);
  for (int i = 0; i < n; i++) {
    char nm[3] = {'a', (char)('0' + i), 0};
    unsigned char c = sym_byte(nm);
    sym_assume((c != 0) & (c != '/'));
    a += (char)c;
    nm[0] = 'b';
    c = sym_byte(nm);
    sym_assume((c != 0) & (c != '/'));
    b += (char)c;
  }
  Check("page{text[\"a\"]{@[1,1];}}", a.c_str(), b.c_str());
}
// An older, longer file in the output's place leaves no trace.
ENTRY C26_again() {
  std::string old;
  int n = sym_choose("old", 4);
  for (int i = 0; i < n * n * 3000; i++) old += 'x';
  if (n) File("o.ps", old);
  Check(sym_choose("good", 2) ? "page{text[\"a\"]{@[1,1];}}" : "page{text[\"a\"]{@[1,1];size=3;}}");
}
