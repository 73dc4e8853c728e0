// White space and comments between symbols change nothing but the line numbers in diagnostics.
#include "h.h"
static const char* const kTok[] = {"load", "m", "=", "\"m.stl\"", ";", "page", "{", "name", "=", "\"a\"", "\"b\"", ";", "draw", "m", "{", "@", "[", "1", ",", "-2", "]", ";",
    "scale", "=", "2", ":", "1", ";", "dim", "(", "at", "=", "[", "0", ",", "0", ",", "0", "]", ",", "dir", "=", "[", "1", ",", "0", ",", "0", "]", ",", "from", "=", "near", "(", "[",
    "0", ",", "0", ",", "0", "]", ")", ",", "to", "=", "[", "1.5", ",", "0", ",", "0", "]", ")", ";", "}", "text", "[", "\"t\"", "]", "{", "@", "[", "1", ",", "2", "]", ";", "}", "}"};
static const int kN = sizeof kTok / sizeof *kTok;
static void Model() {
  File("m.stl", "solid m\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 2 0 0\nvertex 0 1 0\nendloop\nendfacet\nendsolid m\n");
}
static bool Wordy(char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '.' || c == '_'; }
static std::string Script(int at, const std::string& sep) {
  std::string s;
  for (int i = 0; i < kN; i++) {
    if (i == at) s += sep;
    else if (i && Wordy(s.back()) && Wordy(kTok[i][0])) s += ' ';
    s += kTok[i];
  }
  return at == kN ? s + sep : s;
}
static unsigned char B(char k, int i) { char n[3] = {k, (char)('0' + i), 0}; return sym_byte(n); }
static std::string Blank(char k, int n) {
  std::string r;
  for (int i = 0; i < n; i++) {
    unsigned char c = B(k, i);
    sym_assume((c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'));
    r += (char)c;
  }
  return r;
}
static void Same(int at, const std::string& sep) {
  Model();
  auto a = Run(Script(-1, ""));
  auto b = Run(Script(at, sep));
  SYM_ASSERT(a.ok && b.ok, "accepted");
  SYM_ASSERT(a.out == b.out, "same pages");
  sym_reach("compared");
}
ENTRY C05_blanks() {
  int at = sym_choose("at", kN + 1), n = sym_choose("n", 4);
  sym_assume(n > 0 || at == 0 || at == kN || !(Wordy(kTok[at - 1][strlen(kTok[at - 1]) - 1]) && Wordy(kTok[at][0])));
  Same(at, Blank('s', n));
}
ENTRY C05_comment() {
  int at = sym_choose("at", kN + 1), n = sym_choose("n", 3), k = sym_choose("blank", 2);
  std::string c = "//";
  for (int i = 0; i < n; i++) { unsigned char x = B('c', i); sym_assume(x != '\n'); c += (char)x; }
  // the last comment may end with the file
  if (at < kN || k) c += "\n";
  Same(at, (k ? " " : "") + c);
}
ENTRY C05_long() {
  int at = sym_choose("at", 6) * (kN / 5);
  std::string c = "//";
  for (int i = 0; i < 4; i++) { unsigned char x = B('c', i); sym_assume(x != '\n'); c += (char)x; }
  Same(at, c + "\n" + Blank('s', 2));
}
// Where a diagnostic says the trouble is.
ENTRY C05_line() {
  Model();
  // before, the part in trouble, after
  static const char* const k[][3] = {
      {"load m=\"m.stl\";page{", "draw q{}", "}"},
      {"load m=\"m.stl\";page{draw m{", "view=\"Q\";", "}}"},
      {"load m=\"m.stl\";page{draw m{scale=1:1;", "scale=1:2;", "}}"},
      {"load m=\"m.stl\";page{draw m{dim(at=[0,0,0],dir=[1,0,0],to=[1,0,0],from=", "q([0,0,0])", ");}}"},
      {"load m=\"m.stl\";page{draw m{", "dim();", "}}"},
      {"load m=\"m.stl\";page{draw m{", "angle();", "}}"},
      {"load m=\"m.stl\";page{draw m{", "dia();", "}}"},
      {"load m=\"m.stl\";page{draw m{", "rad();", "}}"},
      {"load m=\"m.stl\";page{draw m{", "scale=\"1\";", "}}"},
      {"", "load n=\"none.stl\";", "page{}"},
      {"load m=\"m.stl\";", "load m=\"m.stl\";", "page{}"},
      {"page{", "name=1;", "}"},
      {"page{text[\"a\"]{@[1,1];", "@[1,2];", "}}"},
      {"page{", ";", "}"},
      {"page{", "$", "}"},
      {"load m=\"m.stl\";page{draw m{", "scale=0:1;", "}}"},
      {"page{name=\"a\";", "name=\"b\";", "}"},
      {"load m=\"m.stl\";page{draw m{dim(at=[0,0,0],from=[0,0,0],to=[1,0,0],", "dir=[0,0,0]", ");}}"},
  };
  int c = sym_choose("case", 18);
  std::string gap;
  int line = 1;
  switch (sym_choose("gap", 3)) {
    case 0: gap = Blank('s', 3); break;
    case 1: gap = "\n//" + Blank('s', 1) + "\n"; break;
    default: { unsigned char x = B('c', 0); sym_assume(x != '\n'); gap = std::string("//") + (char)x + "\n" + Blank('s', 2); }
  }
  for (char x : gap) line += x == '\n';
  std::string head = "//x\n";
  auto r = Run(head + k[c][0] + gap + k[c][1] + "\n" + k[c][2]);
  SYM_ASSERT(!r.ok && r.out.empty(), "refused");
  size_t p = r.err.find("in.txt:");
  SYM_ASSERT(p != std::string::npos, "names the file");
  if (p == std::string::npos) return;
  size_t b = p + 7, e = b;
  while (e < r.err.size() && (r.err[e] == '-' || (r.err[e] >= '0' && r.err[e] <= '9'))) e++;
  SYM_ASSERT(e > b && r.err[e] == ':', "names a line");
  int got = 0;
  for (size_t i = b; i < e; i++) got = got * 10 + (r.err[i] - '0');
  // draws are named by their model, which starts the part after "draw "
  SYM_ASSERT(got == line + 1, "names the line of the part in trouble");
  sym_reach("located");
}
// Long runs of blanks, and long comments: still nothing, and still counted.
ENTRY C05_run() {
  int at = sym_choose("at", 4) * (kN / 3), n = Size("size");
  std::string s;
  switch (sym_choose("kind", 3)) {
    case 0: s = "//" + LongText("c", n, "\n") + "\n"; break;
    case 1: s = std::string(n, ' '); break;
    default: s = std::string(n, '\n');
  }
  if (sym_choose("bad", 2)) {
    auto r = Run(s + "page{draw q{}}");
    SYM_ASSERT(!r.ok && r.out.empty(), "refused");
    std::string where = "in.txt:" + std::to_string(s[0] == '\n' ? n + 1 : s[0] == '/' ? 2 : 1) + ":";
    SYM_ASSERT(r.err.find(where) != std::string::npos, "names the line of the part in trouble");
    sym_reach("located");
  } else {
    Same(at, s);
  }
}
ENTRY C05_far() {
  int n = sym_choose("n", 3);
  auto r = Run(std::string(n == 0 ? 32768 : n == 1 ? 65537 : 100000, '\n') + "page{draw q{}}");
  SYM_ASSERT(!r.ok && r.out.empty(), "refused");
  SYM_ASSERT(r.err.find(n == 0 ? "in.txt:32769:" : n == 1 ? "in.txt:65538:" : "in.txt:100001:") != std::string::npos, "names the line of the part in trouble");
  sym_reach("located");
}
// Whether some diagnostic in `err` names a line, and whether all do.
static bool Names(const std::string& err, int line) {
  std::string w = "in.txt:" + std::to_string(line) + ":";
  return err.find(w) != std::string::npos;
}
// The other diagnostics; the part in trouble may be named after the one it is in.
ENTRY C05_line2() {
  Model();
  static const char* const k[][3] = {
      {"load m=\"m.stl\";page{draw m{", "foo=1;", "}}"},
      {"load m=\"m.stl\";page{", "foo=[1,2];", "}"},
      {"load m=\"m.stl\";page{text[\"a\"]{", "foo=[1,2,3];", "}}"},
      {"load m=\"m.stl\";page{draw m{", "view=1;", "}}"},
      {"load m=\"m.stl\";page{draw m{", "view=1:2;", "}}"},
      {"load m=\"m.stl\";page{draw m{dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],to=[1,0,0],", "foo=1", ");}}"},
      {"load m=\"m.stl\";page{draw m{angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[0,1,0],", "foo=\"x\"", ");}}"},
      {"load m=\"m.stl\";page{draw m{dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],to=[1,0,0],", "fmt=1", ");}}"},
      {"load m=\"m.stl\";page{draw m{angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[0,1,0],", "fmt=\"x\"", ");}}"},
      {"load m=\"m.stl\";page{draw m{dia(at=[0,0,0],dir=[1,0,0],center=[.1,.1,0],", "fmt=\"%f%f\"", ");}}"},
      {"load m=\"m.stl\";page{draw m{rad(at=[0,0,0],dir=[1,0,0],center=[.1,.1,0],", "fmt=1:1", ");}}"},
      {"load m=\"m.stl\";page{draw m{rad(at=[0,0,0],dir=[1,0,0],center=[.1,.1,0],", "foo=1", ");}}"},
      {"load m=\"m.stl\";page{draw m{dia(at=[0,0,0],center=[.1,.1,0],", "dir=[0,0,1]", ");}}"},
      {"load m=\"m.stl\";page{draw m{angle(at=[1,1,0],apex=[0,0,0],to_dir=[1,0,0],from_point=[1,1,0],", "from_dir=[1,0,0]", ");}}"},
      {"load m=\"m.stl\";page{draw m{angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_point=[1,1,0],", "to_dir=[0,1,0]", ");}}"},
      {"load m=\"m.stl\";page{draw m{dim(", "at=1", ",dir=[1,0,0],from=[0,0,0],to=[1,0,0]);}}"},
      {"load m=\"m.stl\";page{draw m{dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],", "to=[1,0]", ");}}"},
      {"load m=\"m.stl\";page{draw m{dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],to=near(near(", "q([1,0,0])", ")));}}"},
      {"load m=\"m.stl\";page{draw m{dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],to=[0,1,0],", "at=[0,0,0]", ");}}"},
      {"load m=\"m.stl\";page{draw m{", "angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[-2,0,0]);", "}}"},
      {"page{}page{}page{", "text \"a\"", "}"},
      {"page{text[\"a\"]{@[1,2", ",3", "];}}"},
      {"page{name=\"a\" \"b\"\n", "\"c\\d\"", ";}"},
      {"page{name=", "\"c", ";}"},
      {"page{a=", "12345678901234567890123456789012345678901", ";}"},
      {"load m=\"m.stl\";page{draw m{", "scale=1.5:1;", "}}"},
      {"load m=\"m.stl\";page{draw m{scale=", "2147483648:1", ";}}"},
  };
  int c = sym_choose("case", 27);
  std::string gap;
  int line = 2;
  switch (sym_choose("gap", 2)) {
    case 0: gap = Blank('s', 2); break;
    default: { unsigned char x = B('c', 0); sym_assume(x != '\n'); gap = std::string("//") + (char)x + "\n" + Blank('s', 1); }
  }
  for (char x : gap) line += x == '\n';
  for (const char* x = k[c][0]; *x; x++) line += *x == '\n';
  auto r = Run("//x\n" + (k[c][0] + gap) + k[c][1] + "\n" + k[c][2]);
  SYM_ASSERT(!r.ok && r.out.empty(), "refused");
  SYM_ASSERT(Names(r.err, line), "names the line of the part in trouble");
  sym_reach("located");
}
// What was read before doesn't matter.
ENTRY C05_again() {
  Model();
  static const char* const earlier[] = {"page{\n\n", "page{}\n\n\n", "page{text[\"a", "\n//", "load m=\"m.stl\";\n\npage{draw m{\ndim();}}", "page{name=\"\n\";}"};
  static const char* const bad[] = {"page{draw q{}}", "$", "page{name=\"a\"\n;draw q{}}", "load n=\"none.stl\";"};
  int c = sym_choose("case", 4);
  Run(earlier[sym_choose("earlier", 6)]);
  std::string gap = Blank('s', 2);
  int line = 1 + (c == 2);
  for (char x : gap) line += x == '\n';
  auto r = Run(gap + bad[c]);
  SYM_ASSERT(!r.ok && r.out.empty(), "refused");
  SYM_ASSERT(r.err.find("in.txt:") == r.err.find("in.txt:" + std::to_string(line) + ":"), "names the line of the part in trouble");
  auto t = Run(gap + Script(-1, ""));
  SYM_ASSERT(t.ok, "accepted");
  sym_reach("located");
}
