// All or nothing: one faulty part anywhere and nothing is written; otherwise every part is there.
#include "h.h"
static void Model() {
  std::vector<Tri> t = {{{{-2, -2, 0}, {2, -2, 0}, {2, 2, 0}}, {0, 0, 1}}, {{{-2, -2, 0}, {2, 2, 0}, {-2, 2, 0}}, {0, 0, 1}}};
  File("m.stl", StlText(t));
  File("bad.stl", std::string("solid\nnonsense\n"));
}
// good parts first
static const char* const kPart[] = {
    "draw m{@[1,1];}", "text[\"hello\"]{@[1,2];}", "draw m{dim(at=[0,0,0],dir=[1,0,0],from=[-1,0,0],to=[1,0,0]);rad(at=[3,3,0],dir=[1,1,0],center=[0,0,0]);}",
    "draw q{@[1,1];}", "text[\"bye\"]{size=1;}", "draw m{dim(at=[0,0,0],dir=[0,0,0],from=[-1,0,0],to=[1,0,0]);rad(at=[3,3,0],dir=[1,1,0],center=[0,0,0]);}",
    "draw m{dim(at=[0,0,0],dir=[1,0,0],from=[-1,0,0],to=[1,0,0]);rad(at=[3,3,0],dir=[1,1,0]);}",
    "draw m{angle(at=[0,0,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[2,0,0]);dim(at=[0,0,0],dir=[1,0,0],from=[-1,0,0],to=[1,0,0]);}",
    "draw m{dim(at=[0,0,0],dir=[1,0,0],from=pos([0,0,0]),to=[1,0,0]);}", "name=3;", "size=\"a\";", "draw m{scale=0:1;}", "draw m{view=\"Q\";}",
    "draw m{dia(at=[3,3,0],dir=[1,1,0],center=[0,0,0],fmt=\"%s\");}"};
static const int kGood = 3, kParts = 14, kLines[] = {4, 0, 4 + 8 + 4}, kTexts[] = {0, 1, 2};
static void Check(const std::string& s, bool good, int pages, int lines, int texts) {
  Model();
  auto r = Run(s);
  SYM_ASSERT(r.ok == good, "succeeds iff every part is right");
  if (!good) { SYM_ASSERT(r.out.empty(), "nothing written"); SYM_ASSERT(!r.err.empty(), "explained"); sym_reach("refused"); return; }
  if (!r.ok) return;
  SYM_ASSERT(r.ps.ok && r.ps.pages == pages && r.ps.shows == pages, "every page");
  SYM_ASSERT(r.ps.count('l') == lines + 2 * pages, "every line");
  SYM_ASSERT(r.ps.count('t') + r.ps.count('c') == texts + 2 * pages, "every text");
  sym_reach("written");
}
// Up to two parts on each of two pages.
ENTRY C08_parts() {
  std::string s = "load m=\"m.stl\";";
  bool good = true;
  int lines = 0, texts = 0, pages = 2;
  for (int p = 0; p < pages; p++) {
    s += "page{";
    int n = sym_choose("n", 3);
    for (int i = 0; i < n; i++) {
      int k = sym_choose("part", kParts);
      // one faulty part is enough
      if (!good) sym_assume(k < kGood);
      if (k >= kGood) good = false;
      else { lines += kLines[k]; texts += kTexts[k]; }
      s += kPart[k];
    }
    s += "}";
  }
  Check(s, good, pages, lines, texts);
}
// Models: one that cannot be read spoils the run, used or not.
ENTRY C08_models() {
  static const char* const k[] = {"load a=\"m.stl\";", "load b=\"m.stl\";", "load c=\"bad.stl\";", "load d=\"none.stl\";", "load a=\"m.stl\";"};
  std::string s;
  bool good = true, have = false, b = false;
  int n = sym_choose("n", 4);
  for (int i = 0; i < n; i++) {
    int c = sym_choose("load", 5);
    s += k[c];
    if (c == 2 || c == 3) good = false;
    if (c == 1) { if (b) good = false; b = true; }
    if (c == 0 || c == 4) { if (have) good = false; have = true; }
  }
  int use = sym_choose("use", 2), last = sym_choose("last", 2);
  std::string page = use ? "page{draw a{}}" : "page{}";
  if (use && !have) good = false;
  Check(last ? page + s : s + page, good, 1, use ? 4 : 0, 0);
}
// A number that makes the only difference.
ENTRY C08_number() {
  double x = sym_double("x", -2, 2);
  sym_assume((x == 0) | (x > 0.01) | (x < -0.01));
  int at = sym_choose("page", 3), kind = sym_choose("kind", 2);
  std::string part = kind ? "draw m{dim(at=[0,0,0],dir=[" + N(x) + ",0,0],from=[-1,0,0],to=[1,0,0]);}"
                          : "draw m{angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[1," + N(x) + ",0]);}";
  std::string s = "load m=\"m.stl\";";
  for (int i = 0; i < 3; i++) s += "page{draw m{}" + (i == at ? part : std::string()) + "text[\"z\"]{}}";
  Check(s, x != 0, 3, 4 * 3 + 4 + (kind ? 8 : 6), 4);
}
