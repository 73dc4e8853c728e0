// Where texts go: one line per line of the text, in place, nothing lost.
#include "h.h"
static void Check(const Result& r, const std::string& text, double x, double y) {
  SYM_ASSERT(r.ok, "accepted");
  if (!r.ok) return;
  SYM_ASSERT(r.ps.ok, "well formed");
  int shown = 0;
  size_t b = 0;
  for (int line = 0;; line++) {
    size_t e = text.find('\n', b);
    std::string s = text.substr(b, e == std::string::npos ? e : e - b);
    if (!s.empty()) {
      const PsItem* t = r.ps.nth('t', 1 + shown++);  // after the page's own text
      SYM_ASSERT(t, "every line is there");
      if (!t) return;
      SYM_ASSERT(PsUnescape(t->s) == s, "the line's text");
      sym_assert_near(t->x[0], x, 5e-3, "left edge");
      sym_assert_near(t->x[1], y - 12.0 * line, 5e-3, "line below line");
      sym_reach("line");
    }
    if (e == std::string::npos) break;
    b = e + 1;
  }
  SYM_ASSERT(r.ps.count('t') == shown + 2 && r.ps.count('c') == 0 && r.ps.count('l') == 2, "nothing else");
}
ENTRY C22_place() {
  double x = sym_double("x", -20, 20), y = sym_double("y", -20, 20);
  static const char* const t[] = {"one", "one\\ntwo", "\\n\\nthree\\n", "a\\n\\nb\" \"\\nc"};
  static const char* const v[] = {"one", "one\ntwo", "\n\nthree\n", "a\n\nb\nc"};
  int k = sym_choose("text", 4), at = sym_choose("at", 2);
  auto r = Run(std::string("page{text[\"") + t[k] + "\"]{" + (at ? "@" + P2(x, y) + ";" : "") + "}}");
  Check(r, v[k], at ? 396 + 72 * x : 396, at ? 306 + 72 * y : 306);
}
static void Lines_(int n) {
  std::string lit, text;
  for (int i = 0; i < n; i++) {
    char nm[3] = {'c', (char)('0' + i), 0};
    unsigned char c = sym_byte(nm);
    if (c == '\n') lit += "\\n";
    else if ((c == '"') | (c == '\\')) { lit += '\\'; lit += (char)c; }
    else lit += (char)c;
    text += (char)c;
  }
  Check(Run("page{text[\"" + lit + "\"]{@[1,-1];}}"), text, 468, 234);
}
ENTRY C22_lines() { Lines_(sym_choose("n", 5)); }
// Line breaks anywhere in a longer text, in several literals.
ENTRY C22_breaks() {
  std::string lit, text;
  for (int i = 0; i < 9; i++) {
    int k = sym_choose("k", 2);
    lit += k ? "\\n" : "x";
    text += k ? '\n' : 'x';
    if (i == 4) lit += "\" // and\n \"";
  }
  Check(Run("page{text[\"" + lit + "\"]{@[1,-1];}}"), text, 468, 234);
}
// Several texts on a page each keep their own place.
ENTRY C22_several() {
  double x = sym_double("x", -5, 5), y = sym_double("y", -4, 4), u = sym_double("u", -5, 5), w = sym_double("w", -4, 4);
  auto r = Run("page{text[\"p\\nq\"]{@" + P2(x, y) + ";}text[\"r\\ns\"]{@" + P2(u, w) + ";}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  static const char* const want[] = {"p", "q", "r", "s"};
  SYM_ASSERT(r.ps.count('t') == 6, "nothing else");
  for (int i = 0; i < 4; i++) {
    const PsItem* t = r.ps.nth('t', i + 1);
    if (!t) return;
    SYM_ASSERT(t->s == want[i], "in order");
    sym_assert_near(t->x[0], 396 + 72 * (i < 2 ? x : u), 5e-3, "left edge");
    sym_assert_near(t->x[1], 306 + 72 * (i < 2 ? y : w) - 12 * (i % 2), 5e-3, "line below line");
  }
  sym_reach("line");
}
// Long lines, and many of them.
ENTRY C22_long() {
  std::string t = LongText("t", Size("size", 4097), "\n\\\"");
  sym_assume((t[t.size() - 1] != '\n') & (t[t.size() - 7] != '\n'));
  Check(Run("page{text[\"" + t + "\\n\\nend\"]{@[1,-1];}}"), t + "\n\nend", 468, 234);
}
ENTRY C22_many() {
  int n = sym_choose("n", 90);
  std::string lit, text;
  for (int i = 0; i < n; i++) { lit += i % 7 == 3 ? "\\n" : "x\\n"; text += i % 7 == 3 ? "\n" : "x\n"; }
  Check(Run("page{text[\"" + lit + "z\"]{@[1,-1];}}"), text + "z", 468, 234);
}
