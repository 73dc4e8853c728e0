// String literals denote their decoded content; adjacent literals concatenate.
#include "h.h"
// Reference: decodes the literal body; false if the body is not one complete literal.
static bool Decode(const std::string& b, std::string* out) {
  out->clear();
  for (size_t i = 0; i < b.size(); i++) {
    char c = b[i];
    if (c == '"' || c == '\n') return false;
    if (c == '\\') {
      if (++i >= b.size()) return false;
      char d = b[i];
      if (d == 'n') *out += '\n';
      else if (d == '\'' || d == '"' || d == '?' || d == '\\') *out += d;
      else return false;
    } else *out += c;
  }
  return true;
}
static std::string Bytes(const char* nm, int n, bool text) {
  std::string s;
  for (int i = 0; i < n; i++) {
    char b[8] = {nm[0], (char)('0' + i), 0};
    unsigned char c = sym_byte(b);
    if (text) sym_assume(c < 0x80);
    s += (char)c;
  }
  return s;
}
// No unescaped quote: the literal ends where the script says it does.
static bool Closed(const std::string& b) {
  for (size_t i = 0; i < b.size(); i++) {
    if (b[i] == '\\') i++;
    else if (b[i] == '"') return false;
    if (i >= b.size()) return false;
  }
  return true;
}
static void Title(const std::string& lits, bool valid, const std::string& want) {
  auto r = Run("page{name=" + lits + ";}");
  SYM_ASSERT(r.ok == valid, "accepted iff well formed");
  if (!r.ok) { sym_reach("rejected"); SYM_ASSERT(r.out.empty(), "nothing written"); return; }
  SYM_ASSERT(r.ps.ok && r.ps.count('t') == 2, "one title");
  if (!r.ps.ok || r.ps.count('t') != 2) return;
  SYM_ASSERT(PsUnescape(r.ps.nth('t', 1)->s) == want, "decoded");
}
ENTRY C02_one() {
  std::string b = Bytes("b", sym_choose("n", 4), false), want;
  sym_assume(Closed(b));
  bool v = Decode(b, &want);
  Title("\"" + b + "\"", v, want);
}
ENTRY C02_two() {
  int cut = sym_choose("cut", 3);
  std::string a = Bytes("a", cut, true), b = Bytes("b", 2 - cut, true), wa, wb;
  sym_assume(Closed(a) && Closed(b));
  bool v = Decode(a, &wa);
  v = Decode(b, &wb) && v;
  sym_assume(v);
  const char* sep[] = {"", " ", "\n", "//c\n"};
  Title("\"x" + a + "\"" + sep[sym_choose("sep", 4)] + "\"" + b + "y\"", true, "x" + wa + wb + "y");
}
// The text of a text element: decoded, then one line per '\n', empty lines skipped.
ENTRY C02_lines() {
  std::string b = Bytes("b", 3, true), want;
  sym_assume(Closed(b));
  sym_assume(Decode(b, &want));
  auto r = Run("page{text[\"" + b + "\"]{@[0,0];}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  int k = 1, line = 0;
  std::string cur;
  for (size_t i = 0; i <= want.size(); i++) {
    if (i < want.size() && want[i] != '\n') { cur += want[i]; continue; }
    if (!cur.empty()) {
      auto* t = r.ps.nth('t', k++);
      SYM_ASSERT(t && PsUnescape(t->s) == cur, "line text");
      if (t) sym_assert_near(t->x[1], 306 - 12 * line, 1e-3, "line position");
    }
    cur.clear();
    line++;
  }
  SYM_ASSERT(r.ps.count('t') == k + 1, "no other text");
}
// Long literals: what is at their end is read as in short ones.
ENTRY C02_long() {
  std::string b = LongText("b", Size("size")), want;
  sym_assume(Closed(b));
  bool v = Decode(b, &want);
  Title("\"" + b + "\"", v, want);
}
ENTRY C02_many() {
  int n = sym_choose("n", 40);
  std::string s = "\"", w;
  for (int i = 0; i < n; i++) { s += std::string("x") + "\\\\\"\""; w += "x\\"; }
  Title(s + "\"", true, w);
}
