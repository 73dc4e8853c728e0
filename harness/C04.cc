// Numbers mean their decimal value; anything else is refused.
#include "h.h"
static std::string Bytes(int n) {
  std::string s;
  for (int i = 0; i < n; i++) {
    char b[8] = {'d', (char)('0' + i), 0};
    unsigned char c = sym_byte(b);
    sym_assume((c >= '0' && c <= '9') | (c == '.') | (c == '-') | (c == '+') | (c == 'e'));
    s += (char)c;
  }
  return s;
}
// Reference reading of [-+]?(digits[.digits*] | .digits).
static bool Value(const std::string& s, double* v) {
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  double w = 0;
  int nd = 0, nf = 0;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') { w = w * 10 + (s[i++] - '0'); nd++; }
  if (i < s.size() && s[i] == '.') {
    i++;
    double sc = 1;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') { sc /= 10; w = w + (s[i++] - '0') * sc; nf++; }
  }
  if (i != s.size() || (!nd && !nf)) return false;
  *v = neg ? -w : w;
  return true;
}
static void Check(int n) {
  std::string s = Bytes(n);
  double v = 0;
  bool good = Value(s, &v);
  auto r = Run("page{text[\"q\"]{@[" + s + ",0];}}");
  SYM_ASSERT(r.ok == good, "accepted iff a number");
  if (!r.ok) { sym_reach("rejected"); SYM_ASSERT(r.out.empty(), "nothing written"); return; }
  auto* t = r.ps.nth('t', 1);
  SYM_ASSERT(t != nullptr, "text drawn");
  double want = v * 72 + 396;
  double tol = 1e-3 + 1e-5 * (want < 0 ? -want : want);
  if (t) sym_assert_near(t->x[0], want, tol, "value");
}
ENTRY C04_short() { Check(1 + sym_choose("n", 3)); }
ENTRY C04_four() { Check(4); }
ENTRY C04_five() { Check(5); }
ENTRY C04_six() { Check(6); }
ENTRY C04_seven() { Check(7); }
// Any length: the literal denotes its value or is refused; nothing else may happen.
ENTRY C04_range() {
  int nd = 1 + sym_choose("digits", 45), z = sym_choose("frac", 2);
  unsigned char c = sym_byte("c");
  sym_assume(c >= '1' && c <= '9');
  std::string s = z ? "0." + std::string(nd - 1, '0') + (char)c : (char)c + std::string(nd - 1, '0');
  auto r = Run("page{text[\"q\"]{@[0," + s + "];}}");
  if (!r.ok) { SYM_ASSERT(r.out.empty(), "nothing written"); SYM_ASSERT(z == 0 && nd > 30, "only unrepresentable numbers refused"); sym_reach("refused"); return; }
  double v = c - '0';
  for (int i = 0; i < (z ? nd : nd - 1); i++) { if (z) v /= 10; else v *= 10; }
  auto* t = r.ps.nth('t', 1);
  SYM_ASSERT(t != nullptr, "text drawn");
  double want = v * 72 + 306;
  if (t) sym_assert_near(t->x[1], want, 1e-3 + 1e-4 * want, "value");
}
