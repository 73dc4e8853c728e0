// fmt: how the value of an annotation is written.
#include "draw.h"
static const char* const kNames[4] = {"dim", "rad", "dia", "angle"};
// The value shown is 2.5 (dim), 2 (rad), 4 (dia), 90 (angle).
static const double kVal[4] = {2.5, 2, 4, 90};
static std::string Script(int kind, const std::string& fmt) {
  static const char* const a[4] = {"at=[0,3,0],dir=[1,0,0],from=[-1,0,0],to=[1.5,0,0]", "at=[3,3,0],dir=[0.6,0.8,0],center=[0,0,0]",
                                   "at=[3,3,0],dir=[0.6,0.8,0],center=[0,0,0]", "at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[0,1,0]"};
  std::string lit;
  for (char c : fmt) {
    if (c == '\n') lit += "\\n";
    else if ((c == '"') | (c == '\\')) { lit += '\\'; lit += c; }
    else lit += c;
  }
  File("m.stl", Plate(2));
  return std::string("load m=\"m.stl\";page{draw m{") + kNames[kind] + "(" + a[kind] + ",fmt=\"" + lit + "\");}}";
}
static std::string Pre(int k) { return k == 1 ? "R" : k == 2 ? "\351" : ""; }
static std::string Post(int k) { return k == 3 ? " deg" : ""; }
static std::string Free(const char* nm, int n) {
  std::string s;
  for (int i = 0; i < n; i++) { std::string k = nm + std::to_string(i); s += (char)sym_byte(k.c_str()); }
  return s;
}
static void Expect(int kind, const std::string& fmt, bool ok, const std::string& body) {
  auto r = Run(Script(kind, fmt));
  SYM_ASSERT(r.ok == ok, "a format of one number");
  if (!r.ok) { SYM_ASSERT(r.out.empty() && !r.err.empty(), "refused"); sym_reach("refused"); return; }
  if (!ok) return;
  SYM_ASSERT(r.ps.ok, "well formed");
  const PsItem* t = r.ps.nth('c', 0);
  SYM_ASSERT(t && r.ps.count('c') == 1, "one text");
  if (!t) return;
  std::string want = Pre(kind) + body + Post(kind);
  SYM_ASSERT(PsUnescape(t->s) == want, "text of the format");
  sym_reach("shown");
}
// Any bytes around the number.
static void Around(int kind, int a, int b) {
  std::string p = Free("p", a), s = Free("s", b);
  if (a == 3) sym_assume((p[0] != '%') | (p[1] != 'f'));  // another number
  bool ok = true;
  std::string body;
  for (int part = 0; part < 2; part++) {
    const std::string& t = part ? s : p;
    for (size_t i = 0; i < t.size(); i++) {
      if (t[i] == '%') {
        // only a doubled one stands for itself
        if (i + 1 < t.size() && t[i + 1] == '%') { i++; body += '%'; continue; }
        // one before the number: "%%.2f" has no number; other things begin another number
        ok = false;
        break;
      }
      body += t[i];
    }
    if (!ok) break;
    if (!part) body += kind == 3 ? "90.00" : kind == 0 ? "2.50" : kind == 1 ? "2.00" : "4.00";
  }
  Expect(kind, p + "%.2f" + s, ok, body);
}
ENTRY C25_before() { Around(sym_choose("kind", 4), sym_choose("n", 4), 0); }
ENTRY C25_after() { Around(sym_choose("kind", 4), 0, sym_choose("n", 3)); }
ENTRY C25_around() { Around(sym_choose("kind", 4), 1, 1); }
// Reference reading of one conversion; false if it isn't one of a number in %f form.
static bool Digit(char c) { return c >= '0' && c <= '9'; }
static bool Conversion(const std::string& s, double v, std::string* out) {
  size_t i = 0, n = s.size();
  bool minus = false, plus = false, space = false, alt = false, zero = false;
  auto num = [&](int* r) { *r = 0; for (int k = 0; i < n && Digit(s[i]) && k < 9; i++, k++) *r = *r * 10 + (s[i] - '0'); };
  // "1$": the first (and only) argument
  if (n >= 2 && s[0] == '1' && s[1] == '$') i = 2;
  for (;; i++) {
    if (i >= n) return false;
    char c = s[i];
    if (c == '-') minus = true;
    else if (c == '+') plus = true;
    else if (c == ' ') space = true;
    else if (c == '#') alt = true;
    else if (c == '0') zero = true;
    else break;
  }
  int width = 0, prec = 6;
  if (Digit(s[i])) num(&width);
  if (i < n && s[i] == '.') { i++; num(&prec); }
  // length modifiers mean nothing here
  if (i < n && (s[i] == 'h' || s[i] == 'l')) { i++; if (i < n && s[i] == s[i - 1]) i++; }
  else if (i < n && (s[i] == 'L' || s[i] == 'j' || s[i] == 'z' || s[i] == 't' || s[i] == 'q')) i++;
  if (i + 1 != n || s[i] != 'f') return false;
  sym_assume(prec < 9);  // below rounding
  int whole = (int)v;
  std::string b = std::to_string(whole);
  double rest = v - whole;
  if (prec == 0) {
    // only 2.5 isn't whole, and rounds to even
    if (alt) b += '.';
  } else {
    b += '.';
    for (int k = 0; k < prec; k++) { rest *= 10; int d = (int)rest; b += (char)('0' + d); rest -= d; }
  }
  std::string sign = plus ? "+" : space ? " " : "";
  int pad = width - (int)(b.size() + sign.size());
  std::string fill(pad > 0 ? pad : 0, ' ');
  if (minus) *out = sign + b + fill;
  else if (zero) *out = sign + std::string(fill.size(), '0') + b;
  else *out = fill + sign + b;
  return true;
}
static void Spec(const std::string& s, int kind) {
  std::string body;
  bool ok = Conversion(s, kVal[kind], &body);
  Expect(kind, "<%" + s + ">", ok, "<" + body + ">");
}
// Free symbols of a conversion; those that end it wrongly stay free.
static std::string Symbols(int n) {
  std::string s = Free("c", n);
  for (auto& ch : s) {
    unsigned char c = ch;
    sym_assume((c != '%') & ((c < '4') | (c > '9')) & (c != '"') & (c != '\\'));
    // an f ends it, and what follows isn't part of it
    sym_assume(c != 'f');
  }
  return s;
}
ENTRY C25_one() { int k = sym_choose("kind", 4); Spec(Symbols(1) + "f", k); }
ENTRY C25_two() { Spec(Symbols(2) + "f", 0); }
ENTRY C25_three() { Spec(Symbols(3) + "f", 2); }
ENTRY C25_end() { int k = sym_choose("kind", 4); Spec(std::string(".1") + Symbols(1), k); }
ENTRY C25_none() {  // no number, or two
  int kind = sym_choose("kind", 4), k = sym_choose("text", 7);
  static const char* const t[] = {"", "x", "%%", "%f%f", "%.1f and %d", "%1$f is %1$.1f", "%2$f"};
  std::string v = std::to_string((int)kVal[kind]) + (kind == 0 ? ".5" : ".0");
  Expect(kind, t[k], k == 5, v + "00000 is " + v);
}
// Doubled percent signs, any number of them, each stand for one.
ENTRY C25_percents() {
  int kind = sym_choose("kind", 4), a = sym_choose("before", 4), b = sym_choose("after", 4);
  std::string mid = Free("m", 1), f = mid, t = mid;
  sym_assume((mid[0] != '%') & (mid[0] != 0));
  for (int i = 0; i < a; i++) { f += "%%"; t += "%"; }
  f += "%.1f";
  t += kind == 3 ? "90.0" : kind == 0 ? "2.5" : kind == 1 ? "2.0" : "4.0";
  for (int i = 0; i < b; i++) { f += "%%"; t += "%"; }
  Expect(kind, f, true, t);
}
