// Which model files are taken: every line in one of the known forms, three corners to a facet.
#include "h.h"
static bool Sp(const std::string& s, size_t* p, bool some) {
  size_t b = *p;
  while (*p < s.size() && s[*p] == ' ') ++*p;
  return !some || *p > b;
}
static bool Word(const std::string& s, size_t* p, const char* w) {
  size_t n = strlen(w);
  for (size_t i = 0; i < n; i++) if (*p + i >= s.size() || s[*p + i] != w[i]) return false;
  *p += n;
  return true;
}
static bool Dig(const std::string& s, size_t p) { return p < s.size() && s[p] >= '0' && s[p] <= '9'; }
// [-] digits with an optional point, optional exponent (small ones only here)
static bool Number(const std::string& s, size_t* p, bool* zero) {
  size_t i = *p;
  bool any = false, nz = false;
  if (i < s.size() && s[i] == '-') i++;
  while (Dig(s, i)) { any = true; nz |= s[i] != '0'; i++; }
  if (i < s.size() && s[i] == '.') { i++; while (Dig(s, i)) { any = true; nz |= s[i] != '0'; i++; } }
  if (!any) return false;
  if (i < s.size() && s[i] == 'e') {
    size_t j = i + 1;
    if (j < s.size() && s[j] == '-') j++;
    if (!Dig(s, j)) return false;
    while (Dig(s, j)) j++;
    i = j;
  }
  *zero = !nz;
  *p = i;
  return true;
}
enum Kind { NAME, LOOP, FACET, FACET0, END, VERTEX, BAD };
static Kind Line(const std::string& s) {
  size_t p = 0;
  Sp(s, &p, false);
  size_t q = p;
  if (Word(s, &q, "solid") || (q = p, Word(s, &q, "endsolid"))) {
    if (q == s.size() || s[q] == ' ') return NAME;
    return BAD;
  }
  q = p;
  if (Word(s, &q, "outer loop") || (q = p, Word(s, &q, "endloop"))) { Sp(s, &q, false); return q == s.size() ? LOOP : BAD; }
  q = p;
  if (Word(s, &q, "endfacet")) { Sp(s, &q, false); return q == s.size() ? END : BAD; }
  q = p;
  Kind k = BAD;
  if (Word(s, &q, "facet normal")) k = FACET;
  else if (q = p, Word(s, &q, "vertex")) k = VERTEX;
  else return BAD;
  bool zero = true, z;
  for (int i = 0; i < 3; i++) {
    if (!Sp(s, &q, true) || !Number(s, &q, &z)) return BAD;
    zero = zero && z;
  }
  Sp(s, &q, false);
  if (q != s.size()) return BAD;
  return k == FACET && zero ? FACET0 : k;
}
static bool Good(const std::string& f, int* facets) {
  int corners = 0;
  bool normal = false;
  *facets = 0;
  for (size_t b = 0; b < f.size();) {
    size_t e = b;
    while (e < f.size() && f[e] != '\n') e++;
    switch (Line(f.substr(b, e - b))) {
      case BAD: return false;
      case FACET: normal = true; corners = 0; break;
      case FACET0: normal = false; corners = 0; break;
      case VERTEX: corners++; break;
      case END:
        if (normal) {
          if (corners != 3) return false;
          ++*facets;
          corners = 0;
        }
        normal = false;
        break;
      default: break;
    }
    b = e + 1;
  }
  return true;
}
static void Check(const std::string& f) {
  int n;
  bool good = Good(f, &n);
  File("m.stl", f);
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];}}");
  SYM_ASSERT(r.ok == good, "taken iff every line is known and facets have three corners");
  if (!r.ok) { SYM_ASSERT(r.out.empty(), "nothing written"); sym_reach("refused"); }
  else { SYM_ASSERT(r.ps.ok, "well formed"); sym_reach("taken"); }
}
static const char kFull[] = "solid a\nfacet normal 0 0.0 1\n outer loop\nvertex 0 0 0\n vertex 2.5 0 0 \nvertex 0 1e0 -1\nendloop\nendfacet\nendsolid\n";
static unsigned char Ascii(const char* n) { unsigned char c = sym_byte(n); sym_assume(c < 0x80); return c; }
ENTRY C10_insert() {
  std::string s = kFull;
  s.insert(sym_choose("at", s.size() + 1), 1, (char)Ascii("b"));
  Check(s);
}
ENTRY C10_change() {
  std::string s = kFull;
  s[sym_choose("at", s.size())] = (char)Ascii("b");
  Check(s);
}
ENTRY C10_cut() {
  std::string s = kFull;
  int at = sym_choose("at", s.size()), n = sym_choose("n", 12) + 1;
  Check(s.substr(0, at) + (at + n < (int)s.size() ? s.substr(at + n) : ""));
}
// Any number of corners, with and without a normal, in two facets.
ENTRY C10_corners() {
  std::string s = "solid\n";
  for (int f = 0; f < 2; f++) {
    int n = sym_choose("n", 7), zero = sym_choose("zero", 2), head = sym_choose("head", 2);
    if (head) s += zero ? "facet normal 0 0 -0.0\n" : "facet normal 0 0 1\n";
    s += "outer loop\n";
    static const char* const v[] = {"0 0 0", "2 0 0", "0 1 0", "1 1 0", "1 2 0", "2 2 0"};
    for (int i = 0; i < n; i++) s += std::string("vertex ") + v[i] + "\n";
    s += "endloop\nendfacet\n";
  }
  Check(s + "endsolid\n");
}
// Coordinates spelled with symbolic characters.
static void Spell(int n) {
  std::string w;
  for (int i = 0; i < n; i++) {
    char nm[3] = {'c', (char)('0' + i), 0};
    unsigned char c = sym_byte(nm);
    int in = 0;
    for (const char* k = "019.-e+ "; *k; k++) in |= c == (unsigned char)*k;
    sym_assume(in);
    w += (char)c;
  }
  static const char* const pre[] = {"facet normal 0 0 1\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 ", "facet normal 0 0 "};
  static const char* const post[] = {" 0\nendfacet\n", "\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendfacet\n"};
  int c = sym_choose("ctx", 2);
  Check(std::string("solid\n") + pre[c] + w + post[c]);
}
ENTRY C10_three() { Spell(3); }
ENTRY C10_four() { Spell(4); }
// Each coordinate is the number written, to the full precision of a double.
ENTRY C10_value() {
  static const char* const base[] = {"0", "65536", "-1048576", "123456", "-33554432"};
  static const char dig[] = {'0', '3', '9'};
  char d[4];
  for (int i = 0; i < 4; i++) {
    char nm[3] = {'d', (char)('0' + i), 0};
    unsigned char c = sym_byte(nm);
    sym_assume((c == '0') | (c == '3') | (c == '9'));
    for (char k : dig) if (c == (unsigned char)k) d[i] = k;
  }
  int b = sym_choose("base", 5), form = sym_choose("form", 5);
  std::string w;   // the width, in one of its spellings
  double v = (d[0] - '0') * 10 + (d[1] - '0') + (d[2] - '0') / 10. + (d[3] - '0') / 100.;
  sym_assume(v > 0);
  std::string from = base[b], to;
  if (b) {
    // base + width, added as decimals
    long h = atol(base[b]) * 100 + lround(v * 100);
    char t[32];
    snprintf(t, sizeof t, "%s%ld.%02ld", h < 0 ? "-" : "", labs(h) / 100, labs(h) % 100);
    to = t;
    if (form == 1) to += "00000";
    if (form == 2) to += "e0";
    if (form == 3) to += "e-0";
    if (form == 4) to += "0e00";
  } else {
    std::string all(d, 4);
    if (form == 0) to = all.substr(0, 2) + "." + all.substr(2);
    if (form == 1) to = all + "e-2";
    if (form == 2) to = "." + all + "e2";
    if (form == 3) to = "0.0" + all + "e3";
    if (form == 4) to = all.substr(0, 3) + "." + all.substr(3) + "000e-1";
  }
  bool tall = sym_choose("tall", 2);
  auto V = [&](std::string x, std::string y) { return "vertex " + (tall ? y + " " + x : x + " " + y) + " 0\n"; };
  File("m.stl", "solid\nfacet normal 0 0 1\nouter loop\n" + V(from, "0") + V(to, "0") + V(from, "1") + "endloop\nendfacet\n");
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];scale=1:10;}}");
  SYM_ASSERT(r.ok && r.ps.ok, "taken");
  if (!r.ok || !r.ps.ok) return;
  double lo = 1e9, hi = -1e9;
  int n = 0;
  for (auto& i : r.ps.items) {
    if (i.kind != 'l' || n++ >= 3) continue;
    for (int k = tall; k < 4; k += 2) { if (i.x[k] < lo) lo = i.x[k]; if (i.x[k] > hi) hi = i.x[k]; }
  }
  sym_assert_near(lo, (tall ? 306 : 396) - v * 3.6, 2e-2, "from here");
  sym_assert_near(hi, (tall ? 306 : 396) + v * 3.6, 2e-2, "to here");
  sym_reach("read");
}
// Long files and lines.
ENTRY C10_long() {
  int n = Size("size", 4097);
  std::string s = kFull, pad;
  switch (sym_choose("what", 5)) {
    case 0: s = "solid " + LongText("c", n, "\n") + "\n" + s; sym_assume(((unsigned char)s[5 + n] < 0x80) & ((unsigned char)s[n - 1] < 0x80)); break;
    case 1: s = std::string(n, ' ') + s; break;
    case 2: s.insert(s.find("normal ") + 7, n, ' '); break;
    case 3: s.insert(s.find("2.5") + 3, n < 190 ? n : 190, '0'); break;  // RE2 takes numbers of up to 200 characters
    default: for (int i = 0; i < n / 100; i++) pad += s; s = pad + s; break;
  }
  int at = s.size() - 1 - sym_choose("at", 24);
  s[at] = (char)Ascii("b");
  Check(s);
}
