// A script is taken exactly when it is in the grammar; nothing else happens on other input.
#include "h.h"
#include "stl-to-ps/ast.h"
#include "stl-to-ps/parser.h"
// Reference: tokens by longest match, then a hand-written parser.
struct Ref {
  const std::string& s;
  size_t p = 0;
  int tok = 0;  // 0 end, -1 bad, else a character or one of these
  enum { ID = 256, NUM, STR, LOAD, PAGE, DRAW, TEXT, DIMK };
  double num = 0;
  explicit Ref(const std::string& t) : s(t) { next(); }
  static bool dig(int c) { return c >= '0' && c <= '9'; }
  static bool alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
  int at(size_t i) const { return i < s.size() ? (unsigned char)s[i] : -1; }
  void next() {
    for (;;) {
      int c = at(p);
      if (c == ' ' || c == '\t' || c == '\n' || c == '\r') p++;
      else if (c == '/' && at(p + 1) == '/') { while (p < s.size() && s[p] != '\n') p++; }
      else break;
    }
    int c = at(p);
    tok = -1;
    if (c < 0) { tok = 0; return; }
    switch (c) {
      case '{': case '}': case '[': case ']': case '(': case ')': case '=': case ';': case ':': case ',': case '@': p++; tok = c; return;
    }
    if (alpha(c)) {
      size_t b = p;
      while (alpha(at(p)) || dig(at(p))) p++;
      std::string w = s.substr(b, p - b);
      tok = ID;
      if (w == "load") tok = LOAD;
      if (w == "page") tok = PAGE;
      if (w == "draw") tok = DRAW;
      if (w == "text") tok = TEXT;
      if (w == "dim" || w == "dia" || w == "rad" || w == "angle") tok = DIMK;
      return;
    }
    if (c == '"') {
      size_t i = p + 1;
      for (;; i++) {
        int d = at(i);
        if (d < 0 || d == '\n') return;
        if (d == '"') break;
        if (d == '\\') {
          d = at(++i);
          if (d != '\'' && d != '"' && d != '?' && d != '\\' && d != 'n') return;
        }
      }
      p = i + 1;
      tok = STR;
      return;
    }
    size_t i = p;
    double sg = 1;
    if (at(i) == '-') sg = -1;
    if (at(i) == '-' || at(i) == '+') i++;
    double v = 0, k = 1;
    if (dig(at(i))) {
      while (dig(at(i))) v = v * 10 + (at(i++) - '0');
      if (at(i) == '.') { i++; while (dig(at(i))) { k /= 10; v += k * (at(i++) - '0'); } }
    } else if (at(i) == '.' && dig(at(i + 1))) {
      i++;
      while (dig(at(i))) { k /= 10; v += k * (at(i++) - '0'); }
    } else return;
    num = sg * v;
    p = i;
    tok = NUM;
  }
  bool eat(int t) { if (tok != t) return false; next(); return true; }
  bool scale_part() {
    if (tok != NUM) return false;
    double v = num;
    next();
    return v >= 1 && v == std::floor(v);
  }
  // after '[': 2 or 3 numbers
  int nums() {
    int n = 0;
    do { if (!eat(NUM)) return 0; n++; } while (n < 3 && eat(','));
    return eat(']') ? n : 0;
  }
  bool point() {
    if (eat('[')) return nums() == 3;
    return eat(ID) && eat('(') && point() && eat(')');
  }
  bool arg() {
    if (eat('@')) return eat('[') && nums() == 2;
    if (!eat(ID) || !eat('=')) return false;
    if (tok == STR) { while (eat(STR)) {} return true; }
    if (tok == '[') { next(); return nums() >= 2; }
    if (tok == ID) return point();
    if (tok != NUM) return false;
    double v = num;
    next();
    if (!eat(':')) return true;
    if (tok != NUM) return false;
    double w = num;
    // the token after the ratio is read before the ratio is judged
    next();
    return v >= 1 && v == std::floor(v) && w >= 1 && w == std::floor(w);
  }
  bool args_until_brace() {
    while (tok != '}') { if (!arg() || !eat(';')) return false; }
    next();
    return true;
  }
  bool draw() {
    while (tok != '}') {
      if (eat(DIMK)) {
        if (!eat('(')) return false;
        if (!eat(')')) {
          do { if (!arg()) return false; } while (eat(','));
          if (!eat(')')) return false;
        }
        if (!eat(';')) return false;
      } else if (!arg() || !eat(';')) return false;
    }
    next();
    return true;
  }
  bool page() {
    if (!eat('{')) return false;
    while (tok != '}') {
      if (eat(DRAW)) { if (!eat(ID) || !eat('{') || !draw()) return false; }
      else if (eat(TEXT)) {
        if (!eat('[') || tok != STR) return false;
        while (eat(STR)) {}
        if (!eat(']') || !eat('{') || !args_until_brace()) return false;
      } else if (!arg() || !eat(';')) return false;
    }
    next();
    return true;
  }
  bool script() {
    while (tok != 0) {
      if (eat(LOAD)) { if (!eat(ID) || !eat('=') || !eat(STR) || !eat(';')) return false; }
      else if (eat(PAGE)) { if (!page()) return false; }
      else return false;
    }
    return true;
  }
};
static void Check(const std::string& s) {
  bool ok = false, good = Ref(s).script();
  sym_stderr_reset();
  {
    stl2ps::Document doc;
    ok = stl2ps::Parse("in.txt", s, &doc) == 0;
  }
  SYM_ASSERT(ok == good, "taken iff in the grammar");
  size_t n;
  sym_stderr(&n);
  if (!ok) { SYM_ASSERT(n > 0, "a refusal is explained"); sym_reach("refused"); }
  else sym_reach("taken");
}
static const char kFull[] =
    "load m=\"m\";page{a=1;draw m{b=[1,-2];dim(c=[.1,2.,3],d=f([4,5,6]));v=2:1;}//\ntext[\"t\"]{@[1,2];}}";
static std::string Full() { return kFull; }
// One byte put in, changed or taken out anywhere in a script that has everything.
ENTRY C06_insert() {
  std::string s = Full();
  int at = sym_choose("at", s.size() + 1);
  s.insert(at, 1, (char)sym_byte("b"));
  Check(s);
}
ENTRY C06_change() {
  std::string s = Full();
  int at = sym_choose("at", s.size());
  s[at] = (char)sym_byte("b");
  Check(s);
}
ENTRY C06_cut() {
  std::string s = Full();
  int at = sym_choose("at", s.size()), n = sym_choose("n", 12) + 1;
  Check(s.substr(0, at) + (at + n < (int)s.size() ? s.substr(at + n) : ""));
}
ENTRY C06_end() {
  std::string s = Full();
  Check(s.substr(0, sym_choose("at", s.size() + 1)));
}
ENTRY C06_two() {
  std::string s = Full();
  int at = sym_choose("at", s.size());
  s[at] = (char)sym_byte("b");
  s.insert(at, 1, (char)sym_byte("c"));
  Check(s);
}
// Several symbols at the places where parts may follow one another.
static const char kSet[] = "{}[]()=;:,@1a\"";
static std::string Syms(int n) {
  std::string r;
  for (int i = 0; i < n; i++) {
    char nm[3] = {'s', (char)('0' + i), 0};
    unsigned char c = sym_byte(nm);
    int in = 0;
    for (const char* k = kSet; *k; k++) in |= c == (unsigned char)*k;
    sym_assume(in);
    r += (char)c;
  }
  return r;
}
static void Context(int k) {
  static const char* const pre[] = {"page{}", "page{", "page{draw m{", "page{draw m{rad(", "page{x=", "page{text[", "page{draw m{dia(p=", "load ", "page{text[\"a\"]{", "page{draw m{dim("};
  static const char* const post[] = {"page{}", "}", "}}", ");}}", ";}", "]{}}", ");}}", ";", "}}", ",b=1);}}"};
  int c = sym_choose("ctx", 10);
  Check(pre[c] + Syms(k) + post[c]);
}
ENTRY C06_three() { Context(3); }
ENTRY C06_five() { Context(5); }
ENTRY C06_seven() { Context(7); }
// Places where only one thing is allowed, spelled with arbitrary bytes.
ENTRY C06_words() {
  int n = sym_choose("n", 4);
  std::string w;
  for (int i = 0; i < n; i++) { char nm[3] = {'w', (char)('0' + i), 0}; w += (char)sym_byte(nm); }
  static const char* const pre[] = {"", "page{draw m{", "page{"};
  static const char* const post[] = {"{}", "();}}", " m{}}"};
  int c = sym_choose("ctx", 3);
  Check(pre[c] + w + post[c]);
}
// Long scripts: what is wrong near the end counts as near the beginning.
ENTRY C06_long() {
  int n = Size("size");
  std::string s;
  switch (sym_choose("of", 4)) {
    case 0: while ((int)s.size() < n) s += "page{}\n"; break;
    case 1: s = "page{"; while ((int)s.size() < n) s += "a=[1,2];"; s += "}"; break;
    case 2: s = "load abc" + std::string(n, 'd') + "=\"m\";"; break;
    default: s = "page{a=" + std::string(n, '0') + "1;}";
  }
  s += kFull;
  int at = s.size() - (sym_choose("at", 2) ? 2 : 14);
  s[at] = (char)sym_byte("b");
  Check(s);
}
// Deeply nested points.
ENTRY C06_deep() {
  int n = sym_choose("n", 40) * 3, m = n + sym_choose("more", 3) - 1;
  std::string s = "page{a=";
  for (int i = 0; i < n; i++) s += "f(";
  s += "[1,2,3]";
  for (int i = 0; i < m; i++) s += ")";
  Check(s + ";}");
}
