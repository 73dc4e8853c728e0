// error() reports file, span and message exactly, for every span and message.
#include "h.h"
#include "stl-to-ps/parser_support.h"
// Reads "<pre><integer>" at pos and checks the integer.
static bool Lit(const std::string& s, size_t* p, const std::string& lit) {
  if (s.compare(*p, lit.size(), lit) != 0) return false;
  *p += lit.size();
  return true;
}
static bool Int(const std::string& s, size_t* p, int want) {
  size_t b = *p;
  while (*p < s.size() && (s[*p] == '-' || (s[*p] >= '0' && s[*p] <= '9') || (unsigned char)s[*p] >= 0x80)) ++*p;
  if (*p == b) return false;
  return sym_parse_int(s.data() + b, *p - b) == want;
}
static void Check(const std::string* fn, int bl, int bc, int el, int ec, const std::string& msg) {
  sym_stderr_reset();
  stl2ps::error(fn, bl, bc, el, ec, msg);
  size_t n, p = 0;
  const char* e = sym_stderr(&n);
  std::string got(e, n);
  std::string f = fn ? fn->c_str() : "??";
  SYM_ASSERT(Lit(got, &p, "error " + f + ":"), "prefix");
  SYM_ASSERT(Int(got, &p, bl), "begin line");
  if (bl == el) {
    sym_reach("one line");
    SYM_ASSERT(Lit(got, &p, ":["), "same line form");
    SYM_ASSERT(Int(got, &p, bc), "begin column");
    SYM_ASSERT(Lit(got, &p, ","), "same line separator");
    SYM_ASSERT(Int(got, &p, ec), "end column");
    SYM_ASSERT(Lit(got, &p, "]: "), "same line close");
  } else {
    sym_reach("many lines");
    SYM_ASSERT(Lit(got, &p, ":"), "range form");
    SYM_ASSERT(Int(got, &p, bc), "begin column");
    SYM_ASSERT(Lit(got, &p, " to "), "range separator");
    SYM_ASSERT(Int(got, &p, el), "end line");
    SYM_ASSERT(Lit(got, &p, ":"), "range end");
    SYM_ASSERT(Int(got, &p, ec), "end column");
    SYM_ASSERT(Lit(got, &p, ": "), "range close");
  }
  SYM_ASSERT(Lit(got, &p, msg + "\n"), "message");
  SYM_ASSERT(p == got.size(), "nothing after the message");
}
ENTRY C01_spans() {
  int bl = sym_int("bl", -2147483647 - 1, 2147483647), bc = sym_int("bc", -2147483647 - 1, 2147483647);
  int el = sym_int("el", -2147483647 - 1, 2147483647), ec = sym_int("ec", -2147483647 - 1, 2147483647);
  std::string f = "a.txt";
  Check(sym_choose("fn", 2) ? &f : nullptr, bl, bc, el, ec, "m");
}
ENTRY C01_text() {
  int nf = sym_choose("nf", 4), nm = sym_choose("nm", 5);
  std::string f, m;
  char b[8] = "f0";
  for (int i = 0; i < nf; i++) { b[0] = 'f'; b[1] = '0' + i; int c = sym_byte(b); sym_assume(c != 0); f += (char)c; }
  for (int i = 0; i < nm; i++) { b[0] = 'm'; b[1] = '0' + i; int c = sym_byte(b); sym_assume(c != 0); m += (char)c; }
  int el = sym_choose("el", 2);
  Check(sym_choose("fn", 2) ? &f : nullptr, 0, 3, el, 7, m);
}
ENTRY C01_long() {
  int which = sym_choose("which", 2);
  std::string t = LongText("t", Size("size"));
  sym_assume((t[t.size() - 1] != 0) & (t[t.size() - 7] != 0));
  std::string f = which ? "f" : t, m = which ? t : "m";
  Check(&f, 4, 3, sym_choose("el", 2) ? 4 : 5, 7, m);
}
