// Whatever a text holds, the written PostScript string literal reads back as that text.
#include "h.h"
#include "stl-to-ps/ps.h"
// Reads "<a> <b> moveto (<string>)<tail>" with PostScript's string rules.
static bool ReadShow(const std::string& s, size_t* p, std::string* str, std::string* tail) {
  size_t i = s.find('(', *p);
  if (i == std::string::npos) return false;
  i++;
  int depth = 1;
  std::string body;
  while (i < s.size()) {
    char c = s[i];
    if (c == '\\') { body += c; if (i + 1 < s.size()) body += s[i + 1]; i += 2; continue; }
    if (c == '(') depth++;
    if (c == ')' && --depth == 0) break;
    body += c;
    i++;
  }
  if (i >= s.size()) return false;
  *str = PsUnescape(body);
  size_t e = s.find('\n', i);
  if (e == std::string::npos) return false;
  *tail = s.substr(i + 1, e - i - 1);
  *p = e + 1;
  return true;
}
static ps::Text Mk(const char* nm, int n, bool center) {
  ps::Text t;
  for (int i = 0; i < n; i++) { char b[8] = {nm[0], (char)('0' + i), 0}; t.str += (char)sym_byte(b); }
  t.at.x() = 10;
  t.at.y() = 20;
  t.center = center;
  return t;
}
static void Check(const std::vector<ps::Text>& ts) {
  std::ostringstream o;
  ps::TextToPs(ts, o);
  std::string s = o.str();
  size_t p = 0;
  for (auto& t : ts) {
    std::string got, tail;
    SYM_ASSERT(s.compare(p, 28, "newpath 10 20 moveto (") == 0 || StartsWith(s.substr(p), "newpath 10 20 moveto ("), "command");
    bool ok = ReadShow(s, &p, &got, &tail);
    SYM_ASSERT(ok, "balanced");
    if (!ok) return;
    SYM_ASSERT(got == t.str, "same text");
    SYM_ASSERT(tail == (t.center ? " CenterText show" : " show"), "operator");
  }
  SYM_ASSERT(p == s.size(), "nothing else");
}
ENTRY C03_one() { Check({Mk("a", sym_choose("n", 5), sym_choose("c", 2))}); }
ENTRY C03_two() { Check({Mk("a", 2, sym_choose("ca", 2)), Mk("b", 2, sym_choose("cb", 2))}); }
ENTRY C03_long() {
  ps::Text t;
  t.str = LongText("t", Size("size"));
  t.at.x() = 10;
  t.at.y() = 20;
  t.center = sym_choose("c", 2);
  Check({t, t});
}
