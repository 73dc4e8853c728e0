// The document around the drawings: header, page frames, footers.
#include "h.h"
#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
ABSL_DECLARE_FLAG(std::string, name);
ABSL_DECLARE_FLAG(bool, timestamp);
ABSL_DECLARE_FLAG(bool, number_pages);
static std::string Bytes(const char* p, int n) {
  std::string s;
  for (int i = 0; i < n; i++) {
    std::string nm = std::string(p) + (char)('0' + i);
    s += (char)sym_byte(nm.c_str());
  }
  return s;
}
static const char* const kTail = R"(
%
% File Header %%%%%%
/FontSize { 8 } def  % a hack to allow reusing the font size

/CenterText {
  dup stringwidth
  pop     % throw away the "height"
  -2 div  % half and negate

  currentfont begin FontBBox end  % - y_min - y_max
  4 1 roll pop pop pop 2 div      % midline in "units"
  -1600 div FontSize mul          % convert to em

  rmoveto % offset by that
} def

/Courier findfont
FontSize scalefont setfont
)";
// s is `want` with line breaks made harmless
static bool Shown(const std::string& s, const std::string& want) {
  if (s.size() != want.size()) return false;
  for (size_t i = 0; i < s.size(); i++) {
    char c = want[i];
    bool brk = (c == '\n') | (c == '\r') | (c == '\f'), sbrk = (s[i] == '\n') | (s[i] == '\r') | (s[i] == '\f');
    if (brk ? sbrk : s[i] != c) return false;
  }
  return true;
}
static void Header(const std::string& out, const std::string& name, const std::string& src) {
  std::string a = "% generated by stl-to-ps\n% Name: ", b = "\n% Source: ", c = "\n% Time: ";
  SYM_ASSERT(out.compare(0, a.size(), a) == 0, "header begins");
  size_t p = a.size();
  SYM_ASSERT(Shown(out.substr(p, name.size()), name), "name in its comment");
  p += name.size();
  SYM_ASSERT(out.compare(p, b.size(), b) == 0, "source line");
  p += b.size();
  SYM_ASSERT(Shown(out.substr(p, src.size()), src), "source in its comment");
  p += src.size();
  SYM_ASSERT(out.compare(p, c.size(), c) == 0, "time line");
  p += c.size();
  size_t e = out.find('\n', p);
  SYM_ASSERT(e != std::string::npos && e - p < 40, "time");
  if (e == std::string::npos) return;
  SYM_ASSERT(out.compare(e, strlen(kTail), kTail) == 0, "definitions");
  sym_reach("header");
}
ENTRY C23_name() {
  std::string n = Bytes("n", sym_choose("len", 5));
  absl::SetFlag(&FLAGS_name, n);
  auto r = Run("page{}", "a.txt");
  SYM_ASSERT(r.ok, "accepted");
  if (r.ok) Header(r.out, n, "a.txt");
}
ENTRY C23_source() {
  std::string n = Bytes("n", sym_choose("len", 5));
  auto r = Run("page{}", n.c_str());
  std::string seen = n.c_str();
  SYM_ASSERT(r.ok, "accepted");
  if (r.ok) Header(r.out, "", seen);
}
static bool Stamp(const std::string& s) {  // dddd-dd-dd dd:dd:dd
  static const char f[] = "dddd-dd-dd dd:dd:dd";
  if (s.size() != 19) return false;
  for (int i = 0; i < 19; i++) if (f[i] == 'd' ? !(s[i] >= '0' && s[i] <= '9') : s[i] != f[i]) return false;
  return true;
}
static void Page(const PsDoc& d, int k, int of, bool stamp, bool num, const std::string& title) {
  int frames = 0, at = 0, n = 0;
  for (auto& i : d.items) {
    if (i.page != k) continue;
    if (i.kind == 'b') {
      frames++;
      SYM_ASSERT(i.s == "newpath 5 5 moveto 5 607 lineto 787 607 lineto 787 5 lineto 5 5 lineto stroke", "the frame");
    }
  }
  SYM_ASSERT(frames == 1, "one frame");
  std::string want = num ? "page " + std::to_string(k) + " of " + std::to_string(of) : "";
  if (stamp || num) {
    const PsItem* t = d.nth('t', 0, k);
    SYM_ASSERT(t, "footer");
    if (!t) return;
    at = 1;
    SYM_ASSERT(t->x[0] == 7 && t->x[1] == 7, "footer's place");
    std::string s = t->s;
    if (stamp) {
      SYM_ASSERT(s.size() >= 19 && Stamp(s.substr(0, 19)), "time of the footer");
      if (s.size() < 19) return;
      s = s.substr(19);
      if (num) { SYM_ASSERT(!s.empty() && s[0] == ' ', "blank between"); if (!s.empty()) s = s.substr(1); }
    }
    SYM_ASSERT(s == want, "page number");
  }
  n = d.count('t', k);
  SYM_ASSERT(n == at + 1, "footer and title");
  const PsItem* t = d.nth('t', at, k);
  if (!t) return;
  SYM_ASSERT(PsUnescape(t->s) == title, "title");
  double left = 784 - title.size() * 4.8;
  sym_assert_near(t->x[0], left, 5e-3, "title's place");
  sym_assert_near(t->x[1], 8, 5e-3, "title's height");
  std::vector<std::vector<double>> w;
  AddTitleBox(&w, title.size());
  SameLines(d, k, w, 5e-3, "title's box");
  SYM_ASSERT(d.count('a', k) == 0 && d.count('c', k) == 0, "nothing else");
  sym_reach("page");
}
ENTRY C23_pages() {
  int n = sym_choose("pages", 13);
  bool stamp = sym_choose("stamp", 2), num = sym_choose("num", 2);
  absl::SetFlag(&FLAGS_timestamp, stamp);
  absl::SetFlag(&FLAGS_number_pages, num);
  std::string s;
  std::vector<std::string> names;
  for (int i = 0; i < n; i++) {
    names.push_back(std::string(i % 4 * 7, 'a' + i));
    s += i % 4 ? "page{name=\"" + names.back() + "\";}" : "page{}";
  }
  auto r = Run(s);
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  SYM_ASSERT(r.ps.pages == n && r.ps.shows == n && (int)r.ps.labels.size() == n, "number of pages");
  for (int i = 0; i < n && i < (int)r.ps.labels.size(); i++) {
    SYM_ASSERT(r.ps.labels[i].first == i + 1 && r.ps.labels[i].second == n, "pages numbered in order");
    Page(r.ps, i + 1, n, stamp, num, names[i]);
  }
  Header(r.out, "", "in.txt");
}
// Page names of any bytes.
ENTRY C23_title() {
  int n = sym_choose("len", 5);
  std::string t = Bytes("t", n), lit;
  for (char c : t) {
    if (c == '\n') lit += "\\n";
    else if ((c == '"') | (c == '\\')) { lit += '\\'; lit += c; }
    else lit += c;
  }
  auto r = Run("page{name=\"" + lit + "\";}page{}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  Page(r.ps, 1, 2, true, true, t);
  Page(r.ps, 2, 2, true, true, "");
}
ENTRY C23_long() {
  std::string t = LongText("t", Size("size", 4097), "\n\\\"");
  int what = sym_choose("what", 3);
  if (what == 0) {
    absl::SetFlag(&FLAGS_name, t);
    auto r = Run("page{}", "a.txt");
    SYM_ASSERT(r.ok, "accepted");
    if (r.ok) Header(r.out, t, "a.txt");
  } else if (what == 1) {
    sym_assume((t[t.size() - 1] != 0) & (t[t.size() - 7] != 0));
    auto r = Run("page{}", t.c_str());
    SYM_ASSERT(r.ok, "accepted");
    if (r.ok) Header(r.out, "", t);
  } else {
    auto r = Run("page{name=\"" + t + "\";}page{}");
    SYM_ASSERT(r.ok && r.ps.ok, "accepted");
    if (!r.ok) return;
    Page(r.ps, 1, 2, true, true, t);
    Page(r.ps, 2, 2, true, true, "");
  }
}
ENTRY C23_many() {
  static const int k[] = {99, 100, 128, 257, 300};
  int n = k[sym_choose("pages", 5)];
  std::string s;
  for (int i = 0; i < n; i++) s += "page{}";
  auto r = Run(s);
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  SYM_ASSERT(r.ps.pages == n && r.ps.shows == n && (int)r.ps.labels.size() == n, "number of pages");
  for (int i = 0; i < n && i < (int)r.ps.labels.size(); i++) SYM_ASSERT(r.ps.labels[i].first == i + 1 && r.ps.labels[i].second == n, "pages numbered in order");
  Page(r.ps, n, n, true, true, "");
}
