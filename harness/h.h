// Shared harness helpers: building scripts and STL text, reading the PostScript back.
#ifndef VERIF_H_H_
#define VERIF_H_H_
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "sym.h"
#include "stl-to-ps/stl-to-ps.h"
#define ENTRY extern "C" void

static std::string N(double v) {
  char b[64];
  size_t n = sym_num_text(v, b);
  return std::string(b, n);
}
static inline std::string P2(double x, double y) { return "[" + N(x) + "," + N(y) + "]"; }
static inline std::string P3(double x, double y, double z) { return "[" + N(x) + "," + N(y) + "," + N(z) + "]"; }

struct Tri { double v[3][3]; double n[3]; };
static std::string StlText(const std::vector<Tri>& ts) {
  std::string s = "solid m\n";
  for (const auto& t : ts) {
    s += "facet normal " + N(t.n[0]) + " " + N(t.n[1]) + " " + N(t.n[2]) + "\nouter loop\n";
    for (int i = 0; i < 3; i++) s += "vertex " + N(t.v[i][0]) + " " + N(t.v[i][1]) + " " + N(t.v[i][2]) + "\n";
    s += "endloop\nendfacet\n";
  }
  return s + "endsolid m\n";
}
// Lengths around which buffers end.
static const int kSizes[] = {12, 15, 16, 31, 32, 33, 60, 63, 64, 65, 79, 80, 100, 120, 127, 128, 129, 160, 200, 250, 255, 256, 257, 300, 400, 500, 511,
                             512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4000, 4095, 4096, 4097, 6000, 8191, 8192, 8193,
                             10000, 16383, 16384, 16385, 20000};
static int Size(const char* name, int most = 20000) {
  int n = 0;
  while (n < (int)(sizeof kSizes / sizeof *kSizes) && kSizes[n] <= most) n++;
  return kSizes[sym_choose(name, n)];
}
// n bytes, the last of which (and one before it) can be anything that is not in `never`.
static std::string LongText(const char* name, int n, const char* never = "") {
  std::string s;
  for (int i = 0; i < n; i++) s += (char)('a' + i % 23);
  unsigned char c = sym_byte(name), d = sym_byte((std::string(name) + "2").c_str());
  for (const char* k = never; *k; k++) sym_assume((c != (unsigned char)*k) & (d != (unsigned char)*k));
  if (n > 8) s[n - 7] = (char)d;
  s[n - 1] = (char)c;
  return s;
}
static void File(const char* name, const std::string& s) { sym_file(name, s.data(), s.size()); }

// ---- PostScript reader
struct PsItem {
  char kind;  // 'l'ine, 'a'rc, 't'ext, 'c'entered text, 'b'order
  double x[5];
  std::string s;   // text as written (escapes kept)
  int page;
};
struct PsDoc {
  bool ok = true;          // every line inside pages understood
  std::string header, bad;
  int pages = 0, shows = 0;
  std::vector<std::pair<int, int>> labels;  // "page $0 of $1"
  std::vector<PsItem> items;
  int count(char k, int page = 0) const {
    int n = 0;
    for (auto& i : items) if (i.kind == k && (!page || i.page == page)) n++;
    return n;
  }
  const PsItem* nth(char k, int idx, int page = 0) const {
    for (auto& i : items) if (i.kind == k && (!page || i.page == page) && idx-- == 0) return &i;
    return nullptr;
  }
};
// The drawing of a page as a set: every expected line (x0 y0 x1 y1, either way round) is one of the
// drawn ones and there are no others.
static void SameLines(const PsDoc& d, int page, const std::vector<std::vector<double>>& want, double tol, const char* label) {
  std::vector<const PsItem*> got;
  for (auto& i : d.items) if (i.kind == 'l' && i.page == page) got.push_back(&i);
  SYM_ASSERT(got.size() == want.size(), "number of lines");
  if (got.size() != want.size()) return;
  std::vector<char> used(got.size(), 0);
  for (auto& w : want) {
    std::vector<double> c;
    std::vector<size_t> idx;
    for (size_t k = 0; k < got.size(); k++) {
      if (used[k]) continue;
      const double* g = got[k]->x;
      double v[8] = {g[0], g[1], g[2], g[3], g[2], g[3], g[0], g[1]};
      c.insert(c.end(), v, v + 8);
      idx.push_back(k);
    }
    int m = sym_match(w.data(), c.data(), 4, idx.size() * 2, tol);
    if (m >= 0) used[idx[m / 2]] = 1;
    else sym_assert_some(w.data(), c.data(), 4, idx.size() * 2, tol, label);
  }
}
// Box around the page's title, always the last thing on a page with an empty name.
static void AddTitleBox(std::vector<std::vector<double>>* w, size_t name_len = 0) {
  double at = (float)(784 - name_len * 8 * 0.6) - 3;
  w->push_back({at, 5, at, 16});
  w->push_back({at, 16, 787, 16});
}
static bool StartsWith(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static std::vector<std::string> Words(const std::string& s) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && s[i] == ' ') i++;
    size_t b = i;
    while (i < s.size() && s[i] != ' ') i++;
    if (i > b) r.push_back(s.substr(b, i - b));
  }
  return r;
}
static double Num(const std::string& w) { return sym_parse(w.data(), w.size()); }
// Reads a page's drawing commands. Strings may contain anything (newlines included).
static PsDoc ReadPs(const std::string& out) {
  PsDoc d;
  const char* endh = "% End File Header %%%%%%\n";
  size_t p = out.find(endh);
  if (p == std::string::npos) { d.ok = false; d.bad = "no header"; return d; }
  p += strlen(endh);
  d.header = out.substr(0, p);
  bool in_page = false;
  while (p < out.size()) {
    // A drawing command with a string is read with PostScript's own rules.
    size_t q = p;
    std::string line;
    int depth = 0;
    bool comment = false;
    while (q < out.size()) {
      char c = out[q];
      if (depth == 0 && c == '\n') break;
      if (depth == 0 && c == '%') comment = true;
      if (!comment) {
        if (depth > 0 && c == '\\') { line += c; q++; if (q < out.size()) line += out[q++]; continue; }
        if (c == '(') depth++;
        if (c == ')') depth--;
      }
      line += c;
      q++;
    }
    p = q + 1;
    if (depth != 0) { d.ok = false; d.bad = "unbalanced string"; return d; }
    if (line.empty()) continue;
    if (StartsWith(line, "%%%%%%%%% Start of page ")) {
      auto w = Words(line);
      if (in_page) { d.ok = false; d.bad = "nested page"; }
      in_page = true;
      d.pages++;
      if (w.size() == 7 && w[5] == "of") d.labels.push_back({atoi(w[4].c_str()), atoi(w[6].c_str())});
      continue;
    }
    if (line == "<< /PageSize [792 612] >> setpagedevice % letter/landscape") continue;
    if (line == ".1 setlinewidth" || line == "% draw border") continue;
    if (StartsWith(line, "newpath 5 5 moveto 5 607 lineto")) { PsItem it{'b', {}, line, d.pages}; d.items.push_back(it); continue; }
    if (StartsWith(line, "showpage")) { d.shows++; if (!in_page) d.ok = false; in_page = false; continue; }
    if (StartsWith(line, "newpath ")) {
      if (!in_page) { d.ok = false; d.bad = "drawing outside a page"; }
      size_t a = line.find('(');
      PsItem it;
      it.page = d.pages;
      for (int i = 0; i < 5; i++) it.x[i] = 0;
      if (a != std::string::npos) {
        size_t b = line.rfind(')');
        auto w = Words(line.substr(0, a));
        std::string tail = line.substr(b + 1);
        if (w.size() == 4 && w[3] == "moveto" && (tail == " show" || tail == " CenterText show")) {
          it.kind = tail == " show" ? 't' : 'c';
          it.x[0] = Num(w[1]);
          it.x[1] = Num(w[2]);
          it.s = line.substr(a + 1, b - a - 1);
          d.items.push_back(it);
          continue;
        }
      } else {
        auto w = Words(line);
        if (w.size() == 8 && w[3] == "moveto" && w[6] == "lineto" && w[7] == "stroke") {
          it.kind = 'l';
          it.x[0] = Num(w[1]); it.x[1] = Num(w[2]); it.x[2] = Num(w[4]); it.x[3] = Num(w[5]);
          d.items.push_back(it);
          continue;
        }
        if (w.size() == 8 && w[6] == "arc" && w[7] == "stroke") {
          it.kind = 'a';
          for (int i = 0; i < 5; i++) it.x[i] = Num(w[i + 1]);
          d.items.push_back(it);
          continue;
        }
      }
    }
    d.ok = false;
    d.bad = line;
  }
  if (in_page) d.ok = false;
  return d;
}
// Value of a PostScript string literal body (what an interpreter would show).
static std::string PsUnescape(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    // An unescaped end of line, however written, is a newline.
    if (s[i] == '\r') { r += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') i++; continue; }
    if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; }
    char c = s[++i];
    if (c == 'n') r += '\n';
    else if (c == 'r') r += '\r';
    else if (c == 't') r += '\t';
    else if (c == 'b') r += '\b';
    else if (c == 'f') r += '\f';
    else if (c == '\n') {}
    else if (c >= '0' && c <= '7') {
      int v = c - '0', k = 1;
      while (k < 3 && i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '7') { v = v * 8 + (s[++i] - '0'); k++; }
      r += (char)v;
    } else r += c;
  }
  return r;
}
struct Result {
  bool ok;
  std::string out, err;
  PsDoc ps;
};
static Result Run(const std::string& script, const char* src = "in.txt") {
  Result r;
  sym_stderr_reset();
  std::istringstream in(script);
  std::ostringstream out;
  r.ok = stl2ps::ScriptToPS(src, in, out);
  r.out = out.str();
  size_t n;
  const char* e = sym_stderr(&n);
  r.err = std::string(e, n);
  if (r.ok) r.ps = ReadPs(r.out);
  return r;
}
#endif
