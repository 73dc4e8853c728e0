// Every part takes exactly its own properties: each required one, none twice, none of a wrong type, no others.
#include "h.h"
struct P { const char* name; int type; bool need; };  // types: 0 text, 1 point, 2 number, 3 place, 4 ratio
static const char* const kVal[5] = {"\"%.2f\"", "[1,2,0]", "3", "[1,2]", "1:2"};
struct Ctx { const char *pre, *post, *sep, *end; P p[8]; };
static const Ctx kCtx[7] = {
    {"page{", "}", ";", ";", {{"name", 0, 0}}},
    {"page{draw m{", "}}", ";", ";", {{"scale", 4, 0}, {"view", 3, 0}, {"@", 3, 0}}},
    {"page{text[\"t\"]{", "}}", ";", ";", {{"@", 3, 0}}},
    {"page{draw m{dim(", ");}}", ",", "", {{"at", 1, 1}, {"dir", 1, 1}, {"from", 1, 1}, {"to", 1, 1}, {"fmt", 0, 0}}},
    {"page{draw m{dia(", ");}}", ",", "", {{"at", 1, 1}, {"dir", 1, 1}, {"center", 1, 1}, {"fmt", 0, 0}}},
    {"page{draw m{rad(", ");}}", ",", "", {{"at", 1, 1}, {"dir", 1, 1}, {"center", 1, 1}, {"fmt", 0, 0}}},
    {"page{draw m{angle(", ");}}", ",", "", {{"at", 1, 1}, {"apex", 1, 1}, {"from_dir", 1, 0}, {"from_point", 1, 0}, {"to_dir", 1, 0}, {"to_point", 1, 0}, {"fmt", 0, 0}}},
};
static int Count(const Ctx& c) { int n = 0; while (n < 8 && c.p[n].name) n++; return n; }
static void Model() {
  std::vector<Tri> t = {{{{-2, -2, 0}, {2, -2, 0}, {2, 2, 0}}, {0, 0, 1}}, {{{-2, -2, 0}, {2, 2, 0}, {-2, 2, 0}}, {0, 0, 1}}};
  File("m.stl", StlText(t));
}
static std::string Value(const P& p, int type) {
  std::string n = p.name;
  if (type == p.type && type == 1) {
    if (n == "to" || n == "to_point") return "[2,0,0]";
    if (n == "to_dir") return "[1,0,0]";
    if (n == "apex" || n == "center") return "[0,0,0]";
    if (n == "from_dir" || n == "from_point") return "[0,1,0]";
  }
  return kVal[type];
}
static std::string Prop(const P& p, int type) { return std::string(p.name) + (p.name[0] == '@' ? "" : "=") + Value(p, type); }
static std::string Join(const Ctx& c, const std::vector<std::string>& v) {
  std::string s = std::string("load m=\"m.stl\";") + c.pre;
  for (size_t i = 0; i < v.size(); i++) s += v[i] + (i + 1 < v.size() ? c.sep : c.end);
  return s + c.post;
}
static bool Complete(const Ctx& c, unsigned mask) {
  for (int i = 0; i < Count(c); i++) if (c.p[i].need && !(mask >> i & 1)) return false;
  // an angle's sides are given one way each
  if (c.p[1].name && !strcmp(c.p[1].name, "apex"))
    return (mask >> 2 & 1) + (mask >> 3 & 1) == 1 && (mask >> 4 & 1) + (mask >> 5 & 1) == 1;
  return true;
}
static std::vector<std::string> Base(const Ctx& c, unsigned mask) {
  std::vector<std::string> v;
  for (int i = 0; i < Count(c); i++) if (mask >> i & 1) v.push_back(Prop(c.p[i], c.p[i].type));
  return v;
}
// some complete set: the required ones, and one way for each side of an angle
static unsigned Full(const Ctx& c) {
  unsigned m = 0;
  for (int i = 0; i < Count(c); i++) if (c.p[i].need) m |= 1u << i;
  if (&c == &kCtx[6]) m |= 4 | 32;
  return m;
}
static void Expect(const std::string& s, bool good) {
  Model();
  auto r = Run(s);
  SYM_ASSERT(r.ok == good, "accepted iff the set is right");
  if (!r.ok) { SYM_ASSERT(r.out.empty(), "nothing written"); SYM_ASSERT(!r.err.empty(), "explained"); sym_reach("refused"); }
  else { SYM_ASSERT(r.ps.ok, "well formed"); sym_reach("accepted"); }
}
ENTRY C07_subset() {
  const Ctx& c = kCtx[sym_choose("part", 7)];
  unsigned mask = sym_choose("given", 1 << Count(c));
  auto v = Base(c, mask);
  if (v.empty() && c.sep[0] == ',') { Expect(Join(c, v), false); return; }
  Expect(Join(c, v), Complete(c, mask));
}
ENTRY C07_twice() {
  const Ctx& c = kCtx[sym_choose("part", 7)];
  int k = sym_choose("which", Count(c));
  unsigned full = Full(c) | 1u << k;
  if (&c == &kCtx[6]) {  // keep one way per side
    if (k == 3) full &= ~4u;
    if (k == 4) full &= ~32u;
  }
  auto v = Base(c, full);
  v.insert(v.begin() + sym_choose("at", v.size() + 1), Prop(c.p[k], sym_choose("same", 2) ? c.p[k].type : c.p[k].name[0] == '@' ? 3 : 2));
  Expect(Join(c, v), false);
}
ENTRY C07_type() {
  const Ctx& c = kCtx[sym_choose("part", 7)];
  int k = sym_choose("which", Count(c)), t = sym_choose("type", 5);
  sym_assume(c.p[k].name[0] != '@');
  unsigned full = Full(c) & ~(1u << k);
  if (&c == &kCtx[6]) {
    if (k == 3) full &= ~4u;
    if (k == 4) full &= ~32u;
  }
  auto v = Base(c, full);
  v.insert(v.begin() + sym_choose("at", v.size() + 1), Prop(c.p[k], t));
  Expect(Join(c, v), t == c.p[k].type);
}
// A name of up to 4 letters, digits and underscores.
ENTRY C07_name() {
  int ci = sym_choose("part", 7);
  const Ctx& c = kCtx[ci];
  int n = sym_choose("n", 4) + 1, t = sym_choose("type", 5);
  std::string w;
  for (int i = 0; i < n; i++) {
    char nm[3] = {'w', (char)('0' + i), 0};
    unsigned char x = sym_byte(nm);
    sym_assume((x == '_') | ((x >= 'a') & (x <= 'z')) | ((x >= 'A') & (x <= 'Z')) | ((x >= '0') & (x <= '9')));
    w += (char)x;
  }
  bool good = false;
  for (int i = 0; i < Count(c); i++) if (!c.p[i].need && c.p[i].type == t && w == c.p[i].name) good = true;
  auto v = Base(c, Full(c));
  v.insert(v.begin() + sym_choose("at", 2) * v.size(), w + "=" + kVal[t]);
  Expect(Join(c, v), good);
}
// A name that is not known, next to any complete set.
ENTRY C07_other() {
  const Ctx& c = kCtx[sym_choose("part", 7)];
  unsigned mask = sym_choose("given", 1 << Count(c));
  sym_assume(Complete(c, mask));
  auto v = Base(c, mask);
  unsigned char x = sym_byte("name");
  sym_assume((x == '_') | ((x >= 'a') & (x <= 'z')) | ((x >= 'A') & (x <= 'Z')));
  static const char* const more[] = {"", "t", "rom"};
  std::string w = std::string(1, (char)x) + more[sym_choose("length", 3)];
  bool known = false;
  for (int i = 0; i < Count(c); i++) if (w == c.p[i].name) known = true;
  sym_assume(!known);
  v.insert(v.begin() + sym_choose("at", v.size() + 1), w + "=" + kVal[c.sep[0] == ',']);
  Expect(Join(c, v), false);
}
// No place for drawing things in parts that have none.
ENTRY C07_place() {
  int ci = sym_choose("part", 5);
  const Ctx& c = kCtx[ci < 1 ? 0 : ci + 2];
  auto v = Base(c, Full(c));
  double x = sym_double("x", -9, 9);
  v.insert(v.begin() + sym_choose("at", v.size() + 1), "@" + P2(x, 1));
  Expect(Join(c, v), false);
}
// The order of the properties does not matter.
ENTRY C07_order() {
  int ci = sym_choose("part", 5) + 2;
  const Ctx& c = kCtx[ci == 2 ? 1 : ci];
  auto v = Base(c, ci == 2 ? 7 : ci == 6 ? Full(c) : (1u << Count(c)) - 1), w = v;
  std::vector<std::string> perm;
  while (!w.empty()) {
    int k = sym_choose("next", w.size());
    perm.push_back(w[k]);
    w.erase(w.begin() + k);
  }
  Model();
  auto a = Run(Join(c, v)), b = Run(Join(c, perm));
  SYM_ASSERT(a.ok && b.ok, "accepted");
  SYM_ASSERT(a.out == b.out, "same pages");
  sym_reach("permuted");
}
