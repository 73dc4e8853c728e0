// Views: each named view and each pair of view angles is a rotation of the model (never a mirror).
#include "draw.h"
static double Min(double a, double b) { return b < a ? b : a; }
static double Max(double a, double b) { return a < b ? b : a; }
static Tri T(V3 a, V3 b, V3 c, V3 n) { return {{{a.x, a.y, a.z}, {b.x, b.y, b.z}, {c.x, c.y, c.z}}, {n.x, n.y, n.z}}; }
static void Expect(const Result& r, const V3* p) {
  SYM_ASSERT(r.ok, "accepted");
  if (!r.ok) return;
  SYM_ASSERT(r.ps.ok, "well formed");
  double cx = (Min(Min(p[0].x, p[1].x), p[2].x) + Max(Max(p[0].x, p[1].x), p[2].x)) / 2;
  double cy = (Min(Min(p[0].y, p[1].y), p[2].y) + Max(Max(p[0].y, p[1].y), p[2].y)) / 2;
  Map m{72, 396 - cx * 72, 306 - cy * 72};
  Lines w;
  for (int i = 0; i < 3; i++) Add(&w, m, p[i], p[(i + 1) % 3]);
  AddTitleBox(&w);
  SameLines(r.ps, 1, w, 5e-3, "edge");
  sym_reach("drawn");
}
// A triangle with any corners that faces the reader in the named view.
ENTRY C12_named() {
  int view = sym_choose("view", 6), dflt = sym_choose("given", 2);
  if (!dflt) sym_assume(view == 0);
  V3 p[3] = {SymV3("a", -4, 4), SymV3("b", -4, 4), SymV3("c", -4, 4)};
  double area = (p[1].x - p[0].x) * (p[2].y - p[0].y) - (p[1].y - p[0].y) * (p[2].x - p[0].x);
  sym_assume(area > 0.01);
  File("m.stl", StlText({T(Unsee(view, p[0]), Unsee(view, p[1]), Unsee(view, p[2]), Unsee(view, {0, 0, 1}))}));
  std::string v = dflt ? std::string("view=\"") + kViews[view] + "\";" : "";
  Expect(Run("load m=\"m.stl\";page{draw m{" + v + "@[0,0];}}"), p);
}
// Only the six names are views.
ENTRY C12_names() {
  File("m.stl", StlText({T({0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1})}));
  int n = sym_choose("n", 4);
  std::string s;
  for (int i = 0; i < n; i++) {
    char nm[3] = {'v', (char)('0' + i), 0};
    int c = sym_byte(nm);
    sym_assume((c != '"') & (c != '\\') & (c != '\n'));
    s += (char)c;
  }
  auto r = Run("load m=\"m.stl\";page{draw m{view=\"" + s + "\";@[0,0];}}");
  bool good = n == 2 && (s[0] == 'X' || s[0] == 'Y' || s[0] == 'Z') && (s[1] == '+' || s[1] == '-');
  SYM_ASSERT(r.ok == good, "accepted iff a view name");
  if (good) sym_reach("named");
  else SYM_ASSERT(r.out.empty(), "nothing written");
}
// view=[turn, tip]: turned about the vertical axis, then tipped about the horizontal one.
static void Angles(double ang, double azm) {
  // a sheet with two sides, so that one of them is always seen
  V3 q[3] = {{2, 0.25, 0.5}, {-1, 1.5, -0.25}, {-0.5, -2, 1}};
  File("m.stl", StlText({T(q[0], q[1], q[2], {0, 0, 1}), T(q[0], q[2], q[1], {0, 0, -1})}));
  double a = ang * M_PI / 180, z = azm * M_PI / 180;
  double sa = std::sin(a), ca = std::cos(a), sz = std::sin(z), cz = std::cos(z);
  V3 p[3];
  for (int i = 0; i < 3; i++) {
    double x = q[i].x * ca - q[i].y * sa, y = q[i].x * sa + q[i].y * ca;
    p[i] = {x, y * cz + q[i].z * sz, -y * sz + q[i].z * cz};
  }
  double area = (p[1].x - p[0].x) * (p[2].y - p[0].y) - (p[1].y - p[0].y) * (p[2].x - p[0].x);
  sym_assume((area > 0.01) | (area < -0.01));
  Expect(Run("load m=\"m.stl\";page{draw m{view=" + P2(ang, azm) + ";@[0,0];}}"), p);
}
ENTRY C12_turn() { Angles(sym_double("ang", -360, 360), 0); }
ENTRY C12_tip() { Angles(0, sym_double("azm", -360, 360)); }
ENTRY C12_both() { Angles(sym_double("ang", -360, 360), sym_double("azm", -360, 360)); }
