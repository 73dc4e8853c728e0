// dia() and rad(): the diameter or radius of a round feature and its drawing.
#include "draw.h"
// The feature's centre and radius, and how much text is around the value.
static double gX = 0, gY = 0, gR = 2;
static int gBefore = 0, gAfter = 0;
// A round plate whose outside faces the reader in the given view.
static std::string Round(int view) {
  std::vector<Tri> t;
  for (int i = 1; i < 7; i++) {
    int k[3] = {0, i, i + 1};
    Tri q;
    for (int j = 0; j < 3; j++) {
      V3 p = Unsee(view, {gX + kOn[k[j]][0] * gR, gY + kOn[k[j]][1] * gR, 0.5});
      q.v[j][0] = p.x; q.v[j][1] = p.y; q.v[j][2] = p.z;
    }
    V3 n = Unsee(view, {0, 0, 1});
    q.n[0] = n.x; q.n[1] = n.y; q.n[2] = n.z;
    t.push_back(q);
  }
  return StlText(t);
}
static std::string Script(bool dia, int view, int sc, V3 at, V3 dir, V3 c) {
  return std::string("load m=\"m.stl\";page{draw m{") + kScales[sc] + "view=\"" + kViews[view] + "\";@[1,-0.5];" + (dia ? "dia" : "rad") +
         "(at=" + P3(Unsee(view, at)) + ",dir=" + P3(Unsee(view, dir)) + ",center=" + P3(Unsee(view, c)) +
         (gBefore + gAfter ? ",fmt=\"" + std::string(gBefore, 'x') + "%.3f" + std::string(gAfter, '.') + "\"" : "") + ");}}";
}
static void Check(bool dia, int view, int sc, V3 at, V3 u, double k, V3 c) {
  const double r = gR;
  // a plate of radius 2 reaches from -2 to 2 and from -1.92 to 2
  Map m{kScaleV[sc], 396 + 72 * 1.0 - gX * kScaleV[sc], 306 - 72 * 0.5 - (gY + 0.02 * r) * kScaleV[sc]};
  File("m.stl", Round(view));
  auto res = Run(Script(dia, view, sc, at, u * k, c));
  SYM_ASSERT(res.ok, "accepted");
  if (!res.ok) return;
  SYM_ASSERT(res.ps.ok, "well formed");
  const PsItem* t = res.ps.nth('c', 0);
  SYM_ASSERT(t && res.ps.count('c') == 1, "one centred text");
  if (!t) return;
  std::string sign = dia ? "\\351" : "R";
  SYM_ASSERT(t->s.compare(0, sign.size(), sign) == 0, "sign");
  size_t b = sign.size(), len = t->s.size() - b;
  SYM_ASSERT((int)len > gBefore + gAfter && t->s.compare(b, gBefore, std::string(gBefore, 'x')) == 0 &&
             t->s.compare(t->s.size() - gAfter, gAfter, std::string(gAfter, '.')) == 0, "text around the value");
  if ((int)len <= gBefore + gAfter) return;
  TextNum(t->s, b + gBefore, len - gBefore - gAfter, dia ? 2 * r : r, 3, "measured value");
  sym_assert_near(t->x[0], at.x * m.scale + m.ox + 8 * .3 * (dia ? len + 2 : len + 3), 5e-3, "text x");
  sym_assert_near(t->x[1], at.y * m.scale + m.oy, 5e-3, "text y");
  V3 ctr{gX, gY, 0}, a = ctr + u * r, z = ctr - u * r;
  // how far along dir the straight part of the leader goes
  bool far = false;
  double reach = 0;
  double d[2] = {at.x - gX, at.y - gY}, w[2] = {u.x, u.y};
  bool any = false, never = false;
  for (int i = 0; i < 2; i++) {
    if (w[i] == 0) {
      sym_assume((d[i] > 1e-6) | (d[i] < -1e-6));
      if (d[i] < 0) never = true;
      continue;
    }
    double q = d[i] / w[i];
    if (!any || q < reach) reach = q;
    any = true;
  }
  sym_assume((reach > 1 + 1e-4) | (reach < 1 - 1e-4));
  far = !never && reach > 1;
  V3 e = far ? ctr + u * reach : a;
  Lines l;
  Add(&l, m, dia ? z : ctr, e);
  Add(&l, m, e, at);
  V3 g = u / m.scale, x{-g.y, g.x, 0};
  Add(&l, m, a, a - g * 6 + x * 2);
  Add(&l, m, a, a - g * 6 - x * 2);
  if (dia) {
    Add(&l, m, z, z + g * 6 + x * 2);
    Add(&l, m, z, z + g * 6 - x * 2);
  }
  for (int i = 0; i < 8; i++) {
    const double *p = kOn[i], *q = kOn[(i + 1) % 8];
    Add(&l, m, {gX + p[0] * r, gY + p[1] * r, 0}, {gX + q[0] * r, gY + q[1] * r, 0});
  }
  AddTitleBox(&l);
  SameLines(res.ps, 1, l, 5e-3, "line");
  sym_reach(far ? "leader along" : "leader from the rim");
}
static V3 At() { double x = sym_double("ax", -5, 5), y = sym_double("ay", -5, 5); return {x, y, 0}; }
static const V3 kDirs[8] = {{1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0}, {0.6, 0.8, 0}, {-0.8, 0.6, 0}, {-0.28, -0.96, 0}, {0.8, -0.6, 0}};
ENTRY C20_dirs() {
  V3 at = At();
  int dia = sym_choose("dia", 2), d = sym_choose("dir", 8);
  Check(dia, 0, 0, at, kDirs[d], 1, {0, 0, 0});
}
ENTRY C20_length() {
  V3 at = At();
  int dia = sym_choose("dia", 2), d = sym_choose("dir", 2);
  Check(dia, 0, 0, at, kDirs[d * 5], sym_double("k", 0.125, 8), {0, 0, 0});
}
ENTRY C20_views() {
  V3 at = At();
  int dia = sym_choose("dia", 2), v = sym_choose("view", 6), sc = sym_choose("scale", 3);
  Check(dia, v, sc, at, kDirs[4], 1, {0, 0, 0});
}
// The centre is given roughly.
ENTRY C20_center() {
  int dia = sym_choose("dia", 2);
  V3 c = SymV3("c", -3, 3);
  Check(dia, 0, 0, {3, 4, 1}, kDirs[4], 1, c);
}
// A direction that is nothing on the page is refused.
ENTRY C20_nowhere() {
  int dia = sym_choose("dia", 2), v = sym_choose("view", 6);
  double z = sym_double("z", -4, 4);
  V3 at = At();
  File("m.stl", Round(v));
  auto r = Run(Script(dia, v, 0, at, {0, 0, z}, {0, 0, 0}));
  SYM_ASSERT(!r.ok && r.out.empty(), "refused");
  SYM_ASSERT(!r.err.empty(), "explained");
  sym_reach("refused");
}
// A prism seen along its axis, turned there by a named view or by angles, near to or far from the
// origin: its corners lie straight above each other, a rounding error apart.
ENTRY C20_prism() {
  static const char* const kV[6] = {"\"Y-\"", "\"Y+\"", "[0,90]", "[0,-90]", "[180,90]", "[180,-90]"};
  static const int kN[3] = {3, 6, 16};
  static const double kOff[3] = {0, 13.75, -400};
  const char* view = kV[sym_choose("view", 6)];
  int n = kN[sym_choose("n", 3)];
  double off = kOff[sym_choose("off", 3)], R = 1.3;
  bool dia = sym_choose("dia", 2);
  auto pt = [&](int i, double y) {
    double a = i * 2 * M_PI / n;
    return V3{off + R * cos(a), y, off / 4 + R * sin(a)};
  };
  std::vector<Tri> t;
  auto tri = [&](V3 a, V3 b, V3 c, V3 m) { t.push_back({{{a.x, a.y, a.z}, {b.x, b.y, b.z}, {c.x, c.y, c.z}}, {m.x, m.y, m.z}}); };
  for (int i = 1; i + 1 < n; i++) {
    tri(pt(0, -1), pt(i, -1), pt(i + 1, -1), {0, -1, 0});
    tri(pt(0, 1), pt(i, 1), pt(i + 1, 1), {0, 1, 0});
  }
  for (int i = 0; i < n; i++) {
    double m = (i + .5) * 2 * M_PI / n;
    V3 nr{cos(m), 0, sin(m)};
    tri(pt(i, -1), pt(i + 1, -1), pt(i, 1), nr);
    tri(pt(i + 1, -1), pt(i + 1, 1), pt(i, 1), nr);
  }
  File("m.stl", StlText(t));
  double x = sym_double("x", 3, 9);
  auto r = Run(std::string("load m=\"m.stl\";page{draw m{@[0,0];view=") + view + ";" + (dia ? "dia" : "rad") + "(at=" + P3(x + off, 0, 3 + off / 4) +
               ",dir=[1,0,1],center=" + P3(off + .01, 0, off / 4) + ");}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  const PsItem* s = r.ps.nth('c', 0);
  SYM_ASSERT(s && r.ps.count('c') == 1, "one centred text");
  if (!s) return;
  size_t b = dia ? 4 : 1;
  TextNum(s->s, b, s->s.size() - b, dia ? 2 * R : R, 3, "measured value");
  sym_reach("shown");
}
// The corners of one triangle are enough for a circle.
ENTRY C20_three() {
  double h = sym_double("h", 0.5, 3), z = sym_double("z", -2, 2);
  bool dia = sym_choose("dia", 2);
  int c = sym_choose("c", 3);
  static const double kC[3][2] = {{1, 0.5}, {-1, -1}, {3, 2}};
  File("m.stl", StlText({{{{0, 0, z}, {2, 0, z}, {1, h, z}}, {0, 0, 1}}}));
  auto r = Run(std::string("load m=\"m.stl\";page{draw m{@[0,0];") + (dia ? "dia" : "rad") + "(at=[5,4,0],dir=[1,0,0],center=" + P3(kC[c][0], kC[c][1], 0) + ");}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  const PsItem* s = r.ps.nth('c', 0);
  SYM_ASSERT(s && r.ps.count('c') == 1, "one centred text");
  if (!s) return;
  double rad = (1 + h * h) / (2 * h);
  size_t b = dia ? 4 : 1;
  TextNum(s->s, b, s->s.size() - b, dia ? 2 * rad : rad, 3, "measured value");
  sym_reach("shown");
}
// The same in views by angles.
ENTRY C20_along() {
  static const char* const kV[4] = {"[0,90]", "[0,-90]", "[180,90]", "[180,-90]"};
  int dia = sym_choose("dia", 2), v = sym_choose("view", 4);
  double z = sym_double("z", -4, 4);
  V3 at = At();
  // these look along y
  std::vector<Tri> t;
  for (int i = 1; i < 7; i++)
    for (int s = -1; s < 2; s += 2)
      t.push_back({{{2, 0, 0}, {kOn[i][0] * 2, 0, kOn[i][1] * 2}, {kOn[i + 1][0] * 2, 0, kOn[i + 1][1] * 2}}, {0, (double)s, 0}});
  File("m.stl", StlText(t));
  auto r = Run(std::string("load m=\"m.stl\";page{draw m{@[0,0];view=") + kV[v] + ";" + (dia ? "dia" : "rad") + "(at=" + P3(at.x, 0, at.y) + ",dir=" + P3(0, z, 0) + ",center=[0,0,0]);}}");
  SYM_ASSERT(!r.ok && r.out.empty(), "refused");
  SYM_ASSERT(!r.err.empty(), "explained");
  sym_reach("refused");
}
// Features of other places and sizes.
ENTRY C20_placed() {
  static const double place[4][3] = {{1.5, -1, 1.25}, {-40, 25, 3}, {2, 2, .25}, {-1, .5, 6}};
  int k = sym_choose("place", 4), dia = sym_choose("dia", 2), d = sym_choose("dir", 2);
  gX = place[k][0]; gY = place[k][1]; gR = place[k][2];
  double x = sym_double("ax", -5, 5), y = sym_double("ay", -5, 5);
  Check(dia, 0, 0, {gX + x, gY + y, 0}, kDirs[d * 6], 1, {gX, gY, 0});
}
// Longer texts.
ENTRY C20_long() {
  static const int before[] = {1, 4, 0, 5, 16, 30}, after[] = {0, 1, 4, 0, 0, 33};
  int k = sym_choose("text", 6), dia = sym_choose("dia", 2), sc = sym_choose("scale", 3);
  gBefore = before[k]; gAfter = after[k];
  Check(dia, 0, sc, At(), kDirs[4], 1, {0, 0, 0});
}
