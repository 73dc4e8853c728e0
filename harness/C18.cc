// dim(): the measured distance and its drawing.
#include "draw.h"
// The view, scale and place of the drawing are arbitrary; the dimension is given in model
// coordinates.  w / n is the unit vector along
// the dimension on the page.
static void Check(int view, int sc, V3 at, V3 u, double n, V3 dir, V3 from, V3 to,
                  int before = 0, int after = 0) {
  Map m{kScaleV[sc], 396 + 72 * 1.0, 306 - 72 * 0.5};
  File("m.stl", Octa());
  std::string s = "load m=\"m.stl\";page{draw m{" + std::string(kScales[sc]) + "view=\"" + kViews[view] + "\";@[1,-0.5];";
  s += "dim(at=" + P3(Unsee(view, at)) + ",dir=" + P3(Unsee(view, dir)) + ",from=" + P3(Unsee(view, from)) + ",to=" + P3(Unsee(view, to));
  if (before + after) s += ",fmt=\"" + std::string(before, 'x') + "%.3f" + std::string(after, '.') + "\"";
  s += ");}}";
  auto r = Run(s);
  SYM_ASSERT(r.ok, "accepted");
  if (!r.ok) return;
  SYM_ASSERT(r.ps.ok, "well formed");
  auto* t = r.ps.nth('c', 0);
  SYM_ASSERT(t && r.ps.count('c') == 1, "one centred text");
  if (!t) return;
  sym_assert_near(t->x[0], at.x * m.scale + m.ox, 5e-3, "text x");
  sym_assert_near(t->x[1], at.y * m.scale + m.oy, 5e-3, "text y");
  // Feet of `from` and `to` on the dimension line.
  V3 df = from - at, dt = to - at;
  double f = Dot(df, u) / n, g = Dot(dt, u) / n;
  double len = g - f;
  bool neg = len < 0;
  V3 w = neg ? u * -1 : u;
  double value = neg ? -len : len;
  SYM_ASSERT((int)t->s.size() > before + after && t->s.compare(0, before, std::string(before, 'x')) == 0 &&
             t->s.compare(t->s.size() - after, after, std::string(after, '.')) == 0, "text around the value");
  if ((int)t->s.size() <= before + after) return;
  TextNum(t->s, before, t->s.size() - before - after, value, 3, "measured value");
  V3 fa = at + u * (f / n), ta = at + u * (g / n);
  V3 a = w / (m.scale * n), b = {-a.y, a.x, 0};
  double tw = 8 * .3 * t->s.size() + 1, th = 8 * .333 + 1;
  double ux = (u.x < 0 ? -u.x : u.x) / n, uy = (u.y < 0 ? -u.y : u.y) / n;
  double gap = uy == 0 ? tw / ux : ux == 0 ? th / uy : tw * uy < th * ux ? tw / ux : th / uy;
  double room = value * m.scale - gap * 2;
  sym_assume((room > 1e-4) | (room < -1e-4));  // which way it is drawn at the very boundary is open
  Lines e;
  if (gap * 2 < value * m.scale) {
    Add(&e, m, fa, at - a * gap);
    Add(&e, m, at + a * gap, ta);
    sym_reach("text between the arrows");
  } else {
    Add(&e, m, fa, fa - a * 10);
    Add(&e, m, ta, ta + a * 10);
    a = a * -1;
    sym_reach("arrows from outside");
  }
  double hf = Dot(df, b), ht = Dot(dt, b);  // a point on the line itself has no side
  sym_assume(((hf > 1e-6) | (hf < -1e-6)) & ((ht > 1e-6) | (ht < -1e-6)));
  double fs = Dot(df, b) > 0 ? 1 : -1, ts = Dot(dt, b) > 0 ? 1 : -1;
  Add(&e, m, fa - b * (4 * fs), from - b * (2 * fs));
  Add(&e, m, ta - b * (4 * ts), to - b * (2 * ts));
  Add(&e, m, fa, fa + a * 6 + b * 2);
  Add(&e, m, fa, fa + a * 6 - b * 2);
  Add(&e, m, ta, ta - a * 6 + b * 2);
  Add(&e, m, ta, ta - a * 6 - b * 2);
  AddOcta(&e, m);
  AddTitleBox(&e);
  SameLines(r.ps, 1, e, 5e-3, "line");
}
static V3 Small(const char* n) { return SymV3(n, -3, 3); }
static void Along(V3 u, double n, int view, int sc, int before = 0, int after = 0) {
  double k = sym_double("k", 0.125, 8);
  V3 at = Small("a"), from = Small("f"), to = Small("t");
  double l = Dot(to - from, u) / n;
  sym_assume((l > 0.001) | (l < -0.001));
  Check(view, sc, at, u, n, u * k, from, to, before, after);
}
// Along the page axes in every named view.
ENTRY C18_axes() {
  int d = sym_choose("d", 4), view = sym_choose("view", 6);
  V3 u[4] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}};
  Along(u[d], 1, view, 0);
}
ENTRY C18_scales() {
  int sc = sym_choose("scale", 3), d = sym_choose("d", 2);
  V3 u[2] = {{1, 0, 0}, {0, 1, 0}};
  Along(u[d], 1, 0, sc);
}
// Slanting directions.
ENTRY C18_slanted() {
  int d = sym_choose("d", 4);
  V3 u[4] = {{3, 4, 0}, {-4, 3, 0}, {12, -5, 0}, {-7, -24, 0}};
  double n[4] = {5, 5, 13, 25};
  Along(u[d], n[d], 0, 0);
}
// Text around the value makes it longer, and fit less.
ENTRY C18_long() {
  int d = sym_choose("d", 2), k = sym_choose("text", 8);
  V3 u[2] = {{1, 0, 0}, {3, 4, 0}};
  static const int before[] = {1, 2, 0, 5, 11, 16, 3, 30}, after[] = {0, 1, 4, 0, 4, 0, 20, 33};
  Along(u[d], d ? 5 : 1, 0, 0, before[k], after[k]);
}
// The distance is measured in the model, whatever of it the view shows.
ENTRY C18_depth() {
  static const V3 dirs[4] = {{0.6, 0, 0.8}, {0, -0.28, 0.96}, {2. / 3, 2. / 3, -1. / 3}, {0, 0, 1}};
  static const char* const views[8] = {"\"Z+\"", "\"Z-\"", "\"X+\"", "\"X-\"", "\"Y+\"", "\"Y-\"", "[30,40]", "[-120,75]"};
  V3 u = dirs[sym_choose("d", 4)], from = Small("f"), to = Small("t");
  const char* view = views[sym_choose("view", 8)];
  double value = Dot(to - from, u);
  sym_assume((value > 0.01) | (value < -0.01));
  File("m.stl", Octa());
  auto r = Run(std::string("load m=\"m.stl\";page{draw m{view=") + view + ";@[0,0];dim(at=[0,0,0],dir=" + P3(u * 3) + ",from=" + P3(from) + ",to=" + P3(to) + ");}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  auto* t = r.ps.nth('c', 0);
  SYM_ASSERT(t && r.ps.count('c') == 1, "one centred text");
  if (!t) return;
  TextNum(t->s, 0, t->s.size(), value < 0 ? -value : value, 3, "measured value");
  sym_reach("measured");
}
