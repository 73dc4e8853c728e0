// angle(): the angle between two directions and its drawing.
#include "draw.h"
struct Dir { double x, y; };
static const Dir kD[8] = {{1, 0}, {0.6, 0.8}, {0, 1}, {-0.8, 0.6}, {-1, 0}, {-0.6, -0.8}, {0.28, -0.96}, {0.8, -0.6}};
static double Deg(Dir a, Dir b) { return std::acos(a.x * b.x + a.y * b.y) * 180 / M_PI; }
static double At(Dir a) { return std::atan2(a.y, a.x) * 180 / M_PI; }
// Points near a far apex: rounding may give them a sliver of an angle.
static bool kRounds = false;
// from/to: unit directions; as points they are pf, pt times that from the apex.
static void Check(int view, int sc, V3 at, V3 apex, int fi, int ti, bool fpt, bool tpt, double kf, double kt) {
  Dir f = kD[fi], t = kD[ti];
  double cr = f.x * t.y - f.y * t.x;
  V3 F{f.x, f.y, 0}, T{t.x, t.y, 0};
  File("m.stl", Octa());
  std::string s = std::string("load m=\"m.stl\";page{draw m{") + kScales[sc] + "view=\"" + kViews[view] + "\";@[1,-0.5];angle(at=" +
                  P3(Unsee(view, at)) + ",apex=" + P3(Unsee(view, apex));
  s += fpt ? ",from_point=" + P3(Unsee(view, apex + F * kf)) : ",from_dir=" + P3(Unsee(view, F * kf));
  s += tpt ? ",to_point=" + P3(Unsee(view, apex + T * kt)) : ",to_dir=" + P3(Unsee(view, T * kt));
  auto r = Run(s + ");}}");
  bool flat = fi == ti || cr == 0;
  if (flat && kRounds && (fpt || tpt)) return;
  SYM_ASSERT(r.ok == !flat, "accepted unless along one line");
  if (!r.ok) { SYM_ASSERT(r.out.empty() && !r.err.empty(), "refused"); sym_reach("refused"); return; }
  SYM_ASSERT(r.ps.ok, "well formed");
  const PsItem* x = r.ps.nth('c', 0);
  SYM_ASSERT(x && r.ps.count('c') == 1, "one centred text");
  if (!x) return;
  Map m{kScaleV[sc], 396 + 72 * 1.0, 306 - 72 * 0.5};
  sym_assert_near(x->x[0], at.x * m.scale + m.ox, 5e-3, "text x");
  sym_assert_near(x->x[1], at.y * m.scale + m.oy, 5e-3, "text y");
  size_t n = x->s.size();
  SYM_ASSERT(n > 4 && x->s.substr(n - 4) == " deg", "unit");
  if (n <= 4) return;
  TextNum(x->s, 0, n - 4, Deg(f, t), 1, "measured value");
  // counterclockwise from F to T
  V3 pf = fpt ? apex + F * kf : apex, pt = tpt ? apex + T * kt : apex;
  if (cr < 0) { std::swap(F, T); std::swap(f, t); std::swap(pf, pt); cr = -cr; }
  double dx = at.x - apex.x, dy = at.y - apex.y, dz = at.z - apex.z, l = std::sqrt(dx * dx + dy * dy + dz * dz), u = 1 / m.scale;
  V3 nf{-f.y, f.x, 0}, nt{t.y, -t.x, 0};  // into the angle
  V3 hf = apex + F * l, ht = apex + T * l;
  Lines e;
  Add(&e, m, pf + F * (2 * u), hf + F * (4 * u));
  Add(&e, m, pt + T * (2 * u), ht + T * (4 * u));
  Add(&e, m, hf, hf + F * (2 * u) + nf * (6 * u));
  Add(&e, m, hf, hf - F * (2 * u) + nf * (6 * u));
  Add(&e, m, ht, ht + T * (2 * u) + nt * (6 * u));
  Add(&e, m, ht, ht - T * (2 * u) + nt * (6 * u));
  AddOcta(&e, m);
  AddTitleBox(&e);
  SameLines(r.ps, 1, e, 5e-3, "line");
  const PsItem* a = r.ps.nth('a', 0);
  SYM_ASSERT(a && r.ps.count('a') == 1, "one arc");
  if (!a) return;
  sym_assert_near(a->x[0], apex.x * m.scale + m.ox, 5e-3, "arc centre x");
  sym_assert_near(a->x[1], apex.y * m.scale + m.oy, 5e-3, "arc centre y");
  sym_assert_near(a->x[2], l * m.scale, 5e-3, "arc radius");
  sym_assert_near(a->x[3], At(f), 5e-3, "arc start");
  sym_assert_near(a->x[4], At(t), 5e-3, "arc end");
  sym_reach("drawn");
}
static V3 Flat(const char* n, double z) {
  std::string s(n);
  double x = sym_double((s + "x").c_str(), -3, 3), y = sym_double((s + "y").c_str(), -3, 3);
  return {x, y, z};
}
// Every pair of eight directions, given as directions or points.
ENTRY C19_pairs() {
  V3 at = Flat("a", 0);
  int f = sym_choose("from", 8), t = sym_choose("to", 8), p = sym_choose("given", 4);
  Check(0, 0, at, {0.5, -0.25, 0}, f, t, p & 1, p & 2, 2, 1);
}
// Any apex, and directions of any length.
ENTRY C19_apex() {
  V3 at = Flat("a", 1), c = Flat("c", 1);
  int t = 1 + sym_choose("to", 3), p = sym_choose("given", 4);
  kRounds = true;
  Check(0, 0, at, c, 7, t, p & 1, p & 2, sym_double("kf", 0.125, 8), sym_double("kt", 0.125, 8));
}
ENTRY C19_views() {
  V3 at = Flat("a", 0);
  int v = sym_choose("view", 6), s = sym_choose("scale", 3), sw = sym_choose("swap", 2), p = sym_choose("given", 4);
  Check(v, s, at, {-0.5, 0.5, 0}, sw ? 3 : 1, sw ? 1 : 3, p & 1, p & 2, 2, 1);
}
// Any direction against a fixed one.
ENTRY C19_any() {
  double x = sym_double("x", -2, 2), y = sym_double("y", -2, 2);
  sym_assume((y > 0.01) | (y < -0.01));
  File("m.stl", Octa());
  int sw = sym_choose("swap", 2);
  std::string d = P3(x, y, 0), s = sw ? "from_dir=[2,0,0],to_dir=" + d : "to_dir=[2,0,0],from_dir=" + d;
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];angle(at=[1,1,0],apex=[0,0,0]," + s + ");}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  double n = std::sqrt(x * x + y * y);
  const PsItem* t = r.ps.nth('c', 0);
  SYM_ASSERT(t && t->s.size() > 4, "text");
  if (!t) return;
  TextNum(t->s, 0, t->s.size() - 4, std::acos(x / n) * 180 / M_PI, 1, "measured value");
  const PsItem* a = r.ps.nth('a', 0);
  SYM_ASSERT(a, "arc");
  if (!a) return;
  double g = std::atan2(y / n, x / n) * 180 / M_PI;
  sym_assert_near(a->x[3], y > 0 ? 0 : g, 5e-3, "arc start");
  sym_assert_near(a->x[4], y > 0 ? g : 0, 5e-3, "arc end");
  sym_reach("drawn");
}
// Directions along one line as written, though rounding makes them differ: refused.
ENTRY C19_parallel() {
  static const char* const d[10][2] = {{"-3.18132,0.267588,0", "-15.9066,1.33794,0"}, {"-0.112075,-2.66439,0", "-0.336225,-7.99318,0"},
      {"3.33044,0.322436,0", "9.99132,0.967308,0"}, {"1.02647,-0.0161335,0", "3.07941,-0.0484005,0"}, {"-0.0155549,-0.943716,0", "-0.0777745,-4.71858,0"},
      {"3.18132,-0.267588,0", "-15.9066,1.33794,0"}, {"0.112075,2.66439,0", "-0.336225,-7.99318,0"}, {"-3.33044,-0.322436,0", "9.99132,0.967308,0"},
      {"0.1,0.3,0", "0.3,0.9,0"}, {"0.1,-0.7,0", "-0.3,2.1,0"}};
  int k = sym_choose("pair", 10), sw = sym_choose("swap", 2);
  File("m.stl", Octa());
  auto r = Run(std::string("load m=\"m.stl\";page{draw m{@[0,0];angle(at=[1,1,0],apex=[0,0,0],from_dir=[") + d[k][sw] + "],to_dir=[" + d[k][1 - sw] + "]);}}");
  SYM_ASSERT(!r.ok && r.out.empty() && !r.err.empty(), "refused");
  sym_reach("refused");
}
// A small angle is still one, and a number.
ENTRY C19_small() {
  static const double kY[4] = {1e-5, 1e-4, .002, .05};
  static const double kX[4] = {0.25, 1, 1.7, 40};
  double x = kX[sym_choose("x", 4)];
  int k = sym_choose("y", 4), sw = sym_choose("swap", 2), back = sym_choose("back", 2);
  File("m.stl", Octa());
  std::string d = P3((back ? -x : x), kY[k] * x, 0), e = "[3,0,0]";
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];angle(at=[1,1,0],apex=[0,0,0],fmt=\"%.4f\",from_dir=" + (sw ? d : e) + ",to_dir=" + (sw ? e : d) + ");}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  const PsItem* t = r.ps.nth('c', 0);
  SYM_ASSERT(t && t->s.size() > 4, "text");
  if (!t) return;
  double a = std::atan(kY[k]) * 180 / M_PI;
  // the cosine of a small angle says little about it
  SYM_ASSERT(sym_prec(t->s.data(), t->s.size() - 4) == 4, "digits after the point");
  sym_assert_near(sym_parse(t->s.data(), t->s.size() - 4), back ? 180 - a : a, 2e-4, "measured value");
  sym_reach("drawn");
}
// Directions that are one line on the page, in views by angles.
ENTRY C19_edgeon() {
  static const char* const kV[4] = {"[0,90]", "[0,-90]", "[180,90]", "[180,-90]"};
  int v = sym_choose("view", 4), sw = sym_choose("swap", 2);
  // these look along y
  double x = sym_double("x", 0.25, 4), y = sym_double("y", -4, 4), s = sym_choose("back", 2) ? -1 : 1;
  File("m.stl", Octa());
  std::string d = P3(x * s, y, 0), e = "[3,0,0]";
  auto r = Run(std::string("load m=\"m.stl\";page{draw m{view=") + kV[v] + ";@[0,0];angle(at=[1,1,0],apex=[0,0,0],from_dir=" + (sw ? d : e) + ",to_dir=" + (sw ? e : d) + ");}}");
  SYM_ASSERT(!r.ok && r.out.empty() && !r.err.empty(), "refused");
  sym_reach("refused");
}
// The angle is the one in the model, also when the view shows its directions from aslant.
ENTRY C19_depth() {
  static const V3 d[6] = {{1, 0, 0}, {0, 0.6, 0.8}, {2. / 3, 2. / 3, -1. / 3}, {-2. / 7, 3. / 7, 6. / 7}, {0.6, -0.8, 0}, {0.48, 0.6, 0.64}};
  static const int pair[6][2] = {{0, 1}, {1, 2}, {2, 3}, {4, 1}, {5, 2}, {3, 5}};
  static const double ang[3][2] = {{30, 40}, {-120, 75}, {0, 0}};
  int p = sym_choose("pair", 6), sw = sym_choose("swap", 2), w = sym_choose("view", 3), pt = sym_choose("points", 2);
  V3 a = d[pair[p][sw]], b = d[pair[p][1 - sw]], o = SymV3("o", -3, 3);
  double k = sym_double("k", 0.125, 8);
  File("m.stl", Octa());
  std::string s = "load m=\"m.stl\";page{draw m{@[0,0];view=[" + std::to_string((int)ang[w][0]) + "," + std::to_string((int)ang[w][1]) + "];angle(at=" + P3(o + V3{1, 2, 1}) + ",apex=" + P3(o);
  s += pt ? ",from_point=" + P3(o + a * k) + ",to_point=" + P3(o + b * 2) : ",from_dir=" + P3(a * k) + ",to_dir=" + P3(b * 2);
  auto r = Run(s + ");}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  const PsItem* x = r.ps.nth('c', 0);
  SYM_ASSERT(x && r.ps.count('c') == 1, "one centred text");
  if (!x || x->s.size() <= 4) return;
  TextNum(x->s, 0, x->s.size() - 4, std::acos(Dot(a, b)) * 180 / M_PI, 1, "measured value");
  sym_reach("measured");
}
