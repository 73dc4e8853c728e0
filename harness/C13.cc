// The facets that face the reader are drawn, all of them, and no others: in any file order.
#include "draw.h"
static Tri T(V3 a, V3 b, V3 c, double nz) { return {{{a.x, a.y, a.z}, {b.x, b.y, b.z}, {c.x, c.y, c.z}}, {0, 0, nz}}; }
// n separate triangles side by side, each facing up or down as the solver likes.
static void Check(int n) {
  std::vector<Tri> ts;
  std::vector<V3> pts;
  Lines w;
  std::vector<bool> up;
  for (int i = 0; i < n; i++) {
    std::string nm = "h" + std::to_string(i);
    double h = sym_double(nm.c_str(), -1, 1);
    sym_assume((h > 0.1) | (h < -0.1));
    // corners (0,0) (1,0) (0.25,h): counter-clockwise iff h > 0
    V3 a = {i * 2.0, 0, 0}, b = {i * 2.0 + 1, 0, 0}, c = {i * 2.0 + .25, h, 0};
    bool u = h > 0;
    // the normal agrees with the order of the corners
    ts.push_back(T(a, b, c, u ? 1 : -1));
    up.push_back(u);
    if (u) { pts.push_back(a); pts.push_back(b); pts.push_back(c); }
  }
  File("m.stl", StlText(ts));
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  if (!pts.empty()) {
    double x0 = pts[0].x, x1 = x0, y0 = pts[0].y, y1 = y0;
    for (auto& p : pts) {
      if (p.x < x0) x0 = p.x;
      if (p.x > x1) x1 = p.x;
      if (p.y < y0) y0 = p.y;
      if (p.y > y1) y1 = p.y;
    }
    Map m{72, 396 - (x0 + x1) / 2 * 72, 306 - (y0 + y1) / 2 * 72};
    for (size_t i = 0; i < pts.size(); i += 3)
      for (int k = 0; k < 3; k++) Add(&w, m, pts[i + k], pts[i + (k + 1) % 3]);
    sym_reach("some face the reader");
  } else sym_reach("none faces the reader");
  AddTitleBox(&w);
  SameLines(r.ps, 1, w, 5e-3, "edge");
}
ENTRY C13_three() { Check(3); }
ENTRY C13_five() { Check(5); }
// A closed solid turned to any of the six sides shows the same four facets as from the front.
ENTRY C13_solid() {
  int view = sym_choose("view", 6);
  double k = sym_double("k", 0.5, 3);
  File("m.stl", Octa());
  auto r = Run(std::string("load m=\"m.stl\";page{draw m{view=\"") + kViews[view] + "\";@" + P2(k, 0) + ";}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  Lines w;
  AddOcta(&w, Map{72, 396 + k * 72, 306});
  AddTitleBox(&w);
  SameLines(r.ps, 1, w, 5e-3, "edge");
  sym_reach("solid");
}
// A facet seen at a grazing angle still faces the reader; edge-on or turned further it does not.
ENTRY C13_grazing() {
  double h = sym_double("h", -3, 3);
  static const double kE[7] = {0.25, 0.015625, 0.001, 0.0001, 0, -0.0001, -0.25};
  double e = kE[sym_choose("e", 7)];
  bool first = sym_choose("first", 2);
  sym_assume((h > 0.25) | (h < -0.25));
  V3 a{0, 0, 0}, b{2, 0, 0}, c{1, e, h};
  // normal (b-a)x(c-a)
  std::vector<Tri> ts = {{{{0, 0, 0}, {2, 0, 0}, {1, e, h}}, {0, -2 * h, 2 * e}}, T({4, 0, 0}, {5, 0, 0}, {4, 1, 0}, 1)};
  if (first) std::swap(ts[0], ts[1]);
  File("m.stl", StlText(ts));
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  Lines w;
  Map m{72, 396 - (e > 0 ? 2.5 : 4.5) * 72, 306 - .5 * 72};
  Add(&w, m, {4, 0, 0}, {5, 0, 0});
  Add(&w, m, {5, 0, 0}, {4, 1, 0});
  Add(&w, m, {4, 1, 0}, {4, 0, 0});
  if (e > 0) { Add(&w, m, a, b); Add(&w, m, b, c); Add(&w, m, c, a); }
  AddTitleBox(&w);
  SameLines(r.ps, 1, w, 5e-3, "edge");
  sym_reach(e > 0 ? "faces the reader" : "does not");
}
// A box turned by angles to show one of its sides shows that side and nothing else.
ENTRY C13_box() {
  static const int kAng[4] = {0, 90, 180, -90};
  static const double kS[4] = {0, 1, 0, -1}, kC[4] = {1, 0, -1, 0};
  int i = sym_choose("ang", 4), j = sym_choose("azm", 4);
  double a = sym_double("a", .5, 3), b = sym_double("b", .5, 3), c = sym_double("c", .5, 3);
  V3 o = sym_choose("off", 2) ? V3{10.3, -4.7, 33.1} : V3{0, 0, 0};
  std::vector<Tri> ts;
  auto P = [&](int k) { return o + V3{k & 1 ? a : 0, k & 2 ? b : 0, k & 4 ? c : 0}; };
  static const int q[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
  static const double n[6][3] = {{0, 0, -1}, {0, 0, 1}, {0, -1, 0}, {0, 1, 0}, {-1, 0, 0}, {1, 0, 0}};
  for (int f = 0; f < 6; f++)
    for (int h = 0; h < 2; h++) {
      V3 x = P(q[f][0]), y = P(q[f][1 + h]), z = P(q[f][2 + h]);
      ts.push_back({{{x.x, x.y, x.z}, {y.x, y.y, y.z}, {z.x, z.y, z.z}}, {n[f][0], n[f][1], n[f][2]}});
    }
  File("m.stl", StlText(ts));
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];view=[" + std::to_string(kAng[i]) + "," + std::to_string(kAng[j]) + "];}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  // how far it reaches to the right and up: turned about z, then about the page's x axis
  double s = kS[i], k = kC[i], S = -kS[j], C = kC[j];
  auto Abs = [](double v) { return v < 0 ? -v : v; };
  double w = a * Abs(k) + b * Abs(s), h = a * Abs(s * C) + b * Abs(k * C) + c * Abs(S);
  Lines l;
  Map m{72, 396, 306};
  V3 e[4] = {{-w / 2, -h / 2, 0}, {w / 2, -h / 2, 0}, {w / 2, h / 2, 0}, {-w / 2, h / 2, 0}};
  for (int f = 0; f < 4; f++) Add(&l, m, e[f], e[(f + 1) % 4]);
  AddTitleBox(&l);
  SameLines(r.ps, 1, l, 5e-3, "edge");
  sym_reach("drawn");
}
