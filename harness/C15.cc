// Hidden lines: what a facet in front covers isn't drawn, everything else is.
#include "draw.h"
struct P2d { double x, y; };
struct Flat3 { V3 p[3]; };
static double Cross(V3 a, V3 b, V3 c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static double kMargin = 0.01;
static void Off(double v) { sym_assume((v > kMargin) | (v < -kMargin)); }
// Adds what is left of a-b when everything behind the (counterclockwise) facets `front` is hidden.
static void Visible(Lines* w, Map m, V3 a, V3 b, const std::vector<Flat3>& front) {
  // stretches of [0,1] that are covered
  std::vector<std::pair<double, double>> hid;
  for (auto& f : front) {
    double lo = 0, hi = 1;
    bool out = false;
    for (int i = 0; i < 3; i++) {
      V3 c = f.p[i], d = f.p[(i + 1) % 3];
      double fa = Cross(c, d, a), fb = Cross(c, d, b);
      Off(fa);
      Off(fb);
      Off(Cross(a, b, c));
      if (fa < 0 && fb < 0) { out = true; continue; }
      if (fa > 0 && fb > 0) continue;
      double t = fa / (fa - fb);
      if (fa < 0) { if (t > lo) lo = t; } else { if (t < hi) hi = t; }
    }
    if (out || lo >= hi) continue;
    hid.push_back({lo, hi});
  }
  if (hid.size() == 2) {
    if (hid[1].first < hid[0].first) std::swap(hid[0], hid[1]);
    Off(hid[1].first - hid[0].second);
    if (hid[1].first <= hid[0].second) { hid[0].second = std::max(hid[0].second, hid[1].second); hid.pop_back(); }
  }
  V3 d = b - a;
  double at = 0;
  for (auto& h : hid) {
    if (h.first > at) { Add(w, m, a + d * at, a + d * h.first); sym_reach("part drawn"); }
    at = h.second;
  }
  if (at < 1) Add(w, m, a + d * at, b);
  else sym_reach(hid.empty() ? "whole" : "end hidden");
  if (hid.empty()) sym_reach("all drawn");
}
static Flat3 Ccw(V3 a, V3 b, V3 c) { return Cross(a, b, c) > 0 ? Flat3{{a, b, c}} : Flat3{{a, c, b}}; }
static void Edges(Lines* w, Map m, const Flat3& f, const std::vector<Flat3>& front) {
  for (int i = 0; i < 3; i++) Visible(w, m, f.p[i], f.p[(i + 1) % 3], front);
}
static Tri T(const Flat3& f, int view) {
  Tri t;
  for (int i = 0; i < 3; i++) { V3 p = Unsee(view, f.p[i]); t.v[i][0] = p.x; t.v[i][1] = p.y; t.v[i][2] = p.z; }
  V3 n = Unsee(view, {0, 0, 1});
  t.n[0] = n.x; t.n[1] = n.y; t.n[2] = n.z;
  return t;
}
static int gPerm[2] = {0, 0};  // in which order the corners of facets are written
static Result Draw(std::vector<Flat3> fs, int order, int view) {
  static const int kPerm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 2, 0}, {2, 1, 0}, {2, 0, 1}, {1, 0, 2}};
  std::vector<Tri> t;
  for (size_t i = 0; i < fs.size(); i++) {
    const int* p = kPerm[gPerm[i % 2]];
    const Flat3& f = fs[i];
    Tri q = T(f, view), o = q;
    for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) o.v[k][j] = q.v[p[k]][j];
    t.push_back(o);
  }
  int n = t.size();
  std::rotate(t.begin(), t.begin() + order % n, t.end());
  File("m.stl", StlText(t));
  return Run(std::string("load m=\"m.stl\";page{draw m{@[0,0];view=\"") + kViews[view] + "\";}}");
}
static void Same(const Result& r, Lines w) {
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  AddTitleBox(&w);
  SameLines(r.ps, 1, w, 5e-3, "visible line");
  sym_reach("drawn");
}
static const V3 kB{-3, -3, -1}, kC{3, 3, -1};
static const Map kMap{72, 396, 306};
// A facet with one free corner behind a fixed one (or in front of it).
static void Behind(const Flat3& cover, bool above, int order, int view) {
  double x = sym_double("x", -3, 3), y = sym_double("y", -3, 3), z = above ? 2 : -1;
  V3 a{x, y, z}, b{kB.x, kB.y, z}, c{kC.x, kC.y, z};
  double s = Cross(a, b, c);
  sym_assume((s > 1) | (s < -1));
  Flat3 f = Ccw(a, b, c);
  Lines w;
  if (above) { Edges(&w, kMap, cover, {f}); Edges(&w, kMap, f, {}); }
  else { Edges(&w, kMap, cover, {}); Edges(&w, kMap, f, {cover}); }
  Same(Draw({f, cover}, order, view), w);
}
static const Flat3 kCover[3] = {{{{-1, -1.5, 1}, {2, -1, 1}, {-0.5, 1.5, 1}}}, {{{-2.5, 0, 0}, {2.5, -0.75, 1}, {2, 2, 0.5}}}, {{{-0.5, -2.5, 0}, {0.75, -2, 1}, {0.25, 2.5, 0.5}}}};
ENTRY C15_behind() { Behind(kCover[sym_choose("cover", 3)], false, sym_choose("order", 2), 0); }
ENTRY C15_front() { Behind(kCover[sym_choose("cover", 3)], true, sym_choose("order", 2), 0); }
ENTRY C15_views() { int v = sym_choose("view", 6); Behind(kCover[0], v % 2, 0, v); }
// Two facets in front, apart, touching shadows or one above the other.
ENTRY C15_two() {
  int k = sym_choose("covers", 3), order = k;
  static const int kPair[3][2] = {{0, 3}, {3, 4}, {0, 4}};
  static const Flat3 c[5] = {kCover[0], kCover[1], kCover[2], {{{-2.5, -2, 0}, {-1.75, -2.25, 0.5}, {-2, 2, 0.25}}}, {{{-1.5, -2, 2}, {2.5, -0.5, 2.5}, {1, 0.25, 2}}}};
  const Flat3 &p = c[kPair[k][0]], &q = c[kPair[k][1]];
  double x = sym_double("x", -3, 3), y = sym_double("y", -3, 3);
  V3 a{x, y, -1};
  double s = Cross(a, kB, kC);
  sym_assume((s > 1) | (s < -1));
  Flat3 f = Ccw(a, kB, kC);
  Lines w;
  Edges(&w, kMap, q, {});
  Edges(&w, kMap, p, k == 2 ? std::vector<Flat3>{q} : std::vector<Flat3>{});
  Edges(&w, kMap, f, {p, q});
  Same(Draw({f, p, q}, order, 0), w);
}
static double Depth(const Flat3& f, V3 p) {  // of the facet's plane at p
  double d = Cross(f.p[0], f.p[1], f.p[2]);
  double u = Cross(f.p[1], f.p[2], p) / d, v = Cross(f.p[2], f.p[0], p) / d, t = Cross(f.p[0], f.p[1], p) / d;
  return f.p[0].z * u + f.p[1].z * v + f.p[2].z * t;
}
static bool Over(const Flat3& a, const Flat3& b) {  // is a in front of b?
  bool x = true, y = true;
  for (int i = 0; i < 3; i++) {
    x = x & (a.p[i].z > Depth(b, a.p[i]) + 0.05);
    y = y & (b.p[i].z + 0.05 < Depth(a, b.p[i]));
  }
  return x | y;
}
// The corners may be written in any order, also the wrong way round for the normal.
ENTRY C15_turned() {
  gPerm[0] = sym_choose("far", 6);
  gPerm[1] = sym_choose("near", 6);
  double x = sym_double("x", -3, 3);
  V3 a{x, 0.25, -1};
  double s = Cross(a, kB, kC);
  sym_assume((s > 1) | (s < -1));
  Flat3 f = Ccw(a, kB, kC);
  Lines w;
  Edges(&w, kMap, kCover[0], {});
  Edges(&w, kMap, f, {kCover[0]});
  Same(Draw({f, kCover[0]}, gPerm[0] % 2, 0), w);
}
// Any depths of two facets that do not cut each other.
ENTRY C15_depth() {
  static const double at[4][2] = {{-2, 2}, {2.5, -2}, {-0.25, 1}, {0.5, -1}};
  int k = sym_choose("at", 4), cv = sym_choose("cover", 3);
  double z[6];
  for (int i = 0; i < 6; i++) {
    std::string n = "z" + std::to_string(i);
    z[i] = i > 3 ? 0 : sym_double(n.c_str(), -3, 3);
  }
  Flat3 f = Ccw({at[k][0], at[k][1], z[0]}, {kB.x, kB.y, z[4]}, {kC.x, kC.y, z[5]}), c = kCover[cv];
  for (int i = 0; i < 3; i++) c.p[i].z = z[1 + i];
  bool cf = Over(c, f), fc = Over(f, c);
  sym_assume(cf | fc);
  Lines w;
  Edges(&w, kMap, c, cf ? std::vector<Flat3>{} : std::vector<Flat3>{f});
  Edges(&w, kMap, f, cf ? std::vector<Flat3>{c} : std::vector<Flat3>{});
  Same(Draw({f, c}, k, 0), w);
}
// Two free corners.
ENTRY C15_ends() {
  double x = sym_double("x", -3, 3), y = sym_double("y", -3, 3), u = sym_double("u", -3, 3), v = sym_double("v", -3, 3);
  V3 a{x, y, -1}, b{u, v, -1}, c{3, 3, -1};
  double s = Cross(a, b, c);
  sym_assume((s > 1) | (s < -1));
  Flat3 f = Ccw(a, b, c), cover{{{-3, -3, 1}, {1, -1, 1}, {-1, 2, 1}}};
  Lines w;
  Edges(&w, kMap, cover, {});
  Edges(&w, kMap, f, {cover});
  Same(Draw({f, cover}, 0, 0), w);
}
// An edge that goes from a corner of a facet in under it.
static void Corner(double y, double k, V3 off, int side, int order, int turn) {
  V3 s{0, 0, 0}, a{2, -1.5, 1}, b{2, 1.5, .75}, c{1, y, -1}, d{-1, 2, -.5};
  double t = (.75 - y) / (3.5 - y);
  V3 e = c + (d - c) * t;  // where c-d comes out
  V3* all[6] = {&s, &a, &b, &c, &d, &e};
  for (V3* p : all) {
    if (side & 1) p->x = -p->x;
    if (side & 2) p->y = -p->y;
    *p = *p * k + off;
  }
  Flat3 f = Ccw(s, a, b), g = Ccw(s, c, d);
  std::rotate(f.p, f.p + turn % 3, f.p + 3);
  std::rotate(g.p, g.p + turn / 3, g.p + 3);
  Map m{72, 396 - ((a.x + d.x) / 2) * 72, 306 - ((a.y + d.y) / 2) * 72};
  Lines w;
  Add(&w, m, s, a);
  Add(&w, m, a, b);
  Add(&w, m, b, s);
  Add(&w, m, s, d);
  Add(&w, m, e, d);
  Same(Draw({f, g}, order, 0), w);
}
ENTRY C15_under() {
  double y = sym_double("y", -.7, .7);
  int side = sym_choose("side", 4), order = sym_choose("order", 2);
  Corner(y, 1, {0, 0, 0}, side, order, sym_choose("turn", 9));
}
// The same where coordinates round.
ENTRY C15_rounding() {
  static const double kK[4] = {1, .1, .7, 1.3}, kY[6] = {-.65, -.3, .1, 1 / 3., .57, .01}, kO[3][3] = {{0, 0, 0}, {.1, -.3, 7.7}, {13.37, 44.1, -3.3}};
  double y = kY[sym_choose("y", 6)], k = kK[sym_choose("k", 4)];
  const double* o = kO[sym_choose("o", 3)];
  int side = sym_choose("side", 4);
  Corner(y, k, {o[0], o[1], o[2]}, side, side / 2, side + sym_choose("turn", 3));
}
// What stands on a facet, or is part of the same plane, isn't behind it: in views by angles, too.
ENTRY C15_standing() {
  static const int kV[7][2] = {{0, 0}, {0, -62}, {30, 40}, {-75, 20}, {10, -50}, {137, 35}, {-160, -65}};
  int v = sym_choose("view", 7), order = sym_choose("order", 2);
  bool up = sym_choose("up", 2);
  double x = sym_double("x", -1, 1), y = sym_double("y", -1, 1), z = .3;
  V3 q[3] = {{-4, -4, z}, {5, -3, z}, {0, 5, z}}, p[3] = {{x, y, z}, {x + .7, y + .1, z}, {x + .2, y + .6, up ? z + .4 : z}};
  auto Spin = [&](V3 a) {
    double g = kV[v][0] * M_PI / 180, h = -kV[v][1] * M_PI / 180;
    double s = sin(g), c = cos(g), S = sin(h), C = cos(h);
    return V3{a.x * c - a.y * s, (a.x * s + a.y * c) * C - a.z * S, (a.x * s + a.y * c) * S + a.z * C};
  };
  auto Facet = [](const V3* p) {
    V3 a = p[1] - p[0], b = p[2] - p[0];
    return Tri{{{p[0].x, p[0].y, p[0].z}, {p[1].x, p[1].y, p[1].z}, {p[2].x, p[2].y, p[2].z}}, {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}};
  };
  std::vector<Tri> ts = {Facet(q), Facet(p)};
  if (order) std::swap(ts[0], ts[1]);
  File("m.stl", StlText(ts));
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];view=[" + std::to_string(kV[v][0]) + "," + std::to_string(kV[v][1]) + "];}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  V3 e[6];
  for (int i = 0; i < 3; i++) { e[i] = Spin(q[i]); e[3 + i] = Spin(p[i]); }
  bool face = Cross(e[3], e[4], e[5]) > 0;
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
  for (int i = 0; i < 3; i++) { x0 = std::min(x0, e[i].x); x1 = std::max(x1, e[i].x); y0 = std::min(y0, e[i].y); y1 = std::max(y1, e[i].y); }
  Map m{72, 396 - (x0 + x1) / 2 * 72, 306 - (y0 + y1) / 2 * 72};
  Lines w;
  for (int i = 0; i < 3; i++) { Add(&w, m, e[i], e[(i + 1) % 3]); if (face) Add(&w, m, e[3 + i], e[3 + (i + 1) % 3]); }
  Same(r, w);
  sym_reach(face ? "seen" : "turned away");
}
