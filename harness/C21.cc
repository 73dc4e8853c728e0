// near() and center(): points of the model named by a place near them.
#include "draw.h"
#include "stl-to-ps/ast.h"
#include "stl-to-ps/center.h"
using P = Eigen::RowVector2d;
static double D2(P a, P b) { double x = a.x() - b.x(), y = a.y() - b.y(); return x * x + y * y; }
static P Sym(const std::string& n, double lo, double hi) {
  double x = sym_double((n + "x").c_str(), lo, hi), y = sym_double((n + "y").c_str(), lo, hi);
  return P{x, y};
}
// The closest points, nearest first, copies counted once.
static void ClosestOf(int n, int copies, P to, bool around) {
  std::vector<P> own, ps;
  for (int i = 0; i < n; i++) {
    std::string nm = "p" + std::to_string(i);
    if (!around) { own.push_back(Sym(nm, -4, 4)); continue; }
    double k = sym_double(nm.c_str(), 0.125, 5);
    own.push_back(P{to.x() + kOn[i * 3 % 8][0] * k, to.y() + kOn[i * 3 % 8][1] * k});
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {
    double d = D2(own[i], to) - D2(own[j], to);
    sym_assume((d > 0.01) | (d < -0.01));
    sym_assume(D2(own[i], own[j]) > 1e-8);  // follows, as both are less than 12 from the target
  }
  ps = own;
  for (int i = 0; i < copies; i++) {
    int k = sym_choose("copy", n), at = sym_choose("at", ps.size() + 1);
    ps.insert(ps.begin() + at, own[k]);
  }
  int count = sym_choose("count", n + 2);
  auto got = stl2ps::point_impl::Closest(ps, count, to);
  int want = count < n ? count : n;
  SYM_ASSERT((int)got.size() == want, "number of points");
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) if (D2(own[j], to) < D2(own[i], to)) std::swap(own[i], own[j]);
  for (int i = 0; i < want && i < (int)got.size(); i++) {
    sym_assert_near(got[i].x(), own[i].x(), 1e-6, "closest first");
    sym_assert_near(got[i].y(), own[i].y(), 1e-6, "closest first");
  }
  sym_reach("closest");
}
ENTRY C21_closest() { ClosestOf(3, 0, Sym("t", -4, 4), false); }
ENTRY C21_closest4() { ClosestOf(4, 0, Sym("t", -4, 4), false); }
ENTRY C21_around() { ClosestOf(5, 0, P{0.5, -1}, true); }
ENTRY C21_copies() { ClosestOf(3, 2, P{0.5, -1}, true); }
ENTRY C21_ontarget() {  // one point is the target itself, several times
  P t = Sym("t", -3, 3);
  double ka = sym_double("ka", 0.125, 5), kb = sym_double("kb", 0.125, 5);
  P a{t.x() + 0.6 * ka, t.y() + 0.8 * ka}, b{t.x() - 0.28 * kb, t.y() - 0.96 * kb};
  double da = D2(a, t), db = D2(b, t);
  sym_assume((da > 0.01) & (db > 0.01));
  sym_assume((da - db > 0.01) | (db - da > 0.01));
  std::vector<P> ps = {a, b};
  for (int i = 0; i < 3; i++) ps.insert(ps.begin() + sym_choose("at", ps.size() + 1), t);
  auto got = stl2ps::point_impl::Closest(ps, 3, t);
  SYM_ASSERT(got.size() == 3, "number of points");
  if (got.size() != 3) return;
  P w[3] = {t, da < db ? a : b, da < db ? b : a};
  for (int i = 0; i < 3; i++) { sym_assert_near(got[i].x(), w[i].x(), 1e-6, "closest first"); sym_assert_near(got[i].y(), w[i].y(), 1e-6, "closest first"); }
  sym_reach("closest");
}
// Equally far points are still points of their own, whatever their order and copies.
// (Whole numbers, so that they are equally far in every arithmetic.)
ENTRY C21_ties() {
  static const double kWhole[8][2] = {{5, 0}, {4, 3}, {3, 4}, {-3, 4}, {-5, 0}, {0, -5}, {3, -4}, {4, -3}};
  P to{0.5, -1};
  double r = sym_double("r", 0.0625, 1), q = sym_double("q", 0.125, 5);
  double gap = q - 5 * r;
  sym_assume((gap > 0.01) | (gap < -0.01));
  int n = 3 + sym_choose("n", 3), at = sym_choose("first", 3), far = sym_choose("far", 2);
  std::vector<P> own, ps;
  for (int i = 0; i < n; i++) { const double* o = kWhole[(i + at) % 8]; own.push_back(P{to.x() + o[0] * r, to.y() + o[1] * r}); }
  if (far) own.insert(own.begin() + sym_choose("where", n), P{to.x() - 0.6 * q, to.y() + 0.8 * q});
  ps = own;
  ps.insert(ps.begin() + sym_choose("at", 3), own[sym_choose("copy", 2) * (own.size() - 1)]);
  int count = sym_choose("count", own.size() + 2);
  auto got = stl2ps::point_impl::Closest(ps, count, to);
  std::vector<double> d;
  for (auto& o : own) d.push_back(D2(o, to));
  std::sort(d.begin(), d.end(), [](double a, double b) { return a < b - 1e-4; });
  int want = std::min<int>(count, own.size());
  SYM_ASSERT((int)got.size() == want, "number of points");
  for (int i = 0; i < want && i < (int)got.size(); i++) {
    sym_assert_near(D2(got[i], to), d[i], 1e-4, "closest first");
    bool mine = false;
    for (auto& o : own) mine = mine | (D2(o, got[i]) < 1e-9);
    SYM_ASSERT(mine, "a point that was given");
    for (int j = 0; j < i; j++) SYM_ASSERT(D2(got[i], got[j]) > 1e-6, "each once");
  }
  sym_reach("closest");
}
ENTRY C21_between() {
  P to = Sym("t", -4, 4);
  std::vector<P> ps, want;
  double lo = sym_double("lo", 0, 4), hi = sym_double("hi", 0, 4);
  for (int i = 0; i < 3; i++) {
    ps.push_back(Sym("p" + std::to_string(i), -4, 4));
    double d = D2(ps[i], to), a = d - lo * lo, b = d - hi * hi;
    sym_assume(((a > 1e-3) | (a < -1e-3)) & ((b > 1e-3) | (b < -1e-3)));
    if (a > 0 && b < 0) want.push_back(ps[i]);
  }
  auto got = stl2ps::point_impl::Between(ps, lo, hi, to);
  SYM_ASSERT(got.size() == want.size(), "number of points");
  for (size_t i = 0; i < want.size() && i < got.size(); i++) {
    sym_assert_near(got[i].x(), want[i].x(), 1e-6, "in order");
    sym_assert_near(got[i].y(), want[i].y(), 1e-6, "in order");
  }
  sym_reach("between");
}

// Points on a circle, anywhere and of any size: its centre and radius.
ENTRY C21_circle() {
  double x = sym_double("x", -4, 4), y = sym_double("y", -4, 4), r = sym_double("r", 0.25, 4);
  int n = 3 + sym_choose("n", 4), at = sym_choose("at", 3);
  std::vector<P> ps;
  for (int i = 0; i < n; i++) { const double* o = kOn[(i + at) % 8]; ps.push_back(P{x + o[0] * r, y + o[1] * r}); }
  P c;
  double rad;
  SYM_ASSERT(stl2ps::FindCircle(ps, &c, &rad), "found");
  sym_assert_near(c.x(), x, 1e-4, "centre x");
  sym_assert_near(c.y(), y, 1e-4, "centre y");
  sym_assert_near(rad, r, 1e-4, "radius");
  sym_reach("circle");
}
// Any three points: all are as far from the centre as the radius says.
ENTRY C21_three() {
  // every triangle is its middle and two corners seen from there; up to a turn and its size, one of them is given
  static const double kB[3][2] = {{1, 0.5}, {-0.25, 2}, {0, -1}};
  int w = sym_choose("b", 3);
  P a{sym_double("ax", -2, 2), sym_double("ay", -2, 2)}, b{kB[w][0], kB[w][1]}, m = Sym("m", -100, 100);
  std::vector<P> ps = {P{m.x() + a.x(), m.y() + a.y()}, P{m.x() + b.x(), m.y() + b.y()}, P{m.x() - a.x() - b.x(), m.y() - a.y() - b.y()}};
  double area = b.x() * a.y() - b.y() * a.x();
  sym_assume((area > 0.25) | (area < -0.25));
  int k = sym_choose("first", 3);
  std::rotate(ps.begin(), ps.begin() + k, ps.end());
  P c;
  double r;
  SYM_ASSERT(stl2ps::FindCircle(ps, &c, &r), "found");
  for (auto& p : ps) sym_assert_near(D2(p, c), r * r, 1e-4, "on the circle");
  sym_reach("circle");
}
// In scripts: the point that a dim runs from shows in its extension line.
static const char kDim[] = "dim(at=[0,6,0],dir=[1,0,0],to=[7,0,0],from=";
static bool Resolve(int view, const std::string& from, double* x, double* y, std::string* err) {
  auto r = Run(std::string("load m=\"m.stl\";page{draw m{@[0,0];view=\"") + kViews[view] + "\";dim(at=" + P3(Unsee(view, {0, 6, 0})) +
               ",dir=" + P3(Unsee(view, {1, 0, 0})) + ",to=" + P3(Unsee(view, {7, 0, 0})) + ",from=" + from + ");}}");
  *err = r.err;
  if (!r.ok) { SYM_ASSERT(r.out.empty(), "nothing written"); return false; }
  // lines of a dim: 2 of dimension, then the extension lines
  const PsItem* l = r.ps.nth('l', r.ps.count('l') - 2 - 6);
  SYM_ASSERT(l, "extension line");
  if (!l) return false;
  *x = l->x[2];
  *y = l->x[3];
  return true;
}
static std::string In(int view, V3 p) { return P3(Unsee(view, p)); }
static void Expect(int view, const std::string& f, double wx, double wy) {
  double x, y;
  std::string err;
  bool ok = Resolve(view, f, &x, &y, &err);
  SYM_ASSERT(ok, "found");
  if (!ok) return;
  // below the dimension line, two points short of the point itself
  sym_assert_near(x, 396 + wx * 72, 5e-3, "point x");
  sym_assert_near(y, 306 + wy * 72 + 2, 5e-3, "point y");
  sym_reach("point");
}
ENTRY C21_near() {
  File("m.stl", Octa());
  int view = sym_choose("view", 6);
  V3 t = SymV3("t", -4, 4);
  static const double c[5][2] = {{2, 0}, {0, 2}, {-2, 0}, {0, -2}, {0, 0}};
  int best = 0;
  double d[5];
  for (int i = 0; i < 5; i++) {
    d[i] = (t.x - c[i][0]) * (t.x - c[i][0]) + (t.y - c[i][1]) * (t.y - c[i][1]);
    if (d[i] < d[best]) best = i;
  }
  bool clear = true;
  for (int i = 0; i < 5; i++) clear = clear & (i == best || d[i] > d[best] + 0.01);
  sym_assume(clear);
  Expect(view, "near(" + In(view, t) + ")", c[best][0], c[best][1]);
}
// Two corners straight above each other: the one named exactly is the one meant.  It is the true
// distance that is shown, along the view.
ENTRY C21_exact() {
  double h = sym_double("h", 0.5, 3);
  std::vector<Tri> t = {{{{0, 0, 0}, {2, 0, 0}, {0, 2, 0}}, {0, 0, 1}}, {{{0, 0, h}, {2, 0, h}, {0, 2, h}}, {0, 0, 1}}};
  File("m.stl", StlText(t));
  int a = sym_choose("a", 3), b = sym_choose("b", 3), up = sym_choose("up", 2), up2 = sym_choose("up2", 2);
  V3 p{t[up].v[a][0], t[up].v[a][1], t[up].v[a][2]}, q{t[up2].v[b][0], t[up2].v[b][1], t[up2].v[b][2]};
  V3 d = q - p;
  double len = d.x + d.y + d.z;  // along (1,1,1)
  sym_assume((len > 0.25) | (len < -0.25));
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];dim(at=[0,0,0],dir=[1,2,2],from=near(" + P3(p) + "),to=near(" + P3(q) + "));}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  double v = (d.x + 2 * d.y + 2 * d.z) / 3;
  sym_assume((v > 0.01) | (v < -0.01));
  const PsItem* s = r.ps.nth('c', 0);
  SYM_ASSERT(s, "text");
  if (s) TextNum(s->s, 0, s->s.size(), v < 0 ? -v : v, 3, "distance of the named corners");
  sym_reach("point");
}
// Two round features: the one near the given place.
ENTRY C21_center() {
  static const double cx[2] = {-2.5, 2.5}, cy[2] = {0.5, -1}, cr[2] = {0.5, 1.5};
  std::vector<Tri> t;
  for (int f = 0; f < 2; f++)
    for (int i = 0; i < 5; i++) {
      const double *a = kOn[i], *b = kOn[i + 1];
      Tri q = {{{cx[f] + a[0] * cr[f], cy[f] + a[1] * cr[f], 0}, {cx[f] + b[0] * cr[f], cy[f] + b[1] * cr[f], 0}, {cx[f], 4, -1}}, {0, 0, 1}};
      // only the rim matters: the third corner is far away
      t.push_back(q);
    }
  double y0 = 1e9, y1 = -1e9, x0 = 1e9, x1 = -1e9;
  for (auto& q : t) for (auto& v : q.v) { y0 = std::min(y0, v[1]); y1 = std::max(y1, v[1]); x0 = std::min(x0, v[0]); x1 = std::max(x1, v[0]); }
  File("m.stl", StlText(t));
  int f = sym_choose("which", 2), view = sym_choose("nested", 2);
  double x = sym_double("x", -0.25, 0.25), y = sym_double("y", -0.25, 0.25);
  V3 p{cx[f] + x, cy[f] + y, 0};
  double gx, gy;
  std::string err;
  bool ok = Resolve(0, view ? "center(center(" + P3(p) + "))" : "center(" + P3(p) + ")", &gx, &gy, &err);
  SYM_ASSERT(ok, "found");
  if (!ok) return;
  sym_assert_near(gx, 396 + (cx[f] - (x0 + x1) / 2) * 72, 5e-3, "point x");
  sym_assert_near(gy, 306 + (cy[f] - (y0 + y1) / 2) * 72 + 2, 5e-3, "point y");
  sym_reach("point");
}
// Other names are refused, wherever they are.
ENTRY C21_names() {
  File("m.stl", Octa());
  int n = 1 + sym_choose("n", 6), nest = sym_choose("nest", 3);
  std::string s;
  for (int i = 0; i < n; i++) {
    char nm[3] = {'c', (char)('0' + i), 0};
    unsigned char c = sym_byte(nm);
    sym_assume(i < 4 ? ((c >= 'a') & (c <= 'z')) | (c == '_') : c == (unsigned char)"xxxxer"[i]);
    s += (char)c;
  }
  for (const char* k : {"dia", "dim", "rad", "angle", "draw", "load", "page", "text"}) sym_assume(s != k);
  std::string f = s + "([2,0,0])";
  if (nest == 1) f = "near(" + f + ")";
  if (nest == 2) f = s + "(near([2,0,0]))";
  bool good = s == "near" || s == "center";
  double x, y;
  std::string err;
  bool ok = Resolve(0, f, &x, &y, &err);
  SYM_ASSERT(ok == good, "only near and center");
  if (!ok) SYM_ASSERT(!err.empty(), "explained");
  sym_reach(ok ? "known" : "unknown");
}
// The same far from the origin.
ENTRY C21_far() {
  static const double kAt[5] = {0, 100, -1000, 3000, 10000}, kR[3] = {0.5, 2, 40};
  double x = kAt[sym_choose("x", 5)], y = kAt[sym_choose("y", 5)] * .7, r = kR[sym_choose("r", 3)];
  int n = 3 + sym_choose("n", 6), at = sym_choose("at", 3);
  std::vector<P> ps;
  for (int i = 0; i < n; i++) { const double* o = kOn[(i + at) % 8]; ps.push_back(P{x + o[0] * r, y + o[1] * r}); }
  P c;
  double rad;
  SYM_ASSERT(stl2ps::FindCircle(ps, &c, &rad), "found");
  sym_assert_near(c.x(), x, 1e-4, "centre x");
  sym_assert_near(c.y(), y, 1e-4, "centre y");
  sym_assert_near(rad, r, 1e-4, "radius");
  sym_reach("circle");
}
// Copies of a point apart by rounding are one point.
ENTRY C21_rounding() {
  static const double kD[3] = {-1e-12, 0, 1e-12};
  P t{0.5, -1};
  double ka = sym_double("ka", 0.125, 5), kb = sym_double("kb", 0.125, 5);
  P a{t.x() + 0.6 * ka, t.y() + 0.8 * ka}, b{t.x() - 0.28 * kb, t.y() - 0.96 * kb};
  double da = ka - kb;
  sym_assume((da > 0.01) | (da < -0.01));
  bool on = sym_choose("on", 2);
  P o = on ? t : a;
  P e{o.x() + kD[sym_choose("dx", 3)], o.y() + kD[sym_choose("dy", 3)]};
  std::vector<P> ps = {a, b};
  if (on) ps.insert(ps.begin() + sym_choose("at", 3), t);
  ps.insert(ps.begin() + sym_choose("at2", ps.size() + 1), e);
  auto got = stl2ps::point_impl::Closest(ps, 3, t);
  size_t n = on ? 3 : 2;
  SYM_ASSERT(got.size() == n, "number of points");
  if (got.size() != n) return;
  P w[3] = {t, ka < kb ? a : b, ka < kb ? b : a};
  for (size_t i = 0; i < n; i++) {
    P& q = w[on ? i : i + 1];
    sym_assert_near(got[i].x(), q.x(), 1e-6, "closest first");
    sym_assert_near(got[i].y(), q.y(), 1e-6, "closest first");
  }
  sym_reach("closest");
}
