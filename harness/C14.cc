// An edge shared by two visible facets is drawn once, and not at all where the surface is (nearly) flat.
#include "draw.h"
static V3 Cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static Tri T(const V3* p, int rot, bool rev) {
  Tri t;
  V3 n = Cross(p[1] - p[0], p[2] - p[0]);
  for (int i = 0; i < 3; i++) {
    V3 q = p[((rev ? 2 - i : i) + rot) % 3];
    t.v[i][0] = q.x; t.v[i][1] = q.y; t.v[i][2] = q.z;
  }
  t.n[0] = n.x; t.n[1] = n.y; t.n[2] = n.z;
  return t;
}
static void Check(const V3* A, const V3* B, const std::vector<Tri>& ts, const V3* pts, int np, bool seam) {
  File("m.stl", StlText(ts));
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  double x0 = pts[0].x, x1 = x0, y0 = pts[0].y, y1 = y0;
  for (int i = 0; i < np; i++) {
    if (pts[i].x < x0) x0 = pts[i].x;
    if (pts[i].x > x1) x1 = pts[i].x;
    if (pts[i].y < y0) y0 = pts[i].y;
    if (pts[i].y > y1) y1 = pts[i].y;
  }
  Map m{72, 396 - (x0 + x1) / 2 * 72, 306 - (y0 + y1) / 2 * 72};
  Lines w;
  Add(&w, m, A[1], A[2]);
  Add(&w, m, A[2], A[0]);
  Add(&w, m, B[1], B[2]);
  Add(&w, m, B[2], B[0]);
  if (seam) Add(&w, m, A[0], A[1]);
  AddTitleBox(&w);
  SameLines(r.ps, 1, w, 5e-3, "edge");
  sym_reach(seam ? "ridge drawn" : "flat seam not drawn");
}
// Two facets meeting along (0,0)-(0,2): corners at height h and k on either side, in any file and corner order.
static void Fold(double h, double k, bool orders) {
  V3 A[3] = {{0, 2, 0}, {0, 0, 0}, {2, 1, h}}, B[3] = {{0, 0, 0}, {0, 2, 0}, {-2, 1, k}};
  V3 na = Cross(A[1] - A[0], A[2] - A[0]), nb = Cross(B[1] - B[0], B[2] - B[0]);
  // cos of the angle between them is .98 where the flat part ends
  double d = Dot(na, nb), q = Dot(na, na) * Dot(nb, nb);
  // d/sqrt(q) against .98, and clear of it
  bool flat = d > 0 && d * d > q * (.9805 * .9805);
  bool fold = d <= 0 || d * d < q * (.9795 * .9795);
  sym_assume(flat || fold);
  int ra = orders ? sym_choose("ra", 3) : 0, rb = orders ? sym_choose("rb", 3) : 1;
  bool va = orders && sym_choose("va", 2), vb = orders && sym_choose("vb", 2), first = orders && sym_choose("first", 2);
  std::vector<Tri> ts = {T(A, ra, va), T(B, rb, vb)};
  if (first) std::swap(ts[0], ts[1]);
  V3 pts[4] = {A[0], A[1], A[2], B[2]};
  Check(A, B, ts, pts, 4, fold);
}
ENTRY C14_fold() { double h = sym_double("h", -3, 3); Fold(h, sym_double("k", -3, 3), false); }
ENTRY C14_order() { double h = sym_double("h", -1, 1); Fold(h, 0.125, true); }
// Facets that only touch the same line, but with different end points, do not share it.
ENTRY C14_apart() {
  double s = sym_double("s", 0.01, 1);
  V3 A[3] = {{0, 2, 0}, {0, 0, 0}, {2, 1, 0}}, B[3] = {{0, 0, 0}, {0, 2, 0}, {-2, 1, 0}};
  for (auto& p : B) p.x -= s;
  V3 pts[6] = {A[0], A[1], A[2], B[0], B[1], B[2]};
  File("m.stl", StlText({T(A, 0, false), T(B, 0, false)}));
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  Map m{72, 396 + s / 2 * 72, 306 - 72.0};
  Lines w;
  for (int i = 0; i < 3; i++) { Add(&w, m, A[i], A[(i + 1) % 3]); Add(&w, m, B[i], B[(i + 1) % 3]); }
  AddTitleBox(&w);
  SameLines(r.ps, 1, w, 5e-3, "edge");
  sym_reach("both edges drawn");
}
// Four facets around a point at any height, in any file order: none, some or all of the ridges are flat.
ENTRY C14_fan() {
  double h = sym_double("h", -1, 1);
  V3 c[4] = {{-2, -2, 0}, {2, -2, 0}, {2, 2, 0}, {-2, 2, 0}}, e{0.25, 0.5, h}, n[4];
  for (int i = 0; i < 4; i++) n[i] = Cross(c[(i + 1) % 4] - c[i], e - c[i]);
  bool fold[4];
  for (int i = 0; i < 4; i++) {  // ridge from corner i
    V3 a = n[i], b = n[(i + 3) % 4];
    double d = Dot(a, b), q = Dot(a, a) * Dot(b, b);
    bool flat = d > 0 && d * d > q * (.9805 * .9805);
    fold[i] = d <= 0 || d * d < q * (.9795 * .9795);
    sym_assume(flat || fold[i]);
  }
  int rot = sym_choose("rot", 3);
  std::vector<Tri> all, ts;
  for (int i = 0; i < 4; i++) { V3 p[3] = {c[i], c[(i + 1) % 4], e}; all.push_back(T(p, rot, false)); }
  for (int k = 4; k > 0; k--) { int j = sym_choose("order", k); ts.push_back(all[j]); all.erase(all.begin() + j); }
  File("m.stl", StlText(ts));
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  Map m{72, 396, 306};
  Lines w;
  bool some = false;
  for (int i = 0; i < 4; i++) {
    Add(&w, m, c[i], c[(i + 1) % 4]);
    if (fold[i]) { Add(&w, m, c[i], e); some = true; }
  }
  AddTitleBox(&w);
  SameLines(r.ps, 1, w, 5e-3, "edge");
  sym_reach(some ? "ridge drawn" : "flat seam not drawn");
}
// A ridge as sharp as a knife, or a valley, is still one.
ENTRY C14_sharp() {
  double h = sym_double("h", -200, 200);
  int k = sym_choose("k", 5);
  static const double kK[5] = {-100, -20, 0.5, 20, 100};
  Fold(h, kK[k], false);
}
// Edges from one corner to two that are straight above each other are two edges.
ENTRY C14_above() {
  double h = sym_double("h", 0.03125, 1);
  int ra = sym_choose("ra", 3), rb = sym_choose("rb", 3), first = sym_choose("first", 2), turn = sym_choose("turn", 2);
  double z = turn ? -h : h;
  V3 A[3] = {{0, 2, z}, {0, 0, 0}, {2, 1, 0}}, B[3] = {{0, 0, 0}, {0, 2, 0}, {-2, 1, 0}};
  if (sym_choose("up", 2)) for (int i = 0; i < 3; i++) { A[i].y = -A[i].y; B[i].y = -B[i].y; }
  auto U = [](const V3* p, int rot) {  // counterclockwise as seen
    double d = (p[1].x - p[0].x) * (p[2].y - p[0].y) - (p[1].y - p[0].y) * (p[2].x - p[0].x);
    V3 q[3] = {p[0], d > 0 ? p[1] : p[2], d > 0 ? p[2] : p[1]};
    return T(q, rot, false);
  };
  std::vector<Tri> ts = {U(A, ra), U(B, rb)};
  if (first) std::swap(ts[0], ts[1]);
  File("m.stl", StlText(ts));
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  Map m{72, 396, 306 - (A[0].y / 2) * 72};
  Lines w;
  Add(&w, m, A[1], A[2]);
  Add(&w, m, A[2], A[0]);
  Add(&w, m, B[1], B[2]);
  Add(&w, m, B[2], B[0]);
  // on paper the two are one line
  Lines w1 = w, w2;
  Add(&w1, m, A[0], A[1]);
  w2 = w1;
  Add(&w2, m, A[0], A[1]);
  AddTitleBox(&w1);
  AddTitleBox(&w2);
  SameLines(r.ps, 1, r.ps.count('l') == (int)w2.size() ? w2 : w1, 5e-3, "edge");
  sym_reach("both edges drawn");
}
