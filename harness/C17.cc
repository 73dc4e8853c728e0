// Where a drawing lands on the page: scale, centring, place, angle of view.
#include "draw.h"
static double Min(double a, double b) { return b < a ? b : a; }
static double Max(double a, double b) { return a < b ? b : a; }
// The outline of the triangle p (page directions, model units), centred on its bounding box.
static void Expect(const Result& r, const V3* p, double scale, double lx, double ly, size_t extra = 0) {
  SYM_ASSERT(r.ok, "accepted");
  if (!r.ok) return;
  SYM_ASSERT(r.ps.ok, "well formed");
  double cx = (Min(Min(p[0].x, p[1].x), p[2].x) + Max(Max(p[0].x, p[1].x), p[2].x)) / 2;
  double cy = (Min(Min(p[0].y, p[1].y), p[2].y) + Max(Max(p[0].y, p[1].y), p[2].y)) / 2;
  Map m{scale, 396 + lx * 72 - cx * scale, 306 + ly * 72 - cy * scale};
  Lines w;
  for (int i = 0; i < 3; i++) Add(&w, m, p[i], p[(i + 1) % 3]);
  AddTitleBox(&w);
  SameLines(r.ps, 1, w, 5e-3, "edge");
  sym_reach("drawn");
}
static Tri T(const V3* p, V3 n) {
  return {{{p[0].x, p[0].y, p[0].z}, {p[1].x, p[1].y, p[1].z}, {p[2].x, p[2].y, p[2].z}}, {n.x, n.y, n.z}};
}
// A triangle seen from above, corners, height and place arbitrary.
ENTRY C17_triangle() {
  V3 p[3] = {SymV3("a", -4, 4), SymV3("b", -4, 4), SymV3("c", -4, 4)};
  double area = (p[1].x - p[0].x) * (p[2].y - p[0].y) - (p[1].y - p[0].y) * (p[2].x - p[0].x);
  sym_assume(area > 0.01);
  double lx = sym_double("lx", -5, 5), ly = sym_double("ly", -4, 4);
  File("m.stl", StlText({T(p, {0, 0, 1})}));
  Expect(Run("load m=\"m.stl\";page{draw m{@" + P2(lx, ly) + ";}}"), p, 72, lx, ly);
}
// Every scale of whole numbers of one or two digits to one digit.
ENTRY C17_scale() {
  V3 p[3] = {{0, 0, 0}, {2, 0, 0}, {0, 1, 0}};
  p[2].x = sym_double("x", 1, 1.5);
  int a1 = sym_byte("a1"), a0 = sym_byte("a0"), b = sym_byte("b");
  sym_assume((a1 >= '0') & (a1 <= '9') & (a0 >= '0') & (a0 <= '9') & (b >= '1') & (b <= '9'));
  sym_assume((a1 > '0') | (a0 > '0'));
  a1 = sym_concrete(a1); a0 = sym_concrete(a0); b = sym_concrete(b);
  File("m.stl", StlText({T(p, {0, 0, 1})}));
  std::string s = std::string() + (char)a1 + (char)a0 + ":" + (char)b;
  double k = 72.0 * ((a1 - '0') * 10 + (a0 - '0')) / (b - '0');
  Expect(Run("load m=\"m.stl\";page{draw m{scale=" + s + ";@[1,1];}}"), p, k, 1, 1);
}
// Two numbers given as scale: accepted exactly when both are positive whole numbers.
ENTRY C17_ratio() {
  V3 p[3] = {{0, 0, 0}, {2, 0, 0}, {0, 1, 0}};
  File("m.stl", StlText({T(p, {0, 0, 1})}));
  std::string s[2];
  bool good = true;
  double v[2];
  for (int k = 0; k < 2; k++) {
    int c[3];
    for (int i = 0; i < 3; i++) {
      char nm[3] = {(char)('a' + k), (char)('0' + i), 0};
      c[i] = sym_byte(nm);
    }
    // a number of the form [-]d.d
    sym_assume((c[0] == '-') | (c[0] == '0'));
    sym_assume((c[1] >= '0') & (c[1] <= '3') & (c[2] >= '0') & (c[2] <= '9'));
    for (int i = 0; i < 3; i++) c[i] = sym_concrete(c[i]);
    s[k] = std::string() + (char)c[0] + (char)c[1] + "." + (char)c[2];
    good &= c[0] == '0' && c[1] > '0' && c[2] == '0';
    v[k] = c[1] - '0';
  }
  auto r = Run("load m=\"m.stl\";page{draw m{scale=" + s[0] + ":" + s[1] + ";@[1,1];}}");
  SYM_ASSERT(r.ok == good, "accepted iff a ratio of positive whole numbers");
  if (!good) { SYM_ASSERT(r.out.empty(), "nothing written"); sym_reach("refused"); return; }
  Expect(r, p, 72.0 * v[0] / v[1], 1, 1);
}
