// A fixed model seen the same from all six sides, and reference vector arithmetic.
#ifndef VERIF_DRAW_H_
#define VERIF_DRAW_H_
#include "h.h"
struct V3 { double x, y, z; };
static inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static inline V3 operator*(V3 a, double k) { return {a.x * k, a.y * k, a.z * k}; }
static inline V3 operator/(V3 a, double k) { return {a.x / k, a.y / k, a.z / k}; }
static inline double Dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static inline std::string P3(V3 v) { return P3(v.x, v.y, v.z); }
using Lines = std::vector<std::vector<double>>;
static inline V3 SymV3(const char* n, double lo, double hi) {
  std::string s(n);
  double x = sym_double((s + "x").c_str(), lo, hi), y = sym_double((s + "y").c_str(), lo, hi), z = sym_double((s + "z").c_str(), lo, hi);
  return {x, y, z};
}
static const char* const kViews[6] = {"Z+", "X+", "Y-", "X-", "Y+", "Z-"};
// Where a named view puts a model point: page right, page up, towards the reader.
static V3 See(int view, V3 p) {
  switch (view) {
    case 0: return p;
    case 1: return {p.y, p.z, p.x};
    case 2: return {p.x, p.z, -p.y};
    case 3: return {-p.y, p.z, -p.x};
    case 4: return {-p.x, p.z, p.y};
    default: return {p.x, -p.y, -p.z};
  }
}
static V3 Unsee(int view, V3 q) {  // inverse of See
  switch (view) {
    case 0: return q;
    case 1: return {q.z, q.x, q.y};
    case 2: return {q.x, -q.z, q.y};
    case 3: return {-q.z, -q.x, q.y};
    case 4: return {-q.x, q.z, q.y};
    default: return {q.x, -q.y, -q.z};
  }
}
// Octahedron with corners at distance 2 on the axes.
static std::string Octa() {
  std::vector<Tri> t;
  for (int sx = -1; sx <= 1; sx += 2)
    for (int sy = -1; sy <= 1; sy += 2)
      for (int sz = -1; sz <= 1; sz += 2) {
        double s = sx, u = sy, w = sz;
        bool flip = sx * sy * sz < 0;
        Tri r;
        double a[3] = {2 * s, 0, 0}, b[3] = {0, 2 * u, 0}, c[3] = {0, 0, 2 * w};
        for (int i = 0; i < 3; i++) { r.v[0][i] = a[i]; r.v[1][i] = flip ? c[i] : b[i]; r.v[2][i] = flip ? b[i] : c[i]; }
        r.n[0] = s; r.n[1] = u; r.n[2] = w;
        t.push_back(r);
      }
  return StlText(t);
}
// Points of the unit circle, counterclockwise, and a flat round plate made of them.
static const double kOn[8][2] = {{1, 0}, {0.6, 0.8}, {0, 1}, {-0.8, 0.6}, {-1, 0}, {-0.6, -0.8}, {0.28, -0.96}, {0.8, -0.6}};
static std::string Plate(double r) {
  std::vector<Tri> t;
  for (int i = 1; i < 7; i++) t.push_back({{{r, 0, 0}, {kOn[i][0] * r, kOn[i][1] * r, 0}, {kOn[i + 1][0] * r, kOn[i + 1][1] * r, 0}}, {0, 0, 1}});
  return StlText(t);
}
struct Map { double scale, ox, oy; };  // page = model * scale + (ox, oy)
static void Add(Lines* w, Map m, V3 a, V3 b) {
  w->push_back({a.x * m.scale + m.ox, a.y * m.scale + m.oy, b.x * m.scale + m.ox, b.y * m.scale + m.oy});
}
static void AddOcta(Lines* w, Map m) {
  V3 p[4] = {{2, 0, 0}, {0, 2, 0}, {-2, 0, 0}, {0, -2, 0}};
  for (int i = 0; i < 4; i++) { Add(w, m, p[i], p[(i + 1) % 4]); Add(w, m, p[i], {0, 0, 0}); }
}
static const char* const kScales[3] = {"", "scale=1:2;", "scale=3:2;"};
static const double kScaleV[3] = {72, 36, 108};
// Numbers in drawn text: value within half a unit of the last of `prec` digits.
static void TextNum(const std::string& s, size_t b, size_t n, double want, int prec, const char* label) {
  double u = 0.5;
  for (int i = 0; i < prec; i++) u /= 10;
  SYM_ASSERT(sym_prec(s.data() + b, n) == prec, "digits after the point");
  sym_assert_near(sym_parse(s.data() + b, n), want, u * 1.002 + 1e-9, label);
}
#endif
