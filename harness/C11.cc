// Which side of a facet is outside is what its normal says, whatever the order of its corners.
#include "draw.h"
static Tri T(V3 a, V3 b, V3 c, V3 n) { return {{{a.x, a.y, a.z}, {b.x, b.y, b.z}, {c.x, c.y, c.z}}, {n.x, n.y, n.z}}; }
static V3 Cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static void Drawn(const Result& r, const V3* p, bool seen, const char* label) {
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  int n = r.ps.count('l') - 2;
  SYM_ASSERT(n == (seen ? 3 : 0), label);
  if (n != 3 || !seen) { sym_reach("not drawn"); return; }
  sym_reach("drawn");
}
// Any corners (in any order), any normal that leans to one side.
ENTRY C11_side() {
  V3 p[3] = {SymV3("a", -4, 4), SymV3("b", -4, 4), SymV3("c", -4, 4)}, n = SymV3("n", -1, 1);
  V3 c = Cross(p[1] - p[0], p[2] - p[0]);
  double lean = Dot(c, n);
  sym_assume((lean > 0.01) | (lean < -0.01));
  sym_assume((c.z > 0.01) | (c.z < -0.01));
  File("m.stl", StlText({T(p[0], p[1], p[2], n)}));
  Drawn(Run("load m=\"m.stl\";page{draw m{@[0,0];}}"), p, (lean > 0) == (c.z > 0), "drawn iff its outside faces the reader");
}
// Facets with no normal are left out; what is left is drawn as if they were not there.
ENTRY C11_zero() {
  V3 n = {0, 0, 0};
  double k = sym_double("nz", -1, 1);
  int where = sym_choose("where", 3);
  V3 a[3] = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}}, b[3] = {{3, 0, 0}, {5, 0, 0}, {3, 2, 0}};
  n.z = k;
  std::vector<Tri> ts;
  if (where == 0) ts = {T(b[0], b[1], b[2], n), T(a[0], a[1], a[2], {0, 0, 1})};
  else if (where == 1) ts = {T(a[0], a[1], a[2], {0, 0, 1}), T(b[0], b[1], b[2], n)};
  else ts = {T(b[0], b[1], b[2], n)};
  File("m.stl", StlText(ts));
  auto r = Run("load m=\"m.stl\";page{draw m{@[0,0];}}");
  SYM_ASSERT(r.ok && r.ps.ok, "accepted");
  if (!r.ok) return;
  int want = (where == 2 ? 0 : 3) + (k > 0 ? 3 : 0);
  SYM_ASSERT(r.ps.count('l') - 2 == want, "facets without a normal left out");
  sym_reach(k > 0 ? "kept" : "left out");
}
