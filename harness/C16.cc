// What is drawn of an edge is the edge minus the union of its hidden stretches.
#include "draw.h"
#include "stl-to-ps/stl.h"
// One edge with n hidden stretches [a,b] (as fractions), ordered by where they begin.
static void Check(int n, bool show) {
  V3 p = {-1, 2, 0.5}, q = {3, -1, 0.25};
  double fx = sym_double("sx", -3, 3);
  p.x = fx;
  sym_assume(fx < 2);
  auto At = [&](double t) { return V3{p.x + (q.x - p.x) * t, p.y + (q.y - p.y) * t, p.z + (q.z - p.z) * t}; };
  auto R = [](V3 v) { return Eigen::RowVector3d{v.x, v.y, v.z}; };
  std::vector<double> a(n), b(n);
  std::map<int, std::vector<stl2ps::Edge>> hides;
  for (int i = 0; i < n; i++) {
    std::string s(1, (char)('0' + i));
    a[i] = sym_double(("a" + s).c_str(), 0, 1);
    b[i] = sym_double(("b" + s).c_str(), 0, 1);
    sym_assume(a[i] < b[i]);
    if (i) sym_assume(a[i - 1] <= a[i]);
    hides[0].push_back({R(At(a[i])), R(At(b[i]))});
  }
  std::vector<stl2ps::Edge> edges{{R(p), R(q)}};
  auto got = stl2ps::GenerateLines(show, 1, 0, edges, hides);
  // reference: sweep
  std::vector<std::pair<double, double>> want;
  double from = 0;
  if (!show)
    for (int i = 0; i < n; i++) {
      if (a[i] > from) want.push_back({from, a[i]});
      if (b[i] > from) from = b[i];
    }
  if (from < 1) want.push_back({from, 1});
  SYM_ASSERT(got.size() == want.size(), "number of visible stretches");
  if (got.size() != want.size()) return;
  std::vector<double> c;
  for (auto& g : got) { double v[4] = {g.o.x(), g.o.y(), g.t.x(), g.t.y()}; c.insert(c.end(), v, v + 4); }
  for (auto& w : want) {
    V3 s = At(w.first), e = At(w.second);
    double v[4] = {s.x, s.y, e.x, e.y};
    if (sym_match(v, c.data(), 4, got.size(), 1e-6) < 0) sym_assert_some(v, c.data(), 4, got.size(), 1e-6, "visible stretch");
  }
  sym_reach(want.empty() ? "all hidden" : want.size() == 1 ? "one stretch" : "several stretches");
}
ENTRY C16_none() { Check(0, false); }
ENTRY C16_one() { Check(1, false); }
ENTRY C16_two() { Check(2, false); }
ENTRY C16_three() { Check(3, false); }
ENTRY C16_four() { Check(4, false); }
ENTRY C16_shown() { Check(2, true); }
