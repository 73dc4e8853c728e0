// Parts don't affect each other: a part's drawing is the same alone, after other parts, on any page.
#include "draw.h"
static void Models() {
  File("m.stl", Octa());
  std::vector<Tri> t = {{{{-2, -2, 0}, {2, -2, 0}, {2, 2, 0}}, {0, 0, 1}}, {{{-2, -2, 0}, {2, 2, 0}, {-2, 2, 0}}, {0, 0, 1}}};
  File("p.stl", StlText(t));
}
static const char kLoad[] = "load m=\"m.stl\";load p=\"p.stl\";";
// The parts' own items: everything but the page's footer and title.
static std::vector<PsItem> Body(const PsDoc& d, int page, char kind) {
  std::vector<PsItem> v;
  for (auto& i : d.items) if (i.page == page && i.kind == kind) v.push_back(i);
  if (kind == 't') { v.erase(v.begin()); v.pop_back(); }
  if (kind == 'l') { v.pop_back(); v.pop_back(); }
  return v;
}
static std::string PartText(int kind, double x, double y) {
  switch (kind) {
    case 0: return "draw m{@" + P2(x, y) + ";}";
    case 1: return "draw p{scale=1:3;view=\"Z+\";}";
    case 2: return "text[\"hello\\nworld\"]{@" + P2(x, y) + ";}";
    case 3: return "draw m{view=\"X-\";scale=2:1;dim(at=[0,0,0],dir=[0,1,0],from=near([0,2,0]),to=near([0,-2,0]));}";
    case 4: return "draw p{@[1,1];dia(at=[3,3,0],dir=[1,1,0],center=[0,0,0],fmt=\"%.1f\");rad(at=[-3,3,0],dir=[-1,1,0],center=center([0,0,0]));}";
    case 5: return "draw p{view=[90,0];dim(at=[0,0,0],dir=[0,1,0],from=[-2,2,0],to=near([2,-2,0]));@" + P2(y, x) + ";}";
    default: return "draw m{angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[0,1,0]);scale=1:2;}";
  }
}
static const int kKinds = 7;
static void Same(const std::vector<PsItem>& a, const std::vector<PsItem>& b, size_t at) {
  for (size_t i = 0; i < a.size(); i++) {
    if (at + i >= b.size()) return;
    const PsItem &p = a[i], &q = b[at + i];
    if (p.kind == 't' || p.kind == 'c') {
      bool nums = p.s.size() == q.s.size();
      SYM_ASSERT(nums && p.s == q.s, "same text");
    }
    for (int k = 0; k < 5; k++) sym_assert_near(p.x[k], q.x[k], 1e-3, "same place");
  }
}
static void Compare(const Result& whole, const std::vector<Result>& alone, const std::vector<int>& page, int pages) {
  SYM_ASSERT(whole.ok && whole.ps.ok, "accepted");
  for (auto& r : alone) { SYM_ASSERT(r.ok && r.ps.ok, "accepted alone"); if (!r.ok) return; }
  if (!whole.ok) return;
  for (char kind : {'l', 'a', 't', 'c'}) {
    for (int g = 1; g <= pages; g++) {
      auto all = Body(whole.ps, g, kind);
      size_t at = 0;
      for (size_t i = 0; i < alone.size(); i++) {
        if (page[i] != g) continue;
        auto own = Body(alone[i].ps, 1, kind);
        Same(own, all, at);
        at += own.size();
      }
      SYM_ASSERT(at == all.size(), "nothing more, nothing less");
    }
  }
  sym_reach("compared");
}
static void Parts(int n, int pages) {
  Models();
  std::vector<std::string> body(pages);
  std::vector<int> page;
  std::vector<Result> alone;
  for (int i = 0; i < n; i++) {
    int k = sym_choose("part", kKinds), g = pages > 1 ? sym_choose("page", pages) : 0;
    std::string nx = "x" + std::to_string(i), ny = "y" + std::to_string(i);
    double x = sym_double(nx.c_str(), -4, 4), y = sym_double(ny.c_str(), -3, 3);
    std::string t = PartText(k, x, y);
    body[g] += t;
    page.push_back(g + 1);
    alone.push_back(Run(kLoad + ("page{" + t + "}")));
  }
  std::string s = kLoad;
  for (auto& b : body) s += "page{" + b + "}";
  Compare(Run(s), alone, page, pages);
}
ENTRY C24_two() { Parts(2, 2); }
ENTRY C24_three() { Parts(3, 1); }
// Two annotations of one drawing.
ENTRY C24_notes() {
  Models();
  static const char* const t[] = {"dim(at=[0,0,0],dir=[1,0,0],from=[-1,0,0],to=near([2,0,0]));", "dia(at=[3,3,0],dir=[1,1,0],center=near([1,1,0]));",
      "rad(at=[0,3,0],dir=[1,1,0],center=center([0,0,0]),fmt=\"%.0f\");", "angle(at=[1,1,0],apex=near([1,1,0]),from_dir=[1,0,0],to_point=[0,3,0]);",
      "dim(at=[0,1,0],dir=[1,1,0],from=[-1,0,0],to=center([2,0,0]),fmt=\"%.1f\");"};
  std::string head = "draw p{view=\"Z+\";scale=3:2;", both;
  auto base = Run(kLoad + ("page{" + head + "}}"));
  std::vector<Result> alone;
  for (int i = 0; i < 3; i++) {
    int k = sym_choose("note", 5);
    both += t[k];
    alone.push_back(Run(kLoad + ("page{" + head + t[k] + "}}")));
  }
  auto whole = Run(kLoad + ("page{" + head + both + "}}"));
  SYM_ASSERT(whole.ok && base.ok, "accepted");
  if (!whole.ok || !base.ok) return;
  for (char kind : {'l', 'a', 't', 'c'}) {
    auto all = Body(whole.ps, 1, kind), b0 = Body(base.ps, 1, kind);
    Same(b0, all, 0);
    size_t at = b0.size();
    for (auto& r : alone) {
      SYM_ASSERT(r.ok, "accepted alone");
      if (!r.ok) return;
      auto own = Body(r.ps, 1, kind);
      own.erase(own.begin(), own.begin() + b0.size());
      Same(own, all, at);
      at += own.size();
    }
    SYM_ASSERT(at == all.size(), "nothing more, nothing less");
  }
  sym_reach("compared");
}
// The same script twice in one process gives the same pages.
ENTRY C24_again() {
  Models();
  int k = sym_choose("part", kKinds), j = sym_choose("between", 4);
  double x = sym_double("x", -4, 4), y = sym_double("y", -3, 3);
  std::string s = kLoad + ("page{name=\"one\";" + PartText(k, x, y) + "}page{}");
  static const char* const between[] = {"", "page{", "load m=\"p.stl\";page{draw m{scale=3:1;view=\"Y+\";}}", "load m=\"none.stl\";"};
  auto a = Run(s);
  if (j) Run(between[j]);
  auto b = Run(s);
  SYM_ASSERT(a.ok && b.ok && a.ps.ok && b.ps.ok, "accepted");
  if (!a.ok || !b.ok) return;
  SYM_ASSERT(a.ps.items.size() == b.ps.items.size(), "same parts");
  Same(a.ps.items, b.ps.items, 0);
  sym_reach("compared");
}
// The same with models of any shape: loading and drawing others doesn't matter.
ENTRY C24_shapes() {
  double h[2], n[2];
  for (int i = 0; i < 2; i++) {
    std::string k = std::to_string(i);
    h[i] = sym_double(("h" + k).c_str(), -3, 3);
    n[i] = sym_double(("n" + k).c_str(), -1, 1);
    sym_assume((n[i] > 0.01) | (n[i] < -0.01));
    std::vector<Tri> t = {{{{-2, -2, 0}, {2, -2, 0}, {0, 0, h[i]}}, {0, 0, n[i]}}, {{{-2, -2, 0}, {0, 0, h[i]}, {-2, 2, 0}}, {0, 0, n[i] * 2}}, {{{2, -2, 0}, {2, 2, 1}, {0, 0, h[i]}}, {0, 0, 1}}};
    File(i ? "b.stl" : "a.stl", StlText(t));
  }
  int order = sym_choose("order", 4);
  std::string ld[2] = {"load a=\"a.stl\";", "load b=\"b.stl\";"}, dr[2] = {"draw a{@[-1,0];scale=1:2;}", "draw b{@[1,1];}"};
  auto a = Run(ld[0] + "page{" + dr[0] + "}"), b = Run(ld[1] + "page{" + dr[1] + "}");
  SYM_ASSERT(a.ok && b.ok, "accepted alone");
  if (!a.ok || !b.ok) return;
  std::string two = order & 1 ? dr[1] + dr[0] : dr[0] + dr[1];
  auto w = Run((order & 2 ? ld[1] + ld[0] : ld[0] + ld[1]) + "page{" + two + dr[0] + "}");
  std::vector<Result> alone = {order & 1 ? b : a, order & 1 ? a : b, a};
  Compare(w, alone, {1, 1, 1}, 1);
}
// A model of the same name read again is the model the file has now.
ENTRY C24_files() {
  double h[2];
  std::string t[2];
  for (int i = 0; i < 2; i++) {
    h[i] = sym_double(("h" + std::to_string(i)).c_str(), 1, 3);
    t[i] = StlText({{{{-2, -2, 0}, {h[i], -2, 0}, {0, 0, 1}}, {0, 0, 1}}, {{{-2, -2, 0}, {0, 0, 1}, {-2, h[i], 0}}, {0, 0, 1}}});
  }
  static const char* const again[] = {"load m=\"m.stl\";", "load m=\"n.stl\";"};
  int k = sym_choose("again", 2);
  std::string dr = "page{draw m{@[1,1];dim(at=[0,0,0],dir=[1,0,0],from=near([-2,-2,0]),to=near([3,-2,0]));}}";
  File("m.stl", t[0]);
  auto first = Run(again[0] + dr);
  SYM_ASSERT(first.ok && first.ps.ok, "accepted");
  File(k ? "n.stl" : "m.stl", t[1]);
  auto b = Run(again[k] + dr);
  File("alone.stl", t[1]);
  auto a = Run("load q=\"alone.stl\";page{draw q{@[1,1];dim(at=[0,0,0],dir=[1,0,0],from=near([-2,-2,0]),to=near([3,-2,0]));}}");
  Compare(b, {a}, {1}, 1);
}
