// Real terms as quotients of polynomials over the inputs (and square roots, sines, cosines),
// kept in normal form so that the solver sees polynomial (in)equalities in the inputs only.
#include <gmpxx.h>
typedef mpq_class Q;
typedef std::vector<std::pair<unsigned, unsigned>> Mono;  // (atom, exponent), atoms ascending
struct MonoLess {  // descending graded lexicographic order: begin() is the leading term
  bool operator()(const Mono& a, const Mono& b) const {
    unsigned da = 0, db = 0;
    for (auto& x : a) da += x.second;
    for (auto& x : b) db += x.second;
    if (da != db) return da > db;
    size_t i = 0;
    for (; i < a.size() && i < b.size(); i++) {
      if (a[i].first != b[i].first) return a[i].first < b[i].first;
      if (a[i].second != b[i].second) return a[i].second > b[i].second;
    }
    return a.size() > b.size();
  }
};
typedef std::map<Mono, Q, MonoLess> Poly;
struct RF { Poly n, d; };
struct Atom { Z3_ast e; char kind; /* v plain, q square root of p, s sine with cosine `other` */ Poly p; unsigned other; };
static std::vector<Atom> atoms;
static std::map<unsigned, unsigned> atom_of_ast;
static std::unordered_map<unsigned, RF> rf_tab;
static const size_t MAX_TERMS = 600;

static Poly p_const(const Q& c) { Poly r; if (c != 0) r[Mono()] = c; return r; }
static bool p_is_const(const Poly& a, Q* c = nullptr) {
  if (a.empty()) { if (c) *c = 0; return true; }
  if (a.size() == 1 && a.begin()->first.empty()) { if (c) *c = a.begin()->second; return true; }
  return false;
}
static Poly p_atom(unsigned i) { Poly r; r[Mono{{i, 1}}] = 1; return r; }
static void p_acc(Poly& a, const Mono& m, const Q& c) {
  auto it = a.emplace(m, Q(0)).first;
  it->second += c;
  if (it->second == 0) a.erase(it);
}
static Poly p_add(const Poly& a, const Poly& b, const Q& k) {
  Poly r = a;
  for (auto& t : b) p_acc(r, t.first, t.second * k);
  return r;
}
static Poly p_scale(const Poly& a, const Q& k) {
  Poly r;
  if (k != 0) for (auto& t : a) r.emplace_hint(r.end(), t.first, t.second * k);
  return r;
}
static Mono m_mul(const Mono& a, const Mono& b) {
  Mono r;
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
  }
  return r;
}
static bool m_div(const Mono& a, const Mono& b, Mono* r) {
  r->clear();
  size_t j = 0;
  for (auto& x : a) {
    if (j < b.size() && b[j].first < x.first) return false;
    unsigned e = x.second;
    if (j < b.size() && b[j].first == x.first) { if (b[j].second > e) return false; e -= b[j].second; j++; }
    if (e) r->push_back({x.first, e});
  }
  return j == b.size();
}
static Poly p_mul_free(const Poly& a, const Poly& b) {
  Poly r;
  for (auto& x : a) for (auto& y : b) p_acc(r, m_mul(x.first, y.first), x.second * y.second);
  return r;
}
static Poly p_mul(const Poly& a, const Poly& b);
// Rewrites square-root atoms squared to their radicand, sines squared to 1 - cos^2.
static Poly p_reduce(const Poly& a) {
  bool need = false;
  for (auto& t : a) for (auto& x : t.first) if (x.second > 1 && atoms[x.first].kind != 'v') need = true;
  if (!need) return a;
  Poly r;
  for (auto& t : a) {
    Mono rest;
    Poly f = p_const(1);
    for (auto& x : t.first) {
      const Atom& at = atoms[x.first];
      if (x.second < 2 || at.kind == 'v') { rest.push_back(x); continue; }
      Poly s = at.kind == 'q' ? at.p : p_add(p_const(1), p_mul_free(p_atom(at.other), p_atom(at.other)), -1);
      for (unsigned k = 0; k < x.second / 2; k++) f = p_mul(f, s);
      if (x.second & 1) rest.push_back({x.first, 1});
    }
    Poly m;
    m[rest] = t.second;
    r = p_add(r, p_mul(m, f), 1);
  }
  return r;
}
static Poly p_mul(const Poly& a, const Poly& b) { return p_reduce(p_mul_free(a, b)); }
static bool p_eq(const Poly& a, const Poly& b) { return a.size() == b.size() && a == b; }
// q with q*b == a, if there is one.
static bool p_div(const Poly& a, const Poly& b, Poly* q) {
  q->clear();
  if (b.empty()) return false;
  Poly r = a;
  size_t lim = 4 * (a.size() + 8);
  while (!r.empty()) {
    Mono m;
    if (!lim-- || !m_div(r.begin()->first, b.begin()->first, &m)) return false;
    Q c = r.begin()->second / b.begin()->second;
    p_acc(*q, m, c);
    for (auto& t : b) p_acc(r, m_mul(m, t.first), -(c * t.second));
    if (r.size() > MAX_TERMS) return false;
  }
  return true;
}
static Q p_content(const Poly& a) {  // positive; a / content has coprime integer coefficients
  if (a.empty()) return 1;
  mpz_class g = 0, l = 1;
  for (auto& t : a) {
    g = gcd(g, t.second.get_num());
    l = lcm(l, t.second.get_den());
  }
  Q r(g, l);
  r.canonicalize();
  return r;
}
static Mono p_monocontent(const Poly& a) {
  Mono g = a.begin()->first;
  for (auto& t : a) {
    Mono r;
    size_t j = 0;
    for (auto& x : g) {
      while (j < t.first.size() && t.first[j].first < x.first) j++;
      if (j < t.first.size() && t.first[j].first == x.first) r.push_back({x.first, std::min(x.second, t.first[j].second)});
    }
    g = r;
    if (g.empty()) break;
  }
  return g;
}
static Poly p_divmono(const Poly& a, const Mono& m) {
  Poly r;
  Mono t;
  for (auto& x : a) { m_div(x.first, m, &t); r[t] = x.second; }
  return r;
}
static unsigned p_degree(const Poly& a) {
  unsigned d = 0;
  for (auto& t : a) { unsigned k = 0; for (auto& x : t.first) k += x.second; d = std::max(d, k); }
  return d;
}
static bool q_sqrt(const Q& c, Q* r) {
  mpz_class n, d;
  if (c < 0) return false;
  if (!mpz_perfect_square_p(c.get_num().get_mpz_t()) || !mpz_perfect_square_p(c.get_den().get_mpz_t())) return false;
  mpz_sqrt(n.get_mpz_t(), c.get_num().get_mpz_t());
  mpz_sqrt(d.get_mpz_t(), c.get_den().get_mpz_t());
  *r = Q(n, d);
  return true;
}
static bool p_sqrt(const Poly& p, Poly* r) {  // r*r == p
  r->clear();
  if (p.empty()) return true;
  Q c;
  Mono m;
  for (auto& x : p.begin()->first) { if (x.second & 1) return false; m.push_back({x.first, x.second / 2}); }
  if (!q_sqrt(p.begin()->second, &c)) return false;
  (*r)[m] = c;
  Mono lm = m;
  Q lc = c;
  Poly rem = p;
  p_acc(rem, m_mul(m, m), -c * c);
  size_t lim = p.size() + 4;
  while (!rem.empty()) {
    if (!lim--) return false;
    Mono t;
    if (!m_div(rem.begin()->first, lm, &t)) return false;
    if (!MonoLess()(r->rbegin()->first, t)) return false;
    Q k = rem.begin()->second / (2 * lc);
    for (auto& x : *r) p_acc(rem, m_mul(x.first, t), -(2 * k * x.second));
    p_acc(rem, m_mul(t, t), -(k * k));
    (*r)[t] = k;
  }
  return true;
}

static Z3_ast q_ast(const Q& c) {
  return Z3_mk_numeral(C, c.get_str().c_str(), Z3_mk_real_sort(C));
}
static Z3_ast p_ast(const Poly& a) {
  std::vector<Z3_ast> s;
  for (auto& t : a) {
    std::vector<Z3_ast> f;
    if (t.second != 1 || t.first.empty()) f.push_back(q_ast(t.second));
    for (auto& x : t.first) for (unsigned k = 0; k < x.second; k++) f.push_back(atoms[x.first].e);
    s.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(C, f.size(), f.data()));
  }
  if (s.empty()) return R0();
  return s.size() == 1 ? s[0] : Z3_mk_add(C, s.size(), s.data());
}
static unsigned atom_for(Z3_ast e) {
  unsigned id = Z3_get_ast_id(C, e);
  auto it = atom_of_ast.find(id);
  if (it != atom_of_ast.end()) return it->second;
  atoms.push_back(Atom{e, 'v', {}, 0});
  return atom_of_ast[id] = atoms.size() - 1;
}

static Z3_ast p_cond(char op, Poly n);  // '=' '>' 'G'(>=) against 0
static int p_sign(const Poly& d) {      // of a polynomial known not to be 0 here; may fork
  Q c;
  if (p_is_const(d, &c)) return sgn(c);
  return decide(p_cond('>', d)) ? 1 : -1;
}
static const RF& rf_of(Z3_ast e);
static RF rf_norm(RF r) {
  Q c;
  if (r.n.empty()) return RF{{}, p_const(1)};
  if (!p_is_const(r.d, &c)) {
    // square root alone in the denominator
    for (bool again = true; again;) {
      again = false;
      for (auto& x : p_monocontent(r.d)) if (atoms[x.first].kind == 'q') {
        Poly s = p_atom(x.first);
        r.n = p_mul(r.n, s);
        r.d = p_mul(r.d, s);
        again = true;
        break;
      }
    }
    Mono a = p_monocontent(r.n), b = p_monocontent(r.d), g;
    size_t j = 0;
    for (auto& x : a) {
      while (j < b.size() && b[j].first < x.first) j++;
      if (j < b.size() && b[j].first == x.first) g.push_back({x.first, std::min(x.second, b[j].second)});
    }
    if (!g.empty()) { r.n = p_divmono(r.n, g); r.d = p_divmono(r.d, g); }
    Poly q;
    if (p_div(r.n, r.d, &q)) { r.n = q; r.d = p_const(1); }
    else if (!p_is_const(r.n) && p_div(r.d, r.n, &q)) { r.d = q; r.n = p_const(1); }
  }
  Q k = p_content(r.d);
  if (sgn(r.d.begin()->second) < 0) k = -k;
  if (k != 1) { k = 1 / k; r.n = p_scale(r.n, k); r.d = p_scale(r.d, k); }
  return r;
}
static bool big(const RF& r) { return r.n.size() > MAX_TERMS || r.d.size() > MAX_TERMS || p_degree(r.n) > 40; }
static Z3_ast rf_ast(const RF& r) {
  Z3_ast e = p_ast(r.n);
  Q c;
  if (!p_is_const(r.d, &c)) e = Z3_mk_div(C, e, p_ast(r.d));
  else if (c != 1) e = p_ast(p_scale(r.n, 1 / c));
  rf_tab.emplace(Z3_get_ast_id(C, e), r);
  return e;
}
static Val rf_val(const RF& r0, bool f32) {
  RF r = rf_norm(r0);
  Q a, b;
  if (p_is_const(r.n, &a) && p_is_const(r.d, &b)) {  // a number: rounded as the machine would
    a /= b;
    double d = a.get_d();
    // mpq truncates; pick the nearest double
    Q e0 = abs(a - Q(d));
    for (double t : {nextafter(d, INFINITY), nextafter(d, -INFINITY)}) if (abs(a - Q(t)) < e0) { d = t; break; }
    return mkc(d, f32);
  }
  if (big(r)) {
    Z3_ast v = real_fresh("t"), n = p_ast(r.n), dd = p_ast(r.d);
    unsigned id = Z3_get_ast_id(C, v);
    derived[id] = Derived{'v', Z3_mk_div(C, n, dd), nullptr};
    var_defs[id] = {Z3_mk_eq(C, mul2(v, dd), n)};
    return Val(0, v);
  }
  return Val(0, rf_ast(r));
}
// Polynomials that arose as sums of squares, with the things squared.
static std::unordered_map<unsigned, std::vector<Poly>> sos_tab;
static unsigned sos_key(const Poly& n) { return Z3_get_ast_id(C, p_ast(p_scale(n, 1 / p_content(n)))); }
static bool sos_parts(const Poly& n, std::vector<Poly>* out) {
  Q c;
  if (p_is_const(n) || sgn(n.begin()->second) < 0) return false;
  for (auto& x : n.begin()->first) if (x.second & 1) return false;
  for (auto& t : n) for (auto& x : t.first) if (atoms[x.first].kind != 'v') return false;
  auto it = sos_tab.find(sos_key(n));
  if (it != sos_tab.end()) { out->insert(out->end(), it->second.begin(), it->second.end()); return true; }
  Poly e;
  Poly pn = p_scale(n, 1 / p_content(n));
  if (!p_sqrt(pn, &e)) return false;
  out->push_back(e);
  return true;
}
static RF rf_bin(int op, const RF& a, const RF& b) {
  RF r;
  if (op == 0 && p_is_const(a.d) && p_is_const(b.d) && a.n.size() <= 60 && b.n.size() <= 60) {
    std::vector<Poly> parts;
    if (sos_parts(a.n, &parts) && sos_parts(b.n, &parts)) {
      Poly t = p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), 1);
      if (!t.empty()) sos_tab.emplace(sos_key(t), parts);
    }
  }
  if (op <= 1) {
    Q k = op ? -1 : 1;
    Poly q;
    if (p_eq(a.d, b.d)) { r.n = p_add(a.n, b.n, k); r.d = a.d; }
    else if (p_div(a.d, b.d, &q)) { r.n = p_add(a.n, p_mul(b.n, q), k); r.d = a.d; }
    else if (p_div(b.d, a.d, &q)) { r.n = p_add(p_mul(a.n, q), b.n, k); r.d = b.d; }
    else { r.n = p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), k); r.d = p_mul(a.d, b.d); }
    return r;
  }
  const Poly &bn = op == 2 ? b.n : b.d, &bd = op == 2 ? b.d : b.n;
  Poly n1 = a.n, d1 = a.d, n2 = bn, d2 = bd, q;
  Q c;
  // cross-cancel before multiplying
  if (!p_is_const(d2) && p_div(n1, d2, &q)) { n1 = q; d2 = p_const(1); }
  else if (!p_is_const(n1) && p_div(d2, n1, &q)) { d2 = q; n1 = p_const(1); }
  if (!p_is_const(d1) && p_div(n2, d1, &q)) { n2 = q; d1 = p_const(1); }
  else if (!p_is_const(n2) && p_div(d1, n2, &q)) { d1 = q; n2 = p_const(1); }
  r.n = p_mul(n1, n2);
  r.d = p_mul(d1, d2);
  return r;
}
static RF rf_make(Z3_ast e) {
  Z3_ast_kind ak = Z3_get_ast_kind(C, e);
  if (ak == Z3_NUMERAL_AST && !Z3_is_algebraic_number(C, e)) {
    Q q(Z3_get_numeral_string(C, e));
    q.canonicalize();
    return RF{p_const(q), p_const(1)};
  }
  if (ak == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(C, e);
    unsigned n = Z3_get_app_num_args(C, ap);
    auto arg = [&](unsigned i) -> const RF& { return rf_of(Z3_get_app_arg(C, ap, i)); };
    switch (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap))) {
      case Z3_OP_ADD: case Z3_OP_SUB: case Z3_OP_MUL: case Z3_OP_DIV: {
        Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap));
        int op = k == Z3_OP_ADD ? 0 : k == Z3_OP_SUB ? 1 : k == Z3_OP_MUL ? 2 : 3;
        RF r = arg(0);
        for (unsigned i = 1; i < n; i++) r = rf_norm(rf_bin(op, r, arg(i)));
        return r;
      }
      case Z3_OP_UMINUS: { RF r = arg(0); r.n = p_scale(r.n, -1); return r; }
      case Z3_OP_ITE:
        if (table_of(Z3_get_app_arg(C, ap, 0))) break;  // the value of a digit
        return rf_of(Z3_get_app_arg(C, ap, decide(Z3_get_app_arg(C, ap, 0)) ? 1 : 2));
      default: break;
    }
  }
  return RF{p_atom(atom_for(e)), p_const(1)};
}
static const RF& rf_of(Z3_ast e) {
  unsigned id = Z3_get_ast_id(C, e);
  auto it = rf_tab.find(id);
  if (it != rf_tab.end()) return it->second;
  RF r = rf_norm(rf_make(e));
  return rf_tab[id] = r;
}
static bool has_ite(Z3_ast e) {
  if (Z3_get_ast_kind(C, e) != Z3_APP_AST) return false;
  return Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, e))) == Z3_OP_ITE;
}
// n = a + b*s with s = sqrt(p): removes s from the comparison.
static Z3_ast p_cond(char op, Poly n) {
  Q c;
  if (p_is_const(n, &c)) {
    bool v = op == '=' ? c == 0 : op == '>' ? c > 0 : c >= 0;
    return v ? Z3_mk_true(C) : Z3_mk_false(C);
  }
  n = p_scale(n, 1 / p_content(n));
  if (!sos_tab.empty()) {
    bool pos = sgn(n.begin()->second) > 0;
    Poly t = pos ? n : p_scale(n, -1);
    auto it = sos_tab.find(Z3_get_ast_id(C, p_ast(t)));
    if (it != sos_tab.end()) {
      if (pos && op == 'G') return Z3_mk_true(C);
      if (!pos && op == '>') return Z3_mk_false(C);
      std::vector<Poly> ps = it->second;
      std::vector<Z3_ast> z;
      for (auto& x : ps) z.push_back(p_cond('=', x));
      Z3_ast all = Z3_mk_and(C, z.size(), z.data());
      return op == '>' ? Z3_mk_not(C, all) : all;
    }
  }
  int s = -1;
  for (auto& t : n) for (auto& x : t.first) if (atoms[x.first].kind == 'q') s = std::max(s, (int)x.first);
  if (s >= 0) {
    Poly a, b;
    for (auto& t : n) {
      Mono m;
      bool has = false;
      for (auto& x : t.first) if ((int)x.first == s) has = true; else m.push_back(x);
      (has ? b : a)[m] = t.second;
    }
    const Poly p = atoms[s].p;
    if (a.empty()) {  // b*s
      Z3_ast pz = p_cond('=', p), pp = Z3_mk_not(C, pz);
      if (op == '=') return mk_or2(p_cond('=', b), pz);
      if (op == '>') return mk_and2(p_cond('>', b), pp);
      return mk_or2(p_cond('G', b), pz);
    }
    if (a.size() <= 40 && b.size() <= 40) {
      Poly d = p_add(p_mul(a, a), p_mul(p_mul(b, b), p), -1);  // a^2 - b^2 p
      if (d.size() <= MAX_TERMS) {
        if (op == '=') return mk_and2(p_cond('=', d), p_cond('G', p_scale(p_mul(a, b), -1)));
        if (op == 'G') return Z3_mk_not(C, p_cond('>', p_scale(n, -1)));
        Z3_ast ap = p_cond('>', a), bp = p_cond('>', b);
        Z3_ast bn = p_cond('G', b);
        Z3_ast x = mk_and2(ap, mk_or2(bn, p_cond('>', d)));
        Z3_ast y = mk_and2(bp, p_cond('>', p_scale(d, -1)));
        return mk_or2(x, y);  // (a>0 & (b>=0 | a^2>b^2 p)) | (b>0 & b^2 p>a^2)
      }
    }
  }
  if (op == '=' && sgn(n.begin()->second) < 0) n = p_scale(n, -1);
  // constant to the right
  Q k = 0;
  auto it = n.find(Mono());
  if (it != n.end()) { k = -it->second; n.erase(it); }
  Z3_ast l = p_ast(n), r = q_ast(k);
  return op == '=' ? Z3_mk_eq(C, l, r) : op == '>' ? Z3_mk_gt(C, l, r) : Z3_mk_ge(C, l, r);
}
static Z3_ast rf_cond(char op, const RF& r) {
  if (r.n.empty()) return op == '>' ? Z3_mk_false(C) : Z3_mk_true(C);
  if (op == '=') return p_cond(op, r.n);
  return p_cond(op, p_sign(r.d) < 0 ? p_scale(r.n, -1) : r.n);
}
// a op b over the reals
static Z3_ast rcond(char op, Z3_ast a, Z3_ast b) {
  RF x = rf_of(a);
  RF d = rf_norm(rf_bin(1, x, rf_of(b)));
  return simp(rf_cond(op, d));
}
static Z3_ast r_lt(Z3_ast a, Z3_ast b) { return rcond('>', b, a); }
static Z3_ast r_le(Z3_ast a, Z3_ast b) { return rcond('G', b, a); }
static Z3_ast r_gt(Z3_ast a, Z3_ast b) { return rcond('>', a, b); }
static Z3_ast r_ge(Z3_ast a, Z3_ast b) { return rcond('G', a, b); }
static Z3_ast r_eq(Z3_ast a, Z3_ast b) { return rcond('=', a, b); }

static std::map<unsigned, unsigned> sqrt_atom;                      // radicand ast -> atom
static Q q_sqrt_near(const Q& c) {
  Q r;
  if (q_sqrt(c, &r)) return r;
  return Q(sqrt(c.get_d()));
}
// Square root of a non-negative quotient.
static RF rf_sqrt(const RF& x) {
  RF out{p_const(1), p_const(1)};
  Poly p = x.n, e;
  if (p.empty()) return RF{{}, p_const(1)};
  if (!p_is_const(x.d)) {
    Q c = p_content(x.d);
    if (p_sqrt(p_scale(x.d, 1 / c), &e)) { out.d = p_scale(e, q_sqrt_near(c) * p_sign(e)); }
    else { p = p_mul(p, x.d); out.d = p_scale(x.d, p_sign(x.d)); }
  } else {
    Q c;
    p_is_const(x.d, &c);
    p = p_scale(p, 1 / c);
  }
  Q c = p_content(p);
  p = p_scale(p, 1 / c);
  out.n = p_scale(out.n, q_sqrt_near(c));
  if (p_is_const(p)) return out;
  if (p_sqrt(p, &e)) {
    if (decide(p_cond('>', p_scale(e, -1)))) e = p_scale(e, -1);
    out.n = p_mul(out.n, e);
    return out;
  }
  Mono m;
  for (auto& t : p_monocontent(p)) if (t.second > 1) m.push_back({t.first, t.second / 2 * 2});
  if (!m.empty()) {
    p = p_divmono(p, m);
    Poly h;
    for (auto& t : m) t.second /= 2;
    h[m] = 1;
    if (decide(p_cond('>', p_scale(h, -1)))) h = p_scale(h, -1);
    out.n = p_mul(out.n, h);
  }
  Z3_ast pa = p_ast(p);
  unsigned id = Z3_get_ast_id(C, pa);
  if (!sqrt_atom.count(id)) {
    Z3_ast s = real_fresh("sqrt");
    Atom a{s, 'q', p, 0};
    atoms.push_back(a);
    atom_of_ast[Z3_get_ast_id(C, s)] = atoms.size() - 1;
    sqrt_atom[id] = atoms.size() - 1;
    unsigned sid = Z3_get_ast_id(C, s);
    derived[sid] = Derived{'q', pa, nullptr};
    var_defs[sid] = {Z3_mk_ge(C, s, R0()), Z3_mk_eq(C, sq(s), pa)};
  }
  out.n = p_mul(out.n, p_atom(sqrt_atom[id]));
  return out;
}
