// Solver layer: path condition, slicing, caching, model reuse, forking on conditions.
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <math.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cfenv>
#include "symir.h"

Mode g_mode = MODE_REAL;
Z3_context C;
Shared* S;
Options opt;
std::vector<Input> inputs;
std::vector<Z3_ast> pc;
std::map<unsigned, Z3_ast> assign;
std::map<unsigned, Derived> derived;
std::map<unsigned, std::vector<Z3_ast>> var_defs;
bool assign_ok = true;
static int out_fd = -1;
double g_t0;

double now_s() {
  timeval tv;
  gettimeofday(&tv, nullptr);
  return tv.tv_sec + tv.tv_usec * 1e-6;
}
bool time_up() { return S->stop || now_s() - g_t0 > opt.deadline; }

void out_line(const std::string& s) {
  if (out_fd < 0) out_fd = open(opt.out.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
  std::string t = s + "\n";
  size_t off = 0;
  while (off < t.size()) {
    ssize_t n = write(out_fd, t.data() + off, t.size() - off);
    if (n <= 0) break;
    off += n;
  }
}
std::string jstr(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

// ---------------------------------------------------------------- tokens / processes
static void lock() { int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(1); } }
static void unlock() { S->lock.store(0); }
static void fwake(std::atomic<int>* f) { syscall(SYS_futex, f, FUTEX_WAKE, 1, nullptr, nullptr, 0); }
static void release_token() {
  lock();
  int n = S->nstack.load();
  if (n > 0) {
    int slot = S->stack[n - 1];
    S->nstack.store(n - 1);
    unlock();
    S->futex[slot].store(1);
    fwake(&S->futex[slot]);
  } else {
    S->free_tokens++;
    unlock();
  }
}
static void die() {
  S->live--;
  _exit(0);
}
static void wait_token(int slot) {
  lock();
  if (S->free_tokens.load() > 0) { S->free_tokens--; unlock(); return; }
  int n = S->nstack.load();
  if (n >= (1 << 16) - 8) { unlock(); S->errors++; die(); }
  S->stack[n] = slot;
  S->nstack.store(n + 1);
  unlock();
  while (S->futex[slot].load() == 0) {
    timespec ts{2, 0};
    syscall(SYS_futex, &S->futex[slot], FUTEX_WAIT, 0, &ts, nullptr, 0);
    if (S->futex[slot].load() == 0 && time_up()) { S->deadline_cut++; die(); }
  }
}
bool token_fork() {
  if (time_up()) path_end("deadline");
  int slot = S->next_slot++ & 0xffff;
  S->futex[slot].store(0);
  S->live++;
  S->forks++;
  pid_t p = fork();
  if (p < 0) { S->live--; path_error("fork failed"); }
  if (p == 0) { wait_token(slot); return true; }
  return false;
}
extern long g_instrs, g_instrs_flushed;
void flush_counters() {
  S->instrs += g_instrs - g_instrs_flushed;
  g_instrs_flushed = g_instrs;
}
[[noreturn]] void path_end(const char* why) {
  flush_counters();
  if (!strcmp(why, "done")) S->completed++;
  else if (!strcmp(why, "infeasible")) S->infeasible++;
  else if (!strcmp(why, "deadline")) S->deadline_cut++;
  S->paths++;
  release_token();
  die();
  abort();
}
std::string where_am_i();
[[noreturn]] void path_error(const std::string& msg0) {
  std::string msg = msg0 + " @" + where_am_i();
  if (S->inconclusive++ < 40) out_line("{\"type\":\"inconclusive\",\"msg\":" + jstr(msg) + "}");
  path_end("error");
}
int label_id(char kind, const std::string& name) {
  int n = S->nlabels.load();
  for (int i = 0; i < n; i++)
    if (S->labels[i].kind == kind && name == S->labels[i].name) return i;
  lock();
  n = S->nlabels.load();
  for (int i = 0; i < n; i++)
    if (S->labels[i].kind == kind && name == S->labels[i].name) { unlock(); return i; }
  if (n >= 1023) { unlock(); return 1023; }
  S->labels[n].kind = kind;
  strncpy(S->labels[n].name, name.c_str(), 94);
  S->nlabels.store(n + 1);
  unlock();
  return n;
}
void label_hit(char kind, const std::string& name) { S->labels[label_id(kind, name)].n++; }

// ---------------------------------------------------------------- terms
Z3_ast mk_bv(u64 v, unsigned bits) { return Z3_mk_unsigned_int64(C, v, Z3_mk_bv_sort(C, bits)); }
Z3_ast simp(Z3_ast a) { return Z3_simplify(C, a); }
Z3_ast mk_real_of_double(double d) {
  static std::unordered_map<u64, Z3_ast> cache;
  u64 k;
  memcpy(&k, &d, 8);
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  Z3_sort R = Z3_mk_real_sort(C);
  Z3_ast r;
  int ex;
  double m = frexp(d, &ex);  // d = m * 2^ex
  i64 mi = (i64)ldexp(m, 53);
  ex -= 53;
  while (mi && !(mi & 1)) { mi /= 2; ex++; }
  Z3_ast n = Z3_mk_int64(C, mi, R);
  if (mi == 0 || ex == 0) r = n;
  else {
    Z3_ast two = Z3_mk_int(C, 2, R);
    Z3_ast p = Z3_mk_power(C, two, Z3_mk_int(C, abs(ex), R));
    r = ex > 0 ? mk_mul2(n, p) : Z3_mk_div(C, n, p);
    r = simp(r);
  }
  cache[k] = r;
  return r;
}
Z3_ast mk_fp_of_double(double d, bool is32) {
  if (is32) return Z3_mk_fpa_numeral_float(C, (float)d, Z3_mk_fpa_sort_32(C));
  return Z3_mk_fpa_numeral_double(C, d, Z3_mk_fpa_sort_64(C));
}
double ast_to_double(Z3_ast a, bool* ok) {
  if (ok) *ok = true;
  Z3_sort s = Z3_get_sort(C, a);
  Z3_sort_kind k = Z3_get_sort_kind(C, s);
  if (k == Z3_REAL_SORT || k == Z3_INT_SORT) {
    if (Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST || Z3_is_algebraic_number(C, a)) {
      Z3_string t = Z3_get_numeral_decimal_string(C, a, 30);
      return strtod(t, nullptr);
    }
  } else if (k == Z3_FLOATING_POINT_SORT) {
    Z3_ast b = simp(Z3_mk_fpa_to_ieee_bv(C, a));
    u64 v;
    if (is_bv_const(b, &v)) {
      if (Z3_get_bv_sort_size(C, Z3_get_sort(C, b)) == 32) { float f; uint32_t w = v; memcpy(&f, &w, 4); return f; }
      double d;
      memcpy(&d, &v, 8);
      return d;
    }
  }
  if (ok) *ok = false;
  return 0;
}
bool is_numeral_double(Z3_ast a, double* out) {
  if (Z3_get_ast_kind(C, a) != Z3_NUMERAL_AST) return false;
  double d = ast_to_double(a);
  if (!std::isfinite(d)) return false;
  Z3_ast b = mk_real_of_double(d);
  if (b != a && !Z3_is_eq_ast(C, a, b)) return false;
  *out = d;
  return true;
}
bool is_bool_const(Z3_ast a, bool* v) {
  Z3_lbool b = Z3_get_bool_value(C, a);
  if (b == Z3_L_UNDEF) return false;
  *v = b == Z3_L_TRUE;
  return true;
}
bool is_bv_const(Z3_ast a, u64* v) {
  if (Z3_get_ast_kind(C, a) != Z3_NUMERAL_AST) return false;
  uint64_t x;
  if (!Z3_get_numeral_uint64(C, a, &x)) return false;
  *v = x;
  return true;
}
Z3_ast fresh(const char* name, Z3_sort s) {
  static int n = 0;
  std::string t = std::string(name) + "#" + std::to_string(n++);
  return Z3_mk_const(C, Z3_mk_string_symbol(C, t.c_str()), s);
}

// ---------------------------------------------------------------- variable sets
struct Info { std::vector<unsigned> vars; bool nonlin = false, fp = false, bv = false; };
static std::unordered_map<unsigned, Info> infos;
static std::unordered_map<unsigned, Z3_ast> var_ast;
static const Info& info_of(Z3_ast a) {
  unsigned id = Z3_get_ast_id(C, a);
  auto it = infos.find(id);
  if (it != infos.end()) return it->second;
  Info r;
  Z3_sort_kind sk = Z3_get_sort_kind(C, Z3_get_sort(C, a));
  if (sk == Z3_FLOATING_POINT_SORT || sk == Z3_ROUNDING_MODE_SORT) r.fp = true;
  if (sk == Z3_BV_SORT) r.bv = true;
  if (Z3_get_ast_kind(C, a) == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(C, a);
    unsigned n = Z3_get_app_num_args(C, ap);
    Z3_decl_kind dk = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap));
    if (n == 0 && dk == Z3_OP_UNINTERPRETED) {
      r.vars.push_back(id);
      var_ast[id] = a;
    }
    int nonconst = 0;
    for (unsigned i = 0; i < n; i++) {
      Z3_ast k = Z3_get_app_arg(C, ap, i);
      const Info& ki = info_of(k);
      if (!ki.vars.empty()) nonconst++;
      r.vars.insert(r.vars.end(), ki.vars.begin(), ki.vars.end());
      r.nonlin |= ki.nonlin;
      r.fp |= ki.fp;
      r.bv |= ki.bv;
      if (dk == Z3_OP_DIV && i == 1 && !ki.vars.empty()) r.nonlin = true;
    }
    if (dk == Z3_OP_MUL && nonconst > 1) r.nonlin = true;
    if (dk == Z3_OP_POWER) r.nonlin = true;
    std::sort(r.vars.begin(), r.vars.end());
    r.vars.erase(std::unique(r.vars.begin(), r.vars.end()), r.vars.end());
  } else if (Z3_is_algebraic_number(C, a)) r.nonlin = true;
  return infos.emplace(id, std::move(r)).first->second;
}
std::vector<Z3_ast> vars_of(Z3_ast a) {
  std::vector<Z3_ast> r;
  for (unsigned v : info_of(a).vars) r.push_back(var_ast[v]);
  return r;
}
Z3_ast eval_under(Z3_ast a, const std::map<unsigned, Z3_ast>& m) {
  const Info& in = info_of(a);
  std::vector<Z3_ast> from, to;
  for (unsigned v : in.vars) {
    auto it = m.find(v);
    if (it != m.end()) { from.push_back(var_ast[v]); to.push_back(it->second); }
  }
  if (!from.empty()) a = Z3_substitute(C, a, from.size(), from.data(), to.data());
  return simp(a);
}

// ---------------------------------------------------------------- terms over one byte
static Res solve_raw(const std::vector<Z3_ast>& fs);
static std::unordered_map<unsigned, Tab*> tabs;
static inline u64 msk(u64 v, unsigned b) { return b >= 64 ? v : v & ((1ull << b) - 1); }
static inline i64 sxt(u64 v, unsigned b) { return b >= 64 ? (i64)v : (i64)(v << (64 - b)) >> (64 - b); }
static bool eval_tab(Z3_ast e, u64* out) {
  Z3_sort so = Z3_get_sort(C, e);
  Z3_sort_kind k = Z3_get_sort_kind(C, so);
  unsigned bits = 1;
  if (k == Z3_BV_SORT) bits = Z3_get_bv_sort_size(C, so);
  else if (k != Z3_BOOL_SORT) return false;
  if (bits > 64) return false;
  if (Z3_get_ast_kind(C, e) == Z3_NUMERAL_AST) {
    u64 v;
    if (!is_bv_const(e, &v)) return false;
    for (int i = 0; i < 256; i++) out[i] = v;
    return true;
  }
  if (Z3_get_ast_kind(C, e) != Z3_APP_AST) return false;
  if (const Tab* t = table_of(e)) { memcpy(out, t->t, sizeof t->t); return true; }
  bool bv;
  if (is_bool_const(e, &bv)) { for (int i = 0; i < 256; i++) out[i] = bv; return true; }
  if (!info_of(e).vars.empty()) return false;
  u64 v;
  if (!is_bv_const(simp(e), &v)) return false;
  for (int i = 0; i < 256; i++) out[i] = v;
  return true;
}
const Tab* table_of(Z3_ast e) {
  unsigned id = Z3_get_ast_id(C, e);
  auto it = tabs.find(id);
  if (it != tabs.end()) return it->second;
  Tab*& slot = tabs[id];
  slot = nullptr;
  const Info& in = info_of(e);
  if (in.vars.size() != 1 || in.fp) return nullptr;
  Z3_ast v = var_ast[in.vars[0]];
  Z3_sort vs = Z3_get_sort(C, v);
  if (Z3_get_sort_kind(C, vs) != Z3_BV_SORT || Z3_get_bv_sort_size(C, vs) != 8) return nullptr;
  Z3_sort so = Z3_get_sort(C, e);
  Z3_sort_kind k = Z3_get_sort_kind(C, so);
  unsigned bits = k == Z3_BV_SORT ? Z3_get_bv_sort_size(C, so) : 1;
  if ((k != Z3_BV_SORT && k != Z3_BOOL_SORT) || bits > 64) return nullptr;
  Tab* r = new Tab;
  r->var = v;
  r->vid = in.vars[0];
  if (e == v) { for (int i = 0; i < 256; i++) r->t[i] = i; return tabs[id] = r; }
  Z3_app ap = Z3_to_app(C, e);
  unsigned n = Z3_get_app_num_args(C, ap);
  Z3_func_decl fd = Z3_get_app_decl(C, ap);
  Z3_decl_kind dk = Z3_get_decl_kind(C, fd);
  std::vector<std::vector<u64>> a(n, std::vector<u64>(256));
  std::vector<unsigned> ab(n);
  for (unsigned i = 0; i < n; i++) {
    Z3_ast x = Z3_get_app_arg(C, ap, i);
    if (!eval_tab(x, a[i].data())) { delete r; return nullptr; }
    Z3_sort s = Z3_get_sort(C, x);
    ab[i] = Z3_get_sort_kind(C, s) == Z3_BV_SORT ? Z3_get_bv_sort_size(C, s) : 1;
  }
  int p0 = 0, p1 = 0;
  if (dk == Z3_OP_EXTRACT) { p0 = Z3_get_decl_int_parameter(C, fd, 0); p1 = Z3_get_decl_int_parameter(C, fd, 1); }
  for (int i = 0; i < 256; i++) {
    u64 x = n ? a[0][i] : 0, y = n > 1 ? a[1][i] : 0, z = 0;
    unsigned b0 = n ? ab[0] : 1;
    switch (dk) {
      case Z3_OP_EQ: case Z3_OP_IFF: z = x == y; break;
      case Z3_OP_DISTINCT: if (n != 2) { delete r; return nullptr; } z = x != y; break;
      case Z3_OP_NOT: z = !x; break;
      case Z3_OP_XOR: z = x ^ y; break;
      case Z3_OP_IMPLIES: z = !x || y; break;
      case Z3_OP_AND: z = 1; for (unsigned j = 0; j < n; j++) z &= a[j][i]; break;
      case Z3_OP_OR: for (unsigned j = 0; j < n; j++) z |= a[j][i]; break;
      case Z3_OP_ITE: z = x ? y : a[2][i]; break;
      case Z3_OP_ULEQ: z = x <= y; break;
      case Z3_OP_UGEQ: z = x >= y; break;
      case Z3_OP_ULT: z = x < y; break;
      case Z3_OP_UGT: z = x > y; break;
      case Z3_OP_SLEQ: z = sxt(x, b0) <= sxt(y, b0); break;
      case Z3_OP_SGEQ: z = sxt(x, b0) >= sxt(y, b0); break;
      case Z3_OP_SLT: z = sxt(x, b0) < sxt(y, b0); break;
      case Z3_OP_SGT: z = sxt(x, b0) > sxt(y, b0); break;
      case Z3_OP_BADD: for (unsigned j = 0; j < n; j++) z += a[j][i]; break;
      case Z3_OP_BSUB: z = x; for (unsigned j = 1; j < n; j++) z -= a[j][i]; break;
      case Z3_OP_BNEG: z = -x; break;
      case Z3_OP_BMUL: z = 1; for (unsigned j = 0; j < n; j++) z *= a[j][i]; break;
      case Z3_OP_BAND: z = ~0ull; for (unsigned j = 0; j < n; j++) z &= a[j][i]; break;
      case Z3_OP_BOR: for (unsigned j = 0; j < n; j++) z |= a[j][i]; break;
      case Z3_OP_BXOR: for (unsigned j = 0; j < n; j++) z ^= a[j][i]; break;
      case Z3_OP_BNOT: z = ~x; break;
      case Z3_OP_BSHL: z = y >= bits ? 0 : x << y; break;
      case Z3_OP_BLSHR: z = y >= bits ? 0 : x >> y; break;
      case Z3_OP_BASHR: z = sxt(x, bits) >> (y >= bits ? bits - 1 : y); break;
      case Z3_OP_ZERO_EXT: z = x; break;
      case Z3_OP_SIGN_EXT: z = sxt(x, b0); break;
      case Z3_OP_EXTRACT: z = x >> p1; (void)p0; break;
      case Z3_OP_CONCAT: for (unsigned j = 0; j < n; j++) z = (ab[j] >= 64 ? 0 : z << ab[j]) | a[j][i]; break;
      default: delete r; return nullptr;
    }
    r->t[i] = msk(z, bits);
  }
  return tabs[id] = r;
}
Z3_ast byte_set(Z3_ast v, const std::bitset<256>& x) {
  if (x.none()) return Z3_mk_false(C);
  if (x.all()) return Z3_mk_true(C);
  std::bitset<256> b = x;
  bool neg = x.count() > 128;
  if (neg) b.flip();
  std::vector<Z3_ast> ors;
  for (int i = 0; i < 256;) {
    if (!b[i]) { i++; continue; }
    int j = i;
    while (j + 1 < 256 && b[j + 1]) j++;
    if (i == j) ors.push_back(Z3_mk_eq(C, v, mk_bv(i, 8)));
    else if (i == 0) ors.push_back(Z3_mk_bvule(C, v, mk_bv(j, 8)));
    else if (j == 255) ors.push_back(Z3_mk_bvule(C, mk_bv(i, 8), v));
    else ors.push_back(mk_and2(Z3_mk_bvule(C, mk_bv(i, 8), v), Z3_mk_bvule(C, v, mk_bv(j, 8))));
    i = j + 1;
  }
  Z3_ast r = ors.size() == 1 ? ors[0] : Z3_mk_or(C, ors.size(), ors.data());
  return neg ? Z3_mk_not(C, r) : r;
}
// Per path: what each byte may still be. Exact for a byte no constraint ties to another input.
static std::map<unsigned, std::bitset<256>> doms;
static std::map<unsigned, size_t> dom_pc;  // index in pc of the byte's own constraint
static std::set<unsigned> tied;
const std::bitset<256>& dom_of(unsigned vid) {
  auto it = doms.find(vid);
  if (it == doms.end()) it = doms.emplace(vid, std::bitset<256>().set()).first;
  return it->second;
}
static std::bitset<256> truth(const Tab& t) {
  std::bitset<256> b;
  for (int i = 0; i < 256; i++) b[i] = t.t[i] & 1;
  return b;
}

// The solver confirms that, for the bytes the path allows, e holds exactly on `on`.
void certify(Z3_ast e, const Tab& t, const std::bitset<256>& on) {
  static std::set<std::pair<unsigned, size_t>> done;
  const auto& d = dom_of(t.vid);
  if (!done.insert({Z3_get_ast_id(C, e), std::hash<std::bitset<256>>()(d)}).second) return;
  std::vector<Z3_ast> fs = {byte_set(t.var, d), Z3_mk_xor(C, e, byte_set(t.var, on & d))};
  Res r = solve_raw(fs);
  if (r == SAT) path_error("byte table disagrees with the solver");
  if (r == UNKNOWN) path_error("byte table not confirmed by the solver");
}

// ---------------------------------------------------------------- queries
// Z3 polls for the interrupt; a solver that does not come back within 5 s of it ends the path.
static int alarm_n;
static void on_alarm(int) {
  Z3_interrupt(C);
  if (++alarm_n < 25) return;
  static const char m[] = "{\"type\":\"inconclusive\",\"msg\":\"solver did not stop at its time limit\"}\n";
  if (S->inconclusive++ < 40) {
    int fd = open(opt.out.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd >= 0) { ssize_t w = write(fd, m, sizeof m - 1); (void)w; }
  }
  S->q_unknown++;
  S->paths++;
  release_token();
  die();
}
static void arm(int ms) {
  static bool inst = false;
  alarm_n = 0;
  if (!inst) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_alarm;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
    inst = true;
  }
  itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = ms / 1000;
  it.it_value.tv_usec = (ms % 1000) * 1000;
  if (ms) { it.it_interval.tv_usec = 200000; }
  setitimer(ITIMER_REAL, &it, nullptr);
}
struct CacheEnt { Res r; std::map<unsigned, Z3_ast> m; };
static std::map<std::vector<unsigned>, CacheEnt> qcache;

static Res run_solver(Z3_solver s, const std::vector<Z3_ast>& fs, const std::vector<unsigned>& vars,
                      std::map<unsigned, Z3_ast>* model, int ms) {
  Z3_solver_inc_ref(C, s);
  for (Z3_ast f : fs) Z3_solver_assert(C, s, f);
  double t = now_s();
  arm(ms);
  Z3_lbool r = Z3_solver_check(C, s);
  long us = (now_s() - t) * 1e6;
  S->solver_us += us;
  long mx = S->max_query_us.load();
  while (us > mx && !S->max_query_us.compare_exchange_weak(mx, us)) {}
  Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (res == SAT && model) {
    Z3_model m = Z3_solver_get_model(C, s);
    if (!m) res = UNKNOWN;
    else {
      Z3_model_inc_ref(C, m);
      for (unsigned v : vars) {
        Z3_ast val = nullptr;
        if (derived.count(v)) continue;
        if (Z3_model_eval(C, m, var_ast[v], true, &val) && val) {
          if (Z3_is_algebraic_number(C, val)) val = mk_real_of_double(ast_to_double(val));  // near enough to steer by
          (*model)[v] = val;
        }
      }
      Z3_model_dec_ref(C, m);
    }
  }
  arm(0);
  Z3_solver_dec_ref(C, s);
  if (Z3_get_error_code(C) != Z3_OK) res = UNKNOWN;
  return res;
}

static Res solve_raw(const std::vector<Z3_ast>& fs) {
  static Z3_solver s = nullptr;
  if (!s) { s = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, s); }
  S->queries++;
  S->byte_certs++;
  double t = now_s();
  Z3_solver_push(C, s);
  for (Z3_ast f : fs) Z3_solver_assert(C, s, f);
  Z3_lbool r = Z3_solver_check(C, s);
  Z3_solver_pop(C, s, 1);
  S->solver_us += (long)((now_s() - t) * 1e6);
  (r == Z3_L_FALSE ? S->q_unsat : r == Z3_L_TRUE ? S->q_sat : S->q_unknown)++;
  return r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
}
Res check_with(const std::vector<Z3_ast>& extra, std::map<unsigned, Z3_ast>* model, bool full, int ms) {
  if (ms == 0) ms = opt.query_ms;
  std::vector<Z3_ast> fs;
  std::set<unsigned> vs;
  bool nonlin = false, fp = false, bv = false;
  std::function<void(Z3_ast)> take = [&](Z3_ast f) {
    const Info& in = info_of(f);
    nonlin |= in.nonlin; fp |= in.fp; bv |= in.bv;
    fs.push_back(f);
    for (unsigned v : in.vars) {
      if (!vs.insert(v).second) continue;
      auto it = var_defs.find(v);
      if (it != var_defs.end()) for (Z3_ast d : it->second) take(d);
    }
  };
  for (Z3_ast e : extra) {
    bool b;
    Z3_ast t = simp(e);
    if (is_bool_const(t, &b)) { if (!b) return UNSAT; continue; }
    take(t);
  }
  std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      bool hit = full;
      if (!hit)
        for (unsigned v : info_of(pc[i]).vars)
          if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; take(pc[i]); ch = true; }
    }
  }
  if (fs.empty()) { if (model) model->clear(); return SAT; }
  std::vector<unsigned> key;
  for (Z3_ast f : fs) key.push_back(Z3_get_ast_id(C, f));
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    S->cached++;
    if (model) *model = it->second.m;
    return it->second.r;
  }
  S->queries++;
  std::vector<unsigned> vars(vs.begin(), vs.end());
  CacheEnt ce;
  if (nonlin && !fp && !bv) {
    static Z3_tactic tac = nullptr;
    if (!tac) { tac = Z3_mk_tactic(C, "qfnra-nlsat"); Z3_tactic_inc_ref(C, tac); }
    int first = std::min(ms, 1500);
    ce.r = run_solver(Z3_mk_solver_from_tactic(C, tac), fs, vars, &ce.m, first);
    if (ce.r == UNKNOWN) { ce.m.clear(); ce.r = run_solver(Z3_mk_simple_solver(C), fs, vars, &ce.m, std::min(ms, 1500)); }
    if (ce.r == UNKNOWN && ms > first) { ce.m.clear(); ce.r = run_solver(Z3_mk_solver_from_tactic(C, tac), fs, vars, &ce.m, ms); }
  } else if (fp) {
    static Z3_tactic tac = nullptr;
    if (!tac) { tac = Z3_mk_tactic(C, "qffp"); Z3_tactic_inc_ref(C, tac); }
    ce.r = run_solver(Z3_mk_solver_from_tactic(C, tac), fs, vars, &ce.m, ms);
  } else {
    ce.r = run_solver(Z3_mk_simple_solver(C), fs, vars, &ce.m, ms);
  }
  (ce.r == SAT ? S->q_sat : ce.r == UNSAT ? S->q_unsat : S->q_unknown)++;
  if (opt.debug && ce.r == UNKNOWN) {
    fprintf(stderr, "UNKNOWN query (%zu formulas):\n", fs.size());
    for (Z3_ast f : fs) fprintf(stderr, "  %s\n", Z3_ast_to_string(C, f));
  }
  if (model) *model = ce.m;
  Res r = ce.r;
  qcache.emplace(std::move(key), std::move(ce));
  return r;
}

std::vector<Z3_ast> pending;  // definitional constraints whose fresh symbols have no value yet
bool ensure_assign() {
  if (assign_ok && pending.empty()) return true;
  std::map<unsigned, Z3_ast> m;
  if (assign_ok) {
    Res r = check_with(pending, &m);
    if (r == UNSAT) path_end("infeasible");
    if (r != SAT) { assign_ok = false; return false; }
    for (auto& k : m) assign[k.first] = k.second;
    pending.clear();
    return true;
  }
  pending.clear();
  // Variables not constrained keep whatever value they have.
  Res r = check_with({}, &m, true);
  if (r == UNSAT) path_end("infeasible");
  if (r != SAT) return false;
  for (auto& k : m) assign[k.first] = k.second;
  assign_ok = true;
  return true;
}
static const Tab* is_byte_var(unsigned id) { return table_of(var_ast[id]); }
static Z3_ast derive(const Derived& d) {
  Z3_ast v[2] = {nullptr, nullptr};
  double x[2] = {0, 0};
  for (int i = 0; i < 2; i++) {
    Z3_ast t = i ? d.b : d.a;
    if (!t) continue;
    fill_defaults(t);
    v[i] = eval_under(t, assign);
    x[i] = ast_to_double(v[i]);
  }
  double r = 0;
  switch (d.kind) {
    case 'v': return v[0];
    case 'q': r = sqrt(x[0] < 0 ? 0 : x[0]); break;
    case 'a': r = atan2(x[0], x[1]); break;
    case 'c': r = acos(x[0] > 1 ? 1 : x[0] < -1 ? -1 : x[0]); break;
    case 'n': r = asin(x[0] > 1 ? 1 : x[0] < -1 ? -1 : x[0]); break;
  }
  return mk_real_of_double(std::isfinite(r) ? r : 0);
}
void fill_defaults(Z3_ast a) {
  for (Z3_ast v : vars_of(a)) {
    unsigned id = Z3_get_ast_id(C, v);
    auto dv = derived.find(id);
    if (dv != derived.end()) { assign[id] = derive(dv->second); continue; }
    if (assign.count(id)) continue;
    Z3_sort s = Z3_get_sort(C, v);
    if (is_byte_var(id)) {
      const auto& d = dom_of(id);
      int i = 0;
      while (i < 255 && !d[i]) i++;
      assign[id] = mk_bv(i, 8);
      continue;
    }
    switch (Z3_get_sort_kind(C, s)) {
      case Z3_REAL_SORT: assign[id] = Z3_mk_int(C, 0, s); break;
      case Z3_BV_SORT: assign[id] = Z3_mk_int(C, 0, s); break;
      case Z3_BOOL_SORT: assign[id] = Z3_mk_false(C); break;
      case Z3_FLOATING_POINT_SORT: assign[id] = Z3_mk_fpa_zero(C, s, false); break;
      default: break;
    }
  }
}
static void merge(const std::map<unsigned, Z3_ast>& m) {
  for (auto& k : m) assign[k.first] = k.second;
}

static void dom_set(const Tab& t, const std::bitset<256>& b) {
  doms[t.vid] = b;
  Z3_ast f = byte_set(t.var, b);
  auto it = dom_pc.find(t.vid);
  if (it != dom_pc.end()) pc[it->second] = f;
  else { dom_pc[t.vid] = pc.size(); pc.push_back(f); }
}
// Keeps the assignment a model: moves the byte inside its set (only for a byte nothing else is tied to).
static void dom_fix(const Tab& t, const std::bitset<256>& b) {
  auto it = assign.find(t.vid);
  u64 v;
  if (it != assign.end() && is_bv_const(it->second, &v) && b[v & 255]) return;
  int i = 0;
  while (!b[i]) i++;
  assign[t.vid] = mk_bv(i, 8);
}
void pc_add(Z3_ast c, bool) {
  if (const Tab* t = table_of(c)) {
    std::bitset<256> d = dom_of(t->vid) & truth(*t);
    if (d.none()) path_end("infeasible");
    if (d != dom_of(t->vid)) dom_set(*t, d);
    return;
  }
  c = simp(c);
  bool b;
  if (is_bool_const(c, &b)) { if (!b) path_end("infeasible"); return; }
  if (const Tab* t = table_of(c)) { (void)t; pc_add(c, false); return; }
  for (Z3_ast p : pc) if (p == c) return;
  for (unsigned v : info_of(c).vars) {
    Z3_sort vs = Z3_get_sort(C, var_ast[v]);
    if (Z3_get_sort_kind(C, vs) == Z3_BV_SORT && Z3_get_bv_sort_size(C, vs) == 8) tied.insert(v);
  }
  pc.push_back(c);
}

bool decide(Z3_ast cond) {
  bool b;
  const Tab* tab = table_of(cond);
  if (!tab) {
    cond = simp(cond);
    if (is_bool_const(cond, &b)) return b;
    tab = table_of(cond);
  }
  if ((S->branches++ & 63) == 0 && time_up()) path_end("deadline");
  if (tab) {
    std::bitset<256> d = dom_of(tab->vid), t = d & truth(*tab), f = d & ~t;
    if (t.none()) return false;
    if (f.none()) return true;
    if (!tied.count(tab->vid)) {
      S->byte_decided++;
      bool mine = true;
      auto it = assign.find(tab->vid);
      u64 v;
      if (it != assign.end() && is_bv_const(it->second, &v)) mine = t[v & 255];
      bool side = token_fork() ? !mine : mine;
      dom_set(*tab, side ? t : f);
      dom_fix(*tab, side ? t : f);
      return side;
    }
    cond = byte_set(tab->var, t);
  }
  Z3_ast ncond = tab ? byte_set(tab->var, dom_of(tab->vid) & ~truth(*tab)) : Z3_mk_not(C, cond);
  int known = -1;
  if (ensure_assign()) {
    fill_defaults(cond);
    bool v;
    if (is_bool_const(eval_under(cond, assign), &v)) known = v;
  }
  Res rt = SAT, rf = SAT;
  std::map<unsigned, Z3_ast> mt, mf;
  if (known != 1) rt = check_with({cond}, &mt);
  if (known != 0 && rt != UNSAT) rf = check_with({ncond}, &mf);
  else if (known == -1 && rt == UNSAT) rf = check_with({ncond}, &mf);
  if (rt == UNSAT && rf == UNSAT) path_end("infeasible");
  if (rt == UNSAT) {  // only false
    if (known != 0) { if (rf == SAT) merge(mf); else assign_ok = false; pc_add(ncond); }
    return false;
  }
  if (rf == UNSAT) {
    if (known != 1) { if (rt == SAT) merge(mt); else assign_ok = false; pc_add(cond); }
    return true;
  }
  // both feasible (or unknown)
  bool mine = known == -1 ? true : (bool)known;
  bool child = token_fork();
  bool side = child ? !mine : mine;
  pc_add(side ? cond : ncond);
  if (side) {
    if (known != 1) { if (rt == SAT) merge(mt); else assign_ok = false; }
  } else {
    if (known != 0) { if (rf == SAT) merge(mf); else assign_ok = false; }
  }
  return side;
}
bool may_be_true(Z3_ast cond) { return check_with({cond}, nullptr) != UNSAT; }
void assume(Z3_ast cond) {
  bool b;
  const Tab* tab = table_of(cond);
  if (!tab) {
    cond = simp(cond);
    if (is_bool_const(cond, &b)) { if (!b) path_end("infeasible"); return; }
    tab = table_of(cond);
  }
  if (tab && !tied.count(tab->vid)) {
    std::bitset<256> d = dom_of(tab->vid) & truth(*tab);
    if (d.none()) path_end("infeasible");
    dom_set(*tab, d);
    dom_fix(*tab, d);
    return;
  }
  if (assign_ok && pending.empty()) {
    fill_defaults(cond);
    bool v;
    if (is_bool_const(eval_under(cond, assign), &v) && v) { pc_add(cond); return; }
  }
  std::map<unsigned, Z3_ast> m;
  Res r = check_with({cond}, &m);
  if (r == UNSAT) path_end("infeasible");
  pc_add(cond);
  if (r == SAT) merge(m); else assign_ok = false;
}
// The condition of the outermost if-then-else in a term.
static Z3_ast first_choice(Z3_ast e) {
  if (Z3_get_ast_kind(C, e) != Z3_APP_AST) return nullptr;
  Z3_app ap = Z3_to_app(C, e);
  if (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap)) == Z3_OP_ITE) return Z3_get_app_arg(C, ap, 0);
  for (unsigned i = 0; i < Z3_get_app_num_args(C, ap); i++)
    if (Z3_ast c = first_choice(Z3_get_app_arg(C, ap, i))) return c;
  return nullptr;
}
static Z3_ast substitute_choice(Z3_ast e, Z3_ast c, bool v) {
  Z3_ast k = v ? Z3_mk_true(C) : Z3_mk_false(C);
  return Z3_substitute(C, e, 1, &c, &k);
}
u64 concretize(Val v, unsigned bits, const char* why) {
  if (!v.e) return v.u;
  S->concretized++;
  Z3_ast e = v.e;
  if (const Tab* t = table_of(e)) {
    std::map<u64, std::bitset<256>> g;
    const std::bitset<256> d = dom_of(t->vid);
    for (int i = 0; i < 256; i++) if (d[i]) g[t->t[i]].set(i);
    size_t k = 0;
    for (auto& x : g) if (++k == g.size() || decide(byte_set(t->var, x.second))) return x.first;
  }
  if (Z3_get_sort_kind(C, Z3_get_sort(C, e)) == Z3_BOOL_SORT) return decide(e) ? 1 : 0;
  for (int k = 0; k < 600; k++) {
    if (!ensure_assign()) path_error(std::string("concretize: solver gave up: ") + why);
    fill_defaults(e);
    u64 val;
    Z3_ast t = eval_under(e, assign);
    if (!is_bv_const(t, &val)) {
      // A choice whose condition has no value under the current assignment: split on the condition.
      Z3_ast c = first_choice(t);
      if (!c) path_error(std::string("concretize: not a bit-vector: ") + why);
      Z3_ast ct = first_choice(e);
      e = simp(substitute_choice(e, ct, decide(ct)));
      if (is_bv_const(e, &val)) return val;
      continue;
    }
    if (decide(Z3_mk_eq(C, e, mk_bv(val, bits)))) return val;
  }
  path_error(std::string("concretize: too many values: ") + why);
}

// ---------------------------------------------------------------- violations and samples
extern std::vector<std::pair<std::string, Val>> observations;
std::string input_json(const std::map<unsigned, Z3_ast>& m) {
  std::string r = "[";
  char b[64];
  for (size_t i = 0; i < inputs.size(); i++) {
    Input& in = inputs[i];
    if (i) r += ",";
    r += "{\"n\":" + jstr(in.name) + ",\"k\":\"" + in.kind + "\",\"v\":";
    if (!in.ast) { snprintf(b, sizeof b, "%lld", (long long)in.cval); r += b; }
    else {
      auto it = m.find(Z3_get_ast_id(C, in.ast));
      if (in.kind == 'd') {
        double d = it == m.end() ? in.lo : ast_to_double(it->second);
        snprintf(b, sizeof b, "\"%a\",\"t\":\"%.12g\"", d, d);
        r += b;
      } else {
        u64 v = 0;
        if (it != m.end()) is_bv_const(it->second, &v);
        i64 sv = in.kind == 'i' ? (i64)(int32_t)v : (i64)v;
        snprintf(b, sizeof b, "%lld", (long long)sv);
        r += b;
      }
    }
    r += "}";
  }
  return r + "]";
}
std::vector<TrigLink> trig_links;
// Angles follow from their circle points.
static void link_trig(std::map<unsigned, Z3_ast>* m) {
  for (auto& l : trig_links) {
    auto s = m->find(l.s), c = m->find(l.c);
    if (s == m->end() || c == m->end()) continue;
    double a = (atan2(ast_to_double(s->second), ast_to_double(c->second)) - l.off) / l.k, turn = std::fabs(2 * M_PI / l.k);
    for (auto& in : inputs) {
      if (!in.ast || Z3_get_ast_id(C, in.ast) != l.var) continue;
      while (a < in.lo) a += turn;
      while (a > in.hi) a -= turn;
      double near = std::round(a * 1024) / 1024;
      if (std::fabs(near - a) < 1e-9) a = near;
      (*m)[l.var] = mk_real_of_double(a);
    }
  }
}
static bool linked(unsigned id) {
  for (auto& l : trig_links) if (l.var == id) return true;
  return false;
}
// Move the inputs of model m to short dyadic rationals while extra stays satisfiable.
static void nicify(std::vector<Z3_ast> extra, std::map<unsigned, Z3_ast>* m, double budget) {
  double t0 = now_s();
  for (auto& in : inputs) {
    if (!in.ast || in.kind != 'd' || g_mode != MODE_REAL) continue;
    unsigned id = Z3_get_ast_id(C, in.ast);
    if (linked(id)) continue;
    if (!m->count(id)) (*m)[id] = mk_real_of_double(in.lo);
    double v = ast_to_double((*m)[id]), exact;
    bool dy = is_numeral_double((*m)[id], &exact);
    if (dy && exact * 64 == std::floor(exact * 64)) {
      extra.push_back(Z3_mk_eq(C, in.ast, (*m)[id]));
      continue;
    }
    bool done = false;
    for (double q : {1.0, 4.0, 16.0, 256.0, 65536.0}) {
      if (now_s() - t0 > budget) break;
      for (double c : {std::round(v * q) / q, std::floor(v * q) / q, std::ceil(v * q) / q}) {
        std::vector<Z3_ast> ex = extra;
        ex.push_back(Z3_mk_eq(C, in.ast, mk_real_of_double(c)));
        std::map<unsigned, Z3_ast> mm;
        if (check_with(ex, &mm, false, 1000) == SAT) {
          for (auto& k : mm) (*m)[k.first] = k.second;
          extra = ex;
          done = true;
          break;
        }
        if (c == std::floor(v * q) / q && c == std::ceil(v * q) / q) break;
      }
      if (done) break;
    }
  }
}
void report_violation(const std::string& label, const std::string& msg, Z3_ast cond) {
  int id = label_id('v', label);
  if (S->viol_by_label[id].load() >= opt.max_viol_per_label) return;
  std::map<unsigned, Z3_ast> m, base;
  std::vector<Z3_ast> ex;
  if (cond) ex.push_back(cond);
  Res r = check_with(ex, &m, !cond);
  if (r == UNSAT) return;  // over-explored path: no input takes it
  S->labels[id].n++;
  S->viol_by_label[id]++;
  bool ok = r == SAT && ensure_assign();
  base = assign;
  for (auto& k : m) base[k.first] = k.second;
  if (ok) { nicify(ex, &base, 6.0); link_trig(&base); }
  S->violations++;
  out_line("{\"type\":\"violation\",\"label\":" + jstr(label) + ",\"msg\":" + jstr(msg) +
           ",\"model\":" + (ok ? "true" : "false") + ",\"inputs\":" + input_json(base) + "}");
}
void maybe_sample() {
  int n = S->samples.load();
  if (n >= opt.max_samples) return;
  // deterministic thinning by path shape
  u64 h = opt.seed * 0x9e3779b97f4a7c15ull;
  for (Z3_ast p : pc) h = (h ^ Z3_get_ast_hash(C, p)) * 0x100000001b3ull;
  if (n >= opt.max_samples / 2 && (h >> 20) % 4) return;
  if (S->samples++ >= opt.max_samples) return;
  if (!ensure_assign()) return;
  std::map<unsigned, Z3_ast> m = assign;
  nicify({}, &m, 2.0);
  link_trig(&m);
  assign = m;
  std::string o = "[";
  bool first = true;
  for (auto& ob : observations) {
    char b[64];
    std::string v;
    if (!ob.second.e) {
      double d;
      memcpy(&d, &ob.second.u, 8);
      snprintf(b, sizeof b, "%.12g", d);
      v = b;
    } else {
      fill_defaults(ob.second.e);
      Z3_ast t = eval_under(ob.second.e, assign);
      Z3_sort_kind sk = Z3_get_sort_kind(C, Z3_get_sort(C, t));
      if (sk == Z3_BV_SORT) { u64 u; if (!is_bv_const(t, &u)) continue; snprintf(b, sizeof b, "%lld", (long long)(int32_t)u); }
      else if (sk == Z3_BOOL_SORT) { bool u; if (!is_bool_const(t, &u)) continue; snprintf(b, sizeof b, "%d", u); }
      else { bool ok; double d = ast_to_double(t, &ok); if (!ok) continue; snprintf(b, sizeof b, "%.12g", d); }
      v = b;
    }
    o += std::string(first ? "" : ",") + "[" + jstr(ob.first) + ",\"" + v + "\"]";
    first = false;
  }
  o += "]";
  out_line("{\"type\":\"sample\",\"inputs\":" + input_json(m) + ",\"obs\":" + o + "}");
}
