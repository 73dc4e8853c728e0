// symir: a small symbolic executor for LLVM IR, with Z3 as the deciding solver.
// Shared declarations. See DESIGN.md for the semantics and the bounds.
#pragma once
#include <atomic>
#include <bitset>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint64_t u64;
typedef int64_t i64;

// A scalar value: concrete bits `u`, or a Z3 term `e` when non-null.
struct Val {
  u64 u = 0;
  Z3_ast e = nullptr;
  Val() {}
  explicit Val(u64 x) : u(x) {}
  Val(u64 x, Z3_ast y) : u(x), e(y) {}
};

enum Mode { MODE_REAL, MODE_FP };
extern Mode g_mode;
extern Z3_context C;

// ---- options / shared state (shared memory across forked workers)
struct Shared {
  std::atomic<int> lock;
  std::atomic<int> free_tokens;
  std::atomic<int> nstack;
  int stack[1 << 16];
  std::atomic<int> futex[1 << 16];
  std::atomic<int> next_slot;
  std::atomic<int> live;
  std::atomic<int> stop;
  // counters
  std::atomic<long> paths, completed, infeasible, deadline_cut, inconclusive, violations;
  std::atomic<long> instrs, branches, forks, queries, q_sat, q_unsat, q_unknown, solver_us, max_query_us;
  std::atomic<long> asserts, asserts_solver, asserts_const, samples, errors, cached, concretized, byte_decided, byte_certs;
  std::atomic<int> nlabels;
  struct Label { char kind; char name[95]; std::atomic<long> n; } labels[1024];
  std::atomic<int> nfuncs;
  std::atomic<unsigned char> func_seen[1 << 17];
  std::atomic<int> viol_by_label[1024];
};
extern Shared* S;
struct Options {
  std::string bitcode, entry, out;
  int workers = 8;
  double deadline = 600;      // seconds, whole run
  int query_ms = 10000;
  long max_instrs = 400000000;
  int max_samples = 32;
  int max_viol_per_label = 4;
  bool debug = false;
  u64 seed = 1;
};
extern Options opt;

void out_line(const std::string& s);
std::string jstr(const std::string& s);
[[noreturn]] void path_end(const char* why);
[[noreturn]] void path_error(const std::string& msg);  // inconclusive path
bool token_fork();                                      // true in the child
void label_hit(char kind, const std::string& name);
int label_id(char kind, const std::string& name);
bool time_up();

// ---- solver layer
Z3_ast mk_bv(u64 v, unsigned bits);
Z3_ast mk_real_of_double(double d);
Z3_ast mk_fp_of_double(double d, bool is32);
static inline Z3_ast mk_and2(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_and(C, 2, t); }
static inline Z3_ast mk_or2(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_or(C, 2, t); }
static inline Z3_ast mk_mul2(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_mul(C, 2, t); }
static inline Z3_ast mk_add2(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_add(C, 2, t); }
Z3_ast simp(Z3_ast a);
bool is_numeral_double(Z3_ast a, double* out);
bool is_bool_const(Z3_ast a, bool* v);
bool is_bv_const(Z3_ast a, u64* v);
enum Res { UNSAT, SAT, UNKNOWN };
struct Input { std::string name; char kind; Z3_ast ast; i64 cval; double lo, hi; };
extern std::vector<Input> inputs;
extern std::vector<Z3_ast> pc;
void pc_add(Z3_ast c, bool known_sat_under_assign = false);
Res check_with(const std::vector<Z3_ast>& extra, std::map<unsigned, Z3_ast>* model, bool full = false, int ms = 0);
bool decide(Z3_ast cond);            // forks when both sides are feasible
bool may_be_true(Z3_ast cond);
void assume(Z3_ast cond);
u64 concretize(Val v, unsigned bits, const char* why);
Z3_ast fresh(const char* name, Z3_sort s);
double ast_to_double(Z3_ast a, bool* ok = nullptr);
Z3_ast eval_under(Z3_ast a, const std::map<unsigned, Z3_ast>& m);
extern std::map<unsigned, Z3_ast> assign;  // var ast id -> value; satisfies pc when assign_ok
extern bool assign_ok;
void fill_defaults(Z3_ast a);
// Symbols that are functions of others: how to evaluate them, and the facts that define them.
struct TrigLink { unsigned var, s, c; double k, off; };  // s, c are the sine and cosine of k * var + off
extern std::vector<TrigLink> trig_links;
struct Derived { char kind; Z3_ast a, b; };  // q sqrt(a), a atan2(a,b), c acos(a), n asin(a), v a
extern std::map<unsigned, Derived> derived;
extern std::map<unsigned, std::vector<Z3_ast>> var_defs;  // joined to every query that mentions the symbol
bool ensure_assign();
std::vector<Z3_ast> vars_of(Z3_ast a);
// A term over one symbolic byte, as the list of its values for each byte value.
struct Tab { Z3_ast var; unsigned vid; u64 t[256]; };
const Tab* table_of(Z3_ast e);                   // null if e is not such a term
const std::bitset<256>& dom_of(unsigned vid);    // byte values the path still allows (a superset)
void certify(Z3_ast e, const Tab& t, const std::bitset<256>& on);
Z3_ast byte_set(Z3_ast v, const std::bitset<256>& b);
void report_violation(const std::string& label, const std::string& msg, Z3_ast cond /*may be null*/);
