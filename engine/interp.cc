// IR interpreter of symir: concrete bytes live at real addresses, symbolic scalars in a
// per-byte shadow; LLVM 18 IR is decoded lazily per function.
#include <cxxabi.h>
#include <dlfcn.h>
#include <ffi.h>
#include <math.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include "symir.h"

using namespace llvm;

extern double g_t0;
double now_s();
void maybe_sample();
void flush_counters();
long g_instrs = 0, g_instrs_flushed = 0;
std::vector<std::pair<std::string, Val>> observations;

static std::unique_ptr<Module> M;
static const DataLayout* DL;

// ================================================================ memory
static const u64 HEAP_SZ = 1ull << 31, STACK_SZ = 1ull << 28, GLOB_SZ = 1ull << 27;
static const u64 ARENA_SZ = HEAP_SZ + STACK_SZ + GLOB_SZ;
static char* A;            // arena base
static unsigned char* AS;  // addressability: 1 ok, 0 unallocated/redzone, 2 freed
static u64 heap_top, stack_top, glob_top;
static inline bool in_arena(u64 p) { return p - (u64)A < ARENA_SZ; }

struct Chunk { u64 size; char kind; bool freed; u64 seq; };
static std::unordered_map<u64, Chunk>* chunks;
static u64 alloc_seq = 0;

struct FuncInfo;
static std::vector<FuncInfo*> callstack;
[[noreturn]] static void crash(const std::string& kind, const std::string& msg);

struct Cell { Z3_ast e; uint8_t idx, n; };
struct Cells { Cell c[8]; };
static std::unordered_map<u64, Cells> shadow;
static uint32_t symcnt[1 << 16];
static inline uint32_t& bucket(u64 a) { return symcnt[(a >> 6) & 0xffff]; }
static inline bool maybe_sym(u64 a, u64 n) {
  if (n == 0) return false;
  for (u64 l = a >> 6; l <= (a + n - 1) >> 6; l++)
    if (symcnt[l & 0xffff]) return true;
  return false;
}
static Cell get_cell(u64 a) {
  auto it = shadow.find(a >> 3);
  if (it == shadow.end()) return Cell{nullptr, 0, 0};
  return it->second.c[a & 7];
}
static void set_cell(u64 a, Cell c) {
  if (c.e) {
    Cell& d = shadow[a >> 3].c[a & 7];
    if (!d.e) bucket(a)++;
    d = c;
  } else {
    auto it = shadow.find(a >> 3);
    if (it == shadow.end()) return;
    Cell& d = it->second.c[a & 7];
    if (d.e) { bucket(a)--; d.e = nullptr; }
  }
}
static void clear_sym(u64 a, u64 n) {
  if (!maybe_sym(a, n)) return;
  for (u64 i = 0; i < n; i++)
    if (bucket(a + i)) set_cell(a + i, Cell{nullptr, 0, 0});
}
static bool any_sym(u64 a, u64 n) {
  if (!maybe_sym(a, n)) return false;
  for (u64 i = 0; i < n; i++)
    if (bucket(a + i) && get_cell(a + i).e) return true;
  return false;
}
static bool addr_ok(u64 p, u64 n) {
  if (p < 65536) return false;
  if (!in_arena(p)) return true;
  if (p + n > (u64)A + ARENA_SZ) return false;
  const unsigned char* s = AS + (p - (u64)A);
  for (u64 i = 0; i < n; i++)
    if (s[i] != 1) return false;
  return true;
}
static std::string addr_msg(u64 p, u64 n, bool w) {
  char b[160];
  const char* what = p < 65536 ? "null/wild pointer" : !in_arena(p) ? "wild pointer"
                     : AS[p - (u64)A] == 2 ? "use after free" : "out of bounds";
  snprintf(b, sizeof b, "%s: invalid %s of %llu bytes", what, w ? "write" : "read", (unsigned long long)n);
  return b;
}
static inline void chk(u64 p, u64 n, bool w) {
  if (in_arena(p)) {
    const unsigned char* s = AS + (p - (u64)A);
    if (n == 8) { u64 x; memcpy(&x, s, 8); if (x == 0x0101010101010101ull) return; }
    else if (n == 1) { if (*s == 1) return; }
    else if (n == 4) { uint32_t x; memcpy(&x, s, 4); if (x == 0x01010101u) return; }
    if (n == 0 || addr_ok(p, n)) return;
    crash("memory", addr_msg(p, n, w));
  } else if (p < 65536 && n) crash("memory", addr_msg(p, n, w));
}
static u64 heap_alloc(u64 n, char kind, u64 align = 16) {
  if (n > (1ull << 28)) return 0;
  u64 p = (heap_top + 16 + align - 1) & ~(align - 1);
  if (p + n + 64 > (u64)A + HEAP_SZ) path_error("heap arena exhausted");
  heap_top = p + n;
  memset(AS + (p - (u64)A), 1, n);
  memset((void*)p, kind == 'c' ? 0 : 0xbe, n);
  (*chunks)[p] = Chunk{n, kind == 'c' ? 'm' : kind, false, ++alloc_seq};
  return p;
}
static bool heap_free(u64 p, char kind) {
  if (!p) return true;
  auto it = chunks->find(p);
  if (it == chunks->end()) { crash("memory", "free of a pointer that is not an allocation"); }
  if (it->second.freed) crash("memory", "double free");
  if (it->second.kind != kind) crash("memory", "mismatched allocation and deallocation function");
  it->second.freed = true;
  memset(AS + (p - (u64)A), 2, it->second.size);
  clear_sym(p, it->second.size);
  return true;
}
// Native code may release memory that interpreted code allocated.
extern "C" void __libc_free(void*);
extern "C" void free(void* p) {
  if (A && in_arena((u64)p)) { if (chunks->count((u64)p)) heap_free((u64)p, (*chunks)[(u64)p].kind); return; }
  __libc_free(p);
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static void copy_mem(u64 d, u64 s, u64 n) {
  if (!n) return;
  chk(s, n, false);
  chk(d, n, true);
  bool ss = maybe_sym(s, n), ds = maybe_sym(d, n);
  if (!ss && !ds) { memmove((void*)d, (void*)s, n); return; }
  std::vector<Cell> cs(n);
  for (u64 i = 0; i < n; i++) cs[i] = bucket(s + i) ? get_cell(s + i) : Cell{nullptr, 0, 0};
  memmove((void*)d, (void*)s, n);
  for (u64 i = 0; i < n; i++)
    if (cs[i].e || bucket(d + i)) set_cell(d + i, cs[i]);
}

// ================================================================ values
static inline u64 maskb(u64 v, unsigned b) { return b >= 64 ? v : v & ((1ull << b) - 1); }
static inline i64 sx(u64 v, unsigned b) { return b >= 64 ? (i64)v : (i64)(v << (64 - b)) >> (64 - b); }
static Z3_sort_kind sk(Z3_ast e) { return Z3_get_sort_kind(C, Z3_get_sort(C, e)); }
static double bits2d(u64 u) { double d; memcpy(&d, &u, 8); return d; }
static u64 d2bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static float bits2f(u64 u) { float f; uint32_t w = u; memcpy(&f, &w, 4); return f; }
static u64 f2bits(float f) { uint32_t w; memcpy(&w, &f, 4); return w; }
static double cval(const Val& v, bool f32) { return f32 ? bits2f(v.u) : bits2d(v.u); }
static Val mkc(double d, bool f32) { return Val(f32 ? f2bits((float)d) : d2bits(d)); }

// Opaque images of memory that mixes real-valued symbols with other bytes (a
// union copied as an integer): they may be moved, truncated and stored only.
struct Blob { std::vector<Cell> cells; std::vector<uint8_t> raw; };
static std::unordered_map<unsigned, Blob> blobs;
static int blob_n = 0;
static Blob* blob_of(Z3_ast e) {
  if (!e || blobs.empty()) return nullptr;
  auto it = blobs.find(Z3_get_ast_id(C, e));
  return it == blobs.end() ? nullptr : &it->second;
}
static Val mk_blob(const Blob& b) {
  size_t n = b.cells.size();
  bool any = false, whole = true;
  for (size_t i = 0; i < n; i++) {
    if (b.cells[i].e) any = true;
    if (!b.cells[i].e || b.cells[i].e != b.cells[0].e || b.cells[i].idx != i || b.cells[i].n != n) whole = false;
  }
  if (!any) { u64 u = 0; memcpy(&u, b.raw.data(), std::min<size_t>(n, 8)); return Val(u); }
  if (whole) return Val(0, b.cells[0].e);
  Z3_ast c = Z3_mk_const(C, Z3_mk_string_symbol(C, ("blob!" + std::to_string(blob_n++)).c_str()), Z3_mk_bv_sort(C, n * 8));
  blobs[Z3_get_ast_id(C, c)] = b;
  return Val(0, c);
}
static Val blob_slice(const Blob& b, size_t from, size_t n) {
  Blob r;
  for (size_t i = from; i < from + n; i++) {
    r.cells.push_back(i < b.cells.size() ? b.cells[i] : Cell{nullptr, 0, 0});
    r.raw.push_back(i < b.raw.size() ? b.raw[i] : 0);
  }
  return mk_blob(r);
}

static Z3_ast asBool(const Val& v) {
  if (!v.e) return (v.u & 1) ? Z3_mk_true(C) : Z3_mk_false(C);
  if (sk(v.e) == Z3_BOOL_SORT) return v.e;
  if (sk(v.e) == Z3_BV_SORT) return Z3_mk_eq(C, v.e, mk_bv(1, Z3_get_bv_sort_size(C, Z3_get_sort(C, v.e))));
  path_error("asBool: unexpected sort");
}
static Z3_ast asBV(const Val& v, unsigned bits) {
  if (!v.e) return mk_bv(maskb(v.u, bits), bits);
  switch (sk(v.e)) {
    case Z3_BOOL_SORT: return Z3_mk_ite(C, v.e, mk_bv(1, bits), mk_bv(0, bits));
    case Z3_BV_SORT: {
      if (blob_of(v.e)) path_error("bit-level operation on an opaque memory image");
      unsigned n = Z3_get_bv_sort_size(C, Z3_get_sort(C, v.e));
      if (n == bits) return v.e;
      if (n > bits) return Z3_mk_extract(C, bits - 1, 0, v.e);
      return Z3_mk_zero_ext(C, bits - n, v.e);
    }
    case Z3_FLOATING_POINT_SORT: {
      Z3_ast b = Z3_mk_fpa_to_ieee_bv(C, v.e);
      if (Z3_get_bv_sort_size(C, Z3_get_sort(C, b)) == bits) return b;
      path_error("asBV: fp width");
    }
    default: path_error("bit-level operation on a real-valued symbol");
  }
}
static Val mkI(Z3_ast e, unsigned bits) {
  if (const Tab* t = table_of(e)) {
    const auto& d = dom_of(t->vid);
    bool first = true, same = true;
    u64 v0 = 0;
    std::bitset<256> on;
    for (int i = 0; i < 256; i++) {
      if (!d[i]) continue;
      if (first) { v0 = t->t[i]; first = false; }
      else if (t->t[i] != v0) same = false;
      on[i] = t->t[i] & 1;
    }
    if (bits == 1 && sk(e) == Z3_BOOL_SORT) certify(e, *t, on);
    if (same) return Val(v0);
    if (bits == 1) return Val(0, byte_set(t->var, on));
    return Val(0, e);
  }
  e = simp(e);
  if (bits == 1) {
    if (sk(e) != Z3_BOOL_SORT) e = simp(Z3_mk_eq(C, e, mk_bv(1, 1)));
    bool b;
    if (is_bool_const(e, &b)) return Val(b);
    return Val(0, e);
  }
  u64 v;
  if (is_bv_const(e, &v)) return Val(v);
  return Val(0, e);
}
static Val mkB(Z3_ast e) { return mkI(e, 1); }
static Val mkR(Z3_ast e, bool f32) {
  e = simp(e);
  if (g_mode == MODE_REAL) {
    double d;
    if (is_numeral_double(e, &d) && (!f32 || (double)(float)d == d)) return mkc(d, f32);
  }
  return Val(0, e);
}
static Z3_ast asR(const Val& v, bool f32) {
  if (g_mode == MODE_FP) {
    if (!v.e) return mk_fp_of_double(cval(v, f32), f32);
    if (sk(v.e) == Z3_BV_SORT)
      return Z3_mk_fpa_to_fp_bv(C, v.e, f32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C));
    return v.e;
  }
  if (!v.e) return mk_real_of_double(cval(v, f32));
  if (sk(v.e) != Z3_REAL_SORT) path_error("floating point view of symbolic bits");
  return v.e;
}
static Z3_ast R0() { static Z3_ast z = Z3_mk_int(C, 0, Z3_mk_real_sort(C)); return z; }
static Z3_ast rop(int op, Z3_ast a, Z3_ast b) {
  Z3_ast ar[2] = {a, b};
  switch (op) {
    case 0: return Z3_mk_add(C, 2, ar);
    case 1: return Z3_mk_sub(C, 2, ar);
    case 2: return Z3_mk_mul(C, 2, ar);
    default: return Z3_mk_div(C, a, b);
  }
}
static Z3_ast rm() { return Z3_mk_fpa_rne(C); }
static Z3_ast real_fresh(const char* n) { return fresh(n, Z3_mk_real_sort(C)); }
static Z3_ast sq(Z3_ast a) { return mk_mul2(a, a); }
static Z3_ast add2(Z3_ast a, Z3_ast b) { return mk_add2(a, b); }
static Z3_ast mul2(Z3_ast a, Z3_ast b) { return mk_mul2(a, b); }
#include "poly.inc"

static Val fneg(const Val& a, bool f32) {
  if (!a.e) return mkc(-cval(a, f32), f32);
  if (g_mode == MODE_FP) return mkR(Z3_mk_fpa_neg(C, asR(a, f32)), f32);
  if (has_ite(a.e)) {  // negate both arms; no decision needed yet
    Z3_app ap = Z3_to_app(C, a.e);
    Val t = fneg(Val(0, Z3_get_app_arg(C, ap, 1)), f32), e = fneg(Val(0, Z3_get_app_arg(C, ap, 2)), f32);
    return Val(0, Z3_mk_ite(C, Z3_get_app_arg(C, ap, 0), asR(t, f32), asR(e, f32)));
  }
  RF r = rf_of(asR(a, f32));
  r.n = p_scale(r.n, -1);
  return rf_val(r, f32);
}
static int sign_of(Z3_ast x) {  // forks
  if (decide(r_eq(x, R0()))) return 0;
  return decide(r_gt(x, R0())) ? 1 : -1;
}
static Val fbin(int op, const Val& a, const Val& b, bool f32) {  // 0 + 1 - 2 * 3 /
  if (!a.e && !b.e) {
    if (f32) {
      float x = bits2f(a.u), y = bits2f(b.u), r = 0;
      switch (op) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break;
        case 4: r = fmodf(x, y); break; }
      return Val(f2bits(r));
    }
    double x = bits2d(a.u), y = bits2d(b.u), r = 0;
    switch (op) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break;
      case 4: r = fmod(x, y); break; }
    return Val(d2bits(r));
  }
  if (op == 4) path_error("symbolic frem");
  if (g_mode == MODE_FP) {
    Z3_ast x = asR(a, f32), y = asR(b, f32), r;
    switch (op) {
      case 0: r = Z3_mk_fpa_add(C, rm(), x, y); break;
      case 1: r = Z3_mk_fpa_sub(C, rm(), x, y); break;
      case 2: r = Z3_mk_fpa_mul(C, rm(), x, y); break;
      default: r = Z3_mk_fpa_div(C, rm(), x, y); break;
    }
    return mkR(r, f32);
  }
  // REAL mode, at least one symbolic
  double inf = INFINITY;
  if (!a.e && !std::isfinite(cval(a, f32))) {
    double x = cval(a, f32);
    if (std::isnan(x)) return mkc(x, f32);
    if (op == 0 || op == 1) return mkc(x, f32);
    int s = sign_of(asR(b, f32));
    if (op == 2) return mkc(s == 0 ? NAN : s * x, f32);
    return mkc(s == 0 ? x : s * x, f32);
  }
  if (!b.e && !std::isfinite(cval(b, f32))) {
    double y = cval(b, f32);
    if (std::isnan(y)) return mkc(y, f32);
    if (op == 0) return mkc(y, f32);
    if (op == 1) return mkc(-y, f32);
    if (op == 3) return mkc(0, f32);
    int s = sign_of(asR(a, f32));
    return mkc(s == 0 ? NAN : s * y, f32);
  }
  // exact identities
  if (op == 2 && ((!a.e && cval(a, f32) == 0) || (!b.e && cval(b, f32) == 0))) return mkc(0, f32);
  if (op == 3) {
    Z3_ast y = asR(b, f32);
    bool zero = b.e ? decide(r_eq(y, R0())) : cval(b, f32) == 0;
    if (zero) {
      if (!a.e) { double x = cval(a, f32); return mkc(x > 0 ? inf : x < 0 ? -inf : NAN, f32); }
      int s = sign_of(asR(a, f32));
      return mkc(s > 0 ? inf : s < 0 ? -inf : NAN, f32);
    }
    if (!a.e && cval(a, f32) == 0) return mkc(0, f32);
  }
  RF x = rf_of(asR(a, f32));
  return rf_val(rf_bin(op, x, rf_of(asR(b, f32))), f32);
}
static Val fcmp(unsigned pred, const Val& a, const Val& b, bool f32) {
  // LLVM predicates: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
  if (pred == 0) return Val(0);
  if (pred == 15) return Val(1);
  if (!a.e && !b.e) {
    double x = cval(a, f32), y = cval(b, f32);
    bool r;
    if (std::isnan(x) || std::isnan(y)) r = pred & 8;
    else r = ((pred & 1) && x == y) || ((pred & 2) && x > y) || ((pred & 4) && x < y);
    return Val(r);
  }
  if (g_mode == MODE_FP) {
    Z3_ast x = asR(a, f32), y = asR(b, f32);
    Z3_ast ors[4];
    unsigned n = 0;
    if (pred & 1) ors[n++] = Z3_mk_fpa_eq(C, x, y);
    if (pred & 2) ors[n++] = Z3_mk_fpa_gt(C, x, y);
    if (pred & 4) ors[n++] = Z3_mk_fpa_lt(C, x, y);
    if (pred & 8) ors[n++] = mk_or2(Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y));
    return mkB(Z3_mk_or(C, n, ors));
  }
  for (int k = 0; k < 2; k++) {
    const Val& c = k ? b : a;
    if (c.e) continue;
    double x = cval(c, f32);
    if (std::isnan(x)) return Val((pred & 8) != 0);
    if (std::isinf(x)) {
      bool c_is_gt = x > 0;            // c > other
      bool a_gt_b = k ? !c_is_gt : c_is_gt;
      return Val(a_gt_b ? (pred & 2) != 0 : (pred & 4) != 0);
    }
  }
  Z3_ast x = asR(a, f32), y = asR(b, f32);
  switch (pred & 7) {
    case 0: return Val(0);
    case 1: return mkB(r_eq(x, y));
    case 2: return mkB(r_gt(x, y));
    case 3: return mkB(r_ge(x, y));
    case 4: return mkB(r_lt(x, y));
    case 5: return mkB(r_le(x, y));
    case 6: return mkB(Z3_mk_not(C, r_eq(x, y)));
    default: return Val(1);
  }
}
// ---- real math with symbolic arguments
static std::map<unsigned, Z3_ast> sqrt_cache, sin_cache, cos_cache, acos_cache;
static std::map<std::pair<unsigned, unsigned>, Z3_ast> atan2_cache;
static std::map<std::vector<unsigned>, Z3_ast> ang_cache;
static Val f_sqrt(const Val& a, bool f32) {
  if (!a.e) return mkc(f32 ? sqrtf(bits2f(a.u)) : sqrt(bits2d(a.u)), f32);
  if (g_mode == MODE_FP) return mkR(Z3_mk_fpa_sqrt(C, rm(), asR(a, f32)), f32);
  Z3_ast x = asR(a, f32);
  if (decide(r_lt(x, R0()))) return mkc(NAN, f32);
  RF r = rf_of(x);
  return rf_val(rf_sqrt(r), f32);
}
// Sine and cosine of an angle symbol: quotients over a circle point; angles that came out of
// atan2/acos/asin have known ones.
static std::map<unsigned, std::pair<RF, RF>> trig_of_atom;  // atom -> (sin, cos)
static std::map<unsigned, std::pair<Z3_ast, Z3_ast>> trig_cache;
static void r_sincos(Z3_ast x, RF* s, RF* c) {
  RF r = rf_of(x);
  // an odd/even pair shares its symbols
  bool neg = !r.n.empty() && sgn(r.n.begin()->second) < 0;
  if (neg) r.n = p_scale(r.n, -1);
  Q q;
  // a known angle
  if (r.n.size() == 1 && p_is_const(r.d, &q) && r.n.begin()->second == q && r.n.begin()->first.size() == 1 &&
      r.n.begin()->first[0].second == 1) {
    auto it = trig_of_atom.find(r.n.begin()->first[0].first);
    if (it != trig_of_atom.end()) {
      *s = it->second.first;
      *c = it->second.second;
      if (neg) s->n = p_scale(s->n, -1);
      return;
    }
  }
  unsigned id = Z3_get_ast_id(C, rf_ast(r));
  if (!trig_cache.count(id)) {
    Z3_ast ss = real_fresh("sin"), cc = real_fresh("cos");
    trig_cache[id] = {ss, cc};
    atoms.push_back(Atom{cc, 'v', {}, 0});
    unsigned ci = atoms.size() - 1;
    atom_of_ast[Z3_get_ast_id(C, cc)] = ci;
    atoms.push_back(Atom{ss, 's', {}, ci});
    atom_of_ast[Z3_get_ast_id(C, ss)] = ci + 1;
    Z3_ast d = Z3_mk_eq(C, add2(sq(ss), sq(cc)), Z3_mk_int(C, 1, Z3_mk_real_sort(C)));
    var_defs[Z3_get_ast_id(C, ss)] = {d};
    var_defs[Z3_get_ast_id(C, cc)] = {d};
    assign[Z3_get_ast_id(C, ss)] = R0();
    assign[Z3_get_ast_id(C, cc)] = Z3_mk_int(C, 1, Z3_mk_real_sort(C));
    // an angle that is an input up to scaling: a model's circle point tells the input's value
    Q k = 0, off = 0;
    int at = -1;
    bool lin = p_is_const(r.d, &q);
    for (auto& mo : r.n) {
      if (mo.first.empty()) off = mo.second / q;
      else if (mo.first.size() == 1 && mo.first[0].second == 1 && at < 0) { at = mo.first[0].first; k = mo.second / q; }
      else lin = false;
    }
    if (lin && at >= 0) trig_links.push_back({Z3_get_ast_id(C, atoms[at].e), Z3_get_ast_id(C, ss), Z3_get_ast_id(C, cc), k.get_d(), off.get_d()});
  }
  *s = rf_of(trig_cache[id].first);
  *c = rf_of(trig_cache[id].second);
  if (neg) s->n = p_scale(s->n, -1);
}
static Val f_sincos(const Val& a, bool f32, bool is_sin) {
  if (!a.e) { double x = cval(a, f32); return mkc(is_sin ? sin(x) : cos(x), f32); }
  if (g_mode == MODE_FP) path_error("symbolic sin/cos in FP mode");
  RF s, c;
  r_sincos(asR(a, f32), &s, &c);
  return rf_val(is_sin ? s : c, f32);
}
static Z3_ast angle_symbol(const char* name, char kind, Z3_ast a, Z3_ast b, const RF& s, const RF& c) {
  Z3_ast t = real_fresh(name);
  unsigned id = Z3_get_ast_id(C, t);
  derived[id] = Derived{kind, a, b};
  trig_of_atom[atom_for(t)] = {s, c};
  return t;
}
static Val f_atan2(const Val& y, const Val& x) {
  if (!x.e && !y.e) return mkc(atan2(bits2d(y.u), bits2d(x.u)), false);
  if (g_mode == MODE_FP) path_error("symbolic atan2 in FP mode");
  for (const Val* v : {&x, &y}) if (!v->e && !std::isfinite(bits2d(v->u))) path_error("atan2 of a non-finite value");
  RF X = rf_of(asR(x, false)), Y = rf_of(asR(y, false));
  // common positive factor out
  Poly xn = p_mul(X.n, Y.d), yn = p_mul(Y.n, X.d);
  if (p_eq(X.d, Y.d)) { xn = X.n; yn = Y.n; if (p_sign(X.d) < 0) { xn = p_scale(xn, -1); yn = p_scale(yn, -1); } }
  else if (p_sign(X.d) * p_sign(Y.d) < 0) { xn = p_scale(xn, -1); yn = p_scale(yn, -1); }
  if (yn.empty()) return mkc(decide(p_cond('G', xn)) ? 0 : M_PI, false);
  Q k = p_content(yn), kx = xn.empty() ? k : p_content(xn);
  mpz_class num = gcd(k.get_num(), kx.get_num()), den = lcm(k.get_den(), kx.get_den());
  k = Q(num, den);
  k.canonicalize();
  xn = p_scale(xn, 1 / k);
  yn = p_scale(yn, 1 / k);
  // quadrant and axes are decided here, so that what is left is an open interval
  bool yz = decide(p_cond('=', yn));
  if (yz) return mkc(decide(p_cond('G', xn)) ? 0 : M_PI, false);
  bool up = decide(p_cond('>', yn));
  if (decide(p_cond('=', xn))) return mkc(up ? M_PI_2 : -M_PI_2, false);
  bool rt = decide(p_cond('>', xn));
  Q qx, qy;
  Z3_ast ax = p_ast(xn), ay = p_ast(yn);
  std::vector<unsigned> key{0, Z3_get_ast_id(C, ay), Z3_get_ast_id(C, ax)};
  if (!ang_cache.count(key)) {
    RF rx{xn, p_const(1)}, ry{yn, p_const(1)};
    RF h = rf_sqrt(RF{p_add(p_mul(xn, xn), p_mul(yn, yn), 1), p_const(1)});
    Z3_ast t = angle_symbol("atan2", 'a', ay, ax, rf_norm(rf_bin(3, ry, h)), rf_norm(rf_bin(3, rx, h)));
    double lo = up ? (rt ? 0 : M_PI_2) : (rt ? -M_PI_2 : -M_PI), hi = lo + M_PI_2;
    var_defs[Z3_get_ast_id(C, t)] = {Z3_mk_gt(C, t, mk_real_of_double(lo)), Z3_mk_lt(C, t, mk_real_of_double(hi))};
    ang_cache[key] = t;
  }
  return Val(0, ang_cache[key]);
}
static Val f_acos(const Val& a, bool is_asin) {
  if (!a.e) return mkc(is_asin ? asin(bits2d(a.u)) : acos(bits2d(a.u)), false);
  if (g_mode == MODE_FP) path_error("symbolic acos in FP mode");
  Z3_ast x = asR(a, false);
  RF r = rf_of(x), one{p_const(1), p_const(1)};
  RF r2 = rf_norm(rf_bin(2, r, r));
  if (decide(rf_cond('>', rf_norm(rf_bin(1, r2, one))))) return mkc(NAN, false);
  std::vector<unsigned> key{is_asin ? 1u : 2u, Z3_get_ast_id(C, rf_ast(r))};
  if (!ang_cache.count(key)) {
    RF o = rf_norm(rf_sqrt(rf_norm(rf_bin(1, one, r2))));
    Z3_ast t = angle_symbol(is_asin ? "asin" : "acos", is_asin ? 'n' : 'c', rf_ast(r), nullptr, is_asin ? r : o, is_asin ? o : r);
    double lo = is_asin ? -M_PI_2 : 0, hi = is_asin ? M_PI_2 : M_PI;
    var_defs[Z3_get_ast_id(C, t)] = {Z3_mk_ge(C, t, mk_real_of_double(lo)), Z3_mk_le(C, t, mk_real_of_double(hi))};
    ang_cache[key] = t;
  }
  return Val(0, ang_cache[key]);
}
static Val f_abs(const Val& a, bool f32) {
  if (!a.e) return mkc(fabs(cval(a, f32)), f32);
  if (g_mode == MODE_FP) return mkR(Z3_mk_fpa_abs(C, asR(a, f32)), f32);
  Z3_ast r = asR(a, f32);
  if (has_ite(r)) r = rf_ast(rf_of(r));
  double k;
  if (is_numeral_double(r, &k)) return mkc(fabs(k), f32);
  Z3_ast neg = r_lt(r, R0());
  bool b;
  if (is_bool_const(neg, &b)) return b ? fneg(Val(0, r), f32) : Val(0, r);
  return Val(0, Z3_mk_ite(C, neg, asR(fneg(Val(0, r), f32), f32), r));  // settled when it is used
}
static Val f_pow(const Val& a, const Val& b) {
  if (!a.e && !b.e) return mkc(pow(bits2d(a.u), bits2d(b.u)), false);
  if (b.e) path_error("pow with a symbolic exponent");
  double p = bits2d(b.u);
  if (p == 0.5) return f_sqrt(a, false);
  if (p == std::floor(p) && fabs(p) <= 8) {
    Val r = mkc(1, false);
    for (int i = 0; i < (int)fabs(p); i++) r = fbin(2, r, a, false);
    return p < 0 ? fbin(3, mkc(1, false), r, false) : r;
  }
  path_error("pow with an unsupported exponent");
}
static i64 trunc_int(Z3_ast x, const char* why) {  // enumerates; round toward zero
  x = rf_ast(rf_of(x));
  for (int k = 0; k < 400; k++) {
    if (!ensure_assign()) path_error(std::string("solver gave up: ") + why);
    fill_defaults(x);
    double d = ast_to_double(eval_under(x, assign));
    i64 v = (i64)d;
    Z3_ast lo, hi;
    double dv = (double)v;
    if (v > 0) { lo = r_ge(x, mk_real_of_double(dv)); hi = r_lt(x, mk_real_of_double(dv + 1)); }
    else if (v < 0) { lo = r_gt(x, mk_real_of_double(dv - 1)); hi = r_le(x, mk_real_of_double(dv)); }
    else { lo = r_gt(x, mk_real_of_double(-1)); hi = r_lt(x, mk_real_of_double(1)); }
    if (decide(mk_and2(lo, hi))) return v;
  }
  path_error(std::string("too many integer values: ") + why);
}
static Val f_round(const Val& a, bool f32, char how) {  // f floor, c ceil, t trunc, r round, e rint
  if (!a.e) {
    double x = cval(a, f32);
    double r = how == 'f' ? floor(x) : how == 'c' ? ceil(x) : how == 't' ? trunc(x) : how == 'r' ? round(x) : nearbyint(x);
    return mkc(r, f32);
  }
  if (g_mode == MODE_FP) path_error("rounding function in FP mode");
  Z3_ast x = asR(a, f32);
  i64 t;
  if (how == 'e') path_error("symbolic rint");
  if (how == 'r') {
    bool neg = decide(r_lt(x, R0()));
    Z3_ast y = add2(neg ? Z3_mk_unary_minus(C, x) : x, mk_real_of_double(0.5));
    t = trunc_int(simp(y), "round");
    return mkc(neg ? -t : t, f32);
  }
  t = trunc_int(x, "floor/ceil");
  if (how == 't') return mkc(t, f32);
  Z3_ast tv = mk_real_of_double((double)t);
  if (how == 'f') return mkc(decide(r_lt(x, tv)) ? t - 1 : t, f32);
  return mkc(decide(r_gt(x, tv)) ? t + 1 : t, f32);
}

// ================================================================ types
struct Lane { uint32_t off; uint16_t bits, bytes; char kind; };  // kind: i p f d
struct TInfo { std::vector<Lane> l; u64 size; };
static std::map<Type*, TInfo*> tcache;
static void flat(Type* t, u64 off, std::vector<Lane>& out) {
  switch (t->getTypeID()) {
    case Type::VoidTyID: return;
    case Type::IntegerTyID: {
      unsigned b = t->getIntegerBitWidth();
      if (b > 64) { out.push_back(Lane{(uint32_t)off, 128, 16, 'w'}); return; }
      out.push_back(Lane{(uint32_t)off, (uint16_t)b, (uint16_t)((b + 7) / 8), 'i'});
      return;
    }
    case Type::PointerTyID: out.push_back(Lane{(uint32_t)off, 64, 8, 'p'}); return;
    case Type::FloatTyID: out.push_back(Lane{(uint32_t)off, 32, 4, 'f'}); return;
    case Type::DoubleTyID: out.push_back(Lane{(uint32_t)off, 64, 8, 'd'}); return;
    case Type::X86_FP80TyID: out.push_back(Lane{(uint32_t)off, 80, 16, 'x'}); return;
    case Type::StructTyID: {
      auto* s = cast<StructType>(t);
      const StructLayout* L = DL->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + L->getElementOffset(i), out);
      return;
    }
    case Type::ArrayTyID: {
      auto* a = cast<ArrayType>(t);
      u64 es = DL->getTypeAllocSize(a->getElementType());
      for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * es, out);
      return;
    }
    case Type::FixedVectorTyID: {
      auto* v = cast<FixedVectorType>(t);
      u64 es = DL->getTypeSizeInBits(v->getElementType()) / 8;
      for (u64 i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), off + i * es, out);
      return;
    }
    case Type::MetadataTyID: case Type::LabelTyID: case Type::TokenTyID: return;
    default: { std::string s; raw_string_ostream os(s); t->print(os); path_error("unsupported type " + os.str()); }
  }
}
static TInfo* tinfo(Type* t) {
  auto& p = tcache[t];
  if (!p) {
    p = new TInfo;
    flat(t, 0, p->l);
    p->size = t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 0;
  }
  return p;
}

// ================================================================ symbolic load/store
static void store_lane(u64 a, unsigned bytes, const Val& v) {
  if (!v.e) {
    if (maybe_sym(a, bytes)) clear_sym(a, bytes);
    memcpy((void*)a, &v.u, bytes);
    return;
  }
  Z3_ast e = v.e;
  if (Blob* b = blob_of(e)) {
    for (unsigned i = 0; i < bytes && i < b->cells.size(); i++) {
      *(uint8_t*)(a + i) = b->raw[i];
      set_cell(a + i, b->cells[i]);
    }
    return;
  }
  if (sk(e) == Z3_BOOL_SORT) e = asBV(v, bytes * 8);
  memset((void*)a, 0, bytes);
  for (unsigned i = 0; i < bytes; i++) set_cell(a + i, Cell{e, (uint8_t)i, (uint8_t)bytes});
}
static Val load_lane(u64 a, unsigned bytes, unsigned bits) {
  if (!any_sym(a, bytes)) {
    u64 u = 0;
    memcpy(&u, (void*)a, bytes);
    return Val(maskb(u, bits));
  }
  Cell c0 = get_cell(a);
  if (c0.e && c0.idx == 0 && c0.n == bytes) {
    bool same = true;
    for (unsigned i = 1; i < bytes; i++) {
      Cell c = get_cell(a + i);
      if (c.e != c0.e || c.idx != i || c.n != bytes) { same = false; break; }
    }
    if (same) {
      if (bits == 1) return mkI(asBV(Val(0, c0.e), 1), 1);
      if (sk(c0.e) == Z3_BV_SORT && bits < bytes * 8u) return mkI(asBV(Val(0, c0.e), bits), bits);
      return Val(0, c0.e);
    }
  }
  for (unsigned i = 0; i < bytes; i++) {
    Cell c = get_cell(a + i);
    if (c.e && sk(c.e) == Z3_REAL_SORT) {
      Blob b;
      for (unsigned k = 0; k < bytes; k++) { b.cells.push_back(get_cell(a + k)); b.raw.push_back(*(uint8_t*)(a + k)); }
      return mk_blob(b);
    }
  }
  Z3_ast r = nullptr;
  for (unsigned i = 0; i < bytes; i++) {
    Cell c = get_cell(a + i);
    Z3_ast b;
    if (!c.e) b = mk_bv(*(unsigned char*)(a + i), 8);
    else {
      Z3_ast e = c.e;
      if (sk(e) == Z3_FLOATING_POINT_SORT) e = asBV(Val(0, e), c.n * 8);
      if (sk(e) != Z3_BV_SORT) path_error("byte-level access to a real-valued symbol");
      b = c.n == 1 ? e : Z3_mk_extract(C, c.idx * 8 + 7, c.idx * 8, e);
    }
    r = r ? Z3_mk_concat(C, b, r) : b;
  }
  if (bits < bytes * 8) r = Z3_mk_extract(C, bits - 1, 0, r);
  return mkI(r, bits);
}

// ================================================================ code
enum OpC : uint16_t {
  O_BIN, O_ICMP, O_FBIN, O_FNEG, O_FCMP, O_TRUNC, O_ZEXT, O_SEXT, O_FPTRUNC, O_FPEXT, O_FPTOSI, O_FPTOUI,
  O_SITOFP, O_UITOFP, O_MOV, O_SELECT, O_LOAD, O_STORE, O_ALLOCA, O_GEP, O_BR, O_CBR, O_SWITCH, O_RET,
  O_UNREACH, O_CALL, O_INSERTV, O_INSERTE, O_EXTRACTE, O_SHUFFLE, O_RMW, O_CMPXCHG, O_NOP, O_BAD, O_VSELECT, O_LPAD, O_RESUME,
};
struct Edge { int target; std::vector<std::pair<int, int>> copies; };  // dst slot, src operand
struct CallInfo;
struct GepInfo { i64 off; std::vector<std::pair<int, i64>> idx; std::vector<unsigned> idxbits; };
struct SwInfo { std::vector<std::pair<u64, Edge>> cases; Edge def; };
struct DI {
  uint16_t op = O_NOP;
  uint16_t sub = 0;
  uint16_t bits = 0, bits2 = 0;
  uint16_t lanes = 1;
  int dst = -1, a = 0, b = 0, c = 0;
  u64 imm = 0;
  void* p = nullptr;
  void* q = nullptr;
  const Instruction* I = nullptr;
};
struct FuncInfo {
  Function* F;
  std::string name;
  int id;
  std::vector<DI> code;
  std::vector<Val> consts;
  int nslots = 0;
  int nargs = 0;  // flattened
  std::vector<u64> static_allocas;
};
struct Ctx;
typedef void (*Handler)(Ctx&);
struct Ctx {
  const CallBase* cb;
  CallInfo* ci;
  std::vector<Val>* args;
  Val* ret;
  Val& arg(int i) { return (*args)[i]; }
  u64 cu(int i, unsigned bits, const char* why) { return concretize((*args)[i], bits, why); }
};
struct CallInfo {
  const CallBase* cb;
  Function* callee = nullptr;
  FuncInfo* fi = nullptr;
  Handler h = nullptr;
  int callee_op = 0;
  std::vector<int> args;           // operand of first lane per argument
  std::vector<TInfo*> at;
  std::vector<u64> byval;
  int nflat = 0, nret = 0;
  int nfixed = 0;                  // fixed argument count
  bool vararg = false;
  void* native = nullptr;
  ffi_cif* cif = nullptr; 
  u64 links = 0;
  bool shallow = false;
  std::vector<ffi_type*>* fts = nullptr;
  Edge* normal = nullptr;          // invoke
  Edge* unwind = nullptr;
  const LandingPadInst* lp = nullptr;
  int lp_slot = -1;
};
// ---- exceptions in flight
struct Unwind { u64 exc; };
struct Exc { u64 tinfo, dtor; i64 adj; int handlers; bool flying; };
static std::map<u64, Exc> excs;
static std::vector<u64> caught;
static std::vector<CallInfo*> curcall;   // the call each active frame is in
static std::unordered_map<const Function*, FuncInfo*> finfos;
static std::map<std::string, Handler> handlers;
static std::unordered_map<u64, Function*> addr2func;
static std::unordered_map<const Function*, u64> func2addr;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<const Function*, int> fids;

static void exec(FuncInfo* f, const std::vector<Val>& args, size_t nfixed_flat, Val* ret);
static FuncInfo* get_fi(Function* F);
static u64 func_addr(Function* F);

// The harness has said that the process may end here by itself, with a failure status.
static bool expect_exit;
[[noreturn]] static void crash(const std::string& kind, const std::string& msg) {
  if (expect_exit && (kind == "abort" || kind == "check" || kind == "exception" || kind == "exit")) {
    label_hit('r', "stopped");
    maybe_sample();
    path_end("done");
  }
  std::string where;
  int n = 0;
  for (int i = (int)callstack.size() - 1; i >= 0 && n < 6; i--, n++) {
    int st = 0;
    char* d = abi::__cxa_demangle(callstack[i]->name.c_str(), nullptr, nullptr, &st);
    std::string nm = d ? d : callstack[i]->name;
    if (nm.size() > 90) nm = nm.substr(0, 90);
    where += (n ? " < " : "") + nm;
    free(d);
  }
  report_violation("crash:" + kind, msg + " in " + where, nullptr);
  path_end("crash");
}

// ---------------------------------------------------------------- native addresses
static void* native_sym(const std::string& n) {
  std::string m = n;
  if (m.compare(0, 7, "native$") == 0) m = m.substr(7);
  if (!m.empty() && m[0] == '\1') m = m.substr(1);
  return dlsym(RTLD_DEFAULT, m.c_str());
}
static ffi_type* fft(Type* t, bool f_byval = false) {
  switch (t->getTypeID()) {
    case Type::VoidTyID: return &ffi_type_void;
    case Type::PointerTyID: return &ffi_type_pointer;
    case Type::FloatTyID: return &ffi_type_float;
    case Type::DoubleTyID: return &ffi_type_double;
    case Type::IntegerTyID:
      switch ((t->getIntegerBitWidth() + 7) / 8) {
        case 1: return &ffi_type_uint8;
        case 2: return &ffi_type_uint16;
        case 3: case 4: return &ffi_type_uint32;
        default: return &ffi_type_uint64;
      }
    case Type::StructTyID: {
      auto* s = cast<StructType>(t);
      ffi_type* r = new ffi_type;
      r->size = r->alignment = 0;
      r->type = FFI_TYPE_STRUCT;
      r->elements = new ffi_type*[s->getNumElements() + 1];
      for (unsigned i = 0; i < s->getNumElements(); i++) r->elements[i] = fft(s->getElementType(i));
      r->elements[s->getNumElements()] = nullptr;
      return r;
    }
    default: { std::string s; raw_string_ostream os(s); t->print(os); path_error("native call type " + os.str()); }
  }
}
static ffi_type* fft_blob(u64 size) {
  ffi_type* r = new ffi_type;
  r->size = r->alignment = 0;
  r->type = FFI_TYPE_STRUCT;
  u64 n = (size + 7) / 8;
  r->elements = new ffi_type*[n + 1];
  for (u64 i = 0; i < n; i++) r->elements[i] = &ffi_type_uint64;
  r->elements[n] = nullptr;
  return r;
}
struct Closure { Function* F; ffi_cif cif; std::vector<ffi_type*> ts; ffi_closure* cl = nullptr; void* code = nullptr; bool ready = false; };
static void closure_tramp(ffi_cif*, void* ret, void** av, void* ud) {
  Closure* c = (Closure*)ud;
  FuncInfo* fi = get_fi(c->F);
  std::vector<Val> args;
  unsigned i = 0;
  for (auto& a : c->F->args()) {
    u64 v = 0;
    TInfo* t = tinfo(a.getType());
    if (t->l.size() != 1) path_error("callback with aggregate argument");
    memcpy(&v, av[i++], t->l[0].bytes);
    args.push_back(Val(maskb(v, t->l[0].bits)));
  }
  TInfo* rt = tinfo(c->F->getReturnType());
  Val r[16];
  exec(fi, args, args.size(), r);
  char* out = (char*)ret;
  if (rt->l.size() == 1) {
    u64 u = concretize(r[0], rt->l[0].bits, "return value to native code");
    if (rt->l[0].kind == 'i') { *(u64*)out = u; } else memcpy(out, &u, rt->l[0].bytes);
  } else
    for (size_t k = 0; k < rt->l.size(); k++) {
      u64 u = concretize(r[k], rt->l[k].bits, "return value to native code");
      memcpy(out + rt->l[k].off, &u, rt->l[k].bytes);
    }
}
static u64 func_addr(Function* F) {
  auto it = func2addr.find(F);
  if (it != func2addr.end()) return it->second;
  u64 a = 0;
  if (F->isDeclaration()) {
    a = (u64)native_sym(F->getName().str());
    if (!a) a = heap_alloc(1, 'f');
  } else {
    bool ok = !F->isVarArg();
    auto good = [](Type* t) { return t->isPointerTy() || t->isFloatTy() || t->isDoubleTy() || t->isVoidTy() || (t->isIntegerTy() && t->getIntegerBitWidth() <= 64); };
    for (auto& x : F->args()) if (!good(x.getType()) || x.hasByValAttr()) ok = false;
    Type* rt = F->getReturnType();
    if (!good(rt)) {
      if (auto* s = dyn_cast<StructType>(rt)) { for (auto* e : s->elements()) if (!good(e)) ok = false; }
      else ok = false;
    }
    if (!ok) a = heap_alloc(1, 'f');
    else {
      Closure* c = new Closure;
      c->F = F;
      c->cl = (ffi_closure*)ffi_closure_alloc(sizeof(ffi_closure), &c->code);
      for (auto& x : F->args()) c->ts.push_back(fft(x.getType()));
      if (ffi_prep_cif(&c->cif, FFI_DEFAULT_ABI, c->ts.size(), fft(rt), c->ts.data()) != FFI_OK ||
          ffi_prep_closure_loc(c->cl, &c->cif, closure_tramp, c, c->code) != FFI_OK)
        path_error("ffi closure");
      a = (u64)c->code;
    }
  }
  func2addr[F] = a;
  addr2func[a] = F;
  return a;
}

// ---------------------------------------------------------------- constants
static void const_lanes(const Constant* c, std::vector<Val>& out);
static u64 const_addr(const GlobalValue* g);
static u64 const_u(const Constant* c) {
  std::vector<Val> v;
  const_lanes(c, v);
  return v.empty() ? 0 : v[0].u;
}
static u64 const_addr(const GlobalValue* g) {
  if (auto* f = dyn_cast<Function>(g)) return func_addr(const_cast<Function*>(f));
  if (auto* al = dyn_cast<GlobalAlias>(g)) return const_u(al->getAliasee());
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  path_error("unknown global " + g->getName().str());
}
static void const_lanes(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) { out.push_back(Val(ci->getValue().getLoBits(64).trunc(64).getZExtValue())); return; }
    out.push_back(Val(ci->getZExtValue()));
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (t->isFloatTy()) out.push_back(Val(f2bits(cf->getValueAPF().convertToFloat())));
    else if (t->isDoubleTy()) out.push_back(Val(d2bits(cf->getValueAPF().convertToDouble())));
    else { out.push_back(Val(0)); }
    return;
  }
  if (isa<ConstantPointerNull>(c)) { out.push_back(Val(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    for (size_t i = 0; i < tinfo(t)->l.size(); i++) out.push_back(Val(0));
    return;
  }
  if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back(Val(const_addr(g))); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cd->getNumElements(); i++) const_lanes(cd->getElementAsConstant(i), out);
    return;
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    for (unsigned i = 0; i < c->getNumOperands(); i++) const_lanes(cast<Constant>(c->getOperand(i)), out);
    return;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        const_lanes(ce->getOperand(0), out);
        return;
      case Instruction::Trunc: out.push_back(Val(maskb(const_u(ce->getOperand(0)), t->getIntegerBitWidth()))); return;
      case Instruction::ZExt: out.push_back(Val(const_u(ce->getOperand(0)))); return;
      case Instruction::Add: out.push_back(Val(maskb(const_u(ce->getOperand(0)) + const_u(ce->getOperand(1)), t->getIntegerBitWidth()))); return;
      case Instruction::Sub: out.push_back(Val(maskb(const_u(ce->getOperand(0)) - const_u(ce->getOperand(1)), t->getIntegerBitWidth()))); return;
      case Instruction::GetElementPtr: {
        auto* gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) path_error("constant gep");
        out.push_back(Val(const_u(ce->getOperand(0)) + off.getSExtValue()));
        return;
      }
      case Instruction::ICmp: {
        u64 x = const_u(ce->getOperand(0)), y = const_u(ce->getOperand(1));
        out.push_back(Val(ce->getPredicate() == CmpInst::ICMP_EQ ? x == y : x != y));
        return;
      }
      default: path_error("constant expression " + std::string(ce->getOpcodeName()));
    }
  }
  if (auto* e = dyn_cast<DSOLocalEquivalent>(c)) { out.push_back(Val(const_addr(e->getGlobalValue()))); return; }
  path_error("constant kind");
}
static void write_const(u64 a, const Constant* c) {
  TInfo* t = tinfo(c->getType());
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { memset((void*)a, 0, t->size); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef s = cd->getRawDataValues();
    memcpy((void*)a, s.data(), s.size());
    return;
  }
  if (auto* ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() > 64) {
    memcpy((void*)a, ci->getValue().getRawData(), (ci->getBitWidth() + 7) / 8);
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) write_const(a + i * es, cast<Constant>(ca->getOperand(i)));
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout* L = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) write_const(a + L->getElementOffset(i), cast<Constant>(cs->getOperand(i)));
    return;
  }
  std::vector<Val> v;
  const_lanes(c, v);
  for (size_t i = 0; i < v.size(); i++) memcpy((void*)(a + t->l[i].off), &v[i].u, t->l[i].bytes);
}

// ---------------------------------------------------------------- decoding
struct Decoder {
  FuncInfo* fi;
  std::unordered_map<const Value*, int> slot;
  std::unordered_map<const Constant*, int> cidx;
  std::unordered_map<const BasicBlock*, int> bstart;
  std::vector<std::pair<Edge*, std::pair<const BasicBlock*, const BasicBlock*>>> fix;
  int op(const Value* v) {
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    if (auto* c = dyn_cast<Constant>(v)) {
      auto j = cidx.find(c);
      if (j != cidx.end()) return j->second;
      int k = ~(int)fi->consts.size();
      const_lanes(c, fi->consts);
      cidx[c] = k;
      return k;
    }
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return 0;
    path_error("operand without slot");
  }
  Edge* edge(Edge* e, const BasicBlock* from, const BasicBlock* to) {
    fix.push_back({e, {from, to}});
    return e;
  }
  void run();
  void instr(const Instruction& I, DI& d);
};
static unsigned lanebits(Type* t) { auto* ti = tinfo(t); return ti->l.empty() ? 0 : ti->l[0].bits; }
static Handler find_handler(const std::string& n);

static CallInfo* decode_call(Decoder& D, const CallBase& cb) {
  CallInfo* ci = new CallInfo;
  ci->cb = &cb;
  const Value* cv = cb.getCalledOperand()->stripPointerCasts();
  if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
  if (auto* F = dyn_cast<Function>(cv)) ci->callee = const_cast<Function*>(F);
  else if (isa<InlineAsm>(cv)) ci->callee = nullptr;
  else ci->callee_op = D.op(cb.getCalledOperand());
  for (unsigned i = 0; i < cb.arg_size(); i++) {
    const Value* v = cb.getArgOperand(i);
    TInfo* t = tinfo(v->getType());
    ci->at.push_back(t);
    ci->args.push_back(D.op(v));
    ci->byval.push_back(cb.isByValArgument(i) ? (u64)DL->getTypeAllocSize(cb.getParamByValType(i)) : 0);
    ci->nflat += t->l.size();
  }
  ci->nret = tinfo(cb.getType())->l.size();
  ci->nfixed = cb.getFunctionType()->getNumParams();
  ci->vararg = cb.getFunctionType()->isVarArg();
  if (isa<InlineAsm>(cv)) {
    ci->h = [](Ctx&) {};
  } else if (ci->callee) {
    std::string n = ci->callee->getName().str();
    if (ci->callee->isDeclaration() || ci->callee->isIntrinsic()) ci->h = find_handler(n);
    else { Handler h = find_handler("override$" + n); if (h) ci->h = h; }
  }
  if (auto* inv = dyn_cast<InvokeInst>(&cb)) {
    ci->normal = new Edge;
    D.edge(ci->normal, inv->getParent(), inv->getNormalDest());
    ci->unwind = new Edge;
    D.edge(ci->unwind, inv->getParent(), inv->getUnwindDest());
    ci->lp = inv->getLandingPadInst();
    auto it = D.slot.find(ci->lp);
    ci->lp_slot = it == D.slot.end() ? -1 : it->second;
  }
  return ci;
}
std::string where_am_i() {
  std::string r;
  for (size_t i = callstack.size(), k = 0; i-- > 0 && k < 7; k++) r += " < " + callstack[i]->name;
  return r;
}
void Decoder::instr(const Instruction& I, DI& d) {
  d.I = &I;
  Type* t = I.getType();
  auto it = slot.find(&I);
  d.dst = it == slot.end() ? -1 : it->second;
  d.lanes = tinfo(t)->l.size();
  switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::And: case Instruction::Or: case Instruction::Xor:
      d.op = O_BIN; d.sub = I.getOpcode(); d.bits = lanebits(t);
      if (d.bits > 64) { d.op = O_BAD; return; }
      d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1));
      return;
    case Instruction::ICmp:
      d.op = O_ICMP; d.sub = cast<ICmpInst>(I).getPredicate(); d.bits = lanebits(I.getOperand(0)->getType());
      if (d.bits > 64) { d.op = O_BAD; return; }
      d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1));
      return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      d.op = O_FBIN;
      d.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : 4;
      d.bits = lanebits(t);
      if (d.bits > 64) { d.op = O_BAD; return; }
      d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1));
      return;
    case Instruction::FNeg: d.op = O_FNEG; d.bits = lanebits(t); d.a = op(I.getOperand(0)); if (d.bits > 64) d.op = O_BAD; return;
    case Instruction::FCmp:
      d.op = O_FCMP; d.sub = cast<FCmpInst>(I).getPredicate(); d.bits = lanebits(I.getOperand(0)->getType());
      if (d.bits > 64) { d.op = O_BAD; return; }
      d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1));
      return;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: {
      static const std::map<unsigned, int> m = {
          {Instruction::Trunc, O_TRUNC}, {Instruction::ZExt, O_ZEXT}, {Instruction::SExt, O_SEXT}, {Instruction::FPTrunc, O_FPTRUNC},
          {Instruction::FPExt, O_FPEXT}, {Instruction::FPToSI, O_FPTOSI}, {Instruction::FPToUI, O_FPTOUI},
          {Instruction::SIToFP, O_SITOFP}, {Instruction::UIToFP, O_UITOFP}};
      d.op = m.at(I.getOpcode());
      d.bits = lanebits(I.getOperand(0)->getType()); d.bits2 = lanebits(t);
      if (d.bits > 64 || d.bits2 > 64) { d.op = O_BAD; return; }
      d.a = op(I.getOperand(0));
      return;
    }
    case Instruction::BitCast:
      if (tinfo(t)->l.size() != tinfo(I.getOperand(0)->getType())->l.size()) { d.op = O_BAD; return; }
      d.op = O_MOV; d.a = op(I.getOperand(0));
      return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Freeze:
      d.op = O_MOV; d.a = op(I.getOperand(0));
      return;
    case Instruction::Select: {
      auto& s = cast<SelectInst>(I);
      d.op = s.getCondition()->getType()->isVectorTy() ? O_VSELECT : O_SELECT;
      d.a = op(s.getCondition()); d.b = op(s.getTrueValue()); d.c = op(s.getFalseValue());
      d.p = tinfo(t);
      return;
    }
    case Instruction::Load: d.op = O_LOAD; d.a = op(I.getOperand(0)); d.p = tinfo(t); return;
    case Instruction::Store:
      d.op = O_STORE; d.a = op(I.getOperand(1)); d.b = op(I.getOperand(0)); d.p = tinfo(I.getOperand(0)->getType());
      d.lanes = tinfo(I.getOperand(0)->getType())->l.size();
      return;
    case Instruction::Alloca: {
      auto& a = cast<AllocaInst>(I);
      d.op = O_ALLOCA; d.imm = DL->getTypeAllocSize(a.getAllocatedType());
      d.bits = std::max<u64>(16, a.getAlign().value());
      d.a = op(a.getArraySize()); d.bits2 = lanebits(a.getArraySize()->getType());
      return;
    }
    case Instruction::GetElementPtr: {
      auto& g = cast<GetElementPtrInst>(I);
      if (t->isVectorTy()) { d.op = O_BAD; return; }
      GepInfo* gi = new GepInfo;
      gi->off = 0;
      for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt) {
        if (StructType* st = gt.getStructTypeOrNull()) {
          gi->off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gt.getOperand())->getZExtValue());
        } else {
          i64 sz = DL->getTypeAllocSize(gt.getIndexedType());
          if (auto* c = dyn_cast<ConstantInt>(gt.getOperand())) gi->off += sz * c->getSExtValue();
          else { gi->idx.push_back({op(gt.getOperand()), sz}); gi->idxbits.push_back(lanebits(gt.getOperand()->getType())); }
        }
      }
      d.op = O_GEP; d.a = op(g.getPointerOperand()); d.p = gi;
      return;
    }
    case Instruction::Br: {
      auto& b = cast<BranchInst>(I);
      if (b.isUnconditional()) { d.op = O_BR; d.p = edge(new Edge, b.getParent(), b.getSuccessor(0)); }
      else {
        d.op = O_CBR; d.a = op(b.getCondition());
        d.p = edge(new Edge, b.getParent(), b.getSuccessor(0));
        d.q = edge(new Edge, b.getParent(), b.getSuccessor(1));
      }
      return;
    }
    case Instruction::Switch: {
      auto& s = cast<SwitchInst>(I);
      SwInfo* si = new SwInfo;
      si->cases.resize(s.getNumCases());
      unsigned k = 0;
      for (auto& c : s.cases()) {
        si->cases[k].first = c.getCaseValue()->getZExtValue();
        edge(&si->cases[k].second, s.getParent(), c.getCaseSuccessor());
        k++;
      }
      edge(&si->def, s.getParent(), s.getDefaultDest());
      d.op = O_SWITCH; d.a = op(s.getCondition()); d.bits = lanebits(s.getCondition()->getType()); d.p = si;
      return;
    }
    case Instruction::Ret:
      d.op = O_RET;
      d.lanes = I.getNumOperands() ? tinfo(I.getOperand(0)->getType())->l.size() : 0;
      if (d.lanes) d.a = op(I.getOperand(0));
      return;
    case Instruction::Unreachable: d.op = O_UNREACH; return;
    case Instruction::LandingPad: d.op = O_NOP; return;   // its value is set by the invoke
    case Instruction::Resume: d.op = O_RESUME; d.a = op(I.getOperand(0)); return;
    case Instruction::Call: case Instruction::Invoke: d.op = O_CALL; d.p = decode_call(*this, cast<CallBase>(I)); return;
    case Instruction::ExtractValue: {
      auto& e = cast<ExtractValueInst>(I);
      Type* ct = e.getAggregateOperand()->getType();
      int off = 0;
      for (unsigned ix : e.indices()) {
        if (auto* st = dyn_cast<StructType>(ct)) {
          for (unsigned i = 0; i < ix; i++) off += tinfo(st->getElementType(i))->l.size();
          ct = st->getElementType(ix);
        } else { auto* at = cast<ArrayType>(ct); off += ix * tinfo(at->getElementType())->l.size(); ct = at->getElementType(); }
      }
      int b = op(e.getAggregateOperand());
      d.op = O_MOV; d.a = b >= 0 ? b + off : ~(~b + off);
      return;
    }
    case Instruction::InsertValue: {
      auto& e = cast<InsertValueInst>(I);
      Type* ct = e.getAggregateOperand()->getType();
      int off = 0;
      for (unsigned ix : e.indices()) {
        if (auto* st = dyn_cast<StructType>(ct)) {
          for (unsigned i = 0; i < ix; i++) off += tinfo(st->getElementType(i))->l.size();
          ct = st->getElementType(ix);
        } else { auto* at = cast<ArrayType>(ct); off += ix * tinfo(at->getElementType())->l.size(); ct = at->getElementType(); }
      }
      d.op = O_INSERTV; d.a = op(e.getAggregateOperand()); d.b = op(e.getInsertedValueOperand());
      d.imm = off; d.bits = tinfo(e.getInsertedValueOperand()->getType())->l.size();
      return;
    }
    case Instruction::ExtractElement: d.op = O_EXTRACTE; d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); return;
    case Instruction::InsertElement: d.op = O_INSERTE; d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); d.c = op(I.getOperand(2)); return;
    case Instruction::ShuffleVector: {
      auto& s = cast<ShuffleVectorInst>(I);
      auto* m = new std::vector<int>;
      for (int x : s.getShuffleMask()) m->push_back(x);
      d.op = O_SHUFFLE; d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); d.p = m;
      d.imm = tinfo(I.getOperand(0)->getType())->l.size();
      return;
    }
    case Instruction::AtomicRMW: {
      auto& r = cast<AtomicRMWInst>(I);
      d.op = O_RMW; d.sub = r.getOperation(); d.a = op(r.getPointerOperand()); d.b = op(r.getValOperand()); d.bits = lanebits(t);
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto& x = cast<AtomicCmpXchgInst>(I);
      d.op = O_CMPXCHG; d.a = op(x.getPointerOperand()); d.b = op(x.getCompareOperand()); d.c = op(x.getNewValOperand());
      d.bits = lanebits(x.getCompareOperand()->getType());
      return;
    }
    case Instruction::Fence: d.op = O_NOP; return;
    default: d.op = O_BAD; return;
  }
}
void Decoder::run() {
  Function* F = fi->F;
  int n = 0;
  for (auto& a : F->args()) { slot[&a] = n; n += tinfo(a.getType())->l.size(); }
  fi->nargs = n;
  for (auto& B : *F)
    for (auto& I : B) {
      int l = tinfo(I.getType())->l.size();
      if (l) { slot[&I] = n; n += l; }
    }
  fi->nslots = n + 1;
  for (auto& B : *F) {
    bstart[&B] = fi->code.size();
    for (auto& I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      DI d;
      instr(I, d);
      if (d.op == O_NOP) continue;
      fi->code.push_back(d);
    }
  }
  for (auto& f : fix) {
    f.first->target = bstart[f.second.second];
    for (auto& ph : f.second.second->phis()) {
      int dst = slot[&ph];
      int src = op(ph.getIncomingValueForBlock(f.second.first));
      int l = tinfo(ph.getType())->l.size();
      for (int i = 0; i < l; i++) f.first->copies.push_back({dst + i, src >= 0 ? src + i : ~(~src + i)});
    }
  }
}
static FuncInfo* get_fi(Function* F) {
  auto& p = finfos[F];
  if (!p) {
    p = new FuncInfo;
    p->F = F;
    p->name = F->getName().str();
    p->id = fids.count(F) ? fids[F] : 0;
    Decoder D;
    D.fi = p;
    D.run();
  }
  return p;
}

// ---------------------------------------------------------------- symbolic addresses
// Maximal subterms over one byte each.
static void byte_parts(Z3_ast e, std::vector<Z3_ast>* out) {
  if (vars_of(e).empty()) return;
  if (table_of(e)) { for (Z3_ast x : *out) if (x == e) return; out->push_back(e); return; }
  if (Z3_get_ast_kind(C, e) != Z3_APP_AST) return;
  Z3_app ap = Z3_to_app(C, e);
  for (unsigned i = 0; i < Z3_get_app_num_args(C, ap); i++) byte_parts(Z3_get_app_arg(C, ap, i), out);
}
static size_t distinct_values(const Tab& t) {
  std::set<u64> s;
  const auto& d = dom_of(t.vid);
  for (int i = 0; i < 256; i++) if (d[i]) s.insert(t.t[i]);
  return s.size();
}
// A read at a symbolic address. Over one byte: the value becomes an if-then-else over that
// byte (no fork); otherwise the part with the fewest values is split first.
static Val load_symaddr(Z3_ast e, unsigned bytes, unsigned bits) {
  const Tab* t = table_of(e);
  if (!t) {
    std::vector<Z3_ast> parts;
    byte_parts(e, &parts);
    Z3_ast best = nullptr;
    size_t bn = 1000;
    for (Z3_ast p : parts) { size_t n = distinct_values(*table_of(p)); if (n < bn) { bn = n; best = p; } }
    if (!best || parts.size() < 2) {
      u64 a = concretize(Val(0, e), 64, "load address");
      chk(a, bytes, false);
      return load_lane(a, bytes, bits);
    }
    unsigned w = Z3_get_sort_kind(C, Z3_get_sort(C, best)) == Z3_BV_SORT ? Z3_get_bv_sort_size(C, Z3_get_sort(C, best)) : 1;
    Z3_ast k;
    if (sk(best) == Z3_BOOL_SORT) k = decide(best) ? Z3_mk_true(C) : Z3_mk_false(C);
    else k = mk_bv(concretize(Val(0, best), w, "load address"), w);
    e = simp(Z3_substitute(C, e, 1, &best, &k));
    u64 a;
    if (is_bv_const(e, &a)) { chk(a, bytes, false); return load_lane(a, bytes, bits); }
    return load_symaddr(e, bytes, bits);
  }
  const std::bitset<256> d = dom_of(t->vid);
  std::bitset<256> bad;
  std::map<u64, std::bitset<256>> symb, vals;
  for (int i = 0; i < 256; i++) {
    if (!d[i]) continue;
    u64 a = t->t[i];
    if (!addr_ok(a, bytes)) { bad.set(i); continue; }
    if (any_sym(a, bytes)) { symb[a].set(i); continue; }
    u64 u = 0;
    memcpy(&u, (void*)a, bytes);
    vals[maskb(u, bits)].set(i);
  }
  if (bad.any() && decide(byte_set(t->var, bad))) crash("memory", "out of bounds: read at a symbolic index");
  for (auto& g : symb)
    if (decide(byte_set(t->var, g.second))) return load_lane(g.first, bytes, bits);
  if (vals.empty()) path_end("infeasible");
  if (vals.size() == 1) return Val(vals.begin()->first);
  if (bits > 32 || vals.size() > 64) {  // pointers and the like: split
    size_t k = 0;
    for (auto& g : vals) if (++k == vals.size() || decide(byte_set(t->var, g.second))) return Val(g.first);
  }
  Z3_ast r = nullptr;
  std::vector<std::pair<size_t, u64>> order;
  for (auto& g : vals) order.push_back({g.second.count(), g.first});
  std::sort(order.rbegin(), order.rend());
  if (bits == 1) return Val(0, byte_set(t->var, vals[1]));
  for (auto& o : order) {
    Z3_ast k = mk_bv(o.second, bits);
    r = r ? Z3_mk_ite(C, byte_set(t->var, vals[o.second]), k, r) : k;
  }
  return Val(0, r);
}

// ---------------------------------------------------------------- integer ops
static Val ibin(unsigned opc, const Val& a, const Val& b, unsigned bits) {
  if (opc == Instruction::LShr && !b.e && b.u % 8 == 0)
    if (Blob* x = blob_of(a.e)) return blob_slice(*x, b.u / 8, bits / 8);
  if (!a.e && !b.e) {
    u64 x = a.u, y = b.u, r = 0;
    switch (opc) {
      case Instruction::Add: r = x + y; break;
      case Instruction::Sub: r = x - y; break;
      case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: if (!y) crash("arith", "integer division by zero"); r = x / y; break;
      case Instruction::URem: if (!y) crash("arith", "integer division by zero"); r = x % y; break;
      case Instruction::SDiv: case Instruction::SRem: {
        i64 p = sx(x, bits), q = sx(y, bits);
        if (!q) crash("arith", "integer division by zero");
        if (q == -1) { r = opc == Instruction::SDiv ? (u64)(-(u64)p) : 0; break; }
        r = opc == Instruction::SDiv ? p / q : p % q;
        break;
      }
      case Instruction::Shl: r = y >= bits ? 0 : x << y; break;
      case Instruction::LShr: r = y >= bits ? 0 : x >> y; break;
      case Instruction::AShr: r = sx(x, bits) >> (y >= bits ? bits - 1 : y); break;
      case Instruction::And: r = x & y; break;
      case Instruction::Or: r = x | y; break;
      case Instruction::Xor: r = x ^ y; break;
    }
    return Val(maskb(r, bits));
  }
  if (bits == 1) {
    Z3_ast x = asBool(a), y = asBool(b), ar[2] = {x, y};
    switch (opc) {
      case Instruction::And: case Instruction::Mul: return mkB(Z3_mk_and(C, 2, ar));
      case Instruction::Or: return mkB(Z3_mk_or(C, 2, ar));
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkB(Z3_mk_xor(C, x, y));
      default: path_error("i1 op");
    }
  }
  Z3_ast x = asBV(a, bits), y = asBV(b, bits), r;
  switch (opc) {
    case Instruction::Add: r = Z3_mk_bvadd(C, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(C, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(C, x, y); break;
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      if (b.e ? decide(Z3_mk_eq(C, y, mk_bv(0, bits))) : b.u == 0) crash("arith", "integer division by zero");
      r = opc == Instruction::UDiv ? Z3_mk_bvudiv(C, x, y) : opc == Instruction::URem ? Z3_mk_bvurem(C, x, y)
          : opc == Instruction::SDiv ? Z3_mk_bvsdiv(C, x, y) : Z3_mk_bvsrem(C, x, y);
      break;
    case Instruction::Shl: r = Z3_mk_bvshl(C, x, y); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(C, x, y); break;
    case Instruction::AShr: r = Z3_mk_bvashr(C, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(C, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(C, x, y); break;
    default: r = Z3_mk_bvxor(C, x, y); break;
  }
  return mkI(r, bits);
}
static Val icmp(unsigned pred, const Val& a, const Val& b, unsigned bits) {
  if (!a.e && !b.e) {
    u64 x = a.u, y = b.u;
    i64 p = sx(x, bits), q = sx(y, bits);
    bool r = false;
    switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = p > q; break;
      case CmpInst::ICMP_SGE: r = p >= q; break;
      case CmpInst::ICMP_SLT: r = p < q; break;
      case CmpInst::ICMP_SLE: r = p <= q; break;
    }
    return Val(r);
  }
  if (bits == 1) {
    Z3_ast x = asBool(a), y = asBool(b);
    switch (pred) {
      case CmpInst::ICMP_EQ: return mkB(Z3_mk_iff(C, x, y));
      case CmpInst::ICMP_NE: return mkB(Z3_mk_xor(C, x, y));
      default: break;
    }
  }
  // sign test of a real carried in an integer register (std::signbit)
  if (a.e && sk(a.e) == Z3_REAL_SORT && !b.e) {
    if (pred == CmpInst::ICMP_SLT && b.u == 0) return mkB(r_lt(a.e, R0()));
    if (pred == CmpInst::ICMP_SGT && sx(b.u, bits) == -1) return mkB(r_ge(a.e, R0()));
  }
  Z3_ast x = asBV(a, bits), y = asBV(b, bits);
  switch (pred) {
    case CmpInst::ICMP_EQ: return mkB(Z3_mk_eq(C, x, y));
    case CmpInst::ICMP_NE: return mkB(Z3_mk_not(C, Z3_mk_eq(C, x, y)));
    case CmpInst::ICMP_UGT: return mkB(Z3_mk_bvugt(C, x, y));
    case CmpInst::ICMP_UGE: return mkB(Z3_mk_bvuge(C, x, y));
    case CmpInst::ICMP_ULT: return mkB(Z3_mk_bvult(C, x, y));
    case CmpInst::ICMP_ULE: return mkB(Z3_mk_bvule(C, x, y));
    case CmpInst::ICMP_SGT: return mkB(Z3_mk_bvsgt(C, x, y));
    case CmpInst::ICMP_SGE: return mkB(Z3_mk_bvsge(C, x, y));
    case CmpInst::ICMP_SLT: return mkB(Z3_mk_bvslt(C, x, y));
    default: return mkB(Z3_mk_bvsle(C, x, y));
  }
}

// ---------------------------------------------------------------- native calls
static int prog_errno = 0;  // the program's own: the engine's system calls change the real one
static void h_errno_loc(Ctx& x) { x.ret[0] = Val((u64)&prog_errno); }
static void native_call(CallInfo* ci, Function* F, void* addr, std::vector<Val>& args, Val* ret) {
  const CallBase* cb = ci->cb;
  std::string nm = F ? F->getName().str() : "<indirect>";
  if (!ci->cif) {
    ci->cif = new ffi_cif;
    ci->fts = new std::vector<ffi_type*>;
    for (unsigned i = 0; i < cb->arg_size(); i++)
      ci->fts->push_back(ci->byval[i] ? fft_blob(ci->byval[i]) : fft(cb->getArgOperand(i)->getType()));
    ffi_type* rt = fft(cb->getType());
    int st = ci->vararg ? ffi_prep_cif_var(ci->cif, FFI_DEFAULT_ABI, ci->nfixed, ci->fts->size(), rt, ci->fts->data())
                        : ffi_prep_cif(ci->cif, FFI_DEFAULT_ABI, ci->fts->size(), rt, ci->fts->data());
    if (st != FFI_OK) path_error("ffi_prep_cif " + nm);
    // These touch only the links at the front of a node, never its payload.
    if (nm.compare(0, 6, "_ZSt29") == 0 || nm.compare(0, 6, "_ZSt18") == 0 || nm.compare(0, 6, "_ZSt28") == 0) ci->links = 32;
    if (nm.find("_List_node_base") != nm.npos) ci->links = 16;
    // Locale and state of a stream, never its buffer.
    ci->shallow = nm.find("ios_base") != nm.npos || nm.find("locale") != nm.npos;
  }
  std::vector<u64> store;
  store.reserve(64);
  std::vector<void*> av;
  size_t k = 0;
  for (unsigned i = 0; i < cb->arg_size(); i++) {
    TInfo* t = ci->at[i];
    if (t->l.size() == 1) {
      Val& v = args[k++];
      if (v.e) {
        if (sk(v.e) == Z3_BV_SORT || sk(v.e) == Z3_BOOL_SORT) v = Val(concretize(v, t->l[0].bits, nm.c_str()));
        else path_error("symbolic real passed to native function " + nm);
      }
      if (t->l[0].kind == 'p' && v.u > 65536) {
        if (in_arena(v.u)) {
          u64 span = 8;
          auto it = chunks->find(v.u);
          if (ci->links) span = ci->links;
          else if (it != chunks->end() && !it->second.freed) span = std::max<u64>(8, std::min<u64>(it->second.size, 4096));
          if (any_sym(v.u, span)) path_error("symbolic memory passed to native function " + nm);
          if (!ci->links && !ci->shallow)
            // what it points to in turn, such as the text of a string handed over by reference
            for (u64 o = 0; o + 8 <= span && addr_ok(v.u + o, 8); o += 8) {
              u64 q = *(u64*)(v.u + o);
              if (!in_arena(q)) continue;
              auto k = chunks->find(q);
              if (k == chunks->end() || k->second.freed) continue;
              if (any_sym(q, std::min<u64>(k->second.size, 4096))) path_error("symbolic memory behind an argument of native function " + nm);
            }
        }
        if (ci->byval[i]) { av.push_back((void*)v.u); continue; }
      }
      store.push_back(v.u);
      av.push_back(&store.back());
    } else {
      // small struct by value: rebuild its memory image
      char* buf = (char*)alloca(64);
      for (auto& l : t->l) { u64 u = concretize(args[k++], l.bits, nm.c_str()); memcpy(buf + l.off, &u, l.bytes); }
      av.push_back(buf);
    }
    if (store.size() > 60) path_error("too many native arguments");
  }
  u64 rbuf[8] = {0};
  errno = prog_errno;
  try {
    ffi_call(ci->cif, (void (*)())addr, rbuf, av.data());
  } catch (std::exception& e) {
    crash("exception", "C++ exception out of " + nm + " (" + e.what() + ")");
  }
  prog_errno = errno;
  TInfo* rt = tinfo(cb->getType());
  for (size_t i = 0; i < rt->l.size(); i++) {
    u64 u = 0;
    memcpy(&u, (char*)rbuf + (rt->l.size() == 1 ? 0 : rt->l[i].off), rt->l[i].bytes);
    ret[i] = Val(maskb(u, rt->l[i].bits));
  }
}

static Val* vstack;
static u64 vtop = 0;
static const u64 VSTACK_N = 1ull << 24;
static u64 cur_va_area = 0;  // overflow area of the current varargs frame

static void do_call(CallInfo* ci, Val* fr, FuncInfo* f, DI& d) {
  std::vector<Val> args;
  args.reserve(ci->nflat);
  std::vector<size_t> first;
  u64 saved_stack = stack_top;
  for (size_t i = 0; i < ci->args.size(); i++) {
    int o = ci->args[i];
    first.push_back(args.size());
    for (size_t l = 0; l < ci->at[i]->l.size(); l++) args.push_back(o >= 0 ? fr[o + l] : f->consts[~o + l]);
  }
  Val ret[64];
  Function* F = ci->callee;
  if (ci->h) {
    Ctx x{ci->cb, ci, &args, ret};
    ci->h(x);
  } else {
    FuncInfo* fi = ci->fi;
    void* nat = ci->native;
    if (!fi && !nat) {
      if (F) {
        if (!F->isDeclaration()) fi = ci->fi = get_fi(F);
        else {
          nat = ci->native = native_sym(F->getName().str());
          if (!nat) path_error("undefined function " + F->getName().str());
        }
      } else {
        Val& t = ci->callee_op >= 0 ? fr[ci->callee_op] : f->consts[~ci->callee_op];
        u64 a = concretize(t, 64, "call target");
        auto it = addr2func.find(a);
        if (it != addr2func.end()) {
          F = it->second;
          if (!F->isDeclaration()) fi = get_fi(F);
          else {
            Handler h = find_handler(F->getName().str());
            if (h) {
              Ctx x{ci->cb, ci, &args, ret};
              h(x);
              goto done;
            }
            nat = (void*)a;
          }
        } else {
          if (a < 65536 || in_arena(a)) crash("memory", "call through an invalid function pointer");
          nat = (void*)a;
        }
      }
    }
    if (fi) {
      for (size_t i = 0; i < ci->byval.size(); i++)
        if (ci->byval[i]) {
          u64 n = ci->byval[i];
          u64 p = (stack_top + 31) & ~15ull;
          stack_top = p + n;
          memset(AS + (p - (u64)A), 1, n);
          copy_mem(p, args[first[i]].u, n);
          args[first[i]] = Val(p);
        }
      u64 saved_va = cur_va_area;
      if (fi->F->isVarArg()) {
        u64 n = 0;
        for (size_t i = ci->nfixed; i < ci->args.size(); i++) n += ci->byval[i] ? (ci->byval[i] + 7) / 8 * 8 : 8;
        u64 p = (stack_top + 31) & ~15ull;
        stack_top = p + n + 8;
        memset(AS + (p - (u64)A), 1, n + 8);
        u64 q = p;
        for (size_t i = ci->nfixed; i < ci->args.size(); i++) {
          if (ci->byval[i]) { copy_mem(q, args[first[i]].u, ci->byval[i]); q += (ci->byval[i] + 7) / 8 * 8; continue; }
          Val v = args[first[i]];
          clear_sym(q, 8);
          memset((void*)q, 0, 8);
          store_lane(q, ci->at[i]->l[0].bytes, v);
          q += 8;
        }
        cur_va_area = p;
      }
      size_t nfix = (size_t)ci->nfixed < first.size() ? first[ci->nfixed] : args.size();
      if (!fi->F->isVarArg()) nfix = args.size();
      exec(fi, args, nfix, ret);
      cur_va_area = saved_va;
    } else {
      native_call(ci, F, nat, args, ret);
    }
  }
done:
  if (stack_top != saved_stack) {
    clear_sym(saved_stack, stack_top - saved_stack);
    memset(AS + (saved_stack - (u64)A), 0, stack_top - saved_stack);
    stack_top = saved_stack;
  }
  if (d.dst >= 0)
    for (int i = 0; i < ci->nret; i++) fr[d.dst + i] = ret[i];
}

static void drop_stack(u64 to) {
  clear_sym(to, stack_top - to);
  memset(AS + (to - (u64)A), 0, stack_top - to);
  stack_top = to;
}
// ---- exceptions: type_info objects are read as the C++ ABI lays them out, ours or the library's.
static u64 const_addr(const Constant* c) {
  std::vector<Val> v;
  const_lanes(c, v);
  return v.empty() ? 0 : v[0].u;
}
static bool derives(u64 t, u64 want, i64 off, i64* adj) {
  const char* n = *(const char**)(t + 8);
  const char* w = *(const char**)(want + 8);
  if (t == want || n == w || (n[0] != '*' && !strcmp(n, w))) { *adj = off; return true; }
  static u64 si = (u64)dlsym(RTLD_DEFAULT, "_ZTVN10__cxxabiv120__si_class_type_infoE") + 16;
  static u64 vmi = (u64)dlsym(RTLD_DEFAULT, "_ZTVN10__cxxabiv121__vmi_class_type_infoE") + 16;
  u64 vt = *(u64*)t;
  if (vt == si) return derives(*(u64*)(t + 16), want, off, adj);
  if (vt == vmi) {
    unsigned k = *(unsigned*)(t + 20);
    for (unsigned i = 0; i < k; i++) {
      u64 b = *(u64*)(t + 24 + 16 * i);
      i64 of = *(i64*)(t + 32 + 16 * i);
      if ((of & 2) && !(of & 1) && derives(b, want, off + (of >> 8), adj)) return true;
    }
  }
  return false;
}
static std::map<u64, int> type_ids;
static int type_id(u64 t) {
  auto& k = type_ids[t];
  if (!k) k = type_ids.size();
  return k;
}
// Selector a landing pad sees: of a matching handler, 0 for clean-up only, -1 to pass it by.
static int landing(const LandingPadInst* lp, u64 tinfo, i64* adj) {
  if (!lp) return -1;
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (lp->isFilter(i)) path_error("exception specification");
    const Constant* c = lp->getClause(i);
    if (isa<ConstantPointerNull>(c)) { *adj = 0; return type_id(0); }
    u64 a = const_addr(c);
    if (derives(tinfo, a, 0, adj)) return type_id(a);
  }
  return lp->isCleanup() ? 0 : -1;
}
[[noreturn]] static void raise_exc(u64 e, const std::string& from) {
  Exc& x = excs[e];
  i64 adj;
  for (size_t i = callstack.size(); i-- > 0;) {
    CallInfo* ci = i < curcall.size() ? curcall[i] : nullptr;
    if (ci && ci->unwind && landing(ci->lp, x.tinfo, &adj) > 0) throw Unwind{e};
  }
  int st = 0;
  const char* n = *(const char**)(x.tinfo + 8);
  char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
  std::string nm = d ? d : n;
  crash("exception", "uncaught C++ exception " + nm + from);
}
static void exec(FuncInfo* f, const std::vector<Val>& args, size_t nfixed, Val* ret) {
  if (callstack.size() > 6000) crash("stack", "unbounded recursion");
  callstack.push_back(f);
  const size_t depth = callstack.size();
  if (curcall.size() < depth) curcall.resize(depth + 64);
  curcall[depth - 1] = nullptr;
  if (f->id < (1 << 17)) S->func_seen[f->id].store(1, std::memory_order_relaxed);
  Val* fr = vstack + vtop;
  u64 saved_v = vtop;
  vtop += f->nslots;
  if (vtop > VSTACK_N) crash("stack", "unbounded recursion");
  u64 saved_stack = stack_top;
  for (size_t i = 0; i < nfixed && i < (size_t)f->nargs; i++) fr[i] = args[i];
  u64 va_area = cur_va_area;
  std::vector<Val> tmp;
  size_t ip = 0;
  auto G = [&](int i) -> Val& { return i >= 0 ? fr[i] : f->consts[~i]; };
  auto take = [&](Edge* e) {
    size_t n = e->copies.size();
    if (n == 1) fr[e->copies[0].first] = G(e->copies[0].second);
    else if (n) {
      tmp.resize(n);
      for (size_t i = 0; i < n; i++) tmp[i] = G(e->copies[i].second);
      for (size_t i = 0; i < n; i++) fr[e->copies[i].first] = tmp[i];
    }
    ip = e->target;
  };
  auto L = [&](int i, int k) -> Val& { return i >= 0 ? fr[i + k] : f->consts[~i + k]; };
  auto leave = [&]() {
    if (stack_top != saved_stack) drop_stack(saved_stack);
    vtop = saved_v;
    callstack.pop_back();
  };
  for (;;) {
    DI& d = f->code[ip++];
    if ((++g_instrs & 0xfffff) == 0) {
      if (time_up()) path_end("deadline");
      if (g_instrs > opt.max_instrs) {
        report_violation("hang", "instruction budget of one path exhausted", nullptr);
        path_error("instruction budget exhausted");
      }
    }
    switch (d.op) {
      case O_BIN: for (int k = 0; k < d.lanes; k++) fr[d.dst + k] = ibin(d.sub, L(d.a, k), L(d.b, k), d.bits); break;
      case O_ICMP: for (int k = 0; k < d.lanes; k++) fr[d.dst + k] = icmp(d.sub, L(d.a, k), L(d.b, k), d.bits); break;
      case O_FBIN: for (int k = 0; k < d.lanes; k++) fr[d.dst + k] = fbin(d.sub, L(d.a, k), L(d.b, k), d.bits == 32); break;
      case O_FNEG: for (int k = 0; k < d.lanes; k++) fr[d.dst + k] = fneg(L(d.a, k), d.bits == 32); break;
      case O_FCMP: for (int k = 0; k < d.lanes; k++) fr[d.dst + k] = fcmp(d.sub, L(d.a, k), L(d.b, k), d.bits == 32); break;
      case O_TRUNC:
        for (int k = 0; k < d.lanes; k++) {
          Val v = L(d.a, k);
          if (Blob* b = blob_of(v.e)) { if (d.bits2 % 8) path_error("odd truncation of an opaque memory image"); fr[d.dst + k] = blob_slice(*b, 0, d.bits2 / 8); continue; }
          fr[d.dst + k] = v.e ? mkI(asBV(v, d.bits2), d.bits2) : Val(maskb(v.u, d.bits2));
        }
        break;
      case O_ZEXT:
        for (int k = 0; k < d.lanes; k++) {
          Val v = L(d.a, k);
          fr[d.dst + k] = v.e ? mkI(asBV(v, d.bits2), d.bits2) : v;
        }
        break;
      case O_SEXT:
        for (int k = 0; k < d.lanes; k++) {
          Val v = L(d.a, k);
          if (!v.e) fr[d.dst + k] = Val(maskb((u64)sx(v.u, d.bits), d.bits2));
          else if (d.bits == 1) fr[d.dst + k] = mkI(Z3_mk_ite(C, asBool(v), mk_bv(maskb(~0ull, d.bits2), d.bits2), mk_bv(0, d.bits2)), d.bits2);
          else fr[d.dst + k] = mkI(Z3_mk_sign_ext(C, d.bits2 - d.bits, asBV(v, d.bits)), d.bits2);
        }
        break;
      case O_FPTRUNC: case O_FPEXT:
        for (int k = 0; k < d.lanes; k++) {
          Val v = L(d.a, k);
          bool s32 = d.bits == 32, d32 = d.bits2 == 32;
          if (!v.e) fr[d.dst + k] = mkc(cval(v, s32), d32);
          else if (g_mode == MODE_FP) fr[d.dst + k] = mkR(Z3_mk_fpa_to_fp_float(C, rm(), asR(v, s32), d32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C)), d32);
          else fr[d.dst + k] = v;
        }
        break;
      case O_FPTOSI: case O_FPTOUI:
        for (int k = 0; k < d.lanes; k++) {
          Val v = L(d.a, k);
          if (!v.e) {
            double x = cval(v, d.bits == 32);
            i64 r;
            if (d.op == O_FPTOSI) {
              double lim = ldexp(1, d.bits2 - 1);
              r = !(x > -lim - 1 && x < lim) ? (i64)(d.bits2 == 64 ? INT64_MIN : -(1ll << (d.bits2 - 1))) : (i64)x;
              if (d.bits2 < 32) r = (i64)(int)x;
            } else r = (i64)(u64)x;
            fr[d.dst + k] = Val(maskb((u64)r, d.bits2));
          } else if (g_mode == MODE_FP) path_error("fptosi in FP mode");
          else fr[d.dst + k] = Val(maskb((u64)trunc_int(asR(v, d.bits == 32), "fptosi"), d.bits2));
        }
        break;
      case O_SITOFP: case O_UITOFP:
        for (int k = 0; k < d.lanes; k++) {
          Val v = L(d.a, k);
          const Tab* tb = v.e && g_mode == MODE_REAL ? table_of(v.e) : nullptr;
          if (tb && distinct_values(*tb) <= 64) {  // an if-then-else over the byte
            const auto& dm = dom_of(tb->vid);
            std::map<double, std::bitset<256>> g;
            for (int i = 0; i < 256; i++) if (dm[i]) g[d.op == O_SITOFP ? (double)sx(tb->t[i], d.bits) : (double)tb->t[i]].set(i);
            Z3_ast r = nullptr;
            for (auto& x : g) { Z3_ast c = mk_real_of_double(x.first); r = r ? Z3_mk_ite(C, byte_set(tb->var, x.second), c, r) : c; }
            if (g.size() == 1) fr[d.dst + k] = mkc(g.begin()->first, d.bits2 == 32);
            else fr[d.dst + k] = Val(0, r);  // settled when it is used in arithmetic
            continue;
          }
          if (v.e) v = Val(concretize(v, d.bits, "int to floating point"));
          double x = d.op == O_SITOFP ? (double)sx(v.u, d.bits) : (double)v.u;
          if (d.bits2 == 32) fr[d.dst + k] = Val(f2bits(d.op == O_SITOFP ? (float)sx(v.u, d.bits) : (float)v.u));
          else fr[d.dst + k] = mkc(x, false);
        }
        break;
      case O_MOV: for (int k = 0; k < d.lanes; k++) fr[d.dst + k] = L(d.a, k); break;
      case O_SELECT: {
        Val c = G(d.a);
        if (!c.e) { int s = (c.u & 1) ? d.b : d.c; for (int k = 0; k < d.lanes; k++) fr[d.dst + k] = L(s, k); break; }
        TInfo* t = (TInfo*)d.p;
        bool allint = true;
        for (int k = 0; k < d.lanes; k++) {
          if (t->l[k].kind != 'i') allint = false;
          for (int o : {d.b, d.c}) { Z3_ast e = L(o, k).e; if (e && sk(e) != Z3_BV_SORT && sk(e) != Z3_BOOL_SORT) allint = false; }
        }
        if (g_mode == MODE_FP && d.lanes == 1 && (t->l[0].kind == 'd' || t->l[0].kind == 'f')) {
          bool f32 = t->l[0].kind == 'f';
          fr[d.dst] = mkR(Z3_mk_ite(C, asBool(c), asR(G(d.b), f32), asR(G(d.c), f32)), f32);
        } else if (allint) {
          for (int k = 0; k < d.lanes; k++) {
            unsigned bits = t->l[k].bits;
            if (bits == 1) fr[d.dst + k] = mkB(Z3_mk_ite(C, asBool(c), asBool(L(d.b, k)), asBool(L(d.c, k))));
            else fr[d.dst + k] = mkI(Z3_mk_ite(C, asBool(c), asBV(L(d.b, k), bits), asBV(L(d.c, k), bits)), bits);
          }
        } else {
          bool same = true;
          for (int k = 0; k < d.lanes; k++) { Val x = L(d.b, k), y = L(d.c, k); if (x.e != y.e || x.u != y.u) same = false; }
          int s = same || decide(asBool(c)) ? d.b : d.c;
          for (int k = 0; k < d.lanes; k++) fr[d.dst + k] = L(s, k);
        }
        break;
      }
      case O_VSELECT:
        for (int k = 0; k < d.lanes; k++) {
          Val c = L(d.a, k);
          bool s = c.e ? decide(asBool(c)) : (c.u & 1);
          fr[d.dst + k] = L(s ? d.b : d.c, k);
        }
        break;
      case O_LOAD: {
        TInfo* t = (TInfo*)d.p;
        Val pv = G(d.a);
        if (pv.e) {
          if (t->l.size() == 1) { fr[d.dst] = load_symaddr(asBV(pv, 64), t->l[0].bytes, t->l[0].bits); break; }
          pv = Val(concretize(pv, 64, "load address"));
        }
        for (size_t k = 0; k < t->l.size(); k++) {
          u64 a = pv.u + t->l[k].off;
          const Lane& l = t->l[k];
          if (l.bits > 64) path_error("wide load");
          chk(a, l.bytes, false);
          if (!maybe_sym(a, l.bytes)) {
            u64 u = 0;
            switch (l.bytes) {
              case 8: u = *(u64*)a; break;
              case 4: u = *(uint32_t*)a; break;
              case 1: u = *(unsigned char*)a; break;
              case 2: u = *(uint16_t*)a; break;
              default: memcpy(&u, (void*)a, l.bytes);
            }
            fr[d.dst + k] = Val(maskb(u, l.bits));
          } else fr[d.dst + k] = load_lane(a, l.bytes, l.bits);
        }
        break;
      }
      case O_STORE: {
        TInfo* t = (TInfo*)d.p;
        Val pv = G(d.a);
        if (pv.e) pv = Val(concretize(pv, 64, "store address"));
        for (size_t k = 0; k < t->l.size(); k++) {
          u64 a = pv.u + t->l[k].off;
          if (t->l[k].bits > 64) path_error("wide store");
          chk(a, t->l[k].bytes, true);
          store_lane(a, t->l[k].bytes, L(d.b, k));
        }
        break;
      }
      case O_ALLOCA: {
        u64 cnt = concretize(G(d.a), d.bits2, "alloca size");
        u64 n = d.imm * cnt;
        u64 p = (stack_top + 16 + d.bits - 1) & ~(u64)(d.bits - 1);
        if (p + n + 64 > (u64)A + HEAP_SZ + STACK_SZ) crash("stack", "stack exhausted");
        memset(AS + (p - (u64)A), 1, n);
        stack_top = p + n;
        fr[d.dst] = Val(p);
        break;
      }
      case O_GEP: {
        GepInfo* g = (GepInfo*)d.p;
        Val b = G(d.a);
        bool sym = b.e;
        for (auto& x : g->idx) if (G(x.first).e) sym = true;
        if (!sym) {
          u64 a = b.u + g->off;
          for (size_t i = 0; i < g->idx.size(); i++) a += (u64)(sx(G(g->idx[i].first).u, g->idxbits[i]) * g->idx[i].second);
          fr[d.dst] = Val(a);
        } else {
          Z3_ast a = asBV(b, 64);
          if (g->off) a = Z3_mk_bvadd(C, a, mk_bv((u64)g->off, 64));
          for (size_t i = 0; i < g->idx.size(); i++) {
            Val v = G(g->idx[i].first);
            Z3_ast x;
            if (!v.e) x = mk_bv((u64)(sx(v.u, g->idxbits[i]) * g->idx[i].second), 64);
            else {
              x = asBV(v, g->idxbits[i]);
              if (g->idxbits[i] < 64) x = Z3_mk_sign_ext(C, 64 - g->idxbits[i], x);
              if (g->idx[i].second != 1) x = Z3_mk_bvmul(C, x, mk_bv((u64)g->idx[i].second, 64));
            }
            a = Z3_mk_bvadd(C, a, x);
          }
          fr[d.dst] = mkI(a, 64);
        }
        break;
      }
      case O_BR: take((Edge*)d.p); break;
      case O_CBR: {
        Val c = G(d.a);
        bool s = c.e ? decide(asBool(c)) : (c.u & 1);
        take((Edge*)(s ? d.p : d.q));
        break;
      }
      case O_SWITCH: {
        SwInfo* si = (SwInfo*)d.p;
        Val v = G(d.a);
        if (!v.e) {
          Edge* e = &si->def;
          for (auto& c : si->cases) if (c.first == v.u) { e = &c.second; break; }
          take(e);
          break;
        }
        Z3_ast x = d.bits == 1 ? nullptr : asBV(v, d.bits);
        if (!x) { u64 u = decide(asBool(v)); Edge* e = &si->def; for (auto& c : si->cases) if (c.first == u) e = &c.second; take(e); break; }
        std::vector<std::pair<int, std::pair<Edge*, std::vector<Z3_ast>>>> gs;
        for (auto& c : si->cases) {
          bool found = false;
          bool plain = c.second.copies.empty();
          Z3_ast eq = Z3_mk_eq(C, x, mk_bv(c.first, d.bits));
          if (plain)
            for (auto& g : gs) if (g.first == c.second.target) { g.second.second.push_back(eq); found = true; break; }
          if (!found) gs.push_back({plain ? c.second.target : -1, {&c.second, {eq}}});
        }
        Edge* e = &si->def;
        for (auto& g : gs) {
          auto& o = g.second.second;
          if (decide(o.size() == 1 ? o[0] : Z3_mk_or(C, o.size(), o.data()))) { e = g.second.first; break; }
        }
        take(e);
        break;
      }
      case O_RET:
        for (int k = 0; k < d.lanes; k++) ret[k] = L(d.a, k);
        leave();
        return;
      case O_UNREACH: crash("unreachable", "unreachable code executed");
      case O_CALL: {
        CallInfo* ci = (CallInfo*)d.p;
        cur_va_area = va_area;
        curcall[depth - 1] = ci;
        u64 flying = 0, st = stack_top;
        try {
          do_call(ci, fr, f, d);
        } catch (Unwind& u) {
          flying = u.exc;
        }
        if (!flying) {
          if (ci->normal) take(ci->normal);
          break;
        }
        callstack.resize(depth);
        if (stack_top != st) drop_stack(st);
        vtop = saved_v + f->nslots;
        i64 adj = 0;
        int sel = ci->unwind ? landing(ci->lp, excs[flying].tinfo, &adj) : -1;
        if (sel < 0) { leave(); throw Unwind{flying}; }
        if (sel > 0) excs[flying].adj = adj;
        if (ci->lp_slot >= 0) { fr[ci->lp_slot] = Val(flying); fr[ci->lp_slot + 1] = Val(sel); }
        take(ci->unwind);
        break;
      }
      case O_RESUME: {
        u64 e = G(d.a).u;
        leave();
        throw Unwind{e};
      }
      case O_INSERTV: {
        std::vector<Val> t2;
        for (int k = 0; k < d.lanes; k++) t2.push_back(L(d.a, k));
        for (int k = 0; k < d.bits; k++) t2[d.imm + k] = L(d.b, k);
        for (int k = 0; k < d.lanes; k++) fr[d.dst + k] = t2[k];
        break;
      }
      case O_EXTRACTE: { u64 i = concretize(G(d.b), 64, "vector index"); fr[d.dst] = L(d.a, i); break; }
      case O_INSERTE: {
        u64 i = concretize(G(d.c), 64, "vector index");
        std::vector<Val> t2;
        for (int k = 0; k < d.lanes; k++) t2.push_back(L(d.a, k));
        t2[i] = G(d.b);
        for (int k = 0; k < d.lanes; k++) fr[d.dst + k] = t2[k];
        break;
      }
      case O_SHUFFLE: {
        auto* m = (std::vector<int>*)d.p;
        std::vector<Val> t2;
        for (int x : *m) t2.push_back(x < 0 ? Val(0) : (u64)x < d.imm ? L(d.a, x) : L(d.b, x - d.imm));
        for (size_t k = 0; k < t2.size(); k++) fr[d.dst + k] = t2[k];
        break;
      }
      case O_RMW: {
        u64 a = concretize(G(d.a), 64, "atomic address");
        chk(a, d.bits / 8, true);
        Val o = load_lane(a, d.bits / 8, d.bits), v = G(d.b), n;
        switch (d.sub) {
          case AtomicRMWInst::Xchg: n = v; break;
          case AtomicRMWInst::Add: n = ibin(Instruction::Add, o, v, d.bits); break;
          case AtomicRMWInst::Sub: n = ibin(Instruction::Sub, o, v, d.bits); break;
          case AtomicRMWInst::And: n = ibin(Instruction::And, o, v, d.bits); break;
          case AtomicRMWInst::Or: n = ibin(Instruction::Or, o, v, d.bits); break;
          case AtomicRMWInst::Xor: n = ibin(Instruction::Xor, o, v, d.bits); break;
          default: path_error("atomicrmw");
        }
        store_lane(a, d.bits / 8, n);
        if (d.dst >= 0) fr[d.dst] = o;
        break;
      }
      case O_CMPXCHG: {
        u64 a = concretize(G(d.a), 64, "atomic address");
        chk(a, d.bits / 8, true);
        Val o = load_lane(a, d.bits / 8, d.bits);
        Val eq = icmp(CmpInst::ICMP_EQ, o, G(d.b), d.bits);
        bool same = eq.e ? decide(asBool(eq)) : eq.u;
        if (same) store_lane(a, d.bits / 8, G(d.c));
        fr[d.dst] = o;
        fr[d.dst + 1] = Val(same);
        break;
      }
      default: {
        std::string s;
        raw_string_ostream os(s);
        d.I->print(os);
        path_error("unsupported instruction: " + os.str());
      }
    }
  }
}

#include "handlers.inc"

// ================================================================ start-up
static void layout_globals() {
  std::vector<GlobalVariable*> todo;
  for (auto& g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    u64 a = 0;
    bool decl = g.isDeclaration();
    bool prefer_native = g.hasLinkOnceODRLinkage() && g.getName().starts_with("_ZNSt") && g.getName().ends_with("2idE");
    if (decl || prefer_native) a = (u64)native_sym(g.getName().str());
    if (!a && g.getName() == "__dso_handle") a = heap_alloc(8, 'f');
    if (!a) {
      if (decl) {
        // weak or unavailable external data: give it zeroed space
        u64 n = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64;
        a = heap_alloc(std::max<u64>(n, 64), 'f');
        memset((void*)a, 0, std::max<u64>(n, 64));
      } else {
        u64 n = DL->getTypeAllocSize(g.getValueType());
        u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16);
        a = (glob_top + 16 + al - 1) & ~(al - 1);
        if (a + n + 64 > (u64)A + ARENA_SZ) { fprintf(stderr, "globals arena full\n"); exit(3); }
        glob_top = a + n;
        memset(AS + (a - (u64)A), 1, n);
        todo.push_back(&g);
      }
    }
    gaddr[&g] = a;
  }
  for (auto* g : todo)
    if (g->hasInitializer()) write_const(gaddr[g], g->getInitializer());
}
static void on_segv(int, siginfo_t* si, void*) {
  char b[64];
  snprintf(b, sizeof b, "SIGSEGV at %p", si->si_addr);
  crash("memory", b);
}
static void worker_main() {
  signal(SIGCHLD, SIG_IGN);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  if (!opt.debug) { sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); }
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, [](Z3_context, Z3_error_code) {});
  layout_globals();
  // static constructors
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<u64, Function*>> cs;
    if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& o : arr->operands()) {
        auto* s = cast<ConstantStruct>(o);
        if (auto* F = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts()))
          cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), F});
      }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    Val r[64];
    for (auto& c : cs) exec(get_fi(c.second), {}, 0, r);
  }
  Function* F = M->getFunction(opt.entry);
  if (!F) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); S->errors++; path_end("error"); }
  Val r[64];
  exec(get_fi(F), {}, 0, r);
  maybe_sample();
  path_end("done");
}
// function table shared after the fact: names of executed functions are dumped by label
int main(int argc, char** argv) {
  std::vector<std::string> libs;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--bc") opt.bitcode = nx();
    else if (a == "--entry") opt.entry = nx();
    else if (a == "--out") opt.out = nx();
    else if (a == "--workers") opt.workers = atoi(nx().c_str());
    else if (a == "--deadline") opt.deadline = atof(nx().c_str());
    else if (a == "--query-ms") opt.query_ms = atoi(nx().c_str());
    else if (a == "--max-instrs") opt.max_instrs = atol(nx().c_str());
    else if (a == "--samples") opt.max_samples = atoi(nx().c_str());
    else if (a == "--fp") g_mode = MODE_FP;
    else if (a == "--debug") opt.debug = true;
    else if (a == "--seed") opt.seed = atol(nx().c_str());
    else if (a == "--lib") libs.push_back(nx());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  struct rlimit rl;
  getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (900ull << 20) && !getenv("SYMIR_STACK")) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1024ull << 20) : std::min<u64>(rl.rlim_max, 1024ull << 20);
    if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("SYMIR_STACK", "1", 1); execv("/proc/self/exe", argv); }
  }
  for (auto& l : libs)
    if (!dlopen(l.c_str(), RTLD_NOW | RTLD_GLOBAL)) fprintf(stderr, "dlopen: %s\n", dlerror());
  g_t0 = now_s();
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  S->free_tokens = opt.workers - 1;
  chunks = new std::unordered_map<u64, Chunk>;
  AS = (unsigned char*)mmap(nullptr, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  char* arena = (char*)mmap(nullptr, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  vstack = (Val*)mmap(nullptr, VSTACK_N * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (AS == MAP_FAILED || arena == MAP_FAILED || vstack == MAP_FAILED) { perror("mmap"); return 3; }
  A = arena;
  heap_top = (u64)A + 64;
  stack_top = (u64)A + HEAP_SZ + 64;
  glob_top = (u64)A + HEAP_SZ + STACK_SZ + 64;

  static LLVMContext ctx;
  SMDiagnostic err;
  M = parseIRFile(opt.bitcode, err, ctx);
  if (!M) { fprintf(stderr, "cannot read %s: %s\n", opt.bitcode.c_str(), err.getMessage().str().c_str()); return 3; }
  DL = &M->getDataLayout();
  init_handlers();
  {
    int k = 1;
    for (auto& F : *M) fids[&F] = k++;
  }
  unlink(opt.out.c_str());
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  S->live = 1;
  pid_t p = fork();
  if (p == 0) { setpgid(0, 0); worker_main(); }
  setpgid(p, p);
  // Workers stop by themselves at the deadline; those stuck inside the solver are ended here.
  static pid_t pg;
  pg = p;
  signal(SIGALRM, [](int) {
    int n = S->live.load();
    S->deadline_cut += n > 0 ? n : 1;
    kill(-pg, SIGKILL);
    alarm(5);
  });
  alarm((unsigned)opt.deadline + 20);
  double last = now_s();
  for (;;) {
    int st;
    pid_t r = waitpid(-1, &st, 0);
    if (r < 0 && errno == EINTR) continue;
    if (r < 0) break;
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { S->errors++; out_line("{\"type\":\"inconclusive\",\"msg\":\"worker killed by signal " + std::to_string(WTERMSIG(st)) + "\"}"); }
    if (now_s() - last > 5) last = now_s();
  }
  double wall = now_s() - g_t0;
  {
    std::string fs;
    for (auto& F : *M) {
      int id = fids[&F];
      if (id < (1 << 17) && S->func_seen[id].load()) fs += (fs.empty() ? "" : ",") + jstr(F.getName().str());
    }
    out_line("{\"type\":\"functions\",\"names\":[" + fs + "]}");
  }
  std::string labs = "{";
  bool first = true;
  for (int i = 0; i < S->nlabels; i++) {
    labs += std::string(first ? "" : ",") + jstr(std::string(1, S->labels[i].kind) + ":" + S->labels[i].name) + ":" + std::to_string(S->labels[i].n.load());
    first = false;
  }
  labs += "}";
  char b[2048];
  snprintf(b, sizeof b,
           "{\"type\":\"summary\",\"entry\":%s,\"paths\":%ld,\"completed\":%ld,\"infeasible\":%ld,\"deadline_cut\":%ld,\"inconclusive\":%ld,"
           "\"violations\":%ld,\"instrs\":%ld,\"branches\":%ld,\"forks\":%ld,\"queries\":%ld,\"cached\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,"
           "\"solver_s\":%.3f,\"max_query_s\":%.3f,\"asserts\":%ld,\"asserts_solver\":%ld,\"asserts_const\":%ld,\"errors\":%ld,\"concretized\":%ld,\"byte_decided\":%ld,\"byte_certs\":%ld,\"wall\":%.3f,\"labels\":",
           jstr(opt.entry).c_str(), S->paths.load(), S->completed.load(), S->infeasible.load(), S->deadline_cut.load(), S->inconclusive.load(),
           S->violations.load(), S->instrs.load(), S->branches.load(), S->forks.load(), S->queries.load(), S->cached.load(), S->q_sat.load(), S->q_unsat.load(),
           S->q_unknown.load(), S->solver_us.load() / 1e6, S->max_query_us.load() / 1e6, S->asserts.load(), S->asserts_solver.load(), S->asserts_const.load(),
           S->errors.load(), S->concretized.load(), S->byte_decided.load(), S->byte_certs.load(), wall);
  out_line(std::string(b) + labs + "}");
  fflush(stdout);
  _exit(0);
}
