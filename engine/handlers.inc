// Built-in functions of symir (included by interp.cc).

static std::string cstr_at(u64 p, const char* why) {
  std::string s;
  for (u64 i = 0; i < 100000; i++) {
    chk(p + i, 1, false);
    if (any_sym(p + i, 1)) path_error(std::string("symbolic string where a concrete one is needed: ") + why);
    char c = *(char*)(p + i);
    if (!c) break;
    s += c;
  }
  return s;
}
static Val load8(u64 a) { chk(a, 1, false); return load_lane(a, 1, 8); }

// ---- memory
static void h_memcpy(Ctx& x) {
  u64 n = x.cu(2, 64, "memcpy length"), d = x.cu(0, 64, "memcpy dst"), s = x.cu(1, 64, "memcpy src");
  copy_mem(d, s, n);
  x.ret[0] = Val(d);
}
static void h_mempcpy(Ctx& x) { h_memcpy(x); x.ret[0].u += x.cu(2, 64, "n"); }
static void h_memset(Ctx& x) {
  u64 n = x.cu(2, 64, "memset length"), d = x.cu(0, 64, "memset dst");
  Val v = x.arg(1);
  if (n) chk(d, n, true);
  clear_sym(d, n);
  if (!v.e) memset((void*)d, (int)v.u, n);
  else for (u64 i = 0; i < n; i++) store_lane(d + i, 1, mkI(asBV(v, 8), 8));
  x.ret[0] = Val(d);
}
static void mem_compare(Ctx& x, u64 a, u64 b, u64 n, bool stop_at_nul) {
  if (!stop_at_nul && n) { chk(a, n, false); chk(b, n, false); }
  if (!stop_at_nul && !any_sym(a, n) && !any_sym(b, n)) {
    x.ret[0] = Val(maskb((u64)(i64)(n ? memcmp((void*)a, (void*)b, n) : 0), 32));
    return;
  }
  if (stop_at_nul) {
    for (u64 i = 0; i < n; i++) {
      Val p = load8(a + i), q = load8(b + i);
      Val eq = icmp(CmpInst::ICMP_EQ, p, q, 8);
      if (!(eq.e ? decide(asBool(eq)) : eq.u)) {
        Val lt = icmp(CmpInst::ICMP_ULT, p, q, 8);
        x.ret[0] = Val(maskb((lt.e ? decide(asBool(lt)) : lt.u) ? (u64)-1 : 1, 32));
        return;
      }
      Val z = icmp(CmpInst::ICMP_EQ, p, Val(0), 8);
      if (z.e ? decide(asBool(z)) : z.u) break;
    }
    x.ret[0] = Val(0);
    return;
  }
  Z3_ast r = mk_bv(0, 32);
  for (u64 i = n; i-- > 0;) {
    Val p = load_lane(a + i, 1, 8), q = load_lane(b + i, 1, 8);
    if (!p.e && !q.e) { if (p.u != q.u) r = mk_bv(p.u < q.u ? 0xffffffffull : 1, 32); continue; }
    Z3_ast P = asBV(p, 8), Q = asBV(q, 8);
    Z3_ast d = Z3_mk_bvsub(C, Z3_mk_zero_ext(C, 24, P), Z3_mk_zero_ext(C, 24, Q));
    r = Z3_mk_ite(C, Z3_mk_eq(C, P, Q), r, d);
  }
  x.ret[0] = mkI(r, 32);
}
static void h_memcmp(Ctx& x) { mem_compare(x, x.cu(0, 64, "a"), x.cu(1, 64, "b"), x.cu(2, 64, "memcmp length"), false); }
static void h_strcmp(Ctx& x) { mem_compare(x, x.cu(0, 64, "a"), x.cu(1, 64, "b"), 1 << 20, true); }
static void h_strncmp(Ctx& x) { mem_compare(x, x.cu(0, 64, "a"), x.cu(1, 64, "b"), x.cu(2, 64, "n"), true); }
static void h_strlen(Ctx& x) {
  u64 p = x.cu(0, 64, "strlen"), i = 0;
  for (;; i++) {
    Val v = load8(p + i);
    if (v.e) { if (decide(Z3_mk_eq(C, asBV(v, 8), mk_bv(0, 8)))) break; }
    else if (v.u == 0) break;
  }
  x.ret[0] = Val(i);
}
static void find_byte(Ctx& x, u64 p, Val c, u64 n, bool nul) {
  c = c.e ? mkI(asBV(c, 8), 8) : Val(c.u & 255);
  for (u64 i = 0; i < n; i++) {
    Val v = load8(p + i);
    Val eq = icmp(CmpInst::ICMP_EQ, v, c, 8);
    if (eq.e ? decide(asBool(eq)) : eq.u) { x.ret[0] = Val(p + i); return; }
    if (nul) {
      Val z = icmp(CmpInst::ICMP_EQ, v, Val(0), 8);
      if (z.e ? decide(asBool(z)) : z.u) break;
    }
  }
  x.ret[0] = Val(0);
}
static void h_memchr(Ctx& x) { find_byte(x, x.cu(0, 64, "memchr"), x.arg(1), x.cu(2, 64, "memchr length"), false); }
static void h_strchr(Ctx& x) { find_byte(x, x.cu(0, 64, "strchr"), x.arg(1), 1 << 20, true); }

static void h_malloc(Ctx& x) { x.ret[0] = Val(heap_alloc(x.cu(0, 64, "malloc size"), 'm')); }
static void h_calloc(Ctx& x) { x.ret[0] = Val(heap_alloc(x.cu(0, 64, "n") * x.cu(1, 64, "size"), 'c')); }
static void h_new(Ctx& x) {
  u64 n = x.cu(0, 64, "allocation size");
  u64 p = heap_alloc(n, 'n');
  if (!p) crash("exception", "std::bad_alloc (huge allocation)");
  x.ret[0] = Val(p);
}
static void h_newa(Ctx& x) {
  u64 p = heap_alloc(x.cu(0, 64, "allocation size"), 'a');
  if (!p) crash("exception", "std::bad_alloc (huge allocation)");
  x.ret[0] = Val(p);
}
static void h_new_al(Ctx& x) { x.ret[0] = Val(heap_alloc(x.cu(0, 64, "size"), 'n', std::max<u64>(16, x.cu(1, 64, "align")))); }
static void do_free(u64 p, char k) {
  if (!p) return;
  if (in_arena(p)) heap_free(p, k);
  else __libc_free((void*)p);
}
static void h_free(Ctx& x) { do_free(x.cu(0, 64, "free"), 'm'); }
static void h_del(Ctx& x) { do_free(x.cu(0, 64, "delete"), 'n'); }
static void h_dela(Ctx& x) { do_free(x.cu(0, 64, "delete[]"), 'a'); }
static void h_realloc(Ctx& x) {
  u64 p = x.cu(0, 64, "realloc"), n = x.cu(1, 64, "realloc size");
  if (p && !in_arena(p)) path_error("realloc of native memory");
  u64 q = heap_alloc(n, 'm');
  if (p) {
    auto it = chunks->find(p);
    if (it == chunks->end() || it->second.freed) crash("memory", "realloc of an invalid pointer");
    copy_mem(q, p, std::min(n, it->second.size));
    heap_free(p, 'm');
  }
  x.ret[0] = Val(q);
}

// ---- termination
static void h_abort(Ctx& x) { crash("abort", x.cb->getCalledFunction() ? x.cb->getCalledFunction()->getName().str() : "abort"); }
static void h_exit(Ctx& x) {
  if (x.args->size() && !x.arg(0).e && (x.arg(0).u & 255) == 0 && expect_exit) expect_exit = false;
  crash("exit", "process exit requested");
}
static void h_expect_exit(Ctx& x) { expect_exit = x.arg(0).u; }
static void h_throw(Ctx& x) {
  std::string n = x.cb->getCalledFunction() ? x.cb->getCalledFunction()->getName().str() : "throw";
  std::string a;
  if (x.args->size() >= 1 && !x.arg(0).e && n.find("cxa_throw") == std::string::npos && x.arg(0).u > 65536) a = (const char*)x.arg(0).u;
  crash("exception", "uncaught C++ exception via " + n + " (" + a + ")");
}
static void h_exc_alloc(Ctx& x) { x.ret[0] = Val(heap_alloc(x.cu(0, 64, "exception size"), 'x')); }
static void h_exc_free(Ctx& x) { heap_free(x.arg(0).u, 'x'); }
static void h_exc_throw(Ctx& x) {
  u64 e = x.arg(0).u;
  excs[e] = Exc{x.arg(1).u, x.arg(2).u, 0, 0, true};
  raise_exc(e, "");
}
static void h_exc_rethrow(Ctx& x) {
  if (caught.empty()) crash("exception", "rethrow without an exception");
  excs[caught.back()].flying = true;
  raise_exc(caught.back(), " (rethrown)");
}
static void h_exc_begin(Ctx& x) {
  u64 e = x.arg(0).u;
  Exc& r = excs[e];
  r.handlers++;
  r.flying = false;
  caught.push_back(e);
  x.ret[0] = Val(e + r.adj);
}
static void h_exc_ptr(Ctx& x) { x.ret[0] = Val(x.arg(0).u + excs[x.arg(0).u].adj); }
static void h_exc_end(Ctx& x) {
  if (caught.empty()) return;
  u64 e = caught.back();
  caught.pop_back();
  Exc r = excs[e];
  if (--excs[e].handlers > 0 || r.flying) return;
  excs.erase(e);
  if (r.dtor) {
    auto it = addr2func.find(r.dtor);
    if (it != addr2func.end() && !it->second->isDeclaration()) { Val q[64]; exec(get_fi(it->second), {Val(e)}, 1, q); }
    else ((void (*)(u64))r.dtor)(e);
  }
  heap_free(e, 'x');
}
static void h_exc_typeid(Ctx& x) { x.ret[0] = Val(type_id(x.arg(0).u)); }
static void h_check(Ctx& x) {
  crash("check", "CHECK failed: " + cstr_at(x.arg(0).u, "check") + " at " + cstr_at(x.arg(1).u, "file"));
}
static void h_nop(Ctx& x) { for (int i = 0; i < 4; i++) x.ret[i] = Val(0); }
static void h_bad(Ctx& x) { path_error("unsupported call " + x.cb->getCalledFunction()->getName().str()); }

// ---- math
#define F32OF(x) (x.cb->getType()->isFloatTy())
static void h_sqrt(Ctx& x) { x.ret[0] = f_sqrt(x.arg(0), F32OF(x)); }
static void h_sin(Ctx& x) { x.ret[0] = f_sincos(x.arg(0), F32OF(x), true); }
static void h_cos(Ctx& x) { x.ret[0] = f_sincos(x.arg(0), F32OF(x), false); }
static void h_tan(Ctx& x) {
  if (!x.arg(0).e) { x.ret[0] = mkc(tan(cval(x.arg(0), F32OF(x))), F32OF(x)); return; }
  Val s = f_sincos(x.arg(0), false, true), c = f_sincos(x.arg(0), false, false);
  x.ret[0] = fbin(3, s, c, false);
}
static void h_sincos(Ctx& x) {
  Val s = f_sincos(x.arg(0), false, true), c = f_sincos(x.arg(0), false, false);
  u64 a = x.cu(1, 64, "sincos"), b = x.cu(2, 64, "sincos");
  chk(a, 8, true); chk(b, 8, true);
  store_lane(a, 8, s); store_lane(b, 8, c);
}
static void h_atan2(Ctx& x) { x.ret[0] = f_atan2(x.arg(0), x.arg(1)); }
static void h_atan(Ctx& x) { x.ret[0] = f_atan2(x.arg(0), Val(d2bits(1.0))); }
static void h_acos(Ctx& x) { x.ret[0] = f_acos(x.arg(0), false); }
static void h_asin(Ctx& x) { x.ret[0] = f_acos(x.arg(0), true); }
static void h_fabs(Ctx& x) { x.ret[0] = f_abs(x.arg(0), F32OF(x)); }
static void h_pow(Ctx& x) { x.ret[0] = f_pow(x.arg(0), x.arg(1)); }
static void h_powi(Ctx& x) { x.ret[0] = f_pow(x.arg(0), mkc((double)sx(x.cu(1, 32, "powi"), 32), false)); }
static void h_hypot(Ctx& x) {
  if (!x.arg(0).e && !x.arg(1).e) { x.ret[0] = mkc(hypot(bits2d(x.arg(0).u), bits2d(x.arg(1).u)), false); return; }
  x.ret[0] = f_sqrt(fbin(0, fbin(2, x.arg(0), x.arg(0), false), fbin(2, x.arg(1), x.arg(1), false), false), false);
}
static void h_floor(Ctx& x) { x.ret[0] = f_round(x.arg(0), F32OF(x), 'f'); }
static void h_ceil(Ctx& x) { x.ret[0] = f_round(x.arg(0), F32OF(x), 'c'); }
static void h_trunc(Ctx& x) { x.ret[0] = f_round(x.arg(0), F32OF(x), 't'); }
static void h_round(Ctx& x) { x.ret[0] = f_round(x.arg(0), F32OF(x), 'r'); }
static void h_rint(Ctx& x) { x.ret[0] = f_round(x.arg(0), F32OF(x), 'e'); }
static void h_fma(Ctx& x) { bool f = F32OF(x); x.ret[0] = fbin(0, fbin(2, x.arg(0), x.arg(1), f), x.arg(2), f); }
static void h_copysign(Ctx& x) {
  bool f = F32OF(x);
  Val m = f_abs(x.arg(0), f), s = x.arg(1);
  bool neg = s.e ? (g_mode == MODE_FP ? decide(Z3_mk_fpa_is_negative(C, asR(s, f))) : decide(r_lt(asR(s, f), R0()))) : std::signbit(cval(s, f));
  x.ret[0] = neg ? fneg(m, f) : m;
}
static void fminmax(Ctx& x, bool mx) {
  bool f = F32OF(x);
  Val a = x.arg(0), b = x.arg(1);
  if (!a.e && std::isnan(cval(a, f))) { x.ret[0] = b; return; }
  if (!b.e && std::isnan(cval(b, f))) { x.ret[0] = a; return; }
  Val lt = fcmp(CmpInst::FCMP_OLT, a, b, f);
  bool l = lt.e ? decide(asBool(lt)) : lt.u;
  x.ret[0] = l != mx ? a : b;
}
static void h_fmin(Ctx& x) { fminmax(x, false); }
static void h_fmax(Ctx& x) { fminmax(x, true); }
static void h_isfpclass(Ctx& x) {
  bool f = x.cb->getArgOperand(0)->getType()->isFloatTy();
  unsigned m = x.arg(1).u;
  Val a = x.arg(0);
  if (!a.e) {
    double d = cval(a, f);
    unsigned c = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? (std::signbit(d) ? 32 : 64)
                 : std::fpclassify(d) == FP_SUBNORMAL ? (d < 0 ? 16 : 128) : (d < 0 ? 8 : 256);
    x.ret[0] = Val((m & c) != 0);
    return;
  }
  if (g_mode == MODE_FP) path_error("is.fpclass in FP mode");
  Z3_ast r = asR(a, f);
  std::vector<Z3_ast> o;
  if (m & 8) o.push_back(r_lt(r, R0()));
  if (m & 64) o.push_back(r_eq(r, R0()));
  if (m & 256) o.push_back(r_gt(r, R0()));
  x.ret[0] = o.empty() ? Val(0) : mkB(Z3_mk_or(C, o.size(), o.data()));
}

// ---- integer intrinsics
static void h_minmax(Ctx& x) {
  std::string n = x.cb->getCalledFunction()->getName().str();
  unsigned bits = lanebits(x.cb->getType());
  unsigned p = n.find("umax") != n.npos ? CmpInst::ICMP_UGT : n.find("umin") != n.npos ? CmpInst::ICMP_ULT
               : n.find("smax") != n.npos ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
  for (int k = 0; k < x.ci->nret; k++) {
    Val a = x.arg(k), b = x.arg(k + x.ci->nret), c = icmp(p, a, b, bits);
    if (!c.e) x.ret[k] = c.u ? a : b;
    else if (bits == 64 && x.cb->getType()->isPointerTy()) x.ret[k] = decide(asBool(c)) ? a : b;
    else x.ret[k] = mkI(Z3_mk_ite(C, asBool(c), asBV(a, bits), asBV(b, bits)), bits);
  }
}
static void h_abs_i(Ctx& x) {
  unsigned bits = lanebits(x.cb->getType());
  Val a = x.arg(0), n = icmp(CmpInst::ICMP_SLT, a, Val(0), bits);
  Val m = ibin(Instruction::Sub, Val(0), a, bits);
  x.ret[0] = !n.e ? (n.u ? m : a) : mkI(Z3_mk_ite(C, asBool(n), asBV(m, bits), asBV(a, bits)), bits);
}
static void h_overflow(Ctx& x) {
  std::string n = x.cb->getCalledFunction()->getName().str();
  unsigned bits = lanebits(x.cb->getArgOperand(0)->getType());
  u64 a = x.cu(0, bits, "overflow arithmetic"), b = x.cu(1, bits, "overflow arithmetic");
  __int128 r;
  bool sg = n.find(".s") != n.npos && n.find("llvm.s") == 0;
  __int128 p = sg ? (__int128)sx(a, bits) : (__int128)a, q = sg ? (__int128)sx(b, bits) : (__int128)b;
  if (n.find("add.with") != n.npos) r = p + q;
  else if (n.find("sub.with") != n.npos) r = p - q;
  else {
    if (!sg && bits == 64) { unsigned __int128 ur = (unsigned __int128)a * b; x.ret[0] = Val((u64)ur); x.ret[1] = Val((ur >> 64) != 0); return; }
    r = p * q;
  }
  u64 t = maskb((u64)r, bits);
  __int128 back = sg ? (__int128)sx(t, bits) : (__int128)t;
  x.ret[0] = Val(t);
  x.ret[1] = Val(back != r);
}
static void h_sat(Ctx& x) {
  std::string n = x.cb->getCalledFunction()->getName().str();
  unsigned bits = lanebits(x.cb->getType());
  u64 a = x.cu(0, bits, "sat"), b = x.cu(1, bits, "sat");
  if (n.find("usub") != n.npos) x.ret[0] = Val(a < b ? 0 : a - b);
  else if (n.find("uadd") != n.npos) { u64 r = maskb(a + b, bits); x.ret[0] = Val(r < a ? maskb(~0ull, bits) : r); }
  else h_bad(x);
}
static void h_bits(Ctx& x) {
  std::string n = x.cb->getCalledFunction()->getName().str();
  unsigned bits = lanebits(x.cb->getType());
  u64 a = x.cu(0, bits, "bit intrinsic"), r = 0;
  if (n.find("ctpop") != n.npos) r = __builtin_popcountll(a);
  else if (n.find("ctlz") != n.npos) r = a ? __builtin_clzll(a) - (64 - bits) : bits;
  else if (n.find("cttz") != n.npos) r = a ? __builtin_ctzll(a) : bits;
  else if (n.find("bswap") != n.npos) r = bits == 64 ? __builtin_bswap64(a) : bits == 32 ? __builtin_bswap32(a) : __builtin_bswap16(a);
  else if (n.find("fshl") != n.npos || n.find("fshr") != n.npos) {
    u64 b = x.cu(1, bits, "fsh"), s = x.cu(2, bits, "fsh") % bits;
    if (n.find("fshr") != n.npos) r = s ? (a << (bits - s)) | (b >> s) : b;
    else r = s ? (a << s) | (b >> (bits - s)) : a;
  } else h_bad(x);
  x.ret[0] = Val(maskb(r, bits));
}
static void h_first(Ctx& x) { for (int i = 0; i < x.ci->nret; i++) x.ret[i] = x.arg(i); }
static void h_assume(Ctx& x) {
  // an `llvm.assume` the code promises: violating it would be undefined behaviour
  if (x.args->empty()) return;
}
static void h_vastart(Ctx& x) {
  u64 p = x.cu(0, 64, "va_start");
  chk(p, 24, true);
  *(uint32_t*)p = 48; *(uint32_t*)(p + 4) = 176; *(u64*)(p + 8) = cur_va_area; *(u64*)(p + 16) = 0;
}
static void h_vacopy(Ctx& x) { copy_mem(x.cu(0, 64, "va"), x.cu(1, 64, "va"), 24); }
static void h_objsize(Ctx& x) { x.ret[0] = Val((x.arg(1).u & 1) ? 0 : ~0ull); if (lanebits(x.cb->getType()) == 32) x.ret[0].u &= 0xffffffff; }
static void h_stacksave(Ctx& x) { x.ret[0] = Val(stack_top); }

// ================================================================ harness interface
static std::vector<Val> in_tab;
struct OutTok { Val v; int prec; char kind; };
static std::vector<OutTok> out_tab;
static std::map<std::string, int> name_count;
static std::string uniq(const std::string& n) {
  int k = name_count[n]++;
  return k ? n + "." + std::to_string(k) : n;
}
static Z3_ast named(const std::string& n, Z3_sort s) { return Z3_mk_const(C, Z3_mk_string_symbol(C, ("$" + n).c_str()), s); }
static void h_sym_double(Ctx& x) {
  std::string n = uniq(cstr_at(x.arg(0).u, "name"));
  double lo = bits2d(x.arg(1).u), hi = bits2d(x.arg(2).u);
  Z3_ast v;
  if (g_mode == MODE_FP) {
    v = named(n, Z3_mk_fpa_sort_64(C));
    inputs.push_back(Input{n, 'd', v, 0, lo, hi});
    if (lo <= hi) {
      assign[Z3_get_ast_id(C, v)] = mk_fp_of_double(lo, false);
      pc_add(Z3_mk_fpa_geq(C, v, mk_fp_of_double(lo, false)));
      pc_add(Z3_mk_fpa_leq(C, v, mk_fp_of_double(hi, false)));
    } else assign[Z3_get_ast_id(C, v)] = mk_fp_of_double(0, false);
  } else {
    v = named(n, Z3_mk_real_sort(C));
    inputs.push_back(Input{n, 'd', v, 0, lo, hi});
    assign[Z3_get_ast_id(C, v)] = mk_real_of_double(lo);
    pc_add(Z3_mk_ge(C, v, mk_real_of_double(lo)));
    pc_add(Z3_mk_le(C, v, mk_real_of_double(hi)));
  }
  x.ret[0] = Val(0, v);
}
static void h_sym_byte(Ctx& x) {
  std::string n = uniq(cstr_at(x.arg(0).u, "name"));
  Z3_ast v = named(n, Z3_mk_bv_sort(C, 8));
  inputs.push_back(Input{n, 'b', v, 0, 0, 255});
  assign[Z3_get_ast_id(C, v)] = mk_bv(0, 8);
  x.ret[0] = Val(0, v);
}
static void h_sym_int(Ctx& x) {
  std::string n = uniq(cstr_at(x.arg(0).u, "name"));
  int lo = (int)x.arg(1).u, hi = (int)x.arg(2).u;
  Z3_ast v = named(n, Z3_mk_bv_sort(C, 32));
  inputs.push_back(Input{n, 'i', v, 0, (double)lo, (double)hi});
  assign[Z3_get_ast_id(C, v)] = mk_bv((uint32_t)lo, 32);
  pc_add(Z3_mk_bvsge(C, v, mk_bv((uint32_t)lo, 32)));
  pc_add(Z3_mk_bvsle(C, v, mk_bv((uint32_t)hi, 32)));
  x.ret[0] = Val(0, v);
}
static void h_sym_choose(Ctx& x) {
  std::string n = uniq(cstr_at(x.arg(0).u, "name"));
  int k = (int)x.cu(1, 32, "choose");
  int v = 0;
  while (v < k - 1) {
    // Children take the remaining alternatives.
    if (token_fork()) { v++; continue; }
    break;
  }
  inputs.push_back(Input{n, 'c', nullptr, v, 0, 0});
  x.ret[0] = Val((uint32_t)v);
}
static Z3_ast cond_of(const Val& v, unsigned bits) {
  if (bits == 1) return asBool(v);
  return Z3_mk_not(C, Z3_mk_eq(C, asBV(v, bits), mk_bv(0, bits)));
}
static void h_sym_assume(Ctx& x) {
  Val v = x.arg(0);
  if (!v.e) { if (!v.u) path_end("infeasible"); return; }
  assume(cond_of(v, lanebits(x.cb->getArgOperand(0)->getType())));
}
// bad: the condition of a violation
static void assert_not(Z3_ast bad, const std::string& label, const std::string& msg, const std::vector<Z3_ast>& stronger = {}) {
  S->asserts++;
  label_hit('a', label);
  bad = simp(bad);
  bool b;
  if (is_bool_const(bad, &b)) {
    S->asserts_const++;
    if (!b) return;
    // make sure the path itself is real
    report_violation(label, msg, nullptr);
    path_end("violated");
  }
  S->asserts_solver++;
  std::map<unsigned, Z3_ast> m;
  Res r = check_with({bad}, &m);
  if (r == UNSAT) { return; }
  if (r == UNKNOWN) {
    label_hit('u', label);
    if (S->inconclusive++ < 40) out_line("{\"type\":\"inconclusive\",\"msg\":" + jstr("solver gave up on assertion " + label) + "}");
    pc_add(Z3_mk_not(C, bad));
    assign_ok = false;
    return;
  }
  // prefer a counterexample well clear of the tolerance
  Z3_ast best = bad;
  for (Z3_ast c : stronger) {
    std::map<unsigned, Z3_ast> m2;
    if (check_with({c}, &m2) == SAT) { best = c; break; }
  }
  report_violation(label, msg, best);
  assume(Z3_mk_not(C, bad));
}
static void h_sym_assert(Ctx& x) {
  Val v = x.arg(0);
  std::string l = cstr_at(x.arg(1).u, "label");
  if (!v.e) { assert_not(v.u ? Z3_mk_false(C) : Z3_mk_true(C), l, "assertion"); return; }
  assert_not(Z3_mk_not(C, cond_of(v, lanebits(x.cb->getArgOperand(0)->getType()))), l, "assertion");
}
static Z3_ast r_diff(const Val& a, const Val& b) { return asR(fbin(1, a, b, false), false); }
static Z3_ast r_apart(Z3_ast d, double w) {
  return simp(mk_or2(r_gt(d, mk_real_of_double(w)), r_lt(d, mk_real_of_double(-w))));
}
static void h_assert_near(Ctx& x) {
  Val a = x.arg(0), b = x.arg(1), t = x.arg(2);
  std::string l = cstr_at(x.arg(3).u, "label");
  bool fa = a.e || std::isfinite(bits2d(a.u)), fb = b.e || std::isfinite(bits2d(b.u));
  if (!fa || !fb) {
    bool same = !fa && !fb && (bits2d(a.u) == bits2d(b.u));
    assert_not(same ? Z3_mk_false(C) : Z3_mk_true(C), l, "non-finite value");
    return;
  }
  if (!a.e && !b.e && !t.e) { assert_not(fabs(bits2d(a.u) - bits2d(b.u)) > bits2d(t.u) ? Z3_mk_true(C) : Z3_mk_false(C), l, "values differ"); return; }
  Z3_ast d = r_diff(a, b);
  auto apart = [&](double k, double add) {
    if (!t.e) return r_apart(d, bits2d(t.u) * k + add);
    Val w = fbin(0, fbin(2, t, mkc(k, false), false), mkc(add, false), false);
    Z3_ast W = asR(w, false);
    return simp(mk_or2(r_gt(d, W), r_lt(d, asR(fneg(w, false), false))));
  };
  assert_not(apart(1, 0), l, "values differ", {apart(100, 1), apart(8, 0), apart(3, 0)});
}
// Vector of doubles in (possibly symbolic) memory.
static std::vector<Val> load_doubles(u64 p, size_t n) {
  std::vector<Val> r;
  for (size_t i = 0; i < n; i++) { chk(p + 8 * i, 8, false); r.push_back(load_lane(p + 8 * i, 8, 64)); }
  return r;
}
// Condition "a and b differ by more than tol in some component"; certain = 1/0 when no solver is needed.
static Z3_ast apart_vec(const std::vector<Val>& a, const Val* b, double tol) {
  std::vector<Z3_ast> o;
  for (size_t i = 0; i < a.size(); i++) {
    if (!a[i].e && !b[i].e) {
      double x = bits2d(a[i].u), y = bits2d(b[i].u);
      bool same = (!std::isfinite(x) || !std::isfinite(y)) ? x == y : fabs(x - y) <= tol;
      if (!same) return Z3_mk_true(C);
      continue;
    }
    for (const Val* v : {&a[i], &b[i]}) if (!v->e && !std::isfinite(bits2d(v->u))) return Z3_mk_true(C);
    Z3_ast c = r_apart(r_diff(a[i], b[i]), tol);
    bool k;
    if (is_bool_const(c, &k)) { if (k) return c; continue; }
    o.push_back(c);
  }
  if (o.empty()) return Z3_mk_false(C);
  return o.size() == 1 ? o[0] : Z3_mk_or(C, o.size(), o.data());
}
static bool surely_not(Z3_ast bad) {
  bool k;
  bad = simp(bad);
  if (is_bool_const(bad, &k)) return !k;
  // cheap refutation: the current assignment
  std::map<unsigned, Z3_ast> m;
  return check_with({bad}, &m) == UNSAT;
}
// int sym_match(const double* a, const double* bs, int n, int m, double tol): index of a candidate
// equal to a (within tol) for every input of this path, or -1
static void h_sym_match(Ctx& x) {
  size_t n = x.cu(2, 32, "n"), m = x.cu(3, 32, "m");
  std::vector<Val> a = load_doubles(x.arg(0).u, n), b = load_doubles(x.arg(1).u, n * m);
  double tol = bits2d(x.cu(4, 64, "tol"));
  x.ret[0] = Val((uint32_t)-1);
  std::vector<size_t> unsure;
  for (size_t j = 0; j < m; j++) {
    Z3_ast c = apart_vec(a, &b[j * n], tol);
    bool k;
    if (is_bool_const(c, &k)) { if (!k) { x.ret[0] = Val((uint32_t)j); return; } continue; }
    unsure.push_back(j);
  }
  for (size_t j : unsure)
    if (surely_not(apart_vec(a, &b[j * n], tol))) { x.ret[0] = Val((uint32_t)j); return; }
}
// void sym_assert_some(a, bs, n, m, tol, label): a equals one of the candidates (which may depend on the input)
static void h_assert_some(Ctx& x) {
  size_t n = x.cu(2, 32, "n"), m = x.cu(3, 32, "m");
  std::vector<Val> a = load_doubles(x.arg(0).u, n), b = load_doubles(x.arg(1).u, n * m);
  double tol = bits2d(x.cu(4, 64, "tol"));
  std::string l = cstr_at(x.arg(5).u, "label");
  auto bad = [&](double t) {
    std::vector<Z3_ast> c{Z3_mk_true(C)};
    for (size_t j = 0; j < m; j++) c.push_back(apart_vec(a, &b[j * n], t));
    return simp(Z3_mk_and(C, c.size(), c.data()));
  };
  assert_not(bad(tol), l, "no match", {bad(tol * 100 + 1), bad(tol * 8), bad(tol * 3)});
}
static void h_assert_le(Ctx& x) {
  Val a = x.arg(0), b = x.arg(1), t = x.arg(2);
  std::string l = cstr_at(x.arg(3).u, "label");
  if (!a.e && !b.e && !t.e) { assert_not(bits2d(a.u) <= bits2d(b.u) + bits2d(t.u) ? Z3_mk_false(C) : Z3_mk_true(C), l, "order"); return; }
  for (Val* v : {&a, &b}) if (!v->e && !std::isfinite(bits2d(v->u))) {
    double d = bits2d(v->u);
    bool ok = !std::isnan(d) && ((v == &a) == (d < 0));
    assert_not(ok ? Z3_mk_false(C) : Z3_mk_true(C), l, "order");
    return;
  }
  Z3_ast d = r_diff(a, b);
  if (t.e) path_error("symbolic tolerance");
  auto over = [&](double k, double add) { return r_gt(d, mk_real_of_double(bits2d(t.u) * k + add)); };
  assert_not(over(1, 0), l, "order", {over(100, 1), over(8, 1e-4), over(3, 1e-6)});
}
static void h_sym_reach(Ctx& x) { label_hit('r', cstr_at(x.arg(0).u, "label")); }
static void h_sym_observe(Ctx& x) { observations.push_back({cstr_at(x.arg(0).u, "label"), x.arg(1)}); }
static void h_sym_observe_i(Ctx& x) {
  Val v = x.arg(1);
  if (!v.e) v = Val(d2bits((double)(int32_t)v.u));
  observations.push_back({cstr_at(x.arg(0).u, "label"), v});
}
static void h_sym_is(Ctx& x) { x.ret[0] = Val(x.arg(0).e != nullptr); }
static void h_sym_mem_is(Ctx& x) { x.ret[0] = Val(any_sym(x.arg(0).u, x.cu(1, 64, "n"))); }
static void put_text(u64 p, const std::string& s) {
  chk(p, s.size() + 1, true);
  clear_sym(p, s.size() + 1);
  memcpy((void*)p, s.c_str(), s.size() + 1);
}
// int sym_num_text(double v, char* buf): text that the code under test will read back as v
static void h_sym_num_text(Ctx& x) {
  Val v = x.arg(0);
  u64 buf = x.cu(1, 64, "buf");
  char b[64];
  if (!v.e) {
    snprintf(b, sizeof b, "%.10f", bits2d(v.u));
    char* e = b + strlen(b) - 1;
    while (*e == '0') *e-- = 0;
    if (*e == '.') *e = 0;
    if (!strcmp(b, "-0")) strcpy(b, "0");
  } else {
    size_t k = 0;
    for (; k < in_tab.size(); k++) if (in_tab[k].e == v.e) break;
    if (k == in_tab.size()) in_tab.push_back(v);
    snprintf(b, sizeof b, "9000%03zu", k);
  }
  put_text(buf, b);
  x.ret[0] = Val(strlen(b));
}
// double sym_text_num(const char*, size_t n, int* hit)
static void h_sym_text_num(Ctx& x) {
  u64 p = x.cu(0, 64, "p"), n = x.cu(1, 64, "n"), hit = x.cu(2, 64, "hit");
  std::string s((char*)p, n);
  *(int*)hit = 0;
  x.ret[0] = Val(0);
  if (any_sym(p, n)) return;
  if (n == 7 && s.compare(0, 4, "9000") == 0) {
    int k = atoi(s.c_str() + 4);
    if (k < (int)in_tab.size()) { *(int*)hit = 1; x.ret[0] = in_tab[k]; }
  }
}
static void emit_tok(Ctx& x, Val v, int prec, char kind, int len, u64 buf) {
  // The same value printed the same way reads the same.
  size_t id = 0;
  while (id < out_tab.size() && !(out_tab[id].v.e == v.e && out_tab[id].prec == prec && out_tab[id].kind == kind)) id++;
  if (id == out_tab.size()) out_tab.push_back({v, prec, kind});
  std::string s;
  if (len < 2) {
    if (id >= 100) path_error("too many one-character output tokens");
    s = std::string(1, (char)(0x80 + id));
  } else {
    s += (char)0xF0;
    s += (char)(0x80 + id % 100);
    if (len >= 3) s += (char)(0x80 + id / 100 % 100);
    else if (id >= 100) path_error("output token id overflow");
    while ((int)s.size() < len) s += (char)0xFF;
  }
  put_text(buf, s);
  x.ret[0] = Val(s.size());
}
// int sym_out_text(double v, char kind, int prec, char* buf): what printing v produces
static void h_sym_out_text(Ctx& x) {
  Val v = x.arg(0);
  char kind = (char)x.cu(1, 32, "kind");
  int prec = (int)sx(x.cu(2, 32, "prec"), 32);
  u64 buf = x.cu(3, 64, "buf");
  if (!v.e) {
    char b[400], f[16];
    snprintf(f, sizeof f, "%%.%d%c", prec, kind);
    snprintf(b, sizeof b, f, bits2d(v.u));
    put_text(buf, b);
    x.ret[0] = Val(strlen(b));
    return;
  }
  int len = 6;
  if (kind == 'f') {
    if (g_mode == MODE_FP) path_error("formatting in FP mode");
    Z3_ast r = asR(v, false);
    bool neg = decide(r_lt(r, R0()));
    Z3_ast a = neg ? asR(fneg(Val(0, r), false), false) : r;
    double half = 0.5 * pow(10, -prec);
    int digits = 1;
    for (; digits < 9; digits++)
      if (decide(r_lt(a, mk_real_of_double(pow(10, digits) - half)))) break;
    len = digits + neg + (prec ? prec + 1 : 0);
  }
  emit_tok(x, v, prec, kind, len, buf);
}
static void h_sym_out_int(Ctx& x) {
  Val v = x.arg(0);
  u64 buf = x.cu(1, 64, "buf");
  if (!v.e) { put_text(buf, std::to_string((i64)v.u)); x.ret[0] = Val(strlen((char*)buf)); return; }
  emit_tok(x, v, 0, 'i', 4, buf);
}
static int tok_id(u64 p, u64 n) {
  if (n == 0 || any_sym(p, n)) return -1;
  unsigned char* s = (unsigned char*)p;
  int id = -1;
  if (n == 1 && s[0] >= 0x80) id = s[0] - 0x80;
  else if (n >= 2 && s[0] == 0xF0) id = s[1] - 0x80 + (n >= 3 ? 100 * (s[2] - 0x80) : 0);
  return id >= 0 && id < (int)out_tab.size() ? id : -1;
}
// double sym_parse(const char* p, size_t n): the value a printed number stands for (NaN if none)
static void h_sym_parse(Ctx& x) {
  u64 p = x.cu(0, 64, "p"), n = x.cu(1, 64, "n");
  if (n) chk(p, n, false);
  int id = tok_id(p, n);
  if (id >= 0) { x.ret[0] = out_tab[id].v; return; }
  if (any_sym(p, n)) path_error("sym_parse on symbolic text");
  std::string s((char*)p, n);
  char* e;
  double d = strtod(s.c_str(), &e);
  x.ret[0] = Val(d2bits(n && *e == 0 && !isspace((unsigned char)s[0]) ? d : NAN));
}
static void h_sym_parse_int(Ctx& x) {
  u64 p = x.cu(0, 64, "p"), n = x.cu(1, 64, "n");
  int id = tok_id(p, n);
  if (id >= 0 && out_tab[id].kind == 'i') { Val v = out_tab[id].v; x.ret[0] = v.e ? mkI(asBV(v, 64), 64) : v; return; }
  x.ret[0] = Val((u64)atoll(std::string((char*)p, n).c_str()));
}
static void h_sym_prec(Ctx& x) {
  u64 p = x.cu(0, 64, "p"), n = x.cu(1, 64, "n");
  int id = tok_id(p, n);
  int r = -1;
  if (id >= 0) r = out_tab[id].kind == 'f' ? out_tab[id].prec : -1;
  else {
    std::string s((char*)p, n);
    size_t d = s.find('.');
    r = d == s.npos ? 0 : (int)(s.size() - d - 1);
  }
  x.ret[0] = Val((uint32_t)r);
}
static void h_sym_alloc_mark(Ctx& x) { x.ret[0] = Val(alloc_seq); }
static void h_sym_leaks(Ctx& x) {
  u64 mark = x.cu(0, 64, "mark"), n = 0;
  for (auto& c : *chunks) if (!c.second.freed && c.second.seq > mark && c.second.kind != 'f') n++;
  x.ret[0] = Val(n);
}
static void h_sym_print(Ctx& x) {
  if (!opt.debug) return;
  Val v = x.arg(1);
  fprintf(stderr, "[%s] %s\n", cstr_at(x.arg(0).u, "l").c_str(), v.e ? Z3_ast_to_string(C, v.e) : std::to_string(bits2d(v.u)).c_str());
}
static void h_sym_prints(Ctx& x) {
  if (!opt.debug) return;
  u64 p = x.cu(0, 64, "p"), n = x.cu(1, 64, "n");
  for (u64 i = 0; i < n; i++) {
    if (any_sym(p + i, 1)) fprintf(stderr, "{%s}", Z3_ast_to_string(C, get_cell(p + i).e));
    else fputc(*(char*)(p + i), stderr);
  }
  fputc('\n', stderr);
}
static void h_sym_stop(Ctx& x) { path_end("done"); }
static void h_sym_concrete(Ctx& x) { x.ret[0] = Val(x.cu(0, 32, "sym_concrete")); }
static void h_sym_check_mem(Ctx& x) { x.ret[0] = Val(addr_ok(x.arg(0).u, x.arg(1).u)); }
static void h_sym_mode(Ctx& x) { x.ret[0] = Val(1); }

static void init_handlers() {
  auto& h = handlers;
  h["memcpy"] = h["memmove"] = h["__memcpy_chk"] = h["__memmove_chk"] = h_memcpy;
  h["mempcpy"] = h_mempcpy;
  h["memset"] = h_memset;
  h["memcmp"] = h["bcmp"] = h_memcmp;
  h["strlen"] = h_strlen; h["strcmp"] = h_strcmp; h["strncmp"] = h_strncmp; h["memchr"] = h_memchr; h["strchr"] = h_strchr;
  h["malloc"] = h_malloc; h["calloc"] = h_calloc; h["realloc"] = h_realloc; h["free"] = h_free; h["cfree"] = h_free;
  h["_Znwm"] = h["_ZnwmRKSt9nothrow_t"] = h_new;
  h["_Znam"] = h["_ZnamRKSt9nothrow_t"] = h_newa;
  h["_ZnwmSt11align_val_t"] = h_new_al;
  h["_ZdlPv"] = h["_ZdlPvm"] = h["_ZdlPvRKSt9nothrow_t"] = h["_ZdlPvSt11align_val_t"] = h["_ZdlPvmSt11align_val_t"] = h_del;
  h["_ZdaPv"] = h["_ZdaPvm"] = h["_ZdaPvRKSt9nothrow_t"] = h_dela;
  h["abort"] = h["_ZSt9terminatev"] = h["__assert_fail"] = h["__cxa_pure_virtual"] = h["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = h["llvm.trap"] =
      h["__stack_chk_fail"] = h["_ZSt10unexpectedv"] = h["__cxa_call_terminate"] = h["llvm.ubsantrap"] = h_abort;
  h["exit"] = h["_exit"] = h["_Exit"] = h["quick_exit"] = h_exit;
  h["__cxa_allocate_exception"] = h_exc_alloc; h["__cxa_free_exception"] = h_exc_free; h["__cxa_throw"] = h_exc_throw;
  h["__cxa_rethrow"] = h_exc_rethrow; h["__cxa_begin_catch"] = h_exc_begin; h["__cxa_end_catch"] = h_exc_end;
  h["__cxa_get_exception_ptr"] = h_exc_ptr;
  h["__cxa_throw_bad_array_new_length"] = h["__cxa_bad_cast"] = h["__cxa_bad_typeid"] = h_throw;
  h["__errno_location"] = h_errno_loc;
  h["stl_shim_check_failed"] = h_check;
  h["__cxa_atexit"] = h["atexit"] = h["__cxa_thread_atexit"] = h_nop;
  h["sqrt"] = h["sqrtf"] = h_sqrt; h["sin"] = h_sin; h["cos"] = h_cos; h["tan"] = h_tan; h["sincos"] = h_sincos;
  h["atan2"] = h_atan2; h["atan"] = h_atan; h["acos"] = h_acos; h["asin"] = h_asin; h["fabs"] = h["fabsf"] = h_fabs;
  h["pow"] = h_pow; h["hypot"] = h_hypot;
  h["floor"] = h["floorf"] = h_floor; h["ceil"] = h["ceilf"] = h_ceil; h["trunc"] = h["truncf"] = h_trunc;
  h["round"] = h["roundf"] = h_round; h["rint"] = h["nearbyint"] = h_rint; h["fmin"] = h["fminf"] = h_fmin; h["fmax"] = h["fmaxf"] = h_fmax;
  h["fma"] = h_fma; h["copysign"] = h["copysignf"] = h_copysign;

  h["sym_double"] = h_sym_double; h["sym_byte"] = h_sym_byte; h["sym_int"] = h_sym_int; h["sym_choose"] = h_sym_choose;
  h["sym_assume"] = h_sym_assume; h["sym_assert_"] = h_sym_assert; h["sym_assert_near"] = h_assert_near; h["sym_assert_le"] = h_assert_le;
  h["sym_reach"] = h_sym_reach; h["sym_observe"] = h_sym_observe; h["sym_observe_i"] = h_sym_observe_i; h["sym_is_symbolic"] = h_sym_is;
  h["sym_is_symbolic_i"] = h_sym_is; h["sym_mem_is_symbolic"] = h_sym_mem_is; h["sym_num_text"] = h_sym_num_text; h["sym_text_num"] = h_sym_text_num;
  h["sym_out_text"] = h_sym_out_text; h["sym_out_int"] = h_sym_out_int; h["sym_parse"] = h_sym_parse; h["sym_parse_int"] = h_sym_parse_int;
  h["sym_prec"] = h_sym_prec; h["sym_alloc_mark"] = h_sym_alloc_mark; h["sym_leaks"] = h_sym_leaks; h["sym_print"] = h_sym_print;
  h["sym_prints"] = h_sym_prints; h["sym_stop"] = h_sym_stop; h["sym_concrete"] = h_sym_concrete; h["sym_check_mem"] = h_sym_check_mem;
  h["sym_engine"] = h_sym_mode; h["sym_expect_exit"] = h_expect_exit; h["sym_match"] = h_sym_match; h["sym_assert_some"] = h_assert_some;
}
static Handler find_handler(const std::string& n) {
  auto it = handlers.find(n);
  if (it != handlers.end()) return it->second;
  if (n.compare(0, 5, "llvm.") == 0) {
    auto sw = [&](const char* p) { return n.compare(5, strlen(p), p) == 0; };
    if (sw("memcpy") || sw("memmove")) return h_memcpy;
    if (sw("memset")) return h_memset;
    if (sw("eh.typeid.for")) return h_exc_typeid;
    if (sw("lifetime") || sw("dbg") || sw("experimental.noalias") || sw("invariant") || sw("donothing") || sw("va_end") || sw("stackrestore") || sw("prefetch") || sw("sideeffect")) return h_nop;
    if (sw("assume")) return h_assume;
    if (sw("expect") || sw("ssa.copy") || sw("launder") || sw("strip.invariant") || sw("threadlocal.address") || sw("annotation")) return h_first;
    if (sw("umax") || sw("umin") || sw("smax") || sw("smin")) return h_minmax;
    if (sw("abs.")) return h_abs_i;
    if (n.find(".with.overflow") != n.npos) return h_overflow;
    if (n.find(".sat.") != n.npos) return h_sat;
    if (sw("ctpop") || sw("ctlz") || sw("cttz") || sw("bswap") || sw("fshl") || sw("fshr")) return h_bits;
    if (sw("fabs")) return h_fabs;
    if (sw("sqrt")) return h_sqrt;
    if (sw("sin.")) return h_sin;
    if (sw("cos.")) return h_cos;
    if (sw("powi")) return h_powi;
    if (sw("pow.")) return h_pow;
    if (sw("floor")) return h_floor;
    if (sw("ceil")) return h_ceil;
    if (sw("trunc.")) return h_trunc;
    if (sw("round.")) return h_round;
    if (sw("rint") || sw("nearbyint")) return h_rint;
    if (sw("fmuladd") || sw("fma")) return h_fma;
    if (sw("copysign")) return h_copysign;
    if (sw("minnum")) return h_fmin;
    if (sw("maxnum")) return h_fmax;
    if (sw("is.fpclass")) return h_isfpclass;
    if (sw("va_start")) return h_vastart;
    if (sw("va_copy")) return h_vacopy;
    if (sw("objectsize")) return h_objsize;
    if (sw("is.constant")) return h_nop;
    if (sw("stacksave")) return h_stacksave;
    if (sw("trap") || sw("ubsantrap")) return h_abort;
    return h_bad;
  }
    if (n.compare(0, 9, "override$") != 0 && (n.find("__throw_") != n.npos || n.find("ThrowStd") != n.npos)) return h_throw;
  return nullptr;
}
