// Native side of sym.h: the same harness, run on one concrete assignment against
// the code as compiled by an ordinary compiler.  argv: entry inputs-file.
// Output lines: FAIL <label> ..., OBS <label> <value>, REACH <label>, DONE.
#include <dlfcn.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include "sym.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HAVE_ASAN 1
#endif
#endif
extern "C" void stl_shim_check_failed(const char*, const char*, int) __attribute__((noreturn));
static std::map<std::string, std::string> in;
static std::map<std::string, int> cnt;
static FILE* rep;
static int err_fd = -1;
static std::string err_text;
static std::string uniq(const char* n) {
  int k = cnt[n]++;
  return k ? std::string(n) + "." + std::to_string(k) : n;
}
static const std::string* get(const char* n) {
  auto it = in.find(uniq(n));
  return it == in.end() ? nullptr : &it->second;
}
// Failing reads, writes and closes of chosen files (recognised by inode).
struct Fault { std::string name; long after; long pos; };
static std::vector<Fault> rfault, wfault, cfault;
static Fault* hit(std::vector<Fault>& v, int fd) {
  if (v.empty()) return nullptr;
  struct stat a, b;
  if (fstat(fd, &a)) return nullptr;
  for (auto& f : v) if (!stat(f.name.c_str(), &b) && a.st_ino == b.st_ino && a.st_dev == b.st_dev) return &f;
  return nullptr;
}
static bool may_exit;
static void gone(const char* how) {
  fprintf(rep, "REACH stopped\nSTOPPED %s\nDONE\n", how);
  fflush(rep);
  _exit(0);
}
extern "C" {
ssize_t read(int fd, void* p, size_t n) {
  if (Fault* f = hit(rfault, fd)) {
    if (f->pos >= f->after) { errno = EIO; return -1; }
    if (f->pos + (long)n > f->after) n = f->after - f->pos;
    ssize_t r = syscall(SYS_read, fd, p, n);
    if (r > 0) f->pos += r;
    return r;
  }
  return syscall(SYS_read, fd, p, n);
}
ssize_t write(int fd, const void* p, size_t n) {
  if (Fault* f = hit(wfault, fd)) {
    if (f->pos >= f->after && n) { errno = ENOSPC; return -1; }
    if (f->pos + (long)n > f->after) n = f->after - f->pos;
    ssize_t r = syscall(SYS_write, fd, p, n);
    if (r > 0) f->pos += r;
    return r;
  }
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int k) {
  if (!hit(wfault, fd)) return syscall(SYS_writev, fd, v, k);
  ssize_t t = 0;
  for (int i = 0; i < k; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : r;
    t += r;
    if (r < (ssize_t)v[i].iov_len) break;
  }
  return t;
}
int fclose(FILE* f) {
  static int (*real)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  bool bad = hit(cfault, fileno(f));
  int r = real(f);
  if (bad) { errno = EIO; return EOF; }
  return r;
}
void sym_mkdir(const char* name) { mkdir(name, 0755); }
void sym_read_fault(const char* n, long k) { rfault.push_back({n, k, 0}); }
void sym_write_fault(const char* n, long k) { wfault.push_back({n, k, 0}); }
void sym_close_fault(const char* n) { cfault.push_back({n, 0, 0}); }
int sym_content(const char* name, const char** p, size_t* n) {
  struct stat a;
  if (stat(name, &a) || !S_ISREG(a.st_mode)) return 0;
  FILE* f = fopen(name, "r");
  std::string s;
  for (int c; f && (c = fgetc(f)) != EOF;) s += (char)c;
  if (f) fclose(f);
  char* d = (char*)malloc(s.size() + 1);
  memcpy(d, s.data(), s.size());
  *p = d;
  *n = s.size();
  return 1;
}
void sym_expect_exit(int on) {
  may_exit = on;
  signal(SIGABRT, on ? +[](int) { gone("abort"); } : SIG_DFL);
  static bool once = (on_exit(+[](int st, void*) { if (may_exit && st) gone("exit"); }, nullptr), true);
}
void stl_shim_check_failed(const char* w, const char* f, int l) {
  if (may_exit) gone("check");
  fprintf(rep, "CRASH CHECK failed: %s at %s:%d\n", w, f, l);
  fflush(rep);
  _exit(70);
}
double sym_double(const char* name, double lo, double hi) { auto* s = get(name); return s ? strtod(s->c_str(), nullptr) : lo; }
unsigned char sym_byte(const char* name) { auto* s = get(name); return s ? (unsigned char)atoi(s->c_str()) : 0; }
int sym_int(const char* name, int lo, int) { auto* s = get(name); return s ? atoi(s->c_str()) : lo; }
int sym_choose(const char* name, int) { auto* s = get(name); return s ? atoi(s->c_str()) : 0; }
void sym_assume(int c) {
  if (c) return;
  fprintf(rep, "ASSUME-FALSE\n");
  fflush(rep);
  _exit(0);
}
void sym_assert_(int c, const char* l) { if (!c) { fprintf(rep, "FAIL %s\n", l); fflush(rep); } }
void sym_assert_near(double a, double b, double tol, const char* l) {
  bool same = (!std::isfinite(a) || !std::isfinite(b)) ? a == b : std::fabs(a - b) <= tol;
  if (!same) { fprintf(rep, "FAIL %s got=%.10g want=%.10g\n", l, a, b); fflush(rep); }
}
void sym_assert_le(double a, double b, double tol, const char* l) {
  if (!(a <= b + tol)) { fprintf(rep, "FAIL %s got=%.10g limit=%.10g\n", l, a, b); fflush(rep); }
}
int sym_match(const double* a, const double* bs, int n, int m, double tol) {
  for (int j = 0; j < m; j++) {
    bool ok = true;
    for (int i = 0; i < n; i++) {
      double x = a[i], y = bs[j * n + i];
      ok &= (!std::isfinite(x) || !std::isfinite(y)) ? x == y : std::fabs(x - y) <= tol;
    }
    if (ok) return j;
  }
  return -1;
}
void sym_assert_some(const double* a, const double* bs, int n, int m, double tol, const char* l) {
  if (sym_match(a, bs, n, m, tol) >= 0) return;
  fprintf(rep, "FAIL %s none of %d candidates matches", l, m);
  for (int i = 0; i < n; i++) fprintf(rep, " %.8g", a[i]);
  fprintf(rep, "\n");
  fflush(rep);
}
void sym_reach(const char* l) { fprintf(rep, "REACH %s\n", l); }
void sym_observe(const char* l, double v) { fprintf(rep, "OBS %s %.17g\n", l, v); }
void sym_observe_i(const char* l, int v) { fprintf(rep, "OBS %s %d\n", l, v); }
int sym_is_symbolic(double) { return 0; }
int sym_is_symbolic_i(int) { return 0; }
int sym_mem_is_symbolic(const void*, size_t) { return 0; }
int sym_num_text(double v, char* b) {
  snprintf(b, 60, "%.10f", v);
  char* e = b + strlen(b) - 1;
  while (*e == '0') *e-- = 0;
  if (*e == '.') *e = 0;
  if (!strcmp(b, "-0")) strcpy(b, "0");
  return strlen(b);
}
double sym_parse(const char* p, size_t n) {
  std::string s(p, n);
  char* e;
  double d = strtod(s.c_str(), &e);
  return n && *e == 0 && !isspace((unsigned char)s[0]) ? d : NAN;
}
int64_t sym_parse_int(const char* p, size_t n) { return atoll(std::string(p, n).c_str()); }
int sym_prec(const char* p, size_t n) {
  std::string s(p, n);
  size_t d = s.find('.');
  return d == s.npos ? 0 : (int)(s.size() - d - 1);
}
uint64_t sym_alloc_mark() {
#ifdef HAVE_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}
uint64_t sym_leaks(uint64_t m) {
#ifdef HAVE_ASAN
  return __sanitizer_get_current_allocated_bytes() - m;
#else
  return 0;
#endif
}
void sym_print(const char*, double) {}
void sym_prints(const char* p, size_t n) { if (getenv("SYM_SHOW")) { fwrite(p, 1, n, rep); fputc('\n', rep); } }
void sym_stop() { fprintf(rep, "STOP\n"); fflush(rep); _exit(0); }
int sym_concrete(int v) { return v; }
int sym_engine() { return 0; }
void sym_file(const char* name, const char* data, size_t n) {
  for (const char* p = strchr(name + 1, '/'); p; p = strchr(p + 1, '/')) mkdir(std::string(name, p - name).c_str(), 0755);
  FILE* f = fopen(name, "w");
  if (!f) { fprintf(rep, "NOFILE %s\n", name); return; }
  fwrite(data, 1, n, f);
  fclose(f);
}
const char* sym_stderr(size_t* n) {
  fflush(stderr);
  std::cerr.flush();
  std::ifstream f("stderr.txt");
  err_text.assign(std::istreambuf_iterator<char>(f), {});
  *n = err_text.size();
  return err_text.data();
}
void sym_stderr_reset() {
  fflush(stderr);
  if (err_fd < 0) {
    err_fd = open("stderr.txt", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(err_fd, 2);
  }
  if (ftruncate(err_fd, 0)) {}
}
}
int main(int c, char** v) {
  rep = fdopen(dup(1), "w");
  std::ifstream f(v[2]);
  std::string n, val;
  while (f >> n >> val) in[n] = val;
  auto e = (void (*)())dlsym(RTLD_DEFAULT, v[1]);
  if (!e) { fprintf(rep, "NOENTRY\n"); fflush(rep); return 3; }
  e();
  fprintf(rep, "DONE\n");
  fflush(rep);
  _exit(0);
}
