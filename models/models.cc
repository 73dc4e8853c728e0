// IR-level models of library functions whose native code cannot see symbolic
// memory.  Linked into the bitcode only; the native replay uses the real ones.
// `native(f)` names the real function, called on concrete data.
#include <cerrno>
#include <charconv>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <istream>
#include <limits>
#include <sstream>
#include <string>
#include "absl/strings/ascii.h"
#include <array>
#include <iomanip>
#include <memory>
#include <type_traits>
#include "absl/strings/internal/str_format/extension.h"
#define private public
#include "absl/strings/internal/str_format/arg.h"
#undef private
#include "absl/strings/internal/str_format/bind.h"
#include "absl/strings/internal/str_format/parser.h"
#include "absl/strings/match.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_replace.h"
#include "absl/strings/str_split.h"
#include "absl/strings/substitute.h"
#include "../harness/sym.h"

// ---------------------------------------------------------------- numbers
extern "C" double nat_strtod(const char*, char**) asm("native$strtod");
extern "C" float nat_strtof(const char*, char**) asm("native$strtof");

static bool mdl_isdig(char c) { return (unsigned char)(c - '0') < 10; }
// Length of the numeric prefix, and whether any byte of it is symbolic.
static size_t mdl_numspan(const char* s, bool* symbolic) {
  size_t i = 0;
  *symbolic = false;
  for (;; i++) {
    if (sym_mem_is_symbolic(s + i, 1)) *symbolic = true;
    char c = s[i];
    if (mdl_isdig(c) || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E') continue;
    return i;
  }
}
static double mdl_parse(const char* s, char** end, bool is_float, bool* native) {
  *native = false;
  const char* b = s;
  bool any = false;
  for (size_t k = 0;; k++) {
    if (sym_mem_is_symbolic(s + k, 1)) { any = true; break; }
    if (!s[k]) break;
  }
  if (!any) {
    bool sy;
    size_t n = mdl_numspan(s, &sy);
    int hit = 0;
    double v = sym_text_num(s, n, &hit);
    if (hit) { if (end) *end = const_cast<char*>(s + n); return v; }
    if (n == 8 && (s[0] == '-' || s[0] == '+')) {
      v = sym_text_num(s + 1, n - 1, &hit);
      if (hit) { if (end) *end = const_cast<char*>(s + n); return s[0] == '-' ? -v : v; }
    }
    *native = true;
    return 0;
  }
  while (*b == ' ' || (unsigned char)(*b - 9) < 5) b++;
  bool neg = false;
  if (*b == '-' || *b == '+') { neg = *b == '-'; b++; }
  double v = 0;
  size_t nd = 0;
  while (mdl_isdig(*b)) { v = v * 10 + (double)(unsigned char)(*b - '0'); b++; nd++; }
  if (*b == '.') {
    const char* q = b + 1;
    double sc = 1, w = 0;
    size_t nf = 0;
    while (mdl_isdig(*q)) { w = w * 10 + (double)(unsigned char)(*q - '0'); sc *= 10; q++; nf++; }
    if (nd + nf) { v += w / sc; nd += nf; b = q; }
  }
  if (!nd) { if (end) *end = const_cast<char*>(s); return 0; }
  if (*b == 'e' || *b == 'E') {
    const char* q = b + 1;
    bool en = false;
    if (*q == '-' || *q == '+') { en = *q == '-'; q++; }
    if (mdl_isdig(*q)) {
      int e = 0;
      while (mdl_isdig(*q)) { e = e * 10 + sym_concrete((unsigned char)*q - '0'); q++; }
      for (int i = 0; i < e && i < 400; i++) { if (en) v /= 10; else v *= 10; }
      b = q;
    }
  }
  if (end) *end = const_cast<char*>(b);
  double lim = is_float ? (double)std::numeric_limits<float>::max() : std::numeric_limits<double>::max();
  double tiny = is_float ? (double)std::numeric_limits<float>::min() : std::numeric_limits<double>::min();
  if (nd > 30 && v > 0 && v < tiny) errno = ERANGE;
  if (nd > 30 && v > lim) { errno = ERANGE; return neg ? -HUGE_VAL : HUGE_VAL; }
  return neg ? -v : v;
}
// What follows the terminator in memory may be symbolic: the real function gets a copy.
static char mdl_copy_buf[4096];
static const char* mdl_copy(const char* s) {
  size_t n = strlen(s);
  if (n > sizeof mdl_copy_buf - 16) sym_stop();
  memset(mdl_copy_buf, 0, n + 16);
  memcpy(mdl_copy_buf, s, n);
  return mdl_copy_buf;
}
extern "C" double strtod(const char* s, char** e) {
  bool nat;
  double v = mdl_parse(s, e, false, &nat);
  if (!nat) return v;
  char* q;
  v = nat_strtod(mdl_copy(s), &q);
  if (e) *e = const_cast<char*>(s) + (q - mdl_copy_buf);
  return v;
}
extern "C" float strtof(const char* s, char** e) {
  bool nat;
  double v = mdl_parse(s, e, true, &nat);
  if (!nat) return (float)v;
  char* q;
  v = nat_strtof(mdl_copy(s), &q);
  if (e) *e = const_cast<char*>(s) + (q - mdl_copy_buf);
  return (float)v;
}
// Whole numbers. The magnitude goes into *mag; false if there are no digits.
static const char* mdl_whole(const char* s, int base, bool* neg, unsigned long* mag, bool* over) {
  const char* b = s;
  while (*b == ' ' || (unsigned char)(*b - 9) < 5) b++;
  *neg = false;
  if (*b == '-' || *b == '+') { *neg = *b == '-'; b++; }
  if ((base == 0 || base == 16) && b[0] == '0' && (b[1] == 'x' || b[1] == 'X')) { b += 2; base = 16; }
  else if (base == 0) base = *b == '0' ? 8 : 10;
  *mag = 0;
  *over = false;
  size_t n = 0;
  for (;; b++, n++) {
    int d;
    if (mdl_isdig(*b)) d = (unsigned char)(*b - '0');
    else if (base > 10 && (unsigned char)(*b - 'a') < 26) d = (unsigned char)(*b - 'a') + 10;
    else if (base > 10 && (unsigned char)(*b - 'A') < 26) d = (unsigned char)(*b - 'A') + 10;
    else break;
    if (d >= base) break;
    if (n > 10 && *mag > (ULONG_MAX - d) / base) *over = true;
    *mag = *mag * base + d;
  }
  return n ? b : nullptr;
}
static long mdl_signed(const char* s, char** e, int base) {
  bool neg, over;
  unsigned long m;
  const char* b = mdl_whole(s, base, &neg, &m, &over);
  if (e) *e = const_cast<char*>(b ? b : s);
  if (!b) return 0;
  if (over || m > (unsigned long)LONG_MAX + neg) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? -m : m;
}
static unsigned long mdl_unsigned(const char* s, char** e, int base) {
  bool neg, over;
  unsigned long m;
  const char* b = mdl_whole(s, base, &neg, &m, &over);
  if (e) *e = const_cast<char*>(b ? b : s);
  if (!b) return 0;
  if (over) { errno = ERANGE; return ULONG_MAX; }
  return neg ? -m : m;
}
extern "C" {
#define MDL_WHOLE(R, NAME, F) R NAME(const char* s, char** e, int base) noexcept { return F(s, e, base); }
MDL_WHOLE(long, strtol, mdl_signed)
MDL_WHOLE(long long, strtoll, mdl_signed)
MDL_WHOLE(unsigned long, strtoul, mdl_unsigned)
MDL_WHOLE(unsigned long long, strtoull, mdl_unsigned)
long lround(double v) { return (long)__builtin_round(v); }
long long llround(double v) { return (long long)__builtin_round(v); }
long lrint(double v) { return (long)__builtin_rint(v); }
long long llrint(double v) { return (long long)__builtin_rint(v); }
long lroundf(float v) { return (long)__builtin_roundf(v); }
double fmod(double a, double b) { return a - b * __builtin_trunc(a / b); }
float fmodf(float a, float b) { return a - b * __builtin_truncf(a / b); }
double remainder(double a, double b) { return a - b * __builtin_rint(a / b); }
double modf(double v, double* i) { *i = __builtin_trunc(v); return v - *i; }
double ldexp(double v, int n) { for (; n > 0; n--) v *= 2; for (; n < 0; n++) v /= 2; return v; }
double scalbn(double v, int n) { return ldexp(v, n); }
double cabs(double _Complex c) { return __builtin_hypot(__builtin_creal(c), __builtin_cimag(c)); }
}
namespace std {
template <class T>
static from_chars_result mdl_from_chars(const char* b, const char* e, T& v) {
  string s(b, e);
  if (s.empty() || s[0] == '+' || s[0] == ' ' || (unsigned char)(s[0] - 9) < 5) return {b, errc::invalid_argument};
  char* q;
  int was = errno;
  errno = 0;
  T r = sizeof(T) == 4 ? (T)strtof(s.c_str(), &q) : (T)strtod(s.c_str(), &q);
  bool over = errno != 0;
  errno = was;
  if (q == s.c_str()) return {b, errc::invalid_argument};
  b += q - s.c_str();
  if (over) return {b, errc::result_out_of_range};
  v = r;
  return {b, errc{}};
}
from_chars_result from_chars(const char* b, const char* e, double& v, chars_format) noexcept { return mdl_from_chars(b, e, v); }
from_chars_result from_chars(const char* b, const char* e, float& v, chars_format) noexcept { return mdl_from_chars(b, e, v); }
// Any function of the content will do; one that does not look at it suits symbolic content.
size_t _Hash_bytes(const void*, size_t n, size_t seed) { return n * 0x9E3779B97F4A7C15ull ^ seed; }
size_t _Fnv_hash_bytes(const void*, size_t n, size_t seed) { return n * 0x9E3779B97F4A7C15ull ^ seed; }
}  // namespace std

namespace absl {
ABSL_NAMESPACE_BEGIN
static bool mdl_in(char c, string_view s) {
  for (char k : s) if (k == c) return true;
  return false;
}
static string_view::size_type mdl_scan(string_view t, string_view set, size_t pos, bool forward, bool want) {
  if (forward) {
    for (size_t i = pos; i < t.size(); i++) if (mdl_in(t.data()[i], set) == want) return i;
  } else {
    for (size_t i = t.size() ? std::min(pos, t.size() - 1) + 1 : 0; i-- > 0;) if (mdl_in(t.data()[i], set) == want) return i;
  }
  return string_view::npos;
}
string_view::size_type string_view::find(string_view s, size_type pos) const noexcept {
  for (size_t i = pos; i + s.size() <= size(); i++) if (memcmp(data() + i, s.data(), s.size()) == 0) return i;
  return npos;
}
string_view::size_type string_view::find(char c, size_type pos) const noexcept { return mdl_scan(*this, string_view(&c, 1), pos, true, true); }
string_view::size_type string_view::rfind(string_view s, size_type pos) const noexcept {
  if (size() < s.size()) return npos;
  for (size_t i = std::min(pos, size() - s.size()) + 1; i-- > 0;) if (memcmp(data() + i, s.data(), s.size()) == 0) return i;
  return npos;
}
string_view::size_type string_view::rfind(char c, size_type pos) const noexcept { return mdl_scan(*this, string_view(&c, 1), pos, false, true); }
string_view::size_type string_view::find_first_of(string_view s, size_type pos) const noexcept { return mdl_scan(*this, s, pos, true, true); }
string_view::size_type string_view::find_last_of(string_view s, size_type pos) const noexcept { return mdl_scan(*this, s, pos, false, true); }
string_view::size_type string_view::find_first_not_of(string_view s, size_type pos) const noexcept { return mdl_scan(*this, s, pos, true, false); }
string_view::size_type string_view::find_first_not_of(char c, size_type pos) const noexcept { return mdl_scan(*this, string_view(&c, 1), pos, true, false); }
string_view::size_type string_view::find_last_not_of(string_view s, size_type pos) const noexcept { return mdl_scan(*this, s, pos, false, false); }
string_view::size_type string_view::find_last_not_of(char c, size_type pos) const noexcept { return mdl_scan(*this, string_view(&c, 1), pos, false, false); }

static char mdl_low(char c) { return (unsigned char)(c - 'A') < 26 ? c + 32 : c; }
bool EqualsIgnoreCase(string_view a, string_view b) noexcept {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (mdl_low(a[i]) != mdl_low(b[i])) return false;
  return true;
}
bool StartsWithIgnoreCase(string_view a, string_view b) noexcept { return a.size() >= b.size() && EqualsIgnoreCase(a.substr(0, b.size()), b); }
bool EndsWithIgnoreCase(string_view a, string_view b) noexcept { return a.size() >= b.size() && EqualsIgnoreCase(a.substr(a.size() - b.size()), b); }
void AsciiStrToLower(std::string* s) { for (auto& c : *s) c = mdl_low(c); }
void AsciiStrToUpper(std::string* s) { for (auto& c : *s) c = (unsigned char)(c - 'a') < 26 ? c - 32 : c; }

static bool mdl_space(char c) { return c == ' ' || (unsigned char)(c - 9) < 5; }
template <class T>
static bool mdl_simple(string_view s, T* out) {
  *out = 0;
  while (!s.empty() && mdl_space(s.front())) s.remove_prefix(1);
  while (!s.empty() && mdl_space(s.back())) s.remove_suffix(1);
  if (!s.empty() && s.front() == '+') {
    s.remove_prefix(1);
    if (!s.empty() && s.front() == '-') return false;
  }
  if (s.empty() || s.front() == '+' || mdl_in('x', s) || mdl_in('X', s)) return false;
  std::string t(s.data(), s.size());
  char* q;
  int was = errno;
  T r = sizeof(T) == 4 ? (T)strtof(t.c_str(), &q) : (T)strtod(t.c_str(), &q);
  errno = was;
  if (q == t.c_str()) return false;
  *out = r;
  return q == t.c_str() + t.size();
}
bool SimpleAtod(string_view s, double* out) { return mdl_simple(s, out); }
bool SimpleAtof(string_view s, float* out) { return mdl_simple(s, out); }
namespace numbers_internal {
template <class T>
static bool mdl_int(string_view s, T* out, int base, bool sign) {
  *out = 0;
  while (!s.empty() && mdl_space(s.front())) s.remove_prefix(1);
  while (!s.empty() && mdl_space(s.back())) s.remove_suffix(1);
  if (s.empty() || (!sign && s.front() == '-')) return false;
  std::string t(s.data(), s.size());
  bool neg, over;
  unsigned long m;
  const char* e = mdl_whole(t.c_str(), base, &neg, &m, &over);
  if (!e || e != t.c_str() + t.size()) return false;
  unsigned long top = (unsigned long)std::numeric_limits<T>::max();
  if (neg) top++;
  if (over || m > top) { *out = neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); return false; }
  *out = neg ? (T)-m : (T)m;
  return true;
}
bool safe_strto32_base(string_view s, int32_t* v, int base) { return mdl_int(s, v, base, true); }
bool safe_strto64_base(string_view s, int64_t* v, int base) { return mdl_int(s, v, base, true); }
bool safe_strtou32_base(string_view s, uint32_t* v, int base) { return mdl_int(s, v, base, false); }
bool safe_strtou64_base(string_view s, uint64_t* v, int base) { return mdl_int(s, v, base, false); }
}  // namespace numbers_internal
namespace numbers_internal {
size_t nat_six(double d, char* b) asm("native$_ZN4absl7debian316numbers_internal17SixDigitsToBufferEdPc");
size_t SixDigitsToBuffer(double d, char* const buffer) {
  if (sym_is_symbolic(d)) return sym_out_text(d, 'g', 6, buffer);
  return nat_six(d, buffer);
}
char* nat_fi32(int32_t, char*) asm("native$_ZN4absl7debian316numbers_internal15FastIntToBufferEiPc");
char* FastIntToBuffer(int32_t i, char* b) {
  if (sym_is_symbolic_i(i)) return b + sym_out_int(i, b);
  return nat_fi32(i, b);
}
}  // namespace numbers_internal

// ---------------------------------------------------------------- strings
using MdlReps = std::initializer_list<std::pair<absl::string_view, absl::string_view>>;
static int mdl_replace(absl::string_view s, MdlReps reps, std::string* out) {
  int count = 0;
  for (size_t i = 0; i < s.size();) {
    const std::pair<absl::string_view, absl::string_view>* best = nullptr;
    for (auto& r : reps) {
      size_t n = r.first.size(), k = 0;
      if (n == 0 || n > s.size() - i || (best && best->first.size() >= n)) continue;
      while (k < n && s[i + k] == r.first[k]) k++;
      if (k == n) best = &r;
    }
    if (best) { out->append(best->second.data(), best->second.size()); i += best->first.size(); count++; }
    else out->push_back(s[i++]);
  }
  return count;
}
std::string StrReplaceAll(absl::string_view s, MdlReps reps) {
  std::string r;
  mdl_replace(s, reps, &r);
  return r;
}
int StrReplaceAll(MdlReps reps, std::string* t) {
  std::string r;
  int n = mdl_replace(*t, reps, &r);
  *t = r;
  return n;
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b) {
  std::string r(a.data(), a.size());
  r.append(b.data(), b.size());
  return r;
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) {
  std::string r(a.data(), a.size());
  r.append(b.data(), b.size());
  r.append(c.data(), c.size());
  return r;
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) {
  std::string r(a.data(), a.size());
  r.append(b.data(), b.size());
  r.append(c.data(), c.size());
  r.append(d.data(), d.size());
  return r;
}
void StrAppend(std::string* r, const AlphaNum& a) { r->append(a.data(), a.size()); }
void StrAppend(std::string* r, const AlphaNum& a, const AlphaNum& b) { r->append(a.data(), a.size()); r->append(b.data(), b.size()); }
void StrAppend(std::string* r, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) {
  StrAppend(r, a, b);
  StrAppend(r, c);
}
void StrAppend(std::string* r, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) {
  StrAppend(r, a, b);
  StrAppend(r, c, d);
}
namespace strings_internal {
std::string CatPieces(std::initializer_list<absl::string_view> p) {
  std::string r;
  for (auto s : p) r.append(s.data(), s.size());
  return r;
}
void AppendPieces(std::string* r, std::initializer_list<absl::string_view> p) {
  for (auto s : p) r->append(s.data(), s.size());
}
}  // namespace strings_internal

static string_view mdl_find(string_view t, string_view d, size_t pos) {
  if (d.empty() && t.length() > 0) return string_view(t.data() + pos + 1, 0);
  for (size_t i = pos; i + d.size() <= t.size(); i++)
    if (memcmp(t.data() + i, d.data(), d.size()) == 0) return string_view(t.data() + i, d.size());
  return string_view(t.data() + t.size(), 0);
}
ByString::ByString(absl::string_view sp) : delimiter_(sp) {}
absl::string_view ByString::Find(absl::string_view text, size_t pos) const {
  return mdl_find(text, delimiter_, pos);
}
absl::string_view ByChar::Find(absl::string_view text, size_t pos) const {
  for (size_t i = pos; i < text.size(); i++)
    if (text[i] == c_) return text.substr(i, 1);
  return absl::string_view(text.data() + text.size(), 0);
}
absl::string_view ByAnyChar::Find(absl::string_view text, size_t pos) const {
  for (size_t i = pos; i < text.size(); i++)
    for (char c : delimiters_)
      if (text[i] == c) return text.substr(i, 1);
  return absl::string_view(text.data() + text.size(), 0);
}

namespace substitute_internal {
void SubstituteAndAppendArray(std::string* out, absl::string_view f, const absl::string_view* args, size_t n) {
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '$') { out->push_back(f[i]); continue; }
    if (i + 1 >= f.size()) return;
    char c = f[++i];
    if (c >= '0' && c <= '9') {
      size_t k = c - '0';
      if (k >= n) return;
      out->append(args[k].data(), args[k].size());
    } else if (c == '$') {
      out->push_back('$');
    } else {
      return;
    }
  }
}
}  // namespace substitute_internal

// ---------------------------------------------------------------- StrFormat
namespace str_format_internal {
std::string nat_pack(UntypedFormatSpecImpl, absl::Span<const FormatArgImpl>) asm(
    "native$_ZN4absl7debian319str_format_internal10FormatPackB5cxx11ENS1_21UntypedFormatSpecImplENS0_4SpanIKNS1_13FormatArgImplEEE");
struct MdlArg { char data[8]; FormatArgImpl::Dispatcher disp; };
template <typename T> static bool mdl_is(const MdlArg* a) { return a->disp == (FormatArgImpl::Dispatcher)&FormatArgImpl::Dispatch<T>; }
template <typename T> static T mdl_val(const MdlArg* a) { T v; memcpy(&v, a->data, sizeof v); return v; }
// The text of an argument that is a string or an integer; 0 = another kind.
static int mdl_arg_text(const MdlArg* a, string_view* s, int64_t* i, bool* symbolic) {
  *symbolic = sym_mem_is_symbolic(a->data, 8);
  if (mdl_is<std::string>(a)) *s = *mdl_val<const std::string*>(a);
  else if (mdl_is<string_view>(a)) *s = *mdl_val<const string_view*>(a);
  else if (mdl_is<const char*>(a)) *s = mdl_val<const char*>(a);
  else {
    *symbolic = sym_mem_is_symbolic(a->data, mdl_is<int>(a) || mdl_is<unsigned>(a) ? 4 : mdl_is<char>(a) || mdl_is<bool>(a) ? 1 : 8);
    if (mdl_is<int>(a)) *i = mdl_val<int>(a);
    else if (mdl_is<unsigned>(a)) *i = mdl_val<unsigned>(a);
    else if (mdl_is<long>(a)) *i = mdl_val<long>(a);
    else if (mdl_is<unsigned long>(a)) *i = (int64_t)mdl_val<unsigned long>(a);
    else if (mdl_is<long long>(a)) *i = mdl_val<long long>(a);
    else if (mdl_is<unsigned long long>(a)) *i = (int64_t)mdl_val<unsigned long long>(a);
    else if (mdl_is<char>(a)) *i = mdl_val<char>(a);
    else return 0;
    return mdl_is<char>(a) ? 3 : 2;
  }
  *symbolic = *symbolic || sym_mem_is_symbolic(s->data(), s->size());
  return 1;
}
struct MdlConsumer {
  std::string* out;
  const FormatArgImpl* args;
  size_t n, next;
  bool ok;
  bool Append(string_view s) { out->append(s.data(), s.size()); return true; }
  bool ConvertOne(const UnboundConversion& c, string_view text) {
    size_t k = c.arg_position > 0 ? c.arg_position - 1 : next++;
    if (k >= n) { ok = false; return false; }
    int w = -1, p = -1;
    if (c.width.is_from_arg() || c.precision.is_from_arg()) { ok = false; return false; }
    w = c.width.value();
    p = c.precision.value();
    const MdlArg* a = reinterpret_cast<const MdlArg*>(args + k);
    std::string spec = "%" + std::string(text.data(), text.size());
    string_view txt;
    int64_t num;
    bool sy;
    int kind = mdl_arg_text(a, &txt, &num, &sy);
    if (!sy) {
      out->append(nat_pack(UntypedFormatSpecImpl(string_view(spec)), absl::Span<const FormatArgImpl>(args + k, 1)));
      return true;
    }
    char conv = FormatConversionCharToChar(c.conv);
    double v;
    memcpy(&v, a->data, 8);
    char buf[64];
    if (p < 0) p = 6;
    if (conv == 'F') conv = 'f';
    size_t len = 0;
    if (kind == 1 && conv == 's') {
    } else if (kind == 3 && (conv == 'c')) {
      buf[0] = (char)num;
      len = 1;
    } else if (kind >= 2 && (conv == 'd' || conv == 'i' || conv == 'u')) {
      if (c.precision.value() >= 0) { ok = false; return false; }
      len = sym_out_int(num, buf);
    } else if (kind == 0 && mdl_is<double>(a) && (conv == 'f' || conv == 'g' || conv == 'e')) {
      len = sym_out_text(v, conv, p, buf);
    } else { ok = false; return false; }
    bool left = false, plus = false, space = false, zero = false;
    for (char f : text) {
      if (f == '-') left = true;
      else if (f == '+') plus = true;
      else if (f == ' ') space = true;
      else if (f == '0') zero = true;
      else if (f == '#') continue;
      else break;
    }
    std::string body;
    if (kind == 0 && (plus || space) && v >= 0) body += plus ? '+' : ' ';
    if (kind == 2 && (plus || space) && num >= 0) body += plus ? '+' : ' ';
    if (kind == 1) body.append(txt.data(), c.precision.value() >= 0 && (size_t)c.precision.value() < txt.size() ? c.precision.value() : txt.size());
    else body.append(buf, len);
    if (w > (int)body.size()) {
      size_t pad = w - body.size();
      if (left) body.append(pad, ' ');
      else body.insert(0, pad, zero ? '0' : ' ');
    }
    out->append(body);
    return true;
  }
};
// The run time parser of format strings (abseil 20220623), with the bytes of conversions made concrete.
static bool mdl_spec_char(char* c) {
  unsigned char u = *c;
  bool known = ((u >= '0') & (u <= '9')) | ((u >= 'a') & (u <= 'z')) | ((u >= 'A') & (u <= 'Z')) | (u == '-') | (u == '+') |
               (u == ' ') | (u == '#') | (u == '.') | (u == '*') | (u == '$');
  if (known) *c = (char)sym_concrete(u);
  else *c = 1;
  return known;
}
struct MdlSpec {
  const char *p, *end;
  bool bad = false;
  char next() {
    if (p == end) { bad = true; return 1; }
    char c = *p++;
    mdl_spec_char(&c);
    return c;
  }
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  int digits(char* c) {
    int v = *c - '0', n = 9;
    for (;;) {
      if (p == end) break;
      *c = next();
      if (!dig(*c)) break;
      if (!--n) break;
      v = 10 * v + *c - '0';
    }
    return v;
  }
};
static const char* mdl_consume(const char* pos, const char* end, UnboundConversion* conv, int* next_arg, bool positional) {
  MdlSpec s{pos, end};
  char c;
  if (positional) {
    c = s.next();
    if (s.bad || c < '1' || c > '9') return nullptr;
    conv->arg_position = s.digits(&c);
    if (c != '$') return nullptr;
  }
  c = s.next();
  if (s.bad) return nullptr;
  if (c < 'A') {
    while (c <= '0') {
      Flags f;
      if (c == '-') f = Flags::kLeft;
      else if (c == '+') f = Flags::kShowPos;
      else if (c == ' ') f = Flags::kSignCol;
      else if (c == '#') f = Flags::kAlt;
      else if (c == '0') f = Flags::kZero;
      else break;
      conv->flags = conv->flags | f;
      c = s.next();
      if (s.bad) return nullptr;
    }
    if (MdlSpec::dig(c)) {
      int w = s.digits(&c);
      if (!positional && c == '$') {
        if (*next_arg != 0) return nullptr;
        *next_arg = -1;
        return mdl_consume(pos, end, conv, next_arg, true);
      }
      conv->flags = conv->flags | Flags::kNonBasic;
      conv->width.set_value(w);
    } else if (c == '*') {
      conv->flags = conv->flags | Flags::kNonBasic;
      c = s.next();
      if (s.bad) return nullptr;
      if (positional) {
        if (c < '1' || c > '9') return nullptr;
        conv->width.set_from_arg(s.digits(&c));
        if (c != '$') return nullptr;
        c = s.next();
        if (s.bad) return nullptr;
      } else {
        conv->width.set_from_arg(++*next_arg);
      }
    }
    if (c == '.') {
      conv->flags = conv->flags | Flags::kNonBasic;
      c = s.next();
      if (s.bad) return nullptr;
      if (MdlSpec::dig(c)) {
        conv->precision.set_value(s.digits(&c));
      } else if (c == '*') {
        c = s.next();
        if (s.bad) return nullptr;
        if (positional) {
          if (c < '1' || c > '9') return nullptr;
          conv->precision.set_from_arg(s.digits(&c));
          if (c != '$') return nullptr;
          c = s.next();
          if (s.bad) return nullptr;
        } else {
          conv->precision.set_from_arg(++*next_arg);
        }
      } else {
        conv->precision.set_value(0);
      }
    }
  }
  auto is = [](const char* set, char c) { for (; *set; set++) if (*set == c) return true; return false; };
  if (is("hlLjztq", c)) {
    char m = c;
    c = s.next();
    if (s.bad) return nullptr;
    if ((m == 'h' || m == 'l') && c == m) {
      c = s.next();
      if (s.bad) return nullptr;
    }
  }
  if (c == 'f') conv->conv = FormatConversionCharInternal::f;
  else if (is("csdiouxXFeEgGaAnp", c)) conv->conv = FormatConversionCharInternal::d;  // some other kind
  else return nullptr;
  if (!positional) conv->arg_position = ++*next_arg;
  return s.p;
}
struct ParsedFormatBase::ParsedFormatConsumer {
  ParsedFormatBase* to;
  size_t at = 0;
  void add(const char* s, size_t n, const UnboundConversion* c) {
    if (!n) return;
    memcpy(to->data_.get() + at, s, n);
    at += n;
    if (c) to->items_.push_back({true, at, *c});
    else if (!to->items_.empty() && !to->items_.back().is_conversion) to->items_.back().text_end = at;
    else to->items_.push_back({false, at, {}});
  }
};
ParsedFormatBase::ParsedFormatBase(string_view f, bool allow_ignored, std::initializer_list<FormatConversionCharSet> convs)
    : has_error_(true), data_(f.empty() ? nullptr : new char[f.size()]) {
  ParsedFormatConsumer o{this};
  int next_arg = 0;
  const char *p = f.data(), *end = p + f.size();
  while (p != end) {
    if (*p != '%') { o.add(p++, 1, nullptr); continue; }
    if (++p == end) return;
    if (*p == '%') { o.add(p++, 1, nullptr); continue; }
    char c = *p;
    mdl_spec_char(&c);
    bool alpha = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
    if (next_arg < 0 && alpha && c != 'h' && c != 'l' && c != 'L' && c != 'j' && c != 'z' && c != 't' && c != 'q') return;
    UnboundConversion conv;
    const char* q = mdl_consume(p, end, &conv, &next_arg, next_arg < 0);
    if (!q) return;
    std::string spec;
    for (; p != q; p++) spec += (char)sym_concrete((unsigned char)*p);
    o.add(spec.data(), spec.size(), &conv);
  }
  std::vector<char> used(convs.size(), 0);
  for (auto& i : items_) {
    if (!i.is_conversion) continue;
    if (i.conv.precision.is_from_arg() || i.conv.width.is_from_arg()) return;
    int k = i.conv.arg_position;
    if (k < 1 || k > (int)convs.size() || i.conv.conv != FormatConversionCharInternal::f) return;
    used[k - 1] = 1;
  }
  for (char u : used) if (!u && !allow_ignored) return;
  has_error_ = false;
}
std::string FormatPack(const UntypedFormatSpecImpl f, absl::Span<const FormatArgImpl> args) {
  bool any = f.has_parsed_conversion();
  for (size_t i = 0; i < args.size(); i++) {
    string_view txt;
    int64_t num;
    bool sy;
    mdl_arg_text(reinterpret_cast<const MdlArg*>(&args[i]), &txt, &num, &sy);
    if (sy) any = true;
  }
  if (!any) return nat_pack(f, args);
  std::string r;
  MdlConsumer c{&r, args.data(), args.size(), 0, true};
  bool ok = f.has_parsed_conversion() ? f.parsed_conversion()->ProcessFormat(c)
                                      : ParseFormatString(f.str(), c);
  if (!ok || !c.ok) sym_stop();
  return r;
}
}  // namespace str_format_internal
ABSL_NAMESPACE_END
}  // namespace absl

// ---------------------------------------------------------------- streams
namespace std {
template <>
basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& s, char delim) {
  ios_base::iostate err = ios_base::goodbit;
  bool got = false;
  s.clear();
  if (in.good()) {
    auto* sb = in.rdbuf();
    try {
      for (;;) {
        int c = sb->sbumpc();
        if (c == -1) { err |= ios_base::eofbit; break; }
        got = true;
        if ((char)c == delim) break;
        s.push_back((char)c);
      }
    } catch (...) {
      err |= ios_base::badbit;
    }
  }
  if (!got) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
static ostream& mdl_num(ostream& os, double v, bool sym) {
  char b[512];
  int prec = (int)os.precision();
  auto fl = os.flags() & ios_base::floatfield;
  char k = fl == ios_base::fixed ? 'f' : fl == ios_base::scientific ? 'e' : 'g';
  int n = sym_out_text(v, k, prec, b);
  return os.write(b, n);
}
template <>
template <>
ostream& ostream::_M_insert(double v) { return mdl_num(*this, v, true); }
static ostream& mdl_int(ostream& os, long v) {
  char b[64];
  int n = sym_out_int(v, b);
  return os.write(b, n);
}
template <>
template <>
ostream& ostream::_M_insert(long v) { return mdl_int(*this, v); }
template <>
template <>
ostream& ostream::_M_insert(unsigned long v) { return mdl_int(*this, (long)v); }
template <>
ostream& ostream::operator<<(int v) { return mdl_int(*this, v); }
}  // namespace std

// ---------------------------------------------------------------- stderr capture
static std::string* mdl_err;
extern "C" const char* sym_stderr(size_t* n) {
  if (!mdl_err) mdl_err = new std::string;
  *n = mdl_err->size();
  return mdl_err->data();
}
extern "C" void sym_stderr_reset();
namespace {
struct ErrBuf : std::streambuf {
  int_type overflow(int_type c) override {
    if (c != traits_type::eof()) mdl_err->push_back((char)c);
    return 0;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    mdl_err->append(s, n);
    return n;
  }
};
}  // namespace
extern "C" void sym_stderr_reset() {
  static ErrBuf* eb;
  if (!mdl_err) mdl_err = new std::string;
  mdl_err->clear();
  if (!eb) {
    eb = new ErrBuf;
    std::cerr.rdbuf(eb);
    std::clog.rdbuf(eb);
  }
}
static void mdl_vfmt(std::string* o, const char* f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { o->push_back(*f); continue; }
    f++;
    std::string spec = "%";
    int prec = -1, l = 0, width = -1;
    bool left = false, zero = false;
    for (;; f++) {
      char c = *f;
      if (c == '-') left = true;
      else if (c == '0' && width < 0) zero = true;
      else if (c == '+' || c == ' ' || c == '#') spec += c;
      else break;
    }
    if (*f == '*') { width = va_arg(ap, int); f++; }
    else while (mdl_isdig(*f)) width = (width < 0 ? 0 : width) * 10 + (*f++ - '0');
    if (*f == '.') {
      f++;
      prec = 0;
      if (*f == '*') { prec = va_arg(ap, int); f++; }
      else while (mdl_isdig(*f)) prec = prec * 10 + (*f++ - '0');
    }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { if (*f != 'h') l++; f++; }
    std::string body;
    char b[64];
    switch (*f) {
      case '%': body = "%"; break;
      case 'c': body.push_back((char)va_arg(ap, int)); break;
      case 's': {
        const char* s = va_arg(ap, const char*);
        if (!s) s = "(null)";
        for (size_t i = 0; (prec < 0 || i < (size_t)prec) && s[i]; i++) body.push_back(s[i]);
        break;
      }
      case 'd': case 'i': case 'u': {
        long v = l ? va_arg(ap, long) : *f == 'u' ? (long)va_arg(ap, unsigned) : (long)va_arg(ap, int);
        body.append(b, sym_out_int(v, b));
        break;
      }
      case 'x': {
        unsigned long v = l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
        do { body.insert(0, 1, "0123456789abcdef"[v & 15]); v >>= 4; } while (v);
        break;
      }
      case 'f': case 'g': case 'e': {
        double v = va_arg(ap, double);
        body.append(b, sym_out_text(v, *f, prec < 0 ? 6 : prec, b));
        break;
      }
      default: sym_stop();
    }
    if ((int)body.size() < width) {
      if (left) body.append(width - body.size(), ' ');
      else body.insert(0, width - body.size(), zero ? '0' : ' ');
    }
    *o += body;
  }
}
extern "C" {
static void mdl_write(FILE* f, const char* s, size_t n) {
  if (!mdl_err) mdl_err = new std::string;
  if (f == stderr) mdl_err->append(s, n);
}
int vfprintf(FILE* f, const char* fmt, va_list ap) {
  std::string s;
  mdl_vfmt(&s, fmt, ap);
  mdl_write(f, s.data(), s.size());
  return s.size();
}
int fprintf(FILE* f, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
int printf(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = vfprintf(stdout, fmt, ap);
  va_end(ap);
  return r;
}
int vsnprintf(char* b, size_t n, const char* fmt, va_list ap) {
  std::string s;
  mdl_vfmt(&s, fmt, ap);
  if (n) {
    size_t k = s.size() < n - 1 ? s.size() : n - 1;
    memcpy(b, s.data(), k);
    b[k] = 0;
  }
  return s.size();
}
int snprintf(char* b, size_t n, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = vsnprintf(b, n, fmt, ap);
  va_end(ap);
  return r;
}
int vsprintf(char* b, const char* fmt, va_list ap) { return vsnprintf(b, 1 << 20, fmt, ap); }
int sprintf(char* b, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = vsnprintf(b, 1 << 20, fmt, ap);
  va_end(ap);
  return r;
}
int fputs(const char* s, FILE* f) { mdl_write(f, s, strlen(s)); return 1; }
int fputc(int c, FILE* f) { char k = c; mdl_write(f, &k, 1); return (unsigned char)c; }
int putc(int c, FILE* f) { return fputc(c, f); }
int puts(const char* s) { return 1; }
size_t fwrite(const void* p, size_t a, size_t b, FILE* f) { mdl_write(f, (const char*)p, a * b); return b; }
int fflush(FILE*) { return 0; }
}

// ---------------------------------------------------------------- exceptions
namespace std {
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
}  // namespace std

// ---------------------------------------------------------------- files
// The only files are those declared with sym_file and those the code itself writes, all in the working directory or
// in directories declared files lie in.
namespace {
struct VFile {
  std::string name;
  std::string* data;
  bool dir, close_fault, has_fault, has_room, full;
  long read_fault, room;   // may be symbolic
};
VFile mdl_files[64];
int mdl_nfiles;
struct VOpen { VFile* f; size_t pos; bool used, out; };
VOpen mdl_open[64];
VOpen* of(const void* p) {
  // __basic_file<char> holds {__c_file* _M_cfile; bool _M_cfile_created;}
  size_t k = *(const size_t*)p;
  return k ? &mdl_open[k - 1] : nullptr;
}
bool mdl_is_dir(const std::string& nm);
std::string mdl_path(const char* name) {
  std::string nm(name);
  for (size_t k; (k = nm.find("//")) != std::string::npos;) nm.erase(k, 1);
  for (size_t k; (k = nm.find("/./")) != std::string::npos;) nm.erase(k, 2);
  while (nm.compare(0, 2, "./") == 0) nm.erase(0, 2);
  for (size_t k; (k = nm.find("/../")) != std::string::npos && k > 0;) {   // leads back only from where there is a place
    if (!mdl_is_dir(nm.substr(0, k))) break;
    size_t b = nm.rfind('/', k - 1);
    b = b == std::string::npos ? 0 : b + 1;
    nm.erase(b, k + 4 - b);
  }
  return nm;
}
VFile* mdl_find(const std::string& nm) {
  for (int i = 0; i < mdl_nfiles; i++) if (mdl_files[i].name == nm) return &mdl_files[i];
  return nullptr;
}
VFile* mdl_add(const std::string& nm) {
  if (VFile* f = mdl_find(nm)) return f;
  mdl_files[mdl_nfiles] = VFile{nm, nullptr, false, false, false, false, false, -1, -1};
  return &mdl_files[mdl_nfiles++];
}
bool mdl_is_dir(const std::string& nm) {
  if (nm.empty() || nm == "." || nm == "./") return true;
  std::string d = nm[nm.size() - 1] == '/' ? nm : nm + "/";
  for (int i = 0; i < mdl_nfiles; i++) {
    if (mdl_files[i].data && mdl_files[i].name.compare(0, d.size(), d) == 0) return true;
    if (mdl_files[i].dir && (mdl_files[i].name + "/").compare(0, d.size(), d) == 0) return true;
  }
  return false;
}
}  // namespace
extern "C" {
void sym_file(const char* name, const char* data, size_t n) { mdl_add(mdl_path(name))->data = new std::string(data, n); }
void sym_mkdir(const char* name) { mdl_add(mdl_path(name))->dir = true; }
void sym_read_fault(const char* name, long after) {
  VFile* f = mdl_add(mdl_path(name));
  f->has_fault = true;
  f->read_fault = after;
}
void sym_write_fault(const char* name, long room) {
  VFile* f = mdl_add(mdl_path(name));
  f->has_room = true;
  f->room = room;
}
void sym_close_fault(const char* name) { mdl_add(mdl_path(name))->close_fault = true; }
int sym_content(const char* name, const char** p, size_t* n) {
  VFile* f = mdl_find(mdl_path(name));
  if (!f || !f->data) return 0;
  *p = f->data->data();
  *n = f->data->size();
  return 1;
}
}
namespace std {
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
__basic_file<char>* __basic_file<char>::open(const char* name, ios_base::openmode m, int) {
  if (_M_cfile || !*name) return nullptr;
  std::string nm = mdl_path(name);
  bool out = m & (ios_base::out | ios_base::app), app = m & ios_base::app;
  bool trunc = out && !app && ((m & ios_base::trunc) || !(m & ios_base::in));
  VFile* f = mdl_find(nm);
  if (!f || !f->data) {
    if (mdl_is_dir(nm)) {
      if (out) return nullptr;
      f = mdl_add(nm);
      f->dir = true;
    } else {
      if (!out || ((m & ios_base::in) && !trunc && !app)) return nullptr;
      size_t k = nm.rfind('/');
      if (k != std::string::npos && !mdl_is_dir(nm.substr(0, k))) return nullptr;
      if (k == nm.size() - 1) return nullptr;
      f = mdl_add(nm);
      f->data = new std::string;
    }
  } else if (nm[nm.size() - 1] == '/') return nullptr;
  if (trunc) f->data->clear();
  for (int k = 0; k < 64; k++)
    if (!mdl_open[k].used) {
      mdl_open[k] = VOpen{f, app || (m & ios_base::ate) ? f->data->size() : 0, true, out};
      *(size_t*)this = k + 1;
      return this;
    }
  return nullptr;
}
__basic_file<char>* __basic_file<char>::close() {
  VOpen* o = of(this);
  if (!o) return nullptr;
  o->used = false;
  *(size_t*)this = 0;
  return o->out && o->f->close_fault ? nullptr : this;
}
streamsize __basic_file<char>::xsgetn(char* s, streamsize n) {
  VOpen* o = of(this);
  if (!o) return -1;
  if (o->f->dir) { errno = EISDIR; return -1; }
  size_t k = o->f->data->size() - o->pos;
  if (k > (size_t)n) k = n;
  if (o->f->has_fault) {
    if (o->f->read_fault <= (long)o->pos) { errno = EIO; return -1; }
    if (sym_mem_is_symbolic(&o->f->read_fault, sizeof(long))) {
      if (k > 1) k = 1;   // a failure at any byte: byte by byte
    } else if ((long)(o->pos + k) > o->f->read_fault) {
      k = o->f->read_fault - o->pos;
    }
  }
  memcpy(s, o->f->data->data() + o->pos, k);
  o->pos += k;
  return k;
}
streamsize __basic_file<char>::xsputn(const char* s, streamsize n) {
  VOpen* o = of(this);
  if (!o || !o->out) return -1;
  std::string& d = *o->f->data;
  if (o->pos > d.size()) d.append(o->pos - d.size(), 0);
  size_t k = n;
  if (o->f->has_room && n) {
    if (o->f->full) { errno = ENOSPC; return 0; }
    if ((long)(o->pos + k) > o->f->room) {
      errno = ENOSPC;
      o->f->full = true;
      long left = o->f->room - (long)o->pos;
      if (sym_mem_is_symbolic(&left, sizeof left)) return left;   // what got there is not kept
      k = left;
    }
  }
  size_t over = d.size() - o->pos < k ? d.size() - o->pos : k;
  d.replace(o->pos, over, s, k);
  o->pos += k;
  return k;
}
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n, const char* b, streamsize m) {
  streamsize k = xsputn(a, n);
  return k < n ? k : k + xsputn(b, m);
}
streamoff __basic_file<char>::seekoff(streamoff off, ios_base::seekdir way) throw() {
  VOpen* o = of(this);
  if (!o || o->f->dir) return -1;
  o->pos = off + (way == ios_base::cur ? o->pos : way == ios_base::end ? o->f->data->size() : 0);
  return o->pos;
}
streamsize __basic_file<char>::showmanyc() {
  VOpen* o = of(this);
  return o && !o->f->dir ? o->f->data->size() - o->pos : 0;
}
int __basic_file<char>::sync() { return 0; }
}  // namespace std
