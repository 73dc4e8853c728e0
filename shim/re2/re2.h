// Stand-in for RE2: anchored/unanchored matching with captures by a
// backtracking matcher (leftmost-first, as RE2's default), and RE2's
// argument conversions.  Covers the subset: literals, '.', classes, groups
// (capturing and ?:), alternation, * + ? {n,m} (greedy and lazy), ^ $, and
// the escapes \d \s \w \D \S \W plus escaped punctuation.
#ifndef SHIM_RE2_H_
#define SHIM_RE2_H_
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "absl/strings/string_view.h"

extern "C" [[noreturn]] void stl_shim_check_failed(const char*, const char*, int);

namespace re2 {
using StringPiece = absl::string_view;

class RE2 {
 public:
  struct Node {
    enum K { CHAR, ANY, CLASS, CAT, ALT, REP, GROUP, BOL, EOL, EMPTY } k = EMPTY;
    unsigned char c = 0;
    bool set[256];
    std::vector<Node*> kids;
    int min = 0, max = -1, cap = -1;
    bool lazy = false;
  };
  RE2(const char* p) { Init(std::string(p)); }
  RE2(const std::string& p) { Init(p); }
  RE2(absl::string_view p) { Init(std::string(p)); }
  bool ok() const { return true; }
  int NumberOfCapturingGroups() const { return ncap_; }

  class Arg {
   public:
    Arg() : p_(nullptr), f_(nullptr) {}
    Arg(std::nullptr_t) : p_(nullptr), f_(nullptr) {}
    Arg(void*) : p_(nullptr), f_(nullptr) {}
    Arg(double* d) : p_(d), f_(&PDouble) {}
    Arg(float* d) : p_(d), f_(&PFloat) {}
    Arg(int* d) : p_(d), f_(&PInt) {}
    Arg(std::string* d) : p_(d), f_(&PStr) {}
    Arg(absl::string_view* d) : p_(d), f_(&PView) {}
    bool Parse(const char* s, size_t n) const { return f_ ? f_(s, n, p_) : true; }
   private:
    static bool PDouble(const char* s, size_t n, void* d) {
      if (n == 0 || n > 200 || *s == ' ') return false;
      std::string b(s, n);
      char* e;
      errno = 0;
      double r = strtod(b.c_str(), &e);
      if (e != b.c_str() + n) return false;
      if (errno) return false;
      if (d) *(double*)d = r;
      return true;
    }
    static bool PFloat(const char* s, size_t n, void* d) {
      if (n == 0 || n > 200 || *s == ' ') return false;
      std::string b(s, n);
      char* e;
      errno = 0;
      float r = strtof(b.c_str(), &e);
      if (e != b.c_str() + n) return false;
      if (errno) return false;
      if (d) *(float*)d = r;
      return true;
    }
    static bool PInt(const char* s, size_t n, void* d) {
      if (n == 0 || *s == ' ') return false;
      std::string b(s, n);
      char* e;
      errno = 0;
      long r = strtol(b.c_str(), &e, 10);
      if (e != b.c_str() + n) return false;
      if (errno || r != (int)r) return false;
      if (d) *(int*)d = (int)r;
      return true;
    }
    static bool PStr(const char* s, size_t n, void* d) {
      if (d) ((std::string*)d)->assign(s, n);
      return true;
    }
    static bool PView(const char* s, size_t n, void* d) {
      if (d) *(absl::string_view*)d = absl::string_view(s, n);
      return true;
    }
    void* p_;
    bool (*f_)(const char*, size_t, void*);
  };

  template <class... A>
  static bool FullMatch(absl::string_view t, const RE2& re, A&&... a) {
    Arg args[] = {Arg(a)..., Arg()};
    return re.Do(t, true, true, args, sizeof...(a), nullptr);
  }
  template <class... A>
  static bool PartialMatch(absl::string_view t, const RE2& re, A&&... a) {
    Arg args[] = {Arg(a)..., Arg()};
    return re.Do(t, false, false, args, sizeof...(a), nullptr);
  }
  template <class... A>
  static bool Consume(absl::string_view* t, const RE2& re, A&&... a) {
    Arg args[] = {Arg(a)..., Arg()};
    size_t end;
    if (!re.Do(*t, true, false, args, sizeof...(a), &end)) return false;
    t->remove_prefix(end);
    return true;
  }

 private:
  struct M {
    const char* s; size_t n; bool full;
    size_t cb[20], ce[20];
  };
  struct Cont { virtual bool go(M&, size_t) = 0; };

  bool Do(absl::string_view t, bool anchor, bool full, const Arg* a, int na,
          size_t* end) const {
    if (na > ncap_) return false;
    for (size_t st = 0; st <= t.size(); st++) {
      M m{t.data(), t.size(), full, {}, {}};
      for (int i = 0; i < 20; i++) m.cb[i] = m.ce[i] = (size_t)-1;
      struct Fin : Cont {
        size_t e = 0;
        bool go(M& m, size_t p) override {
          if (m.full && p != m.n) return false;
          e = p;
          return true;
        }
      } fin;
      if (Step(root_, m, st, fin)) {
        for (int i = 0; i < na; i++) {
          bool un = m.cb[i] == (size_t)-1 || m.ce[i] == (size_t)-1;
          if (!a[i].Parse(un ? "" : m.s + m.cb[i], un ? 0 : m.ce[i] - m.cb[i])) return false;
        }
        if (end) *end = fin.e;
        return true;
      }
      if (anchor) break;
    }
    return false;
  }

  static bool Step(const Node* n, M& m, size_t p, Cont& k) {
    switch (n->k) {
      case Node::EMPTY: return k.go(m, p);
      case Node::BOL: return p == 0 && k.go(m, p);
      case Node::EOL: return p == m.n && k.go(m, p);
      case Node::CHAR: return p < m.n && (unsigned char)m.s[p] == n->c && k.go(m, p + 1);
      case Node::ANY: return p < m.n && m.s[p] != '\n' && k.go(m, p + 1);
      case Node::CLASS: return p < m.n && n->set[(unsigned char)m.s[p]] && k.go(m, p + 1);
      case Node::CAT: return Cat(n, 0, m, p, k);
      case Node::ALT:
        for (auto* x : n->kids) if (Step(x, m, p, k)) return true;
        return false;
      case Node::GROUP: {
        struct C : Cont {
          const Node* n; size_t b; Cont* k;
          bool go(M& m, size_t p) override {
            size_t ob = m.cb[n->cap], oe = m.ce[n->cap];
            m.cb[n->cap] = b; m.ce[n->cap] = p;
            if (k->go(m, p)) return true;
            m.cb[n->cap] = ob; m.ce[n->cap] = oe;
            return false;
          }
        } c;
        c.n = n; c.b = p; c.k = &k;
        return Step(n->kids[0], m, p, c);
      }
      case Node::REP: {
        const Node* x = n->kids[0];
        if (!n->lazy && (x->k == Node::CHAR || x->k == Node::ANY || x->k == Node::CLASS)) {
          size_t q = p;
          while ((n->max < 0 || q - p < (size_t)n->max) && q < m.n && One(x, m.s[q])) q++;
          for (;; q--) {
            if (q - p < (size_t)n->min) return false;
            if (k.go(m, q)) return true;
            if (q == p) return false;
          }
        }
        return Rep(n, 0, m, p, k, (size_t)-1);
      }
    }
    return false;
  }
  static bool One(const Node* x, unsigned char c) {
    return x->k == Node::CHAR ? c == x->c : x->k == Node::ANY ? c != '\n' : x->set[c];
  }
  static bool Cat(const Node* n, size_t i, M& m, size_t p, Cont& k) {
    if (i == n->kids.size()) return k.go(m, p);
    struct C : Cont {
      const Node* n; size_t i; Cont* k;
      bool go(M& m, size_t p) override { return Cat(n, i, m, p, *k); }
    } c;
    c.n = n; c.i = i + 1; c.k = &k;
    return Step(n->kids[i], m, p, c);
  }
  static bool Rep(const Node* n, int cnt, M& m, size_t p, Cont& k, size_t last) {
    struct C : Cont {
      const Node* n; int cnt; Cont* k; size_t from;
      bool go(M& m, size_t p) override {
        if (p == from && cnt > n->min) return false;  // empty iteration
        return Rep(n, cnt, m, p, *k, from);
      }
    } c;
    c.n = n; c.cnt = cnt + 1; c.k = &k; c.from = p;
    (void)last;
    bool more = n->max < 0 || cnt < n->max;
    if (cnt < n->min) return more && Step(n->kids[0], m, p, c);
    if (n->lazy) return k.go(m, p) || (more && Step(n->kids[0], m, p, c));
    return (more && Step(n->kids[0], m, p, c)) || k.go(m, p);
  }

  // ---- parser
  void Init(const std::string& p) {
    pat_ = p; pos_ = 0; ncap_ = 0;
    root_ = Alt();
    if (pos_ != pat_.size()) stl_shim_check_failed("shim RE2: bad pattern", p.c_str(), 0);
  }
  bool More() const { return pos_ < pat_.size(); }
  Node* Alt() {
    std::vector<Node*> v{Seq()};
    while (More() && pat_[pos_] == '|') { pos_++; v.push_back(Seq()); }
    if (v.size() == 1) return v[0];
    Node* n = new Node; n->k = Node::ALT; n->kids = v; return n;
  }
  Node* Seq() {
    Node* n = new Node; n->k = Node::CAT;
    while (More() && pat_[pos_] != '|' && pat_[pos_] != ')') n->kids.push_back(Quant());
    return n;
  }
  Node* Quant() {
    Node* a = Atom();
    while (More()) {
      int lo, hi;
      size_t save = pos_;
      char c = pat_[pos_];
      if (c == '*') { lo = 0; hi = -1; pos_++; }
      else if (c == '+') { lo = 1; hi = -1; pos_++; }
      else if (c == '?') { lo = 0; hi = 1; pos_++; }
      else if (c == '{' && pos_ + 1 < pat_.size() && isdig(pat_[pos_ + 1])) {
        pos_++;
        lo = Num(); hi = lo;
        if (More() && pat_[pos_] == ',') { pos_++; hi = (More() && isdig(pat_[pos_])) ? Num() : -1; }
        if (!More() || pat_[pos_] != '}') { pos_ = save; break; }
        pos_++;
      } else break;
      Node* r = new Node; r->k = Node::REP; r->min = lo; r->max = hi; r->kids = {a};
      if (More() && pat_[pos_] == '?') { r->lazy = true; pos_++; }
      a = r;
    }
    return a;
  }
  static bool isdig(char c) { return c >= '0' && c <= '9'; }
  int Num() { int v = 0; while (More() && isdig(pat_[pos_])) v = v * 10 + (pat_[pos_++] - '0'); return v; }
  static bool Escape(char c, bool* set) {
    char l = c | 0x20;
    if (l != 'd' && l != 's' && l != 'w') return false;
    for (int i = 0; i < 256; i++) {
      bool in = false;
      if (l == 'd') in = i >= '0' && i <= '9';
      if (l == 's') in = i == ' ' || i == '\t' || i == '\n' || i == '\f' || i == '\r';
      if (l == 'w') in = (i >= '0' && i <= '9') || (i >= 'a' && i <= 'z') || (i >= 'A' && i <= 'Z') || i == '_';
      if (c != l) in = !in;
      if (in) set[i] = true;
    }
    return true;
  }
  static char Simple(char c) {
    switch (c) { case 'n': return '\n'; case 't': return '\t'; case 'r': return '\r'; case 'f': return '\f'; case 'v': return '\v'; }
    return c;
  }
  Node* Atom() {
    Node* n = new Node;
    memset(n->set, 0, sizeof n->set);
    char c = pat_[pos_++];
    switch (c) {
      case '.': n->k = Node::ANY; return n;
      case '^': n->k = Node::BOL; return n;
      case '$': n->k = Node::EOL; return n;
      case '(': {
        bool cap = true;
        if (pat_.compare(pos_, 2, "?:") == 0) { cap = false; pos_ += 2; }
        else if (pat_.compare(pos_, 3, "?P<") == 0) { while (More() && pat_[pos_] != '>') pos_++; pos_++; }
        int id = cap ? ncap_++ : -1;
        Node* in = Alt();
        if (!More() || pat_[pos_] != ')') stl_shim_check_failed("shim RE2: missing )", pat_.c_str(), 0);
        pos_++;
        if (!cap) return in;
        n->k = Node::GROUP; n->cap = id; n->kids = {in};
        return n;
      }
      case '[': {
        n->k = Node::CLASS;
        bool neg = false, first = true;
        if (More() && pat_[pos_] == '^') { neg = true; pos_++; }
        while (More() && (pat_[pos_] != ']' || first)) {
          first = false;
          if (pat_.compare(pos_, 2, "[:") == 0) {
            size_t e = pat_.find(":]", pos_);
            std::string nm = pat_.substr(pos_ + 2, e - pos_ - 2);
            for (int i = 0; i < 128; i++) {
              bool dig = i >= '0' && i <= '9', al = (i >= 'a' && i <= 'z') || (i >= 'A' && i <= 'Z');
              if ((nm == "digit" && dig) || (nm == "alpha" && al) || (nm == "alnum" && (al || dig)) ||
                  (nm == "space" && (i == ' ' || (i >= 9 && i <= 13))) || (nm == "blank" && (i == ' ' || i == '\t')))
                n->set[i] = true;
            }
            pos_ = e + 2;
            continue;
          }
          unsigned char a = pat_[pos_++];
          if (a == '\\') {
            char x = pat_[pos_++];
            if (Escape(x, n->set)) continue;
            a = Simple(x);
          }
          unsigned char b = a;
          if (pos_ + 1 < pat_.size() && pat_[pos_] == '-' && pat_[pos_ + 1] != ']') {
            pos_++;
            b = pat_[pos_++];
            if (b == '\\') b = Simple(pat_[pos_++]);
          }
          for (int i = a; i <= b; i++) n->set[i] = true;
        }
        pos_++;
        if (neg) for (int i = 0; i < 256; i++) n->set[i] = !n->set[i];
        return n;
      }
      case '\\': {
        char x = pat_[pos_++];
        if (Escape(x, n->set)) { n->k = Node::CLASS; return n; }
        n->k = Node::CHAR; n->c = Simple(x); return n;
      }
      default: n->k = Node::CHAR; n->c = c; return n;
    }
  }
  std::string pat_;
  size_t pos_ = 0;
  int ncap_ = 0;
  Node* root_ = nullptr;
};
}  // namespace re2
using re2::RE2;
#endif
