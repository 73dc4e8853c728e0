// Harness interface. Under symir these are intrinsics of the symbolic executor;
// natively (sym_native.cc) they read a concrete assignment and re-check the assertions.
#ifndef VERIF_SYM_H_
#define VERIF_SYM_H_
#include <cstddef>
#include <cstdint>
extern "C" {
double sym_double(const char* name, double lo, double hi);
unsigned char sym_byte(const char* name);
int sym_int(const char* name, int lo, int hi);
int sym_choose(const char* name, int n);  // 0..n-1, enumerated by forking
void sym_assume(int c);
void sym_assert_(int c, const char* label);
void sym_assert_near(double a, double b, double tol, const char* label);
void sym_assert_le(double a, double b, double tol, const char* label);  // a <= b + tol
// Index of a candidate (m of them, n numbers each) equal to a for every input of the path, or -1.
int sym_match(const double* a, const double* bs, int n, int m, double tol);
// a equals one of the candidates (which one may depend on the input).
void sym_assert_some(const double* a, const double* bs, int n, int m, double tol, const char* label);
void sym_reach(const char* label);
void sym_observe(const char* label, double v);
void sym_observe_i(const char* label, int v);
int sym_is_symbolic(double v);
int sym_is_symbolic_i(int v);
int sym_mem_is_symbolic(const void* p, size_t n);
int sym_num_text(double v, char* buf);                       // script/STL text for v
double sym_text_num(const char* p, size_t n, int* hit);      // engine only: its inverse
int sym_out_text(double v, char kind, int prec, char* buf);  // engine only: printed form
int sym_out_int(int64_t v, char* buf);
double sym_parse(const char* p, size_t n);                   // value of a printed number
int64_t sym_parse_int(const char* p, size_t n);
int sym_prec(const char* p, size_t n);                       // digits after the point
uint64_t sym_alloc_mark();
uint64_t sym_leaks(uint64_t mark);
void sym_print(const char* l, double v);
void sym_prints(const char* p, size_t n);
void sym_stop();
int sym_concrete(int v);
int sym_engine();                                            // 1 under symir
// Virtual files seen by ifstream.
void sym_file(const char* name, const char* data, size_t n);
void sym_mkdir(const char* name);
// Reading the file fails (EIO) once `after` bytes were delivered.
void sym_read_fault(const char* name, long after);
// The device under an output file holds `room` bytes: further writes fail (ENOSPC).
void sym_write_fault(const char* name, long room);
// Closing the output file fails (as remote file systems do).
void sym_close_fault(const char* name);
// Content of a file; 0 if there is none.
int sym_content(const char* name, const char** p, size_t* n);
// From here on the process may end by itself with a failure status.
void sym_expect_exit(int on);
// Captured standard error.
const char* sym_stderr(size_t* n);
void sym_stderr_reset();
}
#define SYM_ASSERT(c, label) sym_assert_((c) ? 1 : 0, label)
#endif
