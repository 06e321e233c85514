// Harness interface.  In the symbolic build these are hooks of engine/sx.py; in
// the native build native_rt.cpp implements them over a list of concrete inputs.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t v_sym(unsigned bits);                 // arbitrary value of that width
void v_sym_bytes(void *p, size_t n);           // n arbitrary bytes
int64_t v_param(int i);                        // job parameter (concrete)
void v_assume(bool c);
void v_assert(bool c, const char *what);
void v_reach(int id);                          // reachability witness
void v_out(const void *p, size_t n);           // observed output
void v_outi(uint64_t v);
uint64_t v_split(uint64_t v);                  // case split until concrete
void v_mark(void);                             // remembers all static and heap storage (symbolic build)
void v_reset(void);                            // and restores it
void v_alone(void (*f)(void *), void *a, void *buf, size_t n); // f(a) in a process of its own, only buf comes back (native build)
int v_symbolic(void);                          // 1 in the symbolic build
// asserts that (hi:lo) * 10^e10 rounds (half even) to the positive finite double
// with these bits; text/len is the same number as text for the native build
void v_assert_nearest(uint64_t hi, uint64_t lo, int e10, uint64_t bits, const char *text, const char *what);
void v_assert_nearest32(uint64_t hi, uint64_t lo, int e10, uint32_t bits, const char *text, const char *what);
// asserts r[0..n) == sum of x[i] * c[i*m..i*m+m) over i < k (little-endian words;
// the coefficients are concrete)
void v_assert_lin(const uint64_t *r, size_t n, const uint64_t *x, const uint64_t *c, size_t k, size_t m, const char *what);
// asserts that *result (kind 0 float, 1 double, 2 long double) is what the C
// library's conversion to exactly that type gives for the NUL-terminated text
void v_assert_conv(int kind, const void *result, const char *text, const char *what);
}
