// Specification helpers shared by the harnesses.
#pragma once
#include "verif.h"
#include "lexi/lexi.hpp"
#include "lexi/detail/define.hpp"
#include <cstring>
#include <new>
#include <stdexcept>
#include <string>
typedef unsigned __int128 u128;

// p[0..n) is the canonical decimal numeral of (neg ? -mag : mag)
static inline void assert_decimal(const char *p, size_t n, bool neg, uint64_t mag, const char *what)
{
    size_t i = 0;
    if (neg) {
        v_assert(n >= 2 && p[0] == '-', what);
        i = 1;
    }
    v_assert(n > i && n - i <= 20, what);
    u128 v = 0;
    bool digits = true;
    for (size_t k = i; k < n; k++) {
        unsigned d = (unsigned)(unsigned char)p[k] - '0';
        digits = digits & (d <= 9);
        v = v * 10 + d;
    }
    v_assert(digits, what);
    if (n - i > 1)
        v_assert(p[i] != '0', what);
    v_assert(v == mag, what);
}

// the two byte ranges are equal
static inline void assert_same(const char *p, size_t n, const char *q, size_t m, const char *what)
{
    n = v_split(n);
    m = v_split(m);
    v_assert(n == m, what);
    bool same = true;
    for (size_t i = 0; i < n; i++)
        same = same & (p[i] == q[i]);
    v_assert(same, what);
}
static inline void assert_same(const std::string &a, const std::string &b, const char *what) { assert_same(a.data(), a.size(), b.data(), b.size(), what); }
static inline void assert_same(const std::string &a, const char *q, size_t m, const char *what) { assert_same(a.data(), a.size(), q, m, what); }

// text of n arbitrary bytes
static inline std::string sym_text(size_t n)
{
    char b[4096];
    if (n) v_sym_bytes(b, n);
    return std::string(b, n);
}
static inline void out(const std::string &s) { v_out(s.data(), v_split(s.size())); }

static inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double mkdouble(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline uint32_t fbits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static inline float mkfloat(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
static inline long double mkld(uint64_t m, unsigned se)
{
    long double d = 0;
    unsigned short s = (unsigned short)se;
    memcpy((char *)&d, &m, 8);
    memcpy((char *)&d + 8, &s, 2);
    return d;
}
// whether c gets a backslash from escape
static inline bool needs_escape(unsigned char c)
{
    return c <= 47 || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126);
}

// The memory property only: a text that lies in the formatter's own buffer_ member lies in it
// with its terminator.  Formatters with no such member are covered by object bounds alone.
#ifdef CHECK_FIT
template <typename F, typename C, size_t N> static inline void fits_in(const F &f, char (C::*m)[N])
{
    const char *b = f.*m;
    const char *p = f.data();
    if (p >= b && p < b + N)
        v_assert(f.size() + 1 <= N - (size_t)(p - b), "storage: the text and its terminator lie in the formatter's buffer");
    else
        v_assert(p < reinterpret_cast<const char *>(&f) || p >= reinterpret_cast<const char *>(&f + 1), "storage: the text lies in the formatter's buffer");
}
template <typename F> struct Peek : F {
    template <typename Q> static auto run(const F &f, int) -> decltype(fits_in(f, &Q::buffer_)) { fits_in(f, &Q::buffer_); }
    template <typename Q> static void run(const F &, long) {}
};
template <typename F> static inline void fits(const F &f) { Peek<F>::template run<Peek<F>>(f, 0); }
#else
template <typename F> static inline void fits(const F &) {}
#endif
