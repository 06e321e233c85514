#include "util.h"
#include "lexi/detail/bigint.hpp"
using lexi::detail::BigInteger;

// Reference: little-endian words, schoolbook arithmetic, no leading zero words.
struct Ref {
    uint64_t w[440];
    size_t n;
    void trim() { while (n > 1 && v_split(w[n - 1] == 0)) n--; }
    void mul(uint64_t d)
    {
        u128 k = 0;
        for (size_t i = 0; i < n; i++) { u128 p = (u128)w[i] * d + k; w[i] = (uint64_t)p; k = p >> 64; }
        w[n++] = (uint64_t)k;
        trim();
    }
    void add(uint64_t d)
    {
        u128 k = d;
        for (size_t i = 0; i < n; i++) { u128 p = (u128)w[i] + k; w[i] = (uint64_t)p; k = v_split((uint64_t)(p >> 64)); }
        w[n++] = (uint64_t)k;
        trim();
    }
    // *this = *this * d + k in n words, without a carry out
    void muladd(uint64_t d, uint64_t k0)
    {
        u128 k = k0;
        for (size_t i = 0; i < n; i++) { u128 p = (u128)w[i] * d + k; w[i] = (uint64_t)p; k = p >> 64; }
    }
    void extend(size_t m) { while (n < m) w[n++] = 0; }
    // times 5^e
    void pow5(long e)
    {
        Ref f;
        f.n = 1;
        f.w[0] = 1;
        f.extend(1 + (size_t)e * 7 / 192 + 1);
        for (long i = 0; i < e; i++) f.muladd(5, 0);
        Ref o;
        o.n = 0;
        o.extend(n + f.n);
        for (size_t i = 0; i < f.n; i++) {
            u128 k = 0;
            for (size_t j = 0; j < n; j++) {
                u128 p = (u128)w[j] * f.w[i] + o.w[i + j] + k;
                o.w[i + j] = (uint64_t)p;
                k = p >> 64;
            }
            o.w[i + n] = (uint64_t)k;
        }
        *this = o;
        trim();
    }
    void shl(size_t s)
    {
        size_t o = s / 64, r = s % 64;
        if (r) {
            uint64_t k = 0;
            for (size_t i = 0; i < n; i++) { u128 p = ((u128)w[i] << r) | k; w[i] = (uint64_t)p; k = (uint64_t)(p >> 64); }
            w[n++] = k;
            trim();
        }
        if (o && !(n == 1 && v_split(w[0] == 0))) {
            for (size_t i = n; i-- > 0;) w[i + o] = w[i];
            for (size_t i = 0; i < o; i++) w[i] = 0;
            n += o;
        }
    }
};
static void check(const BigInteger &b, const Ref &r, const char *what)
{
    size_t n = v_split(b.count());
    v_assert(n == r.n, what);
    bool same = true;
    for (size_t i = 0; i < n; i++) v_assert(b.digit(i) == r.w[i], what);
    (void)same;
    bool zero = n == 1 && r.w[0] == 0;
    v_assert(b.isZero() == zero, "isZero");
}
// b == the sum of x[i] * c[i], and has no redundant leading zero word
static void check_lin(const BigInteger &b, const uint64_t *x, const uint64_t *c, size_t k, size_t m, const char *what)
{
    size_t n = v_split(b.count());
    uint64_t r[440];
    for (size_t i = 0; i < n; i++) r[i] = b.digit(i);
    v_assert_lin(r, n, x, c, k, m, what);
    if (n > 1) v_assert(r[n - 1] != 0, "no redundant leading zero words");
    v_assert(b.isZero() == (n == 1 && r[0] == 0), "isZero");
}
// c = d^e * 2^(64 * s) in m words
static void cpow(uint64_t *c, size_t m, uint64_t d, long e, size_t s)
{
    for (size_t i = 0; i < m; i++) c[i] = i == s;
    while (e > 0) {
        u128 k = 0;
        uint64_t f = 1;
        for (int j = 0; j < 19 && e > 0; j++, e--) f *= d;
        for (size_t i = 0; i < m; i++) { u128 p = (u128)c[i] * f + k; c[i] = (uint64_t)p; k = p >> 64; }
    }
}
static void show(const BigInteger &b)
{
    size_t n = v_split(b.count());
    v_outi(n);
    for (size_t i = 0; i < n && i < 4; i++) v_outi(b.digit(i));
    v_outi(b.digit(n - 1));
}
// k words, the top one non-zero when k > 1
static void sym_ref(Ref &r, size_t k)
{
    r.n = k;
    for (size_t i = 0; i < k; i++) r.w[i] = v_sym(64);
    if (k > 1) v_assume(r.w[k - 1] != 0);
}
static void make(BigInteger &b, const Ref &r)
{
    b = r.w[r.n - 1];
    for (size_t i = r.n - 1; i-- > 0;) {
        b <<= 64;
        b += r.w[i];
    }
}
// p0: words
extern "C" void h_big_build()
{
    Ref r;
    sym_ref(r, v_param(0));
    BigInteger b(r.w[r.n - 1]);
    for (size_t i = r.n - 1; i-- > 0;) {
        b <<= 64;
        b += r.w[i];
    }
    show(b);
    check(b, r, "words shifted in come out again");
    BigInteger c(b), d((uint64_t)7);
    d = b;
    check(c, r, "copy");
    check(d, r, "assignment");
    v_assert(c == b && d == b, "copies are equal");
    int t = 0;
    try { b.digit(r.n); t = 1; } catch (std::runtime_error &) { t = 2; }
    v_assert(t == 2, "digit() beyond the words throws");
    v_assert((b == r.w[0]) == (r.n == 1), "equality with a word");
    v_reach(1);
}
extern "C" void h_big_add()
{
    Ref r;
    sym_ref(r, v_param(0));
    uint64_t d = v_sym(64);
    BigInteger b((uint64_t)0);
    make(b, r);
    b += d;
    show(b);
    r.add(d);
    check(b, r, "addition of a word is exact");
    v_reach(1);
}
// carry chain: p0 words of all ones above a symbolic word
extern "C" void h_big_carry()
{
    Ref r;
    r.n = v_param(0) + 1;
    r.w[0] = v_sym(64);
    for (size_t i = 1; i < r.n; i++) r.w[i] = ~0ull;
    uint64_t d = v_sym(64);
    BigInteger b((uint64_t)0);
    make(b, r);
    b += d;
    show(b);
    r.add(d);
    check(b, r, "addition of a word is exact");
    v_reach(1);
}
extern "C" void h_big_mul64()
{
    Ref r;
    sym_ref(r, v_param(0));
    uint64_t d = v_sym(64);
    BigInteger b((uint64_t)0);
    make(b, r);
    b *= d;
    show(b);
    r.mul(d);
    check(b, r, "multiplication by a word is exact");
    v_reach(1);
}
extern "C" void h_big_mul32()
{
    Ref r;
    sym_ref(r, v_param(0));
    uint32_t d = (uint32_t)v_sym(32);
    BigInteger b((uint64_t)0);
    make(b, r);
    b *= d;
    show(b);
    r.mul(d);
    check(b, r, "multiplication by a half word is exact");
    v_reach(1);
}
// p0: words, p1: multiplier (concrete)
extern "C" void h_big_mulc()
{
    Ref r;
    sym_ref(r, v_param(0));
    BigInteger b((uint64_t)0);
    make(b, r);
    BigInteger c(b);
    b *= (uint64_t)v_param(1);
    show(b);
    Ref q = r;
    q.mul((uint64_t)v_param(1));
    check(b, q, "multiplication by a word is exact");
    c *= (uint32_t)v_param(1);
    r.mul((uint32_t)v_param(1));
    check(c, r, "multiplication by a half word is exact");
    v_reach(1);
}
// p0: words, p1: shift
extern "C" void h_big_shl()
{
    Ref r;
    sym_ref(r, v_param(0));
    BigInteger b((uint64_t)0);
    make(b, r);
    b <<= (size_t)v_param(1);
    show(b);
    r.shl(v_param(1));
    check(b, r, "left shift is exact");
    v_reach(1);
}
// p0: words, p1: exponent
extern "C" void h_big_pow5()
{
    Ref r;
    sym_ref(r, v_param(0));
    BigInteger b((uint64_t)0);
    make(b, r);
    long e = v_param(1);
    b.mulPow5((unsigned)e);
    show(b);
    size_t m = r.n + (size_t)e * 7 / 192 + 2;
    static uint64_t c[8 * 400];
    for (size_t i = 0; i < r.n; i++) cpow(c + i * m, m, 5, e, i);
    check_lin(b, r.w, c, r.n, m, "multiplication by a power of five is exact");
    v_reach(1);
}
// p0: number of digits; p1, p2: position and length of the arbitrary ones (the others are fixed)
extern "C" void h_big_decimal()
{
    size_t n = v_param(0), at = v_param(1), len = v_param(2);
    char t[1024];
    for (size_t i = 0; i < n; i++) t[i] = (char)('0' + (i * 7 + 3) % 10);
    if (len) v_sym_bytes(t + at, len);
    for (size_t i = at; i < at + len; i++) v_assume((unsigned)((unsigned char)t[i] - '0') <= 9);
    BigInteger b(t, n);
    show(b);
    // the fixed digits count as one term
    static uint64_t x[128], c[128 * 60];
    size_t m = n / 19 + 2, k = 0;
    if (len < n) {
        x[k] = 1;
        uint64_t *f = c;
        for (size_t j = 0; j < m; j++) f[j] = 0;
        for (size_t i = 0; i < n; i++) {
            u128 y = i >= at && i < at + len ? 0 : t[i] - '0';
            for (size_t j = 0; j < m; j++) { y += (u128)f[j] * 10; f[j] = (uint64_t)y; y >>= 64; }
        }
        k++;
    }
    for (size_t i = at; i < at + len; i++, k++) {
        x[k] = (uint64_t)((unsigned char)t[i] - '0');
        cpow(c + k * m, m, 10, (long)(n - 1 - i), 0);
    }
    check_lin(b, x, c, k, m, "decimal digits are read exactly");
    v_reach(1);
}
// p0: length, all bytes arbitrary: rejected exactly when one is no digit
extern "C" void h_big_reject()
{
    size_t n = v_param(0);
    char t[64];
    if (n) v_sym_bytes(t, n);
    bool ok = true;
    for (size_t i = 0; i < n; i++) ok = ok & ((unsigned)((unsigned char)t[i] - '0') <= 9);
    int r;
    try { BigInteger b(t, n); r = 1; } catch (std::runtime_error &) { r = 2; } catch (...) { r = 3; }
    v_outi(r);
    v_assert(r == (ok ? 1 : 2), "text with a non-digit is rejected with std::runtime_error, digits are accepted");
    v_reach(1);
}
// p0: length, p1: position of one arbitrary byte among digits
extern "C" void h_big_reject_at()
{
    size_t n = v_param(0), at = v_param(1);
    char t[64];
    for (size_t i = 0; i < n; i++) t[i] = (char)('0' + (i * 7 + 3) % 10);
    t[at] = (char)v_sym(8);
    bool ok = (unsigned)((unsigned char)t[at] - '0') <= 9;
    int r;
    Ref q;
    q.n = 1;
    q.w[0] = 0;
    try {
        BigInteger b(t, n);
        r = 1;
        show(b);
        q.extend(n / 19 + 1);
        for (size_t i = 0; i < n; i++) q.muladd(10, (unsigned)(unsigned char)t[i] - '0');
        q.trim();
        check(b, q, "decimal digits are read exactly");
    } catch (std::runtime_error &) { r = 2; } catch (...) { r = 3; }
    v_assert(r == (ok ? 1 : 2), "text with a non-digit is rejected with std::runtime_error, digits are accepted");
    v_reach(1);
}
// p0, p1: words of the operands
extern "C" void h_big_compare()
{
    Ref r, s;
    sym_ref(r, v_param(0));
    sym_ref(s, v_param(1));
    BigInteger a((uint64_t)0), b((uint64_t)0);
    make(a, r);
    make(b, s);
    int want = 0;
    if (r.n != s.n) want = r.n < s.n ? -1 : 1;
    else for (size_t i = r.n; i-- > 0;) if (r.w[i] != s.w[i]) { want = r.w[i] < s.w[i] ? -1 : 1; break; }
    int c = a.compare(b);
    v_outi((uint64_t)(int64_t)(c < 0 ? -1 : c > 0));
    v_assert((c < 0) == (want < 0) && (c > 0) == (want > 0), "three-way comparison");
    int c2 = b.compare(a);
    v_assert((c2 < 0) == (want > 0) && (c2 > 0) == (want < 0), "comparison is antisymmetric");
    v_assert((a == b) == (want == 0), "equality");
    v_assert(a.compare(a) == 0 && a == a, "equality is reflexive");
    if (s.n == 1) v_assert((a == s.w[0]) == (want == 0), "equality with a word");
    v_reach(1);
}
extern "C" void h_big_difference()
{
    Ref r, s, d;
    sym_ref(r, v_param(0));
    sym_ref(s, v_param(1));
    BigInteger a((uint64_t)0), b((uint64_t)0), o((uint64_t)3);
    make(a, r);
    make(b, s);
    int want = 0;
    if (r.n != s.n) want = r.n < s.n ? -1 : 1;
    else for (size_t i = r.n; i-- > 0;) if (r.w[i] != s.w[i]) { want = r.w[i] < s.w[i] ? -1 : 1; break; }
    if (want == 0) return;
    const Ref &x = want > 0 ? r : s, &y = want > 0 ? s : r;
    bool neg = a.difference(b, &o);
    show(o);
    v_assert(neg == (want < 0), "difference() tells which operand is larger");
    // o + y == x, word by word
    size_t n = v_split(o.count());
    v_assert(n >= 1 && n <= x.n, "no redundant leading zero words");
    if (n > 1) v_assert(o.digit(n - 1) != 0, "no redundant leading zero words");
    uint64_t k = 0;
    for (size_t i = 0; i < x.n; i++) {
        u128 p = (u128)(i < n ? o.digit(i) : 0) + (i < y.n ? y.w[i] : 0) + k;
        v_assert((uint64_t)p == x.w[i], "the absolute difference is exact");
        k = v_split((uint64_t)(p >> 64));
    }
    v_assert(k == 0, "the absolute difference is exact");
    v_reach(1);
}
// capacity: p0 words in all, the top one arbitrary, the others zero; then p1:
// 0 shift by p2, 1 multiply by a word, 2 multiply by a half word, 3 power of five p2
static size_t capacity()
{
    // the largest power of two that can be made
    BigInteger b((uint64_t)1);
    size_t n = 1;
    for (; n < 435; n++) {
        try { b <<= 64; } catch (std::runtime_error &) { break; }
    }
    return n;
}
extern "C" void h_big_capacity()
{
    size_t cap = capacity();
    v_assert(cap >= 52 && cap < 435, "the capacity holds 3328 bits and is bounded");
    size_t k = cap - v_param(0);
    uint64_t top = v_sym(64);
    v_assume(top != 0);
    BigInteger b(top);
    b <<= 64 * (k - 1);
    v_assert(b.count() == k, "size after the shift");
    Ref r;
    r.n = k;
    for (size_t i = 0; i < k; i++) r.w[i] = 0;
    r.w[k - 1] = top;
    int t = 1;
    long op = v_param(1), x = v_param(2);
    bool mayfail = false;
    try {
        if (op == 0) { b <<= (size_t)x; }
        if (op == 1) { uint64_t d = v_sym(64); v_assume(d != 0); r.mul(d); b *= d; }
        if (op == 2) { uint32_t d = (uint32_t)v_sym(32); v_assume(d != 0); r.mul(d); b *= d; }
        if (op == 3) { r.pow5(x); b.mulPow5((unsigned)x); }
    } catch (std::runtime_error &) { t = 2; } catch (...) { t = 3; }
    if (op == 0) {
        // one word of head room may be needed
        mayfail = k + x / 64 + (x % 64 ? 1 : 0) > cap;
        r.shl(x);
    }
    v_outi(t);
    if (r.n > cap) v_assert(t == 2, "a result that does not fit throws std::runtime_error");
    else if (t == 1) check(b, r, "a result that fits is exact");
    else v_assert(t == 2 && mayfail, "a result that fits is exact");
    v_reach(1);
}
// all ones up to the capacity, then one addition
extern "C" void h_big_capacity_add()
{
    size_t cap = capacity();
    v_assert(cap >= 52 && cap < 435, "the capacity holds 3328 bits and is bounded");
    size_t k = cap - v_param(0);
    Ref r;
    r.n = k;
    for (size_t i = 0; i < k; i++) r.w[i] = ~0ull;
    BigInteger b((uint64_t)0);
    make(b, r);
    uint64_t d = v_sym(64);
    int t = 1;
    try { b += d; } catch (std::runtime_error &) { t = 2; } catch (...) { t = 3; }
    v_outi(t);
    r.add(d);
    if (r.n > cap) v_assert(t == 2, "a result that does not fit throws std::runtime_error");
    else { v_assert(t == 1, "a result that fits is exact"); check(b, r, "a result that fits is exact"); }
    v_reach(1);
}
// A wide operand: p0 words, the lowest, the highest and word p1 arbitrary, the others fixed
// (runs of ones, zeros and mixed words).
static void wide_ref(Ref &r, size_t k, size_t at)
{
    r.n = k;
    for (size_t i = 0; i < k; i++) r.w[i] = i % 5 == 1 ? 0 : i % 5 == 3 ? 0x9e3779b97f4a7c15ull * (i + 1) : ~0ull;
    r.w[0] = v_sym(64);
    if (at > 0 && at < k - 1) r.w[at] = v_sym(64);
    r.w[k - 1] = v_sym(64);
    v_assume(r.w[k - 1] != 0);
}
// p2: 0 addition, 1 multiplication by p3, 2 by the half word p3, 3 shift by p3, 4 power of five p3
extern "C" void h_big_wide()
{
    Ref r;
    wide_ref(r, v_param(0), v_param(1));
    BigInteger b((uint64_t)0);
    make(b, r);
    check(b, r, "words shifted in come out again");
    uint64_t x = v_param(3);
    switch (v_param(2)) {
    case 0: { uint64_t d = v_sym(64); b += d; r.add(d); check(b, r, "addition of a word is exact"); break; }
    case 1: b *= x; r.mul(x); check(b, r, "multiplication by a word is exact"); break;
    case 2: b *= (uint32_t)x; r.mul((uint32_t)x); check(b, r, "multiplication by a half word is exact"); break;
    case 3: b <<= (size_t)x; r.shl(x); check(b, r, "left shift is exact"); break;
    case 4: b.mulPow5((unsigned)x); r.pow5((long)x); check(b, r, "multiplication by a power of five is exact"); break;
    }
    show(b);
    v_reach(1);
}
// two wide operands that differ in word p1 only (p2 = 0), or have p2 words more or less
extern "C" void h_big_wide2()
{
    Ref r, s;
    size_t k = v_param(0), at = v_param(1);
    long more = v_param(2);
    wide_ref(r, k, at);
    s = r;
    s.w[at] = v_sym(64);
    if (at == k - 1) v_assume(s.w[at] != 0);
    for (; more > 0; more--) s.w[s.n++] = 0x1111111111111111ull;
    if (more < 0) { s.n += more; if (s.w[s.n - 1] == 0) s.w[s.n - 1] = 5; }
    BigInteger a((uint64_t)0), b((uint64_t)0), o((uint64_t)3);
    make(a, r);
    make(b, s);
    int want = 0;
    if (r.n != s.n) want = r.n < s.n ? -1 : 1;
    else if (r.w[at] != s.w[at]) want = r.w[at] < s.w[at] ? -1 : 1;
    int c = a.compare(b), c2 = b.compare(a);
    v_outi((uint64_t)(int64_t)(c < 0 ? -1 : c > 0));
    v_assert((c < 0) == (want < 0) && (c > 0) == (want > 0), "three-way comparison");
    v_assert((c2 < 0) == (want > 0) && (c2 > 0) == (want < 0), "comparison is antisymmetric");
    v_assert((a == b) == (want == 0), "equality");
    BigInteger d(a);
    check(d, r, "copy");
    d = b;
    check(d, s, "assignment");
    if (want == 0) return;
    const Ref &x = want > 0 ? r : s, &y = want > 0 ? s : r;
    bool neg = a.difference(b, &o);
    show(o);
    v_assert(neg == (want < 0), "difference() tells which operand is larger");
    size_t n = v_split(o.count());
    v_assert(n >= 1 && n <= x.n, "no redundant leading zero words");
    if (n > 1) v_assert(o.digit(n - 1) != 0, "no redundant leading zero words");
    uint64_t q = 0;
    for (size_t i = 0; i < x.n; i++) {
        u128 p = (u128)(i < n ? o.digit(i) : 0) + (i < y.n ? y.w[i] : 0) + q;
        v_assert((uint64_t)p == x.w[i], "the absolute difference is exact");
        q = v_split((uint64_t)(p >> 64));
    }
    v_assert(q == 0, "the absolute difference is exact");
    v_reach(1);
}
