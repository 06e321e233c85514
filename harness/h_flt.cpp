#include "util.h"


// A positive finite double with the given exponent field and an arbitrary
// mantissa; subnormals are split by their leading bit (-1: any).
static uint64_t sym_double(int e, int lead)
{
    uint64_t m = v_sym(52);
    if (e == 0 && lead >= 0)
        v_assume((m >> lead) == 1);
    return ((uint64_t)e << 52) | m;
}

// A decimal number: [-]digits[.digits][e[+-]digits], all of the text.
struct Number { u128 digits; int e10; bool neg; };
static Number read_number(const char *p, size_t n)
{
    Number r = {0, 0, false};
    size_t i = 0;
    v_assert(n >= 1 && n <= 38, "the text is a decimal number");
    if (p[0] == '-') { r.neg = true; i = 1; }
    bool point = false;
    int nd = 0, fp = 0;
    for (; i < n; i++) {
        unsigned d = (unsigned)(unsigned char)p[i] - '0';
        if (d <= 9) {
            nd++;
            fp += point;
            r.digits = r.digits * 10 + d;
        } else if (p[i] == '.' && !point) {
            point = true;
        } else break;
    }
    v_assert(nd >= 1, "the text is a decimal number");
    int ex = 0;
    if (i < n) {
        v_assert(p[i] == 'e' || p[i] == 'E', "the text is a decimal number");
        i++;
        bool en = false;
        if (i < n && p[i] == '-') { en = true; i++; }
        else if (i < n && p[i] == '+') i++;
        v_assert(i < n && n - i <= 4, "the text is a decimal number");
        for (; i < n; i++) {
            unsigned d = (unsigned)(unsigned char)p[i] - '0';
            v_assert(d <= 9, "the text is a decimal number");
            ex = ex * 10 + (int)d;
        }
        if (en) ex = -ex;
    }
    r.e10 = ex - fp;
    return r;
}


// p0: exponent field, p1: leading bit of a subnormal, p2: sign
extern "C" void h_dbl_value()
{
    uint64_t bits = sym_double((int)v_param(0), (int)v_param(1));
    bool neg = v_param(2);
    double x = mkdouble(bits | (uint64_t)neg << 63);
    lexi::FormatFloat f(x);
    size_t n = v_split(f.size());
    v_assert(n <= 32, "size of the text");
    char t[40];
    memcpy(t, f.data(), n);
    t[n] = 0;
    v_out(t, n);
    Number r = read_number(t, n);
    v_assert(r.neg == neg, "the text has the sign of the value");
    v_assert_nearest((uint64_t)(r.digits >> 64), (uint64_t)r.digits, r.e10, bits, t + neg, "the text denotes the formatted value");
    double back = lexi::lexi<double>(lexi::lexi(x));
    v_assert_conv(1, &back, t, "reading the text back gives the value");
    v_reach(1);
}
static uint32_t sym_float(int e, int lead)
{
    uint32_t m = (uint32_t)v_sym(23);
    if (e == 0 && lead >= 0)
        v_assume((m >> lead) == 1);
    return ((uint32_t)e << 23) | m;
}
extern "C" void h_flt_value()
{
    uint32_t bits = sym_float((int)v_param(0), (int)v_param(1));
    bool neg = v_param(2);
    float x = mkfloat(bits | (uint32_t)neg << 31);
    lexi::FormatFloat f(x);
    size_t n = v_split(f.size());
    v_assert(n <= 32, "size of the text");
    char t[40];
    memcpy(t, f.data(), n);
    t[n] = 0;
    v_out(t, n);
    Number r = read_number(t, n);
    v_assert(r.neg == neg, "the text has the sign of the value");
    v_assert_nearest32((uint64_t)(r.digits >> 64), (uint64_t)r.digits, r.e10, bits, t + neg, "the text denotes the formatted value");
    float back = lexi::lexi<float>(lexi::lexi(x));
    v_assert_conv(0, &back, t, "reading the text back gives the value");
    v_reach(1);
}
// A long double formats as the double nearest to it.  p0: sign and exponent
// field; the significand is normalised and otherwise arbitrary.
extern "C" void h_ld_value()
{
    uint64_t m = v_sym(63) | 0x8000000000000000ull;
    long double x = mkld(m, (unsigned)v_param(0));
    double d = (double)x;
    lexi::FormatFloat f(x), g(d);
    size_t n = v_split(f.size());
    v_assert(n <= 32, "size of the text");
    v_out(f.data(), n);
    assert_same(f.data(), n, g.data(), g.size(), "a long double formats as the nearest double");
    assert_same(lexi::lexi(x), f.data(), n, "generic form");
    v_reach(1);
}
// Denormal long doubles, and the zeros.
extern "C" void h_ld_tiny()
{
    uint64_t m = v_sym(63);
    long double x = mkld(m, (unsigned)v_param(0));
    lexi::FormatFloat f(x);
    v_out(f.data(), v_split(f.size()));
    assert_same(f.data(), f.size(), "0.0", 3, "rounds to zero");
    v_reach(1);
}
extern "C" void h_zero()
{
    static const double d[2] = {0.0, -0.0};
    static const float s[2] = {0.0f, -0.0f};
    static const long double l[2] = {0.0L, -0.0L};
    for (int i = 0; i < 2; i++) {
        lexi::FormatFloat a(d[i]), b(s[i]), c(l[i]);
        v_out(a.data(), a.size());
        assert_same(a.data(), a.size(), "0.0", 3, "zero is 0.0");
        assert_same(b.data(), b.size(), "0.0", 3, "zero is 0.0");
        assert_same(c.data(), c.size(), "0.0", 3, "zero is 0.0");
        assert_same(a.string(), "0.0", 3, "zero is 0.0");
        assert_same(a.escape(), "0.0", 3, "zero is 0.0");
        assert_same(a.jsonify(), "0.0", 3, "zero is 0.0");
        double back = lexi::lexi<double>(lexi::lexi(d[i]));
        v_assert(back == 0, "reading it back gives zero");
    }
    v_reach(1);
}

// Shape of the text.
static void check_shape(const char *p, size_t n, bool neg)
{
    v_assert(n >= 3 && n <= 25, "text is 3 to 25 characters long");
    v_assert((p[0] == '-') == neg, "minus sign exactly for negative non-zero values");
    size_t i = neg;
    size_t ip = 0, fp = 0;
    while (i < n && (unsigned)(unsigned char)p[i] - '0' <= 9) { i++; ip++; }
    v_assert(ip >= 1, "a digit before the point");
    const char *ints = p + neg;
    const char *fracs = p + i + 1;
    if (i < n && p[i] == '.') {
        i++;
        while (i < n && (unsigned)(unsigned char)p[i] - '0' <= 9) { i++; fp++; }
        v_assert(fp >= 1, "a digit after the point");
    }
    if (i < n) {
        // scientific
        v_assert(p[i] == 'e', "only digits, a point and an exponent");
        i++;
        bool en = i < n && p[i] == '-';
        if (en) i++;
        v_assert(i < n && n - i <= 3, "one to three digits in the exponent");
        v_assert(p[i] != '0', "no leading zero in the exponent");
        int ex = 0;
        for (; i < n; i++) {
            unsigned d = (unsigned)(unsigned char)p[i] - '0';
            v_assert(d <= 9, "digits in the exponent");
            ex = ex * 10 + (int)d;
        }
        if (en) ex = -ex;
        v_assert(ip == 1 && ints[0] != '0', "one non-zero digit before the point");
        v_assert(ip + fp <= 17, "at most 17 significant digits");
        if (fp) v_assert(fracs[fp - 1] != '0', "no trailing zero");
        v_assert(ex >= 21 || ex <= -7, "scientific notation only outside 1e-6 .. 1e21");
    } else {
        v_assert(fp >= 1, "a fraction or an exponent");
        v_assert(ip <= 21, "positional notation only below 1e21");
        if (ip > 1) v_assert(ints[0] != '0', "no leading zero");
        size_t lz = 0, sig;
        if (ip == 1 && ints[0] == '0') {
            while (lz < fp && fracs[lz] == '0') lz++;
            v_assert(lz <= 5, "positional notation only from 1e-6");
            sig = fp - lz;
            v_assert(sig >= 1, "a non-zero value has a non-zero digit");
        } else sig = ip + fp;
        if (fp > 1) v_assert(fracs[fp - 1] != '0', "no trailing zero");
        if (fp > 1) v_assert(sig <= 17, "at most 17 significant digits");
        if (fp == 1) {
            v_assert(ip + 1 <= 17 || fracs[0] == '0', "at most 17 significant digits");
            for (size_t k = 17; k < ip; k++) v_assert(ints[k] == '0', "at most 17 significant digits");
        }
    }
}
template <typename T> static void shape(T x, bool neg)
{
    lexi::FormatFloat f(x);
    fits(f);
    size_t n = v_split(f.size());
    v_assert(n <= 25, "text is 3 to 25 characters long");
    v_out(f.data(), n);
    check_shape(f.data(), n, neg);
    assert_same(f.escape(), f.data(), n, "the escaped form is the same text");
    assert_same(f.jsonify(), f.data(), n, "the JSON form is the same text");
    v_reach(1);
}
extern "C" void h_dbl_shape()
{
    uint64_t bits = sym_double((int)v_param(0), (int)v_param(1));
    bool neg = v_param(2);
    shape(mkdouble(bits | (uint64_t)neg << 63), neg);
}
extern "C" void h_flt_shape()
{
    uint32_t bits = sym_float((int)v_param(0), (int)v_param(1));
    bool neg = v_param(2);
    shape(mkfloat(bits | (uint32_t)neg << 31), neg);
}
extern "C" void h_ld_shape()
{
    unsigned se = (unsigned)v_param(0);
    shape(mkld(v_sym(63) | 0x8000000000000000ull, se), se >> 15);
}

// Special values.  p0: sign
static void expect(const lexi::FormatFloat &f, const char *t)
{
    fits(f);
    assert_same(f.data(), f.size(), t, strlen(t), "spelling of the special value");
    assert_same(f.string(), t, strlen(t), "spelling of the special value");
    assert_same(f.escape(), t, strlen(t), "spelling of the special value");
    assert_same(f.jsonify(), t, strlen(t), "spelling of the special value");
}
extern "C" void h_nonfinite_dbl()
{
    bool neg = v_param(0);
    uint64_t m = v_sym(52);
    double x = mkdouble((uint64_t)neg << 63 | 0x7ffull << 52 | m);
    lexi::FormatFloat f(x);
    v_out(f.data(), v_split(f.size()));
    if (m) expect(f, "NaN");
    else expect(f, neg ? "-Infinity" : "Infinity");
    assert_same(lexi::lexi(x), f.string(), "generic form");
    v_reach(1);
}
extern "C" void h_nonfinite_flt()
{
    bool neg = v_param(0);
    uint32_t m = (uint32_t)v_sym(23);
    lexi::FormatFloat f(mkfloat((uint32_t)neg << 31 | 0xffu << 23 | m));
    v_out(f.data(), v_split(f.size()));
    if (m) expect(f, "NaN");
    else expect(f, neg ? "-Infinity" : "Infinity");
    v_reach(1);
}
extern "C" void h_nonfinite_ld()
{
    bool neg = v_param(0);
    uint64_t m = v_sym(63);
    lexi::FormatFloat f(mkld(0x8000000000000000ull | m, (unsigned)neg << 15 | 0x7fff));
    v_out(f.data(), v_split(f.size()));
    if (m) expect(f, "NaN");
    else expect(f, neg ? "-Infinity" : "Infinity");
    v_reach(1);
}
// a finite long double of exponent field p0 & 0x7fff that is too large for double
extern "C" void h_ld_huge()
{
    unsigned se = (unsigned)v_param(0);
    uint64_t m = v_sym(63) | 0x8000000000000000ull;
    // up to half an ulp below 2^1024 rounds down to the largest double
    v_assume((se & 0x7fff) > 16383 + 1023 || m >= 0xfffffffffffffc00ull);
    lexi::FormatFloat f(mkld(m, se));
    v_out(f.data(), v_split(f.size()));
    expect(f, se >> 15 ? "-Infinity" : "Infinity");
    v_reach(1);
}
// no finite value is spelled like a special value
extern "C" void h_dbl_ordinary()
{
    uint64_t bits = sym_double((int)v_param(0), (int)v_param(1));
    bool neg = v_param(2);
    lexi::FormatFloat f(mkdouble(bits | (uint64_t)neg << 63));
    size_t n = v_split(f.size());
    fits(f);
    v_out(f.data(), n);
    v_assert(n > neg && (unsigned)(unsigned char)f.data()[neg] - '0' <= 9, "a number is not spelled like NaN or an infinity");
    v_assert(!(n == 3 && f.data()[0] == '0' && f.data()[2] == '0'), "only zero is 0.0");
    if (neg) v_assert(f.data()[0] == '-' && !(n == 4 && f.data()[1] == '0' && f.data()[3] == '0'), "only zero is 0.0");
    v_reach(1);
}
#include "lexi/detail/ieee754.hpp"
extern "C" void h_predicates()
{
    uint64_t b = v_sym(64);
    double x = mkdouble(b);
    uint64_t e = (b >> 52) & 0x7ff, m = b & 0xfffffffffffffull;
    bool neg = b >> 63;
    bool nan = e == 0x7ff && m != 0, inf = e == 0x7ff && m == 0;
    using namespace lexi::detail;
    v_outi(isNan(x) | isInf(x) << 1 | isInfinity(x) << 2 | isNegativeInfinity(x) << 3 | isFinite(x) << 4 | isZero(x) << 5 | isPositive(x) << 6);
    v_assert(isNan(x) == nan, "isNan");
    v_assert(isInf(x) == inf, "isInf");
    v_assert(isInfinity(x) == (inf && !neg), "isInfinity");
    v_assert(isNegativeInfinity(x) == (inf && neg), "isNegativeInfinity");
    v_assert(isFinite(x) == (e != 0x7ff), "isFinite");
    v_assert(isZero(x) == (e == 0 && m == 0), "isZero");
    v_assert(isPositive(x) == !neg, "isPositive");
    v_reach(1);
}
// Extraction: arbitrary text of p1 bytes as type p0 (0 float, 1 double, 2 long double)
extern "C" void h_ext_float()
{
    int k = (int)v_param(0);
    std::string s = sym_text(v_param(1));
    if (k == 0) {
        float r = float(lexi::ExtractFloat(s)), g = lexi::lexi<float>(s);
        v_assert_conv(0, &r, s.c_str(), "the float nearest to the number in the text");
        v_assert_conv(0, &g, s.c_str(), "the float nearest to the number in the text");
    } else if (k == 1) {
        double r = double(lexi::ExtractFloat(s)), g = lexi::lexi<double>(s);
        v_assert_conv(1, &r, s.c_str(), "the double nearest to the number in the text");
        v_assert_conv(1, &g, s.c_str(), "the double nearest to the number in the text");
    } else {
        long double r = (long double)(lexi::ExtractFloat(s)), g = lexi::lexi<long double>(s);
        v_assert_conv(2, &r, s.c_str(), "the long double nearest to the number in the text");
        v_assert_conv(2, &g, s.c_str(), "the long double nearest to the number in the text");
    }
    v_reach(1);
}
