#include "util.h"
#include <cerrno>

// Conversions whose results must not depend on what ran before, and the noise
// that runs in between.  p0: kind of noise, p1..: parameters of the conversion.
enum class Hue : short { none = 0 };
static void noise(int q)
{
    switch (q) {
    case 0: {
        errno = (int)v_sym(32);
        break;
    }
    case 1: {
        int16_t y = (int16_t)v_sym(16);
        lexi::FormatInt g(y);
        g.string(); g.escape(); g.jsonify();
        lexi::lexi(y);
        lexi::FormatInt h(18446744073709551615ull);
        h.string();
        lexi::FormatInt i((long long)-9223372036854775807ll - 1);
        i.string();
        break;
    }
    case 2: {
        // 12 arbitrary significand bits, then fixed numbers of every layout
        lexi::FormatFloat g(mkdouble(0x3ff0000000000000ull | v_sym(12) << 40));
        g.string(); g.jsonify();
        static const uint64_t d[] = {0xffefffffffffffffull, 1, 0x8000000000000001ull, 0x0010000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull,
                                     0x7ff8000000000000ull, 0, 0xc341c37937e08000ull, 0x3eb0c6f7a0b5ed8dull, 0x444b1ae4d6e2ef50ull};
        for (size_t i = 0; i < sizeof d / sizeof *d; i++) { lexi::FormatFloat h(mkdouble(d[i])); h.string(); lexi::lexi(mkdouble(d[i])); }
        lexi::lexi(1.1f); lexi::lexi(1.1L);
        break;
    }
    case 3: {
        std::string s = sym_text(1);
        lexi::escape(s); lexi::jsonify(s);
        std::string t("quite a long text, \"quoted\" and \\ escaped\n\t\x01");
        lexi::escape(t); lexi::jsonify(t); lexi::escape("x-y"); lexi::jsonify("x-y");
        break;
    }
    case 4: {
        std::string s = sym_text(2);
        lexi::lexi<int>(s); lexi::lexi<unsigned long long>(s);
        lexi::lexi<long long>(std::string("99999999999999999999999"));
        lexi::lexi<int>(std::string("-12x"));
        lexi::lexi<int>(std::string());
        break;
    }
    case 5: {
        std::string s = sym_text(2);
        lexi::lexi<double>(s); lexi::lexi<float>(s);
        lexi::lexi<double>(std::string("1e999")); lexi::lexi<float>(std::string("1e-60")); lexi::lexi<long double>(std::string("-1e9999"));
        break;
    }
    case 6: {
        std::string s = sym_text(4);
        try { bool b = lexi::lexi<bool>(s); (void)b; } catch (std::runtime_error &) {}
        try { lexi::lexi<std::nullptr_t>(s); } catch (std::runtime_error &) {}
        try { lexi::lexi<char>(std::string()); } catch (std::runtime_error &) {}
        break;
    }
    default: {
        lexi::lexi(true); lexi::lexi(false); lexi::lexi(nullptr); lexi::lexi('c'); lexi::lexi(static_cast<Hue>(v_sym(7)));
        lexi::FormatBool b(false); b.string(); lexi::FormatNull n; n.string(); lexi::FormatChar c('"'); c.escape(); c.jsonify();
    }
    }
}
// f keeps its text while other conversions run, and a second formatter of the
// same value shows the same
template <typename F, typename V> static void alive(V x, const char *what)
{
    errno = 0;
    F f(x);
    size_t n = v_split(f.size());
    v_assert(n < 64, "size");
    char t[64];
    for (size_t i = 0; i < n; i++) t[i] = f.data()[i];
    v_out(t, n);
    std::string e = f.escape(), j = f.jsonify();
    F o(x);
    noise((int)v_param(0));
    F g(x);
    assert_same(f.data(), f.size(), t, n, "a formatter keeps its text while others are used");
    assert_same(o.data(), o.size(), t, n, "a formatter keeps its text while others are used");
    assert_same(g.data(), g.size(), t, n, what);
    assert_same(g.escape(), e, what);
    assert_same(f.jsonify(), j, what);
    assert_same(lexi::lexi(x), t, n, what);
    v_assert(f.data() != g.data() && f.data() != o.data(), "formatters have texts of their own");
    v_reach(1);
}
static const char W[] = "the same argument gives the same text after other conversions";
extern "C" void h_iso_i8() { alive<lexi::FormatInt>((int8_t)v_sym(8), W); }
extern "C" void h_iso_u16() { alive<lexi::FormatInt>((unsigned short)v_sym(16), W); }
extern "C" void h_iso_i32() { alive<lexi::FormatInt>((int)v_sym(32), W); }
extern "C" void h_iso_u32() { alive<lexi::FormatInt>((unsigned)v_sym(32), W); }
extern "C" void h_iso_ll() { alive<lexi::FormatInt>((long long)v_sym(64), W); }
extern "C" void h_iso_ull() { alive<lexi::FormatInt>((unsigned long long)v_sym(64), W); }
extern "C" void h_iso_char() { alive<lexi::FormatChar>((char)v_sym(8), W); }
extern "C" void h_iso_bool() { alive<lexi::FormatBool>((bool)v_split(v_sym(1)), W); alive<lexi::FormatNull>(nullptr, W); }
// p1: exponent field, p2: leading bit of a subnormal, p3: sign
extern "C" void h_iso_dbl()
{
    uint64_t e = (uint64_t)v_param(1), k = (uint64_t)v_param(2);
    uint64_t b = e ? e << 52 | v_sym(52) : k ? 1ull << k | v_sym((unsigned)k) : 1;
    alive<lexi::FormatFloat>(mkdouble(b | (uint64_t)v_param(3) << 63), W);
}
extern "C" void h_iso_nonfinite()
{
    alive<lexi::FormatFloat>(mkdouble(0x7ff0000000000000ull | v_sym(52) | (uint64_t)v_param(1) << 63), W);
}
extern "C" void h_iso_flt() { alive<lexi::FormatFloat>(mkfloat((uint32_t)v_param(1) << 23 | (uint32_t)v_sym(23)), W); }

// p1: length of the arbitrary text
static void keep(const std::string &s, const char *saved, size_t n)
{
    assert_same(s.data(), s.size(), saved, n, "the given text is not modified");
    v_assert(s.c_str()[n] == 0, "the given text is not modified");
}
extern "C" void h_iso_text()
{
    size_t n = v_param(1);
    char c[64];
    if (n) v_sym_bytes(c, n);
    std::string s(c, n);
    errno = 0;
    std::string e = lexi::escape(s), j = lexi::jsonify(s), p = lexi::lexi(s);
    keep(s, c, n);
    out(e);
    out(j);
    noise((int)v_param(0));
    assert_same(lexi::escape(s), e, W);
    assert_same(lexi::jsonify(s), j, W);
    assert_same(lexi::lexi(s), p, W);
    keep(s, c, n);
    v_reach(1);
}
template <typename T> static void reread()
{
    size_t n = v_param(1);
    char c[64];
    if (n) v_sym_bytes(c, n);
    std::string s(c, n);
    errno = 0;
    T a = lexi::lexi<T>(s);
    keep(s, c, n);
    noise((int)v_param(0));
    T b = lexi::lexi<T>(s);
    keep(s, c, n);
    v_outi((uint64_t)a);
    v_assert(a == b, "the same text gives the same value after other conversions");
    v_reach(1);
}
extern "C" void h_iso_ext_i32() { reread<int>(); }
extern "C" void h_iso_ext_ull() { reread<unsigned long long>(); }
extern "C" void h_iso_ext_ll() { reread<long long>(); }
extern "C" void h_iso_ext_i8() { reread<signed char>(); }
extern "C" void h_iso_ext_float()
{
    size_t n = v_param(1);
    char c[64];
    if (n) v_sym_bytes(c, n);
    std::string s(c, n);
    errno = 0;
    uint64_t a = dbits(lexi::lexi<double>(s));
    uint32_t f = fbits(lexi::lexi<float>(s));
    keep(s, c, n);
    noise((int)v_param(0));
    uint64_t b = dbits(lexi::lexi<double>(s));
    uint32_t g = fbits(lexi::lexi<float>(s));
    keep(s, c, n);
    v_assert(a == b && f == g, "the same text gives the same value after other conversions");
    v_reach(1);
}
extern "C" void h_iso_ext_bool()
{
    size_t n = v_param(1);
    char c[64];
    if (n) v_sym_bytes(c, n);
    std::string s(c, n);
    int r[2], z[2], h[2];
    for (int i = 0; i < 2; i++) {
        try { r[i] = lexi::lexi<bool>(s); } catch (std::runtime_error &) { r[i] = -2; }
        try { lexi::lexi<std::nullptr_t>(s); z[i] = 1; } catch (std::runtime_error &) { z[i] = -2; }
        try { h[i] = (unsigned char)lexi::lexi<char>(s); } catch (std::runtime_error &) { h[i] = -2; }
        keep(s, c, n);
        if (!i) noise((int)v_param(0));
    }
    v_outi((uint64_t)(int64_t)r[0]);
    v_assert(r[0] == r[1] && z[0] == z[1] && h[0] == h[1], "the same text gives the same value after other conversions");
    v_reach(1);
}

// ---------------------------------------------------------------- two conversions
// What a conversion gives in a process that has converted nothing yet (the storage is
// restored afterwards), against what it gives after another conversion of any value.
struct Text { size_t n; char t[64]; };
static void put(Text *r, const char *p, size_t n)
{
    r->n = n = v_split(n);
    v_assert(n < 64, "size");
    for (size_t i = 0; i < n; i++) r->t[i] = p[i];
}
template <typename C> static void run_it(void *c) { (*static_cast<C *>(c))(); }
template <typename C> static void alone(C f, void *buf, size_t n)
{
    if (v_symbolic()) {
        v_mark();
        f();
        v_reset();
    } else {
        v_alone(run_it<C>, &f, buf, n);
    }
}
static const char W2[] = "a conversion gives what it gives on its own, whatever ran before";
template <typename F, typename Y, typename X> static void two(Y y, X x)
{
    Text t = {0, {0}};
    alone([&] { F f(x); put(&t, f.data(), f.size()); }, &t, sizeof t);
    F g(y);
    Text u = {0, {0}};
    put(&u, g.data(), g.size());
    lexi::lexi(y);
    F f(x);
    v_out(t.t, t.n);
    assert_same(f.data(), f.size(), t.t, t.n, W2);
    assert_same(lexi::lexi(x), t.t, t.n, W2);
    assert_same(g.data(), g.size(), u.t, u.n, "a formatter keeps its text while others are used");
    v_reach(1);
}
#define TWO(N, Y, BY, X, BX) extern "C" void h_two_##N() { Y y = (Y)v_sym(BY); X x = (X)v_sym(BX); two<lexi::FormatInt>(y, x); }
TWO(ull, unsigned long long, 64, unsigned long long, 64)
TWO(ll, long long, 64, long long, 64)
TWO(i32, int, 32, int, 32)
TWO(u32, unsigned, 32, unsigned, 32)
TWO(i32u32, int, 32, unsigned, 32)
TWO(ulli32, unsigned long long, 64, int, 32)
TWO(i8u8, signed char, 8, unsigned char, 8)
TWO(i16, short, 16, short, 16)
extern "C" void h_two_char() { char y = (char)v_sym(8), x = (char)v_sym(8); two<lexi::FormatChar>(y, x); }
// p0, p1: sign and exponent fields of the two; 12 arbitrary bits in the first
extern "C" void h_two_dbl()
{
    double y = mkdouble((uint64_t)v_param(0) << 52 | v_sym(12) << 40);
    double x = mkdouble((uint64_t)v_param(1) << 52 | v_sym(52));
    two<lexi::FormatFloat>(y, x);
}
extern "C" void h_two_flt()
{
    double y = mkdouble((uint64_t)v_param(0) << 52 | v_sym(12) << 40);
    float x = mkfloat((uint32_t)v_param(1) << 23 | (uint32_t)v_sym(23));
    two<lexi::FormatFloat>(y, x);
}
// p0, p1: lengths; p2 = 1: the first text is of letters and digits only
extern "C" void h_two_text()
{
    size_t m = v_param(0), n = v_param(1);
    char a[8], b[8];
    if (m) v_sym_bytes(a, m);
    if (n) v_sym_bytes(b, n);
    if (v_param(2)) for (size_t i = 0; i < m; i++) v_assume((unsigned char)(a[i] - 'a') < 26);
    std::string y(a, m), x(b, n);
    struct { Text e, j; } t = {{0, {0}}, {0, {0}}};
    alone([&] { std::string e = lexi::escape(x), j = lexi::jsonify(x); put(&t.e, e.data(), e.size()); put(&t.j, j.data(), j.size()); }, &t, sizeof t);
    lexi::escape(y);
    lexi::jsonify(y);
    v_out(t.e.t, t.e.n);
    v_out(t.j.t, t.j.n);
    assert_same(lexi::escape(x), t.e.t, t.e.n, W2);
    assert_same(lexi::jsonify(x), t.j.t, t.j.n, W2);
    v_reach(1);
}
template <typename T> static void two_ext()
{
    size_t m = v_param(0), n = v_param(1);
    char a[16], b[16];
    if (m) v_sym_bytes(a, m);
    if (n) v_sym_bytes(b, n);
    for (size_t i = 0; i < m; i++) v_assume((unsigned char)(a[i] - '0') < 10);
    std::string y(a, m), x(b, n);
    T t = 0;
    alone([&] { t = lexi::lexi<T>(x); }, &t, sizeof t);
    lexi::lexi<T>(y);
    T u = lexi::lexi<T>(x);
    v_assert(memcmp(&t, &u, sizeof(T) == 16 ? 10 : sizeof(T)) == 0, W2);
    v_reach(1);
}
extern "C" void h_two_ext_int() { two_ext<int>(); }
extern "C" void h_two_ext_ull() { two_ext<unsigned long long>(); }
extern "C" void h_two_ext_dbl() { two_ext<double>(); }
extern "C" void h_two_ext_flt() { two_ext<float>(); }
extern "C" void h_two_ext_bool()
{
    size_t n = v_param(0);
    char a[16], b[16];
    v_sym_bytes(a, n);
    v_sym_bytes(b, n);
    std::string y(a, n), x(b, n);
    int t[2], u[2];
    auto f = [&](const std::string &s, int *r) {
        try { r[0] = lexi::lexi<bool>(s); } catch (std::runtime_error &) { r[0] = -2; }
        try { lexi::lexi<std::nullptr_t>(s); r[1] = 1; } catch (std::runtime_error &) { r[1] = -2; }
    };
    alone([&] { f(x, t); }, t, sizeof t);
    f(y, u);
    f(x, u);
    v_assert(t[0] == u[0] && t[1] == u[1], W2);
    v_reach(1);
}
