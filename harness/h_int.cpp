#include "util.h"
#include <limits>

// Formatting: the text is the canonical numeral, also escaped and as JSON.
template <typename T> static void fmt(unsigned bits)
{
    T x = (T)v_sym(bits);
    bool neg = x < 0;
    uint64_t mag = neg ? 0 - (uint64_t)(int64_t)x : (uint64_t)x;
    lexi::FormatInt f(x);
    size_t n = v_split(f.size());
    v_assert(n <= 21, "size of the text");
    v_out(f.data(), n);
    assert_decimal(f.data(), n, neg, mag, "text is the canonical decimal numeral of the value");
    assert_same(f.string(), f.data(), n, "string form");
    assert_same(f.escape(), f.data(), n, "escaped form is the same text");
    assert_same(f.jsonify(), f.data(), n, "JSON form is the same text");
    assert_same(lexi::lexi(x), f.data(), n, "generic form is the same text");
    v_reach(1);
}
// Reading the formatted text back.
template <typename T> static void round_trip(unsigned bits)
{
    T x = (T)v_sym(bits);
    lexi::FormatInt f(x);
    fits(f);
    std::string s = f.string();
    out(s);
    T y = lexi::lexi<T>(s);
    v_outi((uint64_t)y);
    v_assert(y == x, "extracting the formatted text gives the value");
    v_reach(1);
}
// Arbitrary text of p0 bytes.
template <typename T> static void text()
{
    std::string s = sym_text(v_param(0));
    size_t n = s.size(), i = 0;
    T r = T(lexi::ExtractInt(s));
    T g = lexi::lexi<T>(s);
    v_outi((uint64_t)r);
    v_assert(r == g, "generic extraction agrees");
    while (i < n && ((s[i] == ' ') | ((unsigned)((unsigned char)s[i] - 9) <= 4))) i++;
    bool neg = false;
    if (i < n && s[i] == '-') { neg = true; i++; }
    else if (i < n && s[i] == '+') i++;
    u128 v = 0;
    size_t nd = 0;
    bool big = false;
    for (; i < n && (unsigned)((unsigned char)s[i] - '0') <= 9; i++) {
        nd++;
        if (nd > 30) big = true;
        else v = v * 10 + (unsigned)(s[i] - '0');
    }
    if (nd == 0) {
        v_assert(r == 0, "text without digits yields zero");
        v_reach(1);
        return;
    }
    typedef std::numeric_limits<T> L;
    u128 lim = neg ? (L::is_signed ? (u128)(uint64_t)L::max() + 1 : 0) : (u128)(uint64_t)L::max();
    if (!big && v <= lim) {
        T want = neg ? (T)(0 - (uint64_t)v) : (T)(uint64_t)v;
        v_assert(r == want, "a representable value is read exactly");
    }
    v_reach(1);
}
// Long numerals: p0 bytes of whitespace, sign p1 (0 none, 1 '-', 2 '+'), p2 zeros, p3 arbitrary
// digits, then nothing (p4 = 0) or one arbitrary byte that is no digit and p4 - 1 digits more.
template <typename T> static void numeral()
{
    static const char ws[] = " \t\n\v\f\r";
    std::string s;
    for (int64_t i = 0; i < v_param(0); i++) s.push_back(ws[i % 6]);
    bool neg = v_param(1) == 1;
    if (v_param(1)) s.push_back(neg ? '-' : '+');
    s.append((size_t)v_param(2), '0');
    u128 v = 0;
    for (int64_t i = 0; i < v_param(3); i++) {
        unsigned char d = (unsigned char)v_sym(8);
        v_assume((unsigned)(d - '0') <= 9);
        s.push_back((char)d);
        v = v * 10 + (d - '0');
    }
    if (v_param(4)) {
        unsigned char c = (unsigned char)v_sym(8);
        v_assume((unsigned)(c - '0') > 9);
        s.push_back((char)c);
        s.append((size_t)v_param(4) - 1, '7');
    }
    typedef std::numeric_limits<T> L;
    u128 lim = neg ? (L::is_signed ? (u128)(uint64_t)L::max() + 1 : 0) : (u128)(uint64_t)L::max();
    v_assume(v <= lim);
    T want = neg ? (T)(0 - (uint64_t)v) : (T)(uint64_t)v;
    T r = lexi::lexi<T>(s), g = T(lexi::ExtractInt(s));
    v_outi((uint64_t)r);
    v_assert(r == want && g == want, "a representable value is read exactly");
    v_reach(1);
}
#define ALL(N, T, B) \
    extern "C" void h_numeral_##N() { numeral<T>(); } \
    extern "C" void h_fmt_##N() { fmt<T>(B); } \
    extern "C" void h_rt_##N() { round_trip<T>(B); } \
    extern "C" void h_text_##N() { text<T>(); }
ALL(i8, int8_t, 8)
ALL(u8, uint8_t, 8)
ALL(i16, short, 16)
ALL(u16, unsigned short, 16)
ALL(i32, int, 32)
ALL(u32, unsigned, 32)
ALL(l, long, 64)
ALL(ul, unsigned long, 64)
ALL(ll, long long, 64)
ALL(ull, unsigned long long, 64)

// Enumerations and stream positions.
enum class E_i8 : int8_t {};
enum class E_u8 : uint8_t {};
enum class E_i16 : short {};
enum class E_u16 : unsigned short {};
enum class E_i32 : int {};
enum class E_u32 : unsigned {};
enum class E_l : long {};
enum class E_ul : unsigned long {};
enum class E_ll : long long {};
enum class E_ull : unsigned long long {};
enum class E_char : char {};
enum U_i8 : int8_t {};
enum U_u16 : unsigned short {};
enum U_i32 : int {};
enum U_u32 : unsigned {};
enum U_ll : long long {};
enum U_ull : unsigned long long {};
enum class E_bool : bool {};
enum class E_wchar : wchar_t {};
enum class E_c16 : char16_t {};
enum class E_c32 : char32_t {};
enum U_char : char {};
enum U_u8 : uint8_t {};
enum U_ul : unsigned long {};
enum U_plain { U_A = -5, U_B = 100 };

template <typename E, typename T> static void enumeration(unsigned bits)
{
    T x = (T)v_sym(bits);
    E e = (E)x;
    bool neg = x < 0;
    uint64_t mag = neg ? 0 - (uint64_t)(int64_t)x : (uint64_t)x;
    std::string s = lexi::lexi(e);
    out(s);
    assert_decimal(s.data(), s.size(), neg, mag, "text is the decimal numeral of the underlying integer");
    assert_same(lexi::FormatEnum(e).string(), s, "formatter agrees");
    assert_same(lexi::string(e), s, "string form");
    assert_same(lexi::escape(e), s, "escaped form");
    assert_same(lexi::jsonify(e), s, "JSON form");
    v_assert(lexi::lexi<E>(s) == e, "extracting the text gives the value back");
    v_reach(1);
}
#define ENUM(N, T, B) extern "C" void h_enum_##N() { enumeration<E_##N, T>(B); }
#define UENUM(N, T, B) extern "C" void h_uenum_##N() { enumeration<U_##N, T>(B); }
ENUM(i8, int8_t, 8)
ENUM(u8, uint8_t, 8)
ENUM(i16, short, 16)
ENUM(u16, unsigned short, 16)
ENUM(i32, int, 32)
ENUM(u32, unsigned, 32)
ENUM(l, long, 64)
ENUM(ul, unsigned long, 64)
ENUM(ll, long long, 64)
ENUM(ull, unsigned long long, 64)
ENUM(char, char, 8)
ENUM(bool, bool, 1)
ENUM(wchar, wchar_t, 32)
ENUM(c16, char16_t, 16)
ENUM(c32, char32_t, 32)
UENUM(char, char, 8)
UENUM(u8, uint8_t, 8)
UENUM(ul, unsigned long, 64)
UENUM(i8, int8_t, 8)
UENUM(u16, unsigned short, 16)
UENUM(i32, int, 32)
UENUM(u32, unsigned, 32)
UENUM(ll, long long, 64)
UENUM(ull, unsigned long long, 64)
extern "C" void h_uenum_plain()
{
    // only values within the range of the enumerators' bits
    int x = (int8_t)v_sym(8);
    U_plain e = (U_plain)x;
    std::string s = lexi::lexi(e);
    out(s);
    assert_decimal(s.data(), s.size(), x < 0, x < 0 ? -x : x, "text is the decimal numeral of the underlying integer");
    v_assert((int)lexi::lexi<U_plain>(s) == x, "extracting the text gives the value back");
    v_reach(1);
}
// arbitrary text through the enumeration extractor: as the underlying integer
template <typename E, typename T> static void enum_text()
{
    std::string s = sym_text(v_param(0));
    v_assert((T)lexi::lexi<E>(s) == lexi::lexi<T>(s), "enumerations are read as their underlying integer");
    v_assert((T)E(lexi::ExtractEnum(s)) == lexi::lexi<T>(s), "enumerations are read as their underlying integer");
    v_reach(1);
}
extern "C" void h_enum_text_i8() { enum_text<E_i8, int8_t>(); }
extern "C" void h_enum_text_u16() { enum_text<E_u16, unsigned short>(); }
extern "C" void h_enum_text_i32() { enum_text<E_i32, int>(); }
extern "C" void h_enum_text_ull() { enum_text<E_ull, unsigned long long>(); }
extern "C" void h_enum_text_char() { enum_text<E_char, signed char>(); }
extern "C" void h_enum_text_c32() { enum_text<E_c32, unsigned>(); }
extern "C" void h_fpos()
{
    int64_t x = (int64_t)v_sym(64);
    std::streampos p((std::streamoff)x);
    std::string s = lexi::lexi(p);
    out(s);
    bool neg = x < 0;
    assert_decimal(s.data(), s.size(), neg, neg ? 0 - (uint64_t)x : (uint64_t)x, "text is the decimal numeral of the offset");
    assert_same(lexi::string(p), s, "string form");
    assert_same(lexi::escape(p), s, "escaped form");
    assert_same(lexi::jsonify(p), s, "JSON form");
    std::streampos q = lexi::lexi<std::streampos>(s);
    v_assert((std::streamoff)q == (std::streamoff)x, "extracting the text gives the position back");
    v_reach(1);
}
