#include "util.h"
#include <vector>

// ---------------------------------------------------------------- formatter objects
template <typename F> static void contract(const F &f)
{
    size_t n = v_split(f.size());
    fits(f);
    v_assert(n <= 32, "size of the text");
    v_out(f.data(), n);
    v_assert(f.length() == n, "size and length agree");
    v_assert(f.data() == f.c_str(), "data and c_str are the same pointer");
    v_assert(f.data()[n] == 0, "the text is NUL-terminated");
    std::string s = f.string();
    assert_same(s, f.data(), n, "string() is the text");
    assert_same(std::string(f), f.data(), n, "the std::string conversion is the text");
}
// escape() and jsonify() of numbers and literals are the text itself
template <typename F> static void same_forms(const F &f)
{
    size_t n = v_split(f.size());
    assert_same(f.escape(), f.data(), n, "escape() is derived from the text");
    assert_same(f.jsonify(), f.data(), n, "jsonify() is derived from the text");
}
// b shows exactly t
template <typename F> static void shows(const F &b, const std::string &t, const char *what)
{
    v_assert(b.size() == t.size() && b.length() == t.size(), what);
    assert_same(b.data(), v_split(b.size()), t.data(), t.size(), what);
    v_assert(b.c_str() == b.data() && b.data()[t.size()] == 0, what);
    assert_same(b.string(), t, what);
}
template <typename F> static void copies(const F &x, const F &other)
{
    std::string t = x.string(), u = other.string();
    F *a = new F(x);
    F b(*a);
    F c(other);
    c = *a;
    F d(std::move(*new (a) F(x)));
    F e(other);
    e = F(x);
    shows(*a, t, "a copy shows the same text");
    shows(b, t, "a copy shows the same text");
    // change the original, then destroy it
    *a = other;
    shows(*a, u, "an assigned-to formatter shows the new text");
    shows(b, t, "a copy keeps its text when the original changes");
    shows(c, t, "an assigned formatter keeps its text when the original changes");
    a->~F();
    memset((void *)a, 0x5a, sizeof(F));
    ::operator delete(a);
    shows(b, t, "a copy keeps its text when the original is destroyed");
    shows(c, t, "an assigned formatter keeps its text when the original is destroyed");
    shows(d, t, "a moved-to formatter shows the same text");
    shows(e, t, "a formatter assigned from a temporary shows its text");
    // self assignment
    F &r = b;
    b = r;
    shows(b, t, "self assignment changes nothing");
    // growing storage
    F *arr = static_cast<F *>(::operator new(sizeof(F) * 2));
    new (arr) F(x);
    F *arr2 = static_cast<F *>(::operator new(sizeof(F) * 2));
    new (arr2) F(arr[0]);
    new (arr2 + 1) F(other);
    memset((void *)arr, 0x5a, sizeof(F) * 2);
    ::operator delete(arr);
    std::swap(arr2[0], arr2[1]);
    shows(arr2[1], t, "swapping exchanges the texts");
    shows(arr2[0], u, "swapping exchanges the texts");
    ::operator delete(arr2);
}
template <typename T> static void obj_int(unsigned bits)
{
    T x = (T)v_sym(bits);
    lexi::FormatInt f(x);
    contract(f);
    same_forms(f);
    v_reach(1);
}
template <typename T> static void copy_int(unsigned bits)
{
    T x = (T)v_sym(bits);
    lexi::FormatInt f(x), o((T)77);
    copies(f, o);
    v_reach(1);
}
#define OI(N, T, B) \
    extern "C" void h_obj_##N() { obj_int<T>(B); } \
    extern "C" void h_copy_##N() { copy_int<T>(B); }
OI(i8, int8_t, 8)
OI(u8, uint8_t, 8)
OI(i16, short, 16)
OI(u16, unsigned short, 16)
OI(i32, int, 32)
OI(u32, unsigned, 32)
OI(l, long, 64)
OI(ul, unsigned long, 64)
OI(ll, long long, 64)
OI(ull, unsigned long long, 64)
// p0: exponent field, p1: leading bit of a subnormal or -1 (-2: mantissa zero), p2: sign; any mantissa
static double dbl()
{
    uint64_t m = v_sym(52);
    if (v_param(0) == 0 && v_param(1) >= 0) v_assume((m >> v_param(1)) == 1);
    if (v_param(1) == -2) m = 0;
    return mkdouble((uint64_t)v_param(2) << 63 | (uint64_t)v_param(0) << 52 | m);
}
extern "C" void h_obj_dbl() { lexi::FormatFloat f(dbl()); contract(f); same_forms(f); v_reach(1); }
extern "C" void h_copy_dbl() { copies(lexi::FormatFloat(dbl()), lexi::FormatFloat(-2.5)); v_reach(1); }
extern "C" void h_obj_flt() { lexi::FormatFloat f(mkfloat((uint32_t)v_param(0) << 23 | (uint32_t)v_sym(23))); contract(f); same_forms(f); v_reach(1); }
extern "C" void h_obj_ld() { lexi::FormatFloat f(mkld(0x8000000000000000ull | v_sym(63), (unsigned)v_param(0))); contract(f); same_forms(f); v_reach(1); }
extern "C" void h_obj_small()
{
    bool b = v_split(v_sym(1));
    lexi::FormatBool f(b);
    contract(f);
    same_forms(f);
    copies(f, lexi::FormatBool(!b));
    lexi::FormatNull n, m(nullptr);
    contract(n);
    contract(m);
    same_forms(n);
    same_forms(m);
    copies(n, m);
    double zero[2] = {0.0, -0.0};
    for (int i = 0; i < 2; i++) {
        lexi::FormatFloat z(zero[i]);
        contract(z);
        same_forms(z);
        copies(z, lexi::FormatFloat(1e300));
    }
    v_reach(1);
}
extern "C" void h_obj_char()
{
    char c = (char)v_sym(8);
    lexi::FormatChar f(c);
    contract(f);
    copies(f, lexi::FormatChar('q'));
    std::string s = f.string();
    assert_same(f.escape(), lexi::escape(s), "escape() is derived from the text");
    assert_same(f.jsonify(), lexi::jsonify(s), "jsonify() is derived from the text");
    v_reach(1);
}
enum class Color : int { red = -1, green = 7 };
extern "C" void h_obj_enum()
{
    Color c = (Color)(int)v_sym(32);
    lexi::FormatEnum f(c);
    contract(f);
    same_forms(f);
    copies(f, lexi::FormatEnum(Color::green));
    v_reach(1);
}

// ---------------------------------------------------------------- generic functions
template <typename T, typename F> static void generic(const T &t, const F &f)
{
    std::string s = f.string();
    out(s);
    assert_same(lexi::lexi(t), s, "lexi() is the formatter's text");
    assert_same(lexi::string(t), s, "string() is the formatter's text");
    assert_same(lexi::escape(t), f.escape(), "escape() is the formatter's escaped text");
    assert_same(lexi::jsonify(t), f.jsonify(), "jsonify() is the formatter's JSON text");
    assert_same(lexi::Format()(t).string(), s, "Format is the formatter");
}
template <typename T> static void g_int(unsigned bits) { T x = (T)v_sym(bits); generic(x, lexi::FormatInt(x)); v_reach(1); }
#define GI(N, T, B) extern "C" void h_gen_##N() { g_int<T>(B); }
GI(i8, signed char, 8)
GI(u8, unsigned char, 8)
GI(i16, short, 16)
GI(u16, unsigned short, 16)
GI(i32, int, 32)
GI(u32, unsigned, 32)
GI(l, long, 64)
GI(ul, unsigned long, 64)
GI(ll, long long, 64)
GI(ull, unsigned long long, 64)
extern "C" void h_gen_small()
{
    bool b = v_split(v_sym(1));
    generic(b, lexi::FormatBool(b));
    generic(nullptr, lexi::FormatNull());
    v_reach(1);
}
extern "C" void h_gen_char() { char c = (char)v_sym(8); generic(c, lexi::FormatChar(c)); v_reach(1); }
// char is text; signed and unsigned char are numbers
extern "C" void h_gen_chars()
{
    uint8_t b = (uint8_t)v_sym(8);
    std::string a = lexi::lexi((char)b), s = lexi::lexi((signed char)b), u = lexi::lexi((unsigned char)b);
    out(s);
    out(u);
    assert_same(a, std::string(1, (char)b), "char is text");
    int sv = (int8_t)b;
    assert_decimal(s.data(), v_split(s.size()), sv < 0, sv < 0 ? -sv : sv, "signed char is a number");
    assert_decimal(u.data(), v_split(u.size()), false, b, "unsigned char is a number");
    v_reach(1);
}
// the same for extraction, from arbitrary text of p0 > 0 bytes
extern "C" void h_gen_chars_ext()
{
    std::string s = sym_text(v_param(0));
    v_assert(lexi::lexi<char>(s) == s[0], "char is text");
    v_assert(lexi::lexi<signed char>(s) == (signed char)lexi::ExtractInt(s), "signed char is a number");
    v_assert(lexi::lexi<unsigned char>(s) == (unsigned char)lexi::ExtractInt(s), "unsigned char is a number");
    v_assert((int)lexi::lexi<signed char>(s) == (int8_t)lexi::lexi<long long>(s), "signed char is a number");
    v_reach(1);
}
extern "C" void h_gen_dbl() { double x = dbl(); generic(x, lexi::FormatFloat(x)); v_reach(1); }
extern "C" void h_gen_flt() { float x = mkfloat((uint32_t)v_param(0) << 23 | (uint32_t)v_sym(23)); generic(x, lexi::FormatFloat(x)); v_reach(1); }
extern "C" void h_gen_ld() { long double x = mkld(0x8000000000000000ull | v_sym(63), (unsigned)v_param(0)); generic(x, lexi::FormatFloat(x)); v_reach(1); }
enum Plain { P0, P1 = 9 };
enum class Small : unsigned char {};
extern "C" void h_gen_enum()
{
    Color c = (Color)(int)v_sym(32);
    generic(c, lexi::FormatEnum(c));
    generic(c, lexi::FormatInt((int)c));
    Small m = (Small)v_sym(8);
    generic(m, lexi::FormatInt((unsigned char)m));
    v_reach(1);
}
extern "C" void h_gen_enum_plain()
{
    Plain p = (Plain)v_sym(4);
    generic(p, lexi::FormatInt((int)p));
    generic(p, lexi::FormatEnum(p));
    v_reach(1);
}
enum class Huge : unsigned long long {};
enum Wide : long long {};
extern "C" void h_gen_enum64()
{
    Huge h = (Huge)v_sym(64);
    generic(h, lexi::FormatInt((unsigned long long)h));
    v_reach(1);
}
extern "C" void h_gen_enum64s()
{
    Wide w = (Wide)v_sym(64);
    generic(w, lexi::FormatInt((long long)w));
    v_reach(1);
}
extern "C" void h_gen_fpos()
{
    std::streamoff o = (std::streamoff)v_sym(64);
    generic(std::streampos(o), lexi::FormatInt(o));
    v_reach(1);
}
// extraction through the facade, from std::string and from a C string
template <typename T, typename X> static void ext()
{
    std::string s = sym_text(v_param(0));
    T want = T(X(s));
    T a = lexi::lexi<T>(s);
    T c = lexi::Extract<T>()(s);
    v_outi((uint64_t)want);
    v_assert(a == want && c == want, "generic extraction is the extractor's");
    bool nul = false;
    for (size_t i = 0; i < s.size(); i++) nul = nul | (s[i] == 0);
    if (!nul) v_assert(lexi::lexi<T>(s.c_str()) == want, "a C string is read as the same std::string");
    v_reach(1);
}
#define GX(N, T, X) extern "C" void h_gext_##N() { ext<T, lexi::X>(); }
GX(i8, signed char, ExtractInt)
GX(u8, unsigned char, ExtractInt)
GX(i16, short, ExtractInt)
GX(u16, unsigned short, ExtractInt)
GX(i32, int, ExtractInt)
GX(u32, unsigned, ExtractInt)
GX(l, long, ExtractInt)
GX(ul, unsigned long, ExtractInt)
GX(ll, long long, ExtractInt)
GX(ull, unsigned long long, ExtractInt)
GX(char, char, ExtractChar)
extern "C" void h_gext_enum()
{
    std::string s = sym_text(v_param(0));
    v_assert(lexi::lexi<Color>(s) == Color(lexi::ExtractEnum(s)), "generic extraction is the extractor's");
    v_assert((int)lexi::lexi<Color>(s.c_str()) == lexi::lexi<int>(s.c_str()), "enumerations are read as integers");
    v_assert((std::streamoff)lexi::lexi<std::streampos>(s) == (std::streamoff)(long)lexi::ExtractInt(s), "stream positions are read as integers");
    v_reach(1);
}
extern "C" void h_gext_float()
{
    std::string s = sym_text(v_param(0));
    float f = lexi::lexi<float>(s);
    double d = lexi::lexi<double>(s);
    long double l = lexi::lexi<long double>(s);
    v_assert_conv(0, &f, s.c_str(), "generic extraction is the extractor's");
    v_assert_conv(1, &d, s.c_str(), "generic extraction is the extractor's");
    v_assert_conv(2, &l, s.c_str(), "generic extraction is the extractor's");
    float f2 = lexi::lexi<float>(s.c_str());
    double d2 = lexi::lexi<double>(s.c_str());
    v_assert_conv(0, &f2, s.c_str(), "a C string is read as the same std::string");
    v_assert_conv(1, &d2, s.c_str(), "a C string is read as the same std::string");
    v_reach(1);
}
template <typename T> static int tri(const std::string &s)
{
    try { return lexi::lexi<T>(s) ? 1 : 0; } catch (std::runtime_error &) { return -2; } catch (...) { return -3; }
}
extern "C" void h_gext_bool()
{
    std::string s = sym_text(v_param(0));
    int w, n, m;
    try { w = bool(lexi::ExtractBool(s)); } catch (std::runtime_error &) { w = -2; } catch (...) { w = -3; }
    v_assert(tri<bool>(s) == w, "generic extraction is the extractor's");
    try { lexi::ExtractNull x(s); n = 0; } catch (std::runtime_error &) { n = -2; } catch (...) { n = -3; }
    v_assert(tri<std::nullptr_t>(s) == n, "generic extraction is the extractor's");
    v_outi((uint64_t)(int64_t)w);
    v_reach(1);
}
// text passes through, whatever string type it comes in; p0 bytes, no NUL for C strings
extern "C" void h_gen_string()
{
    size_t n = v_param(0);
    std::string s = sym_text(n);
    assert_same(lexi::lexi(s), s, "a std::string passes through");
    assert_same(lexi::string(s), s, "a std::string passes through");
    assert_same(lexi::escape(s), lexi::detail::escape(s), "a std::string is escaped");
    assert_same(lexi::jsonify(s), "\"" + lexi::detail::jsonify(s) + "\"", "a std::string is quoted");
    out(s);
    v_reach(1);
}
extern "C" void h_gen_cstr()
{
    size_t n = v_param(0);
    std::string s = sym_text(n);
    for (size_t i = 0; i < n; i++) v_assume(s[i] != 0);
    char arr[8] = {0};
    for (size_t i = 0; i < n && i < 7; i++) arr[i] = s[i];
    const char *p = s.c_str();
    char *q = arr;
    assert_same(lexi::lexi(p), s, "a C string passes through");
    assert_same(lexi::string(p), s, "a C string passes through");
    assert_same(lexi::lexi(q), s, "a C string passes through");
    assert_same(lexi::string(q), s, "a C string passes through");
    assert_same(lexi::escape(q), lexi::detail::escape(s), "a C string is escaped");
    assert_same(lexi::jsonify(q), "\"" + lexi::detail::jsonify(s) + "\"", "a C string is quoted");
    assert_same(lexi::string(arr), s, "a character array passes through");
    assert_same(lexi::lexi(arr), s, "a character array passes through");
    std::string e = lexi::detail::escape(s), j = "\"" + lexi::detail::jsonify(s) + "\"";
    assert_same(lexi::escape(p), e, "a C string is escaped");
    assert_same(lexi::escape(arr), e, "a character array is escaped");
    assert_same(lexi::jsonify(p), j, "a C string is quoted");
    assert_same(lexi::jsonify(arr), j, "a character array is quoted");
    assert_same(lexi::lexi("lit\"eral"), "lit\"eral", 8, "a literal passes through");
    assert_same(lexi::string("literal"), "literal", 7, "a literal passes through");
    assert_same(lexi::escape("a b"), "a\\ b", 4, "a literal is escaped");
    assert_same(lexi::jsonify("a\nb"), "\"a\\nb\"", 6, "a literal is quoted");
    out(e);
    v_reach(1);
}

// a long text (p0 bytes of mixed classes, an arbitrary one at p1) through every string type
extern "C" void h_gen_long()
{
    size_t n = v_param(0), at = v_param(1);
    static const char fill[] = "aZ0/:@[`{~\x7f\x80\xff 9A\"\\\n\x01";
    std::string s(n, 'x');
    for (size_t i = 0; i < n; i++) s[i] = fill[i % 20];
    s[at] = (char)v_sym(8);
    const std::string keep = s;
    std::string e = lexi::detail::escape(s), j = "\"" + lexi::detail::jsonify(s) + "\"";
    assert_same(lexi::lexi(s), keep, "a std::string passes through");
    assert_same(lexi::string(s), keep, "a std::string passes through");
    assert_same(lexi::escape(s), e, "a std::string is escaped");
    assert_same(lexi::jsonify(s), j, "a std::string is quoted");
    struct Derived : std::string { Derived(const std::string &x) : std::string(x) {} } dv(s);
    assert_same(lexi::lexi(dv), keep, "a type derived from std::string passes through");
    assert_same(lexi::escape(dv), e, "a type derived from std::string is escaped");
    assert_same(lexi::jsonify(dv), j, "a type derived from std::string is quoted");
    if (keep[at]) {
        const char *p = keep.c_str();
        assert_same(lexi::lexi(p), keep, "a C string passes through");
        assert_same(lexi::string(p), keep, "a C string passes through");
        assert_same(lexi::escape(p), e, "a C string is escaped");
        assert_same(lexi::jsonify(p), j, "a C string is quoted");
    }
    out(j);
    v_reach(1);
}

// a numeral that starts or ends far into the text, through generic extraction: p0 characters of
// padding of kind p1 (0 spaces before, 1 zeros before, 2 arbitrary tail after)
extern "C" void h_gext_long()
{
    size_t pad = v_param(0);
    int kind = (int)v_param(1);
    char d[3];
    for (int i = 0; i < 3; i++) { uint64_t x = v_sym(8); v_assume(x >= '0' && x <= '9'); d[i] = (char)x; }
    std::string s;
    if (kind == 0) s.append(pad, ' ');
    if (kind == 1) s.append(pad, '0');
    s.append(d, 3);
    if (kind == 2) s.append(pad, ';');
    const std::string keep = s;
    long want = (d[0] - '0') * 100 + (d[1] - '0') * 10 + (d[2] - '0');
    v_assert(lexi::lexi<int>(s) == want, "generic extraction is the extractor's");
    v_assert(lexi::lexi<long long>(s) == want, "generic extraction is the extractor's");
    v_assert(lexi::lexi<unsigned long>(s) == (unsigned long)want, "generic extraction is the extractor's");
    v_assert(lexi::lexi<short>(s.c_str()) == want, "a C string is read as the same std::string");
    v_assert(lexi::lexi<unsigned long long>(s.c_str()) == (unsigned long long)want, "a C string is read as the same std::string");
    v_assert((int)lexi::lexi<Color>(s) == want && (int)lexi::lexi<Color>(s.c_str()) == want, "enumerations are read as integers");
    v_assert(lexi::lexi<std::streampos>(s) == std::streampos(want), "stream positions are read as integers");
    float f = lexi::lexi<float>(s), f2 = lexi::lexi<float>(s.c_str());
    double e = lexi::lexi<double>(s), e2 = lexi::lexi<double>(s.c_str());
    long double l = lexi::lexi<long double>(s), l2 = lexi::lexi<long double>(s.c_str());
    v_assert_conv(0, &f, s.c_str(), "generic extraction is the extractor's");
    v_assert_conv(1, &e, s.c_str(), "generic extraction is the extractor's");
    v_assert_conv(2, &l, s.c_str(), "generic extraction is the extractor's");
    v_assert_conv(0, &f2, s.c_str(), "a C string is read as the same std::string");
    v_assert_conv(1, &e2, s.c_str(), "a C string is read as the same std::string");
    v_assert_conv(2, &l2, s.c_str(), "a C string is read as the same std::string");
    v_assert(lexi::lexi<char>(s) == keep[0] && lexi::lexi<char>(s.c_str()) == keep[0], "char is text");
    assert_same(s, keep, "the text is not modified");
    v_reach(1);
}
