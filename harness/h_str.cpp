#include "util.h"

// p0: length, all bytes arbitrary
static void check_escape(const std::string &in, const std::string &o)
{
    size_t n = in.size(), m = v_split(o.size());
    size_t j = 0;
    for (size_t i = 0; i < n; i++) {
        unsigned char c = (unsigned char)in[i];
        if (needs_escape(c)) {
            v_assert(j < m && o[j] == '\\', "a backslash before every non-alphanumeric ASCII byte");
            j++;
        }
        v_assert(j < m && (unsigned char)o[j] == c, "every byte is kept, in order");
        j++;
    }
    v_assert(j == m, "nothing else is added");
}
extern "C" void h_escape()
{
    std::string s = sym_text(v_param(0));
    std::string keep = s;
    std::string o = lexi::detail::escape(s);
    out(o);
    check_escape(keep, o);
    v_reach(1);
}
extern "C" void h_escape_generic()
{
    std::string s = sym_text(v_param(0));
    std::string o = lexi::escape(s);
    out(o);
    check_escape(s, o);
    v_reach(1);
}
// a long text: p0 length, p1 number of arbitrary bytes, p2 where they start;
// the others cycle through a fixed alphabet that mixes the classes (p3 = 0) or are all alike
static std::string long_text(size_t n, size_t k, size_t at, int64_t kind)
{
    static const char same[] = "a\x01\"\xff/";
    static const char fill[] = "aZ0/:@[`{~\x7f\x80\xff 9A\"\\\n\x01";
    std::string s(n, 'x');
    for (size_t i = 0; i < n; i++)
        s[i] = kind ? same[kind - 1] : fill[i % 20];
    char b[16];
    v_sym_bytes(b, k);
    for (size_t i = 0; i < k; i++)
        s[at + i] = b[i];
    return s;
}
extern "C" void h_escape_long()
{
    std::string s = long_text(v_param(0), v_param(1), v_param(2), v_param(3));
    std::string o = lexi::escape(s);
    out(o);
    check_escape(s, o);
    v_reach(1);
}

// JSON: o must be a quoted literal whose decoding is in, with exactly the
// required escapes
static int hexval(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static void check_json_body(const std::string &in, const std::string &o, size_t j, size_t end)
{
    for (size_t i = 0; i < in.size(); i++) {
        unsigned char c = (unsigned char)in[i];
        v_assert(j < end, "the literal decodes to the input");
        unsigned char d = (unsigned char)o[j];
        if (c == '"' || c == '\\' || c < 0x20) {
            v_assert(d == '\\', "quote, backslash and control bytes are escaped");
            v_assert(j + 1 < end, "the literal decodes to the input");
            unsigned char x = (unsigned char)o[j + 1];
            if (c == '"' || c == '\\') { v_assert(x == c, "quote and backslash are escaped by a backslash"); j += 2; }
            else if (c == '\b') { v_assert(x == 'b', "\\b"); j += 2; }
            else if (c == '\f') { v_assert(x == 'f', "\\f"); j += 2; }
            else if (c == '\n') { v_assert(x == 'n', "\\n"); j += 2; }
            else if (c == '\r') { v_assert(x == 'r', "\\r"); j += 2; }
            else if (c == '\t') { v_assert(x == 't', "\\t"); j += 2; }
            else {
                v_assert(x == 'u' && j + 5 < end, "other control bytes are \\u escapes");
                v_assert(o[j + 2] == '0' && o[j + 3] == '0', "\\u00xx");
                unsigned char h = (unsigned char)o[j + 4], l = (unsigned char)o[j + 5];
                unsigned lo = c & 15;
                v_assert(h == '0' + (c >> 4), "first hex digit");
                v_assert(l == (lo < 10 ? '0' + lo : 'a' + (lo - 10)), "second hex digit, lower case");
                j += 6;
            }
        } else {
            v_assert(d == c, "other bytes are copied");
            j++;
        }
    }
    v_assert(j == end, "nothing else is added");
}
static void check_json(const std::string &in, const std::string &o)
{
    size_t m = v_split(o.size());
    v_assert(m >= 2 && o[0] == '"' && o[m - 1] == '"', "a double-quoted literal");
    check_json_body(in, o, 1, m - 1);
}
extern "C" void h_json()
{
    std::string s = sym_text(v_param(0));
    std::string o = lexi::jsonify(s);
    out(o);
    check_json(s, o);
    v_reach(1);
}
extern "C" void h_json_detail()
{
    std::string s = sym_text(v_param(0));
    std::string keep = s;
    std::string o = lexi::detail::jsonify(s);
    out(o);
    check_json_body(keep, o, 0, v_split(o.size()));
    v_reach(1);
}
extern "C" void h_json_long()
{
    std::string s = long_text(v_param(0), v_param(1), v_param(2), v_param(3));
    std::string o = lexi::jsonify(s);
    out(o);
    check_json(s, o);
    v_reach(1);
}

// characters
extern "C" void h_char()
{
    char c = (char)v_sym(8);
    lexi::FormatChar f(c);
    v_assert(f.size() == 1 && f.length() == 1, "size 1");
    v_assert(f.data()[0] == c && f.data()[1] == 0 && f.c_str() == f.data(), "the byte, NUL-terminated");
    std::string one(1, c);
    assert_same(f.string(), one, "one-character string");
    assert_same(std::string(f), one, "one-character string");
    std::string e = f.escape(), j = f.jsonify();
    out(e);
    out(j);
    check_escape(one, e);
    check_json(one, j);
    assert_same(e, lexi::escape(one), "as escaping the one-byte string");
    assert_same(j, lexi::jsonify(one), "as the JSON form of the one-byte string");
    assert_same(lexi::lexi(c), one, "one-character string");
    v_assert(lexi::lexi<char>(one) == c, "extracting gives the character");
    v_reach(1);
}
extern "C" void h_uchar()
{
    unsigned char c = (unsigned char)v_sym(8);
    lexi::FormatChar f(c);
    v_assert(f.size() == 1 && f.length() == 1, "size 1");
    v_assert((unsigned char)f.data()[0] == c && f.data()[1] == 0, "the byte, NUL-terminated");
    std::string one(1, (char)c);
    assert_same(f.string(), one, "one-character string");
    std::string e = f.escape(), j = f.jsonify();
    out(e);
    out(j);
    check_escape(one, e);
    check_json(one, j);
    v_assert((unsigned char)lexi::ExtractChar(one) == c, "extracting gives the character");
    v_reach(1);
}
extern "C" void h_char_extract()
{
    std::string s = sym_text(v_param(0));
    int r = -1;
    try {
        lexi::ExtractChar x(s);
        r = (unsigned char)(char)x;
        v_assert((unsigned char)x == r, "both conversions agree");
        v_assert((unsigned char)lexi::lexi<char>(s) == r, "generic extraction agrees");
    } catch (std::runtime_error &) {
        r = -2;
    } catch (...) {
        r = -3;
    }
    v_outi((uint64_t)(int64_t)r);
    if (s.empty()) v_assert(r == -2, "empty text throws std::runtime_error");
    else v_assert(r == (unsigned char)s[0], "the first byte");
    v_reach(1);
}

// booleans and null; the expected spellings
#ifndef W_TRUE
#define W_TRUE "true"
#define W_FALSE "false"
#define W_NULL "null"
#define W_NAN "NaN"
#define W_INFINITY "Infinity"
#define W_NEGATIVE_INFINITY "-Infinity"
#endif
static bool is(const std::string &s, const char *lit)
{
    size_t n = strlen(lit);
    if (s.size() != n) return false;
    bool same = true;
    for (size_t i = 0; i < n; i++) same = same & (s[i] == lit[i]);
    return same;
}
static void bool_extract(const std::string &s)
{
    int r, g;
    try { r = bool(lexi::ExtractBool(s)); } catch (std::runtime_error &) { r = -2; } catch (...) { r = -3; }
    try { g = lexi::lexi<bool>(s); } catch (std::runtime_error &) { g = -2; } catch (...) { g = -3; }
    v_outi((uint64_t)(int64_t)r);
    v_assert(r == g, "generic extraction agrees");
    if (is(s, W_TRUE)) v_assert(r == 1, "the true literal gives true");
    else if (is(s, W_FALSE)) v_assert(r == 0, "the false literal gives false");
    else v_assert(r == -2, "any other text throws std::runtime_error");
    v_reach(1);
}
extern "C" void h_bool_extract() { bool_extract(sym_text(v_param(0))); }
static void null_extract(const std::string &s)
{
    int r, g, h;
    try { r = lexi::ExtractNull(s).null() == nullptr; } catch (std::runtime_error &) { r = -2; } catch (...) { r = -3; }
    try { h = std::nullptr_t(lexi::ExtractNull(s)) == nullptr; } catch (std::runtime_error &) { h = -2; } catch (...) { h = -3; }
    try { g = lexi::lexi<std::nullptr_t>(s) == nullptr; } catch (std::runtime_error &) { g = -2; } catch (...) { g = -3; }
    v_outi((uint64_t)(int64_t)r);
    v_assert(r == g && r == h, "generic extraction agrees");
    if (is(s, W_NULL)) v_assert(r == 1, "the null literal gives null");
    else v_assert(r == -2, "any other text throws std::runtime_error");
    v_reach(1);
}
extern "C" void h_null_extract() { null_extract(sym_text(v_param(0))); }
// long texts that begin (p1 = 0, 1, 2: true, false, null) or end (3, 4, 5) with a literal; p0 bytes, four of
// them arbitrary
extern "C" void h_lit_long()
{
    size_t n = v_param(0);
    int k = (int)v_param(1);
    std::string l = k % 3 == 0 ? W_TRUE : k % 3 == 1 ? W_FALSE : W_NULL, s(n, 'e');
    for (size_t i = 0; i < l.size() && i < n; i++) s[k < 3 ? i : n - l.size() + i] = l[i];
    for (size_t i = 0; i < 4; i++) s[k < 3 ? n - 1 - i : i] = (char)v_sym(8);
    bool_extract(s);
    null_extract(s);
}
template <typename F> static void lit(const F &f, const char *t)
{
    size_t n = strlen(t);
    v_assert(f.size() == n && f.length() == n, "size of the literal");
    assert_same(f.data(), f.size(), t, n, "the literal");
    v_assert(f.c_str() == f.data() && f.data()[n] == 0, "NUL-terminated");
    std::string s(t);
    assert_same(f.string(), s, "the literal");
    assert_same(std::string(f), s, "the literal");
    assert_same(f.escape(), s, "escaped literal");
    assert_same(f.jsonify(), s, "JSON literal");
}
extern "C" void h_lit_format()
{
    bool b = v_split(v_sym(1));
    lexi::FormatBool f(b);
    v_out(f.data(), f.size());
    lit(f, b ? W_TRUE : W_FALSE);
    lit(lexi::FormatNull(), W_NULL);
    lit(lexi::FormatNull(nullptr), W_NULL);
    std::string bs(b ? W_TRUE : W_FALSE), ns(W_NULL);
    assert_same(lexi::lexi(b), bs, "generic format");
    assert_same(lexi::string(b), bs, "generic format");
    assert_same(lexi::escape(b), bs, "generic escape");
    assert_same(lexi::jsonify(b), bs, "generic JSON");
    assert_same(lexi::lexi(nullptr), ns, "generic format");
    assert_same(lexi::string(nullptr), ns, "generic format");
    assert_same(lexi::escape(nullptr), ns, "generic escape");
    assert_same(lexi::jsonify(nullptr), ns, "generic JSON");
    v_assert(lexi::lexi<bool>(lexi::lexi(b)) == b, "reading the text back");
    v_reach(1);
}
// configured float literals
extern "C" void h_lit_float()
{
    lit(lexi::FormatFloat(mkdouble(0x7ff0000000000000ull)), W_INFINITY);
    lit(lexi::FormatFloat(mkdouble(0xfff0000000000000ull)), W_NEGATIVE_INFINITY);
    lit(lexi::FormatFloat(mkfloat(0x7f800000u)), W_INFINITY);
    lit(lexi::FormatFloat(mkfloat(0xff800000u)), W_NEGATIVE_INFINITY);
    lit(lexi::FormatFloat(mkld(0x8000000000000000ull, 0x7fff)), W_INFINITY);
    lit(lexi::FormatFloat(mkld(0x8000000000000000ull, 0xffff)), W_NEGATIVE_INFINITY);
    uint64_t m = v_sym(52);
    bool neg = v_split(v_sym(1));
    v_assume(m != 0);
    lexi::FormatFloat f(mkdouble((uint64_t)neg << 63 | 0x7ff0000000000000ull | m));
    v_out(f.data(), v_split(f.size()));
    lit(f, W_NAN);
    v_reach(1);
}
