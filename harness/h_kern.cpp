#include "util.h"
#include "lexi/detail/diyfp.hpp"
#include "lexi/detail/pow.hpp"
using lexi::detail::DiyFp;

// the compiler rounds these literals to the nearest double
static const double P10[309] = {
    1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11,
    1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e23,
    1e24, 1e25, 1e26, 1e27, 1e28, 1e29, 1e30, 1e31, 1e32, 1e33, 1e34, 1e35,
    1e36, 1e37, 1e38, 1e39, 1e40, 1e41, 1e42, 1e43, 1e44, 1e45, 1e46, 1e47,
    1e48, 1e49, 1e50, 1e51, 1e52, 1e53, 1e54, 1e55, 1e56, 1e57, 1e58, 1e59,
    1e60, 1e61, 1e62, 1e63, 1e64, 1e65, 1e66, 1e67, 1e68, 1e69, 1e70, 1e71,
    1e72, 1e73, 1e74, 1e75, 1e76, 1e77, 1e78, 1e79, 1e80, 1e81, 1e82, 1e83,
    1e84, 1e85, 1e86, 1e87, 1e88, 1e89, 1e90, 1e91, 1e92, 1e93, 1e94, 1e95,
    1e96, 1e97, 1e98, 1e99, 1e100, 1e101, 1e102, 1e103, 1e104, 1e105, 1e106, 1e107,
    1e108, 1e109, 1e110, 1e111, 1e112, 1e113, 1e114, 1e115, 1e116, 1e117, 1e118, 1e119,
    1e120, 1e121, 1e122, 1e123, 1e124, 1e125, 1e126, 1e127, 1e128, 1e129, 1e130, 1e131,
    1e132, 1e133, 1e134, 1e135, 1e136, 1e137, 1e138, 1e139, 1e140, 1e141, 1e142, 1e143,
    1e144, 1e145, 1e146, 1e147, 1e148, 1e149, 1e150, 1e151, 1e152, 1e153, 1e154, 1e155,
    1e156, 1e157, 1e158, 1e159, 1e160, 1e161, 1e162, 1e163, 1e164, 1e165, 1e166, 1e167,
    1e168, 1e169, 1e170, 1e171, 1e172, 1e173, 1e174, 1e175, 1e176, 1e177, 1e178, 1e179,
    1e180, 1e181, 1e182, 1e183, 1e184, 1e185, 1e186, 1e187, 1e188, 1e189, 1e190, 1e191,
    1e192, 1e193, 1e194, 1e195, 1e196, 1e197, 1e198, 1e199, 1e200, 1e201, 1e202, 1e203,
    1e204, 1e205, 1e206, 1e207, 1e208, 1e209, 1e210, 1e211, 1e212, 1e213, 1e214, 1e215,
    1e216, 1e217, 1e218, 1e219, 1e220, 1e221, 1e222, 1e223, 1e224, 1e225, 1e226, 1e227,
    1e228, 1e229, 1e230, 1e231, 1e232, 1e233, 1e234, 1e235, 1e236, 1e237, 1e238, 1e239,
    1e240, 1e241, 1e242, 1e243, 1e244, 1e245, 1e246, 1e247, 1e248, 1e249, 1e250, 1e251,
    1e252, 1e253, 1e254, 1e255, 1e256, 1e257, 1e258, 1e259, 1e260, 1e261, 1e262, 1e263,
    1e264, 1e265, 1e266, 1e267, 1e268, 1e269, 1e270, 1e271, 1e272, 1e273, 1e274, 1e275,
    1e276, 1e277, 1e278, 1e279, 1e280, 1e281, 1e282, 1e283, 1e284, 1e285, 1e286, 1e287,
    1e288, 1e289, 1e290, 1e291, 1e292, 1e293, 1e294, 1e295, 1e296, 1e297, 1e298, 1e299,
    1e300, 1e301, 1e302, 1e303, 1e304, 1e305, 1e306, 1e307, 1e308};
extern "C" void h_pow10()
{
    unsigned n = (unsigned)v_sym(9);
    v_assume(n <= 308);
    double r = lexi::detail::pow10((int)n);
    uint64_t a, b;
    memcpy(&a, &r, 8);
    memcpy(&b, &P10[n], 8);
    v_outi(a);
    v_assert(a == b, "the double nearest to the power of ten");
    v_reach(1);
}
// p0: 0 normal, 1 subnormal or zero
extern "C" void h_diy_decode()
{
    uint64_t b = v_sym(64);
    uint64_t m = b & 0xfffffffffffffull;
    unsigned e = (unsigned)(b >> 52) & 0x7ff;
    v_assume(e != 0x7ff);
    v_assume((e == 0) == (bool)v_param(0));
    DiyFp d(mkdouble(b));
    v_outi(d.f);
    v_outi((uint64_t)(int64_t)d.e);
    v_assert(d.f == (e ? m | 1ull << 52 : m), "significand of the decoded double");
    v_assert(d.e == (e ? (int)e : 1) - 1075, "exponent of the decoded double");
    DiyFp z;
    v_assert(z.f == 0 && z.e == 0, "default value");
    DiyFp y(b, (int)e - 1000);
    v_assert(y.f == b && y.e == (int)e - 1000, "value from parts");
    v_reach(1);
}
static void diy(DiyFp &d, int lead)
{
    d.f = lead ? 1ull << lead | v_sym(lead) : 1;
    d.e = (int)v_sym(12) - 2048;
}
// p0: position of the leading bit
extern "C" void h_diy_normalize()
{
    DiyFp d;
    int lead = (int)v_param(0);
    diy(d, lead);
    DiyFp n = d.normalize();
    v_outi(n.f);
    v_outi((uint64_t)(int64_t)n.e);
    v_assert(n.f == d.f << (63 - lead), "normalising fills 64 bits and keeps the value");
    v_assert(n.e == d.e - (63 - lead), "normalising keeps the value");
    v_reach(1);
}
// p0: position of the leading bit (at most 53: a double's boundary)
extern "C" void h_diy_boundary()
{
    DiyFp d;
    int lead = (int)v_param(0);
    diy(d, lead);
    DiyFp n = d.normalizeBoundary();
    v_outi(n.f);
    v_outi((uint64_t)(int64_t)n.e);
    v_assert(n.f == d.f << (63 - lead), "normalising a boundary fills 64 bits and keeps the value");
    v_assert(n.e == d.e - (63 - lead), "normalising a boundary keeps the value");
    v_reach(1);
}
// p0: exponent field of the double, p1: leading bit of a subnormal
extern "C" void h_diy_boundaries()
{
    uint64_t b = v_param(0) ? (uint64_t)v_param(0) << 52 | v_sym(52) : v_param(1) ? 1ull << v_param(1) | v_sym((unsigned)v_param(1)) : 1;
    int e = (v_param(0) ? (int)v_param(0) : 1) - 1075;
    uint64_t f = v_param(0) ? (b & 0xfffffffffffffull) | 1ull << 52 : b;
    int lead = v_param(0) ? 52 : (int)v_param(1);
    DiyFp lo, hi;
    DiyFp(mkdouble(b)).normalizedBoundaries(&lo, &hi);
    v_outi(lo.f);
    v_outi(hi.f);
    v_outi((uint64_t)(int64_t)hi.e);
    // half way to the next double: (2f + 1) * 2^(e-1), with the leading bit at 63
    int s = 63 - (lead + 1);
    v_assert(hi.e == e - 1 - s, "exponent of the upper boundary");
    v_assert(hi.f == (2 * f + 1) << s, "the upper boundary is exact");
    v_assert(lo.e == hi.e, "boundaries share the exponent");
    // half way to the previous one, a quarter below a power of two (where the spacing halves)
    bool p2 = v_param(0) > 1 && (b & 0xfffffffffffffull) == 0;
    v_assert(lo.f == (p2 ? (4 * f - 1) << (s - 1) : (2 * f - 1) << s), "the lower boundary is exact");
    v_reach(1);
}
extern "C" void h_diy_sub()
{
    DiyFp a, b;
    a.f = v_sym(64);
    b.f = v_sym(64);
    a.e = b.e = (int)v_sym(12) - 2048;
    v_assume(a.f >= b.f);
    DiyFp d = a - b;
    v_outi(d.f);
    v_assert(d.f == a.f - b.f && d.e == a.e, "the difference is exact");
    v_reach(1);
}
extern "C" void h_diy_mul()
{
    DiyFp a, b;
    a.f = v_sym(64);
    b.f = v_sym(64);
    a.e = (int)v_sym(12) - 2048;
    b.e = (int)v_sym(12) - 2048;
    DiyFp p = a * b;
    v_outi(p.f);
    v_outi((uint64_t)(int64_t)p.e);
    u128 q = (u128)a.f * b.f + ((u128)1 << 63);
    v_assert(p.f == (uint64_t)(q >> 64), "the upper half of the product, rounded half up");
    v_assert(p.e == a.e + b.e + 64, "exponent of the product");
    v_reach(1);
}
