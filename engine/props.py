"""The jobs that decide each property.

A job is one harness with concrete parameters; everything the harness takes from
v_sym is symbolic.  Modules name the harness files and the macros they (and the
library) are compiled with."""

COMMON_ASSUME = [
    'x86-64 Linux ABI of clang 18; C locale; round-to-nearest; no other thread changes errno or the locale during a call',
    'memory allocation succeeds',
]


def J(fn, params=(), mod='m', **kw):
    return dict(fn=fn, params=list(params), mod=mod, **kw)


INT_T = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'l', 'ul', 'll', 'ull']
PROPS = {}
FLT_FN = ('_dbl', '_flt', '_ld')


def thin(js):
    """Solver models of float paths are slow to find: take them from 1 job in 24, random inputs from all."""
    k = 0
    for j in js:
        if any(x in j['fn'] for x in FLT_FN) and len(j['params']) and 'nonfinite' not in j['fn']:
            j.setdefault('opts', dict(models=2 if k % 24 == 0 else 0, rand=3))
            k += 1
    return js


def prop(pid, mods, bounds, assume=(), **kw):
    def deco(f):
        PROPS[pid] = dict(level='model_checking', mods=mods, jobs=lambda t: thin(f(t)), bounds=bounds, assume=list(assume), **kw)
        return f
    return deco


def full(tier):
    return tier == 'thorough'


def spread(lo, hi, step, extra=()):
    """lo..hi in strides, ends and extra values included, in an order that mixes magnitudes."""
    s = sorted(set(range(lo, hi + 1, step)) | {lo, hi} | {x for x in extra if lo <= x <= hi})
    out = []
    for k in (0, 1, 2, 3):
        out += s[k::4]
    return out


# the texts of the exponents that decide the layout: longest (1003..1006), whole (1043..1077), scientific (1093)
LAYOUT = (1002, 1003, 1004, 1006, 1023, 1044, 1075, 1092, 1093)


# double exponent fields: 1..2046 normal, 0 with the leading bit 0..51 subnormal
DBL_EDGE = (1, 2, 3, 1002, 1003, 1004, 1005, 1006, 1022, 1023, 1024, 1043, 1044, 1046, 1073, 1074, 1075, 1076, 1077, 1092, 1093, 1094, 2044, 2045, 2046)
FLT_EDGE = (1, 2, 126, 127, 128, 150, 151, 253, 254)


def doubles(fn, tier, step, substep=1, negstep=None, mod='m', **kw):
    out = []
    es = spread(1, 2046, 1 if full(tier) else step, DBL_EDGE)
    out += [J(fn, (e, -1, 0), mod, **kw) for e in es]
    out += [J(fn, (0, b, 0), mod, **kw) for b in (range(0, 52) if full(tier) else spread(0, 51, substep))]
    ns = spread(1, 2046, 1 if full(tier) and negstep else (negstep or step * 8), (1003, 1004, 1006, 1043, 1093))
    out += [J(fn, (e, -1, 1), mod, **kw) for e in ns] + [J(fn, (0, b, 1), mod, **kw) for b in (0, 17, 51)]
    return out


def floats(fn, tier, step, mod='m', lead=True, **kw):
    es = spread(1, 254, 1 if full(tier) else step, FLT_EDGE)
    if not lead:
        return [J(fn, (e,), mod, **kw) for e in es]
    out = [J(fn, (e, -1, 0), mod, **kw) for e in es]
    out += [J(fn, (0, b, 0), mod, **kw) for b in (range(0, 23) if full(tier) else (0, 1, 11, 21, 22))]
    out += [J(fn, (e, -1, 1), mod, **kw) for e in spread(1, 254, 8 if full(tier) else 64)]
    return out


LD_LO, LD_HI = 16383 - 1022, 16383 + 1023      # exponents of normal doubles


def longs(fn, tier, step, mod='m', **kw):
    s = 4 if full(tier) else step
    es = spread(LD_LO, LD_HI - 1, s, (LD_LO, 16382, 16383, 16384, LD_HI - 1))
    sub = range(LD_LO - 52, LD_LO, 1) if full(tier) else (LD_LO - 52, LD_LO - 30, LD_LO - 1)
    return [J(fn, (e,), mod, **kw) for e in list(es) + list(sub)] + [J(fn, (0x8000 | e,), mod, **kw) for e in (LD_LO + 7, 16383, 16400, LD_HI - 2)]


@prop('C01', {'m': (['h_int.cpp'], ())}, 'none: every value of each of the ten integer types')
def c01(tier):
    return [J('h_fmt_' + t) for t in reversed(INT_T)]


DIGITS = dict(i8=3, u8=3, i16=5, u16=5, i32=10, u32=10, l=19, ul=20, ll=19, ull=20)


def numerals(tier, mod='m', every=1, **kw):
    """(whitespace, sign, zeros, arbitrary digits, what follows)"""
    js = []
    for t in INT_T:
        d = DIGITS[t]
        ps = [(w, s, z, d, 0) for w, s, z in ((0, 0, 1), (7, 1, 0), (33, 2, 1), (0, 0, 20), (2, 1, 40), (70, 0, 70), (300, 1, 300))]
        ps += [(1, s, 3, k, f) for s, k, f in ((0, d, 1), (1, d - 1, 4), (2, d, 30), (1, d, 300), (0, 1, 2))]
        if full(tier):
            ps += [(w, s, z, k, f) for w in (0, 6, 64) for s in (0, 1, 2) for z in (0, 17, 64) for k in range(1, d + 1) for f in (0, 1, 5)]
        js += [J('h_numeral_' + t, p, mod, **kw) for p in ps[::every]]
    return js


@prop('C02', {'m': (['h_int.cpp'], ())},
      {'quick': 'round trip: every value of each type; text: every byte string (NUL included) of each length 0..6, and 0..12 for long long and unsigned long long; longer numerals: whitespace (0..300 bytes), sign, zeros (0..300) and as many arbitrary digits as the type has, then an arbitrary non-digit and up to 299 digits more',
       'thorough': 'round trip: every value of each type; text: every byte string (NUL included) of each length 0..12, and 0..22 for the 64-bit types; longer numerals as quick with every number of arbitrary digits'},
      ['strtoll/strtoull (and the other integer conversions of the C library) follow ISO C; they are modelled in harness/cmodels.c'])
def c02(tier):
    js = [J('h_rt_' + t) for t in reversed(INT_T)]
    for t in reversed(INT_T):
        top = (12 if t in ('ll', 'ull') else 6) if not full(tier) else (22 if t in ('l', 'ul', 'll', 'ull') else 12)
        js += [J('h_text_' + t, (n,)) for n in range(top, -1, -1)]
    js += numerals(tier)
    return js


FLT_BOUND_Q = 'double: every significand at %s of the 2046 normal exponents (every %s, and the ends and layout switches) and of the subnormal magnitudes; float and long double: every significand at a spread of exponents; negative sign at a spread'


@prop('C03', {'m': (['h_flt.cpp'], ())},
      {'quick': 'every significand (52 symbolic bits) at 1 in 3 of the 2046 double exponents (so at least one in each decade) plus the ends and layout switches, every 2nd subnormal magnitude; float (23 bits): 1 in 4 exponents; long double (63 bits): 1 in 64 exponents of the double range; negative sign at 1 in 32',
       'thorough': 'every significand at every exponent of double and float, subnormals included; long double (63 bits) at 1 in 4 exponents of the double range; negative sign at 1 in 8'},
      ['reading back: strtod/strtof round correctly (glibc); the library extraction is checked to be that conversion by C06'])
def c03(tier):
    js = [J('h_zero')]
    js += doubles('h_dbl_value', tier, 3, 2, 32)
    js += floats('h_flt_value', tier, 4)
    js += longs('h_ld_value', tier, 64) + [J('h_ld_value', (LD_LO - 53,)), J('h_ld_value', (LD_LO - 54,))]
    js += [J('h_ld_tiny', (0,)), J('h_ld_tiny', (0x8000,))]
    return js


@prop('C04', {'m': (['h_flt.cpp'], ())},
      {'quick': 'every significand (52 symbolic bits) at 1 in 3 of the 2046 double exponents (so at least one in each decade) plus the ends and layout switches, every 3rd subnormal magnitude; float (23 bits): 1 in 8 exponents; long double: 1 in 128 exponents; negative sign at 1 in 48',
       'thorough': 'every significand at every exponent of double and float, subnormals included; long double at 1 in 4 exponents; negative sign at 1 in 8'})
def c04(tier):
    js = doubles('h_dbl_shape', tier, 3, 3, 48)
    js += floats('h_flt_shape', tier, 8)
    js += longs('h_ld_shape', tier, 128)
    js += [J('h_zero')]
    return js


@prop('C05', {'m': (['h_flt.cpp'], ())},
      {'quick': 'predicates: all 2^64 bit patterns; special values: all 2^53 double, 2^24 float and 2^64 long double NaN and infinity patterns; long doubles too large for double: every significand at a spread of 30 exponents; that no other value is spelled so: every significand at 1 in 8 double exponents and 1 in 4 subnormal magnitudes',
       'thorough': 'as quick, with 1 in 64 of the too-large long double exponents and every double exponent'})
def c05(tier):
    js = [J('h_predicates'), J('h_zero')]
    js += [J('h_nonfinite_' + t, (s,)) for t in ('dbl', 'flt', 'ld') for s in (0, 1)]
    hs = spread(LD_HI, 0x7ffe, 64 if full(tier) else 1100, (LD_HI, LD_HI + 1, 0x7ffd))
    js += [J('h_ld_huge', (e | s << 15,)) for e in hs for s in ((0, 1) if e % 2 or full(tier) else (0,))]
    js += [J('h_ld_tiny', (0,)), J('h_ld_tiny', (0x8000,))]
    js += doubles('h_dbl_ordinary', tier, 8, 4, 96)
    return js


@prop('C06', {'m': (['h_flt.cpp'], ())},
      {'quick': 'every byte string (NUL included) of each length 0..24 and at thirteen lengths to 2100, for each of float, double and long double',
       'thorough': 'every byte string (NUL included) of each length 0..200 (1 in 8 above 48) and six lengths to 2100, for each of float, double and long double'},
      ['strtof, strtod and strtold are uninterpreted functions of the exact text, correctly rounding to their own type in the C locale (glibc); '
       'what is decided is that the library hands exactly the given text to exactly the conversion of the requested type and returns its result unchanged'])
def c06(tier):
    ls = list(range(0, 25)) + [31, 32, 33, 64, 65, 128, 129, 256, 257, 511, 800, 1100, 2100] if not full(tier) else list(range(0, 49)) + list(range(56, 201, 8)) + [256, 257, 511, 800, 1100, 2100]
    return [J('h_ext_float', (k, n), backend='bv') for n in ls for k in (0, 1, 2)]


STR = dict(backend='bv')


@prop('C07', {'m': (['h_str.cpp'], ())},
      {'quick': 'every byte string (NUL included) of each length 0..40 and at nine lengths to 511; texts to 65541 bytes that begin or end with a literal and have four arbitrary bytes', 'thorough': 'every byte string (NUL included) of each length 0..511; longer texts as quick'})
def c07(tier):
    ls = list(range(0, 41)) + [63, 64, 65, 127, 128, 129, 256, 257, 511] if not full(tier) else range(0, 512)
    return [J('h_lit_format', **STR)] + [J(h, (n,), **STR) for n in ls for h in ('h_bool_extract', 'h_null_extract')] + [
        J('h_lit_long', (n, k), **STR) for n in (9, 12, 20, 36, 132, 256, 259, 260, 261, 262, 512, 516, 517, 1028, 1029, 65540, 65541) for k in range(6)]


@prop('C08', {'m': (['h_str.cpp'], ())},
      {'quick': 'all 256 values; extraction: every byte string of each length 0..40, 64, 255..257 and 511', 'thorough': 'all 256 values; extraction: every byte string of each length 0..511'})
def c08(tier):
    return [J('h_char', **STR), J('h_uchar', **STR)] + [J('h_char_extract', (n,), **STR) for n in (list(range(0, 41)) + [64, 255, 256, 257, 511] if not full(tier) else range(0, 512))]


def longtexts(fn, tier):
    """n, arbitrary bytes k, where they start: around every growth step of the buffers"""
    ns = (15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257) if not full(tier) else tuple(range(5, 140)) + (
        191, 192, 193, 255, 256, 257, 258, 300, 383, 384, 385, 500, 511, 512, 513, 600, 767, 768, 769, 1000, 1023, 1024, 1025)
    out = []
    for n in ns:
        for at in sorted({0, n // 2, n - 1}):
            out.append(J(fn, (n, 1, at, 0), backend='bv'))
        if full(tier):
            out.append(J(fn, (n, 2, max(0, n - 3), 0), backend='bv'))
    # texts of equal bytes: nothing, or everything, grows
    for kind in (1, 2, 3, 4, 5):
        out += [J(fn, (n, 1, n - 1, kind), backend='bv') for n in ((7, 16, 17, 33, 100, 257, 1025) if not full(tier) else ns[::3])]
    big = (511, 512, 513, 1023, 1024, 1025, 4096, 4097)
    out += [J(fn, (n, 1, n - 1, 0), backend='bv') for n in big if n not in ns or not full(tier)]
    out.append(J(fn, (65537, 1, 65536, 0), backend='bv'))
    for j in out:
        if j['params'][0] > 600:
            j['opts'] = dict(max_steps=40000000, models=1, rand=1)
    return sorted(out, key=lambda j: -j['params'][0])


@prop('C09', {'m': (['h_str.cpp'], ())},
      {'quick': 'every byte string of each length 0..6; longer texts (up to 257 bytes, around buffer growth steps): one arbitrary byte at the start, middle or end of a text that mixes all classes; up to 1025 equal bytes, and up to 65537 mixed ones, before one arbitrary byte',
       'thorough': 'every byte string of each length 0..9; longer texts (up to 1025 bytes): one or two arbitrary bytes at the start, middle or end of a text that mixes all classes'})
def c09(tier):
    ls = range(0, 7) if not full(tier) else range(0, 10)
    return [J(h, (n,), **STR) for n in reversed(ls) for h in ('h_escape', 'h_escape_generic')] + longtexts('h_escape_long', tier)


@prop('C10', {'m': (['h_str.cpp'], ())},
      {'quick': 'every byte string of each length 0..3; longer texts (up to 257 bytes, around buffer growth steps): one arbitrary byte at the start, middle or end of a text that mixes all classes; up to 1025 equal bytes, and up to 65537 mixed ones, before one arbitrary byte',
       'thorough': 'every byte string of each length 0..5; longer texts (up to 1025 bytes): one or two arbitrary bytes at the start, middle or end'})
def c10(tier):
    ls = range(0, 4) if not full(tier) else range(0, 6)
    return [J(h, (n,), **STR) for n in reversed(ls) for h in ('h_json', 'h_json_detail')] + longtexts('h_json_long', tier)


ENUMS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'l', 'ul', 'll', 'ull', 'char', 'bool', 'wchar', 'c16', 'c32']
UENUMS = ['i8', 'u8', 'u16', 'i32', 'u32', 'ul', 'll', 'ull', 'char', 'plain']


@prop('C11', {'m': (['h_int.cpp'], ())},
      {'quick': 'every value of enumerations over all fifteen underlying types (scoped) and ten (unscoped), every 64-bit stream offset; text: every byte string of each length 0..6',
       'thorough': 'as quick; text: every byte string of each length 0..12'},
      ['strtoll/strtoull follow ISO C; they are modelled in harness/cmodels.c'])
def c11(tier):
    js = [J('h_enum_' + t) for t in reversed(ENUMS)] + [J('h_uenum_' + t) for t in reversed(UENUMS)] + [J('h_fpos')]
    js += [J('h_enum_text_' + t, (n,)) for t in ('i8', 'char', 'u16', 'i32', 'c32', 'ull') for n in range(12 if full(tier) else 6, -1, -1)]
    return js


@prop('C12', {'m': (['h_obj.cpp'], ())},
      {'quick': 'formatting: every value of each integer, character, boolean, enumeration and position type; floats: every significand at 1 in 48 double, 1 in 16 float and 1 in 256 long double exponents; extraction: every byte string of each length 0..4; strings: every byte string of each length 0..3, longer ones (to 600 bytes) with one arbitrary byte',
       'thorough': 'as quick with 1 in 8 double exponents, every float exponent, extraction lengths 0..8'},
      ['strtoll, strtod and the like follow ISO C'])
def c12(tier):
    f = full(tier)
    js = [J('h_gen_' + t) for t in reversed(INT_T)] + [J('h_gen_' + t) for t in ('small', 'char', 'chars', 'enum', 'enum_plain', 'enum64', 'enum64s', 'fpos')]
    js += [J('h_gen_dbl', (e, -1, s)) for e in spread(1, 2046, 8 if f else 48, LAYOUT) for s in ((0, 1) if e % 2 or e in LAYOUT else (0,))]
    js += [J('h_gen_dbl', (0, b, 0)) for b in (0, 25, 51)] + [J('h_gen_dbl', (e, b, s)) for e, b in ((2047, -1), (0, -2)) for s in (0, 1)]
    js += [J('h_gext_long', (n, k), **STR) for n in (1, 6, 12, 13, 20, 29, 61, 125, 253, 509, 700) for k in (0, 1, 2)]
    js += [J('h_gen_flt', (e,)) for e in spread(1, 254, 1 if f else 16) + [255]]
    js += longs('h_gen_ld', 'quick', 64 if f else 256)
    top = 8 if f else 4
    for n in range(top, -1, -1):
        js += [J('h_gext_' + t, (n,)) for t in INT_T]
        js += [J(h, (n,), **STR) for h in ('h_gext_float', 'h_gext_bool')]
        js.append(J('h_gext_enum', (n,)))
        if n:
            js += [J('h_gext_char', (n,), **STR), J('h_gen_chars_ext', (n,))]
        if n <= 3:
            js += [J('h_gen_string', (n,), **STR), J('h_gen_cstr', (n,), **STR)]
    js += [J('h_gen_long', (n, at), **STR) for n in (4, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 257, 600) for at in sorted({0, n // 2, n - 1})]
    return js


@prop('C13', {'m': (['h_obj.cpp'], ())},
      {'quick': 'every value of each integer, character, boolean, null, enumeration type; floats: every significand at 1 in 48 double, 1 in 16 float and 1 in 256 long double exponents',
       'thorough': 'as quick with 1 in 8 double exponents and every float exponent'})
def c13(tier):
    f = full(tier)
    js = [J('h_%s_%s' % (a, t)) for t in reversed(INT_T) for a in ('obj', 'copy')] + [J('h_obj_' + t) for t in ('small', 'enum')] + [J('h_obj_char', **STR)]
    for h in ('h_obj_dbl', 'h_copy_dbl'):
        js += [J(h, (e, -1, s)) for e in spread(1, 2046, 8 if f else 48, LAYOUT) for s in ((0, 1) if e % 2 or e in LAYOUT else (0,))]
        js += [J(h, (0, b, 0)) for b in (0, 25, 51)] + [J(h, (e, b, s)) for e, b in ((2047, -1), (0, -2)) for s in (0, 1)]
    js += [J('h_obj_flt', (e,)) for e in spread(1, 254, 1 if f else 16) + [255]]
    js += longs('h_obj_ld', 'quick', 64 if f else 256)
    return js


def big_jobs(tier, mod):
    f = full(tier)
    L = dict(mod=mod, backend='int')
    js = []
    K = (1, 2, 3, 4) if not f else range(1, 9)
    for k in K:
        for h in ('build', 'add', 'carry', 'mul64', 'mul32'):
            js.append(J('h_big_' + h, (k,), **L))
    for k in (1, 2, 3) if not f else K:
        js += [J('h_big_mulc', (k, d), **L) for d in (0, 1, 2, 5, 10, 0x80000000, 0xffffffff, 0x100000001, 0x7fffffffffffffff, 10 ** 18)]
    sh = (0, 1, 2, 3, 19, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 1000, 3000) if not f else list(range(0, 200)) + [255, 256, 257, 1000, 1024, 2000, 3000, 3071, 3072]
    for k in (1, 2, 3, 4) if not f else (1, 2, 3, 4, 6):
        js += [J('h_big_shl', (k, s), **L) for s in sh]
    pw = (0, 1, 2, 3, 4, 12, 13, 14, 25, 26, 27, 28, 39, 40, 54, 67, 100, 324) if not f else list(range(0, 120)) + [150, 200, 250, 300, 323, 324, 340]
    for k in (1, 2) if not f else (1, 2, 3, 4):
        js += [J('h_big_pow5', (k, e), **L) for e in pw]
    js += [J('h_big_decimal', (n, 0, n), **L) for n in ((0, 1, 2, 9, 18, 19, 20, 21, 25, 37, 38) if not f else range(0, 39))]
    js += [J('h_big_decimal', p, **L) for p in ([(60, 20, 5), (60, 36, 6), (60, 56, 4), (80, 70, 6)] if not f else
                                                 [(n, n - 12, 12) for n in range(40, 200, 7)] + [(n, n - 30, 5) for n in range(40, 140, 9)])]
    js += [J('h_big_reject', (n,), **L) for n in (range(0, 9) if not f else range(0, 26))]
    js += [J('h_big_reject_at', (n, p), **L) for n, p in ((19, 0), (20, 19), (25, 3), (38, 37), (39, 38), (40, 20))]
    for k in K:
        for l in K:
            if k <= 4 and l <= 4 or f and abs(k - l) <= 1:
                js += [J('h_big_compare', (k, l), **L), J('h_big_difference', (k, l), **L)]
    for k in (5, 6, 8, 9, 16, 17, 33, 52, 53, 100) if not f else list(range(5, 60)) + [64, 65, 100, 128, 200, 256, 300, 400]:
        at = k // 2
        js.append(J('h_big_wide', (k, at, 0, 0), **L))
        js += [J('h_big_wide', (k, at, 1, d), **L) for d in (10, 0x7fffffffffffffff, 0x6765C793FA10079D)]
        js += [J('h_big_wide', (k, at, 2, d), **L) for d in (5, 0xffffffff)]
        js += [J('h_big_wide', (k, at, 3, d), **L) for d in (1, 63, 64, 130)]
        js += [J('h_big_wide', (k, at, 4, d), **L) for d in (1, 12, 13, 27)]
        js += [J('h_big_wide2', (k, p, 0), **L) for p in ((0, at, k - 1) if not f else sorted({0, 1, k // 3, at, k - 2, k - 1}))]
        js += [J('h_big_wide2', (k, at, m), **L) for m in (1, -1)]
    js += [J('h_big_decimal', (n, n - 5, 5), **L) for n in ((57, 58, 76, 95, 120, 200, 309, 400) if not f else range(41, 401, 6))]
    for sl in (0, 1, 2):
        js += [J('h_big_capacity', (sl, op, 0), **L) for op in (1, 2)]
        js += [J('h_big_capacity', (sl, 0, s), **L) for s in (0, 1, 63, 64, 65, 128, 129, 192)]
        js += [J('h_big_capacity', (sl, 3, e), **L) for e in (0, 1, 13, 27, 28)]
        js.append(J('h_big_capacity_add', (sl,), **L))
    return js


@prop('C15', {'m': (['h_big.cpp'], ()), 'port': (['h_big.cpp'], ('-Uport',))},
      {'quick': 'operands of 1..4 arbitrary 64-bit words, of 5..100 words of which three are arbitrary, and at the capacity limit; multiplication by any 32- and 64-bit word; powers of five to 324; shifts to 3000; decimal strings of up to 38 arbitrary digits and longer ones (to 400) with a window of arbitrary digits; the __int128 and the portable multiplication',
       'thorough': 'operands of 1..8 words, and 5..400 words of which three are arbitrary; every power of five below 120 and to 340; every shift below 200 and to 3072; every decimal length to 38 and windows to 400 digits'})
def c15(tier):
    js = big_jobs(tier, 'm')
    js += [J(h, (k,), 'port') for h in ('h_big_mul64', 'h_big_mul32') for k in (1, 2)]
    js += [J('h_big_pow5', p, 'port') for p in ((1, 13), (1, 28), (2, 27))]
    js += [J('h_big_mulc', (2, d), 'port') for d in (2, 0xffffffff, 0x100000001)]
    return js


def conf(t, f, n, nan, inf, ninf):
    q = lambda x: '"%s"' % x.replace('\\', '\\\\').replace('"', '\\"')
    vs = (('TRUE', t, 'true'), ('FALSE', f, 'false'), ('NULL', n, 'null'), ('NAN', nan, 'NaN'), ('INFINITY', inf, 'Infinity'), ('NEGATIVE_INFINITY', ninf, '-Infinity'))
    return tuple('-DLEXI_%s=%s' % (k, q(v)) for k, v, _ in vs if v is not None) + tuple('-DW_%s=%s' % (k, q(d if v is None else v)) for k, v, d in vs)


CONF = {
    'default': (),
    'one': conf('1', '0', 'n', 'x', 'y', 'z'),
    'long': conf('truth', 'wrong', 'zero', 'not-a-number-at-all-28-chars.', 'positive_infinity_of_29_chars', 'negative infinity of 29 chars'),
    'prefix': conf('t', 'tt', 'tt', 'I', 'In', '-I'),
    'prefix2': conf('yes', 'ye', 'y', 'inf-', 'inf', 'in'),
    'python': conf('True', 'False', 'None', 'nan', 'inf', '-inf'),
    'empty': conf('', 'f', '', '', 'i', ''),
    'only1': conf('ja', None, None, 'n/a', None, None),
    'only2': conf(None, 'nein', None, None, 'inf', None),
    'only3': conf(None, None, 'nil', None, None, '-oo'),
    'sign': conf('+', '-', '?', '"NaN"', '\\u221e', '-1e9999'),
}


@prop('C16', {'m': (['h_kern.cpp'], ()), 'port': (['h_kern.cpp'], ('-Uport',))},
      'power table: every exponent 0..308; decoding: every finite double; normalisation: every significand of each bit length; boundaries: every significand at %s; subtraction and product: every pair of 64-bit significands, exponents -2048..2047; the __int128 and the portable multiplication'
      % 'a spread of exponents including the ends and every subnormal magnitude')
def c16(tier):
    js = [J('h_pow10'), J('h_diy_decode', (0,)), J('h_diy_decode', (1,)), J('h_diy_sub'), J('h_diy_mul'), J('h_diy_mul', mod='port')]
    js += [J('h_diy_normalize', (k,)) for k in range(64)] + [J('h_diy_boundary', (k,)) for k in range(54)]
    js += [J('h_diy_boundaries', (e, 0)) for e in spread(1, 2046, 1 if full(tier) else 5, DBL_EDGE)] + [J('h_diy_boundaries', (0, b)) for b in range(52)]
    return js


@prop('C17', {k: (['h_str.cpp'], v) for k, v in CONF.items()},
      {'quick': 'eleven configurations of the six spellings (default, two of the six only, one character, the longest that fit, one a prefix of another in either order, empty, signs and quotes); extraction: every byte string of each length 0..7; all NaN patterns',
       'thorough': 'the same configurations; extraction: every byte string of each length 0..32'},
      ['spellings without embedded NUL bytes'])
def c17(tier):
    js = []
    for c in CONF:
        js += [J('h_lit_format', mod=c, **STR), J('h_lit_float', mod=c)]
        js += [J(h, (n,), mod=c, **STR) for n in range(33 if full(tier) else 8) for h in ('h_bool_extract', 'h_null_extract')]
    return js


@prop('C14', {'int': (['h_int.cpp'], ('-DCHECK_FIT',)), 'flt': (['h_flt.cpp'], ('-DCHECK_FIT',)), 'str': (['h_str.cpp'], ()), 'obj': (['h_obj.cpp'], ('-DCHECK_FIT',))},
      {'quick': 'integers, characters, literals, enumerations: every value; floats: every significand at 1 in 3 double, 1 in 3 float and 1 in 256 long double exponents, all non-finite patterns; texts: every byte string of each length 0..5 and 16, 17 (extraction), 0..4 (escaping), 0..2 (JSON) and longer ones with one arbitrary byte; formatter copies',
       'thorough': 'as quick with every double and float exponent and text lengths as in C02, C06, C07, C09 and C10'},
      ['object granularity: an access is checked against the stack, heap or global object it must lie in, not against members inside one object; in addition the text of a formatter must fit its buffer_ member',
       'C library functions (strto*, memcpy, strncpy ...) access what ISO C says they access'], memory=True)
def c14(tier):
    f = full(tier)
    o = dict(nsw=True, models=1, rand=1)
    js = [J('h_rt_' + t, mod='int', opts=o) for t in reversed(INT_T)]
    js += [J('h_text_' + t, (n,), mod='int', opts=o) for t in INT_T for n in ((16, 17) if t in ('i32', 'ull') else ()) + tuple(range(5, -1, -1))]
    js += numerals('quick', mod='int', every=3, opts=o)
    js += [J('h_enum_' + t, mod='int', opts=o) for t in ('i8', 'ull', 'char')] + [J('h_fpos', mod='int', opts=o)]
    fo = dict(nsw=True, models=0, rand=1)
    js += doubles('h_dbl_ordinary', tier, 3, 3, 64, mod='flt', opts=fo)
    js += floats('h_flt_shape', tier, 3, mod='flt', opts=fo)
    js += longs('h_ld_shape', 'quick', 256, mod='flt', opts=fo)
    js += [J('h_nonfinite_' + t, (s,), mod='flt', opts=o) for t in ('dbl', 'flt', 'ld') for s in (0, 1)]
    js += [J('h_zero', mod='flt', opts=o), J('h_predicates', mod='flt', opts=o), J('h_ld_huge', (0x7000,), mod='flt', opts=o)]
    js += [J('h_ext_float', (k, n), mod='flt', backend='bv', opts=o) for k in (0, 1, 2) for n in (range(0, 41) if f else (0, 1, 2, 3, 4, 5, 15, 16, 17, 24, 33))]
    S = dict(mod='str', backend='bv', opts=o)
    js += [J(h, (n,), **S) for h in ('h_escape', 'h_escape_generic') for n in range(8 if f else 5)]
    js += [J(h, (n,), **S) for h in ('h_json', 'h_json_detail') for n in range(5 if f else 3)]
    for h in ('h_escape_long', 'h_json_long'):
        js += [dict(j, mod='str', opts=dict(o, **j.get('opts', {}))) for j in longtexts(h, tier) if j['params'][0] < 5000]
    js += [J(h, **S) for h in ('h_char', 'h_uchar', 'h_lit_format')]
    js += [J(h, (n,), **S) for h in ('h_char_extract', 'h_bool_extract', 'h_null_extract') for n in (range(0, 40) if f else (0, 1, 2, 3, 4, 5, 6, 15, 16, 17, 32))]
    js += [J('h_%s_%s' % (a, t), mod='obj', opts=o) for t in ('i8', 'u16', 'i32', 'll', 'ull') for a in ('copy',)]
    js += [J('h_obj_' + t, mod='obj', opts=o) for t in ('small', 'enum')] + [J('h_obj_char', mod='obj', backend='bv', opts=o)]
    js += [J('h_copy_dbl', (e, -1, e & 1), mod='obj', opts=fo) for e in spread(1, 2046, 64 if f else 512)]
    js += [J(h, (n,), mod='obj', backend='bv', opts=o) for h in ('h_gen_string', 'h_gen_cstr') for n in (0, 1, 2)]
    js += [J('h_gen_' + t, mod='obj', opts=o) for t in ('small', 'char', 'chars', 'enum', 'enum_plain', 'enum64', 'enum64s', 'fpos')]
    js += [J('h_gext_enum', (n,), mod='obj', opts=o) for n in (0, 1, 3)]
    return js


@prop('C18', {'m': (['h_iso.cpp'], ()), 'int': (['h_int.cpp'], ()), 'flt': (['h_flt.cpp'], ()), 'str': (['h_str.cpp'], ()), 'obj': (['h_obj.cpp'], ())},
      {'quick': 'histories: a conversion, one of eight groups of other conversions (or an arbitrary errno), and the same conversion again, with the first formatters still alive, for every value of six integer types, char, bool; every significand at 7 double and 3 float exponents; every byte string of each length 0..4 (extraction), 0..2 (escape, JSON). Pairs: any value converted after any other of the same or another width, against the same conversion with untouched storage (integers: all pairs; doubles: 12 by 52 arbitrary bits at 8 exponent pairs; texts to 4 bytes). '
                'Shared state: no store to a mutable global on any path of those and of all other conversions (all integer values, a spread of float exponents, texts up to 3 bytes)',
       'thorough': 'as quick with 40 double exponents per group of other conversions and text lengths 0..6 (extraction), 0..3 (escape, JSON)'},
      ['thread interference is decided through shared mutable state: two conversions on different objects can only meet in a global the library writes; C library internals (locale, malloc) are thread-safe'])
def c18(tier):
    f = full(tier)
    o = dict(check_gwrites=True, models=1, rand=2)
    js = []
    # a conversion on its own against the same after another one
    o2 = dict(models=1, rand=2)
    js += [J('h_two_' + t, opts=o2) for t in ('ll', 'ull', 'i32', 'u32', 'i32u32', 'ulli32', 'i16', 'i8u8', 'char')]
    pairs = [(1023, 1023), (1023, 1024), (1023, 3071), (3071, 1023), (1023, 2046), (1, 1), (1200, 1201), (2046, 1023)]
    if f:
        pairs += [(a, b) for a in (1, 700, 1023, 1100, 2046) for b in spread(1, 2046, 100)]
    js += [J('h_two_dbl', p, opts=dict(models=0, rand=2)) for p in pairs]
    js += [J('h_two_flt', p, opts=dict(models=0, rand=2)) for p in ((1023, 127), (1023, 128), (1023, 383))]
    js += [J('h_two_text', p, opts=o2) for p in ((1, 1, 0), (0, 1, 0), (2, 2, 1), (1, 2, 1), (2, 1, 1))]
    js += [J('h_two_ext_' + t, p, opts=o2) for t in ('int', 'ull', 'dbl', 'flt') for p in ((1, 1), (2, 2), (3, 3), (1, 3), (4, 4))]
    js += [J('h_two_ext_bool', (n,), opts=o2) for n in (4, 5)]
    for q in range(8):
        for t in ('ull', 'll', 'i32', 'u32', 'u16', 'i8', 'char', 'bool'):
            js.append(J('h_iso_' + t, (q,), opts=o))
        fo = dict(check_gwrites=True, models=0, rand=2)
        es = (1, 300, 1000, 1023, 1044, 1093, 2046)
        es = spread(1, 2046, 52, es) if f else (es[q % 7], es[(q + 3) % 7], 1023)
        js += [J('h_iso_dbl', (q, e, 0, e & 1), opts=fo) for e in es] + [J('h_iso_dbl', (q, 0, 20, 0), opts=fo)]
        js += [J('h_iso_flt', (q, e), opts=fo) for e in (1, 127, 254)]
        js += [J('h_iso_nonfinite', (q, s), opts=o) for s in (0, 1)]
        js += [J('h_iso_text', (q, n), opts=o) for n in range(4 if f else 2)]
        if q in (0, 5, 7) and not f:
            js.append(J('h_iso_text', (q, 2), opts=o))
        for t in ('i32', 'ull', 'll', 'i8'):
            js += [J('h_iso_ext_' + t, (q, n), opts=o) for n in range(7 if f else 5)]
        js += [J('h_iso_ext_float', (q, n), opts=o) for n in range(7 if f else 5)]
        js += [J('h_iso_ext_bool', (q, n), opts=o) for n in range(7 if f else 6)]
    # stores to shared state anywhere else
    js += [J('h_rt_' + t, mod='int', opts=o) for t in INT_T] + [J('h_enum_i16', mod='int', opts=o), J('h_fpos', mod='int', opts=o)]
    js += [J('h_dbl_ordinary', (e, -1, 0), mod='flt', opts=dict(o, models=0)) for e in spread(1, 2046, 16 if f else 128)]
    js += [J('h_dbl_ordinary', (0, b, 1), mod='flt', opts=dict(o, models=0)) for b in (0, 9, 30, 51)]
    js += longs('h_ld_shape', 'quick', 512, mod='flt', opts=dict(o, models=0))
    js += [J('h_ext_float', (k, n), mod='flt', opts=o, **STR) for k in (0, 1, 2) for n in (0, 1, 3, 8, 30)]
    js += [J(h, (n,), mod='str', opts=o, **STR) for h in ('h_escape', 'h_json') for n in (0, 1, 2)]
    js += [J(h, (n, 1, n // 2, 0), mod='str', opts=o, **STR) for h in ('h_escape_long', 'h_json_long') for n in (16, 31, 65, 129)]
    js += [J(h, mod='str', opts=o, **STR) for h in ('h_char', 'h_uchar', 'h_lit_format')]
    js += [J('h_gen_' + t, mod='obj', opts=o) for t in ('small', 'char', 'chars', 'enum', 'enum_plain', 'enum64', 'enum64s', 'fpos')]
    js += [J('h_copy_' + t, mod='obj', opts=o) for t in ('i32', 'ull')]
    return js
