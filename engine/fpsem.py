"""Exact IEEE arithmetic on bit patterns (binary32, binary64, x87 extended) for
concrete operands, decimal-to-binary conversion, and the bit-level formulas used
for symbolic comparisons and casts."""
from fractions import Fraction
import terms as T

# width -> (precision incl. hidden bit, exponent bits)
FMT = {32: (24, 8), 64: (53, 11), 80: (64, 15)}


def fields(b, w):
    p, eb = FMT[w]
    mb = p if w == 80 else p - 1          # stored significand bits
    return b >> (w - 1), (b >> mb) & ((1 << eb) - 1), b & ((1 << mb) - 1)


def classify(b, w):
    s, e, m = fields(b, w)
    p, eb = FMT[w]
    if e == (1 << eb) - 1:
        frac = m & ((1 << (p - 1)) - 1)
        return ('inf' if frac == 0 else 'nan'), s, None
    bias = (1 << (eb - 1)) - 1
    if w == 80:
        v = Fraction(m) * Fraction(2) ** ((e or 1) - bias - 63)
    elif e == 0:
        v = Fraction(m) * Fraction(2) ** (1 - bias - (p - 1))
    else:
        v = Fraction(m | 1 << (p - 1)) * Fraction(2) ** (e - bias - (p - 1))
    return 'num', s, v


def inf(s, w):
    p, eb = FMT[w]
    if w == 80:
        return s << 79 | 0x7fff << 64 | 1 << 63
    return s << (w - 1) | ((1 << eb) - 1) << (p - 1)


def nan(w, s=0):
    return inf(s, w) | 1 << (FMT[w][0] - 2)


def encode(s, v, w):
    """Round |v| (Fraction >= 0) to nearest even; sign s."""
    p, eb = FMT[w]
    bias = (1 << (eb - 1)) - 1
    if v == 0:
        return s << (w - 1)
    n, d = v.numerator, v.denominator
    e = n.bit_length() - d.bit_length()
    if (n << max(0, -e)) < (d << max(0, e)):
        e -= 1
    # 2^e <= v < 2^(e+1)
    e = max(e, 1 - bias)
    q = e - (p - 1)                       # unit in the last place 2^q
    num = n << max(0, -q)
    den = d << max(0, q)
    m, r = divmod(num, den)
    if 2 * r > den or (2 * r == den and m & 1):
        m += 1
    if m >> p:
        m >>= 1
        e += 1
    if m >> (p - 1) == 0:                 # subnormal
        return s << (w - 1) | m
    E = e + bias
    if E >= (1 << eb) - 1:
        return inf(s, w)
    if w == 80:
        return s << 79 | E << 64 | m
    return s << (w - 1) | E << (p - 1) | (m & ((1 << (p - 1)) - 1))


def conv(b, w, w2):
    k, s, v = classify(b, w)
    if k == 'inf':
        return inf(s, w2)
    if k == 'nan':
        p, p2 = FMT[w][0], FMT[w2][0]
        frac = b & ((1 << (p - 1)) - 1)
        frac = frac << (p2 - p) if p2 >= p else frac >> (p - p2)
        return inf(s, w2) | frac | 1 << (p2 - 2)
    return encode(s, v, w2)


def binop(op, a, b, w):
    ka, sa, va = classify(a, w)
    kb, sb, vb = classify(b, w)
    if ka == 'nan' or kb == 'nan':
        return nan(w)
    if op == 'fsub':
        sb ^= 1
        op = 'fadd'
    if op == 'fadd':
        if ka == 'inf' or kb == 'inf':
            if ka == kb and sa != sb:
                return nan(w, 1)
            return inf(sa if ka == 'inf' else sb, w)
        r = (-va if sa else va) + (-vb if sb else vb)
        if r == 0:
            return (sa & sb) << (w - 1)
        return encode(int(r < 0), abs(r), w)
    s = sa ^ sb
    if op == 'fmul':
        if ka == 'inf' or kb == 'inf':
            if va == 0 or vb == 0:
                return nan(w, 1)
            return inf(s, w)
        return encode(s, va * vb, w)
    if op == 'fdiv':
        if ka == 'inf':
            return nan(w, 1) if kb == 'inf' else inf(s, w)
        if kb == 'inf':
            return s << (w - 1)
        if vb == 0:
            return nan(w, 1) if va == 0 else inf(s, w)
        return encode(s, va / vb, w)
    if op == 'frem':
        if ka == 'inf' or vb == 0:
            return nan(w, 1)
        if kb == 'inf':
            return a
        q = va / vb
        r = va - int(q) * vb
        return encode(sa, r, w)
    raise ValueError(op)


def fcmp(pred, a, b, w):
    ka, sa, va = classify(a, w)
    kb, sb, vb = classify(b, w)
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    un = ka == 'nan' or kb == 'nan'
    if pred == 'uno':
        return int(un)
    if pred == 'ord':
        return int(not un)
    if un:
        return int(pred[0] == 'u')
    big = Fraction(2) ** 20000
    x = (big if ka == 'inf' else va) * (-1 if sa else 1)
    y = (big if kb == 'inf' else vb) * (-1 if sb else 1)
    return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]])


def to_int(b, w, iw, signed):
    """None if undefined."""
    k, s, v = classify(b, w)
    if k != 'num':
        return None
    t = int(v)
    if s:
        t = -t
    lo, hi = (-(1 << (iw - 1)), (1 << (iw - 1)) - 1) if signed else (0, (1 << iw) - 1)
    if not lo <= t <= hi:
        return None
    return t & T.mask(iw)


def from_int(x, iw, w, signed):
    if signed and x >> (iw - 1):
        x -= 1 << iw
    return encode(int(x < 0), Fraction(abs(x)), w)


WS = b' \t\n\v\f\r'


def parse_float(bs):
    """C-locale strtod grammar: (sign, 'num', Fraction) / 'inf' / 'nan'; and the
    length consumed.  bs: bytes up to (not including) the terminator."""
    i, n = 0, len(bs)
    while i < n and bs[i] in WS:
        i += 1
    s = 0
    if i < n and bs[i] in b'+-':
        s = int(bs[i:i + 1] == b'-')
        i += 1
    low = bs[i:].lower()
    if low.startswith(b'inf'):
        return s, 'inf', None, i + (8 if low.startswith(b'infinity') else 3)
    if low.startswith(b'nan'):
        return s, 'nan', None, i + 3
    if low.startswith(b'0x'):
        j = i + 2
        m, e, nd, dot = 0, 0, 0, False
        while j < n:
            c = bs[j:j + 1].lower()
            if c in b'0123456789abcdef' and c:
                m = m * 16 + int(c, 16)
                nd += 1
                if dot:
                    e -= 4
            elif c == b'.' and not dot:
                dot = True
            else:
                break
            j += 1
        if nd:
            if bs[j:j + 1].lower() == b'p':
                k = j + 1
                sg = 1
                if bs[k:k + 1] in (b'+', b'-'):
                    sg = -1 if bs[k:k + 1] == b'-' else 1
                    k += 1
                k0 = k
                x = 0
                while k < n and 48 <= bs[k] <= 57:
                    x = x * 10 + bs[k] - 48
                    k += 1
                if k > k0:
                    e += sg * x
                    j = k
            if m == 0:
                return s, 'num', Fraction(0), j
            e = max(min(e, 40000), -40000 - 4 * nd)
            return s, 'num', Fraction(m) * Fraction(2) ** e, j
    j = i
    m, e, nd, dot = 0, 0, 0, False
    while j < n:
        c = bs[j]
        if 48 <= c <= 57:
            m = m * 10 + c - 48
            nd += 1
            if dot:
                e -= 1
        elif c == 46 and not dot:
            dot = True
        else:
            break
        j += 1
    if not nd:
        return 0, 'none', Fraction(0), 0
    if bs[j:j + 1].lower() == b'e':
        k = j + 1
        sg = 1
        if bs[k:k + 1] in (b'+', b'-'):
            sg = -1 if bs[k:k + 1] == b'-' else 1
            k += 1
        k0 = k
        x = 0
        while k < n and 48 <= bs[k] <= 57:
            x = x * 10 + bs[k] - 48
            k += 1
        if k > k0:
            e += sg * x
            j = k
    if m == 0:
        return s, 'num', Fraction(0), j
    e = max(min(e, 20000), -20000 - nd)
    return s, 'num', Fraction(m) * Fraction(10) ** e, j


def strto(bs, w):
    z = bs.find(b'\0')
    if z >= 0:
        bs = bs[:z]
    s, k, v, _ = parse_float(bs)
    if k == 'inf':
        return inf(s, w)
    if k == 'nan':
        return nan(w, s)
    return encode(s, v, w)


def eval_opaque(op, w, args):
    if op == 'uf:end':
        return parse_float(bytes(args))[3]
    if op.startswith('uf:strto'):
        return strto(bytes(args), {'uf:strtof': 32, 'uf:strtod': 64, 'uf:strtold': 80}[op])
    if op.startswith('fp:conv'):
        return conv(args[1], args[0], w)
    if op.startswith('fp:bin:'):
        return binop(op[7:], args[1], args[2], args[0])
    if op.startswith('fp:cmp:'):
        return fcmp(op[7:], args[1], args[2], args[0])
    if op == 'fp:fromint':
        return from_int(args[2], args[0], w, args[1])
    if op == 'fp:toint':
        r = to_int(args[2], args[0], w, args[1])
        return r if r is not None else 0
    raise T.NoEval(op)


# ---------------------------------------------------------------- symbolic
def s_isnan(b, w):
    p, eb = FMT[w]
    mb = p if w == 80 else p - 1
    e = T.extract(b, mb + eb - 1, mb)
    m = T.extract(b, p - 2, 0)
    return T.band(T.eq(e, T.mask(eb), eb), T.bnot(T.eq(m, 0, p - 1), 1), 1)


def s_key(b, w):
    """Total order key (no NaN, zeros identified)."""
    s = T.extract(b, w - 1, w - 1)
    m = T.extract(b, w - 2, 0)
    return s, m


def s_lt(a, b, w):
    sa, ma = s_key(a, w)
    sb, mb = s_key(b, w)
    W = w - 1
    az, bz = T.eq(ma, 0, W), T.eq(mb, 0, W)
    both0 = T.band(az, bz, 1)
    # a<0<=b ; a,b>=0: ma<mb ; a,b<0: mb<ma
    r = T.bor(T.bor(T.band(sa, T.bnot(sb, 1), 1),
                    T.band(T.band(T.bnot(sa, 1), T.bnot(sb, 1), 1), T.ult(ma, mb, W), 1), 1),
              T.band(T.band(sa, sb, 1), T.ult(mb, ma, W), 1), 1)
    return T.band(r, T.bnot(both0, 1), 1)


def s_eq(a, b, w):
    sa, ma = s_key(a, w)
    sb, mb = s_key(b, w)
    W = w - 1
    both0 = T.band(T.eq(ma, 0, W), T.eq(mb, 0, W), 1)
    return T.bor(both0, T.eq(a, b, w), 1)


def s_fcmp(pred, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return fcmp(pred, a, b, w)
    if pred in ('true', 'false'):
        return int(pred == 'true')
    # comparisons of widened operands happen in the narrower format
    na, nb = narrow(a, w), narrow(b, w)
    if na and nb:
        k = max(na[1], nb[1])
        if k < w:
            a = na[0] if na[1] == k else conv_s(na[0], na[1], k)
            b = nb[0] if nb[1] == k else conv_s(nb[0], nb[1], k)
            if a is not None and b is not None:
                return s_fcmp(pred, a, b, k)
    if any(T.isn(x) and x.op.startswith('fp:') for x in (a, b)):
        return T.opaque('cmp:' + pred, 1, (w, a, b))
    un = T.bor(s_isnan(a, w), s_isnan(b, w), 1)
    if pred == 'uno':
        return un
    if pred == 'ord':
        return T.bnot(un, 1)
    k = pred[1:]
    if k == 'eq':
        r = s_eq(a, b, w)
    elif k == 'ne':
        r = T.bnot(s_eq(a, b, w), 1)
    elif k == 'lt':
        r = s_lt(a, b, w)
    elif k == 'gt':
        r = s_lt(b, a, w)
    elif k == 'le':
        r = T.bor(s_lt(a, b, w), s_eq(a, b, w), 1)
    else:
        r = T.bor(s_lt(b, a, w), s_eq(a, b, w), 1)
    if pred[0] == 'o':
        return T.band(r, T.bnot(un, 1), 1)
    return T.bor(r, un, 1)


def narrow(x, w):
    """(value, width) of the narrowest format x is known to be widened from."""
    if isinstance(x, int):
        k, s, v = classify(x, w)
        for w2 in (32, 64):
            if w2 < w and conv(conv(x, w, w2), w2, w) == x and k != 'nan':
                return conv(x, w, w2), w2
        return x, w
    if x.op == 'fp:conv':
        return narrow(x.a[1], x.a[0]) if x.a[0] < w else (x, w)
    return x, w


def conv_s(b, w, w2):
    """fpext / fptrunc on bit patterns.  Returns a value or None when the caller
    has to split cases (fptrunc of a symbolic significand)."""
    if isinstance(b, int):
        return conv(b, w, w2)
    if w == w2:
        return b
    if b.op == 'fp:conv' and b.a[0] < w:          # b = widen(x)
        x, wx = b.a[1], b.a[0]
        if wx == w2:
            return x
        if wx < w2:
            return conv_s(x, wx, w2)
    p, eb = FMT[w]
    p2, eb2 = FMT[w2]
    if w == 32 and w2 == 64:
        e = T.extract(b, 30, 23)
        if isinstance(e, int) and 0 < e < 255:
            return T.concat([(1, T.extract(b, 31, 31)), (11, e - 127 + 1023), (23, T.extract(b, 22, 0)), (29, 0)])
        m = T.extract(b, 22, 0)
        if isinstance(e, int) and e == 0 and T.isn(m):
            k = m.hi.bit_length() - 1
            if m.lo >> k:                          # leading bit known: value = m * 2^-149
                frac = T.extract(m, k - 1, 0) if k else 0
                return T.concat([(1, T.extract(b, 31, 31)), (11, k - 149 + 1023), (k, frac), (52 - k, 0)])
    return T.opaque('conv', w2, (w, b))
