"""Hash-consed bit-vector terms.  A value is a Python int (constant) or a Node.
Every constructor takes/returns values of a stated width and simplifies; bit
structure is kept in concat/extract normal form, so masks, constant shifts, byte
loads and IEEE field extraction disappear before any solver sees them."""
import itertools

_ids = itertools.count(1)
_tab = {}


class Node:
    __slots__ = ('op', 'w', 'a', 'lo', 'hi', 'kz', 'id', 'und', '__weakref__')

    def __repr__(self):
        return pp(self)


def pp(x, d=4):
    if isinstance(x, int):
        return hex(x) if x > 9 else str(x)
    if not isinstance(x, Node):
        return str(x)
    if x.op == 'var':
        return x.a[0]
    if d == 0:
        return '..'
    if x.op == 'concat':
        return '{' + ','.join('%s:%d' % (pp(v, d - 1), w) for w, v in x.a) + '}'
    if x.op == 'tab':
        return 'tab[%s]' % pp(x.a[1], d - 1)
    return '%s%d(%s)' % (x.op, x.w, ', '.join(pp(y, d - 1) for y in x.a))


def _mk(op, w, a, lo=None, hi=None, kz=0, und=False):
    key = (op, w) + tuple(('n', y.id) if isinstance(y, Node) else y for y in a)
    n = _tab.get(key)
    if n is not None:
        return n
    n = Node()
    n.op, n.w, n.a = op, w, a
    M = (1 << w) - 1
    lo = 0 if lo is None else max(lo, 0)
    hi = M if hi is None else min(hi, M)
    # known-zero from hi
    kz |= M & ~((1 << hi.bit_length()) - 1)
    hi = min(hi, M & ~kz)
    n.lo, n.hi, n.kz = lo, hi, kz
    n.und = und or any(isinstance(y, Node) and y.und for y in a)
    n.id = next(_ids)
    _tab[key] = n
    return n


def mask(w):
    return (1 << w) - 1


_fresh = itertools.count()


def var(name, w, lo=None, hi=None):
    return _mk('var', w, (name,), lo, hi)


def fresh(prefix, w, lo=None, hi=None, und=False):
    return _mk('var', w, ('%s!%d' % (prefix, next(_fresh)),), lo, hi, und=und)


def rng(x):
    if isinstance(x, int):
        return x, x
    return x.lo, x.hi


def kzero(x, w):
    if isinstance(x, int):
        return mask(w) & ~x
    return x.kz


def isn(x):
    return isinstance(x, Node)


# ---------------------------------------------------------------- structure
def concat(parts):
    """parts: list of (width, value), most significant first."""
    out = []
    for w, v in parts:
        if w == 0:
            continue
        if isn(v) and v.op == 'concat':
            sub = v.a
        elif isn(v) and v.kz and v.op not in ('var',) and v.hi.bit_length() < w and v.hi < (1 << (w - 1)):
            # leading known zeros: expose them
            k = v.hi.bit_length()
            if k == 0:
                sub = ((w, 0),)
            else:
                sub = ((w - k, 0), (k, extract(v, k - 1, 0)))
        else:
            sub = ((w, v),)
        for sw, sv in sub:
            if out:
                pw, pv = out[-1]
                if isinstance(pv, int) and isinstance(sv, int):
                    out[-1] = (pw + sw, (pv << sw) | sv)
                    continue
                if isn(pv) and isn(sv) and pv.op == 'extract' and sv.op == 'extract' and pv.a[0] is sv.a[0] \
                        and pv.a[2] == sv.a[1] + 1:
                    out[-1] = (pw + sw, extract(pv.a[0], pv.a[1], sv.a[2]))
                    continue
                if isn(pv) and isn(sv) and pv.op == 'extract' and pv.a[0] is sv and pv.a[2] == sw and False:
                    pass
            out.append((sw, sv))
    if len(out) == 1:
        return out[0][1]
    W = sum(w for w, _ in out)
    lo = hi = kz = 0
    und = False
    for w, v in out:
        l, h = rng(v)
        lo = (lo << w) | l
        hi = (hi << w) | h
        kz = (kz << w) | kzero(v, w)
        if isn(v) and v.und:
            und = True
    key = ('concat', W) + tuple((w, ('n', v.id) if isn(v) else v) for w, v in out)
    n = _tab.get(key)
    if n is not None:
        return n
    n = Node()
    n.op, n.w, n.a = 'concat', W, tuple(out)
    n.lo, n.hi, n.kz, n.und = lo, hi, kz, und
    n.id = next(_ids)
    _tab[key] = n
    return n


def extract(x, hi, lo):
    w = hi - lo + 1
    if isinstance(x, int):
        return (x >> lo) & mask(w)
    if lo == 0 and w == x.w:
        return x
    m = mask(w) << lo
    if x.kz & m == m:
        return 0
    op = x.op
    if op == 'extract':
        return extract(x.a[0], x.a[2] + hi, x.a[2] + lo)
    if op == 'concat':
        out = []
        pos = x.w
        for pw, pv in x.a:
            top = pos - 1
            bot = pos - pw
            pos = bot
            h = min(hi, top)
            l = max(lo, bot)
            if h >= l:
                out.append((h - l + 1, extract(pv, h - bot, l - bot)))
        return concat(out)
    if op == 'sext':
        y = x.a[0]
        if hi < y.w:
            return extract(y, hi, lo)
        if lo < y.w:
            return sext(extract(y, y.w - 1, lo), w, y.w - lo)
        return sext(extract(y, y.w - 1, y.w - 1), w, 1)
    if op == 'ite':
        c, a, b = x.a
        if isinstance(a, int) or isinstance(b, int):
            return ite(c, extract(a, hi, lo), extract(b, hi, lo), w)
    if op == 'not':
        return bnot(extract(x.a[0], hi, lo), w)
    if lo == 0 and w <= 32 and op in ('add', 'sub'):
        a, b = x.a
        if op == 'add' and (isinstance(b, int) or a.op in ('sext', 'concat') or b.op in ('sext', 'concat')):
            return add(extract(a, hi, 0), extract(b, hi, 0), w)
        if op == 'sub' and isn(a) and isn(b) and (a.op in ('sext', 'concat') or b.op in ('sext', 'concat')):
            return sub(extract(a, hi, 0), extract(b, hi, 0), w)
        if op == 'sub' and (isinstance(a, int)):
            return sub(extract(a, hi, 0), extract(b, hi, 0), w)
    if lo == 0 and op in ('and', 'or', 'xor') and w <= 64:
        f = {'and': band, 'or': bor, 'xor': bxor}[op]
        return f(extract(x.a[0], hi, 0), extract(x.a[1], hi, 0), w)
    l, h = 0, mask(w)
    if lo == 0 and x.hi <= mask(w):
        l, h = x.lo, x.hi
    elif hi == x.w - 1 or x.hi <= mask(hi + 1):
        l, h = x.lo >> lo, x.hi >> lo
        if l == h:
            return l
    return _mk('extract', w, (x, hi, lo), l, h, kz=(x.kz >> lo) & mask(w))


def zext(x, w0, w):
    if isinstance(x, int):
        return x
    if w == w0:
        return x
    return concat([(w - w0, 0), (w0, x)])


def sext(x, w, w0=None):
    if isinstance(x, int):
        if x >> (w0 - 1) & 1:
            return x | (mask(w) & ~mask(w0))
        return x
    if w == x.w:
        return x
    if x.hi < (1 << (x.w - 1)):
        return zext(x, x.w, w)
    if x.op == 'sext':
        return sext(x.a[0], w)
    return _mk('sext', w, (x,))


# ---------------------------------------------------------------- bitwise
def _runs(c, w):
    """List of (hi, lo, bit) runs of the constant, most significant first."""
    out = []
    i = w - 1
    while i >= 0:
        b = c >> i & 1
        j = i
        while j - 1 >= 0 and (c >> (j - 1) & 1) == b:
            j -= 1
        out.append((i, j, b))
        i = j - 1
    return out


def band(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        r = _runs(b, w)
        if len(r) <= 9:
            return concat([(h - l + 1, extract(a, h, l) if bit else 0) for h, l, bit in r])
        return _mk('and', w, (a, b), 0, min(b, a.hi), kz=(mask(w) & ~b) | a.kz)
    if a is b:
        return a
    if w == 1:
        if (a.op == 'not' and a.a[0] is b) or (b.op == 'not' and b.a[0] is a):
            return 0
        # flatten duplicates
        if a.op == 'and' and (a.a[0] is b or a.a[1] is b):
            return a
        if b.op == 'and' and (b.a[0] is a or b.a[1] is a):
            return b
    m = mask(w) & ~(a.kz | b.kz)
    if m != mask(w):
        if m == 0:
            return 0
        r = _runs(m, w)
        if len(r) <= 5:
            return concat([(h - l + 1, band(extract(a, h, l), extract(b, h, l), h - l + 1) if bit else 0) for h, l, bit in r])
    if a.id > b.id:
        a, b = b, a
    return _mk('and', w, (a, b), 0, min(a.hi, b.hi), kz=a.kz | b.kz)


def bor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if b == mask(w):
            return b
        r = _runs(b, w)
        if len(r) <= 9:
            return concat([(h - l + 1, mask(h - l + 1) if bit else extract(a, h, l)) for h, l, bit in r])
        if w == 1:
            return b
        pa = mask(w) & ~a.kz
        r = _runs(pa, w)
        if 1 < len(r) <= 9:
            return concat([(h - l + 1, bor(extract(a, h, l), b >> l & mask(h - l + 1), h - l + 1) if bit else b >> l & mask(h - l + 1)) for h, l, bit in r])
        return _mk('or', w, (a, b), max(b, a.lo))
    if a is b:
        return a
    pa, pb = mask(w) & ~a.kz, mask(w) & ~b.kz
    if pa & pb == 0 and w > 1:
        # disjoint: interleave
        parts = []
        i = w - 1
        while i >= 0:
            o = 1 if pa >> i & 1 else (2 if pb >> i & 1 else 0)
            j = i
            while j - 1 >= 0 and (1 if pa >> (j - 1) & 1 else (2 if pb >> (j - 1) & 1 else 0)) == o:
                j -= 1
            parts.append((i - j + 1, 0 if o == 0 else extract(a if o == 1 else b, i, j)))
            i = j - 1
        return concat(parts)
    if w == 1:
        if (a.op == 'not' and a.a[0] is b) or (b.op == 'not' and b.a[0] is a):
            return 1
        return bnot(band(bnot(a, 1), bnot(b, 1), 1), 1)
    m = pa & pb
    if m != mask(w):
        r = _runs(m, w)
        if len(r) <= 5:
            return concat([(h - l + 1, bor(extract(a, h, l), extract(b, h, l), h - l + 1)) for h, l, bit in r])
    if a.id > b.id:
        a, b = b, a
    return _mk('or', w, (a, b), max(a.lo, b.lo), None, kz=a.kz & b.kz)


def bnot(a, w):
    if isinstance(a, int):
        return a ^ mask(w)
    if a.op == 'not':
        return a.a[0]
    if a.op == 'concat':
        return concat([(pw, bnot(pv, pw)) for pw, pv in a.a])
    return _mk('not', w, (a,), mask(w) - a.hi, mask(w) - a.lo)


def bxor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        r = _runs(b, w)
        return concat([(h - l + 1, bnot(extract(a, h, l), h - l + 1) if bit else extract(a, h, l)) for h, l, bit in r])
    if a is b:
        return 0
    if w == 1:
        return bor(band(a, bnot(b, 1), 1), band(bnot(a, 1), b, 1), 1)
    if a.kz | b.kz == mask(w):
        return bor(a, b, w)
    m = mask(w) & ~(a.kz | b.kz)
    if m != mask(w):
        r = _runs(m, w)
        if len(r) <= 5:
            return concat([(h - l + 1, bxor(extract(a, h, l), extract(b, h, l), h - l + 1)) for h, l, bit in r])
    if a.id > b.id:
        a, b = b, a
    return _mk('xor', w, (a, b), kz=a.kz & b.kz)


def shl(a, s, w):
    if s >= w:
        return 0
    if s == 0:
        return a
    if isinstance(a, int):
        return (a << s) & mask(w)
    return concat([(w - s, extract(a, w - 1 - s, 0)), (s, 0)])


def lshr(a, s, w):
    if s >= w:
        return 0
    if s == 0:
        return a
    if isinstance(a, int):
        return a >> s
    return concat([(s, 0), (w - s, extract(a, w - 1, s))])


def ashr(a, s, w):
    s = min(s, w - 1)
    if s == 0:
        return a
    if isinstance(a, int):
        v = a - (1 << w) if a >> (w - 1) else a
        return (v >> s) & mask(w)
    return sext(extract(a, w - 1, s), w, w - s)


# ---------------------------------------------------------------- arithmetic
def add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if a.op == 'add' and isinstance(a.a[1], int):
            return add(a.a[0], (a.a[1] + b) & mask(w), w)
        if (mask(w) & ~a.kz) & b == 0:
            return bor(a, b, w)
        if a.op == 'concat':
            # add above the trailing zeros of the constant only
            tz = (b & -b).bit_length() - 1
            cut = 0
            for pw, _ in reversed(a.a):
                if cut + pw > tz:
                    break
                cut += pw
            if 0 < cut < w and isinstance(extract(a, w - 1, cut), int):
                return concat([(w - cut, add(extract(a, w - 1, cut), b >> cut, w - cut)), (cut, extract(a, cut - 1, 0))])
        if a.op == 'ite' and isinstance(a.a[1], int) and isinstance(a.a[2], int):
            return ite(a.a[0], add(a.a[1], b, w), add(a.a[2], b, w), w)
        if w == 1:
            return bnot(a, 1)
        l, h = a.lo + b, a.hi + b
        if l > mask(w):
            l -= 1 << w
            h -= 1 << w
        if h > mask(w):
            l = h = None
        return _mk('add', w, (a, b), l, h)
    if w == 1:
        return bxor(a, b, 1)
    if (~a.kz & mask(w)) & (~b.kz & mask(w)) == 0:
        return bor(a, b, w)
    # normalise constants outward
    ca = a.a[1] if a.op == 'add' and isinstance(a.a[1], int) else 0
    cb = b.a[1] if b.op == 'add' and isinstance(b.a[1], int) else 0
    if ca or cb:
        return add(add(a.a[0] if ca else a, b.a[0] if cb else b, w), (ca + cb) & mask(w), w)
    if a.op == 'sub' and a.a[1] is b:
        return a.a[0]
    if b.op == 'sub' and b.a[1] is a:
        return b.a[0]
    if a.id > b.id:
        a, b = b, a
    l, h = a.lo + b.lo, a.hi + b.hi
    if h > mask(w):
        l = h = None
    return _mk('add', w, (a, b), l, h)


def sub(a, b, w):
    if isinstance(b, int):
        return add(a, (-b) & mask(w), w)
    if isinstance(a, int):
        if a == mask(w):
            return bnot(b, w)
        if w == 1:
            return bxor(a, b, 1)
        if b.op == 'add' and isinstance(b.a[1], int):
            return sub((a - b.a[1]) & mask(w), b.a[0], w)
        if b.op == 'not':                      # a - (~y) = a + 1 + y
            return add(b.a[0], (a + 1) & mask(w), w)
        l, h = a - b.hi, a - b.lo
        if l < 0:
            l = h = None
        return _mk('sub', w, (a, b), l, h)
    if a is b:
        return 0
    if b.op == 'mul' and isinstance(b.a[1], int) and isn(b.a[0]) and b.a[0] is udiv(a, b.a[1], w):
        return urem(a, b.a[1], w)              # a - a/c*c
    ca = a.a[1] if a.op == 'add' and isinstance(a.a[1], int) else 0
    cb = b.a[1] if b.op == 'add' and isinstance(b.a[1], int) else 0
    if ca or cb:
        return add(sub(a.a[0] if ca else a, b.a[0] if cb else b, w), (ca - cb) & mask(w), w)
    if a.op == 'add':
        if a.a[0] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[0]
    l, h = a.lo - b.hi, a.hi - b.lo
    if l < 0:
        l = h = None
    return _mk('sub', w, (a, b), l, h)


def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(a, b.bit_length() - 1, w)
        if a.op == 'mul' and isinstance(a.a[1], int) and a.hi * b <= mask(w):
            return mul(a.a[0], a.a[1] * b, w) if a.a[0].hi * a.a[1] <= mask(w) else _mk('mul', w, (a, b), a.lo * b, a.hi * b)
        l, h = a.lo * b, a.hi * b
        tz = (b & -b).bit_length() - 1
        if h > mask(w):
            l = h = None
        return _mk('mul', w, (a, b), l, h, kz=mask(tz))
    if a.id > b.id:
        a, b = b, a
    l, h = a.lo * b.lo, a.hi * b.hi
    if h > mask(w):
        l = h = None
    return _mk('mul', w, (a, b), l, h)


def udiv(a, b, w):
    if isinstance(b, int):
        if isinstance(a, int):
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        if a.hi < b:
            return 0
        if a.lo // b == a.hi // b:
            return a.lo // b
        # narrow
        k = a.hi.bit_length()
        if a.op == 'concat' and k < w and b < (1 << k):
            return zext(udiv(extract(a, k - 1, 0), b, k), k, w)
        return _mk('udiv', w, (a, b), a.lo // b, a.hi // b)
    return _mk('udiv', w, (a, b), 0, rng(a)[1])


def urem(a, b, w):
    if isinstance(b, int):
        if isinstance(a, int):
            return a % b
        if b & (b - 1) == 0:
            return band(a, b - 1, w)
        if a.hi < b:
            return a
        if a.lo // b == a.hi // b:
            return sub(a, a.lo // b * b, w)
        k = a.hi.bit_length()
        if a.op == 'concat' and k < w and b < (1 << k):
            return zext(urem(extract(a, k - 1, 0), b, k), k, w)
        return _mk('urem', w, (a, b), 0, b - 1)
    return _mk('urem', w, (a, b), 0, rng(b)[1])


def neg(a, w):
    return sub(0, a, w)


def sbit(a, w):
    return extract(a, w - 1, w - 1)


def sdiv(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        x = a - (1 << w) if a >> (w - 1) else a
        y = b - (1 << w) if b >> (w - 1) else b
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & mask(w)
    sa, sb = sbit(a, w), sbit(b, w)
    ua = ite(sa, neg(a, w), a, w)
    ub = ite(sb, neg(b, w), b, w)
    q = udiv(ua, ub, w)
    return ite(bxor(sa, sb, 1), neg(q, w), q, w)


def srem(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        x = a - (1 << w) if a >> (w - 1) else a
        y = b - (1 << w) if b >> (w - 1) else b
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    sa, sb = sbit(a, w), sbit(b, w)
    ua = ite(sa, neg(a, w), a, w)
    ub = ite(sb, neg(b, w), b, w)
    r = urem(ua, ub, w)
    return ite(sa, neg(r, w), r, w)


# ---------------------------------------------------------------- predicates (width 1)
def eq(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return int(a == b)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b < a.lo or b > a.hi or (a.kz & b):
            return 0
        if a.lo == a.hi:
            return 1
        if w == 1:
            return a if b else bnot(a, 1)
        if a.op == 'concat':
            r = 1
            pos = w
            for pw, pv in a.a:
                pos -= pw
                r = band(r, eq(pv, (b >> pos) & mask(pw), pw), 1)
                if r == 0:
                    return 0
            return r
        if a.op == 'add' and isinstance(a.a[1], int):
            return eq(a.a[0], (b - a.a[1]) & mask(w), w)
        if a.op == 'sub' and isinstance(a.a[0], int):
            return eq(a.a[1], (a.a[0] - b) & mask(w), w)
        if a.op == 'sub' and b == 0:
            return eq(a.a[0], a.a[1], w)
        if a.op == 'not':
            return eq(a.a[0], b ^ mask(w), w)
        if a.op == 'sext':
            y = a.a[0]
            bb = b & mask(y.w)
            if sext(bb, w, y.w) != b:
                return 0
            return eq(y, bb, y.w)
        if a.op == 'ite':
            c, x, y = a.a
            if isinstance(x, int) and isinstance(y, int):
                return c if x == b and y != b else (bnot(c, 1) if y == b and x != b else (1 if x == b else 0))
            if isinstance(x, int) and x != b:
                return band(bnot(c, 1), eq(y, b, w), 1)
            if isinstance(y, int) and y != b:
                return band(c, eq(x, b, w), 1)
        return _mk('eq', 1, (a, b))
    if a is b:
        return 1
    if a.hi < b.lo or b.hi < a.lo:
        return 0
    if w == 1:
        return bnot(bxor(a, b, 1), 1)
    if a.op == 'concat' and b.op == 'concat':
        cuts = set()
        for x in (a, b):
            p = w
            for pw, _ in x.a:
                p -= pw
                cuts.add(p)
        if len(cuts) <= 24:
            r = 1
            top = w
            for p in sorted(cuts, reverse=True):
                r = band(r, eq(extract(a, top - 1, p), extract(b, top - 1, p), top - p), 1)
                if r == 0:
                    return 0
                top = p
            return r
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return eq(a.a[0], b.a[0], a.a[0].w)
    if a.op == 'concat' or b.op == 'concat':
        # common leading zeros
        k = max(a.hi.bit_length(), b.hi.bit_length())
        if k < w:
            return eq(extract(a, k - 1, 0), extract(b, k - 1, 0), k)
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', 1, (a, b))


def ult(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return int(a < b)
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    if a is b:
        return 0
    if w == 1:
        return band(bnot(a, 1), b, 1)
    k = max(ha, hb).bit_length()
    if k < w and (not isn(a) or a.op == 'concat') and (not isn(b) or b.op == 'concat'):
        return ult(extract(a, k - 1, 0), extract(b, k - 1, 0), k)
    if isinstance(a, int) and b.op == 'add' and isinstance(b.a[1], int) and isn(b.a[0]) and b.a[0].hi + b.a[1] > mask(w) and a < mask(w):
        return bnot(ult(b, a + 1, w), 1)
    if isinstance(b, int) and a.op == 'add' and isinstance(a.a[1], int) and isn(a.a[0]) and a.a[0].hi + a.a[1] > mask(w):
        # a range test written as x - c < b
        c = (1 << w) - a.a[1]
        x = a.a[0]
        if c + b <= mask(w):
            return band(ule(c, x, w), ult(x, c + b, w), 1)
    if isinstance(b, int):
        if a.op == 'udiv' and isinstance(a.a[1], int):      # x/c < b  <=>  x < c*b
            return ult(a.a[0], a.a[1] * b, w) if a.a[1] * b <= mask(w) else 1
        if b == 1:
            return eq(a, 0, w)
        if a.op == 'ite' and isinstance(a.a[1], int) and isinstance(a.a[2], int):
            return ite(a.a[0], int(a.a[1] < b), int(a.a[2] < b), 1)
        if a.op == 'concat':
            # drop low constant/aligned parts: x:lowbits < b
            lw, lv = a.a[-1]
            if isinstance(lv, int):
                # hi*2^lw + lv < b  <=>  hi < ceil((b - lv) / 2^lw)
                nb = -((lv - b) >> lw)
                if nb <= 0:
                    return 0
                hi = concat(list(a.a[:-1]))
                if nb > mask(w - lw):
                    return 1
                return ult(hi, nb, w - lw)
    elif isinstance(a, int):
        if b.op == 'udiv' and isinstance(b.a[1], int):      # a < x/c  <=>  x >= c*(a+1)
            return ule(b.a[1] * (a + 1), b.a[0], w) if b.a[1] * (a + 1) <= mask(w) else 0
        if b.op == 'ite' and isinstance(b.a[1], int) and isinstance(b.a[2], int):
            return ite(b.a[0], int(a < b.a[1]), int(a < b.a[2]), 1)
        if b.op == 'concat':
            lw, lv = b.a[-1]
            if isinstance(lv, int):
                # a < hi*2^lw + lv <=> hi > (a - lv) / 2^lw <=> hi > floor((a-lv)/2^lw)
                q = (a - lv) >> lw
                if q < 0:
                    return 1
                hi = concat(list(b.a[:-1]))
                return ult(q, hi, w - lw)
        if a == mask(w) - 1 and False:
            pass
    if isn(a) and isn(b) and a.op == 'concat' and b.op == 'concat':
        lw, lv = a.a[-1]
        mw, mv = b.a[-1]
        if lw == mw and isinstance(lv, int) and isinstance(mv, int) and lv == mv:
            return ult(concat(list(a.a[:-1])), concat(list(b.a[:-1])), w - lw)
    return _mk('ult', 1, (a, b))


def ule(a, b, w):
    return bnot(ult(b, a, w), 1)


def slt(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return int((a ^ (1 << (w - 1))) < (b ^ (1 << (w - 1))))
    if isn(a) and a.op == 'sext' and (isinstance(b, int) or b.op == 'sext' and b.a[0].w == a.a[0].w):
        y = a.a[0]
        if not isinstance(b, int):
            return slt(y, b.a[0], y.w)
        bb = b & mask(y.w)
        if sext(bb, w, y.w) == b:
            return slt(y, bb, y.w)
        return int(not (b >> (w - 1)))
    if isn(b) and b.op == 'sext' and isinstance(a, int):
        y = b.a[0]
        aa = a & mask(y.w)
        if sext(aa, w, y.w) == a:
            return slt(aa, y, y.w)
        return int(a >> (w - 1))
    sa, sb = sbit(a, w), sbit(b, w)
    if sa is sb or sa == sb and isinstance(sa, int):
        return ult(a, b, w)
    if isinstance(sa, int) and isinstance(sb, int):
        return int(sa > sb)
    if isinstance(sb, int):
        if sb:     # b negative
            return band(sa, ult(a, b, w), 1)
        return bor(sa, ult(a, b, w), 1)
    if isinstance(sa, int):
        if sa:     # a negative: a<b iff b>=0 or a<b unsigned
            return bor(bnot(sb, 1), ult(a, b, w), 1)
        return band(bnot(sb, 1), ult(a, b, w), 1)
    return bor(band(sa, bnot(sb, 1), 1), band(bnot(bxor(sa, sb, 1), 1), ult(a, b, w), 1), 1)


def sle(a, b, w):
    return bnot(slt(b, a, w), 1)


def ite(c, a, b, w):
    if isinstance(c, int):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a, w)
    if w == 1:
        if isinstance(a, int) and isinstance(b, int):
            return c if a else bnot(c, 1)
        if isinstance(a, int):
            return bor(c, b, 1) if a else band(bnot(c, 1), b, 1)
        if isinstance(b, int):
            return bor(bnot(c, 1), a, 1) if b else band(c, a, 1)
        return bor(band(c, a, 1), band(bnot(c, 1), b, 1), 1)
    la, ha = rng(a)
    lb, hb = rng(b)
    return _mk('ite', w, (c, a, b), min(la, lb), max(ha, hb), kz=kzero(a, w) & kzero(b, w))


def table(data, idx, iw, w):
    """data: tuple of ints (elements of width w), idx: value of width iw within range."""
    if isinstance(idx, int):
        return data[idx]
    if idx.op == 'concat' and isinstance(idx.a[-1][1], int):
        lw, lv = idx.a[-1]
        sub_ = data[lv::1 << lw]
        if sub_:
            return table(sub_, concat(list(idx.a[:-1])), iw - lw, w)
    l, h = idx.lo, min(idx.hi, len(data) - 1)
    seg = data[l:h + 1] or (0,)
    if min(seg) == max(seg) and idx.hi < len(data):
        return seg[0]
    return _mk('tab', w, (data, idx), min(seg), max(seg))


def opaque(name, w, args, lo=None, hi=None):
    return _mk('fp:' + name if not name.startswith('uf:') else name, w, tuple(args), lo, hi)


# ---------------------------------------------------------------- evaluation
class NoEval(Exception):
    pass


def ev(x, env, cache=None):
    """Evaluate under env: var name -> int."""
    if isinstance(x, int):
        return x
    if cache is None:
        cache = {}
    stack = [x]
    while stack:
        n = stack[-1]
        if n.id in cache:
            stack.pop()
            continue
        op = n.op
        if op == 'var':
            if n.a[0] not in env:
                raise NoEval(n.a[0])
            cache[n.id] = env[n.a[0]] & mask(n.w)
            stack.pop()
            continue
        if op == 'concat':
            kids = [v for _, v in n.a if isn(v)]
        else:
            kids = [v for v in n.a if isn(v)]
        miss = [k for k in kids if k.id not in cache]
        if miss:
            stack.extend(miss)
            continue
        stack.pop()
        g = lambda v: cache[v.id] if isn(v) else v
        w = n.w
        M = mask(w)
        if op == 'concat':
            r = 0
            for pw, pv in n.a:
                r = (r << pw) | g(pv)
        elif op == 'extract':
            r = (g(n.a[0]) >> n.a[2]) & M
        elif op == 'sext':
            r = sext(g(n.a[0]), w, n.a[0].w)
        elif op == 'tab':
            r = n.a[0][min(g(n.a[1]), len(n.a[0]) - 1)]
        elif op == 'ite':
            r = g(n.a[1]) if g(n.a[0]) else g(n.a[2])
        elif op == 'not':
            r = g(n.a[0]) ^ M
        elif op == 'nearest':
            D, M = g(n.a[0]), g(n.a[1])
            E10, E2, nar, strict = n.a[2:6]
            v = D * (10 ** max(E10, 0)) * 2 ** max(2 - E2, 0)
            s = 2 ** max(E2 - 2, 0) * 10 ** max(-E10, 0)
            lo, hi = (4 * M - (1 if nar else 2)) * s, (4 * M + 2) * s
            r = int(lo < v < hi) if strict else int(lo <= v <= hi)
        elif op.startswith('fp:') or op.startswith('uf:'):
            from fpsem import eval_opaque
            r = eval_opaque(op, w, [g(v) for v in n.a])
        else:
            a, b = g(n.a[0]), g(n.a[1])
            if op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'add': r = (a + b) & M
            elif op == 'sub': r = (a - b) & M
            elif op == 'mul': r = (a * b) & M
            elif op == 'udiv': r = a // b if b else M
            elif op == 'urem': r = a % b if b else a
            elif op == 'eq': r = int(a == b)
            elif op == 'ult': r = int(a < b)
            else:
                raise NoEval(op)
        cache[n.id] = r
    return cache[x.id]


def variables(x, acc=None, seen=None):
    if acc is None:
        acc = {}
    if seen is None:
        seen = set()
    st = [x]
    while st:
        n = st.pop()
        if not isn(n) or n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'var':
            acc[n.a[0]] = n
        elif n.op == 'concat':
            st.extend(v for _, v in n.a)
        else:
            st.extend(v for v in n.a if isn(v))
    return acc
