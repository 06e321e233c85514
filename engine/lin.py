"""Solver back ends.

IntCtx lowers bit-vector terms, path-sensitively, to linear constraints over
integers (wrap-around is resolved by intervals, by a query, or by an explicit
case split) and decides them in z3's linear real arithmetic with integer
tightening; anything it cannot express is over-approximated by a bounded fresh
variable, so `unsat` is always sound for the exact semantics.  A `sat` answer is
only believed after the candidate input has been evaluated on the exact terms;
otherwise integer arithmetic and exact bit-vectors are tried.

BVCtx is the exact bit-vector encoding."""
import time
from math import gcd
import z3
import terms as T

isn = T.isn
DEBUG = False
STATS = {'queries': 0, 'solver_s': 0.0, 'lia': 0, 'bv': 0, 'unknown': 0}


def timed_check(s, *a):
    t = time.time()
    r = s.check(*a)
    STATS['queries'] += 1
    STATS['solver_s'] += time.time() - t
    if r == z3.unknown:
        STATS['unknown'] += 1
    return r


# ---------------------------------------------------------------- linear forms
# a form is (const, {monomial: coeff}); a monomial is a tuple of sorted variable ids
def ladd(a, b, k=1):
    if k == 0:
        return a
    d = dict(a[1])
    for m, c in b[1].items():
        v = d.get(m, 0) + k * c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return a[0] + k * b[0], d


def lscale(a, k):
    if k == 0:
        return 0, {}
    return a[0] * k, {m: c * k for m, c in a[1].items()}


def lkey(a):
    return a[0], frozenset(a[1].items())


TRUE, FALSE = ('t',), ('f',)


def f_le0(l):
    """l <= 0 over integers, tightened."""
    c, d = l
    if not d:
        return TRUE if c <= 0 else FALSE
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        d = {m: v // g for m, v in d.items()}
        c = -((-c) // g)             # sum <= -c/g  ->  sum <= floor(-c/g)
    return ('le', (c, d))


def f_eq0(l):
    c, d = l
    if not d:
        return TRUE if c == 0 else FALSE
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if c % g:
        return FALSE
    return ('eq', (c // g, {m: v // g for m, v in d.items()}))


def f_ne0(l):
    return f_or([f_le0((l[0] + 1, l[1])), f_le0(ladd((1, {}), l, -1))])


def f_and(xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x[0] == 'and':
            out.extend(x[1])
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else ('and', out)


def f_or(xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x[0] == 'or':
            out.extend(x[1])
        else:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else ('or', out)


class _Restore:
    def __init__(self, d, old):
        self.d, self.old = d, old

    def pop(self, k, _=None):
        if self.old is None:
            self.d.pop(k, None)
        else:
            self.d[k] = self.old


class IntCtx:
    def __init__(self, timeout=2000):
        self.s = z3.SolverFor('QF_LRA')
        self.s.set('timeout', timeout)
        self.ctx = self.s.ctx
        self.vars = []            # id -> (name, lo, hi, origin node or None)
        self.zr = []              # id -> z3 Real
        self.stack = []           # pc cells
        self.undo = [[]]          # per level: list of closures (dict, key)
        self.asserts = [[]]       # per level formulas
        self.cache = {}
        self.bcache = {}
        self.divs = {}
        self.divix = {}
        self.bnd = {}             # tightened variable bounds on the current path
        self.qdef = {}            # quotient var -> (dividend, divisor, k0): v = dividend/divisor - k0
        self.monos = {}
        self.inputs = {}          # name -> var id
        self.nq = 0
        self._z = {}

    # -- variables
    def newvar(self, name, lo, hi):
        i = len(self.vars)
        self.vars.append((name, lo, hi))
        v = z3.Real('%s_%d' % (name, i))
        self.zr.append(v)
        self.add(('le', (lo, {(i,): -1})))
        self.add(('le', (-hi, {(i,): 1})))
        return i

    def put(self, d, k, v):
        d[k] = v
        self.undo[-1].append((d, k))

    # -- emission
    def mono(self, m):
        if len(m) == 1:
            return self.zr[m[0]]
        return self.zr[self.monos[m]]

    def zlin(self, l, mk=None):
        c, d = l
        ts = []
        if mk is None:
            for m, k in d.items():
                v = self.mono(m)
                ts.append(v if k == 1 else z3.RealVal(k) * v)
            return z3.Sum(ts) if len(ts) > 1 else ts[0]
        for m, k in d.items():
            v = mk(m)
            ts.append(v if k == 1 else z3.IntVal(k) * v)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def emit(self, f, mk=None):
        k = f[0]
        if k == 't':
            return z3.BoolVal(True)
        if k == 'f':
            return z3.BoolVal(False)
        num = z3.RealVal if mk is None else z3.IntVal
        if k == 'le':
            return self.zlin(f[1], mk) <= num(-f[1][0])
        if k == 'eq':
            return self.zlin(f[1], mk) == num(-f[1][0])
        if k == 'and':
            return z3.And([self.emit(x, mk) for x in f[1]])
        return z3.Or([self.emit(x, mk) for x in f[1]])

    def add(self, f):
        if f is TRUE:
            return
        self.asserts[-1].append(f)
        self.s.add(self.emit(f))
        self.bounds(f)

    def bounds(self, f):
        """Bounds of single variables that f implies."""
        if f[0] == 'and':
            for x in f[1]:
                self.bounds(x)
            return
        if f[0] == 'or' and len(f[1]) == 2:
            # v <= a or v >= b (a disequality), with one side outside the range
            live = [x for x in f[1] if x[0] != 'le' or len(x[1][1]) != 1 or self.lrange(x[1])[0] <= 0]
            if len(live) == 1:
                self.bounds(live[0])
            return
        if f[0] not in ('le', 'eq'):
            return
        c, d = f[1]
        if len(d) != 1:
            return
        (m, k), = d.items()
        if len(m) != 1:
            return
        i = m[0]
        lo, hi = self.vrange(m)
        nlo, nhi = lo, hi
        if f[0] == 'eq':
            nlo, nhi = max(lo, -(c // k) if k > 0 else -((-c) // -k)), min(hi, (-c) // k if k > 0 else c // -k)
        elif k > 0:
            nhi = min(hi, (-c) // k)
        else:
            nlo = max(lo, -((-c) // -k))
        if nlo > nhi or (nlo, nhi) == (lo, hi):
            return
        self.undo[-1].append((_Restore(self.bnd, self.bnd.get(i)), i))
        self.bnd[i] = (nlo, nhi)
        for mm in list(self.monos):
            if len(mm) == 2 and i in mm:
                self.mccormick(mm, mm[:1], mm[1:])

    def push(self):
        self.s.push()
        self.undo.append([])
        self.asserts.append([])

    def pop(self):
        self.s.pop()
        for d, k in reversed(self.undo.pop()):
            d.pop(k, None)
        self.asserts.pop()

    def sync(self, pc):
        chain = []
        c = pc
        st = self.stack
        while c is not None and not (c[2] <= len(st) and st[c[2] - 1] is c):
            chain.append(c)
            c = c[0]
        keep = c[2] if c is not None else 0
        while len(st) > keep:
            self.pop()
            st.pop()
        for c in reversed(chain):
            self.push()
            st.append(c)
            f = self.lowerb(c[1], True)
            self.add(f)

    # -- intervals
    def vrange(self, m):
        if len(m) == 1:
            return self.bnd.get(m[0]) or self.vars[m[0]][1:3]
        lo = hi = 1
        for x in m:
            l, h = self.bnd.get(x) or self.vars[x][1:3]
            lo, hi = lo * l, hi * h       # all variables are nonnegative
        return lo, hi

    def lrange(self, l):
        lo = hi = l[0]
        for m, k in l[1].items():
            a, b = self.vrange(m)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def check(self, *fs):
        self.s.push()
        for f in fs:
            self.s.add(self.emit(f))
        r = timed_check(self.s)
        self.s.pop()
        return r

    def possible(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        return self.check(f) != z3.unsat

    # -- lowering
    def lower(self, x):
        """Linear form equal to the unsigned value of x on the current path."""
        if isinstance(x, int):
            return x, {}
        r = self.cache.get(x.id)
        if r is None:
            # iterative descent to keep recursion shallow
            r = self._lower(x)
            if not r[1]:
                pass
            self.put(self.cache, x.id, r)
        return r

    def fresh(self, name, lo, hi):
        if lo == hi:
            return lo, {}
        i = self.newvar(name, lo, hi)
        return 0, {(i,): 1}

    def _lower(self, x):
        op, w, a = x.op, x.w, x.a
        if op == 'var':
            i = self.inputs.get(a[0])
            if i is None:
                i = self.newvar(a[0], x.lo, x.hi)
                self.put(self.inputs, a[0], i)
            return 0, {(i,): 1}
        if op == 'concat':
            r = (0, {})
            p = w
            for pw, pv in a:
                p -= pw
                r = ladd(r, self.lower(pv), 1 << p)
            return r
        if op == 'extract':
            base, hi, lo = a
            l = self.lower(base)
            if hi < base.w - 1 and base.hi >> (hi + 1):
                if lo:
                    q = self.divmod(l, 1 << lo, (base.lo >> lo, base.hi >> lo))[0]
                    return self.divmod(q, 1 << (hi - lo + 1), (base.lo >> (hi + 1), base.hi >> (hi + 1)))[1]
                return self.divmod(l, 1 << (hi + 1), (base.lo >> (hi + 1), base.hi >> (hi + 1)))[1]
            return self.divmod(l, 1 << lo, (base.lo >> lo, base.hi >> lo))[0] if lo else l
        if op == 'sext':
            y = a[0]
            l = self.lower(y)
            if y.w == 1:
                return lscale(l, T.mask(w))
            s = self.divmod(l, 1 << (y.w - 1), (0, 1))[0]
            return ladd(l, s, T.mask(w) + 1 - (1 << y.w))
        if op == 'add':
            return self.wrap(ladd(self.lower(a[0]), self.lower(a[1])), w, T.rng(a[0])[0] + T.rng(a[1])[0], T.rng(a[0])[1] + T.rng(a[1])[1])
        if op == 'sub':
            return self.wrap(ladd(self.lower(a[0]), self.lower(a[1]), -1), w, T.rng(a[0])[0] - T.rng(a[1])[1], T.rng(a[0])[1] - T.rng(a[1])[0])
        if op == 'mul':
            lx, ly = self.lower(a[0]), self.lower(a[1])
            pr = self.lmul(lx, ly)
            if lx[1] and ly[1] and (len(lx[1]) > 1 or len(ly[1]) > 1 or lx[0] or ly[0]):
                (l1, h1), (l2, h2) = T.rng(a[0]), T.rng(a[1])
                for p0, q0, sg in ((l1, l2, -1), (h1, h2, -1), (l1, h2, 1), (h1, l2, 1)):
                    # sg * (x - p0) * (y - q0) <= 0
                    z = ladd(ladd(ladd(pr, ly, -p0), lx, -q0), (p0 * q0, {}))
                    self.add(f_le0(lscale(z, sg)))
            return self.wrap(pr, w, T.rng(a[0])[0] * T.rng(a[1])[0], T.rng(a[0])[1] * T.rng(a[1])[1])
        if op == 'udiv' and isinstance(a[1], int):
            return self.divmod(self.lower(a[0]), a[1], (a[0].lo // a[1], a[0].hi // a[1]))[0]
        if op == 'urem' and isinstance(a[1], int):
            return self.divmod(self.lower(a[0]), a[1], (a[0].lo // a[1], a[0].hi // a[1]))[1]
        if op == 'not':
            return ladd((T.mask(w), {}), self.lower(a[0]), -1) if w > 1 else self.boolint(x)
        if w == 1 and op in ('eq', 'ult', 'and', 'or', 'xor'):
            return self.boolint(x)
        if op == 'ite':
            c, p, q = a
            lp, lq = self.lower(p), self.lower(q)
            fp, fn = self.lowerb(c, True), self.lowerb(c, False)
            if fp is TRUE or fn is FALSE:
                return lp
            if fp is FALSE or fn is TRUE:
                return lq
            if not self.possible(fp):
                return lq
            if not self.possible(fn):
                return lp
            d = ladd(lp, lq, -1)
            if not d[1]:
                b = self.lower_bit(fp, fn)
                return ladd(lq, b, d[0])
            r = self.fresh('ite', x.lo, x.hi)
            self.add(f_or([f_and([fp, f_eq0(ladd(r, lp, -1))]), f_and([fn, f_eq0(ladd(r, lq, -1))])]))
            return r
        if op == 'tab':
            return self.ltab(x)
        if op == 'and':
            r = self.fresh('and', x.lo, x.hi)
            for y in a:
                if isn(y):
                    self.add(f_le0(ladd(r, self.lower(y), -1)))
            return r
        if op == 'or' or op == 'xor':
            r = self.fresh(op, x.lo, x.hi)
            s = ladd(self.lower(a[0]), self.lower(a[1]))
            self.add(f_le0(ladd(r, s, -1)))
            if op == 'or':
                for y in a:
                    self.add(f_le0(ladd(self.lower(y), r, -1)))
            return r
        return self.fresh('op', x.lo, x.hi)

    def lower_bit(self, fp, fn):
        b = self.fresh('bit', 0, 1)
        self.add(f_or([f_and([fp, f_eq0(ladd(b, (1, {}), -1))]), f_and([fn, f_eq0(b)])]))
        return b

    def boolint(self, x):
        fp, fn = self.lowerb(x, True), self.lowerb(x, False)
        if fp is TRUE or fn is FALSE:
            return 1, {}
        if fp is FALSE or fn is TRUE:
            return 0, {}
        return self.lower_bit(fp, fn)

    def fold(self, l):
        """Replace variables that have one value on this path."""
        if not self.bnd:
            return l
        c, d = l
        out = {}
        for m, k in d.items():
            n = m
            for i in m:
                r = self.bnd.get(i)
                if r is not None and r[0] == r[1]:
                    k *= r[0]
                    t = list(n)
                    t.remove(i)
                    n = tuple(t)
            if not n:
                c += k
            elif k:
                out[n] = out.get(n, 0) + k
        return c, {m: k for m, k in out.items() if k}

    def lmul(self, a, b):
        a, b = self.fold(a), self.fold(b)
        if not a[1]:
            return lscale(b, a[0])
        if not b[1]:
            return lscale(a, b[0])
        r = lscale(b, a[0])
        r = ladd(r, (0, lscale(a, b[0])[1]))
        for m, c in a[1].items():
            for n, e in b[1].items():
                mm = tuple(sorted(m + n))
                self.monovar(mm, m, n)
                r = ladd(r, (0, {mm: c * e}))
        return r

    def monovar(self, mm, m, n):
        if mm in self.monos:
            return
        (l1, h1), (l2, h2) = self.vrange(m), self.vrange(n)
        i = self.newvar('mono', l1 * l2, h1 * h2)
        self.put(self.monos, mm, i)
        self.mccormick(mm, m, n)

    def mccormick(self, mm, m, n):
        (l1, h1), (l2, h2) = self.vrange(m), self.vrange(n)
        P = (0, {mm: 1})
        x, y = (0, {m: 1}), (0, {n: 1})
        # McCormick envelopes
        for (p, q, s) in ((l1, l2, 1), (h1, h2, 1), (l1, h2, -1), (h1, l2, -1)):
            # s * (P - q x - p y + p q) >= 0
            e = ladd(ladd(ladd(P, x, -q), y, -p), (p * q, {}))
            self.add(f_le0(lscale(e, -s)))

    def wrap(self, l, w, lo, hi):
        M = 1 << w
        if lo >= 0 and hi < M:
            return l
        a, b = self.lrange(l)
        lo, hi = max(lo, a), min(hi, b)
        k0, k1 = lo // M, hi // M
        if k0 == k1:
            return ladd(l, (-k0 * M, {}))
        # reduce coefficients modulo 2^w first when that helps
        k = self.qrange(l, M, k0, k1)
        if isinstance(k, int):
            return ladd(l, (-k * M, {}))
        k0, k1 = k
        return self.divmod(l, M, k)[1]

    def qrange(self, l, M, k0, k1):
        """Tighten the range of floor(l / M) by queries."""
        # is the in-range value the only one?
        for k in ((0,) if k0 <= 0 <= k1 else ()) + ((k0, k1) if k1 - k0 <= 3 else ()):
            below = self.possible(f_le0(ladd(l, (1 - k * M, {})))) if k > k0 else False
            if below:
                if k == 0 and k0 < 0:
                    continue
                continue
            above = self.possible(f_le0(ladd((M * (k + 1), {}), l, -1))) if k < k1 else False
            if not above:
                return k
        if k1 - k0 <= 64:
            while k0 < k1 and not self.possible(f_le0(ladd(l, (1 - (k0 + 1) * M, {})))):
                k0 += 1
            while k1 > k0 and not self.possible(f_le0(ladd((M * k1, {}), l, -1))):
                k1 -= 1
        return k0 if k0 == k1 else (k0, k1)

    def split(self, l, c):
        A, B = {}, {}
        for m, k in l[1].items():
            if k % c == 0:
                A[m] = k // c
            else:
                B[m] = k
        return (l[0] // c, A), (l[0] % c, B)

    def divmod(self, l, c, krange=None):
        if c == 1:
            return l, (0, {})
        if krange is not None and krange[0] == krange[1]:
            return (krange[0], {}), ladd(l, (-krange[0] * c, {}))
        # split off the part divisible by c
        A, B = {}, {}
        for m, k in l[1].items():
            if k % c == 0:
                A[m] = k // c
            else:
                B[m] = k
        b0 = l[0] % c
        A = (l[0] // c, A)
        Bl = (b0, B)
        if not B:
            return A, Bl
        lo, hi = self.lrange(Bl)
        if lo // c == hi // c:
            k = lo // c
            return ladd(A, (k, {})), ladd(Bl, (-k * c, {}))
        key = (lkey(Bl), c)
        r = self.divs.get(key)
        alias = None
        if r is None and len(B) == 1:
            # a quotient of a quotient: name it by the original dividend
            (mv, kv), = B.items()
            if kv == 1 and len(mv) == 1 and mv[0] in self.qdef:
                L, c0, kq = self.qdef[mv[0]]
                A2, B2 = self.split(ladd(L, ((b0 - kq) * c0, {})), c0 * c)
                alias = (A2, B2, c0 * c)
                r2 = self.divs.get((lkey(B2), c0 * c))
                if r2 is not None:
                    q = ladd(A2, r2[0])
                    r = (q, ladd(Bl, q, -c))
                    self.put(self.divs, key, r)
        if r is None:
            k0, k1 = lo // c, hi // c
            if krange is not None and not A[1]:
                k0, k1 = max(k0, krange[0] - A[0]), min(k1, krange[1] - A[0])
            fam = self.divix.setdefault(lkey(Bl), [])
            best = None
            for c2 in fam:
                if c % c2 == 0 and c2 < c and (best is None or c2 > best) and (lkey(Bl), c2) in self.divs:
                    best = c2
            if best is not None and lo >= 0:
                q = self.divmod(self.divs[(lkey(Bl), best)][0], c // best)[0]
                r = (q, ladd(Bl, q, -c))
            else:
                if k1 - k0 > 1:
                    k = self.qrange(Bl, c, k0, k1) if k1 - k0 <= 4 else (k0, k1)
                    if isinstance(k, int):
                        r = ((k, {}), ladd(Bl, (-k * c, {})))
                    else:
                        k0, k1 = k
                elif k1 - k0 == 1:
                    if not self.possible(f_le0(ladd((c * k1, {}), Bl, -1))):
                        r = ((k0, {}), ladd(Bl, (-k0 * c, {})))
                    elif not self.possible(f_le0(ladd(Bl, (1 - c * k1, {})))):
                        r = ((k1, {}), ladd(Bl, (-k1 * c, {})))
                if r is None:
                    v = self.newvar('q', 0, k1 - k0)
                    q = (k0, {(v,): 1})
                    rem = ladd(Bl, q, -c)
                    self.put(self.qdef, v, (Bl, c, k0))
                    self.add(f_le0(lscale(rem, -1)))
                    self.add(f_le0(ladd(rem, (1 - c, {}))))
                    if k1 - k0 <= 3:
                        self.add(f_or([f_eq0(ladd(q, (-k, {}))) for k in range(k0, k1 + 1)]))
                    r = (q, rem)
            self.put(self.divs, key, r)
            if alias is not None:
                A2, B2, cc = alias
                q2 = ladd(r[0], A2, -1)
                self.put(self.divs, (lkey(B2), cc), (q2, ladd(B2, q2, -cc)))
            fam.append(c)
            self.undo[-1].append((self._Fam(fam), c))
            if best is None and lo >= 0:
                for c2 in list(fam):
                    if c2 % c == 0 and c2 > c and (lkey(Bl), c2) in self.divs:
                        q2 = self.divmod(r[0], c2 // c)[0]
                        self.add(f_eq0(ladd(q2, self.divs[(lkey(Bl), c2)][0], -1)))
        q, rem = r
        return ladd(A, q), rem

    class _Fam:
        def __init__(self, l):
            self.l = l

        def pop(self, c, d=None):
            if c in self.l:
                self.l.remove(c)

    def ltab(self, x):
        data, idx = x.a
        li = self.lower(idx)
        lo, hi = self.lrange(li)
        lo, hi = max(lo, idx.lo), min(hi, idx.hi, len(data) - 1)
        n = hi - lo + 1
        if n > 8 and n <= 4096:
            # use the path to narrow the range
            pass
        t = template(data, lo, hi)
        if t is not None:
            A, B, C, D, exc = t
            if D is None:
                r = ladd((A, {}), li, B)
            else:
                q, rm = self.divmod(li, D)
                r = ladd(ladd((A, {}), q, B), rm, C)
            if exc:
                v = self.fresh('tab', x.lo, x.hi)
                alt = []
                reg = [f_eq0(ladd(v, r, -1))]
                for e in exc:
                    alt.append(f_and([f_eq0(ladd(li, (-e, {}))), f_eq0(ladd(v, (-data[e], {})))]))
                    reg.append(f_ne0(ladd(li, (-e, {}))))
                self.add(f_or(alt + [f_and(reg)]))
                return v
            return r
        segs = segments(data, lo, hi)
        if DEBUG:
            print('TAB', x, idx, lo, hi, len(segs))
        if len(segs) > 600:
            return self.fresh('tab', x.lo, x.hi)
        v = self.fresh('tab', x.lo, x.hi)
        alts = []
        for s, e, k in segs:
            # v = data[s] + k*(idx - s) on s..e
            al = [f_le0(ladd((s, {}), li, -1)), f_le0(ladd(li, (-e, {}))),
                  f_eq0(ladd(ladd(v, (-data[s] + k * s, {})), li, -k))]
            alts.append(f_and(al))
        self.add(f_or(alts))
        return v

    def lowerb(self, x, pos):
        if isinstance(x, int):
            return TRUE if bool(x) == pos else FALSE
        key = (x.id, pos)
        r = self.bcache.get(key)
        if r is None:
            r = self._lowerb(x, pos)
            self.put(self.bcache, key, r)
        return r

    def _lowerb(self, x, pos):
        op, a = x.op, x.a
        if op == 'not':
            return self.lowerb(a[0], not pos)
        if op in ('and', 'or'):
            if (op == 'and') == pos:
                # conjunction: lower the second operand under the first only as a formula
                return f_and([self.lowerb(y, pos) for y in a])
            return f_or([self.lowerb(y, pos) for y in a])
        if op == 'eq':
            d = ladd(self.lower(a[0]), self.lower(a[1]), -1)
            return f_eq0(d) if pos else f_ne0(d)
        if op == 'ult':
            d = ladd(self.lower(a[0]), self.lower(a[1]), -1)
            return f_le0((d[0] + 1, d[1])) if pos else f_le0(lscale(d, -1))
        if op == 'nearest':
            return self.nearest(x, pos)
        if op == 'extract' or op == 'var' or op == 'tab' or op == 'ite':
            l = self.lower(x) if op != 'ite' else None
            if l is not None:
                d = ladd(l, (1, {}), -1)
                return f_eq0(d) if pos else f_eq0(l)
        b = self.fresh('b', 0, 1)
        # opaque boolean: one variable for both polarities
        self.put(self.bcache, (x.id, True), f_eq0(ladd(b, (1, {}), -1)))
        self.put(self.bcache, (x.id, False), f_eq0(b))
        return self.bcache[(x.id, pos)]

    def nearest(self, x, pos):
        """nearest(D, M; E10, E2, lo_num, lo_den.. ) : see exec.v_nearest."""
        D, M = x.a[0], x.a[1]
        E10, E2, narrow, strict = x.a[2:6]
        # value D * 10^E10, target M * 2^E2; interval half ulp around M
        # lower bound: (4M - (1 if narrow else 2)) * 2^(E2-2), upper: (4M+2) * 2^(E2-2)
        d, m = self.lower(D), self.lower(M)
        n10, d10 = (10 ** E10, 1) if E10 >= 0 else (1, 10 ** -E10)
        n2, d2 = (2 ** (E2 - 2), 1) if E2 >= 2 else (1, 2 ** (2 - E2))
        v = lscale(d, n10 * d2)                 # scaled value
        t = lscale(m, 4 * n2 * d10)
        s = n2 * d10
        lo = ladd(t, (-(1 if narrow else 2) * s, {}))
        hi = ladd(t, (2 * s, {}))
        # strict interior (scaled integers)
        k = 1 if strict else 0
        ge = f_le0(ladd(ladd(lo, v, -1), (k, {})))
        le = f_le0(ladd(ladd(v, hi, -1), (k, {})))
        if pos:
            return f_and([ge, le])
        nlo = f_le0(ladd(ladd(v, lo, -1), (1 - k, {})))
        nhi = f_le0(ladd(ladd(hi, v, -1), (1 - k, {})))
        return f_or([nlo, nhi])

    # -- queries
    def feasible(self, pc, cond):
        self.sync(pc)
        if isinstance(cond, int):
            return bool(cond)
        self.push()
        try:
            f = self.lowerb(cond, True)
            if f is FALSE:
                return False
            if f is TRUE:
                return True
            self.s.add(self.emit(f))
            return timed_check(self.s) != z3.unsat
        finally:
            self.pop()

    def refuted(self, pc, cond):
        """True if pc and cond is unsatisfiable (LRA)."""
        return not self.feasible(pc, cond)

    def hints(self, pc, cond):
        """Yield candidate environments for the inputs (not verified)."""
        self.sync(pc)
        self.push()
        try:
            f = self.lowerb(cond, True)
            self.add(f)
            if timed_check(self.s) == z3.sat:
                m = self.s.model()
                env = {}
                for n, i in self.inputs.items():
                    v = m.eval(self.zr[i], model_completion=True)
                    env[n] = (v.numerator_as_long(), v.denominator_as_long())
                for mode in (0, 1, 2):
                    e = {}
                    for n, (p, q) in env.items():
                        x = p // q if mode == 0 else (-((-p) // q) if mode == 1 else (2 * p + q) // (2 * q))
                        i = self.inputs[n]
                        e[n] = min(max(x, self.vars[i][1]), self.vars[i][2])
                    yield e
        finally:
            self.pop()

    def lia(self, pc, cond, timeout):
        """Exact-integer version: 'unsat' (sound), env candidate or None."""
        self.sync(pc)
        self.push()
        try:
            self.add(self.lowerb(cond, True))
            STATS['lia'] += 1
            s = z3.SolverFor('QF_LIA')
            s.set('timeout', timeout)
            zi = {}

            def mk(m):
                v = zi.get(m)
                if v is None:
                    v = zi[m] = z3.Int('v' + '_'.join(map(str, m)))
                return v
            for lv in self.asserts:
                for f in lv:
                    s.add(self.emit(f, mk))
            r = timed_check(s)
            if r == z3.unsat:
                return 'unsat'
            if r == z3.sat:
                m = s.model()
                env = {}
                for n, i in self.inputs.items():
                    v = m.eval(mk((i,)), model_completion=True)
                    env[n] = v.as_long()
                return env
            return None
        finally:
            self.pop()


def template(data, lo, hi):
    """(A, B, C, D, exceptions): data[i] = A + B*(i // D) + C*(i % D), or linear A + B*i (D None)."""
    n = hi - lo + 1
    if n <= 2:
        if n == 1:
            return data[lo], 0, 0, None, ()
        B = data[hi] - data[lo]
        return data[lo] - B * lo, B, 0, None, ()
    key = (data, lo, hi)
    if key in _tcache:
        return _tcache[key]
    best = None

    def tryt(f, t):
        nonlocal best
        exc = []
        for i in range(lo, hi + 1):
            if data[i] != f(i):
                exc.append(i)
                if len(exc) > 4:
                    return
        if n - len(exc) >= 6 or not exc:
            if best is None or len(exc) < len(best[4]):
                best = t + (tuple(exc),)
    from collections import Counter
    diffs = Counter(data[i + 1] - data[i] for i in range(lo, hi))
    for B, _ in diffs.most_common(2):
        A = Counter(data[i] - B * i for i in range(lo, hi + 1)).most_common(1)[0][0]
        tryt(lambda i: A + B * i, (A, B, 0, None))
    if best is None or best[4]:
        C = diffs.most_common(1)[0][0]
        for D in range(2, min(n, 130)):
            # B from positions D apart
            if n > D:
                b = Counter(data[i + D] - data[i] for i in range(lo, hi + 1 - D)).most_common(1)[0][0]
                A = Counter(data[i] - b * (i // D) - C * (i % D) for i in range(lo, hi + 1)).most_common(1)[0][0]
                tryt(lambda i: A + b * (i // D) + C * (i % D), (A, b, C, D))
                if best is not None and not best[4]:
                    break
    _tcache[key] = best
    return best


_tcache = {}


def segments(data, lo, hi):
    out = []
    i = lo
    while i <= hi:
        if i == hi:
            out.append((i, i, 0))
            break
        k = data[i + 1] - data[i]
        j = i + 1
        while j + 1 <= hi and data[j + 1] - data[j] == k:
            j += 1
        if j == i + 1 and k != 0:
            out.append((i, i, 0))
            i += 1
            continue
        out.append((i, j, k))
        i = j + 1
    return out


# ---------------------------------------------------------------- bit-vectors
class Unsupported(Exception):
    pass


class BVCtx:
    def __init__(self, timeout=5000):
        self.s = z3.SolverFor('QF_AUFBV') if False else z3.SolverFor('QF_BV')
        self.s.set('timeout', timeout)
        self.stack = []
        self.cache = {}
        self.names = {}
        self.approx = set()

    def z(self, x, w):
        if isinstance(x, int):
            return z3.BitVecVal(x, w)
        r = self.cache.get(x.id)
        if r is not None:
            return r
        st = [x]
        while st:
            n = st[-1]
            if n.id in self.cache:
                st.pop()
                continue
            kids = [v for _, v in n.a] if n.op == 'concat' else [v for v in n.a if isn(v)]
            miss = [k for k in kids if isn(k) and k.id not in self.cache]
            if miss:
                st.extend(miss)
                continue
            st.pop()
            self.cache[n.id] = self._z(n)
        return self.cache[x.id]

    def b(self, e):
        return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

    def _z(self, n):
        op, w, a = n.op, n.w, n.a
        if op == 'var':
            v = z3.BitVec(a[0], w)
            self.names[a[0]] = v
            if n.lo > 0 or n.hi < T.mask(w):
                self.bounds.append(n)
            return v
        if op == 'concat':
            return z3.Concat([self.z(v, pw) for pw, v in a])
        if op == 'extract':
            return z3.Extract(a[1], a[2], self.z(a[0], a[0].w))
        if op == 'sext':
            return z3.SignExt(w - a[0].w, self.z(a[0], a[0].w))
        if op == 'not':
            return ~self.z(a[0], w)
        if op == 'ite':
            return z3.If(self.z(a[0], 1) == 1, self.z(a[1], w), self.z(a[2], w))
        if op == 'tab':
            data, idx = a
            r = z3.BitVecVal(data[min(idx.hi, len(data) - 1)], w)
            zi = self.z(idx, idx.w)
            lo, hi = idx.lo, min(idx.hi, len(data) - 1)
            for i in range(lo, hi):
                r = z3.If(zi == i, z3.BitVecVal(data[i], w), r)
            return r
        if op in ('eq', 'ult'):
            k = a[0].w if isn(a[0]) else a[1].w
            x, y = self.z(a[0], k), self.z(a[1], k)
            return self.b(x == y) if op == 'eq' else self.b(z3.ULT(x, y))
        if op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'udiv', 'urem'):
            x, y = self.z(a[0], w), self.z(a[1], w)
            return {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'add': lambda: x + y,
                    'sub': lambda: x - y, 'mul': lambda: x * y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y)}[op]()
        # opaque: unconstrained value (sound over-approximation)
        self.approx.add(n.id)
        return z3.BitVec('opq!%d' % n.id, w)

    bounds = None

    def sync(self, pc):
        chain = []
        c = pc
        st = self.stack
        while c is not None and not (c[2] <= len(st) and st[c[2] - 1] is c):
            chain.append(c)
            c = c[0]
        keep = c[2] if c is not None else 0
        while len(st) > keep:
            self.s.pop()
            st.pop()
        for c in reversed(chain):
            self.s.push()
            st.append(c)
            self.assertz(c[1])

    def assertz(self, n):
        self.bounds = []
        e = self.z(n, 1) == 1
        vs = T.variables(n) if isn(n) else {}
        for v in vs.values():
            if v.lo > 0:
                self.s.add(z3.UGE(self.z(v, v.w), v.lo))
            if v.hi < T.mask(v.w):
                self.s.add(z3.ULE(self.z(v, v.w), v.hi))
        self.s.add(e)

    def feasible(self, pc, cond):
        self.sync(pc)
        if isinstance(cond, int):
            return bool(cond)
        self.s.push()
        self.assertz(cond)
        r = timed_check(self.s)
        self.s.pop()
        return r != z3.unsat

    def refuted(self, pc, cond):
        return not self.feasible(pc, cond)

    def model(self, pc, cond, timeout=None):
        """'unsat', env or None."""
        self.sync(pc)
        self.s.push()
        STATS['bv'] += 1
        if timeout:
            self.s.set('timeout', timeout)
        try:
            self.assertz(cond)
            r = timed_check(self.s)
            if r == z3.unsat:
                return 'unsat'
            if r == z3.unknown:
                return None
            m = self.s.model()
            env = {}
            for n, v in self.names.items():
                env[n] = m.eval(v, model_completion=True).as_long()
            return env
        finally:
            self.s.pop()
            if timeout:
                self.s.set('timeout', 5000)

    def hints(self, pc, cond):
        e = self.model(pc, cond)
        if isinstance(e, dict):
            yield e
