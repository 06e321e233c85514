"""Randomised self-test of the term simplifier (translator validation)."""
import random, sys
import terms as T
def run(n, seed=1):
    R = random.Random(seed)
    for it in range(n):
        W = {}
        env = {}
        pool = []
        for i in range(4):
            w = R.choice([1, 4, 8, 16, 32, 64])
            v = T.var('t%d_%d' % (i, w), w)
            env['t%d_%d' % (i, w)] = R.choice([0, 1, T.mask(w), R.getrandbits(w), R.getrandbits(w), R.getrandbits(max(1, w // 2))])
            pool.append((v, w, env['t%d_%d' % (i, w)]))
        for k in range(R.randint(1, 14)):
            op = R.choice(['and', 'or', 'xor', 'not', 'add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'eq', 'ult', 'slt',
                           'ule', 'sle', 'ite', 'zext', 'sext', 'extract', 'concat', 'const', 'tab'])
            a, w, ca = R.choice(pool)
            same = [p for p in pool if p[1] == w]
            b, _, cb = R.choice(same)
            if R.random() < .5:
                cb = b = R.choice([0, 1, T.mask(w), R.getrandbits(w), 1 << R.randrange(w), R.getrandbits(w) & 15 & T.mask(w), 10 & T.mask(w)])
            f = {'and': T.band, 'or': T.bor, 'xor': T.bxor, 'add': T.add, 'sub': T.sub, 'mul': T.mul, 'udiv': T.udiv, 'urem': T.urem,
                 'sdiv': T.sdiv, 'srem': T.srem}
            g = {'eq': T.eq, 'ult': T.ult, 'slt': T.slt, 'ule': T.ule, 'sle': T.sle}
            if op in f:
                if op in ('udiv', 'urem', 'sdiv', 'srem') and cb == 0:
                    continue
                r, rw, c = f[op](a, b, w), w, f[op](ca, cb, w)
            elif op in g:
                r, rw, c = g[op](a, b, w), 1, g[op](ca, cb, w)
            elif op == 'not':
                r, rw, c = T.bnot(a, w), w, ca ^ T.mask(w)
            elif op in ('shl', 'lshr', 'ashr'):
                s = R.randrange(w)
                r, rw, c = getattr(T, op)(a, s, w), w, getattr(T, op)(ca, s, w)
            elif op == 'ite':
                cs = [p for p in pool if p[1] == 1]
                if not cs:
                    continue
                q, _, cq = R.choice(cs)
                r, rw, c = T.ite(q, a, b, w), w, (ca if cq else cb)
            elif op == 'zext':
                rw = w + R.choice([1, 8, 32])
                r, c = T.zext(a, w, rw), ca
            elif op == 'sext':
                rw = w + R.choice([1, 8, 32])
                r, c = T.sext(a, rw, w), T.sext(ca, rw, w)
            elif op == 'extract':
                lo = R.randrange(w); hi = R.randrange(lo, w)
                r, rw, c = T.extract(a, hi, lo), hi - lo + 1, (ca >> lo) & T.mask(hi - lo + 1)
            elif op == 'concat':
                b, w2, cb = R.choice(pool)
                if w + w2 > 128:
                    continue
                r, rw, c = T.concat([(w, a), (w2, b)]), w + w2, ca << w2 | cb
            elif op == 'tab':
                lo = R.randrange(w)
                k2 = min(w - lo, 5)
                i, ci = T.extract(a, lo + k2 - 1, lo), (ca >> lo) & T.mask(k2)
                d = tuple(R.getrandbits(8) for _ in range(1 << k2))
                r, rw, c = T.table(d, i, k2, 8), 8, d[ci]
            else:
                rw = R.choice([8, 32]); r = c = R.getrandbits(rw)
            try:
                got = T.ev(r, env)
            except Exception:
                print(op, a, b, r); raise
            if got != c:
                print('MISMATCH', it, op, w, 'a=', a, hex(ca), 'b=', b, hex(cb), 'r=', r, hex(got), 'want', hex(c)); return False
            if T.isn(r):
                assert r.w == rw, (op, r.w, rw, r)
                assert r.lo <= c <= r.hi and c & r.kz == 0, ('range', op, r, c, r.lo, r.hi, hex(r.kz))
            else:
                assert 0 <= r <= T.mask(rw)
            if not T.isn(r):
                pass
            pool.append((r, rw, c))
    return True
if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 6000
    print(run(n))
