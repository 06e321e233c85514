"""Symbolic executor for the LLVM IR of the library linked with a harness.

Every feasible path of a harness is executed over hash-consed bit-vector terms;
branch conditions are decided by the solver contexts of lin.py.  Undefined
behaviour (out-of-bounds or dead accesses, use of uninitialised values,
over-wide shifts, division by zero, unreachable code) and the harness's own
assertions become solver obligations on each path."""
import time
import ll, lin, fpsem
import terms as T
from terms import isn, mask

SLOT = 24
BASE = 64


class EngineError(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class NeedFork(Exception):
    """Re-execute the current instruction once per alternative.
    alts: list of (condition, substitutions)"""

    def __init__(self, alts):
        self.alts = alts


class Impure(Exception):
    pass


class Obj:
    __slots__ = ('size', 'data', 'kind', 'alive', 'name', 'owner', 'const')

    def __init__(self, size, data, kind, name, owner=None, const=False):
        self.size, self.data, self.kind, self.name, self.owner = size, data, kind, name, owner
        self.alive = True
        self.const = const

    def clone(self, owner):
        o = Obj(self.size, list(self.data), self.kind, self.name, owner, self.const)
        o.alive = self.alive
        return o


class Frame:
    __slots__ = ('f', 'block', 'ip', 'prev', 'regs', 'allocas', 'dst', 'ret', 'norm', 'unw')

    def copy(self):
        g = Frame()
        g.f, g.block, g.ip, g.prev = self.f, self.block, self.ip, self.prev
        g.regs = dict(self.regs)
        g.allocas = list(self.allocas)
        g.dst, g.ret, g.norm, g.unw = self.dst, self.ret, self.norm, self.unw
        return g


class State:
    __slots__ = ('frames', 'mem', 'pc', 'next', 'outs', 'inputs', 'known', 'subst', 'tok', 'exc', 'caught',
                 'guard', 'steps', 'gwrites', 'reach', 'defer', 'snap')

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc, s.next = self.pc, self.next
        s.outs = list(self.outs)
        s.inputs = list(self.inputs)
        s.known = dict(self.known)
        s.subst = dict(self.subst)
        s.tok = object()
        self.tok = object()
        s.exc, s.caught, s.guard, s.steps = self.exc, list(self.caught), self.guard, self.steps
        s.gwrites = self.gwrites
        s.reach = self.reach
        s.defer = self.defer
        s.snap = self.snap
        return s


PURE = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'icmp', 'fcmp',
        'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'fneg', 'select', 'getelementptr', 'load',
        'extractvalue', 'insertvalue', 'freeze', 'sitofp', 'uitofp', 'fadd', 'fsub', 'fmul', 'fdiv'}
PURE_CALLS = ('llvm.dbg', 'llvm.assume', 'llvm.expect', 'llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax', 'llvm.abs',
              'llvm.lifetime.start', 'llvm.experimental.noalias')

# std exception hierarchy for types whose typeinfo is external
STD_BASE = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
            '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
            '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
            '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
            '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
            '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception'}

THROWERS = {'__throw_length_error': '_ZTISt12length_error', '__throw_logic_error': '_ZTISt11logic_error',
            '__throw_out_of_range': '_ZTISt12out_of_range', '__throw_out_of_range_fmt': '_ZTISt12out_of_range',
            '__throw_bad_alloc': '_ZTISt9bad_alloc', '__throw_invalid_argument': '_ZTISt16invalid_argument',
            '__throw_runtime_error': '_ZTISt13runtime_error', '__throw_bad_array_new_length': '_ZTISt9bad_alloc',
            '__throw_domain_error': '_ZTISt12domain_error', '__throw_range_error': '_ZTISt11range_error',
            '__throw_overflow_error': '_ZTISt14overflow_error', '__throw_bad_cast': '_ZTISt8bad_cast',
            '__throw_bad_function_call': '_ZTISt17bad_function_call'}


class Result:
    def __init__(self):
        self.violations = []       # dicts
        self.unknown = []
        self.paths = 0
        self.steps = 0
        self.obligations = 0
        self.proved = 0
        self.funcs = set()
        self.traces = []           # (inputs, outs) models of finished paths
        self.reach = set()
        self.forks = 0
        self.truncated = False
        self.gwrites = []
        self.widths = []           # of the longest input sequence seen
        self.ends = []             # (pc, inputs, outs) of finished paths, when kept


class Env(dict):
    def __missing__(self, k):
        return 0

    def __contains__(self, k):
        return True


class Exec:
    def __init__(self, mod, params=(), backend='int', max_steps=400000, max_paths=200000, deadline=None,
                 traces=0, keep=False, check_gwrites=False, nsw=False, tmo=None, loop_limit=100000):
        self.m = mod
        self.params = list(params)
        self.backend = backend
        self.ic = lin.IntCtx()
        self.bc = None
        if backend == 'bv':
            self.bc = lin.BVCtx()
        self.deadline = deadline
        self.max_steps, self.max_paths = max_steps, max_paths
        self.want_traces = traces
        self.keep = keep
        self.check_gwrites = check_gwrites
        self.nsw = nsw
        self.R = Result()
        self.gobj = {}
        self.live = {}
        self.tinfo = {}
        self.seen_viol = set()
        self.tried = {}
        self.tmo = tmo or {}
        self.exts = {}
        self.phase = 'run'

    # ------------------------------------------------------------ memory
    def gobject(self, oid):
        o = self.gobj.get(oid)
        if o is None:
            if not hasattr(self, 'gby'):
                self.gby = {g.addr >> SLOT: g for g in self.m.globals.values()}
            g = self.gby.get(oid)
            if g is None:
                return None
            ll.layout(g.ty)
            if g.ext:
                size = max(g.ty.size, 64)
                o = Obj(size, [0] * size, 'x', g.name)
            else:
                size = g.ty.size
                data = [0] * size
                self.flat(g.ty, g.init, data, 0)
                o = Obj(size, data, 'g', g.name, const=g.const)
            self.gobj[oid] = o
        return o

    def flat(self, t, v, data, off):
        ll.layout(t)
        if t.k == 'struct':
            for e, x, o in zip(t.el, v, t.offs):
                self.flat(e, x, data, off + o)
        elif t.k in ('array', 'vector'):
            if t.el.k == 'int' and t.el.w == 8 and all(isinstance(x, int) for x in v):
                data[off:off + t.n] = list(v)
                return
            es = ll.layout(t.el).size
            for i, x in enumerate(v):
                self.flat(t.el, x, data, off + i * es)
        elif isinstance(v, ll.Undef):
            for i in range(t.size):
                data[off + i] = None
        else:
            n = 10 if t.w == 80 else t.size
            for i in range(n):
                data[off + i] = (v >> (8 * i)) & 255

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.gobject(oid)
        return o

    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.gobject(oid)
            if o is None:
                return None
            o = o.clone(st.tok)
            st.mem[oid] = o
        elif o.owner is not st.tok:
            o = o.clone(st.tok)
            st.mem[oid] = o
        return o

    def alloc(self, st, size, kind, name, fill=None):
        oid = st.next
        st.next += 1
        st.mem[oid] = Obj(size, [fill] * size, kind, name, st.tok)
        return (oid << SLOT) + BASE

    def resolve(self, st, addr, n, what, write=False):
        """Object and concrete offset of an access; reports violations."""
        oid = addr >> SLOT
        o = self.obj(st, oid)
        if o is None:
            self.ub(st, 1, '%s through an invalid pointer' % what)
            raise PathEnd('ub')
        off = (addr & ((1 << SLOT) - 1)) - BASE
        if not o.alive:
            self.ub(st, 1, '%s of dead object %s' % (what, o.name))
            raise PathEnd('ub')
        if off < 0 or off + n > o.size:
            self.ub(st, 1, '%s out of bounds of %s (offset %d, size %d)' % (what, o.name, off, o.size))
            raise PathEnd('ub')
        if write:
            if o.const:
                self.ub(st, 1, 'write to constant %s' % o.name)
                raise PathEnd('ub')
            if o.kind == 'g' and self.phase == 'run' and not st.guard:
                self.gwrite(st, o.name)
            o = self.wobj(st, oid)
        return o, off

    def gwrite(self, st, name):
        if name.startswith('_ZGV') or name in ('verif_errno',):
            return
        if name not in st.gwrites:
            st.gwrites = st.gwrites | {name}

    def rd(self, st, o, off, n):
        """Assemble n bytes (little endian) into a value of 8n bits."""
        d = o.data
        b = d[off]
        if n == 1:
            if type(b) is int:
                return b
            if b is None:
                return T.fresh('uninit', 8, und=True)
            return T.extract(b[0], 8 * b[1] + 7, 8 * b[1])
        bs = d[off:off + n]
        if type(b) is tuple:
            nd, k = b
            for i in range(1, n):
                c = bs[i]
                if type(c) is not tuple or c[0] is not nd or c[1] != k + i:
                    break
            else:
                return T.extract(nd, 8 * (k + n) - 1, 8 * k)
        parts = []
        allint = True
        for x in bs:
            if type(x) is not int:
                allint = False
                break
        if allint:
            return int.from_bytes(bytes(bs), 'little')
        for x in reversed(bs):
            if x is None:
                x = T.fresh('uninit', 8, und=True)
            elif type(x) is tuple:
                x = T.extract(x[0], 8 * x[1] + 7, 8 * x[1])
            parts.append((8, x))
        return T.concat(parts)

    def wr(self, o, off, n, v):
        d = o.data
        if isinstance(v, int):
            for i in range(n):
                d[off + i] = (v >> (8 * i)) & 255
        elif isinstance(v, ll.Undef):
            for i in range(n):
                d[off + i] = None
        else:
            if v.op == 'concat':
                for i in range(n):
                    e = T.extract(v, 8 * i + 7, 8 * i)
                    if isinstance(e, int):
                        d[off + i] = e
                    else:
                        d[off + i] = (v, i)
            else:
                for i in range(n):
                    d[off + i] = (v, i)

    def load(self, st, addr, ty, spec=False):
        if ty.k in ('struct', 'array', 'vector'):
            ll.layout(ty)
            if ty.k == 'struct':
                return tuple(self.load(st, T.add(addr, o, 64), e, spec) for o, e in zip(ty.offs, ty.el))
            es = ll.layout(ty.el).size
            return tuple(self.load(st, T.add(addr, i * es, 64), ty.el, spec) for i in range(ty.n))
        w = ty.w
        n = (w + 7) // 8
        if isn(addr):
            a = st.subst.get(addr.id)
            if a is not None:
                addr = a
        if isn(addr):
            v = self.load_sym(st, addr, n, spec)
        else:
            if spec:
                o = self.obj(st, addr >> SLOT)
                off = (addr & ((1 << SLOT) - 1)) - BASE
                if o is None or not o.alive or off < 0 or off + n > o.size:
                    raise Impure()
            else:
                o, off = self.resolve(st, addr, n, 'read')
            v = self.rd(st, o, off, n)
        if w != 8 * n:
            v = T.extract(v, w - 1, 0) if isn(v) else v & mask(w)
        return v

    def load_sym(self, st, addr, n, spec):
        self.chk_und(st, addr, 'address of a read', spec)
        lo, hi = addr.lo, addr.hi
        oid = None
        if lo >> SLOT == hi >> SLOT:
            oid = lo >> SLOT
        elif addr.op == 'add' and isinstance(addr.a[1], int):
            oid = addr.a[1] >> SLOT
            if oid and ((1 << 64) - addr.a[1]) >> SLOT == 0:
                oid = None
        if oid is None or self.obj(st, oid) is None:
            if spec:
                raise Impure()
            a = self.conc(st, addr, 'read address')
            o, off = self.resolve(st, a, n, 'read')
            return self.rd(st, o, off, n)
        o = self.obj(st, oid)
        base = (oid << SLOT) + BASE
        off = T.sub(addr, base, 64)
        last = o.size - n
        if not o.alive or last < 0:
            if spec:
                raise Impure()
            self.ub(st, 1, 'read of dead object %s' % o.name)
            raise PathEnd('ub')
        bad = T.ult(last, off, 64)
        if bad != 0 and spec:
            if not (isn(bad) and st.known.get(bad.id) == 0):
                raise Impure()
        if bad != 0:
            bad = self.simp(st, bad)
            if bad == 1 or (isn(bad) and self.feasible(st, bad)):
                self.ub(st, bad, 'read out of bounds of %s (size %d)' % (o.name, o.size))
                if bad == 1:
                    raise PathEnd('ub')
                self.assume(st, T.bnot(bad, 1))
            elif isn(bad):
                self.learn(st, bad, 0)
        # alignment / stride
        z = kz_low(off)
        stride = 1 << min(z, 4)
        if isn(off):
            lo2, hi2 = max(off.lo, 0), min(off.hi, last)
        cnt = last // stride + 1
        d = o.data
        if cnt <= 70000 and all(type(x) is int for x in d):
            data = tuple(int.from_bytes(bytes(d[i:i + n]), 'little') for i in range(0, last + 1, stride))
            s = stride.bit_length() - 1
            idx = T.lshr(off, s, 64)
            # the index is in range on this path
            return T.table(data, idx, 64, 8 * n)
        if spec:
            raise Impure()
        a = self.conc(st, addr, 'read address')
        o, off = self.resolve(st, a, n, 'read')
        return self.rd(st, o, off, n)

    def store(self, st, addr, ty, v):
        if ty.k in ('struct', 'array', 'vector'):
            ll.layout(ty)
            if ty.k == 'struct':
                for o, e, x in zip(ty.offs, ty.el, v):
                    self.store(st, T.add(addr, o, 64), e, x)
            else:
                es = ll.layout(ty.el).size
                for i, x in enumerate(v):
                    self.store(st, T.add(addr, i * es, 64), ty.el, x)
            return
        w = ty.w
        n = (w + 7) // 8
        if isn(addr):
            addr = self.conc(st, addr, 'write address')
        o, off = self.resolve(st, addr, n, 'write', True)
        if w != 8 * n and isn(v):
            v = T.zext(v, w, 8 * n)
        self.wr(o, off, n, v)

    # ------------------------------------------------------------ solver helpers
    def simp(self, st, c):
        """Resolve a condition by what the path already knows."""
        if isinstance(c, int):
            return c
        k = st.known.get(c.id)
        if k is not None:
            return k
        if c.op == 'not':
            r = self.simp(st, c.a[0])
            return r ^ 1 if isinstance(r, int) else c
        if c.op == 'and':
            a, b = self.simp(st, c.a[0]), self.simp(st, c.a[1])
            if a is not c.a[0] or b is not c.a[1]:
                r = T.band(a, b, 1)
                if isn(r):
                    r = st.known.get(r.id, r)
                return r
        return c

    def learn(self, st, c, v):
        if isinstance(c, int):
            return
        st.known[c.id] = v
        if c.op == 'not':
            self.learn(st, c.a[0], v ^ 1)
        elif c.op == 'and' and v:
            self.learn(st, c.a[0], 1)
            self.learn(st, c.a[1], 1)

    def feasible(self, st, c):
        if isinstance(c, int):
            return bool(c)
        if self.deadline and time.time() > self.deadline:
            raise EngineError('time budget exhausted')
        if self.backend == 'bv':
            return self.bc.feasible(st.pc, c)
        return self.ic.feasible(st.pc, c)

    def assume(self, st, c):
        if isinstance(c, int):
            if not c:
                raise PathEnd('assume')
            return
        st.pc = (st.pc, c, (st.pc[2] if st.pc else 0) + 1)
        self.learn(st, c, 1)

    def conc(self, st, x, what, limit=300):
        """Concretise x on this path, forking over its feasible values."""
        if isinstance(x, int):
            return x
        v = st.subst.get(x.id)
        if v is not None:
            return v
        vals = self.values(st, x, what, limit)
        if not vals:
            raise PathEnd('infeasible')
        if len(vals) == 1:
            st.subst[x.id] = vals[0]
            return vals[0]
        raise NeedFork([(T.eq(x, v, x.w), {x.id: v}) for v in vals])

    def values(self, st, x, what, limit):
        # structural candidates: base + zext(small)
        if x.hi - x.lo < limit:
            return [v for v in range(x.lo, x.hi + 1) if not (v & x.kz) and self.feasible(st, T.eq(x, v, x.w))]
        if x.op == 'add' and isinstance(x.a[1], int) and isn(x.a[0]) and x.a[0].hi - x.a[0].lo < limit:
            y = x.a[0]
            return [(v + x.a[1]) & mask(x.w) for v in range(y.lo, y.hi + 1) if self.feasible(st, T.eq(y, v, y.w))]
        s = leaf_consts(x, limit)
        if s is not None:
            return [v for v in sorted(s) if self.feasible(st, T.eq(x, v, x.w))]
        # general: exact enumeration
        if self.bc is None:
            self.bc = lin.BVCtx()
        out = []
        cond = 1
        while len(out) <= limit:
            e = self.find(st.pc, cond, 5000)
            if e == 'unsat':
                return out
            if e is None:
                raise EngineError('cannot enumerate %s' % what)
            v = T.ev(x, Env(e))
            out.append(v)
            cond = T.band(cond, T.bnot(T.eq(x, v, x.w), 1), 1)
        raise EngineError('too many values for %s' % what)

    def find(self, pc, cond, tmo=None, cands=()):
        """Exact: 'unsat', an input environment satisfying pc and cond, or None."""
        if isinstance(cond, int) and not cond:
            return 'unsat'
        conds = []
        c = pc
        while c is not None:
            conds.append(c[1])
            c = c[0]

        def good(e):
            cache = {}
            env = Env(e)
            try:
                return all(T.ev(x, env, cache) for x in [cond] + conds)
            except T.NoEval:
                return False
        for e in cands:
            if good(e):
                return e
        if self.backend != 'bv':
            if self.ic.refuted(pc, cond):
                return 'unsat'
            for e in self.ic.hints(pc, cond):
                if good(e):
                    return e
            if conds_hard(conds, cond):
                order = ('lia', 'bv')
            else:
                order = ('bv', 'lia')
        else:
            order = ('bv', 'lia')
        for o in order:
            if o == 'bv':
                if self.bc is None:
                    self.bc = lin.BVCtx()
                e = self.bc.model(pc, cond, tmo or self.tmo.get('bv', 20000))
            else:
                e = self.ic.lia(pc, cond, tmo or self.tmo.get('lia', 30000))
            if e == 'unsat':
                return e
            if isinstance(e, dict) and good(e):
                return e
        return None

    def find_cand(self, pc, cond, cands):
        conds = [cond]
        while pc is not None:
            conds.append(pc[1])
            pc = pc[0]
        for e in cands:
            cache, env = {}, Env(e)
            try:
                if all(T.ev(x, env, cache) for x in conds):
                    return e
            except T.NoEval:
                pass

    # ------------------------------------------------------------ violations
    def env_inputs(self, st, e):
        env = Env(e)
        return [env[n] if n in e else 0 for n, w in st.inputs]

    def violation(self, st, cond, kind, what, texts=None):
        """Report pc & cond as a violation unless the solver refutes it."""
        fr = st.frames[-1] if st.frames else None
        site = (kind, what, fr.f.name if fr else '', fr.block if fr else '', fr.ip if fr else 0)
        if site in self.seen_viol:
            return
        t0 = time.time()
        e = self.find(st.pc, cond, cands=text_cands(texts) if texts else ())
        if e is None and texts and all(isinstance(b, int) or b.op == 'var' for b in texts):
            # the solver chose the values of the conversions freely: keep its text where
            # the path needs it and put meaningful numbers elsewhere
            m = self.find(st.pc, 1)
            if isinstance(m, dict):
                e = self.find_cand(st.pc, cond, text_cands(texts, m))
        if e == 'unsat':
            return True
        where = ' <- '.join(x.f.name for x in reversed(st.frames[-4:]))
        if e is None:
            # undecided here; another path may still decide it
            n, t = self.tried.get(site, (0, 0))
            self.tried[site] = n + 1, t + time.time() - t0
            if not n:
                self.R.unknown.append({'kind': kind, 'what': what, 'where': where})
            if n + 1 >= 60 or t + time.time() - t0 > 20:
                self.seen_viol.add(site)
            return
        self.seen_viol.add(site)
        outs = self.eval_outs(st, e)
        self.R.violations.append({'kind': kind, 'what': what, 'where': where, 'inputs': self.env_inputs(st, e), 'params': self.params,
                                  'outs': outs})

    def ub(self, st, cond, what):
        self.R.obligations += 1
        if self.violation(st, cond, 'ub', what):
            self.R.proved += 1

    def chk_und(self, st, x, what, spec=False):
        if isn(x) and x.und:
            if spec:
                raise Impure()
            self.violation(st, 1, 'uninit', '%s depends on uninitialised memory' % what)
            raise PathEnd('ub')

    def eval_outs(self, st, e):
        env = Env(e)
        cache = {}
        out = []
        for o in st.outs:
            try:
                out.append([T.ev(x, env, cache) if isn(x) else x for x in o])
            except T.NoEval:
                out.append(None)
        return out

    # ------------------------------------------------------------ values
    def val(self, st, fr, x, w=64):
        if type(x) is int:
            return x
        if type(x) is str:
            return fr.regs[x]
        if isinstance(x, ll.Undef):
            return T.fresh('undef', w or 64, und=True)
        return x

    # ------------------------------------------------------------ main loop
    def run(self, fname):
        f = self.m.funcs.get(fname)
        if f is None or f.decl:
            raise EngineError('no harness function ' + fname)
        st = State()
        st.frames, st.mem, st.pc, st.next = [], {}, None, 1 << 20
        st.snap = None
        st.outs, st.inputs, st.known, st.subst = [], [], {}, {}
        st.tok = object()
        st.exc, st.caught, st.guard, st.steps = None, [], 0, 0
        st.gwrites, st.reach, st.defer = frozenset(), frozenset(), ()
        # static constructors
        self.phase = 'init'
        for _, fn in self.m.ctors:
            self.enter(st, self.m.byaddr[fn], [], None, None, None, None)
            w = self.steps(st)
            if w:
                raise EngineError('static constructor forks')
        self.phase = 'run'
        self.enter(st, f, [], None, None, None, None)
        work = [st]
        while work:
            st = work.pop()
            try:
                more = self.steps(st)
            except PathEnd as e:
                self.end(st, e.why)
                continue
            if more:
                work.extend(reversed(more))
            else:
                self.end(st, 'done')
            if self.R.paths > self.max_paths:
                raise EngineError('too many paths')
            if len(self.R.violations) >= 6:
                self.R.truncated = True
                break
        return self.R

    def end(self, st, why):
        R = self.R
        R.steps += st.steps
        if self.keep:
            R.ends.append((why, st.pc, st.inputs, st.outs))
        if why in ('assume', 'infeasible'):
            return
        R.paths += 1
        R.reach |= st.reach
        if st.gwrites:
            for g in st.gwrites:
                if self.check_gwrites:
                    self.violation(st, 1, 'gwrite', 'writes shared state %s' % g)
        if why == 'uncaught':
            self.violation(st, 1, 'uncaught', 'uncaught exception of type %s' % self.tname(st.exc[1]))
        if why == 'terminate':
            self.violation(st, 1, 'ub', 'std::terminate or abort called')
        if why in ('done', 'uncaught') and len(R.traces) < self.want_traces:
            e = self.find(st.pc, 1, 1500)
            if isinstance(e, dict):
                outs = self.eval_outs(st, e)
                R.traces.append((self.env_inputs(st, e), outs))

    def enter(self, st, f, args, dst, ret, norm, unw):
        self.m.body(f)
        self.R.funcs.add(f.name)
        g = Frame()
        g.f, g.block, g.ip, g.prev = f, f.entry, 0, None
        g.regs = {}
        for (t, nm, at), v in zip(f.params, args):
            if 'byval' in at:
                bt = ll.layout(at['byval'])
                p = self.alloc(st, bt.size, 's', 'byval')
                g.allocas = []
                self.memcpy(st, p, v, bt.size)
                v = p
            g.regs[nm] = v
        g.allocas = []
        g.dst, g.ret, g.norm, g.unw = dst, ret, norm, unw
        st.frames.append(g)
        if len(st.frames) > 400:
            raise EngineError('recursion too deep in ' + f.name)

    def steps(self, st):
        """Run st until it ends (returns []) or forks (returns successor states)."""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.block][fr.ip]
            st.steps += 1
            if st.steps > self.max_steps:
                self.violation(st, 1, 'hang', 'does not terminate within %d steps' % self.max_steps)
                raise PathEnd('hang')
            try:
                r = self.step(st, fr, ins)
                if r is not None:
                    return r
            except NeedFork as nf:
                out = []
                for c0, sub in nf.alts:
                    c = self.simp(st, c0)
                    if c == 0:
                        continue
                    if isn(c) and not self.feasible(st, c):
                        self.learn(st, c, 0)
                        self.learn(st, c0, 0)
                        continue
                    out.append((c, sub))
                if not out:
                    raise PathEnd('infeasible')
                res = []
                self.R.forks += len(out) - 1
                for i, (c, sub) in enumerate(out):
                    s = st.fork() if i + 1 < len(out) else st
                    if len(out) > 1:
                        self.assume(s, c)
                    elif isn(c):
                        self.learn(s, c, 1)
                    s.subst.update(sub)
                    res.append(s)
                if len(res) > 1:
                    return res
        return []

    def goto(self, st, fr, label):
        fr.prev = fr.block
        fr.block = label
        fr.ip = 0
        b = fr.f.blocks[label]
        if b[0].op == 'phi':
            vals = []
            i = 0
            while b[i].op == 'phi':
                v = b[i].a[fr.prev]
                vals.append((b[i].dst, self.val(st, fr, v, b[i].ty.w)))
                i += 1
            for d, v in vals:
                fr.regs[d] = v
            fr.ip = i

    def step(self, st, fr, ins):
        op = ins.op
        if op in PURE:
            fr.regs[ins.dst] = self.pure(st, fr.regs, ins, False)
            fr.ip += 1
            return
        if op == 'store':
            v = ins.a[0]
            if type(v) is str:
                v = fr.regs[v]
            self.store(st, self.val(st, fr, ins.a[1]), ins.ty, v)
            fr.ip += 1
            return
        if op == 'br':
            self.goto(st, fr, ins.a[0])
            return
        if op == 'condbr':
            c = self.val(st, fr, ins.a[0], 1)
            if isn(c):
                self.chk_und(st, c, 'branch in ' + fr.f.name)
                c = self.simp(st, c)
            if isinstance(c, int):
                self.goto(st, fr, ins.a[1] if c else ins.a[2])
                return
            return self.branch(st, fr, [(c, ins.a[1]), (T.bnot(c, 1), ins.a[2])])
        if op == 'switch':
            v = self.val(st, fr, ins.a[0], ins.ty.w)
            w = ins.ty.w
            if isinstance(v, int):
                for c, b in ins.a[2]:
                    if c == v:
                        self.goto(st, fr, b)
                        return
                self.goto(st, fr, ins.a[1])
                return
            self.chk_und(st, v, 'switch in ' + fr.f.name)
            by = {}
            order = []
            none = 1
            for c, b in ins.a[2]:
                e = self.simp(st, T.eq(v, c, w))
                if e == 0:
                    continue
                none = T.band(none, T.bnot(e, 1), 1)
                if b not in by:
                    order.append(b)
                    by[b] = 0
                by[b] = T.bor(by[b], e, 1)
            d = ins.a[1]
            if d not in by:
                order.append(d)
                by[d] = 0
            by[d] = T.bor(by[d], none, 1)
            alts = [(by[b], b) for b in order if by[b] != 0]
            if len(alts) == 1:
                self.goto(st, fr, alts[0][1])
                return
            return self.branch(st, fr, alts)
        if op == 'ret':
            v = self.val(st, fr, ins.a[0], ins.ty.w) if ins.a else None
            self.popframe(st)
            if st.frames:
                c = st.frames[-1]
                if fr.dst is not None:
                    c.regs[fr.dst] = v
                if fr.norm is not None:
                    self.goto(st, c, fr.norm)
                else:
                    c.ip += 1
            return
        if op == 'alloca':
            n = self.val(st, fr, ins.a[0])
            if isn(n):
                n = self.conc(st, n, 'alloca size')
            a = self.alloc(st, ins.ty.size * n, 's', ins.dst)
            fr.allocas.append(a >> SLOT)
            fr.regs[ins.dst] = a
            fr.ip += 1
            return
        if op in ('call', 'invoke'):
            return self.call(st, fr, ins)
        if op == 'unreachable':
            self.ub(st, 1, 'unreachable code executed in ' + fr.f.name)
            raise PathEnd('ub')
        if op == 'landingpad':
            self.landing(st, fr, ins)
            return
        if op == 'resume':
            self.unwind(st)
            return
        if op == 'fptosi' or op == 'fptoui':
            v = self.val(st, fr, ins.a[0])
            w = ins.x.w
            if isinstance(v, int):
                r = fpsem.to_int(v, w, ins.ty.w, op == 'fptosi')
                if r is None:
                    self.ub(st, 1, 'float to integer conversion out of range')
                    raise PathEnd('ub')
            else:
                r = T.opaque('toint', ins.ty.w, (w, int(op == 'fptosi'), v))
            fr.regs[ins.dst] = r
            fr.ip += 1
            return
        if op == 'nop':
            fr.ip += 1
            return
        if op in ('atomicrmw', 'cmpxchg'):
            w = ins.ty.w
            a = self.val(st, fr, ins.a[0], 64)
            old = self.load(st, a, ins.ty)
            v = self.val(st, fr, ins.a[-1], w)
            if op == 'cmpxchg':
                c = self.simp(st, T.eq(old, self.val(st, fr, ins.a[1], w), w))
                self.store(st, a, ins.ty, T.ite(c, v, old, w))
                fr.regs[ins.dst] = (old, c)
            else:
                k = ins.x
                f = {'xchg': lambda: v, 'add': lambda: T.add(old, v, w), 'sub': lambda: T.sub(old, v, w), 'and': lambda: T.band(old, v, w),
                     'or': lambda: T.bor(old, v, w), 'xor': lambda: T.bxor(old, v, w), 'umax': lambda: T.ite(T.ult(old, v, w), v, old, w),
                     'umin': lambda: T.ite(T.ult(old, v, w), old, v, w), 'max': lambda: T.ite(T.slt(old, v, w), v, old, w),
                     'min': lambda: T.ite(T.slt(old, v, w), old, v, w)}.get(k)
                if f is None:
                    raise EngineError('atomicrmw ' + k)
                self.store(st, a, ins.ty, f())
                fr.regs[ins.dst] = old
            fr.ip += 1
            return
        raise EngineError('unsupported instruction %s in %s' % (ins.line, fr.f.name))

    def popframe(self, st):
        fr = st.frames.pop()
        for oid in fr.allocas:
            st.mem.pop(oid, None)
            st.mem[oid] = DEAD
        return fr

    # ------------------------------------------------------------ branching
    def liveness(self, f):
        L = self.live.get(f.name)
        if L is not None:
            return L
        use, dfn, sc = {}, {}, {}
        phiuse = {}
        for b, insts in f.blocks.items():
            u, d = set(), set()
            for i in insts:
                if i.op == 'phi':
                    for p, v in i.a.items():
                        if type(v) is str:
                            phiuse.setdefault(p, set()).add(v)
                    d.add(i.dst)
                    continue
                for v in operands(i):
                    if v not in d:
                        u.add(v)
                if i.dst is not None:
                    d.add(i.dst)
            use[b], dfn[b] = u, d
            sc[b] = ll.succs(insts[-1])
        live = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(list(f.blocks)):
                out = set(phiuse.get(b, ()))
                for s in sc[b]:
                    out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live[f.name] = live
        return live

    def branch(self, st, fr, alts):
        """alts: [(cond, label)].  Explore the side-effect-free region behind the
        branch, merge exits that agree, and fork over the feasible ones."""
        exits = self.region(st, fr, alts)
        live = []
        for c, lab, prev, regs, ip in exits:
            c = self.simp(st, c)
            if c == 0:
                continue
            live.append((c, lab, prev, regs, ip))
        feas = []
        for i, x in enumerate(live):
            c = x[0]
            if isinstance(c, int):
                feas.append(x)
                continue
            if i == len(live) - 1 and not feas:
                feas.append(x)          # something must be feasible
                continue
            if self.feasible(st, c):
                feas.append(x)
            else:
                self.learn(st, c, 0)
        out = []
        self.R.forks += len(feas) - 1
        for i, (c, lab, prev, regs, ip) in enumerate(feas):
            s = st.fork() if i + 1 < len(feas) else st
            if len(feas) > 1:
                self.assume(s, c)
            elif isn(c):
                self.learn(s, c, 1)
            g = s.frames[-1]
            g.regs.update(regs)
            g.prev, g.block, g.ip = prev, lab, ip
            out.append(s)
        if len(out) == 1:
            return None
        return out

    def region(self, st, fr, alts):
        f = fr.f
        stop = ll.ipdoms(f).get(fr.block)
        live = self.liveness(f)
        leaves = []        # (cond, label, prev, overlay)
        base = fr.regs

        class Over(dict):
            __slots__ = ()

            def __missing__(s, k):
                return base[k]
        work = [(c, lab, fr.block, Over(), frozenset([fr.block]), False) for c, lab in alts]
        budget = 120
        while work:
            c, lab, prev, ov, seen, ph = work.pop()
            b = f.blocks[lab]
            # resolve phis on entry
            vals = []
            i = 0
            while b[i].op == 'phi':
                v = b[i].a[prev]
                if type(v) is str:
                    v = ov[v]
                elif isinstance(v, ll.Undef):
                    v = T.fresh('undef', b[i].ty.w or 64, und=True)
                vals.append((b[i].dst, v, b[i].ty.w))
                i += 1
            entry = Over(ov)
            for d, v, w in vals:
                entry[d] = v
            leaf = (c, lab, prev, entry, i)
            budget -= 1
            if lab == stop or lab in seen or budget < 0:
                leaves.append(leaf)
                continue
            cur = Over(entry)
            try:
                t = None
                for ins in b[i:]:
                    op = ins.op
                    if op in PURE:
                        cur[ins.dst] = self.pure(st, cur, ins, True)
                    elif op == 'call' and type(ins.a[0]) is str and ins.a[0][1:].startswith(PURE_CALLS):
                        if ins.dst is not None:
                            raise Impure()
                    elif op in ('br', 'condbr', 'switch'):
                        t = ins
                    else:
                        raise Impure()
            except (Impure, NeedFork):
                leaves.append(leaf)
                continue
            sn = seen | {lab}
            if t.op == 'br':
                work.append((c, t.a[0], lab, cur, sn, False))
                continue
            v = t.a[0]
            if type(v) is str:
                v = cur[v]
            if isinstance(v, ll.Undef) or (isn(v) and v.und):
                leaves.append(leaf)
                continue
            if t.op == 'condbr':
                v = self.simp(st, v)
                if isinstance(v, int):
                    work.append((c, t.a[1] if v else t.a[2], lab, cur, sn, False))
                else:
                    for cc, l2 in ((v, t.a[1]), (T.bnot(v, 1), t.a[2])):
                        k = T.band(c, cc, 1)
                        if k != 0:
                            work.append((k, l2, lab, cur, sn, False))
                continue
            # switch
            if isinstance(v, int):
                tgt = t.a[1]
                for cv, l2 in t.a[2]:
                    if cv == v:
                        tgt = l2
                        break
                work.append((c, tgt, lab, cur, sn, False))
                continue
            leaves.append(leaf)
        # merge leaves that agree
        groups = {}
        order = []
        for c, lab, prev, entry, i in leaves:
            b = f.blocks[lab]
            lv = live[lab]
            boolphi = set()
            key = [lab]
            for ins in b[:i]:
                v = entry[ins.dst]
                if ins.ty.w == 1:
                    boolphi.add(ins.dst)
                else:
                    key.append(vid(v))
            for r in sorted(k for k in entry if k in lv):
                key.append((r, vid(entry[r])))
            key = tuple(key)
            g = groups.get(key)
            if g is None:
                groups[key] = [c, lab, prev, {k: entry[k] for k in entry}, i, boolphi]
                order.append(key)
            else:
                for d in boolphi:
                    g[3][d] = T.ite(c, entry[d], g[3][d], 1)
                g[0] = T.bor(g[0], c, 1)
        return [tuple(groups[k][:5]) for k in order]

    # ------------------------------------------------------------ pure instructions
    def pure(self, st, regs, ins, spec):
        op = ins.op
        a = ins.a

        def V(x, w):
            if type(x) is int:
                return x
            if type(x) is str:
                return regs[x]
            if isinstance(x, ll.Undef):
                return T.fresh('undef', w or 64, und=True)
            return x
        if op == 'getelementptr':
            p = V(a[0], 64)
            off, dyn = ins.x
            p = T.add(p, off & mask(64), 64)
            for nm, w, sc in dyn:
                i = regs[nm]
                i = T.sext(i, 64, w) if w < 64 else i
                if isn(i):
                    k = st.subst.get(i.id)
                    if k is not None:
                        i = k
                p = T.add(p, T.mul(i, sc & mask(64), 64), 64)
            return p
        if op == 'load':
            return self.load(st, V(a[0], 64), ins.ty, spec)
        if op == 'icmp':
            w = ins.ty.w
            x, y = V(a[0], w), V(a[1], w)
            p = ins.x
            if p == 'eq':
                return T.eq(x, y, w)
            if p == 'ne':
                return T.bnot(T.eq(x, y, w), 1)
            if p == 'ult':
                return T.ult(x, y, w)
            if p == 'ule':
                return T.ule(x, y, w)
            if p == 'ugt':
                return T.ult(y, x, w)
            if p == 'uge':
                return T.ule(y, x, w)
            if p == 'slt':
                return T.slt(x, y, w)
            if p == 'sle':
                return T.sle(x, y, w)
            if p == 'sgt':
                return T.slt(y, x, w)
            return T.sle(y, x, w)
        if op in ll.BINOPS:
            if ins.ty.k == 'vector':
                raise EngineError('vector arithmetic')
            w = ins.ty.w
            x, y = V(a[0], w), V(a[1], w)
            if op == 'add':
                r = T.add(x, y, w)
            elif op == 'sub':
                r = T.sub(x, y, w)
            elif op == 'mul':
                r = T.mul(x, y, w)
            elif op == 'and':
                return T.band(x, y, w)
            elif op == 'or':
                return T.bor(x, y, w)
            elif op == 'xor':
                return T.bxor(x, y, w)
            elif op in ('shl', 'lshr', 'ashr'):
                if isn(y):
                    if spec:
                        raise Impure()
                    if y.hi >= w:
                        bad = T.ule(w, y, w)
                        if self.feasible(st, bad):
                            self.ub(st, bad, 'shift amount too large')
                            self.assume(st, T.bnot(bad, 1))
                    y = self.conc(st, y, 'shift amount')
                if y >= w:
                    if spec:
                        raise Impure()
                    self.ub(st, 1, 'shift amount %d too large for %d bits' % (y, w))
                    raise PathEnd('ub')
                return (T.shl if op == 'shl' else T.lshr if op == 'lshr' else T.ashr)(x, y, w)
            else:
                if y == 0 and isinstance(y, int):
                    if spec:
                        raise Impure()
                    self.ub(st, 1, 'division by zero')
                    raise PathEnd('ub')
                if isn(y):
                    if spec:
                        raise Impure()
                    z = self.simp(st, T.eq(y, 0, w))
                    if z == 1 or isn(z) and self.feasible(st, z):
                        self.ub(st, z, 'division by zero')
                        self.assume(st, T.bnot(z, 1))
                if op == 'udiv':
                    return T.udiv(x, y, w)
                if op == 'urem':
                    return T.urem(x, y, w)
                if isn(x) and not spec:
                    # split on signs so that the quotient stays simple
                    s = T.sbit(x, w)
                    if isn(s):
                        s2 = self.simp(st, s)
                        if isn(s2):
                            raise NeedFork([(s2, {}), (T.bnot(s2, 1), {})])
                        if isinstance(y, int) and y < 1 << (w - 1):
                            if s2:
                                q = T.udiv(T.neg(x, w), y, w) if op == 'sdiv' else T.urem(T.neg(x, w), y, w)
                                return T.neg(q, w)
                            return T.udiv(x, y, w) if op == 'sdiv' else T.urem(x, y, w)
                return T.sdiv(x, y, w) if op == 'sdiv' else T.srem(x, y, w)
            if self.nsw and 'nsw' in ins.x and (isn(x) or isn(y)):
                if spec:
                    raise Impure()
                self.chk_nsw(st, op, x, y, w)
            elif 'nsw' in ins.x and self.nsw and isinstance(r, int):
                sg = lambda v: v - (1 << w) if v >> (w - 1) else v
                t = {'add': sg(x) + sg(y), 'sub': sg(x) - sg(y), 'mul': sg(x) * sg(y)}[op]
                if not -(1 << (w - 1)) <= t < 1 << (w - 1):
                    if spec:
                        raise Impure()
                    self.ub(st, 1, 'signed overflow')
            return r
        if op in ('zext', 'sext', 'trunc'):
            w0, w = ins.x.w, ins.ty.w
            x = V(a[0], w0)
            if op == 'zext':
                return T.zext(x, w0, w)
            if op == 'sext':
                return T.sext(x, w, w0)
            return T.extract(x, w - 1, 0) if isn(x) else x & mask(w)
        if op in ('bitcast', 'ptrtoint', 'inttoptr'):
            w0, w = ins.x.w, ins.ty.w
            x = V(a[0], w0)
            if w < w0:
                return T.extract(x, w - 1, 0) if isn(x) else x & mask(w)
            return T.zext(x, w0, w) if w > w0 else x
        if op == 'select':
            c = V(a[0], 1)
            if isn(c):
                c = self.simp(st, c)
            w = ins.ty.w
            if isinstance(c, int):
                return V(a[1] if c else a[2], w)
            x, y = V(a[1], w), V(a[2], w)
            if not isinstance(x, (int, T.Node)) or not isinstance(y, (int, T.Node)) or ins.ty.k == 'ptr' or \
                    (w >= 16 and isinstance(x, int) and isinstance(y, int)):
                if vid(x) == vid(y):
                    return x
                if spec:
                    raise Impure()
                self.chk_und(st, c, 'select')
                raise NeedFork([(c, {}), (T.bnot(c, 1), {})])
            return T.ite(c, x, y, w)
        if op == 'extractvalue':
            v = V(a[0], 0)
            for i in ins.x:
                v = v[i]
            if isinstance(v, ll.Undef):
                v = T.fresh('undef', 64, und=True)
            return v
        if op == 'insertvalue':
            v = V(a[0], 0)
            e = V(a[1], 0)
            if isinstance(v, (ll.Undef, T.Node)) or v is None:
                v = ll.agg_undef(ins.ty, ll.UNDEF)

            def put(t, idx):
                if not idx:
                    return e
                l = list(t)
                l[idx[0]] = put(l[idx[0]], idx[1:])
                return tuple(l)
            return put(v, ins.x)
        if op == 'freeze':
            x = V(a[0], ins.ty.w)
            return x
        if op == 'fcmp':
            w = ins.ty.w
            return fpsem.s_fcmp(ins.x, V(a[0], w), V(a[1], w), w)
        if op == 'fneg':
            w = ins.ty.w
            return T.bxor(V(a[0], w), 1 << (w - 1), w)
        if op in ('fpext', 'fptrunc'):
            return self.fconv(st, V(a[0], ins.x.w), ins.x.w, ins.ty.w, spec)
        if op in ('sitofp', 'uitofp'):
            x = V(a[0], ins.x.w)
            if isinstance(x, int):
                return fpsem.from_int(x, ins.x.w, ins.ty.w, op == 'sitofp')
            return T.opaque('fromint', ins.ty.w, (ins.x.w, int(op == 'sitofp'), x))
        if op in ll.FBIN:
            w = ins.ty.w
            x, y = V(a[0], w), V(a[1], w)
            if isinstance(x, int) and isinstance(y, int):
                return fpsem.binop(op, x, y, w)
            if op in ('fmul', 'fdiv') and isinstance(y, int):
                k, s, v = fpsem.classify(y, w)
                if k == 'num' and v == 1:
                    return T.bxor(x, s << (w - 1), w)
            return T.opaque('bin:' + op, w, (w, x, y))
        raise EngineError('pure op ' + op)

    def chk_nsw(self, st, op, x, y, w):
        W = 2 * w if op == 'mul' else w + 1
        X, Y = T.sext(x, W, w), T.sext(y, W, w)
        wide = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op](X, Y, W)
        lowv = T.extract(wide, w - 1, 0) if isn(wide) else wide & mask(w)
        # quick interval test on signed ranges
        (a, b), (c, d) = srange(x, w), srange(y, w)
        cs = {'add': (a + c, b + d), 'sub': (a - d, b - c), 'mul': (min(a * c, a * d, b * c, b * d), max(a * c, a * d, b * c, b * d))}[op]
        if -(1 << (w - 1)) <= cs[0] and cs[1] < 1 << (w - 1):
            return
        bad = self.simp(st, T.bnot(T.eq(wide, T.sext(lowv, W, w), W), 1))
        if bad == 0:
            return
        if self.feasible(st, bad):
            self.ub(st, bad, 'signed overflow')
        else:
            self.R.obligations += 1
            self.R.proved += 1

    def fconv(self, st, x, w, w2, spec):
        """Conversion between floating-point formats; forks until the class of the
        operand is known when its exponent field is concrete."""
        if isinstance(x, int):
            return fpsem.conv(x, w, w2)
        if x.op.startswith(('uf:', 'fp:')):
            return fpsem.conv_s(x, w, w2)
        p, eb = fpsem.FMT[w]
        p2, eb2 = fpsem.FMT[w2]
        mb = p if w == 80 else p - 1
        ex = lambda v, hi, lo: T.extract(v, hi, lo) if isn(v) else (v >> lo) & mask(hi - lo + 1)
        e = ex(x, mb + eb - 1, mb)
        if isn(e):
            e = st.subst.get(e.id, e)
        if isn(e):
            return fpsem.conv_s(x, w, w2)
        s = ex(x, w - 1, w - 1)
        m = ex(x, mb - 1, 0)
        frac = ex(m, p - 2, 0)
        bias, bias2 = (1 << (eb - 1)) - 1, (1 << (eb2 - 1)) - 1

        def decide(c):
            c = self.simp(st, c)
            if isn(c):
                if spec:
                    raise Impure()
                raise NeedFork([(c, {}), (T.bnot(c, 1), {})])
            return c

        def make(E, f):
            """exponent field E and p2-1 fraction bits"""
            if w2 == 80:
                return T.concat([(1, s), (eb2, E), (1, int(E > 0)), (p2 - 1, f)])
            return T.concat([(1, s), (eb2, E), (p2 - 1, f)])
        if w == 80 and e > 0 and decide(T.eq(ex(m, 63, 63), 0, 1)):
            return fpsem.conv_s(x, w, w2)
        if e == (1 << eb) - 1:
            if decide(T.eq(frac, 0, p - 1)):
                return make((1 << eb2) - 1, 0)
            if p2 > p:
                f = T.concat([(p - 1, frac), (p2 - p, 0)])
            else:
                f = ex(frac, p - 2, p - p2)
            return make((1 << eb2) - 1, T.bor(f, 1 << (p2 - 2), p2 - 1))
        if e == 0:
            if w2 < w:
                # far below the smallest value of the narrower format
                return make(0, 0)
            if decide(T.eq(m, 0, mb)):
                return make(0, 0)
            key = ('lead', m.id if isn(m) else m)
            L = st.subst.get(key)
            if L is None:
                if isinstance(m, int):
                    L = m.bit_length() - 1
                else:
                    alts = []
                    for k in range(mb):
                        c = T.band(T.ule(1 << k, m, mb), T.ule(m, mask(k + 1), mb), 1)
                        alts.append((c, {key: k}))
                    if spec:
                        raise Impure()
                    raise NeedFork(alts)
            f = T.concat(([(L, ex(m, L - 1, 0))] if L else []) + [(p2 - 1 - L, 0)])
            return make(1 - bias - (p - 1) + L + bias2, f)
        E = e - bias + bias2
        if p2 > p:
            return make(E, T.concat([(p - 1, frac), (p2 - p, 0)]))
        if E >= (1 << eb2) - 1:
            return make((1 << eb2) - 1, 0)
        full = T.concat([(1, 1), (p - 1, frac)])
        cut = p - p2 + (0 if E >= 1 else 1 - E)
        if cut > p:
            return make(0, 0)
        keep = ex(full, p - 1, cut) if cut < p else 0
        rem = ex(full, cut - 1, 0)
        kw = max(p - cut, 1)
        half = 1 << (cut - 1)
        odd = ex(keep, 0, 0)
        up = decide(T.bor(T.ult(half, rem, cut), T.band(T.eq(rem, half, cut), odd, 1), 1))
        if up:
            top = decide(T.eq(keep, mask(kw), kw)) if kw <= p2 else 0
            if top:
                keep = mask(kw) + 1
            elif isn(keep) and cut < p and kw > 1:
                # the leading bit stays set
                keep = T.concat([(1, 1), (kw - 1, T.add(ex(keep, kw - 2, 0), 1, kw - 1))])
            else:
                keep = T.add(keep, 1, kw) if isn(keep) else keep + 1
            if top:
                # carries into the next exponent
                return make(E + 1, 0) if E >= 1 else make(int(keep == 1 << (p2 - 1)), keep & mask(p2 - 1))
        if E >= 1:
            return make(E, ex(keep, p2 - 2, 0))
        return T.concat([(1, s), (eb2, 0), (p2 - 1, T.zext(keep, kw, p2 - 1) if isn(keep) and kw < p2 - 1 else keep)])

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        callee, args = ins.a
        if callee[0:1] == '@' if isinstance(callee, str) else False:
            name = callee[1:]
            while name in self.m.aliases:
                name = self.m.aliases[name]
        else:
            p = self.val(st, fr, callee)
            if isn(p):
                p = self.conc(st, p, 'function pointer')
            f = self.m.byaddr.get(p)
            if f is None:
                self.ub(st, 1, 'call through an invalid pointer')
                raise PathEnd('ub')
            name = f.name
        f = self.m.funcs[name]
        vals = [self.val(st, fr, v, t.w) for t, v, at in args]
        norm, unw = ins.x if ins.op == 'invoke' else (None, None)
        if not f.decl:
            self.enter(st, f, vals, ins.dst, ins.ty, norm, unw)
            return
        return self.external(st, fr, ins, name, vals, norm)

    def ret(self, st, fr, ins, v, norm):
        if ins.dst is not None:
            fr.regs[ins.dst] = v
        if norm is not None:
            self.goto(st, fr, norm)
        else:
            fr.ip += 1

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so, soff = self.resolve(st, s, n, 'read')
        bs = so.data[soff:soff + n]
        do, doff = self.resolve(st, d, n, 'write', True)
        do.data[doff:doff + n] = bs

    def copy_sym(self, st, d, s, n):
        """Copy from a symbolic address: as byte reads, all before the first write."""
        i8 = ll.IntTy(8)
        vals = [self.load(st, T.add(s, i, 64), i8) for i in range(n)]
        for i, x in enumerate(vals):
            self.store(st, d + i, i8, x)

    def external(self, st, fr, ins, name, v, norm):
        done = lambda r=None: self.ret(st, fr, ins, r, norm)
        C = lambda x, what='argument': self.conc(st, x, what) if isn(x) else x
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime.end',)):
                p = v[1]
                if isinstance(p, int):
                    o = self.wobj(st, p >> SLOT)
                    if o is not None and o.kind == 's':
                        o.data = [None] * o.size
                return done()
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.var.annotation')):
                return done()
            if name.startswith('llvm.threadlocal.address'):
                return done(v[0])
            if name.startswith('llvm.stacksave'):
                return done(0)
            if name.startswith('llvm.assume'):
                c = v[0]
                c = self.simp(st, c) if isn(c) else c
                if c == 0:
                    self.ub(st, 1, 'compiler assumption violated')
                    raise PathEnd('ub')
                return done()
            if name.startswith(('llvm.expect', 'llvm.launder', 'llvm.strip', 'llvm.ssa.copy')):
                return done(v[0])
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                n = C(v[2], 'memcpy size')
                if isn(v[1]) and 0 < n <= 32:
                    self.copy_sym(st, C(v[0], 'memcpy address'), v[1], n)
                    return done()
                d, s = C(v[0], 'memcpy address'), C(v[1], 'memcpy address')
                if n >> 24:
                    self.ub(st, 1, 'memory copy of %d bytes' % n)
                    raise PathEnd('ub')
                self.memcpy(st, d, s, n)
                return done()
            if name.startswith('llvm.memset'):
                n = C(v[2], 'memset size')
                d = C(v[0], 'memset address')
                if n >> 24:
                    self.ub(st, 1, 'memory set of %d bytes' % n)
                    raise PathEnd('ub')
                if n:
                    o, off = self.resolve(st, d, n, 'write', True)
                    for i in range(n):
                        o.data[off + i] = v[1] if isinstance(v[1], int) else (v[1], 0)
                return done()
            w = ins.ty.w
            if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
                a, b = v
                lt = T.ult(a, b, w) if name[5] == 'u' else T.slt(a, b, w)
                lt = self.simp(st, lt)
                if isn(lt) and w >= 16:
                    raise NeedFork([(lt, {}), (T.bnot(lt, 1), {})])
                return done(T.ite(lt, a, b, w) if 'min' in name else T.ite(lt, b, a, w))
            if name.startswith('llvm.abs'):
                s = self.simp(st, T.sbit(v[0], w))
                if isn(s):
                    raise NeedFork([(s, {}), (T.bnot(s, 1), {})])
                return done(T.neg(v[0], w) if s else v[0])
            if name.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')):
                x = v[0]
                if isinstance(x, int):
                    if x == 0 and 'ctpop' not in name and v[1] == 1:
                        self.ub(st, 1, 'count of zeros of zero')
                        raise PathEnd('ub')
                    r = w - x.bit_length() if 'ctlz' in name else (((x & -x).bit_length() - 1) if x else w) if 'cttz' in name else bin(x).count('1')
                    return done(r)
                key = st.subst.get(('clz', name[:9], x.id))
                if key is not None:
                    return done(key)
                if 'ctlz' in name:
                    alts = []
                    if v[1] == 1:
                        z = self.simp(st, T.eq(x, 0, w))
                        if z == 1 or isn(z) and self.feasible(st, z):
                            self.ub(st, z, 'count of leading zeros of zero')
                            self.assume(st, T.bnot(z, 1))
                    for k in range(x.lo.bit_length(), x.hi.bit_length() + 1):
                        c = T.eq(x, 0, w) if k == 0 else T.band(T.ule(1 << (k - 1), x, w), T.ule(x, mask(k), w), 1)
                        if k == 0 and v[1] == 1:
                            continue
                        alts.append((c, {('clz', name[:9], x.id): w - k}))
                    raise NeedFork(alts)
                if 'cttz' in name:
                    alts = []
                    for k in range(0, w):
                        c = T.band(T.eq(T.extract(x, k - 1, 0), 0, k) if k else 1, T.eq(T.extract(x, k, k), 1, 1), 1)
                        alts.append((c, {('clz', name[:9], x.id): k}))
                    if v[1] != 1:
                        alts.append((T.eq(x, 0, w), {('clz', name[:9], x.id): w}))
                    raise NeedFork(alts)
                bits = [T.zext(T.extract(x, i, i), 1, w) for i in range(w)]
                r = bits[0]
                for b in bits[1:]:
                    r = T.add(r, b, w)
                return done(r)
            if name.startswith('llvm.is.fpclass'):
                return done(fpclass(v[0], int(name.rsplit('.f', 1)[1]), v[1]))
            if name.startswith('llvm.bitreverse'):
                x = v[0]
                return done(T.concat([(1, T.extract(x, i, i) if isn(x) else (x >> i) & 1) for i in range(w)]))
            if '.sat.' in name and name[5:9] in ('uadd', 'usub', 'sadd', 'ssub'):
                a, b = v
                sg = name[5] == 's'
                W = w + 1
                X = T.sext(a, W, w) if sg else T.zext(a, w, W)
                Y = T.sext(b, W, w) if sg else T.zext(b, w, W)
                wide = (T.add if 'add' in name else T.sub)(X, Y, W)
                lowv = T.extract(wide, w - 1, 0) if isn(wide) else wide & mask(w)
                back = T.sext(lowv, W, w) if sg else T.zext(lowv, w, W)
                ov = self.simp(st, T.bnot(T.eq(wide, back, W), 1))
                if sg:
                    lim = T.ite(T.sbit(a, w), 1 << (w - 1), mask(w - 1), w)
                else:
                    lim = mask(w) if 'add' in name else 0
                return done(T.ite(ov, lim, lowv, w))
            if name.startswith(('llvm.minnum', 'llvm.maxnum', 'llvm.minimum', 'llvm.maximum')):
                a, b = v
                na = self.simp(st, fpsem.s_fcmp('uno', a, a, w))
                nb = self.simp(st, fpsem.s_fcmp('uno', b, b, w))
                lt = self.simp(st, fpsem.s_fcmp('olt', a, b, w))
                pick = T.ite(lt, a, b, w) if 'min' in name else T.ite(lt, b, a, w)
                if 'num' in name:
                    return done(T.ite(na, b, T.ite(nb, a, pick, w), w))
                return done(T.ite(na, a, T.ite(nb, b, pick, w), w))
            if name.startswith(('llvm.sideeffect', 'llvm.donothing', 'llvm.annotation', 'llvm.ptr.annotation', 'llvm.fake.use')):
                return done(v[0] if v else None)
            if '.with.overflow' in name:
                w = ins.ty.el[0].w
                a, b = v
                W = 2 * w if 'mul' in name else w + 1
                sg = name[5] == 's'
                X = T.sext(a, W, w) if sg else T.zext(a, w, W)
                Y = T.sext(b, W, w) if sg else T.zext(b, w, W)
                f = T.add if 'add' in name else T.sub if 'sub' in name else T.mul
                wide = f(X, Y, W)
                lowv = T.extract(wide, w - 1, 0) if isn(wide) else wide & mask(w)
                back = T.sext(lowv, W, w) if sg else T.zext(lowv, w, W)
                return done((lowv, T.bnot(T.eq(wide, back, W), 1)))
            if name.startswith('llvm.fabs'):
                return done(T.band(v[0], mask(w - 1), w))
            if name.startswith('llvm.copysign'):
                return done(T.bor(T.band(v[0], mask(w - 1), w), T.band(v[1], 1 << (w - 1), w), w))
            if name.startswith(('llvm.fmuladd', 'llvm.fma')) and all(isinstance(x, int) for x in v):
                if name.startswith('llvm.fmuladd'):
                    return done(fpsem.binop('fadd', fpsem.binop('fmul', v[0], v[1], w), v[2], w))
            if name.startswith('llvm.bswap'):
                x = v[0]
                n = w // 8
                return done(T.concat([(8, T.extract(x, 8 * i + 7, 8 * i) if isn(x) else (x >> 8 * i) & 255) for i in range(n)]))
            if name.startswith('llvm.eh.typeid.for'):
                return done(v[0] & 0x7fffffff)
            if name.startswith(('llvm.fshl', 'llvm.fshr')):
                s = C(v[2], 'funnel shift') % w
                x = T.concat([(w, v[0]), (w, v[1])])
                if name.startswith('llvm.fshl'):
                    return done(T.extract(T.shl(x, s, 2 * w), 2 * w - 1, w) if isn(x) else (x << s >> w) & mask(w))
                return done(T.extract(T.lshr(x, s, 2 * w), w - 1, 0) if isn(x) else (x >> s) & mask(w))
            if name.startswith(('llvm.trap', 'llvm.ubsantrap')):
                raise PathEnd('terminate')
            if name.startswith('llvm.objectsize'):
                return done(mask(64))
            if name.startswith('llvm.is.constant'):
                return done(0)
            if name.startswith(('llvm.floor', 'llvm.ceil', 'llvm.trunc', 'llvm.rint', 'llvm.nearbyint', 'llvm.round')) and isinstance(v[0], int):
                return done(fround(name[5:].split('.')[0], v[0], w))
            raise EngineError('intrinsic ' + name)
        h = HOOKS.get(name)
        if h is not None:
            return h(self, st, fr, ins, v, norm, done)
        if name in ('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk'):
            n = C(v[2], 'memcpy size')
            if isn(v[1]) and 0 < n <= 32:
                self.copy_sym(st, C(v[0]), v[1], n)
            else:
                self.memcpy(st, C(v[0]), C(v[1]), n)
            return done(v[0])
        if name in ('memset',):
            n = C(v[2], 'memset size')
            if n:
                o, off = self.resolve(st, C(v[0]), n, 'write', True)
                b = T.extract(v[1], 7, 0) if isn(v[1]) else v[1] & 255
                for i in range(n):
                    o.data[off + i] = b if isinstance(b, int) else (b, 0)
            return done(v[0])
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t'):
            n = C(v[0], 'allocation size')
            if n >> 23:
                if name.startswith('_Z'):
                    return self.throw(st, '_ZTISt9bad_alloc')
                return done(0)
            return done(self.alloc(st, n, 'h', 'heap'))
        if name == 'calloc':
            return done(self.alloc(st, C(v[0]) * C(v[1]), 'h', 'heap', 0))
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t'):
            p = C(v[0])
            if p:
                o = self.obj(st, p >> SLOT)
                if o is None or o.kind != 'h' or not o.alive or (p & mask(SLOT)) != BASE:
                    self.ub(st, 1, 'invalid deallocation')
                    raise PathEnd('ub')
                st.mem[p >> SLOT] = DEAD
            return done()
        if name == '__cxa_allocate_exception':
            return done(self.alloc(st, max(C(v[0]), 1), 'h', 'exception', 0))
        if name == '__cxa_free_exception':
            return done()
        if name == '__cxa_throw':
            return self.throw(st, C(v[1]), v[0])
        if name == '__cxa_begin_catch':
            st.caught = st.caught + [st.exc]
            st.exc = None
            return done(v[0])
        if name == '__cxa_get_exception_ptr':
            return done(v[0])
        if name == '__cxa_end_catch':
            st.caught = st.caught[:-1]
            return done()
        if name == '__cxa_rethrow':
            if not st.caught:
                raise PathEnd('terminate')
            st.exc = st.caught[-1]
            return self.unwind(st)
        if name in ('_Unwind_Resume',):
            return self.unwind(st)
        if name in ('_ZSt9terminatev', 'abort', '__assert_fail', 'exit', '_Exit', 'quick_exit'):
            raise PathEnd('terminate')
        if name == '__cxa_guard_acquire':
            p = v[0]
            b = self.load(st, p, ll.IntTy(8))
            if b == 0:
                st.guard += 1
                return done(1)
            return done(0)
        if name in ('__cxa_guard_release', '__cxa_guard_abort'):
            if name.endswith('release'):
                self.store(st, v[0], ll.IntTy(8), 1)
            st.guard -= 1
            return done()
        if name in ('__cxa_atexit', '__cxa_thread_atexit'):
            return done(0)
        if name == '__cxa_pure_virtual':
            raise PathEnd('terminate')
        if name == '__errno_location':
            return done(self.m.globals['verif_errno'].addr)
        for t, ti in THROWERS.items():
            if name.startswith('_ZSt%d%s' % (len(t), t)):
                return self.throw(st, ti)
        # constructors and destructors of the std exception classes
        for cls in STD_BASE:
            mang = cls[4:]
            if name.startswith('_ZN' + mang + 'C') or name.startswith('_ZN' + mang + 'D') or name.startswith('_ZNKS' + mang[1:] + '4what'):
                return done(0)
        if name.startswith(('_ZNSt9exceptionD', '_ZNSt9exceptionC')):
            return done(0)
        if name == 'realloc':
            n = max(C(v[1], 'allocation size'), 1)
            q = self.alloc(st, n, 'h', 'heap')
            p = C(v[0])
            if p:
                o = self.obj(st, p >> SLOT)
                if o is None or o.kind != 'h' or not o.alive or (p & mask(SLOT)) != BASE:
                    self.ub(st, 1, 'invalid reallocation')
                    raise PathEnd('ub')
                self.memcpy(st, q, p, min(n, o.size))
                st.mem[p >> SLOT] = DEAD
            return done(q)
        if name in MATH and all(isinstance(x, int) for x in v):
            return done(fmath(name, v))
        if name in ('strtof', 'strtod', 'strtold', '__isoc23_strtof', '__isoc23_strtod', '__isoc23_strtold'):
            return self.strto(st, fr, ins, name.replace('__isoc23_', ''), v, done)
        if name in ('snprintf', 'sprintf', '__snprintf_chk', '__sprintf_chk'):
            k = {'snprintf': 2, 'sprintf': 1, '__snprintf_chk': 4, '__sprintf_chk': 3}[name]
            fmt = bytes(b if isinstance(b, int) else 37 for b in self.cstr(st, C(v[k])))
            if any(c in fmt.replace(b'%%', b'') for c in (b'%f', b'%g', b'%e', b'%a', b'%n', b'*', b'%L', b'%.')):
                raise EngineError(name + ' of a float or with a computed width')
            n = C(v[1]) if 'snprintf' in name else mask(63)
            p = self.alloc(st, 8 * max(1, len(v) - k - 1), 's', 'arguments')
            i64 = ll.IntTy(64)
            for i, (x, (t, _, _)) in enumerate(zip(v[k + 1:], ins.a[1][k + 1:])):
                self.store(st, p + 8 * i, i64, T.zext(x, t.w, 64) if t.w < 64 else x)
            self.enter(st, self.m.funcs['verif_format'], [v[0], n, v[k], p], ins.dst, ins.ty, norm, None)
            return
        if name in ('fabs', 'fabsf'):
            w = ins.ty.w
            return done(T.band(v[0], mask(w - 1), w))
        if name in ('floor', 'ceil', 'trunc', 'floorf', 'ceilf', 'nearbyint', 'rint', 'round') and isinstance(v[0], int):
            return done(fround(name.rstrip('f') if name.endswith('f') and name != 'f' else name, v[0], ins.ty.w))
        if name in ('ldexp', 'pow', 'log10', 'log2', 'log', 'exp2', 'exp', 'sqrt') and all(isinstance(x, int) for x in v):
            import math, struct
            fl = lambda b: struct.unpack('<d', struct.pack('<Q', b))[0]
            if name == 'ldexp':
                r = math.ldexp(fl(v[0]), v[1] - (1 << 32) if v[1] >> 31 else v[1])
            elif name == 'pow':
                r = math.pow(fl(v[0]), fl(v[1]))
            else:
                r = getattr(math, name)(fl(v[0]))
            return done(struct.unpack('<Q', struct.pack('<d', r))[0])
        raise EngineError('external function ' + name)

    def strto(self, st, fr, ins, name, v, done):
        w = {'strtof': 32, 'strtod': 64, 'strtold': 80}[name]
        p = self.conc(st, v[0], 'string address') if isn(v[0]) else v[0]
        bs = self.cstr(st, p)
        for b in bs:
            self.chk_und(st, b, name + ' input')
        if v[1] != 0:
            if not all(isinstance(b, int) for b in bs):
                # where the number ends is a function of the text; nothing read means zero
                n = T.opaque('uf:end', 64, tuple(bs))
                self.assume(st, T.ule(n, len(bs), 64))
                self.store(st, v[1], ll.PTR, T.add(n, p, 64))
                r = T.opaque('uf:' + name, w, tuple(bs))
                for k, kw in (('strtof', 32), ('strtod', 64), ('strtold', 80)):
                    self.assume(st, T.bor(T.bnot(T.eq(n, 0, 64), 1), T.eq(T.opaque('uf:' + k, kw, tuple(bs)), 0, kw), 1))
                return done(r)
            n = fpsem.parse_float(bytes(bs))[3]
            self.store(st, v[1], ll.PTR, p + n)
        if all(isinstance(b, int) for b in bs):
            return done(fpsem.strto(bytes(bs), w))
        return done(T.opaque('uf:' + name, w, tuple(bs)))

    def cstr(self, st, p):
        """Bytes from p up to the first byte known to be NUL."""
        bs = []
        while True:
            o, off = self.resolve(st, p, 1, 'read')
            b = self.rd(st, o, off, 1)
            if isinstance(b, int) and b == 0:
                return bs
            if isn(b):
                z = self.simp(st, T.eq(b, 0, 8))
                if z == 1:
                    return bs
                if isn(z) and b.lo == 0 and not self.feasible(st, T.bnot(z, 1)):
                    self.learn(st, z, 1)
                    return bs
            bs.append(b)
            p += 1
            if len(bs) > 4096:
                raise EngineError('unterminated string')

    # ------------------------------------------------------------ exceptions
    def tname(self, ti):
        if isinstance(ti, str):
            return ti
        for g in self.m.globals.values():
            if g.addr == ti:
                return g.name
        return hex(ti)

    def bases(self, n):
        if n in self.tinfo:
            return self.tinfo[n]
        out = []
        g = self.m.globals.get(n)
        if n in STD_BASE:
            out = [STD_BASE[n]]
        elif g is not None and g.init is not None and isinstance(g.init, tuple):
            for x in g.init[2:]:
                if isinstance(x, int) and x >> SLOT:
                    nm = self.tname(x)
                    if nm.startswith('_ZTI'):
                        out.append(nm)
        self.tinfo[n] = out
        return out

    def isa(self, n, t):
        if n == t:
            return True
        return any(self.isa(b, t) for b in self.bases(n))

    def throw(self, st, ti, p=0):
        st.exc = (p, self.tname(ti))
        return self.unwind(st)

    def unwind(self, st):
        name = st.exc[1]
        first = True
        while st.frames:
            fr = st.frames[-1]
            if first:
                ins = fr.f.blocks[fr.block][fr.ip]
                unw = ins.x[1] if ins.op == 'invoke' else None
                first = False
            else:
                unw = pend
            if unw is not None:
                lp = next(i for i in fr.f.blocks[unw] if i.op == 'landingpad')
                clauses, cleanup = lp.a
                hit = cleanup
                for k, t in clauses:
                    if k == 'catch' and (t == 0 or self.isa(name, self.tname(t))):
                        hit = True
                    if k == 'filter':
                        hit = True
                if hit:
                    self.goto(st, fr, unw)
                    return None
            pend = fr.unw
            self.popframe(st)
        raise PathEnd('uncaught')

    def landing(self, st, fr, ins):
        clauses, cleanup = ins.a
        sel = 0
        p, name = st.exc
        for k, t in clauses:
            if k == 'catch' and (t == 0 or self.isa(name, self.tname(t))):
                sel = t & 0x7fffffff if t else 1
                break
        fr.regs[ins.dst] = (p, sel)
        fr.ip += 1


DEAD = Obj(0, [], 's', 'dead object')
DEAD.alive = False
HOOKS = {}


def hook(name):
    def d(f):
        HOOKS[name] = f
        return f
    return d


def vid(v):
    if isn(v):
        return ('n', v.id)
    if isinstance(v, tuple):
        return tuple(vid(x) for x in v)
    if isinstance(v, ll.Undef):
        return 'undef'
    return v


def kz_low(x):
    if isinstance(x, int):
        return 4 if x == 0 else min(4, (x & -x).bit_length() - 1)
    k = 0
    while k < 4 and x.kz >> k & 1:
        k += 1
    return k


def srange(x, w):
    H = 1 << (w - 1)
    if isinstance(x, int):
        v = x - 2 * H if x >= H else x
        return v, v
    if x.op == 'sext':
        return srange(x.a[0], x.a[0].w)
    if x.hi < H:
        return x.lo, x.hi
    if x.lo >= H:
        return x.lo - 2 * H, x.hi - 2 * H
    return -H, H - 1


def leaf_consts(x, limit):
    """The set of values of a tree of ite over constants, else None."""
    out = set()
    st = [x]
    n = 0
    while st:
        y = st.pop()
        n += 1
        if n > limit:
            return None
        if isinstance(y, int):
            out.add(y)
        elif y.op == 'ite':
            st.extend(y.a[1:])
        else:
            return None
    return out


def conds_hard(conds, c):
    """Does the condition contain wide multiplication or division?"""
    seen = set()
    st = [x for x in conds if isn(x)] + ([c] if isn(c) else [])
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ('mul', 'udiv', 'urem') and n.w >= 24:
            return True
        if n.op == 'nearest':
            return True
        kids = [v for _, v in n.a] if n.op == 'concat' else n.a
        st.extend(v for v in kids if isn(v))
    return False


def operands(i):
    out = []

    def add(v):
        if type(v) is str:
            out.append(v)
    op = i.op
    if op == 'switch':
        add(i.a[0])
    elif op == 'br':
        pass
    elif op == 'condbr':
        add(i.a[0])
    elif op in ('call', 'invoke'):
        c = i.a[0]
        if isinstance(c, str) and not c.startswith('@'):
            out.append(c)
        for t, v, at in i.a[1]:
            add(v)
    elif op == 'landingpad':
        pass
    elif op == 'getelementptr':
        add(i.a[0])
        for nm, w, sc in i.x[1]:
            out.append(nm)
    elif op in ('unsupported', 'nop', 'asm'):
        pass
    else:
        for v in i.a:
            add(v)
    return out


MATH = ('ldexp', 'scalbn', 'scalbln', 'pow', 'log', 'log2', 'log10', 'exp2', 'exp', 'sqrt', 'floor', 'ceil', 'trunc', 'round', 'fmod', 'rint',
        'lround', 'llround', 'lrint', 'llrint', 'nearbyint', 'exp10')


def fmath(name, v):
    """The C library's own answer for concrete arguments."""
    import ctypes
    import struct
    lib = ctypes.CDLL('libm.so.6')
    f = getattr(lib, name)
    d = lambda b: ctypes.c_double(struct.unpack('<d', struct.pack('<Q', b))[0])
    f.restype = ctypes.c_long if name[0] == 'l' and name[-3:] in ('und', 'int') else ctypes.c_double
    second = {'pow': d, 'fmod': d, 'ldexp': lambda b: ctypes.c_int(b), 'scalbn': lambda b: ctypes.c_int(b), 'scalbln': lambda b: ctypes.c_long(b)}
    r = f(d(v[0]), *[second[name](x) for x in v[1:]])
    return r & mask(64) if isinstance(r, int) else struct.unpack('<Q', struct.pack('<d', r))[0]


def fpclass(x, w, m):
    """llvm.is.fpclass: the union of the classes whose bits are set in m."""
    if isn(x):
        nx = fpsem.narrow(x, w)
        if nx and nx[1] < w and (m >> 3 & 1) == (m >> 4 & 1) and (m >> 7 & 1) == (m >> 8 & 1) and (m & 3) in (0, 3):
            x, w = nx
            if isinstance(x, int):
                return fpclass(x, w, m)
        if isn(x) and x.op.startswith('fp:'):
            raise EngineError('class of a computed floating value')
    p, eb = fpsem.FMT[w]
    mb = p if w == 80 else p - 1
    ex = T.extract(x, mb + eb - 1, mb) if isn(x) else x >> mb & mask(eb)
    fr = T.extract(x, p - 2, 0) if isn(x) else x & mask(p - 1)
    sg = T.extract(x, w - 1, w - 1) if isn(x) else x >> (w - 1)
    e1, e0 = T.eq(ex, mask(eb), eb), T.eq(ex, 0, eb)
    f0 = T.eq(fr, 0, p - 1)
    q = T.extract(fr, p - 2, p - 2) if isn(fr) else fr >> (p - 2)
    n = lambda c: T.bnot(c, 1)
    a = lambda *c: T.band(c[0], a(*c[1:]), 1) if len(c) > 1 else c[0]
    neg, pos = T.eq(sg, 1, 1), T.eq(sg, 0, 1)
    nan = a(e1, n(f0))
    cls = [a(nan, n(q)), a(nan, q)]
    cls += [a(neg, e1, f0), a(neg, n(e1), n(e0)), a(neg, e0, n(f0)), a(neg, e0, f0)]
    cls += [a(pos, e0, f0), a(pos, e0, n(f0)), a(pos, n(e1), n(e0)), a(pos, e1, f0)]
    if (m & 3) == 3:
        cls[0] = cls[1] = nan
    for lo, hi, both in ((2, 9, a(e1, f0)), (3, 8, a(n(e1), n(e0))), (4, 7, a(e0, n(f0))), (5, 6, a(e0, f0))):
        if m >> lo & m >> hi & 1:
            cls[lo] = cls[hi] = both
    if all(m >> i & 1 for i in range(3, 9)):
        for i in range(3, 9):
            cls[i] = n(e1)
    if all(m >> i & 1 for i in (6, 7, 8)) and not m >> 3 & 7:
        cls[6] = cls[7] = cls[8] = a(pos, n(e1))
    r, seen = 0, set()
    for i, c in enumerate(cls):
        if m >> i & 1:
            k = c if isinstance(c, int) else ('n', c.id)
            if k not in seen:
                seen.add(k)
                r = T.bor(r, c, 1)
    return r


def fround(name, b, w):
    from fractions import Fraction
    import math
    k, s, v = fpsem.classify(b, w)
    if k != 'num':
        return b
    x = -v if s else v
    fl = math.floor(x)
    if name == 'floor':
        r = fl
    elif name == 'ceil':
        r = math.ceil(x)
    elif name == 'trunc':
        r = int(x)
    elif name == 'round':
        r = math.floor(x + Fraction(1, 2)) if x >= 0 else math.ceil(x - Fraction(1, 2))
    else:
        r = round(x)
    return fpsem.encode(s, Fraction(abs(r)), w)


# ---------------------------------------------------------------- harness interface
@hook('v_sym')
def _(X, st, fr, ins, v, norm, done):
    w = v[0]
    nm = 'in%d' % len(st.inputs)
    st.inputs.append((nm, w))
    x = T.var(nm if w == 64 else '%s_%d' % (nm, w), w)
    st.inputs[-1] = (x.a[0], w)
    if len(st.inputs) > len(X.R.widths):
        X.R.widths = [w for _, w in st.inputs]
    done(T.zext(x, w, 64))


@hook('v_sym_bytes')
def _(X, st, fr, ins, v, norm, done):
    p, n = v
    for i in range(n):
        nm = 'in%d_8' % len(st.inputs)
        st.inputs.append((nm, 8))
        o, off = X.resolve(st, p + i, 1, 'write', True)
        o.data[off] = (T.var(nm, 8), 0)
    if len(st.inputs) > len(X.R.widths):
        X.R.widths = [w for _, w in st.inputs]
    done()


@hook('v_param')
def _(X, st, fr, ins, v, norm, done):
    done(X.params[v[0]] & mask(64))


@hook('v_assume')
def _(X, st, fr, ins, v, norm, done):
    c = X.simp(st, v[0]) if isn(v[0]) else v[0]
    if isn(c):
        if not X.feasible(st, c):
            raise PathEnd('assume')
    X.assume(st, c)
    done()


@hook('v_assert')
def _(X, st, fr, ins, v, norm, done):
    c = v[0]
    msg = ''
    if isinstance(v[1], int) and v[1]:
        msg = bytes(x for x in X.cstr(st, v[1])).decode()
    X.R.obligations += 1
    if isn(c):
        X.chk_und(st, c, 'asserted value')
        c = X.simp(st, c)
    if isinstance(c, int):
        if not c:
            if X.violation(st, 1, 'assert', msg):
                X.R.proved += 1
                raise PathEnd('infeasible')
            raise PathEnd('assertion')
        X.R.proved += 1
        return done()
    n = T.bnot(c, 1)
    if not X.feasible(st, n):
        X.R.proved += 1
        X.learn(st, c, 1)
    else:
        nv = len(X.R.violations) + len(X.R.unknown)
        X.violation(st, n, 'assert', msg)
        if nv == len(X.R.violations) + len(X.R.unknown):
            X.R.proved += 1
        X.assume(st, c)
    done()


@hook('v_reach')
def _(X, st, fr, ins, v, norm, done):
    st.reach = st.reach | {v[0]}
    done()


@hook('v_out')
def _(X, st, fr, ins, v, norm, done):
    p = X.conc(st, v[0], 'output address') if isn(v[0]) else v[0]
    n = X.conc(st, v[1], 'output size') if isn(v[1]) else v[1]
    vals = []
    for i in range(n):
        o, off = X.resolve(st, p + i, 1, 'read')
        b = X.rd(st, o, off, 1)
        X.chk_und(st, b, 'output byte %d' % i)
        vals.append(b)
    st.outs.append(vals)
    done()


@hook('v_outi')
def _(X, st, fr, ins, v, norm, done):
    X.chk_und(st, v[0], 'output value')
    st.outs.append([v[0]])
    done()


@hook('v_split')
def _(X, st, fr, ins, v, norm, done):
    """Fork until the argument is concrete."""
    done(X.conc(st, v[0], 'v_split') if isn(v[0]) else v[0])


@hook('v_mark')
def _(X, st, fr, ins, v, norm, done):
    """Remembers the globals and the live heap ..."""
    st.snap = {k: o for k, o in st.mem.items() if k < 1 << 20 or o.kind == 'h'}
    st.tok = object()
    done()


@hook('v_reset')
def _(X, st, fr, ins, v, norm, done):
    """... and puts them back as they were."""
    for k in [k for k in st.mem if k < 1 << 20 and k not in st.snap]:
        del st.mem[k]
    st.mem.update(st.snap)
    st.tok = object()
    done()


@hook('v_symbolic')
def _(X, st, fr, ins, v, norm, done):
    done(1)


@hook('v_assert_lin')
def _(X, st, fr, ins, v, norm, done):
    """A wide value equals a linear form with concrete coefficients."""
    r, n, x, c, k, m, what = [X.conc(st, y, 'v_assert_lin') if isn(y) else y for y in v]
    msg = bytes(X.cstr(st, what)).decode()
    ld = lambda p: X.load(st, p, ll.IntTy(64))
    xs = [ld(x + 8 * i) for i in range(k)]
    cs = [sum(ld(c + 8 * (i * m + j)) << (64 * j) for j in range(m)) for i in range(k)]
    rs = [ld(r + 8 * j) for j in range(n)]
    for y in rs + xs:
        X.chk_und(st, y, 'asserted value')
    w = max(64 * n, (sum(cs) << 64).bit_length()) + 8
    lhs = T.concat([(w - 64 * n, 0)] + [(64, y) for y in reversed(rs)])
    rhs = 0
    for y, a in zip(xs, cs):
        rhs = T.add(rhs, T.mul(T.zext(y, 64, w), a, w), w)
    X.R.obligations += 1
    q = T.eq(lhs, rhs, w)
    if isn(q):
        q = X.simp(st, q)
    bad = T.bnot(q, 1)
    if bad == 0 or isn(bad) and not X.feasible(st, bad):
        X.R.proved += 1
    else:
        nv = len(X.R.violations) + len(X.R.unknown)
        X.violation(st, bad, 'assert', msg)
        if nv == len(X.R.violations) + len(X.R.unknown):
            X.R.proved += 1
    done()


def assert_nearest(X, st, v, done, mb, eb):
    """(hi:lo) * 10^e10 must round (half even) to the positive finite value `bits`
    of the format with mb stored significand bits and eb exponent bits."""
    hi, lo, e10, bits, text, what = v
    msg = bytes(X.cstr(st, what)).decode()
    e10 = X.conc(st, e10, 'decimal exponent') if isn(e10) else e10
    if e10 >> 31:
        e10 -= 1 << 32
    for x in (hi, lo, bits):
        X.chk_und(st, x, 'asserted value')
    D = T.concat([(64, hi), (64, lo)])
    e = T.extract(bits, mb + eb - 1, mb)
    if isn(e):
        e = X.conc(st, e, 'binary exponent')
    m = T.extract(bits, mb - 1, 0)
    M = T.concat([(1, 1 if e else 0), (mb, m)])
    E2 = (e or 1) - ((1 << (eb - 1)) - 1) - mb
    z = X.simp(st, T.eq(m, 0, mb)) if e > 1 else 0
    X.R.obligations += 1
    ok = True
    odd = T.extract(M, 0, 0)
    for cz, nar in ((z, 1), (T.bnot(z, 1), 0)):
        if cz == 0 or not X.feasible(st, cz):
            continue
        # strictly inside the rounding interval is enough; on its ends ties go to even
        s = T._mk('nearest', 1, (D, M, e10, E2, nar, 1))
        bad = T.band(cz, T.bnot(s, 1), 1)
        if not X.feasible(st, bad):
            continue
        t = T._mk('nearest', 1, (D, M, e10, E2, nar, 0))
        bad = T.band(bad, T.bor(odd, T.bnot(t, 1), 1), 1)
        nv = len(X.R.violations) + len(X.R.unknown)
        X.violation(st, bad, 'assert', msg)
        if nv != len(X.R.violations) + len(X.R.unknown):
            ok = False
    X.R.proved += ok
    done()


@hook('v_assert_nearest')
def _(X, st, fr, ins, v, norm, done):
    assert_nearest(X, st, v, done, 52, 11)


@hook('v_assert_nearest32')
def _(X, st, fr, ins, v, norm, done):
    assert_nearest(X, st, v, done, 23, 8)


# texts on which a conversion through another precision, or a truncated or
# modified text, gives a different value
WITNESS_TEXTS = ['5.263409742778544e90', '18446744073709553665', '16777217.000000001', '16777217.00000000000001',
                 '9007199254740993', '9007199254740993.0000001', '1e400', '1e-400', '-1e400', '1e40', '1e-50', '3.5', '-0.0', '0.1', '1e5', '1E5',
                 '  1.5', '+2.5', '.5', '5.', '0x1p4', 'inf', '-inf', 'nan', '-nan', 'infinity', '1.5x', '1e', '1e+', '4.9e-324', '2.5e-324',
                 '1.7976931348623157e308', '3.4028235e38', '3.4028236e38', '1.4e-45', '1e-5', '123456789012345678901234567890', '-7', '7',
                 '\t1.5', '\n1.5', '\v1.5', '\f1.5', '\r1.5', '1,5', '1.5e3', '1.5E+3', '1.5e-3', '12e', '-', '+', '.', 'e5', '-.5', '00012', 'x1', '1e4932', '1e-4940',
                 '0.30000000000000004', '1.1', '2.2250738585072012e-308', '0.1234567890123456789012345']


def text_cands(bs, model=None):
    n = len(bs)
    if not all(isinstance(b, int) or b.op == 'var' for b in bs):
        return
    if model is not None:
        base = [b if isinstance(b, int) else model.get(b.a[0], 0) for b in bs]
        k = 0
        for t in WITNESS_TEXTS:
            t = t.encode()
            for o in range(0, n - len(t) + 1):
                u = list(base)
                u[o:o + len(t)] = t
                # whatever comes before the number: as the path has it, or blanks
                for lead in (None, 32, 48, 9):
                    if lead is not None:
                        if not o:
                            break
                        u[:o] = [lead] * o
                    yield dict(model, **{b.a[0]: c for b, c in zip(bs, u) if isn(b)})
                    k += 1
                    if k > 3000:
                        return
        return
    for t in WITNESS_TEXTS:
        t = t.encode()
        for lead in (b'', b' ', b'\t', b'+', b'-', b'0', b'\n '):
            for pad in (0, 32, 48, 120):
                if len(lead) + len(t) > n:
                    continue
                u = lead + t + bytes([pad]) * (n - len(lead) - len(t))
                yield {b.a[0]: c for b, c in zip(bs, u) if isn(b)}


@hook('v_assert_conv')
def _(X, st, fr, ins, v, norm, done):
    """*result must be what the C library's conversion for that type gives for the text."""
    k, res, text, what = v
    msg = bytes(X.cstr(st, what)).decode()
    w = (32, 64, 80)[k]
    r = X.load(st, res, ll.IntTy(w))
    X.chk_und(st, r, 'asserted value')
    X.R.obligations += 1
    bs = X.cstr(st, text)
    if all(isinstance(b, int) for b in bs):
        exp = fpsem.strto(bytes(bs), w)
    else:
        exp = T.opaque('uf:' + ('strtof', 'strtod', 'strtold')[k], w, tuple(bs))
    c = T.eq(r, exp, w)
    nan = lambda x: fpsem.s_fcmp('uno', x, x, w)
    if c == 1:
        X.R.proved += 1
        return done()
    if X.violation(st, T.bnot(c, 1), 'assert', msg, texts=bs):
        X.R.proved += 1
    done()
