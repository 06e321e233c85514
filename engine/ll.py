"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that clang
emits for the library and the harnesses.  Produces Module / Function / Inst
objects with operands resolved to Python ints (constants), strings (SSA locals),
Undef objects or tuples (aggregates)."""
import re, struct

TOK = re.compile(r'''
 (?P<ws>\s+|;[^\n]*)
|(?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
|(?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
|(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
|(?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9\\]*))
|(?P<attr>\#\d+)
|(?P<hexfp>0x[KMLHR]?[0-9A-Fa-f]+)
|(?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|-?\d+)
|(?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<punct>\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)


class ParseError(Exception):
    pass


class Undef:
    __slots__ = ('poison',)

    def __init__(self, poison=False):
        self.poison = poison

    def __repr__(self):
        return 'undef'


UNDEF = Undef()
POISON = Undef(True)


# ---- types -------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'size', 'align', 'offs', 'name')

    def __init__(self, k, w=0, n=0, el=None):
        self.k, self.w, self.n, self.el = k, w, n, el
        self.size = self.align = None
        self.offs = None
        self.name = None

    def __repr__(self):
        return '%s%s' % (self.k, self.w or '')


INTS = {}


def IntTy(w):
    t = INTS.get(w)
    if t is None:
        t = INTS[w] = Ty('int', w)
        t.size = (w + 7) // 8
        a = 1
        while a < t.size and a < 8:
            a *= 2
        if w > 64:
            t.size = (t.size + 15) // 16 * 16
            a = 16
        elif t.size not in (1, 2, 4, 8):
            s = 1
            while s < t.size:
                s *= 2
            t.size = s
        t.align = a
    return t


PTR = Ty('ptr', 64); PTR.size = PTR.align = 8
VOID = Ty('void'); VOID.size = 0; VOID.align = 1
FLOAT = Ty('fp', 32); FLOAT.size = FLOAT.align = 4
DOUBLE = Ty('fp', 64); DOUBLE.size = DOUBLE.align = 8
FP80 = Ty('fp', 80); FP80.size = FP80.align = 16
LABEL = Ty('label'); META = Ty('metadata'); TOKENT = Ty('token')


def layout(t):
    if t.size is not None:
        return t
    if t.k == 'array' or t.k == 'vector':
        layout(t.el)
        t.size = t.n * t.el.size
        t.align = t.el.align if t.k == 'array' else max(1, t.size)
    elif t.k == 'struct':
        off, al, offs = 0, 1, []
        for e in t.el:
            layout(e)
            a = 1 if t.n else e.align      # t.n: packed
            off = (off + a - 1) // a * a
            offs.append(off)
            off += e.size
            al = max(al, a)
        t.offs = offs
        t.align = al
        t.size = (off + al - 1) // al * al
    elif t.k == 'opaque':
        t.size, t.align = 64, 8
    else:
        raise ParseError('layout of %r' % t)
    return t


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'line')

    def __init__(self, op, dst, ty, a, x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x
        self.line = None

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.dst, self.op, self.ty, self.a, self.x)


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []       # (type, localname, attrs)
        self.ret = VOID
        self.blocks = {}       # label -> [Inst]
        self.entry = None
        self.decl = True
        self.addr = None
        self.vararg = False
        self.text = None
        self.ipdom = None


class Global:
    def __init__(self, name):
        self.name = name
        self.ty = None
        self.const = False
        self.init = None
        self.ext = False
        self.addr = None


ATTRW = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
         'zeroext', 'signext', 'inreg', 'returned', 'immarg', 'nest', 'swiftself', 'nofree',
         'noreturn', 'nounwind', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'fastcc',
         'ccc', 'coldcc', 'allocptr', 'allocalign', 'cold', 'noext', 'writable', 'dead_on_unwind'}
ATTRP = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref',
         'elementtype', 'preallocated', 'inalloca', 'range', 'memory', 'allockind', 'allocsize',
         'vscale_range', 'nofpclass', 'captures', 'initializes'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
         'afn', 'reassoc', 'disjoint', 'nneg', 'volatile', 'atomic', 'tail', 'musttail', 'notail',
         'samesign', 'nusw'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'sitofp',
         'uitofp', 'fptosi', 'fptoui', 'addrspacecast'}
ORDERINGS = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}


def unq(name):
    if len(name) > 1 and name[1] == '"':
        return name[2:-1]
    return name[1:]


def tokenize(s):
    out = []
    pos, n = 0, len(s)
    m = TOK.match
    while pos < n:
        r = m(s, pos)
        if r is None:
            raise ParseError('token at %r' % s[pos:pos + 40])
        k = r.lastgroup
        if k != 'ws':
            out.append((k, r.group()))
        pos = r.end()
    out.append(('eof', ''))
    return out


class P:
    """Token cursor."""

    def __init__(self, mod, text):
        self.m = mod
        self.t = tokenize(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1]

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, s):
        if self.t[self.i][1] == s and self.t[self.i][0] != 'cstr':
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise ParseError('expected %r got %r near %r' % (s, self.peek(), ' '.join(x[1] for x in self.t[max(0, self.i - 8):self.i + 8])))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
            elif x == '':
                raise ParseError('eof')

    # -- types
    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if v == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.skip_parens()
        elif k == 'word' and v[0] == 'i' and v[1:].isdigit():
            t = IntTy(int(v[1:]))
        elif v == 'void':
            t = VOID
        elif v == 'float':
            t = FLOAT
        elif v == 'double':
            t = DOUBLE
        elif v == 'x86_fp80':
            t = FP80
        elif v == 'label':
            t = LABEL
        elif v == 'metadata':
            t = META
        elif v == 'token':
            t = TOKENT
        elif v == 'opaque':
            t = Ty('opaque')
        elif v == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = Ty('array', n=n, el=e)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                t = Ty('struct', n=1, el=self.typelist('}'))
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = Ty('vector', n=n, el=e)
        elif v == '{':
            t = Ty('struct', el=self.typelist('}'))
        elif k == 'local':
            t = self.m.named(unq(v))
        else:
            raise ParseError('type? %r' % v)
        # function type
        while self.peek() == '(' and t is not META:
            # only treat as fn type if contents parse as types and we are in call position
            break
        return t

    def typelist(self, close):
        out = []
        if self.eat(close):
            return out
        while True:
            out.append(self.type())
            if self.eat(close):
                return out
            self.expect(',')

    def attrs(self):
        """Skip (and collect) parameter / return attributes."""
        out = {}
        while True:
            k, v = self.t[self.i]
            if k == 'word' and v in ATTRW:
                self.i += 1
                out[v] = True
            elif k == 'word' and v in ATTRP:
                self.i += 1
                if v == 'align' and self.kind() == 'num':
                    out[v] = int(self.next())
                elif self.peek() == '(':
                    if v in ('sret', 'byval', 'byref', 'elementtype'):
                        self.expect('('); out[v] = self.type(); self.expect(')')
                    else:
                        self.skip_parens(); out[v] = True
            elif k == 'str':
                self.i += 1
                if self.eat('='):
                    self.next()
            else:
                return out

    # -- values
    def value(self, t):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'local':
            return unq(v)
        if k == 'num':
            if t.k == 'fp':
                return fpconst(t, v)
            return int(v) & ((1 << t.w) - 1)
        if k == 'hexfp':
            return fpconst(t, v)
        if k == 'glob':
            return self.m.addr_of(unq(v))
        if v == 'true':
            return 1
        if v == 'false':
            return 0
        if v == 'null':
            return 0
        if v == 'undef':
            return agg_undef(t, UNDEF)
        if v == 'poison':
            return agg_undef(t, POISON)
        if v == 'none':
            return 0
        if v == 'zeroinitializer':
            return zero(t)
        if k == 'cstr':
            return tuple(cbytes(v))
        if v == '[':
            return self.agg(']')
        if v == '{':
            return self.agg('}')
        if v == '<':
            if self.eat('{'):
                r = self.agg('}')
                self.expect('>')
                return r
            return self.agg('>')
        if v == 'getelementptr':
            while self.peek() in FLAGS or self.peek() == 'inrange':
                if self.next() == 'inrange' and self.peek() == '(':
                    self.skip_parens()
            self.expect('(')
            base = self.type(); self.expect(',')
            pt = self.type(); p = self.value(pt)
            idx = []
            while self.eat(','):
                self.eat('inrange')
                it = self.type(); iv = self.value(it)
                idx.append(sx(iv, it.w))
            self.expect(')')
            off = gep_const(base, idx)
            return (p + off) & (2 ** 64 - 1)
        if v in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext'):
            self.expect('(')
            ft = self.type(); x = self.value(ft); self.expect('to'); tt = self.type(); self.expect(')')
            return x & ((1 << tt.w) - 1) if tt.w else x
        if v in BINOPS:
            while self.peek() in FLAGS:
                self.next()
            self.expect('(')
            t1 = self.type(); a = self.value(t1); self.expect(',')
            t2 = self.type(); b = self.value(t2); self.expect(')')
            M = (1 << t1.w) - 1
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b,
                    'shl': a << b, 'lshr': a >> b}[v] & M
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return self.value(t)
        raise ParseError('value? %r (%s)' % (v, k))

    def agg(self, close):
        out = []
        if self.eat(close):
            return ()
        while True:
            t = self.type()
            out.append(self.value(t))
            if self.eat(close):
                return tuple(out)
            self.expect(',')


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def agg_undef(t, u):
    if t.k == 'struct':
        return tuple(agg_undef(e, u) for e in t.el)
    if t.k in ('array', 'vector'):
        return tuple(agg_undef(t.el, u) for _ in range(t.n))
    return u


def zero(t):
    if t.k == 'struct':
        return tuple(zero(e) for e in t.el)
    if t.k in ('array', 'vector'):
        return tuple(zero(t.el) for _ in range(t.n))
    return 0


def cbytes(v):
    s = v[2:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return out


def fpconst(t, v):
    if v.startswith('0xK'):
        return int(v[3:], 16)
    if v.startswith('0x'):
        bits = int(v[2:], 16)
        if t.w == 32:
            d = struct.unpack('<d', struct.pack('<Q', bits))[0]
            return struct.unpack('<I', struct.pack('<f', d))[0]
        if t.w == 80:
            raise ParseError('fp80 const ' + v)
        return bits
    d = float(v)
    if t.w == 32:
        return struct.unpack('<I', struct.pack('<f', d))[0]
    return struct.unpack('<Q', struct.pack('<d', d))[0]


def gep_const(base, idx):
    layout(base)
    off = idx[0] * base.size
    t = base
    for i in idx[1:]:
        if t.k == 'struct':
            layout(t)
            off += t.offs[i]
            t = t.el[i]
        else:
            layout(t.el)
            off += i * t.el.size
            t = t.el
    return off


class Module:
    SLOT = 24

    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self.byaddr = {}
        self.nfun = 0
        self.nglob = 256
        self.ctors = []
        self.scan(re.sub(r'comdat\(\$[^)]*\)', 'comdat', text))

    def named(self, n):
        t = self.types.get(n)
        if t is None:
            t = self.types[n] = Ty('opaque')
            t.name = n
        return t

    def addr_of(self, n):
        if n in self.aliases:
            return self.addr_of(self.aliases[n])
        f = self.funcs.get(n)
        if f is not None:
            return f.addr
        return self.globals[n].addr

    def scan(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        gl = []
        tys = []
        als = []
        while i < n:
            L = lines[i]
            if L.startswith('define ') or L.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', L)
                name = unq('@' + m.group(1))
                f = self.funcs[name] = Function(name)
                self.nfun += 1
                f.addr = 0x10000 + self.nfun * 16
                self.byaddr[f.addr] = f
                if L.startswith('define '):
                    f.decl = False
                    j = i + 1
                    while lines[j] != '}':
                        j += 1
                    f.text = (L, lines[i + 1:j])
                    i = j
                else:
                    f.text = (L, None)
            elif L.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*=\s*(.*)', L)
                name = unq('@' + m.group(1))
                rest = m.group(2)
                if re.match(r'(?:\w+\s+)*alias\b', rest):
                    als.append((name, rest))
                else:
                    g = self.globals[name] = Global(name)
                    g.addr = (self.nglob << self.SLOT) + 64
                    self.nglob += 1
                    gl.append((g, rest))
            elif L.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*=\s*type\s+(.*)', L)
                tys.append((unq('%' + m.group(1)), m.group(2)))
            i += 1
        for name, rest in tys:
            t = self.named(name)
            if rest.strip() == 'opaque':
                continue
            r = P(self, rest).type()
            t.k, t.w, t.n, t.el = r.k, r.w, r.n, r.el
        for name, rest in als:
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', rest)
            self.aliases[name] = unq('@' + m.group(1))
        for g, rest in gl:
            p = P(self, rest)
            ext = False
            while p.peek() not in ('global', 'constant'):
                w = p.next()
                if w in ('external', 'extern_weak'):
                    ext = True
                if p.peek() == '(':
                    p.skip_parens()
            g.const = p.next() == 'constant'
            g.ty = p.type()
            g.ext = ext
            if not ext:
                g.init = p.value(g.ty)
        for f in self.funcs.values():
            self.header(f)
        c = self.globals.get('llvm.global_ctors')
        if c is not None and c.init:
            for pr, fn, _ in c.init:
                self.ctors.append((pr, fn))
            self.ctors.sort()

    def header(self, f):
        L = f.text[0]
        p = P(self, L)
        p.next()
        # linkage / visibility / cconv words, until a type starts
        while True:
            k, v = p.t[p.i]
            if k == 'word' and (v in ATTRW or v in ATTRP or v in (
                    'internal', 'private', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'external',
                    'available_externally', 'hidden', 'protected', 'default', 'extern_weak', 'dso_preemptable',
                    'cc')):
                p.attrs() if (v in ATTRW or v in ATTRP) else p.next()
                continue
            break
        f.ret = p.type()
        p.next()
        p.expect('(')
        n = 0
        while not p.eat(')'):
            if p.eat('...'):
                f.vararg = True
                continue
            t = p.type()
            at = p.attrs()
            nm = None
            if p.kind() == 'local':
                nm = unq(p.next())
            else:
                nm = str(n)
            n += 1
            f.params.append((t, nm, at))
            p.eat(',')

    def body(self, f):
        """Parse the body of f on first use."""
        if f.blocks or f.decl:
            return f
        cur = None
        lines = f.text[1]
        i = 0
        nun = sum(1 for _, nm, _ in f.params if nm.isdigit())
        label = None
        while i < len(lines):
            L = lines[i]
            i += 1
            if not L.strip() or L.lstrip().startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', L)
            if m:
                label = m.group(1)
                if label[0] == '"':
                    label = label[1:-1]
                cur = f.blocks[label] = []
                if f.entry is None:
                    f.entry = label
                continue
            if cur is None:
                label = str(nun)
                cur = f.blocks[label] = []
                f.entry = label
            s = L.strip()
            if re.match(r'^(switch|.*= landingpad|.*= (tail )?call|invoke|.*invoke|landingpad)\b', s):
                # join continuation lines
                if s.startswith('switch'):
                    while ']' not in s:
                        s += ' ' + lines[i].strip(); i += 1
                elif 'invoke ' in s and ' unwind label' not in s:
                    while ' unwind label' not in s:
                        s += ' ' + lines[i].strip(); i += 1
                elif 'landingpad' in s:
                    while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                        s += ' ' + lines[i].strip(); i += 1
            ins = self.inst(s)
            ins.line = s
            cur.append(ins)
        return f

    def inst(self, s):
        p = P(self, s)
        dst = None
        if p.kind() == 'local' and p.peek(1) == '=':
            dst = unq(p.next()); p.next()
        op = p.next()
        flags = set()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in BINOPS or op in FBIN:
            while p.peek() in FLAGS:
                flags.add(p.next())
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst(op, dst, t, (a, b), flags)
        if op == 'fneg':
            while p.peek() in FLAGS:
                p.next()
            t = p.type(); return Inst(op, dst, t, (p.value(t),))
        if op == 'icmp' or op == 'fcmp':
            while p.peek() in FLAGS:
                p.next()
            pred = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst(op, dst, t, (a, b), pred)
        if op in CASTS:
            while p.peek() in FLAGS:
                p.next()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return Inst(op, dst, t2, (a,), t)
        if op == 'freeze':
            t = p.type(); return Inst(op, dst, t, (p.value(t),))
        if op == 'select':
            while p.peek() in FLAGS:
                p.next()
            ct = p.type(); c = p.value(ct); p.expect(',')
            t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
            return Inst(op, dst, t, (c, a, b), ct)
        if op == 'phi':
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect('['); v = p.value(t); p.expect(','); b = unq(p.next()); p.expect(']')
                inc[b] = v
                if not p.eat(','):
                    break
                if p.kind() == 'meta':
                    break
            return Inst(op, dst, t, inc)
        if op == 'br':
            t = p.type()
            if t is LABEL:
                return Inst(op, None, None, (unq(p.next()),))
            c = p.value(t); p.expect(','); p.type(); x = unq(p.next()); p.expect(','); p.type(); y = unq(p.next())
            return Inst('condbr', None, None, (c, x, y))
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.type(); d = unq(p.next()); p.expect('[')
            cases = []
            while not p.eat(']'):
                t2 = p.type(); c = p.value(t2); p.expect(','); p.type(); cases.append((c, unq(p.next())))
            return Inst(op, None, t, (v, d, cases))
        if op == 'ret':
            t = p.type()
            if t is VOID:
                return Inst(op, None, t, ())
            return Inst(op, None, t, (p.value(t),))
        if op == 'unreachable':
            return Inst(op, None, None, ())
        if op == 'resume':
            t = p.type(); return Inst(op, None, t, (p.value(t),))
        if op == 'load':
            while p.peek() in FLAGS:
                p.next()
            t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
            layout(t)
            return Inst(op, dst, t, (a,))
        if op == 'store':
            while p.peek() in FLAGS:
                p.next()
            t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
            layout(t)
            return Inst(op, None, t, (v, a))
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type(); n = 1
            layout(t)
            if p.eat(','):
                if p.peek() != 'align' and p.kind() == 'word' and p.peek()[0] == 'i':
                    it = p.type(); n = p.value(it)
            return Inst(op, dst, t, (n,))
        if op == 'getelementptr':
            while p.peek() in FLAGS or p.peek() == 'inrange':
                if p.next() == 'inrange':
                    p.skip_parens()
            base = p.type(); p.expect(','); pt = p.type(); ptr = p.value(pt)
            idx = []
            while p.eat(','):
                if p.kind() == 'meta':
                    break
                it = p.type(); idx.append((it, p.value(it)))
            # precompute: constant offset + list of (local, width, scale)
            layout(base)
            off = 0
            dyn = []
            t = base
            for j, (it, v) in enumerate(idx):
                if j == 0:
                    sc = base.size
                elif t.k == 'struct':
                    layout(t)
                    off += t.offs[v]
                    t = t.el[v]
                    continue
                else:
                    layout(t.el)
                    sc = t.el.size
                    t = t.el
                if isinstance(v, int):
                    off += sx(v, it.w) * sc
                else:
                    dyn.append((v, it.w, sc))
            return Inst(op, dst, PTR, (ptr,), (off, tuple(dyn)))
        if op == 'extractvalue':
            t = p.type(); v = p.value(t)
            idx = []
            while p.eat(','):
                if p.kind() != 'num':
                    break
                idx.append(int(p.next()))
            return Inst(op, dst, None, (v,), idx)
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); e = p.value(t2)
            idx = []
            while p.eat(','):
                if p.kind() != 'num':
                    break
                idx.append(int(p.next()))
            return Inst(op, dst, t, (v, e), idx)
        if op in ('call', 'invoke'):
            while p.peek() in FLAGS:
                p.next()
            p.attrs()
            if p.peek() == 'cc':
                p.next(); p.next()
            t = p.type()
            p.attrs()
            if p.peek() == '(':      # explicit function type (vararg)
                p.skip_parens()
            if p.peek() == 'asm':
                return Inst('asm', dst, t, ())
            if p.kind() == 'glob':
                callee = '@' + unq(p.next())
            else:
                callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.eat(')'):
                at = p.type()
                if at is META:
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x in '([{':
                            d += 1
                        elif x in ')]}':
                            d -= 1
                    args.append((META, 0, {}))
                    p.eat(',')
                    continue
                attrs = p.attrs()
                args.append((at, p.value(at), attrs))
                p.eat(',')
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next(); p.type(); n1 = unq(p.next()); p.expect('unwind'); p.type(); n2 = unq(p.next())
                return Inst('invoke', dst, t, (callee, args), (n1, n2))
            return Inst('call', dst, t, (callee, args))
        if op == 'landingpad':
            t = p.type()
            clauses = []
            cleanup = False
            while p.peek() in ('cleanup', 'catch', 'filter'):
                w = p.next()
                if w == 'cleanup':
                    cleanup = True
                else:
                    ct = p.type(); clauses.append((w, p.value(ct)))
            return Inst(op, dst, t, (clauses, cleanup))
        if op == 'fence':
            return Inst('nop', None, None, ())
        if op == 'atomicrmw':
            p.eat('volatile')
            k = p.next(); pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
            layout(t)
            return Inst(op, dst, t, (a, v), k)
        if op == 'cmpxchg':
            while p.peek() in ('weak', 'volatile'):
                p.next()
            pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); c = p.value(t); p.expect(','); p.type(); v = p.value(t)
            layout(t)
            return Inst(op, dst, t, (a, c, v))
        if op in ('va_arg', 'extractelement', 'insertelement', 'shufflevector',
                  'indirectbr', 'callbr', 'cleanupret', 'catchret'):
            return Inst('unsupported', dst, None, (op,))
        raise ParseError('instruction %r' % s)


def succs(ins):
    if ins.op == 'br':
        return [ins.a[0]]
    if ins.op == 'condbr':
        return [ins.a[1], ins.a[2]]
    if ins.op == 'switch':
        return [ins.a[1]] + [b for _, b in ins.a[2]]
    if ins.op == 'invoke':
        return list(ins.x)
    return []


def ipdoms(f):
    """Immediate post-dominators (blocks ending in unreachable/resume are ignored
    where possible)."""
    if f.ipdom is not None:
        return f.ipdom
    bl = list(f.blocks)
    EXIT = object()
    sc = {}
    for b in bl:
        t = f.blocks[b][-1]
        s = succs(t)
        if t.op == 'invoke':
            s = s[:1]
        if not s:
            s = [EXIT]
        sc[b] = s
    # drop edges into dead-end (unreachable/resume) blocks when alternatives exist
    dead = {b for b in bl if f.blocks[b][-1].op in ('unreachable', 'resume')}
    for b in bl:
        a = [x for x in sc[b] if x not in dead]
        if a:
            sc[b] = a
    pd = {b: None for b in bl}
    full = set(bl) | {EXIT}
    sets = {b: set(full) for b in bl}
    sets[EXIT] = {EXIT}
    ch = True
    while ch:
        ch = False
        for b in reversed(bl):
            n = set.intersection(*[sets[x] for x in sc[b]]) | {b}
            if n != sets[b]:
                sets[b] = n
                ch = True
    for b in bl:
        best = None
        for c in sets[b]:
            if c is EXIT or c == b:
                continue
            if best is None or len(sets[c]) > len(sets[best]):
                best = c
        pd[b] = best
    f.ipdom = pd
    return pd
