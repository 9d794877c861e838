"""JSON serializer.

For a string s of n bytes: E(i) is the size of the escaped text of its first i bytes and ET(k) byte k of the escaped text, both by recursion along the string.
Every operation is described by the text it adds to the buffer, when it is allowed, and what is left alone when it fails."""
from .common import *

ID = 'C13'
HARNESS = 'C13.cpp'
HARNESS_SRC = ['json/json_serializer.cpp']
BUDGET = 8
J = 'CubicleSoft::JSON::Serializer::'
ROOT1, ROOT2, OBJ1, OBJ2, ARR1, ARR2, STR = range(7)
MAXS = 1 << 40
QUOTE = bv(0x22, 8)
SHORT = {0x22: 0x22, 0x5c: 0x5c, 8: 0x62, 12: 0x66, 10: 0x6e, 13: 0x72, 9: 0x74}


def tus():
    return {'json': include('json/json_serializer.cpp')}


def b8(v):
    return bv(v, 8)


def frm(m, obj, start, n, fn):
    """bytes start .. start+n-1 of obj are fn(0) .. fn(n-1)"""
    return FA(64, lambda f: Implies(And(UGE(f, start), ULT(f, z3.simplify(start + n))), m.u8(Ptr(obj, f)) == fn(f - start)), pat=lambda f: [m.u8(Ptr(obj, f))])


class Str:
    """a string argument"""

    def __init__(self, x, st, name, counted=False, cn=None):
        self.x, self.counted, self.name = x, counted, name
        n = self.n = bvar(name + '.n') if cn is None else cn
        self.o = x.param_obj(st, name, 'bytes', n if counted else n + 1, const=True)
        self.id = self.o.id
        if not counted:
            self.o.cstr = (bv(0), n)
        self.E, self.T = x.uf('E_' + name, 64, 64), x.uf('T_' + name, 64, 8)
        if not hasattr(x, 'strs'):
            x.strs = {}
        x.strs[self.o.id] = self
        self.es = self.E(n)

    def up(self, i):
        return getattr(self, 'ab', self.E)(i)

    def ut(self, k):
        return getattr(self, 'at', self.T)(k)

    def order(self, i, l):
        if hasattr(self, 'ab'):
            A = self.ab
            return And(UGE(A(i), self.base), ULE(A(i), A(self.n)), ULE(A(i) + l, A(self.n)), ULE(A(self.n), bv(1 << 60)))
        return ULE(self.E(i) + l, self.E(self.n))

    def facts(self, m, sl, full):
        n, E, T, o = self.n, self.E, self.T, self.o.id
        B = lambda i: m.u8(Ptr(o, i))
        out = [('string size', And(ULE(n, MAXS), ULE(E(n), bv(6) * n)))]
        if not self.counted:
            out += [('C string', B(n) == 0), ('no terminator inside', FA(64, lambda f: Implies(ULT(f, n), B(f) != 0), pat=lambda f: [B(f)]))]
        if full:
            L = self.x.uf('L_' + self.name, 64, 64)

            def df(i):
                b = B(i)
                at = self.up(i)

                def put(*cs):
                    return And(L(i) == len(cs), *[self.ut(z3.simplify(at + k)) == (b8(c) if isinstance(c, int) else c) for k, c in enumerate(cs)])
                slash = And(b == 0x2f, sl)
                plain = And(UGE(b, 0x20), b != 0x22, b != 0x5c, Not(slash))
                ctrl = And(ULT(b, 0x20), *[b != k for k in SHORT if k < 0x20])
                lo = b & 15
                cl = [Implies(b == k, put(0x5c, v)) for k, v in SHORT.items()] + [Implies(slash, put(0x5c, 0x2f)), Implies(plain, put(b)), Implies(ctrl, put(0x5c, 0x75, 0x30, 0x30, z3.If(UGE(b, 0x10), b8(0x31), b8(0x30)), z3.If(ULT(lo, 10), lo + 0x30, lo + (0x61 - 10))))]
                return Implies(ULT(i, n), And(self.up(i + 1) == at + L(i), self.order(i, L(i)), *cl))
            out += [('empty prefix', E(bv(0)) == 0), ('escaped text by recursion', FA(64, df, pat=lambda i: [getattr(self, 'trig', E)(i)]))]
        return out


class Js(Contract):
    """common part: the representation and its invariant"""
    auto = False
    fresh = False
    full = False

    def init(self, x):
        d = x.M.di['Serializer']
        v = x.M.di['StaticVector<CubicleSoft::JSON::Serializer::ModeType>']['fields']
        f = {k: w[0] for k, w in d['fields'].items()}
        f['Modes'], f['Num'] = f['MxModes'] + v['ptr'][0], f['MxModes'] + v['Size'][0]
        self.f = f
        x.kind('ser', d['size'], [(f['Modes'], 'ptr'), (f['Num'], 'i64'), (f['MxModeDepth'], 'i64'), (f['MxBuffer'], 'ptr'), (f['MxBufferPos'], 'i64'), (f['MxBufferSize'], 'i64'), (f['MxEscapeSlashes'], 'i8'), (f['MxKeySplitter'], 'ptr'), (f['MxValSplitter'], 'ptr'), (f['MxKeySplitterLen'], 'i64'), (f['MxValSplitterLen'], 'i64')], False)
        x.kind('modes', 4, [(0, 'i32')], True)

    def setup(self, x, st, fn):
        f = self.f
        o = self.o = x.param_obj(st, 'this', 'ser')
        self.strs = []
        if self.fresh:
            return [o.ptr()] + self.more(x, st)
        N, bs, d = bvar('maxdepth'), bvar('room'), bvar('depth')
        st.assume(And(ULE(N, MAXS), UGE(N, 1), ULE(bs, MAXSZ)))
        self.md = x.param_obj(st, 'modes', 'modes', N * 4)
        self.bf = x.param_obj(st, 'buffer', 'bytes', bs + 1)
        m = st.mem
        for k, v in (('Num', N), ('MxBufferSize', bs), ('MxModeDepth', d)):
            m = m.st('i64', o.ptr(f[k]), v)
        m = m.st('ptr', o.ptr(f['Modes']), self.md.ptr()).st('ptr', o.ptr(f['MxBuffer']), self.bf.ptr())
        st.mem = m
        self.ks, self.vs = Str(x, st, 'keysplitter'), Str(x, st, 'valsplitter')
        for s, a, b in ((self.ks, 'MxKeySplitter', 'MxKeySplitterLen'), (self.vs, 'MxValSplitter', 'MxValSplitterLen')):
            st.mem = st.mem.st('ptr', o.ptr(f[a]), s.o.ptr()).st('i64', o.ptr(f[b]), s.n)
        self.strs += [self.ks, self.vs]
        return [o.ptr()] + self.more(x, st)

    def more(self, x, st):
        return []

    # ---- reading the representation
    def fld(self, c, m, n):
        return m.u64(c.args[0] + self.F(c)[n])

    def F(self, c):
        if not hasattr(self, 'f'):
            d = c.x.M.di['Serializer']
            v = c.x.M.di['StaticVector<CubicleSoft::JSON::Serializer::ModeType>']['fields']
            f = {k: w[0] for k, w in d['fields'].items()}
            f['Modes'], f['Num'] = f['MxModes'] + v['ptr'][0], f['MxModes'] + v['Size'][0]
            self.f = f
        return self.f

    def pos(self, c, m):
        return self.fld(c, m, 'MxBufferPos')

    def depth(self, c, m):
        return self.fld(c, m, 'MxModeDepth')

    def num(self, c, m):
        return self.fld(c, m, 'Num')

    def bsz(self, c, m):
        return self.fld(c, m, 'MxBufferSize')

    def obj(self, c, m, n):
        p = m.ptr(c.args[0] + self.F(c)[n])
        return p.obj

    def buf(self, c):
        return self.obj(c, c.old, 'MxBuffer')

    def modes(self, c):
        return self.obj(c, c.old, 'Modes')

    def mode(self, c, m, d=None):
        d = self.depth(c, m) if d is None else d
        return m.u32(Ptr(self.modes(c), d * 4))

    def sl(self, c, m):
        return m.u8(c.args[0] + self.F(c)['MxEscapeSlashes']) != 0

    def B(self, c, m, k):
        return m.u8(Ptr(self.buf(c), k))

    def str(self, c, p):
        s = getattr(c.x, 'strs', {}).get(num(p.obj))
        if s is None or num(z3.simplify(p.off)) != 0:
            raise Unsupported('unknown string argument')
        return s

    def split(self, c, which):
        return self.str(c, c.old.ptr(c.args[0] + self.F(c)[which]))

    def wf(self, c, m):
        md = self.modes(c)
        d, N, p, bs = self.depth(c, m), self.num(c, m), self.pos(c, m), self.bsz(c, m)
        md4 = lambda f: m.u32(Ptr(md, f))
        return [('depth within the nesting limit', And(ULT(d, N), ULE(N, MAXS))), ('position within the buffer', And(ULE(p, bs), ULE(bs, MAXSZ))),
                ('the outermost mode is the root', ULE(self.mode(c, m, bv(0)), 1)),
                ('inner modes are objects, arrays and strings', FA(64, lambda f: Implies(And(f != 0, (f & 3) == 0, ULE(f, d * 4)), And(UGE(md4(f), 2), ULE(md4(f), 6))), pat=lambda f: [md4(f)]))]

    def requires(self, c):
        out = []
        if not self.fresh:
            out += self.wf(c, c.old)
            if not c.caller:
                e = c.old.u8(c.args[0] + self.F(c)['MxEscapeSlashes'])
                out.append(('flag', ULE(e, 1)))
        if not c.caller:
            for s in self.strs:
                out += s.facts(c.old, None if self.fresh else self.sl(c, c.old), self.full and s is getattr(self, 'val', None))
        return out + self.req(c)

    def req(self, c):
        return []

    def modifies(self, c):
        f, a = self.F(c), c.args[0]
        d = self.depth(c, c.old)
        p = self.pos(c, c.old)
        return [Region(a.obj, a.off + f['MxBufferPos'], 8, ['i64']), Region(a.obj, a.off + f['MxModeDepth'], 8, ['i64']), Region(self.modes(c), d * 4, 8, ['i32']), Span(self.buf(c), p, self.bsz(c, c.old) + 1, ['i8'])]

    def ensures(self, c):
        return ([] if self.fresh else self.wf(c, c.new)) + self.ens(c)

    # ---- what an operation did
    def same(self, c, cond, mode=True):
        """nothing changed (when cond)"""
        b, o, m, p = self.buf(c), c.old, c.new, self.pos(c, c.old)
        out = [('failure leaves the position', Implies(cond, self.pos(c, m) == p)), ('failure leaves the depth', Implies(cond, self.depth(c, m) == self.depth(c, o))),
               ('failure leaves the mode', Implies(cond, And(self.mode(c, m, self.depth(c, o)) == self.mode(c, o)))),
               ('failure leaves the buffer', FA(64, lambda f: Implies(And(cond, ULE(f, self.bsz(c, o))), m.u8(Ptr(b, f)) == o.u8(Ptr(b, f))), pat=lambda f: [m.u8(Ptr(b, f))]))]
        return out

    def inmode(self, c, *ks):
        v = self.mode(c, c.old)
        return Or(*[v == k for k in ks])

    def prefix(self, c, key):
        """(legal, prefix length, facts about the prefix, next mode)"""
        o, m, p0 = c.old, c.new, self.pos(c, c.old)
        isnull = num(key.obj) == 0
        bad = [self.inmode(c, ROOT2, STR)]
        bad.append(self.inmode(c, OBJ1, OBJ2) if isnull else self.inmode(c, ROOT1, ARR1, ARR2))
        legal = Not(Or(*bad))
        nxt = self.inmode(c, OBJ2, ARR2)
        vs, ks = self.split(c, 'MxValSplitter'), self.split(c, 'MxKeySplitter')
        vl = z3.If(nxt, vs.n, bv(0))
        b = self.buf(c)
        src = lambda s: (lambda k: o.u8(Ptr(s.id, k)))
        cuts = [p0, p0 + vl]
        out = [('separator before the value', 'F', lambda: frm(m, b, p0, vl, src(vs)))]
        ln = vl
        if not isnull:
            k = self.str(c, key)
            q = p0 + vl
            ln = vl + k.es + 2 + ks.n
            cuts += [q + 1, q + 1 + k.es, q + 2 + k.es, q + 2 + k.es + ks.n]
            out += [('opening quote of the key', 'Q', lambda: self.B(c, m, q) == QUOTE), ('escaped key', 'F', lambda: frm(m, b, q + 1, k.es, k.T)), ('closing quote of the key', 'Q', lambda: self.B(c, m, q + 1 + k.es) == QUOTE), ('key splitter', 'F', lambda: frm(m, b, q + 2 + k.es, ks.n, src(ks)))]
        out.append(('parts follow each other', 'O', lambda: And(*[ULE(a, b) if i % 2 == 0 else ULT(a, b) for i, (a, b) in enumerate(zip(cuts, cuts[1:]))])))
        v = self.mode(c, o)
        nm = z3.If(v == ROOT1, c32(ROOT2), z3.If(v == OBJ1, c32(OBJ2), z3.If(v == ARR1, c32(ARR2), v)))
        return legal, ln, out, nm

    def pieces(self, c, fs):
        return [(nm, Imp(c.ret, g())) for nm, k, g in fs]

    def fitting(self, c, n):
        return ULE(self.pos(c, c.old) + n, self.bsz(c, c.old))

    def rest(self, c, cond, e):
        """bytes after position e are unchanged"""
        b, o, m = self.buf(c), c.old, c.new
        return ('nothing after the terminator changes', FA(64, lambda f: Implies(And(cond, UGT(f, e), ULE(f, self.bsz(c, o))), m.u8(Ptr(b, f)) == o.u8(Ptr(b, f))), pat=lambda f: [m.u8(Ptr(b, f))]))


def c32(v):
    return bv(v, 32)


class Keyed:
    """functions whose first argument is a key"""
    withkey = False

    def key_setup(self, x, st):
        if not self.withkey:
            return NULL
        self.key = Str(x, st, 'key')
        self.strs.append(self.key)
        return self.key.o.ptr()


class Calc(Js):
    """CalculateStrSize"""
    full = True

    def __init__(self, counted):
        self.counted = counted
        self.short = 'CalculateStrSize'

    def more(self, x, st):
        s = self.val = Str(x, st, 'val', self.counted)
        self.strs.append(s)
        return [s.o.ptr()] + ([s.n] if self.counted else []) + [z3.Bool('AddKeySplitter')]

    def req(self, c):
        if not c.caller:
            return []
        s = self.str(c, c.args[1])
        return [('whole string', c.args[2] == s.n)] if self.counted else [('a C string', z3.BoolVal(not s.counted))]

    def modifies(self, c):
        return []

    def ens(self, c):
        s = self.str(c, c.args[1])
        q = z3.If(self.inmode(c, STR), bv(0), bv(2))
        return [('size of the escaped text, quotes included', c.ret == q + s.es + z3.If(c.args[-1], self.split(c, 'MxKeySplitter').n, bv(0)))]

    def poss(self, L):
        n, s = self.val.n, self.val
        for k, v in L.head.vals.items():
            if not isinstance(k, str):
                continue
            try:
                e = L.entryview[k]
            except Exception:
                continue
            if isinstance(v, Ptr):
                if isinstance(e, Ptr) and num(e.obj) == s.id:
                    yield k, (lambda w, k=k: w[k].off)
            elif z3.is_bv(v) and v.size() == 64:
                if num(z3.simplify(e)) == 0:
                    yield k, (lambda w, k=k: w[k])
                elif num(z3.simplify(e - n)) == 0:
                    yield k, (lambda w, k=k: n - w[k])

    def inv(self, c, L):
        out = []
        s = self.val
        for k, p in self.poss(L):
            out += [('position in range', lambda w, p=p: ULE(p(w), s.n)), ('size so far bounded', lambda w, p=p: ULE(s.up(p(w)), s.up(s.n)))]
            if isinstance(L.head.vals[k], Ptr):
                out.append(('same string', lambda w, k=k: w[k].obj == bv(s.id)))
            for k2, v2 in L.head.vals.items():
                if isinstance(k2, str) and z3.is_bv(v2) and v2.size() == 64:
                    e2 = L.entryview[k2]
                    out.append(('size so far', lambda w, p=p, k2=k2: w[k2] == L.entryview[k2] + s.E(p(w))))
                    out.append(('rest of the string', lambda w, p=p, k2=k2: w[k2] == s.n - p(w)))
        return out

    def measures(self, x, L):
        return [('rest', lambda w, p=p: self.val.n - p(w)) for _, p in self.poss(L)]


class Put(Calc):
    """InternalAppendStr"""

    def __init__(self, counted, instr=None):
        self.counted, self.instr = counted, instr
        self.short = 'InternalAppendStr'

    def more(self, x, st):
        a = Calc.more(self, x, st)[:-1]
        # sizes and text by absolute position in the buffer: E(i) = A(i) - base, T(k) = TA(base + k)
        s, m = self.val, st.mem
        base = m.u64(self.o.ptr(self.f['MxBufferPos'])) + (0 if self.instr else 1)
        A, TA = x.uf('A_val', 64, 64), x.uf('TA_val', 64, 8)
        s.E, s.T = (lambda i: z3.simplify(A(i) - base)), (lambda k: TA(z3.simplify(base + k)))
        s.trig = s.ab = A
        s.at = TA
        s.base = base
        s.es = s.E(s.n)
        v = m.u32(Ptr(bv(self.md.id), m.u64(self.o.ptr(self.f['MxModeDepth'])) * 4))
        st.assume((v == STR) == self.instr)
        return a

    def q(self, c):
        if not c.caller:
            return bv(0 if self.instr else 1)
        return z3.If(self.inmode(c, STR), bv(0), bv(1))

    def req(self, c):
        s = self.str(c, c.args[1])
        q = self.q(c)
        return Calc.req(self, c) + [('room for the text', ULE(self.pos(c, c.old) + s.es + q + q, self.bsz(c, c.old)))]

    def modifies(self, c):
        f, a, p, q = self.F(c), c.args[0], self.pos(c, c.old), self.q(c)
        return [Region(a.obj, a.off + f['MxBufferPos'], 8, ['i64']), Span(self.buf(c), p, p + self.str(c, c.args[1]).es + q + q + 1, ['i8'])]

    def ens(self, c):
        s, m = self.str(c, c.args[1]), c.new
        p, q = self.pos(c, c.old), self.q(c)
        e = p + s.es + q + q
        quoted = Not(self.inmode(c, STR))
        return [('position', self.pos(c, m) == e), ('opening quote', Implies(quoted, self.B(c, m, p) == QUOTE)), ('escaped text', frm(m, self.buf(c), p + q, s.es, s.T)), ('closing quote', Implies(quoted, self.B(c, m, e - 1) == QUOTE)), ('terminator', self.B(c, m, e) == 0)]

    def inv(self, c, L):
        out = []
        s, p0, q = self.val, self.pos(c, c.old), self.q(c)
        for k, p in self.poss(L):
            out += [('position in range', lambda w, p=p: ULE(p(w), s.n)), ('size so far bounded', lambda w, p=p: ULE(s.up(p(w)), s.up(s.n))),
                    ('output position', lambda w, p=p: self.pos(c, w.mem) == z3.simplify(p0 + q + s.E(p(w)))), ('text so far', lambda w, p=p: frm(w.mem, self.buf(c), p0 + q, s.E(p(w)), s.T))]
            if isinstance(L.head.vals[k], Ptr):
                out.append(('same string', lambda w, k=k: w[k].obj == bv(s.id)))
            for k2, v2 in L.head.vals.items():
                if isinstance(k2, str) and z3.is_bv(v2) and v2.size() == 64:
                    out.append(('rest of the string', lambda w, p=p, k2=k2: w[k2] == s.n - p(w)))
        out.append(('opening quote', lambda w: Implies(q == 1, self.B(c, w.mem, p0) == QUOTE)))
        out.append(('mode', lambda w: self.mode(c, w.mem, self.depth(c, c.old)) == self.mode(c, c.old)))
        return out


class Raw(Calc):
    """Append(Val, Size)"""
    full = False
    counted = True

    def __init__(self, null=False):
        self.short = 'Append'
        self.null = null

    def more(self, x, st):
        n = bvar('Size')
        self.n = n
        if self.null:
            return [NULL, n]
        s = self.val = Str(x, st, 'val', True, n)
        self.strs.append(s)
        return [s.o.ptr(), n]

    def req(self, c):
        n = c.args[2]
        if num(c.args[1].obj) == 0:
            return []
        s = self.str(c, c.args[1])
        return [('readable', And(ULE(n, s.n), ULE(n, MAXS)))]

    def modifies(self, c):
        return Js.modifies(self, c) if not c.caller else Js.modifies(self, c)[:1] + Js.modifies(self, c)[3:]

    def ens(self, c):
        n, o, m, p = c.args[2], c.old, c.new, self.pos(c, c.old)
        isn = num(c.args[1].obj) == 0
        ok = And(self.fitting(c, n), z3.BoolVal(not isn))
        if isn:
            return [('a null pointer is refused', Not(c.ret))] + self.same(c, Not(c.ret))
        s = self.str(c, c.args[1])
        keep = [('depth', self.depth(c, m) == self.depth(c, o)), ('mode', self.mode(c, m, self.depth(c, o)) == self.mode(c, o))]
        return [('succeeds exactly when it fits', c.ret == ok), ('position', Implies(c.ret, self.pos(c, m) == p + n)), ('the bytes are copied', Imp(c.ret, frm(m, self.buf(c), p, n, lambda k: o.u8(Ptr(s.id, k))))), ('terminator', Implies(c.ret, self.B(c, m, p + n) == 0)), self.rest(c, c.ret, p + n)] + keep + self.same(c, Not(c.ret))

    def inv(self, c, L):
        out = []
        if self.null:
            return out
        s, p0 = self.val, self.pos(c, c.old)
        b, o = self.buf(c), c.old
        for k, p in self.poss(L):
            out += [('position in range', lambda w, p=p: ULE(p(w), s.n)), ('output position', lambda w, p=p: self.pos(c, w.mem) == p0 + p(w)), ('text so far', lambda w, p=p: frm(w.mem, b, p0, p(w), lambda k: o.u8(Ptr(s.id, k)))),
                    ('rest unchanged', lambda w, p=p: FA(64, lambda f: Implies(And(UGE(f, p0 + p(w)), ULE(f, self.bsz(c, o))), w.mem.u8(Ptr(b, f)) == o.u8(Ptr(b, f))), pat=lambda f: [w.mem.u8(Ptr(b, f))]))]
            if isinstance(L.head.vals[k], Ptr):
                out.append(('same string', lambda w, k=k: w[k].obj == bv(s.id)))
            for k2, v2 in L.head.vals.items():
                if isinstance(k2, str) and z3.is_bv(v2) and v2.size() == 64:
                    out.append(('rest of the string', lambda w, p=p, k2=k2: w[k2] == s.n - p(w)))
        out.append(('depth and modes', lambda w: And(self.depth(c, w.mem) == self.depth(c, o), self.mode(c, w.mem, self.depth(c, o)) == self.mode(c, o))))
        return out


class Prefix(Js, Keyed):
    """InternalAppendNextPrefix"""

    def __init__(self, withkey):
        self.short, self.withkey = 'InternalAppendNextPrefix', withkey

    def more(self, x, st):
        return [self.key_setup(x, st), bvar('ExtraSpace')]

    def req(self, c):
        return [('size', ULE(c.args[2], MAXSZ))]

    def ens(self, c):
        o, m, p0 = c.old, c.new, self.pos(c, c.old)
        legal, ln, fs, nm = self.prefix(c, c.args[1])
        d = self.depth(c, o)
        return [('allowed and fits', c.ret == And(legal, self.fitting(c, ln + c.args[2]))), ('position', Implies(c.ret, self.pos(c, m) == p0 + ln)), ('depth', self.depth(c, m) == d), ('next mode', Implies(c.ret, self.mode(c, m, d) == nm)), self.rest(c, c.ret, p0 + ln)] + self.pieces(c, fs) + self.same(c, Not(c.ret))

    def modifies(self, c):
        r = Js.modifies(self, c)
        return [r[0], Region(self.modes(c), self.depth(c, c.old) * 4, 4, ['i32']), r[3]]


class Value(Js, Keyed):
    """Append* / Start*: a value after its prefix"""
    soft = 0

    def __init__(self, short, withkey):
        self.short, self.withkey = short, withkey

    def more(self, x, st):
        return [self.key_setup(x, st)] + self.args(x, st)

    def args(self, x, st):
        return []

    def ok(self, c):
        return z3.BoolVal(True)

    def text(self, c):
        """(length, character function)"""
        t = {'StartObject': '{', 'StartArray': '[', 'StartStr': '"', 'AppendNull': 'null'}[self.short]
        return self.lit(t)

    def lit(self, t):
        def fn(k):
            r = b8(ord(t[-1]))
            for j in reversed(range(len(t) - 1)):
                r = z3.If(k == j, b8(ord(t[j])), r)
            return r
        return bv(len(t)), fn

    def vfacts(self, c, q):
        n, fn = self.text(c)
        return [('the value', 'F', lambda: frm(c.new, self.buf(c), q, n, fn))]

    def ens(self, c):
        o, m, p0 = c.old, c.new, self.pos(c, c.old)
        legal, ln, fs, nm = self.prefix(c, c.args[1])
        vl, _ = self.text(c)
        d = self.depth(c, o)
        start = self.short.startswith('Start')
        deep = ULT(d + 1, self.num(c, o)) if start else z3.BoolVal(True)
        e = p0 + ln + vl
        can = And(legal, deep, self.ok(c), self.fitting(c, ln + vl))
        r = [('succeeds only when allowed and the text fits', Implies(c.ret, can)), ('fails only when not allowed or the text does not fit', Implies(And(can, self.fitting(c, ln + vl + self.soft)), c.ret)), ('position', Implies(c.ret, self.pos(c, m) == e)), ('next mode', Implies(c.ret, self.mode(c, m, d) == nm)), ('terminator', Implies(c.ret, self.B(c, m, e) == 0)), self.rest(c, c.ret, e)]
        r += self.pieces(c, fs + self.vfacts(c, p0 + ln)) + self.same(c, Not(c.ret))
        if start:
            r += [('one level deeper', Implies(c.ret, And(self.depth(c, m) == d + 1, self.mode(c, m, d + 1) == {'StartObject': OBJ1, 'StartArray': ARR1, 'StartStr': STR}[self.short])))]
        else:
            r += [('depth', self.depth(c, m) == d)]
        return r


class Bool(Value):
    def args(self, x, st):
        return [z3.Bool('Val')]

    @property
    def soft(self):
        return z3.If(self.v, bv(1), bv(0))

    def text(self, c):
        v = self.v = c.args[2]
        (n1, f1), (n0, f0) = self.lit('true'), self.lit('false')
        return z3.If(v, n1, n0), lambda k: z3.If(v, f1(k), f0(k))


class Int(Value):
    """AppendInt, AppendUInt: NL/NT are the text which IntToString is proved to produce (C01)"""

    def args(self, x, st):
        return [bvar('Val')]

    def nl(self, x, v):
        return x.uf('NL' + self.short, 64, 64)(v)

    def ok(self, c):
        return ULT(self.nl(c.x, c.args[2]), 44)

    def text(self, c):
        v = c.args[2]
        return self.nl(c.x, v), lambda k: c.x.uf('NT' + self.short, 64, 64, 8)(v, k)


class IToS(Contract):
    """IntToString(Result, Size, Num), as proved in C01, its text abbreviated"""
    short = 'IntToString'

    def __init__(self, of):
        self.of = of

    def requires(self, c):
        R, size = c.args[0], c.args[1]
        return [('buffer of Size bytes is writable', And(c.x.inb(R.off, size, c.x.oszf(R.obj)), c.old.alive(R.obj), ULE(size, MAXSZ)))]

    def modifies(self, c):
        return [Region(c.args[0].obj, c.args[0].off, c.args[1], 'i8')]

    def ensures(self, c):
        R, size, v = c.args
        x, m = c.x, c.new
        n, T = x.uf('NL' + self.of, 64, 64)(v), x.uf('NT' + self.of, 64, 64, 8)
        c.tot = n
        return [('succeeds exactly when it fits', c.ret == ULT(n, size)), ('some digits', UGE(n, 1)), ('text', FA(64, lambda f: Implies(And(c.ret, ULT(f - R.off, n)), And(m.u8(Ptr(R.obj, f)) == T(v, f - R.off), m.u8(Ptr(R.obj, f)) != 0)), pat=lambda f: [m.u8(Ptr(R.obj, f))])), ('terminated', Implies(c.ret, m.u8(Ptr(R.obj, R.off + n)) == 0))]

    def after(self, c):
        oid = num(c.args[0].obj)
        if oid in c.x.objs:
            c.x.objs[oid].cstr = (c.args[0].off, c.tot)


class Dbl(Value):
    """AppendDouble: the text is snprintf's, which is given the value, the precision and enough room"""

    def args(self, x, st):
        self.fp = bvar('Val')
        self.prec = bvar('Precision')
        self.DL, self.DT = bvar('text.n'), x.uf('DT', 64, 8)
        st.assume(And(UGE(self.DL, 1), ULT(self.DL, 100)))
        x.dbl = self
        return [self.fp, self.prec]

    def ok(self, c):
        return z3.Extract(62, 52, self.fp) != bv(0x7ff, 11)

    def text(self, c):
        return self.DL, self.DT


def b_snprintf(x, st, a, i):
    """snprintf(buf, n, "%.*g", precision, value): a number of at most precision + 7 characters"""
    D = x.dbl
    buf, n = a[0], a[1]
    fo = num(a[2].obj)
    fmt = [k for k, g in x.globs.items() if g.id == fo]
    text = x.M.globals[fmt[0]].init.v if fmt else None
    if text not in (b'%1.*g\0', b'%.*g\0'):
        raise Unsupported('format of a double')
    p = z3.ZeroExt(32, a[3])
    x.oblige(st, a[4] == D.fp, 'the value given is the one formatted', 'post', i)
    x.oblige(st, Or(p == D.prec, And(UGE(D.prec, 90), UGE(p, 90))), 'the precision asked for is used', 'post', i)
    x.oblige(st, And(a[3] >= 0, ULT(p + 7, n), ULE(n, bv(1 << 20))), 'the buffer holds every text of that precision', 'post', i)
    if not x.dry:
        x._range_access(st, buf, n, True, i, n != 0)
    ln = D.DL
    havoc_region(x, st, [Region(buf.obj, buf.off, n, ['i8'])], i)
    m = st.mem
    st.assume(m.u8(buf + ln) == 0)
    st.assume(FA(64, lambda f: Implies(ULT(f - buf.off, ln), And(m.u8(Ptr(buf.obj, f)) != 0, m.u8(Ptr(buf.obj, f)) == D.DT(f - buf.off))), pat=lambda f: [m.u8(Ptr(buf.obj, f))]))
    oid = num(buf.obj)
    if oid in x.objs:
        x.objs[oid].cstr = (buf.off, ln)
    return bvar(uid('snpr'), 32)


class Text(Value):
    """AppendStr"""

    def __init__(self, withkey, counted, null=False):
        self.short, self.withkey, self.counted, self.null = 'AppendStr', withkey, counted, null

    def args(self, x, st):
        if self.null:
            return [NULL] + ([bvar('Size')] if self.counted else [])
        s = self.val = Str(x, st, 'val', self.counted)
        self.strs.append(s)
        return [s.o.ptr()] + ([s.n] if self.counted else [])

    def ens(self, c):
        if num(c.args[2].obj) == 0:
            return [('a null pointer is refused', Not(c.ret))] + self.same(c, Not(c.ret))
        o, m, p0 = c.old, c.new, self.pos(c, c.old)
        s = self.str(c, c.args[2])
        legal, ln, fs, nm = self.prefix(c, c.args[1])
        instr = self.inmode(c, STR)
        d = self.depth(c, o)
        pl = z3.If(instr, bv(0), ln)
        q = z3.If(instr, bv(0), bv(1))
        e = p0 + pl + s.es + q + q
        b = self.buf(c)
        st = p0 + pl
        inn = And(c.ret, Not(instr))
        r = [('succeeds exactly when allowed and the text fits', c.ret == And(Or(instr, legal), self.fitting(c, pl + s.es + q + q))), ('position', Implies(c.ret, self.pos(c, m) == e)), ('depth', self.depth(c, m) == d), ('next mode', Implies(c.ret, self.mode(c, m, d) == nm)), ('terminator', Implies(c.ret, self.B(c, m, e) == 0)), self.rest(c, c.ret, e)]
        r += [(nm_, Imp(inn, g())) for nm_, k, g in fs]
        r += [('opening quote', Implies(inn, self.B(c, m, st) == QUOTE)), ('escaped text', Imp(c.ret, frm(m, b, st + q, s.es, s.T))), ('closing quote', Implies(inn, self.B(c, m, e - 1) == QUOTE))]
        return r + self.same(c, Not(c.ret))


class End(Js):
    def __init__(self, short):
        self.short = short
        self.ks, self.ch = {'EndObject': ((OBJ1, OBJ2), '}'), 'EndArray': ((ARR1, ARR2), ']'), 'EndStr': ((STR,), '"')}[short]

    def setup(self, x, st, fn):
        ks = self.ks
        r = Js.setup(self, x, st, fn)
        self.ksp, self.ks = self.ks, ks
        return r

    def modifies(self, c):
        r = Js.modifies(self, c)
        return [r[0], r[1], r[3]]

    def ens(self, c):
        o, m, p0, d = c.old, c.new, self.pos(c, c.old), self.depth(c, c.old)
        b = self.buf(c)
        ks, ch = {'EndObject': ((OBJ1, OBJ2), '}'), 'EndArray': ((ARR1, ARR2), ']'), 'EndStr': ((STR,), '"')}[self.short]
        return [('succeeds exactly when open and there is room', c.ret == And(self.inmode(c, *ks), self.fitting(c, bv(1)))), ('position', Implies(c.ret, self.pos(c, m) == p0 + 1)), ('closing character', Implies(c.ret, self.B(c, m, p0) == ord(ch))), ('terminator', Implies(c.ret, self.B(c, m, p0 + 1) == 0)), ('one level up', Implies(c.ret, self.depth(c, m) == d - 1)), self.rest(c, c.ret, p0 + 1)] + self.same(c, Not(c.ret))


class Finish(Js):
    short = 'Finish'

    def modifies(self, c):
        r = Js.modifies(self, c)
        return [r[0], r[1], r[3]]

    def closers(self, c, m, p):
        """bytes p0 .. p-1 close the levels depth0, depth0-1, ..."""
        b, o = self.buf(c), c.old
        p0, d0 = self.pos(c, o), self.depth(c, o)

        def ch(f):
            v = self.mode(c, o, d0 - (f - p0))
            return z3.If(v == STR, QUOTE, z3.If(UGE(v, ARR1), b8(0x5d), b8(0x7d)))
        return FA(64, lambda f: Implies(And(UGE(f, p0), ULT(f, p)), m.u8(Ptr(b, f)) == ch(f)), pat=lambda f: [m.u8(Ptr(b, f))])

    def ens(self, c):
        o, m, p0, d0 = c.old, c.new, self.pos(c, c.old), self.depth(c, c.old)
        p1 = self.pos(c, m)
        return [('succeeds exactly when there is room for all closing characters', c.ret == self.fitting(c, d0)), ('all levels closed', Implies(c.ret, And(self.depth(c, m) == 0, p1 == p0 + d0))), ('as many levels closed as characters written', And(UGE(p1, p0), p1 - p0 == d0 - self.depth(c, m))), ('each level closed by its character, innermost first', self.closers(c, m, p1)), ('terminator', Implies(p1 != p0, self.B(c, m, p1) == 0)), ('failure only with a full buffer', Implies(Not(c.ret), p1 == self.bsz(c, o)))]

    def inv(self, c, L):
        o, p0, d0 = c.old, self.pos(c, c.old), self.depth(c, c.old)
        P, D = lambda w: self.pos(c, w.mem), lambda w: self.depth(c, w.mem)
        out = [('fixed fields', lambda w: And(self.num(c, w.mem) == self.num(c, o), self.bsz(c, w.mem) == self.bsz(c, o))), ('levels', lambda w: ULE(D(w), d0)), ('characters', lambda w: UGE(P(w), p0)), ('levels and characters', lambda w: P(w) == p0 + (d0 - D(w))), ('room', lambda w: ULE(P(w), self.bsz(c, o))), ('closed so far', lambda w: self.closers(c, w.mem, P(w))), ('terminator', lambda w: Implies(P(w) != p0, self.B(c, w.mem, P(w)) == 0))]
        return out

    def measures(self, x, L):
        c = x.ctx
        return [('open levels', lambda w: self.depth(c, w.mem))]


class Simple(Js):
    def __init__(self, short):
        self.short = short
        self.fresh = short == 'Serializer'

    def more(self, x, st):
        if self.short == 'Serializer':
            st.assume(And(UGE(bvar('MaxDepth'), 1), ULE(bvar('MaxDepth'), MAXS)))
            a, b = Str(x, st, 'k'), Str(x, st, 'v')
            self.strs += [a, b]
            self.a, self.b = a, b
            return [z3.Bool('esc'), a.o.ptr(), b.o.ptr(), bvar('MaxDepth')]
        if self.short == 'SetBuffer':
            n = bvar('BufferSize')
            st.assume(And(UGE(n, 1), ULE(n, MAXSZ)))
            self.nb = x.param_obj(st, 'newbuffer', 'bytes', n)
            return [self.nb.ptr(), n]
        return []

    def modifies(self, c):
        f, a = self.F(c), c.args[0]
        if self.fresh:
            return [Region(a.obj)]
        if self.short == 'SetBuffer':
            return [Region(a.obj, a.off + f['MxBufferPos'], 16, ['i64']), Region(a.obj, a.off + f['MxBuffer'], 8, ['ptr'])]
        return [Region(a.obj, a.off + f['MxBufferPos'], 8, ['i64']), Region(a.obj, a.off + f['MxModeDepth'], 8, ['i64']), Region(self.modes(c), bv(0), 4, ['i32'])]

    def ensures(self, c):
        m, f, a = c.new, self.F(c), c.args[0]
        if self.fresh:
            v = m.ptr(a + f['Modes'])
            return [('starts at the root', And(self.depth(c, m) == 0, m.u32(v) == ROOT1)), ('nesting limit', And(self.num(c, m) == c.args[4], c.x.oszf(v.obj) == c.args[4] * 4, m.alive(v.obj), v.off == 0)), ('no buffer', And(self.pos(c, m) == 0, self.bsz(c, m) == 0)), ('flag', self.sl(c, m) == c.args[1]),
                    ('splitters', And(m.ptr(a + f['MxKeySplitter']).eq(c.args[2]), m.ptr(a + f['MxValSplitter']).eq(c.args[3]), self.fld(c, m, 'MxKeySplitterLen') == self.a.n, self.fld(c, m, 'MxValSplitterLen') == self.b.n))]
        if self.short == 'SetBuffer':
            return [('new buffer, last byte kept for the terminator', And(m.ptr(a + f['MxBuffer']).eq(c.args[1]), self.bsz(c, m) + 1 == c.args[2], self.pos(c, m) == 0))]
        return self.wf(c, m) + [('back at the root', And(self.pos(c, m) == 0, self.depth(c, m) == 0, self.mode(c, m, bv(0)) == ROOT1))]


def newkind(x, i, n):
    return 'modes'


def jobs(mods):
    out = []
    O = dict(fork=True, hrl=6, inst=True, fresh=1500, intfirst=6000, new_kind=newkind)

    def job(sig, con, label='', **k):
        k.setdefault('opts', O)
        out.append(dict(tu='json', fn=J + sig, con=con, label=label, **k))
    CP = 'char const*'
    calc = [(J + 'CalculateStrSize(%s, bool)' % CP, Calc(False)), (J + 'CalculateStrSize(%s, unsigned long, bool)' % CP, Calc(True))]
    put = [(J + 'InternalAppendStr(%s)' % CP, Put(False)), (J + 'InternalAppendStr(%s, unsigned long)' % CP, Put(True))]
    raw = [(J + 'Append(%s, unsigned long)' % CP, Raw())]
    pre = [(J + 'InternalAppendNextPrefix(%s, unsigned long)' % CP, Prefix(False))]
    ends = [(J + n + '()', End(n)) for n in ('EndObject', 'EndArray', 'EndStr')]
    for fn, con in calc:
        job(fn[len(J):], con)
    for fn, con in put:
        for instr in (False, True):
            job(fn[len(J):], Put(con.counted, instr), 'inside a string' if instr else 'quoted')
    job('Append(%s, unsigned long)' % CP, Raw(), 'data')
    job('Append(%s, unsigned long)' % CP, Raw(True), 'null')
    for k in (False, True):
        t = 'with key' if k else 'without key'
        job('InternalAppendNextPrefix(%s, unsigned long)' % CP, Prefix(k), t, contracts=calc + put + raw)
        for n in ('StartObject', 'StartArray', 'StartStr', 'AppendNull'):
            job(n + '(%s)' % CP, Value(n, k), t, contracts=pre)
        job('AppendBool(%s, bool)' % CP, Bool('AppendBool', k), t, contracts=pre)
        for n, ty in (('AppendInt', 'long'), ('AppendUInt', 'unsigned long')):
            job('%s(%s, %s)' % (n, CP, ty), Int(n, k), t, contracts=pre + [(J + 'IntToString(char*, unsigned long, %s)' % ty, IToS(n))])
        job('AppendDouble(%s, double, unsigned long)' % CP, Dbl('AppendDouble', k), t, contracts=pre, builtins={'snprintf': b_snprintf}, opts=dict(O, fp=True))
        for cnt in (False, True):
            for nul in (False, True):
                job('AppendStr(%s, %s%s)' % (CP, CP, ', unsigned long' if cnt else ''), Text(k, cnt, nul), t + (' null' if nul else ''), contracts=pre + calc + put)
    for fn, con in ends:
        job(fn[len(J):], con)
    job('Finish()', Finish(), contracts=ends)
    job('Reset()', Simple('Reset'))
    job('SetBuffer(unsigned char*, unsigned long)', Simple('SetBuffer'))
    job('Serializer(bool, %s, %s, unsigned long)' % (CP, CP), Simple('Serializer'))
    return out


ASSUME = ['a buffer of at least one byte is set, buffers and data are at most 2^46 and strings 2^40 bytes, the nesting limit at least 1', 'strings and splitters do not lie inside the buffer', 'snprintf("%.*g") writes at most precision + 7 characters and that text', 'digits of integers: as proved by C01']
