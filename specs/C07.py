from .common import *

ID = 'C07'
HARNESS = 'C07.cpp'
HARNESS_SRC = ['templates/cache.cpp', 'templates/detachable_ordered_hash.cpp', 'templates/packed_ordered_hash.cpp']
HARNESS_FLAGS = ['-fno-sanitize=alignment']
BUDGET = 3
MAXL = 1 << 40


def tus():
    return {'cache': include('templates/cache.cpp'), 'oh': include('templates/detachable_ordered_hash.cpp'), 'poh': include('templates/packed_ordered_hash.cpp')}


def lit(v):
    return bv(v)


class Djb2Str(Contract):
    """H(0)=5381, H(i+1) = H(i)*33 xor c_i  over the characters up to the terminator"""
    short = 'GetHashKey(char *)'

    def setup(self, x, st, f):
        n = bvar('len')
        self.n = n
        self.o = x.param_obj(st, 'Str', 'bytes', n + 1, const=True)
        self.H = x.uf('H64', 64, 64)
        return [self.o.ptr()]

    def ch(self, m, f):
        return m.u8(Ptr(self.o.id, f))

    def requires(self, c):
        m, H = c.old, self.H
        return [('length', ULE(self.n, MAXL)), ('terminated', self.ch(m, self.n) == 0),
                ('no earlier terminator', FA(64, lambda f: Implies(ULT(f, self.n), self.ch(m, f) != 0), pat=lambda f: [self.ch(m, f)])),
                ('definition of H', And(H(bv(0)) == 5381, as_fact(FA(64, lambda f: Implies(ULT(f, self.n), H(f + 1) == ((H(f) << 5) + H(f)) ^ z3.SignExt(56, self.ch(m, f))), pat=lambda f: [self.ch(m, f)]))))]

    def modifies(self, c):
        return []

    def ensures(self, c):
        return [('the key is the djb2 hash of the whole string', c.ret == self.H(self.n))]

    def refs(self, c):
        return [('len', self.n)]

    def inv(self, c, L):
        out = []
        vs = L.head.vals
        for k, v in vs.items():
            if isinstance(v, Ptr):
                for k2, v2 in vs.items():
                    if z3.is_bv(v2) and v2.size() == 64:
                        out.append(('hash so far', lambda w, k=k, k2=k2: w[k2] == self.H(w[k].off)))
        return out


class Djb(Contract):
    """32-bit: H(0)=seed; per 4-byte block H = H*33 xor block; then the left over bytes from the last to the first"""

    def __init__(self, seed):
        self.seed = seed
        self.short = 'DJBX33X'

    def init(self, x):
        x.kind('dual', 1, [(0, 'i8'), (0, 'i32'), (0, 'i64')], True)

    def setup(self, x, st, f):
        n = self.n = bvar('Size')
        self.o = x.param_obj(st, 'Str', 'dual', n, const=True)
        self.H = x.uf('H32', 64, 32)
        a = [self.o.ptr(), n]
        if self.seed:
            a.append(bvar('InitVal'))
        return a

    def requires(self, c):
        m, H = c.old, self.H
        s0 = z3.Extract(31, 0, c.args[2]) if self.seed else bv(5381, 32)
        W = lambda f: m.u32(Ptr(self.o.id, f))
        return [('length', ULE(self.n, MAXL)), ('definition of H', And(H(bv(0)) == s0, as_fact(FA(64, lambda f: Implies(And(ULT(f, self.n), (f & 3) == 0), H(f + 4) == ((H(f) << 5) + H(f)) ^ W(f)), pat=lambda f: [W(f)]))))]

    def modifies(self, c):
        return []

    def ensures(self, c):
        m = c.old
        e = self.n & ~bv(3)
        r = self.n & 3
        B = lambda k: z3.ZeroExt(24, m.u8(Ptr(self.o.id, e + k)))
        out = []
        for q in range(4):
            h = self.H(e)
            for k in reversed(range(q)):
                h = ((h << 5) + h) ^ B(k)
            out.append(('the key is the block hash followed by the left over bytes (%d left)' % q, Implies(r == q, c.ret == z3.ZeroExt(32, h))))
        return out

    def inv(self, c, L):
        out = []
        vs = L.head.vals
        for k, v in vs.items():
            if isinstance(v, Ptr):
                out.append(('block aligned', lambda w, k=k: (w[k].off & 3) == 0))
                out.append(('not past the last block', lambda w, k=k: ULE(w[k].off, self.n & ~bv(3))))
                for k2, v2 in vs.items():
                    if z3.is_bv(v2) and v2.size() == 32:
                        out.append(('hash so far', lambda w, k=k, k2=k2: w[k2] == self.H(w[k].off)))
        return out

    def measures(self, x, L):
        return [('rest', lambda w, k=k: (self.n & ~bv(3)) - w[k].off) for k, v in L.head.vals.items() if isinstance(v, Ptr)]


def rotl(v, b):
    return (v << b) | z3.LShR(v, 64 - b)


def sipround(v):
    v0, v1, v2, v3 = v
    v0 = v0 + v1
    v1 = rotl(v1, 13) ^ v0
    v0 = rotl(v0, 32)
    v2 = v2 + v3
    v3 = rotl(v3, 16) ^ v2
    v0 = v0 + v3
    v3 = rotl(v3, 21) ^ v0
    v2 = v2 + v1
    v1 = rotl(v1, 17) ^ v2
    v2 = rotl(v2, 32)
    return [v0, v1, v2, v3]


def IT(x, j, v):
    """j rounds applied to v (spec function by recursion on j)"""
    nj = num(j)
    if nj == 0:
        return list(v)
    fs = [x.uf('sip_it%d' % k, *([64] * 6)) for k in range(4)]
    return [z3.If(j == 0, v[k], fs[k](j, *v)) for k in range(4)]


class Sip(Contract):
    short = 'SipHash'
    auto = False

    def init(self, x):
        x.kind('dual', 1, [(0, 'i8'), (0, 'i32'), (0, 'i64')], True)

    def setup(self, x, st, f):
        n = self.n = bvar('Size')
        self.o = x.param_obj(st, 'Str', 'dual', n, const=True)
        self.B = [x.uf('block%d' % k, 64, 64) for k in range(4)]
        return [self.o.ptr(), n, bvar('Key1'), bvar('Key2'), bvar('cRounds'), bvar('dRounds')]

    def requires(self, c):
        m, B = c.old, self.B
        k1, k2, cr, dr = c.args[2:]
        W = lambda f: m.u64(Ptr(self.o.id, f))
        init = [k1 ^ 0x736f6d6570736575, k2 ^ 0x646f72616e646f6d, k1 ^ 0x6c7967656e657261, k2 ^ 0x7465646279746573]

        def step(f):
            b = [B[k](f) for k in range(4)]
            u = IT(c.x, cr, [b[0], b[1], b[2], b[3] ^ W(f)])
            return Implies(And(ULT(f, self.n), (f & 7) == 0), And(B[0](f + 8) == u[0] ^ W(f), *[B[k](f + 8) == u[k] for k in (1, 2, 3)]))
        return [('length', ULE(self.n, MAXL)), ('start of the block states', And(*[B[k](bv(0)) == init[k] for k in range(4)])), ('definition of the block states', FA(64, step, pat=lambda f: [W(f)]))]

    def modifies(self, c):
        return []

    def ensures(self, c):
        m = c.old
        cr, dr = c.args[4:]
        e, r = self.n & ~bv(7), self.n & 7
        out = []
        for q in range(8):
            t = self.n << 56
            for k in range(q):
                t = t | (z3.ZeroExt(56, m.u8(Ptr(self.o.id, e + k))) << (8 * k))
            b = [self.B[k](e) for k in range(4)]
            u = IT(c.x, cr, [b[0], b[1], b[2], b[3] ^ t])
            u = IT(c.x, dr, [u[0] ^ t, u[1], u[2] ^ 0xff, u[3]])
            out.append(('the key is the SipHash of the data (%d bytes after the last block)' % q, Implies(r == q, c.ret == u[0] ^ u[1] ^ u[2] ^ u[3])))
        return out

    def inv(self, c, L):
        vs = L.head.vals
        ptrs = [k for k, v in vs.items() if isinstance(v, Ptr)]
        nm = {}
        for k, v in vs.items():
            if z3.is_bv(v) and v.size() == 64:
                for j in range(4):
                    if str(k).startswith('%%v%d' % j):
                        nm[j] = k
        if len(nm) != 4:
            raise Unsupported('state variables v0..v3 of the hash not recognised')
        V = lambda w: [w[nm[j]] for j in range(4)]
        out = []
        if ptrs:
            p = ptrs[0]
            out.append(('block aligned', lambda w: (w[p].off & 7) == 0))
            out.append(('not past the last block', lambda w: ULE(w[p].off, self.n & ~bv(7))))
            for j in range(4):
                out.append(('block state %d' % j, lambda w, j=j: V(w)[j] == self.B[j](w[p].off)))
        else:
            x = [k for k, v in vs.items() if z3.is_bv(v) and v.size() == 64 and k not in nm.values()]
            if len(x) != 1:
                raise Unsupported('round counter not recognised')
            x = x[0]
            e = [L.entryview[nm[j]] for j in range(4)]
            h = L.head[x]
            # definition of the spec function at this loop: one more round
            st = L.head.st
            a, b = IT(c.x, h, e), IT(c.x, h + 1, e)
            for j, t in enumerate(sipround(a)):
                st.assume(Implies(h + 1 != 0, b[j] == t))
            out.append(('at most c rounds', lambda w: ULE(w[x], c.args[4])))
            out.append(('at most d rounds', lambda w: ULE(w[x], c.args[5])))
            self.xk = x
            for j in range(4):
                out.append(('rounds so far %d' % j, lambda w, j=j: V(w)[j] == IT(c.x, w[x], e)[j]))
        return out

    def measures(self, x, L):
        a = x.ctx.args
        return [('rest', lambda w, k=k: (self.n & ~bv(7)) - w[k].off) for k, v in L.head.vals.items() if isinstance(v, Ptr)] + [('rounds left', lambda w, k=k, t=t: t - w[k]) for k, v in L.head.vals.items() if z3.is_bv(v) and not str(k).startswith('%v') for t in (a[4], a[5])]


def jobs(mods):
    S = '(unsigned char const*, unsigned long, unsigned long)'
    return [dict(tu='cache', fn='CubicleSoft::CacheUtil::GetHashKey(char*)', con=Djb2Str(), opts=dict(fork=True)),
            dict(tu='cache', fn='CubicleSoft::CacheUtil::GetHashKey(unsigned char*, unsigned long)', con=Djb(False), opts=dict(fork=True)),
            dict(tu='oh', fn='CubicleSoft::OrderedHashUtil::GetDJBX33XHashKey' + S, con=Djb(True), opts=dict(fork=True)),
            dict(tu='poh', fn='CubicleSoft::PackedOrderedHashUtil::GetDJBX33XHashKey' + S, con=Djb(True), opts=dict(fork=True))] + [
            dict(tu=t, fn='CubicleSoft::%s::GetSipHashKey(unsigned char const*, unsigned long, unsigned long, unsigned long, unsigned long, unsigned long)' % n, con=Sip(), opts=dict(fork=True)) for t, n in (('oh', 'OrderedHashUtil'), ('poh', 'PackedOrderedHashUtil'))]


ASSUME = ['a 32 or 64-bit load from the data is the native (little endian) composition of its bytes; the target tolerates unaligned loads', 'data of at most 2^40 bytes']
