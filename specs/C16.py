from .utf8spec import *

ID = 'C16'
HARNESS = 'C16.cpp'
HARNESS_SRC = ['utf8/utf8_util.cpp']
BUDGET = 8
U = 'CubicleSoft::UTF8::Util::'
NEXT = U + 'NextCodePoint(unsigned int&, unsigned int&, char const*, unsigned long&, unsigned long&, bool&)'
ISC = U + 'IsCombiningCodePoint(unsigned int)'


def tus():
    return {'utf8': include('utf8/utf8_util.cpp')}


class Comb(Contract):
    short = 'IsCombiningCodePoint'

    def setup(self, x, st, f):
        return [bvar('CodePoint', 32)]

    def modifies(self, c):
        return []

    def ensures(self, c):
        return [('in one of the four blocks', c.ret == (Opaque(c.x).comb(c.args[0]) if c.caller else comb(c.args[0])))]


class Str(Contract):
    """a C string argument of n bytes; LEN(x): size of the well-formed sequence at x (0: none, or the end), CP(x): its code point"""

    def init(self, x):
        kinds(x)
        x.kind('v8', 1, [(0, 'i8')], False)

    def str_setup(self, x, st):
        n = self.n = bvar('n')
        self.s = x.param_obj(st, 'Str', 'bytes', n + 1, const=True)
        self.s.cstr = (bv(0), n)
        return self.s.ptr()

    def B(self, m, f):
        return m.u8(Ptr(self.s.id, f))

    def str_req(self, c):
        m, n = c.old, self.n
        return [('C string', And(ULE(n, MAXN), self.B(m, n) == 0)), ('no terminator inside', FA(64, lambda f: Implies(ULT(f, n), self.B(m, f) != 0), pat=lambda f: [self.B(m, f)]))]

    def dec(self, m, x):
        """(length, code point), 0 and 0 when there is none"""
        ln, cp = dec8(lambda f: self.B(m, f), self.n, x)
        bad = Or(cp == c32(NONE), self.B(m, x) == 0)
        return z3.If(bad, bv(0), ln), z3.If(bad, c32(0), cp)


class Next(Str):
    short = 'NextCodePoint'

    def setup(self, x, st, f):
        o = [x.param_obj(st, nm, k).ptr() for nm, k in (('ResultCP', 'v32'), ('NextCP', 'v32'), ('Pos', 'v64'), ('Size', 'v64'), ('HasCombiningCP', 'v8'))]
        return [o[0], o[1], self.str_setup(x, st), o[2], o[3], o[4]]

    def top(self, c):
        """the contract of the calling function knows the string"""
        return self if not c.caller else c.x.spec16

    def requires(self, c):
        t = self.top(c)
        p, s = c.old.u64(c.args[3]), c.old.u64(c.args[4])
        out = [('a continuation stays inside the string', Implies(p != 0, And(ULE(p, t.n), s == t.n)))]
        if c.caller:
            return out + [('same string', And(c.args[2].obj == bv(t.s.id), c.args[2].off == 0))]
        return out + self.str_req(c)

    def modifies(self, c):
        a = c.args
        return [Region(a[0].obj, a[0].off, 4, ['i32']), Region(a[1].obj, a[1].off, 4, ['i32']), Region(a[3].obj, a[3].off, 8, ['i64']), Region(a[4].obj, a[4].off, 8, ['i64']), Region(a[5].obj, a[5].off, 1, ['i8'])]

    def ensures(self, c):
        t = self.top(c)
        o, m = c.old, c.new
        if c.caller:
            F = Opaque(c.x)
            LEN, CP = c.x.uf('LEN', 64, 64), c.x.uf('CP', 64, 32)
            d = lambda q: (LEN(q), CP(q))
            cmb = F.comb
        else:
            d = lambda q: self.dec(o, q)
            cmb = comb
        p0, n0 = o.u64(c.args[3]), o.u32(c.args[1])
        l0, c0 = d(bv(0))
        ok0 = And(l0 != 0, Not(cmb(c0)))
        r, nx, pos, size, has = m.u32(c.args[0]), m.u32(c.args[1]), m.u64(c.args[3]), m.u64(c.args[4]), m.u8(c.args[5])

        def look(q):
            ln, cp = d(q)
            return And(nx == cp, pos == q + ln, has == z3.If(cmb(cp), bv(1, 8), bv(0, 8)), ULE(q + ln, t.n), UGE(q + ln, q))
        return [('the first call succeeds exactly when the string starts with a code point that may start it', Implies(p0 == 0, c.ret == ok0)),
                ('a later call succeeds until the look-ahead is empty', Implies(p0 != 0, c.ret == (n0 != 0))),
                ('the first call remembers the size', Implies(p0 == 0, size == t.n)),
                ('the size stays', Implies(p0 != 0, size == o.u64(c.args[4]))),
                ('the first code point is returned and the next looked up', Implies(And(p0 == 0, ok0), And(r == c0, look(l0)))),
                ('the looked-up code point is returned and the next looked up', Implies(And(p0 != 0, n0 != 0), And(r == n0, look(p0)))),
                ('at the end nothing moves', Implies(And(p0 != 0, n0 == 0), And(nx == n0, pos == p0, has == o.u8(c.args[5])))),
                ('a refused start has no combining code point after it', Implies(And(p0 == 0, Not(ok0)), has == 0))]


class Loop(Str):
    """functions iterating with NextCodePoint"""
    auto = False

    def setup(self, x, st, f):
        x.spec16 = self
        self.LEN, self.CP, self.ST = x.uf('LEN', 64, 64), x.uf('CP', 64, 32), x.uf('ST', 64, 64)
        self.F = Opaque(x)
        return self.more(x, st)

    def requires(self, c):
        m = c.old
        LEN, CP, ST = self.LEN, self.CP, self.ST

        def df(q):
            b = lambda k: ex(self.B(m, q + k), 7, 6) == z3.BitVecVal(2, 2)
            l = LEN(q)
            return And(ULE(l, bv(4)), Implies(l == 0, CP(q) == 0), Implies(And(l != 0, ULE(q, self.n)), And(ULE(q + l, self.n), ST(q + l) == q, Not(b(0)), *[Implies(ULT(bv(k), l), b(k)) for k in (1, 2, 3)])))
        return self.str_req(c) + [('no combining zero', Not(self.F.comb(c32(0)))), ('sequences', FA(64, df, pat=lambda q: [LEN(q)]))] + self.req(c)

    def first(self, then):
        """value of the iteration from the start"""
        q0 = self.LEN(bv(0))
        return z3.If(And(q0 != 0, Not(self.F.comb(self.CP(bv(0))))), then(self.CP(bv(0)), q0), self.none())

    def states(self, c, L):
        """candidates for (position, look-ahead)"""
        vs = L.head.vals
        xs = [k for k, v in vs.items() if z3.is_bv(v) and v.size() == 64 and not isinstance(k, str)]
        ns = [k for k, v in vs.items() if z3.is_bv(v) and v.size() == 32 and not isinstance(k, str)]
        return [(a, b) for a in xs for b in ns]

    def inv(self, c, L):
        out = []
        vs = L.head.vals
        n = self.n
        for a in [k for k, v in vs.items() if z3.is_bv(v) and v.size() == 64 and not isinstance(k, str)]:
            out.append(('position in the string', lambda w, a=a: ULE(w[a], n)))
            for b in [k for k, v in vs.items() if z3.is_bv(v) and v.size() == 64 and not isinstance(k, str) and k != a]:
                out.append(('size known', lambda w, a=a, b=b: Implies(w[a] != 0, w[b] == n)))
            for k, v in vs.items():
                if isinstance(k, str) and z3.is_bv(v) and v.size() == 64:
                    out.append(('same position', lambda w, a=a, k=k: w[a] == w[k]))
        for X, N in self.states(c, L):
            st = lambda w: (w[X], w[N])
            for k, v in vs.items():
                if not isinstance(k, str) and z3.is_bv(v) and v.size() == 8:
                    out.append(('combining flag', lambda w, X=X, N=N, k=k: Or(w[X] == 0, (w[k] == 1) == self.F.comb(w[N]))))
                    out.append(('combining flag at the start', lambda w, X=X, N=N, k=k: Or(w[X] != 0, w[k] == 0)))
                    out.append(('flag', lambda w, k=k: ULE(w[k], bv(1, 8))))
            out.append(('the look-ahead starts inside', lambda w, X=X, N=N: Implies(And(w[X] != 0, w[N] != 0), And(w[X] == self.ST(w[X]) + self.LEN(self.ST(w[X])), self.LEN(self.ST(w[X])) != 0, ULE(self.ST(w[X]), w[X])))))
            out += self.prog(c, L, X, N)
        return out

    def measures(self, x, L):
        return [('rest', lambda w, X=X, N=N: z3.If(w[X] == 0, self.n * 2 + 3, z3.If(w[N] == 0, bv(0), (self.n - w[X]) * 2 + 1))) for X, N in self.states(None, L)] + [('pos', lambda w, k=k: w[k]) for k, v in L.head.vals.items() if isinstance(k, str) and z3.is_bv(v)]


class Strlen(Loop):
    """code points that are not followed by a combining one, up to the end or the first malformed sequence"""
    short = 'strlen'

    def more(self, x, st):
        self.T = x.uf('T', 64, 32, 64)
        return [self.str_setup(x, st)]

    def one(self, x):
        return z3.If(self.F.comb(self.CP(x)), bv(0), bv(1))

    def req(self, c):
        T, LEN, CP = self.T, self.LEN, self.CP
        return [('definition of the count', FA([64, 32], lambda x, N: T(x, N) == z3.If(N == 0, bv(0), self.one(x) + T(x + LEN(x), CP(x))), pat=lambda x, N: [T(x, N)]))]

    def modifies(self, c):
        return []

    def none(self):
        return bv(0)

    def total(self):
        return self.first(lambda cp, q: self.one(q) + self.T(q + self.LEN(q), self.CP(q)))

    def ensures(self, c):
        return [('the number of code points without combining ones', c.ret == self.total())]

    def prog(self, c, L, X, N):
        return [('count so far', lambda w, X=X, N=N, k=k: z3.If(w[X] == 0, w[k] == 0, w[k] + self.T(w[X], w[N]) == self.total())) for k, v in L.head.vals.items() if isinstance(k, str) and z3.is_bv(v) and v.size() == 64] + [
            ('started', lambda w, X=X: Implies(w[X] != 0, And(self.LEN(bv(0)) != 0, Not(self.F.comb(self.CP(bv(0)))))))]


class Find(Loop):
    """start of the first code point that matches (and, unless combining ones are allowed, is not followed by a combining one)"""
    short = 'FindCodePoint'

    def more(self, x, st):
        self.R = x.uf('RES', 64, 32, 64)
        self.cp, self.allow = bvar('CodePoint', 32), z3.Bool('AllowCombiningCP')
        self.res = x.param_obj(st, 'ResultPos', 'v64')
        return [self.res.ptr(), self.cp, self.str_setup(x, st), self.allow]

    def match(self, N, x):
        return And(N == self.cp, Or(self.allow, Not(self.F.comb(self.CP(x)))))

    def none(self):
        return bv(-1)

    def req(self, c):
        R, LEN, CP = self.R, self.LEN, self.CP
        return [('definition of the search', FA([64, 32], lambda x, N: R(x, N) == z3.If(N == 0, self.none(), z3.If(self.match(N, x), self.ST(x), R(x + LEN(x), CP(x)))), pat=lambda x, N: [R(x, N)]))]

    def modifies(self, c):
        return [Region(self.res.id)]

    def total(self):
        t = self.first(lambda cp, q: z3.If(self.match(cp, q), bv(0), self.R(q + self.LEN(q), self.CP(q))))
        return z3.If(And(Not(self.allow), self.F.comb(self.cp)), self.none(), t)

    def ensures(self, c):
        t = self.total()
        return [('found exactly when there is one', c.ret == (t != self.none())), ('the first match', Implies(c.ret, c.new.u64(self.res.ptr()) == t))]

    def prog(self, c, L, X, N):
        return [('nothing found so far', lambda w, X=X, N=N: Implies(w[X] != 0, self.R(w[X], w[N]) == self.total())),
                ('started', lambda w, X=X: Implies(w[X] != 0, And(self.LEN(bv(0)) != 0, Not(self.F.comb(self.CP(bv(0)))))))]

    def inv(self, c, L):
        out = Loop.inv(self, c, L)
        if not self.states(c, L):
            for k, v in L.head.vals.items():
                if z3.is_bv(v) and v.size() == 64:
                    e = L.entryview[k]
                    out.append(('between the start and the end of the match', lambda w, k=k, e=e: And(UGT(w[k], self.ST(e)), ULE(w[k], e))))
                    out.append(('only continuation bytes so far', lambda w, k=k, e=e: And(e == self.ST(e) + self.LEN(self.ST(e)), self.LEN(self.ST(e)) != 0)))
        return out


class NextAscii(Loop):
    short = 'NextASCIICodePoint'

    def more(self, x, st):
        self.G = {nm: x.uf('AS' + nm, 64, 32, w) for nm, w in (('ch', 32), ('x', 64), ('n', 32))}
        self.o = [x.param_obj(st, nm, k) for nm, k in (('ResultCP', 'v8'), ('NextCP', 'v32'), ('Pos', 'v64'), ('Size', 'v64'))]
        return [self.o[0].ptr(), self.o[1].ptr(), self.str_setup(x, st), self.o[2].ptr(), self.o[3].ptr()]

    def is_(self, N, x):
        return And(ULE(N, c32(0x7F)), Not(self.F.comb(self.CP(x))))

    def none(self):
        return c32(NONE)

    def req(self, c):
        LEN, CP, G = self.LEN, self.CP, self.G
        p, s = c.old.u64(self.o[2].ptr()), c.old.u64(self.o[3].ptr())

        def df(x, N):
            hit = self.is_(N, x)
            nx, nn = x + LEN(x), CP(x)
            return z3.If(N == 0, G['ch'](x, N) == self.none(), z3.If(hit, And(G['ch'](x, N) == N, G['x'](x, N) == nx, G['n'](x, N) == nn), And(*[G[k](x, N) == G[k](nx, nn) for k in G])))
        return [('a continuation stays inside the string', Implies(p != 0, And(ULE(p, self.n), s == self.n))), ('the first is not zero', Implies(self.LEN(bv(0)) != 0, self.CP(bv(0)) != 0)),
                ('definition of the search', FA([64, 32], df, pat=lambda x, N: [G['ch'](x, N)]))]

    def modifies(self, c):
        return [Region(o.id) for o in self.o]

    def tot(self, c, k, none):
        p, N = c.old.u64(self.o[2].ptr()), c.old.u32(self.o[1].ptr())
        q0 = self.LEN(bv(0))
        g = self.G[k]
        st = z3.If(And(q0 != 0, Not(self.F.comb(self.CP(bv(0))))), g(q0, self.CP(bv(0))), none) if none is not None else g(q0, self.CP(bv(0)))
        return z3.If(p != 0, g(p, N), st)

    def ensures(self, c):
        ch = self.tot(c, 'ch', self.none())
        m = c.new
        return [('found exactly when there is one left', c.ret == (ch != self.none())),
                ('the next ASCII character', Implies(c.ret, z3.ZeroExt(24, m.u8(self.o[0].ptr())) == ch)),
                ('the iteration continues after it', Implies(c.ret, And(m.u64(self.o[2].ptr()) == self.tot(c, 'x', None), m.u32(self.o[1].ptr()) == self.tot(c, 'n', None), m.u64(self.o[3].ptr()) == self.n)))]

    def prog(self, c, L, X, N):
        p0 = c.old.u64(self.o[2].ptr())
        out = []
        for k in self.G:
            out.append(('skipped so far: ' + k, lambda w, X=X, N=N, k=k: Implies(w[X] != 0, self.G[k](w[X], w[N]) == self.tot(c, k, self.none() if k == 'ch' else None))))
        out.append(('not started', lambda w, X=X: Implies(w[X] == 0, p0 == 0)))
        out.append(('started', lambda w, X=X: Implies(And(w[X] != 0, p0 == 0), And(self.LEN(bv(0)) != 0, Not(self.F.comb(self.CP(bv(0))))))))
        out.append(('mention', lambda w, X=X, N=N: Or(self.G['ch'](w[X], w[N]) == self.G['ch'](bv(1), c32(5)), self.G['ch'](w[X], w[N]) != self.G['ch'](bv(1), c32(5)))))
        return out


def jobs(mods):
    o = dict(fork=True, hrl=6, inst=True)
    cs = [(NEXT, Next()), (ISC, Comb())]
    return [dict(tu='utf8', fn=ISC, con=Comb()), dict(tu='utf8', fn=NEXT, con=Next(), opts=dict(fork=True)),
            dict(tu='utf8', fn=U + 'strlen(char const*)', con=Strlen(), contracts=cs, opts=o),
            dict(tu='utf8', fn=U + 'FindCodePoint(unsigned long&, unsigned int, char const*, bool)', con=Find(), contracts=cs, opts=o),
            dict(tu='utf8', fn=U + 'NextASCIICodePoint(char&, unsigned int&, char const*, unsigned long&, unsigned long&)', con=NextAscii(), contracts=cs, opts=o)]


ASSUME = ['strings of at most 2^40 bytes', 'NextASCIICodePoint: the string does not start with an overlong zero (C0 80)']
