from .common import *

ID = 'C08'
HARNESS = 'C08.cpp'
HARNESS_SRC = ['templates/cache.cpp']
BUDGET = 4
MAXE = 1 << 40
E = 16          # bytes per node: Used @0, Key (32 bit) @4, Value (64 bit) @8
USED, KEY, VAL = 0, 4, 8


def tus():
    return {'cache': include('templates/cache.h') + '''
template class CubicleSoft::Cache<unsigned int, unsigned long>;
template CubicleSoft::CacheNoCopy<unsigned int, unsigned long>::CacheNoCopy(unsigned long);
template CubicleSoft::CacheNoCopy<unsigned int, unsigned long>::~CacheNoCopy();
template void CubicleSoft::CacheNoCopy<unsigned int, unsigned long>::Empty();
template void CubicleSoft::CacheNoCopy<unsigned int, unsigned long>::Insert(unsigned long, const unsigned int &, const unsigned long &);
template bool CubicleSoft::CacheNoCopy<unsigned int, unsigned long>::Remove(unsigned long, const unsigned int &);
template bool CubicleSoft::CacheNoCopy<unsigned int, unsigned long>::Exists(unsigned long, const unsigned int &);
template bool CubicleSoft::CacheNoCopy<unsigned int, unsigned long>::Find(unsigned long &, unsigned long, const unsigned int &);
'''}


def newkind(x, i, n):
    return 'nodes'


class C8(Contract):
    NC = ''

    def __init__(self, **k):
        self.k = k

    def init(self, x):
        cn = 'Cache%s<unsigned int, unsigned long>' % self.NC
        nn = 'CacheNode<unsigned int, unsigned long>'
        if x.M.di[nn]['size'] != E or [fieldoff(x.M, nn, n) for n in ('Used', 'Key', 'Value')] != [USED, KEY, VAL]:
            raise Unsupported('node layout')
        x.kind('nodes', E, [(USED, 'i8'), (KEY, 'i32'), (VAL, 'i64')], True)
        self.fN, self.fS = fieldoff(x.M, cn, 'Nodes'), fieldoff(x.M, cn, 'NumNodes')
        x.kind('cache', x.M.di[cn]['size'], [(self.fN, 'ptr'), (self.fS, 'i64')], False)
        x.kind('k32', 4, [(0, 'i32')], False)
        x.kind('v64', 8, [(0, 'i64')], False)

    def n(self, m, o):
        return m.u64(Ptr(o, self.fS))

    def nodes(self, m, o):
        return m.ptr(Ptr(o, self.fN))

    def mk(self, x, st, tag):
        o = x.param_obj(st, tag, 'cache')
        n = self.n(st.mem, bv(o.id))
        st.assume(ULE(n, MAXE))
        st.assume(n != 0)
        d = x.param_obj(st, tag + '.Nodes', 'nodes', n * E)
        st.mem = st.mem.st('ptr', o.ptr(self.fN), d.ptr())
        return o, d

    def setup(self, x, st, f):
        if self.k.get('fresh'):
            self.o = x.param_obj(st, 'this', 'cache')
        else:
            self.o, self.d = self.mk(x, st, 'this')
        a = [self.o.ptr()]
        return a + self.more(x, st)

    def more(self, x, st):
        return []

    def requires(self, c):
        out = self.req(c)
        if not self.k.get('fresh'):
            out += self.flags(c, c.old, bv(self.d.id), self.n(c.old, bv(self.o.id)))
        return out

    def req(self, c):
        return []

    def each(self, m, d, n, body):
        """for every node offset f"""
        return FA(64, lambda f: Implies(And(ULT(f, n * E), (f & (E - 1)) == 0), body(f)), pat=lambda f: [m.u8(Ptr(d, f))])

    def flags(self, c, m, d, n):
        return [('used flags are booleans', self.each(m, d, n, lambda f: ULE(m.u8(Ptr(d, f)), 1)))]

    def refs(self, c):
        return [] if self.k.get('fresh') else [('n', self.n(c.old, bv(self.o.id)))]

    def used(self, m, d, f):
        return m.u8(Ptr(d, f + USED))

    def key(self, m, d, f):
        return m.u32(Ptr(d, f + KEY))

    def val(self, m, d, f):
        return m.u64(Ptr(d, f + VAL))

    def same(self, m0, d0, m1, d1, n, tag=''):
        """all n nodes of the storages agree"""
        out = []
        for nm, cls, off in (('used flags', 'i8', USED), ('keys', 'i32', KEY), ('values', 'i64', VAL)):
            out.append((tag + 'same ' + nm, FA(64, lambda f, cls=cls, off=off: Implies(And(ULT(f, n * E), (f & (E - 1)) == off), m0.rd(cls, Ptr(d0, f)) == m1.rd(cls, Ptr(d1, f))), pat=lambda f, cls=cls: [m0.rd(cls, Ptr(d0, f))])))
        return out

    def counters(self, w):
        return [v for k, v in w.vals.items() if z3.is_bv(v) and v.size() == 64]


class Ctor(C8):
    short = 'constructor'

    def more(self, x, st):
        return [bvar('PrimeNum')]

    def req(self, c):
        return [('addressable, at least one node', And(ULE(c.args[1], MAXE), c.args[1] != 0))]

    def modifies(self, c):
        return [Region(self.o.id)]

    def ensures(self, c):
        o = bv(self.o.id)
        d = self.nodes(c.new, o)
        n = c.args[1]
        return [('size recorded', self.n(c.new, o) == n), ('storage for every node', And(d.obj != 0, d.off == 0, c.new.alive(d.obj), Not(c.old.alive(d.obj)), c.x.oszf(d.obj) == n * E)),
                ('every node starts unused', self.each(c.new, d.obj, n, lambda f: c.new.u8(Ptr(d.obj, f)) == 0))]

    def inv(self, c, L):
        def done(w):
            ps = [v for v in w.vals.values() if isinstance(v, Ptr)]
            if not ps:
                return True
            p = ps[0]
            m = w.mem
            return FA(64, lambda f: Implies(And(ULT(f, p.off), (f & (E - 1)) == 0), m.u8(Ptr(p.obj, f)) == 0), pat=lambda f: [m.u8(Ptr(p.obj, f))])

        def aligned(w):
            ps = [v for v in w.vals.values() if isinstance(v, Ptr)]
            return (ps[0].off & (E - 1)) == 0 if ps else True
        return [('constructed so far', done), ('aligned', aligned)]


class Copy_(C8):
    """copy constructor (fresh) and assignment"""
    short = 'copy'

    def more(self, x, st):
        if self.k.get('same'):
            self.s, self.sd = self.o, self.d
        else:
            self.s, self.sd = self.mk(x, st, 'source')
        return [self.s.ptr()]

    def req(self, c):
        return self.flags(c, c.old, bv(self.sd.id), self.n(c.old, bv(self.s.id)))

    def modifies(self, c):
        out = [Region(self.o.id)]
        if not self.k.get('fresh') and not self.k.get('same'):
            out += [Region(self.d.id), Region(self.d.id, cls='alive')]
        return out

    def refs(self, c):
        return C8.refs(self, c) + [('sn', self.n(c.old, bv(self.s.id)))]

    def ensures(self, c):
        o, s = bv(self.o.id), bv(self.s.id)
        n = self.n(c.old, s)
        d = self.nodes(c.new, o)
        out = [('same size', self.n(c.new, o) == n), ('own storage for every node', And(d.obj != 0, d.off == 0, c.new.alive(d.obj), c.x.oszf(d.obj) == n * E))]
        if not self.k.get('same'):
            out.append(('storage is not shared', d.obj != self.sd.id))
        out += self.same(c.new, d.obj, c.old, bv(self.sd.id), n)
        out += self.flags(c, c.new, d.obj, n)
        if not self.k.get('fresh'):
            out.append(('returns the assigned object', c.ret.eq(c.args[0])))
            if not self.k.get('same'):
                out.append(('old storage is kept or released', Or(d.obj == self.d.id, Not(c.new.alive(bv(self.d.id))))))
        return out

    def inv(self, c, L):
        out = []
        for k, (nm, cls, off) in enumerate((('used', 'i8', USED), ('keys', 'i32', KEY), ('values', 'i64', VAL))):
            def copied(w, cls=cls, off=off):
                ks = self.counters(w)
                if not ks:
                    return True
                d = self.nodes(w.mem, bv(self.o.id)).obj
                return FA(64, lambda f: Implies(And(ULT(f, ks[0] * E), (f & (E - 1)) == off), w.mem.rd(cls, Ptr(d, f)) == c.old.rd(cls, Ptr(self.sd.id, f))), pat=lambda f: [w.mem.rd(cls, Ptr(d, f))])
            out.append(('copied so far: ' + nm, copied))
        return out + Ctor.inv(self, c, L)


class EmptyC(C8):
    short = 'Empty'

    def modifies(self, c):
        return [Region(self.d.id, cls='i8')]

    def ensures(self, c):
        d, n = bv(self.d.id), self.n(c.old, bv(self.o.id))
        return [('nothing is stored any more', self.each(c.new, d, n, lambda f: c.new.u8(Ptr(d, f)) == 0))]

    def inv(self, c, L):
        def done(w):
            ks = self.counters(w)
            if not ks:
                return True
            m, d = w.mem, bv(self.d.id)
            return FA(64, lambda f: Implies(And(ULT(f, ks[0] * E), (f & (E - 1)) == 0), m.u8(Ptr(d, f)) == 0), pat=lambda f: [m.u8(Ptr(d, f))])
        return [('cleared so far', done)]


class Op(C8):
    def __init__(self, short):
        C8.__init__(self)
        self.short = short

    def more(self, x, st):
        h = bvar('HashKey')
        k = x.param_obj(st, 'Key', 'k32')
        v = x.param_obj(st, 'Value', 'v64')
        self.kk, self.vv = k, v
        return {'Insert': [h, k.ptr(), v.ptr()], 'Find': [v.ptr(), h, k.ptr()]}.get(self.short, [h, k.ptr()])

    def hk(self, c):
        h = c.args[2] if self.short == 'Find' else c.args[1]
        return c.x.div(c.st, 'urem', h, self.n(c.old, bv(self.o.id))) * E

    def modifies(self, c):
        if self.short == 'Insert':
            return [Region(self.d.id, self.hk(c), E)]
        if self.short == 'Remove':
            return [Region(self.d.id, self.hk(c), 1, 'i8')]
        if self.short == 'Find':
            return [Region(self.vv.id)]
        return []

    def ensures(self, c):
        d = bv(self.d.id)
        f = self.hk(c)
        K = c.old.u32(self.kk.ptr())
        V = c.old.u64(self.vv.ptr())
        o, m = c.old, c.new
        hit = And(self.used(o, d, f) == 1, self.key(o, d, f) == K)
        n = self.n(o, bv(self.o.id))
        out = self.flags(c, m, d, n)
        for nm, cls, off in (('used flags', 'i8', USED), ('keys', 'i32', KEY), ('values', 'i64', VAL)):
            out.append(('other nodes keep their ' + nm, FA(64, lambda g, cls=cls, off=off: Implies(And(ULT(g, n * E), (g & (E - 1)) == off, g != f + off), m.rd(cls, Ptr(d, g)) == o.rd(cls, Ptr(d, g))), pat=lambda g, cls=cls: [m.rd(cls, Ptr(d, g))])))
        if self.short == 'Insert':
            return out + [('the slot holds the new pair', And(self.used(m, d, f) == 1, self.key(m, d, f) == K, self.val(m, d, f) == V))]
        out.append(('reports exactly whether the key is stored', c.ret == hit))
        if self.short == 'Remove':
            out.append(('a removed key is gone, otherwise nothing changes', self.used(m, d, f) == z3.If(hit, bv(0, 8), self.used(o, d, f))))
        if self.short == 'Find':
            out.append(('the stored value is delivered, otherwise the result is untouched', m.u64(self.vv.ptr()) == z3.If(hit, self.val(o, d, f), V)))
        return out


class DtorC(C8):
    short = 'destructor'

    def modifies(self, c):
        return [Region(self.d.id, cls='alive')]

    def ensures(self, c):
        return [('storage is released', Not(c.new.alive(bv(self.d.id))))]


OPT = dict(new_kind=newkind, fork=True, uf_div=True)


def jobs(mods):
    out = []
    for nc in ('', 'NoCopy'):
        T = 'CubicleSoft::Cache%s<unsigned int, unsigned long>::' % nc

        def job(sig, con, label=''):
            con.NC = nc
            out.append(dict(tu='cache', fn=T + sig, con=con, opts=OPT, label=label))
        job('Cache%s(unsigned long)' % nc, Ctor(fresh=True))
        job('~Cache%s()' % nc, DtorC())
        if not nc:
            R = 'CubicleSoft::Cache<unsigned int, unsigned long> const&'
            job('Cache(%s)' % R, Copy_(fresh=True))
            job('operator=(%s)' % R, Copy_())
            job('operator=(%s)' % R, Copy_(same=True), 'self')
        job('Empty()', EmptyC())
        job('Insert(unsigned long, unsigned int const&, unsigned long const&)', Op('Insert'))
        job('Remove(unsigned long, unsigned int const&)', Op('Remove'))
        job('Exists(unsigned long, unsigned int const&)', Op('Exists'))
        job('Find(unsigned long&, unsigned long, unsigned int const&)', Op('Find'))
    return out


ASSUME = ['key and value types instantiated with 32 and 64-bit integers in the proof (the oracle also runs strings); their copy and comparison are the types\' own',
          'at least one and at most 2^40 nodes', 'arguments passed by reference do not point into the cache\'s own storage',
          'the remainder operation is uninterpreted in the proof except for its range: code and contract use the same term']
