"""Ordered hash with detachable nodes (T = uint64_t).

Ghost state: gS(hash,i) node at list position i, gP(node) its position, gO(node) owning hash (0: none)
             gC(f,i) i-th node of the bucket at byte offset f of the table, gR(node) its rank there, gN(f) number of nodes in the bucket
             gFi(key) / gFs(text,length) node holding an integer / string key (0: none),  gSO(string object) node which owns that string
Key texts are compared through cid(object,length), the identity of the bytes of a string that is never written again."""
from .common import *
from .listspec import lam, ins_ghost, del_ghost

ID = 'C05'
HARNESS = 'C05.cpp'
HARNESS_SRC = ['templates/detachable_ordered_hash.cpp']
HARNESS_FLAGS = ['-fno-sanitize=alignment']
BUDGET = 6
MAXN = 1 << 56
MAXE = 1 << 40
NN = 'OrderedHashNode<unsigned long>'
GH = ('gS', 'gP', 'gO', 'gC', 'gR', 'gN', 'gFi', 'gFs', 'gSO')


def tus():
    return {'oh': include('templates/detachable_ordered_hash.h') + '''
template class CubicleSoft::OrderedHashNode<unsigned long>;
template class CubicleSoft::OrderedHash<unsigned long>;
template CubicleSoft::OrderedHashNoCopy<unsigned long>::OrderedHashNoCopy(unsigned long, std::uint64_t);
template CubicleSoft::OrderedHashNoCopy<unsigned long>::OrderedHashNoCopy(unsigned long, std::uint64_t, std::uint64_t);
template CubicleSoft::OrderedHashNoCopy<unsigned long>::~OrderedHashNoCopy();
''' + ''.join('template %s CubicleSoft::OrderedHashNoCopy<unsigned long>::%s;\n' % (r, s) for r, s in NCM)}


N_ = 'CubicleSoft::OrderedHashNode<unsigned long> *'
NCM = [(N_, s) for s in ('Push(const std::int64_t, const unsigned long &)', 'Push(const char *, const size_t, const unsigned long &)', 'Push(%s)' % N_, 'Pop(bool)', 'Shift(bool)', 'Unshift(const std::int64_t, const unsigned long &)',
       'Unshift(const char *, const size_t, const unsigned long &)', 'Unshift(%s)' % N_, 'CreateNode()', 'CreateNode(const std::int64_t, const unsigned long &)', 'CreateNode(const char *, const size_t, const unsigned long &)',
       'InsertBefore(%s, const std::int64_t, const unsigned long &)' % N_, 'InsertBefore(%s, const char *, const size_t, const unsigned long &)' % N_, 'InsertBefore(%s, %s)' % (N_, N_),
       'InsertAfter(%s, const std::int64_t, const unsigned long &)' % N_, 'InsertAfter(%s, const char *, const size_t, const unsigned long &)' % N_, 'InsertAfter(%s, %s)' % (N_, N_),
       'Find(const std::int64_t) const', 'Find(const char *, const size_t) const', 'Find(%s) const' % N_, 'FirstList() const', 'LastList() const')] + [('bool', 'Detach(%s, bool)' % N_), ('bool', 'Remove(%s)' % N_), ('void', 'Empty(bool, bool)'), ('bool', 'ResizeHash(size_t)'),
       (N_ + '*', 'RawHash() const'), ('size_t', 'GetHashSize() const'), ('size_t', 'GetListSize() const')]


class HS:
    def __init__(self, x, cname):
        M = x.M
        self.x = x
        g = lambda n: fieldoff(M, cname, n)
        self.use, self.k1, self.k2, self.tab, self.hsz, self.npp, self.first, self.last, self.cnt = [g(n) for n in ('UseSipHash', 'Key1', 'Key2', 'HashNodes', 'HashSize', 'NextPrimePos', 'FirstListNode', 'LastListNode', 'NumListNodes')]
        q = lambda n: fieldoff(M, NN, n)
        self.ph, self.nh, self.prev, self.next, self.hk, self.ik, self.sk, self.val = [q(n) for n in ('PrevHashNode', 'NextHashNode', 'PrevListNode', 'NextListNode', 'HashKey', 'IntKey', 'StrKey', 'Value')]
        self.lsize, self.nsize = M.di[cname]['size'], M.di[NN]['size']
        self.single = False
        if 'hash' not in x.kinds:
            x.kind('hash', self.lsize, [(self.use, 'i8')] + [(o, 'i64') for o in (self.k1, self.k2, self.hsz, self.npp, self.cnt)] + [(o, 'ptr') for o in (self.tab, self.first, self.last)], False)
            x.kind('node', self.nsize, [(o, 'ptr') for o in (self.ph, self.nh, self.prev, self.next, self.sk)] + [(o, 'i64') for o in (self.hk, self.ik, self.val)], False)
            x.kind('table', 8, [(0, 'ptr')], True)
            x.kind('cell', 8, [(0, 'i64')], False)
        self.K = x.kinds['node']
        self.KT = x.kinds['table']
        self.KB = x.kinds['bytes']
        self.cidf = x.uf('cid', 64, 64, 64)

    # fields
    def n(self, m, L): return m.u64(Ptr(L, self.cnt))
    def size(self, m, L): return m.u64(Ptr(L, self.hsz))
    def pp(self, m, L): return m.u64(Ptr(L, self.npp))
    def table(self, m, L): return m.ptr(Ptr(L, self.tab)).obj
    def fst(self, m, L): return m.ptr(Ptr(L, self.first)).obj
    def lst(self, m, L): return m.ptr(Ptr(L, self.last)).obj
    def nx(self, m, o): return m.ptr(Ptr(o, self.next)).obj
    def pv(self, m, o): return m.ptr(Ptr(o, self.prev)).obj
    def nxh(self, m, o): return m.ptr(Ptr(o, self.nh)).obj
    def pvh(self, m, o): return m.ptr(Ptr(o, self.ph)).obj
    def HK(self, m, o): return m.u64(Ptr(o, self.hk))
    def IK(self, m, o): return m.u64(Ptr(o, self.ik))
    def SK(self, m, o): return m.ptr(Ptr(o, self.sk)).obj
    def v(self, m, o): return m.u64(Ptr(o, self.val))
    # ghost
    def S(self, m, L, i): return m.m['gS'].read(L, i)
    def P(self, m, o): return m.m['gP'].read(o, bv(0))
    def O(self, m, o): return m.m['gO'].read(o, bv(0))
    def C(self, m, f, i): return m.m['gC'].read(f, i)
    def R(self, m, o): return m.m['gR'].read(o, bv(0))
    def N(self, m, f): return m.m['gN'].read(f, bv(0))
    def SO(self, m, o): return m.m['gSO'].read(o, bv(0))

    def cid(self, o, n): return self.cidf(o, n)

    def F(self, m, isstr, c, k):
        """node holding the key"""
        return ite(isstr, m.m['gFs'].read(c, k), m.m['gFi'].read(k, bv(0)))

    def key(self, m, o):
        return (self.SK(m, o) != 0, self.cid(self.SK(m, o), self.IK(m, o)), self.IK(m, o))

    def same(self, a, b):
        return And(a[0] == b[0], a[2] == b[2], Implies(a[0], a[1] == b[1]))

    def hash(self, m, L, key):
        x = self.x
        u, a, b = m.u8(Ptr(L, self.use)), m.u64(Ptr(L, self.k1)), m.u64(Ptr(L, self.k2))
        return ite(key[0], x.uf('hash_str', 8, 64, 64, 64, 64, 64)(u, a, b, key[1], key[2]), x.uf('hash_int', 8, 64, 64, 64, 64)(u, a, b, key[2]))

    def off(self, h, n):
        """offset of the bucket of a hash value in a table of n buckets"""
        r = self.x.uf('urem64', 64, 64, 64)(h, n)
        return r * 8

    def b(self, m, L, o):
        return self.off(self.HK(m, o), self.size(m, L))

    def bk(self, m, T, f):
        return m.ptr(Ptr(T, f)).obj

    def inb(self, f, n):
        return And(ULT(f, n * 8), (f & 7) == 0)

    def isnode(self, m, o):
        return And(o != 0, self.x.kindf(o) == self.K.id, m.alive(o))

    def keyok(self, m, L, o):
        """string of a node"""
        s = self.SK(m, o)
        return Implies(s != 0, And(m.alive(s), self.x.kindf(s) == self.KB.id, self.SO(m, s) == o, ULE(self.IK(m, o), MAXE), ULE(self.IK(m, o), self.x.oszf(s))))

    def listwf(self, m, L):
        n, z = self.n(m, L), bv(0)

        def elem(i):
            o = self.S(m, L, i)
            return [Implies(ULT(i, n), c) for c in (o != 0, self.x.kindf(o) == self.K.id, m.alive(o), self.O(m, o) == L, self.P(m, o) == i,
                                                    self.nx(m, o) == ite(ULT(i + 1, n), self.S(m, L, i + 1), z), self.pv(m, o) == ite(i == 0, z, self.S(m, L, i - 1)))]
        return [('element count is in range', ULE(n, MAXN)),
                ('every element is linked to its neighbours', FA(64, elem, pat=lambda i: [self.S(m, L, i)])),
                ('a node owned by the hash is at its position', FA(64, lambda o: Implies(self.O(m, o) == L, And(ULT(self.P(m, o), n), self.S(m, L, self.P(m, o)) == o)), pat=lambda o: [self.O(m, o)])),
                ('first/last pointers match the sequence', And(self.fst(m, L) == ite(n == 0, z, self.S(m, L, z)), self.lst(m, L) == ite(n == 0, z, self.S(m, L, n - 1))))]

    def keywf(self, m, L):
        return [('hash keys are up to date', FA(64, lambda o: Implies(self.O(m, o) == L, self.HK(m, o) == self.hash(m, L, self.key(m, o))), pat=lambda o: [self.O(m, o)])),
                ('key strings belong to their nodes', FA(64, lambda o: Implies(self.O(m, o) == L, self.keyok(m, L, o)), pat=lambda o: [self.O(m, o)])),
                ('every key has one node', FA(64, lambda o: Implies(self.O(m, o) == L, self.F(m, *self.key(m, o)) == o), pat=lambda o: [self.O(m, o)])),
                ('integer key index', FA(64, lambda k: (lambda o: Implies(o != 0, And(self.O(m, o) == L, self.SK(m, o) == 0, self.IK(m, o) == k)))(m.m['gFi'].read(k, bv(0))), pat=lambda k: [m.m['gFi'].read(k, bv(0))])),
                ('string key index', FA([64, 64], lambda c, k: (lambda o: Implies(o != 0, And(self.O(m, o) == L, self.SK(m, o) != 0, self.cid(self.SK(m, o), k) == c, self.IK(m, o) == k)))(m.m['gFs'].read(c, k)), pat=lambda c, k: [m.m['gFs'].read(c, k)]))]

    def tabok(self, m, L):
        T, h = self.table(m, L), self.size(m, L)
        return And(T != 0, m.alive(T), self.x.kindf(T) == self.KT.id, self.x.oszf(T) == h * 8, h != 0, ULE(h, MAXE))

    def chainwf(self, m, L):
        T, h, z = self.table(m, L), self.size(m, L), bv(0)

        def own(o):
            f, r = self.b(m, L, o), self.R(m, o)
            return [Implies(self.O(m, o) == L, c) for c in (ULT(r, self.N(m, f)), self.C(m, f, r) == o, self.nxh(m, o) == ite(ULT(r + 1, self.N(m, f)), self.C(m, f, r + 1), z), self.pvh(m, o) == ite(r == 0, z, self.C(m, f, r - 1)), self.inb(f, h))]

        def el(f, i):
            o = self.C(m, f, i)
            return Implies(And(self.inb(f, h), ULT(i, self.N(m, f))), And(o != 0, self.O(m, o) == L, self.b(m, L, o) == f, self.R(m, o) == i))
        return [('the table exists', self.tabok(m, L)), ('resize point in range', ULE(self.pp(m, L), 31)),
                ('every node is linked in the chain of its bucket', FA(64, own, pat=lambda o: [self.O(m, o)])),
                ('chains hold nodes of the hash', FA([64, 64], el, pat=lambda f, i: [self.C(m, f, i)])),
                ('buckets point to the first of their chain', FA(64, lambda f: Implies(self.inb(f, h), self.bk(m, T, f) == ite(self.N(m, f) == 0, z, self.C(m, f, z))), pat=lambda f: [self.bk(m, T, f)]))]

    def wf(self, m, L):
        return self.listwf(m, L) + self.keywf(m, L) + self.chainwf(m, L)


def A_(m, q):
    return m.m['alive'].read(q, bv(0))


class HC(Contract):
    cname = 'OrderedHash<unsigned long>'
    classes = tuple((g, 64) for g in GH)
    auto = False
    prewf = postwf = 'wf'

    def init(self, x):
        self.hs(x)

    def hs(self, x):
        k = '_hs_' + self.cname
        if not hasattr(x, k):
            setattr(x, k, HS(x, self.cname))
        return getattr(x, k)

    def setup(self, x, st, f):
        o = x.param_obj(st, 'this', 'hash')
        args = [o.ptr()]
        self.more(x, st, args)
        return args

    def more(self, x, st, args):
        pass

    def view(self, c, m):
        return m

    def requires(self, c):
        h, L = self.hs(c.x), c.args[0].obj
        m = self.view(c, c.old)
        w = getattr(h, self.prewf)(m, L) if self.prewf else []
        return [('hash well formed: ' + n, g) for n, g in w] + [('hash object', And(c.x.kindf(L) == c.x.kinds['hash'].id, c.old.alive(L), L != 0))] + self.rem(c, h, L) + self.req(c, h, L)

    def rem(self, c, h, L):
        """the remainder used by the code for an arbitrary hash value is in range (arithmetic fact)"""
        if c.caller:
            return []
        r = c.x.uf('urem64', 64, 64, 64)
        return [('remainder', FA([64, 64], lambda a, b: Implies(b != 0, ULT(r(a, b), b)), pat=lambda a, b: [r(a, b)]))]

    def req(self, c, h, L):
        return []

    def ensures(self, c):
        h, L = self.hs(c.x), c.args[0].obj
        m = self.view(c, c.new)
        w = getattr(h, self.postwf)(m, L) if self.postwf else []
        return [('hash stays well formed: ' + n, g) for n, g in w] + self.ens(c, h, L)

    def ens(self, c, h, L):
        return []

    def hdr(self, L, *fs):
        return [Region(L, o, 8, ['ptr' if t == 'p' else 'i64']) for o, t in fs]

    def listhdr(self, h, L):
        return self.hdr(L, (h.first, 'p'), (h.last, 'p'), (h.cnt, 'i'))

    def tabhdr(self, h, L):
        return self.hdr(L, (h.tab, 'p'), (h.hsz, 'i'), (h.npp, 'i'))

    def fam(self, h, guard, *offs):
        return [FamRegion(h.K, 'i64' if o in (h.hk, h.ik, h.val) else 'ptr', o, guard) for o in offs]


def chain_ins(h, old, new, L, f, node, cond):
    def gC(g, i):
        return ite(And(cond, g == f), ite(i == 0, node, h.C(old, f, i - 1)), h.C(old, g, i))

    def gR(o, z):
        b = old.m['gR'].read(o, z)
        return ite(cond, ite(o == node, bv(0), ite(And(h.O(old, o) == L, h.b(old, L, o) == f), b + 1, b)), b)
    new = lam(new, 'gC', gC)
    new = lam(new, 'gR', gR)
    return lam(new, 'gN', lambda g, z: ite(And(cond, g == f), h.N(old, f) + 1, h.N(old, g)))


def chain_del(h, old, new, L, f, r, cond):
    def gC(g, i):
        return ite(And(cond, g == f, UGE(i, r)), h.C(old, f, i + 1), h.C(old, g, i))

    def gR(o, z):
        b = old.m['gR'].read(o, z)
        return ite(And(cond, h.O(old, o) == L, h.b(old, L, o) == f, UGT(b, r)), b - 1, b)
    new = lam(new, 'gC', gC)
    new = lam(new, 'gR', gR)
    return lam(new, 'gN', lambda g, z: ite(And(cond, g == f), h.N(old, f) - 1, h.N(old, g)))


def key_set(h, old, new, key, val, cond):
    new = lam(new, 'gFi', lambda k, z: ite(And(cond, Not(key[0]), k == key[2]), val, old.m['gFi'].read(k, z)))
    return lam(new, 'gFs', lambda a, k: ite(And(cond, key[0], a == key[1], k == key[2]), val, old.m['gFs'].read(a, k)))


class HashC(HC):
    """GetHashKey: the configured hash function applied to the key bytes"""
    short = 'GetHashKey'
    prewf = postwf = None

    def more(self, x, st, args):
        n = bvar('Size')
        o = x.param_obj(st, 'Str', 'bytes', n, const=True)
        args += [o.ptr(), n]

    def rem(self, c, h, L):
        return []

    def req(self, c, h, L):
        p, n = c.args[1], c.args[2]
        isb = c.x.kindf(p.obj) == h.KB.id
        if not c.caller:
            return [('readable', And(ULE(n, MAXE)))]
        return [('the key bytes can be read', And(c.old.alive(p.obj), Or(And(isb, p.off == 0, ULE(n, c.x.oszf(p.obj)), ULE(n, MAXE)), And(Not(isb), n == 8, Or(And(c.x.kindf(p.obj) == h.K.id, p.off == h.ik), p.off == 0)))))]

    def modifies(self, c):
        return []

    def ens(self, c, h, L):
        p, n = c.args[1], c.args[2]
        m = c.old
        if not c.caller:
            use, k1, k2 = m.u8(Ptr(L, h.use)), m.u64(Ptr(L, h.k1)), m.u64(Ptr(L, h.k2))
            s, d = c.x.uf('sip', 64, 64, 64, 64, 64, 64, 64, 64), c.x.uf('djb', 64, 64, 64, 64, 64)
            return [('the configured function of all bytes of the key with the keys of this hash', c.ret == ite(use != 0, s(p.obj, p.off, n, k1, k2, bv(2), bv(4)), d(p.obj, p.off, n, k1)))]
        isb = c.x.kindf(p.obj) == h.KB.id
        ik = h.IK(m, p.obj) if num(p.obj) is None or num(p.obj) not in c.x.objs or c.x.objs[num(p.obj)].kind.name == 'node' else m.u64(p)
        return [('hash of the key', c.ret == h.hash(m, L, (isb, h.cid(p.obj, n), ik)))]


class SipC(Contract):
    def __init__(self, name, k):
        self.name, self.k, self.short = name, k, name

    def modifies(self, c):
        return []

    def ensures(self, c):
        a = c.args
        if self.name == 'sip':
            return [('value', c.ret == c.x.uf('sip', 64, 64, 64, 64, 64, 64, 64, 64)(a[0].obj, a[0].off, *a[1:]))]
        return [('value', c.ret == c.x.uf('djb', 64, 64, 64, 64, 64)(a[0].obj, a[0].off, *a[1:]))]


class FindC(HC):
    """by: int, str, node"""
    postwf = None

    def __init__(self, by):
        self.by = by
        self.short = 'Find-' + by

    def more(self, x, st, args):
        if self.by == 'int':
            args.append(bvar('IntKey'))
        elif self.by == 'str':
            n = bvar('StrLen')
            args += [x.param_obj(st, 'StrKey', 'bytes', n, const=True).ptr(), n]
        else:
            args.append(Ptr(bvar('FindNode'), 0))

    def key(self, c, h, m):
        a = c.args
        if self.by == 'int':
            return (z3.BoolVal(False), bv(0), a[1])
        if self.by == 'str':
            return (z3.BoolVal(True), h.cid(a[1].obj, a[2]), a[2])
        return h.key(m, a[1].obj)

    def req(self, c, h, L):
        m = c.old
        if self.by == 'str':
            p = c.args[1]
            return [('key readable', And(p.off == 0, m.alive(p.obj), c.x.kindf(p.obj) == h.KB.id, ULE(c.args[2], c.x.oszf(p.obj)), ULE(c.args[2], MAXE)))]
        if self.by == 'node':
            o = c.args[1].obj
            return [('a node with a proper key', And(c.args[1].off == 0, h.isnode(m, o), h.keyok(m, L, o))), ('its hash key is unset or up to date', Or(h.HK(m, o) == 0, h.HK(m, o) == h.hash(m, L, h.key(m, o))))]
        return []

    def modifies(self, c):
        return []

    def ens(self, c, h, L):
        return [('exactly the node with this key, or null', And(c.ret.off == 0, c.ret.obj == h.F(c.old, *self.key(c, h, c.old))))]

    def inv(self, c, LI):
        h, L, m = self.hs(c.x), c.args[0].obj, c.old
        key = self.key(c, h, m)
        f = h.off(h.hash(m, L, key), h.size(m, L))
        out = []
        for k, v in LI.head.vals.items():
            if isinstance(v, Ptr):
                out.append(('in the chain', lambda w, k=k: And(w[k].off == 0, Or(w[k].obj == 0, And(h.O(m, w[k].obj) == L, h.b(m, L, w[k].obj) == f)))))
                out.append(('not found so far', lambda w, k=k: FA(64, lambda o: Implies(And(h.O(m, o) == L, h.b(m, L, o) == f, Or(w[k].obj == 0, ULT(h.R(m, o), h.R(m, w[k].obj)))), Not(h.same(h.key(m, o), key))), pat=lambda o: [h.O(m, o)])))
        return out

    def measures(self, x, LI):
        c = x.ctx
        h, L, m = self.hs(x), c.args[0].obj, c.old
        f = h.off(h.hash(m, L, self.key(c, h, m)), h.size(m, L))
        return [('chain left', lambda w, k=k: ite(w[k].obj == 0, bv(0), h.N(m, f) - h.R(m, w[k].obj))) for k, v in LI.head.vals.items() if isinstance(v, Ptr)]


class ResizeC(HC):
    short = 'ResizeHash'
    prewf = 'listwf'
    postwf = None
    allocates = True
    ghost_classes = ('gC', 'gR', 'gN')

    def __init__(self, user=None):
        self.user = user

    def view(self, c, m):
        return self.user.midview(c.x.ctx, m) if self.user and c.caller else m

    def more(self, x, st, args):
        args.append(bvar('NewHashSize'))

    def req(self, c, h, L):
        m, T = c.old, h.table(c.old, L)
        V = self.view(c, c.old)
        out = [('table absent or valid', Or(T == 0, And(m.alive(T), c.x.kindf(T) == h.KT.id))), ('a moderate size', ULE(c.args[1], MAXE))]
        if not c.caller:
            n = h.n(m, L)
            Nf, Sel = self.ufs(c.x)
            # definitions: number of nodes of a bucket among the first p, and the position of the k-th of them
            out += [('definition of the counts', FA(64, lambda f: Nf(f, bv(0)) == 0, pat=lambda f: [Nf(f, bv(0))])),
                    ('definition of the selection', FA(64, lambda o: Implies(h.O(m, o) == L, Sel(self.bb(c, h, o), Nf(self.bb(c, h, o), h.P(m, o))) == h.P(m, o)), pat=lambda o: [h.O(m, o)]))]
        return out

    def ufs(self, x):
        return x.uf('Nf', 64, 64, 64), x.uf('Sel', 64, 64, 64)

    def bb(self, c, h, o):
        return h.off(h.HK(c.old, o), c.args[1])

    def modifies(self, c):
        h, L = self.hs(c.x), c.args[0].obj
        V = self.view(c, c.old)
        return self.tabhdr(h, L) + self.fam(h, lambda o: h.O(V, o) == L, h.ph, h.nh) + [Region(h.table(c.old, L), cls='alive')] + [GhostRegion(g) for g in self.ghost_classes]

    def ghost(self, c):
        h, L = self.hs(c.x), c.args[0].obj
        ok = c.args[1] != 0
        o, w = c.old, c.new
        if c.caller:
            new = {g: w.m[g].read for g in self.ghost_classes}
        else:
            Nf, Sel = self.ufs(c.x)
            n = h.n(o, L)
            new = {'gC': lambda f, i: h.S(o, L, Sel(f, Nf(f, n) - 1 - i)), 'gN': lambda f, z: Nf(f, n), 'gR': lambda q, z: Nf(self.bb(c, h, q), n) - 1 - Nf(self.bb(c, h, q), h.P(o, q))}
        for g in self.ghost_classes:
            w = lam(w, g, lambda a, b, g=g: ite(ok, new[g](a, b), o.m[g].read(a, b)))
        return w

    def ens(self, c, h, L):
        o, m = c.old, c.new
        V = self.view(c, m)
        ok = c.args[1] != 0
        return [('reports whether a size was given', c.ret == ok)] + [('new table: ' + n, guard(ok, g)) for n, g in h.chainwf(V, L)] + [
            ('the new size', Implies(ok, h.size(m, L) == c.args[1])), ('a fresh table', Implies(ok, Not(o.alive(h.table(m, L))))), ('the old table is released', Implies(And(ok, h.table(o, L) != 0), Not(m.alive(h.table(o, L))))),
            ('nothing else is created or released', FA(64, lambda q: Implies(And(Or(Not(ok), q != h.table(m, L)), Or(Not(ok), q != h.table(o, L)), q != 0), A_(m, q) == A_(o, q)), pat=lambda q: [A_(m, q)])),
            ('otherwise nothing changes', Implies(Not(ok), And(h.size(m, L) == h.size(o, L), h.table(m, L) == h.table(o, L), h.pp(m, L) == h.pp(o, L))))] + \
            [('no links change without a size: %d' % k, FA(64, lambda q, a=a: Implies(Not(ok), m.ptr(Ptr(q, a)).obj == o.ptr(Ptr(q, a)).obj), pat=lambda q, a=a: [m.ptr(Ptr(q, a)).obj])) for k, a in enumerate((h.ph, h.nh))]

    def inv(self, c, LI):
        h, L, m = self.hs(c.x), c.args[0].obj, c.old
        Nf, Sel = self.ufs(c.x)
        New, n = c.args[1], h.n(c.old, L)
        bb = lambda o: self.bb(c, h, o)
        out = []
        T = lambda w: h.table(w.mem, L)
        S = lambda p: h.S(m, L, p)
        ptrs = [k for k, v in LI.head.vals.items() if isinstance(v, Ptr)]
        out.append(('table', lambda w: And(w.mem.ptr(Ptr(L, h.tab)).off == 0, T(w) != 0, w.mem.alive(T(w)), c.x.kindf(T(w)) == h.KT.id, c.x.oszf(T(w)) == New * 8, Not(m.alive(T(w))), h.size(w.mem, L) == New)))
        if ptrs:
            k = ptrs[0]
            J = lambda w: ite(w[k].obj == 0, n, h.P(m, w[k].obj))
            j0 = J(LI.head)
            cur = S(j0)
            LI.head.st.assume(as_fact(FA(64, lambda f: Nf(f, j0 + 1) == Nf(f, j0) + ite(f == bb(cur), bv(1), bv(0)), pat=lambda f: [Nf(f, j0 + 1)])))
            LI.head.st.assume(as_fact(FA(64, lambda f: Nf(f, j0 + 1) == Nf(f, j0) + ite(f == bb(cur), bv(1), bv(0)), pat=lambda f: [Nf(f, j0)])))
            out += [('position', lambda w: And(w[k].off == 0, ULE(J(w), n), w[k].obj == ite(ULT(J(w), n), S(J(w)), bv(0)))),
                    ('own node', lambda w: Or(w[k].obj == 0, h.O(m, w[k].obj) == L)),
                    ('counts', lambda w: FA(64, lambda f: ULE(Nf(f, J(w)), J(w)), pat=lambda f: [Nf(f, J(w))])),
                    ('selection', lambda w: FA([64, 64], lambda f, i: Implies(ULT(i, Nf(f, J(w))), And(ULT(Sel(f, i), J(w)), bb(S(Sel(f, i))) == f, Nf(f, Sel(f, i)) == i)), pat=lambda f, i: [Sel(f, i)])),
                    ('counted', lambda w: FA(64, lambda o: Implies(And(h.O(m, o) == L, ULT(h.P(m, o), J(w))), ULT(Nf(bb(o), h.P(m, o)), Nf(bb(o), J(w)))), pat=lambda o: [h.O(m, o)])),
                    ('heads', lambda w: FA(64, lambda f: Implies(h.inb(f, New), h.bk(w.mem, T(w), f) == ite(Nf(f, J(w)) == 0, bv(0), S(Sel(f, Nf(f, J(w)) - 1)))), pat=lambda f: [h.bk(w.mem, T(w), f)])),
                    ('links to the next', lambda w: FA(64, lambda o: (lambda f, q: Implies(And(h.O(m, o) == L, ULT(h.P(m, o), J(w))), h.nxh(w.mem, o) == ite(q == 0, bv(0), S(Sel(f, q - 1)))))(bb(o), Nf(bb(o), h.P(m, o))), pat=lambda o: [h.nxh(w.mem, o)])),
                    ('links to the previous', lambda w: FA(64, lambda o: (lambda f, q: Implies(And(h.O(m, o) == L, ULT(h.P(m, o), J(w))), h.pvh(w.mem, o) == ite(ULT(q + 1, Nf(f, J(w))), S(Sel(f, q + 1)), bv(0))))(bb(o), Nf(bb(o), h.P(m, o))), pat=lambda o: [h.pvh(w.mem, o)]))]
            self.final = True
        else:
            for k, v in LI.head.vals.items():
                if z3.is_bv(v) and v.size() == 64:
                    out.append(('cleared', lambda w, k=k: FA(64, lambda f: Implies(ULT(f, w[k] * 8), h.bk(w.mem, T(w), f) == 0), pat=lambda f: [h.bk(w.mem, T(w), f)])))
                    out.append(('within the table', lambda w, k=k: ULE(w[k], New)))
                    out.append(('within the primes', lambda w, k=k: ULE(w[k], 31)))
        return out

    def measures(self, x, LI):
        c = x.ctx
        h, L, m = self.hs(x), c.args[0].obj, c.old
        out = []
        for k, v in LI.head.vals.items():
            if isinstance(v, Ptr):
                out.append(('list left', lambda w, k=k: ite(w[k].obj == 0, bv(0), h.n(m, L) - h.P(m, w[k].obj))))
            elif z3.is_bv(v):
                out += [('table left', lambda w, k=k: c.args[1] - w[k]), ('primes left', lambda w, k=k: bv(31) - w[k])]
        return out


def guard(cond, g):
    if isinstance(g, FA):
        def body(*vs):
            b = g.body(*vs)
            return [Implies(cond, q) for q in b] if isinstance(b, list) else Implies(cond, b)
        return FA(g.sorts, body, pat=g.pat)
    return Implies(cond, g)


class InsC(HC):
    """InsertBefore / InsertAfter / Push / Unshift of a node, or of a key and value"""
    allocates = True
    ghost_classes = GH

    def __init__(self, where, by, has_ref):
        self.where_, self.by, self.has_ref = where, by, has_ref
        self.short = 'insert-%s-%s' % (where, by)

    def more(self, x, st, args):
        if self.has_ref:
            args.append(Ptr(bvar('ref'), 0))
        if self.by == 'node':
            args.append(Ptr(bvar('node'), 0))
            return
        if self.by == 'int':
            args.append(bvar('IntKey'))
        else:
            n = bvar('StrLen')
            args += [x.param_obj(st, 'StrKey', 'bytes', n, const=True).ptr(), n]
        args.append(Ptr(bvar('valobj'), bvar('valoff')))

    def ref(self, c):
        return c.args[1].obj if self.has_ref else bv(0)

    def key(self, c, h):
        a = c.args[1 + int(self.has_ref):]
        if self.by == 'node':
            return h.key(c.old, a[0].obj)
        if self.by == 'int':
            return (z3.BoolVal(False), bv(0), a[0])
        return (z3.BoolVal(True), h.cid(a[0].obj, a[1]), a[1])

    def req(self, c, h, L):
        m, x, ref = c.old, c.x, self.ref(c)
        out = [('room for one more', And(ULT(h.n(m, L), MAXN)))]
        if self.has_ref:
            out.append(('reference node is null or in this hash', And(c.args[1].off == 0, Or(ref == 0, And(h.isnode(m, ref), h.O(m, ref) == L)))))
        f = h.off(h.hash(m, L, self.key(c, h)), h.size(m, L))
        out.append(('chains are no longer than the list (pigeon holes)', ULT(h.N(m, f), MAXN)))
        if self.by == 'node':
            nd = c.args[-1].obj
            out.append(('a node with a proper key', And(c.args[-1].off == 0, h.isnode(m, nd), h.keyok(m, L, nd))))
            out.append(('its hash key is unset or up to date', Or(h.HK(m, nd) == 0, h.HK(m, nd) == h.hash(m, L, h.key(m, nd)))))
            out.append(('node detached, or in this hash', Or(h.O(m, nd) == L, And(h.O(m, nd) == 0, h.nx(m, nd) == 0, h.pv(m, nd) == 0, h.nxh(m, nd) == 0, h.pvh(m, nd) == 0))))
        else:
            p = c.args[-1]
            out.append(('value readable', And(m.alive(p.obj), p.obj != L, Or(And(x.kindf(p.obj) == x.kinds['cell'].id, p.off == 0), And(x.kindf(p.obj) == h.K.id, p.off == h.val)))))
            if self.by == 'str':
                q, n = c.args[-3], c.args[-2]
                out.append(('key readable', And(q.off == 0, m.alive(q.obj), x.kindf(q.obj) == h.KB.id, ULE(n, x.oszf(q.obj)), ULE(n, MAXE))))
        return out

    def ok(self, c, h):
        k = h.F(c.old, *self.key(c, h)) == 0
        return And(k, h.O(c.old, c.args[-1].obj) == 0) if self.by == 'node' else k

    def node(self, c, h):
        if self.by == 'node':
            return c.args[-1].obj
        return c.ret.obj

    def pos(self, c, h):
        ref, n = self.ref(c), h.n(c.old, c.args[0].obj)
        if self.where_ == 'before':
            return ite(ref == 0, n, h.P(c.old, ref))
        return ite(ref == 0, bv(0), h.P(c.old, ref) + 1)

    def midview(self, c, m):
        """(inside a node insertion) the list with the node inserted"""
        h, L = self.hs(c.x), c.args[0].obj
        return ins_ghost(h, c.old, m, L, self.pos(c, h), c.args[-1].obj, h.n(c.old, L), self.ok(c, h))

    def modifies(self, c):
        h, L = self.hs(c.x), c.args[0].obj
        nd = c.args[-1].obj
        own = lambda o: h.O(c.old, o) == L
        g = (lambda o: Or(own(o), o == nd)) if self.by == 'node' else own
        out = self.listhdr(h, L) + self.tabhdr(h, L) + self.fam(h, g, h.ph, h.nh, h.prev, h.next) + [Region(h.table(c.old, L), cls='alive'), Region(h.table(c.old, L), cls='ptr')] + [GhostRegion(g_) for g_ in ('gC', 'gR', 'gN')]
        if self.by == 'node':
            out += self.fam(h, lambda o: o == nd, h.hk)
        else:
            out.append(GhostRegion('gSO'))
        return out

    def ghost(self, c):
        h, L = self.hs(c.x), c.args[0].obj
        o, m = c.old, c.new
        nd, ok = self.node(c, h), self.ok(c, h)
        cur = {g: m.m[g].read for g in ('gC', 'gR', 'gN')}
        if self.by != 'node' and not c.caller:
            return None         # established by the callee
        re_ = And(ok, h.table(m, L) != h.table(o, L))
        w = ins_ghost(h, o, m, L, self.pos(c, h), nd, h.n(o, L), ok)
        key = self.key(c, h)
        f = h.off(h.hash(o, L, key), h.size(o, L))
        w = chain_ins(h, o, w, L, f, nd, ok)
        ex = {g: w.m[g].read for g in ('gC', 'gR', 'gN')}
        for g in cur:
            w = lam(w, g, lambda a, b, g=g: ite(re_, cur[g](a, b), ex[g](a, b)))
        return key_set(h, o, w, key, nd, ok)

    def ens(self, c, h, L):
        o, m, nd, ok = c.old, c.new, self.node(c, h), self.ok(c, h)
        n = h.n(o, L)
        out = [('count grows by exactly one on success', h.n(m, L) == ite(ok, n + 1, n)), ('null exactly when the key is there (or the node is not detached)', And(c.ret.off == 0, (c.ret.obj != 0) == ok))]
        k0, T0, T1 = self.key(c, h), h.table(o, L), h.table(m, L)
        out.append(('the table is kept or replaced by a new one', Or(T1 == T0, And(ok, Not(o.alive(T1))))))
        out.append(('the table shrinks never', Implies(T1 == T0, h.size(m, L) == h.size(o, L))))
        if self.by == 'node':
            out.append(('returns the node', Implies(ok, c.ret.obj == nd)))
            out.append(('the node keeps its key and value', And(h.SK(m, nd) == h.SK(o, nd), h.IK(m, nd) == h.IK(o, nd), h.v(m, nd) == h.v(o, nd))))
            out.append(('its hash key is unset or up to date', Or(h.HK(m, nd) == 0, h.HK(m, nd) == h.hash(m, L, h.key(m, nd)))))
            out.append(('a refused node is not linked', Implies(And(Not(ok), h.O(o, nd) == 0), And(h.nx(m, nd) == 0, h.pv(m, nd) == 0, h.nxh(m, nd) == 0, h.pvh(m, nd) == 0))))
            out.append(('only the table is replaced', FA(64, lambda q: Implies(And(q != 0, q != T0, q != T1), A_(m, q) == A_(o, q)), pat=lambda q: [A_(m, q)])))
            out.append(('the old table is released when replaced', Implies(T1 != T0, Not(m.alive(T0)))))
        else:
            s = h.SK(m, nd)
            out.append(('the new node is fresh', Implies(ok, And(Not(o.alive(nd)), h.isnode(m, nd)))))
            out.append(('it holds the key', Implies(ok, h.same(h.key(m, nd), k0))))
            out.append(('its string is its own', Implies(And(ok, s != 0), Not(o.alive(s)))))
            out.append(('it holds the value', Implies(ok, h.v(m, nd) == o.u64(c.args[-1]))))
            out.append(('nothing else is created or released', FA(64, lambda q: Implies(And(q != 0, q != T0, q != T1, Or(Not(ok), And(q != nd, q != s))), A_(m, q) == A_(o, q)), pat=lambda q: [A_(m, q)])))
            if c.caller or getattr(c, 'verify', False):
                P, O, S = h.P, h.O, h.S
                k = self.pos(c, h)
                out.append(('the node is at its place in the list, the others keep their order', FA(64, lambda i: Implies(ULT(i, h.n(m, L)), S(m, L, i) == ite(ok, ite(ULT(i, k), S(o, L, i), ite(i == k, nd, S(o, L, i - 1))), S(o, L, i))), pat=lambda i: [S(m, L, i)])))
        return out


class DetC(HC):
    """Detach, Remove, Pop, Shift"""
    ghost_classes = ('gS', 'gP', 'gO', 'gC', 'gR', 'gN', 'gFi', 'gFs')

    def __init__(self, which):
        self.which = self.short = which

    def more(self, x, st, args):
        if self.which in ('Detach', 'Remove'):
            args.append(Ptr(bvar('node'), 0))
        if self.which != 'Remove':
            args.append(z3.Bool('ResetHashKey'))

    def node(self, c, h):
        L, n = c.args[0].obj, h.n(c.old, c.args[0].obj)
        if self.which == 'Pop':
            return ite(n == 0, bv(0), h.S(c.old, L, n - 1))
        if self.which == 'Shift':
            return ite(n == 0, bv(0), h.S(c.old, L, bv(0)))
        return c.args[1].obj

    def req(self, c, h, L):
        if self.which in ('Pop', 'Shift'):
            return []
        nd = c.args[1].obj
        return [('node is null or in this hash', And(c.args[1].off == 0, Or(nd == 0, And(h.isnode(c.old, nd), h.O(c.old, nd) == L))))]

    def modifies(self, c):
        h, L = self.hs(c.x), c.args[0].obj
        own = lambda o: h.O(c.old, o) == L
        nd = self.node(c, h)
        out = self.listhdr(h, L) + self.fam(h, own, h.ph, h.nh, h.prev, h.next) + [Region(h.table(c.old, L), cls='ptr')]
        if self.which == 'Remove':
            out += [FamRegion(h.K, 'alive', 0, lambda o: o == nd), FamRegion(h.KB, 'alive', 0, lambda o: And(o == h.SK(c.old, nd), nd != 0))]
        else:
            out += self.fam(h, lambda o: o == nd, h.hk)
        return out

    def ghost(self, c):
        h, L = self.hs(c.x), c.args[0].obj
        o, nd = c.old, self.node(c, h)
        if self.which != 'Detach' and not c.caller:
            return None
        w = del_ghost(h, o, c.new, L, h.P(o, nd), nd, nd != 0)
        w = chain_del(h, o, w, L, h.b(o, L, nd), h.R(o, nd), nd != 0)
        return key_set(h, o, w, h.key(o, nd), bv(0), nd != 0)

    def ens(self, c, h, L):
        o, m, nd = c.old, c.new, self.node(c, h)
        n = h.n(o, L)
        out = [('count drops by exactly one', h.n(m, L) == ite(nd != 0, n - 1, n)), ('the others keep their order', FA(64, lambda i: Implies(ULT(i, h.n(m, L)), h.S(m, L, i) == ite(And(nd != 0, UGE(i, h.P(o, nd))), h.S(o, L, i + 1), h.S(o, L, i))), pat=lambda i: [h.S(m, L, i)]))]
        out.append(('it belongs to no hash afterwards', Implies(nd != 0, h.O(m, nd) == 0)))
        if self.which in ('Pop', 'Shift'):
            out.append(('returns the end node or null when empty', And(c.ret.off == 0, c.ret.obj == nd)))
        else:
            out.append(('reports whether a node was given', c.ret == (nd != 0)))
        if self.which == 'Remove':
            out.append(('the node and its key string are released and nothing else', FA(64, lambda q: Implies(q != 0, A_(m, q) == ite(And(nd != 0, Or(q == nd, q == h.SK(o, nd))), bv(0, 1), A_(o, q))), pat=lambda q: [A_(m, q)])))
        else:
            out.append(('detached node has no neighbours left', Implies(nd != 0, And(h.nx(m, nd) == 0, h.pv(m, nd) == 0, h.nxh(m, nd) == 0, h.pvh(m, nd) == 0))))
            out.append(('its hash key is kept or reset', Implies(nd != 0, h.HK(m, nd) == ite(c.args[-1], bv(0), h.HK(o, nd)))))
        return out


class EmptyC(HC):
    """Empty(true) and the destructor; Empty(false) leaves the nodes alone"""
    ghost_classes = ('gS', 'gP', 'gO', 'gC', 'gR', 'gN', 'gFi', 'gFs')

    def __init__(self, dele, dtor=False):
        self.dele, self.dtor = dele, dtor
        self.short = 'destructor' if dtor else 'Empty'
        if dtor:
            self.postwf = None

    def more(self, x, st, args):
        if not self.dtor:
            args += [z3.BoolVal(self.dele), z3.Bool('ResetHashKey')]

    def modifies(self, c):
        h, L = self.hs(c.x), c.args[0].obj
        own = lambda o: h.O(c.old, o) == L
        o = c.old
        out = self.listhdr(h, L) + [Region(h.table(o, L), cls='ptr')]
        if self.dele:
            out += [FamRegion(h.K, 'alive', 0, own), FamRegion(h.KB, 'alive', 0, lambda q: And(own(h.SO(o, q)), h.SK(o, h.SO(o, q)) == q))]
        else:
            out += self.fam(h, own, h.ph, h.nh, h.hk)
        if self.dtor:
            out += [Region(h.table(o, L), cls='alive')]
        return out

    def ghost(self, c):
        h, L = self.hs(c.x), c.args[0].obj
        o, w = c.old, c.new
        if self.dtor and not c.caller:
            return None
        w = lam(w, 'gO', lambda q, z: ite(o.m['gO'].read(q, z) == L, bv(0), o.m['gO'].read(q, z)))
        w = lam(w, 'gN', lambda q, z: bv(0))
        w = lam(w, 'gFi', lambda q, z: bv(0))
        w = lam(w, 'gFs', lambda q, z: bv(0))
        for g in ('gS', 'gP', 'gC', 'gR'):
            w = lam(w, g, o.m[g].read)
        return w

    def released(self, c, h, L, q, gone):
        o = c.old
        return Or(And(h.O(o, q) == L, gone(q)), And(h.O(o, h.SO(o, q)) == L, h.SK(o, h.SO(o, q)) == q, gone(h.SO(o, q))))

    def ens(self, c, h, L):
        o, m = c.old, c.new
        out = [] if self.dtor else [('the hash is empty', h.n(m, L) == 0)]
        T = lambda q: z3.BoolVal(True)
        if self.dele:
            extra = (lambda q: q == h.table(o, L)) if self.dtor else (lambda q: z3.BoolVal(False))
            out.append(('exactly the former elements and their key strings are released', FA(64, lambda q: Implies(q != 0, A_(m, q) == ite(Or(self.released(c, h, L, q, T), extra(q)), bv(0, 1), A_(o, q))), pat=lambda q: [A_(m, q)])))
        else:
            out.append(('the former elements are in no chain', FA(64, lambda q: Implies(h.O(o, q) == L, And(h.nxh(m, q) == 0, h.pvh(m, q) == 0)), pat=lambda q: [h.nxh(m, q)])))
            out.append(('the hash key is kept or reset', FA(64, lambda q: Implies(h.O(o, q) == L, h.HK(m, q) == ite(c.args[2], bv(0), h.HK(o, q))), pat=lambda q: [h.HK(m, q)])))
        return out

    def inv(self, c, LI):
        h, L, m = self.hs(c.x), c.args[0].obj, c.old
        n = h.n(m, L)
        ptrs = [k for k, v in LI.head.vals.items() if isinstance(v, Ptr)]
        out = []
        own = lambda o: h.O(m, o) == L
        if ptrs:
            k = ptrs[0]
            J = lambda w: ite(w[k].obj == 0, n, h.P(m, w[k].obj))
            out += [('position', lambda w: And(w[k].off == 0, ULE(J(w), n), w[k].obj == ite(ULT(J(w), n), h.S(m, L, J(w)), bv(0)))), ('own node', lambda w: Or(w[k].obj == 0, own(w[k].obj)))]
            if self.dele:
                out.append(('released so far', lambda w: FA(64, lambda q: Implies(q != 0, A_(w.mem, q) == ite(self.released(c, h, L, q, lambda o: ULT(h.P(m, o), J(w))), bv(0, 1), A_(m, q))), pat=lambda q: [A_(w.mem, q)])))
            else:
                out.append(('unlinked so far', lambda w: FA(64, lambda q: Implies(And(own(q), ULT(h.P(m, q), J(w))), And(h.nxh(w.mem, q) == 0, h.pvh(w.mem, q) == 0)), pat=lambda q: [h.nxh(w.mem, q)])))
                out.append(('hash keys so far', lambda w: FA(64, lambda q: Implies(own(q), h.HK(w.mem, q) == ite(And(c.args[2], ULT(h.P(m, q), J(w))), bv(0), h.HK(m, q))), pat=lambda q: [h.HK(w.mem, q)])))
        else:
            T = h.table(m, L)
            for k, v in LI.head.vals.items():
                if z3.is_bv(v) and v.size() == 64:
                    out.append(('cleared', lambda w, k=k: FA(64, lambda f: Implies(ULT(f, w[k] * 8), h.bk(w.mem, T, f) == 0), pat=lambda f: [h.bk(w.mem, T, f)])))
                    out.append(('within the table', lambda w, k=k: ULE(w[k], h.size(m, L))))
        return out

    def measures(self, x, LI):
        c = x.ctx
        h, L, m = self.hs(x), c.args[0].obj, c.old
        out = []
        for k, v in LI.head.vals.items():
            if isinstance(v, Ptr):
                out.append(('list left', lambda w, k=k: ite(w[k].obj == 0, bv(0), h.n(m, L) - h.P(m, w[k].obj))))
            elif z3.is_bv(v):
                out.append(('table left', lambda w, k=k: h.size(m, L) - w[k]))
        return out


class CtorC(HC):
    prewf = None
    allocates = True
    ghost_classes = GH

    def __init__(self, sip):
        self.sip = sip
        self.short = 'constructor'

    def more(self, x, st, args):
        args += [bvar('EstimatedSize'), bvar('HashKey1')] + ([bvar('HashKey2')] if self.sip else [])

    def req(self, c, h, L):
        m = c.old
        return [('no node belongs to the unconstructed hash', FA(64, lambda o: h.O(m, o) != L, pat=lambda o: [h.O(m, o)])), ('at least one bucket', And(c.args[1] != 0, ULE(c.args[1], MAXE)))]

    def modifies(self, c):
        h, L = self.hs(c.x), c.args[0].obj
        return [Region(L)] + [GhostRegion(g) for g in ('gC', 'gR', 'gN')]

    def ghost(self, c):
        w = c.new
        for g in ('gFi', 'gFs'):
            w = lam(w, g, lambda q, z: bv(0))
        return w

    def ens(self, c, h, L):
        m = c.new
        return [('a new hash is empty', h.n(m, L) == 0), ('of the requested size', h.size(m, L) == c.args[1]), ('with the requested hash function', And(m.u8(Ptr(L, h.use)) == (1 if self.sip else 0), m.u64(Ptr(L, h.k1)) == c.args[2], m.u64(Ptr(L, h.k2)) == (c.args[3] if self.sip else bv(0))))]


class NodeC(HC):
    """CreateNode"""
    prewf = postwf = None
    allocates = True
    ghost_classes = ('gSO',)

    def __init__(self, by):
        self.by, self.short = by, 'CreateNode'

    def setup(self, x, st, f):
        if self.by == 'none':
            return []
        a = []
        if self.by == 'int':
            a.append(bvar('IntKey'))
        else:
            n = bvar('StrLen')
            a += [x.param_obj(st, 'StrKey', 'bytes', n, const=True).ptr(), n]
        return a + [Ptr(bvar('valobj'), bvar('valoff'))]

    def requires(self, c):
        h, x, m = self.hs(c.x), c.x, c.old
        out = []
        if self.by != 'none':
            p = c.args[-1]
            out.append(('value readable', And(m.alive(p.obj), Or(And(x.kindf(p.obj) == x.kinds['cell'].id, p.off == 0), And(x.kindf(p.obj) == h.K.id, p.off == h.val)))))
        if self.by == 'str':
            q, n = c.args[0], c.args[1]
            out.append(('key readable', And(q.off == 0, m.alive(q.obj), x.kindf(q.obj) == h.KB.id, ULE(n, x.oszf(q.obj)), ULE(n, MAXE))))
        return out

    def modifies(self, c):
        return []

    def ghost(self, c):
        h = self.hs(c.x)
        s = h.SK(c.new, c.ret.obj)
        return lam(c.new, 'gSO', lambda q, z: ite(And(q == s, q != 0), c.ret.obj, c.old.m['gSO'].read(q, z)))

    def ensures(self, c):
        h, o, m, r = self.hs(c.x), c.old, c.new, c.ret
        s = h.SK(m, r.obj)
        out = [('a fresh node without neighbours', And(r.off == 0, Not(o.alive(r.obj)), h.isnode(m, r.obj), h.nx(m, r.obj) == 0, h.pv(m, r.obj) == 0, h.nxh(m, r.obj) == 0, h.pvh(m, r.obj) == 0, h.HK(m, r.obj) == 0)),
               ('nothing else is created', FA(64, lambda q: Implies(And(q != r.obj, q != s), A_(m, q) == A_(o, q)), pat=lambda q: [A_(m, q)]))]
        if self.by == 'str':
            return out + [('with its own copy of the key', And(s != 0, Not(o.alive(s)), m.alive(s), c.x.kindf(s) == h.KB.id, ULE(c.args[1], c.x.oszf(s)), h.IK(m, r.obj) == c.args[1], s != r.obj)), ('equal to the key', h.cid(s, c.args[1]) == h.cid(c.args[0].obj, c.args[1])), ('and the value', h.v(m, r.obj) == o.u64(c.args[-1]))]
        out.append(('no string', s == 0))
        if self.by == 'int':
            out += [('with the key', h.IK(m, r.obj) == c.args[0]), ('and the value', h.v(m, r.obj) == o.u64(c.args[-1]))]
        return out


class GetC(HC):
    def __init__(self, which):
        self.which = self.short = which

    def modifies(self, c):
        return []

    def ens(self, c, h, L):
        m, n = c.old, h.n(c.old, c.args[0].obj)
        if self.which == 'RawHash':
            return [('the table', And(c.ret.off == 0, c.ret.obj == h.table(m, L)))]
        if self.which == 'GetHashSize':
            return [('the number of buckets', c.ret == h.size(m, L))]
        if self.which == 'GetListSize':
            return [('the number of elements', c.ret == n)]
        return [('the end element or null', And(c.ret.off == 0, c.ret.obj == ite(n == 0, bv(0), h.S(m, L, bv(0) if self.which == 'FirstList' else n - 1))))]


def newkind(x, i, n):
    v = num(n)
    if v is not None and v == x.M.di[NN]['size']:
        return 'node'
    return 'table' if x.fn_table else 'bytes'


def b_memcmp(x, st, a, i):
    n = a[2]
    if not x.dry:
        x._range_access(st, a[0], n, False, i, n != bv(0))
        x._range_access(st, a[1], n, False, i, n != bv(0))
    r = bvar(uid('memcmp'), 32)
    cid = x.uf('cid', 64, 64, 64)
    x.oblige(st, And(a[0].off == 0, a[1].off == 0), 'whole keys are compared', 'access', i)
    st.assume((r == 0) == (cid(a[0].obj, n) == cid(a[1].obj, n)))
    return r


def b_memcpy(x, st, a, i):
    x.copy(st, a[0], a[1], a[2], i, False)
    # a string object created by this call: its text is identified with that of the source
    oid = num(a[0].obj)
    if oid is not None and num(a[0].off) == 0 and oid in x.objs and x.objs[oid].name.startswith('new@') and num(a[1].off) == 0:
        cid = x.uf('cid', 64, 64, 64)
        st.assume(cid(a[0].obj, a[2]) == cid(a[1].obj, a[2]))
    return a[0]


def jobs(mods):
    out = []
    T = 'CubicleSoft::OrderedHash<unsigned long>::'
    N = 'CubicleSoft::%s*' % NN
    V = 'unsigned long const&'
    S = 'char const*, unsigned long'
    G = (T + 'GetHashKey(unsigned char const*, unsigned long) const', HashC())
    A = {}
    for nm, where, has in (('InsertBefore', 'before', True), ('InsertAfter', 'after', True), ('Push', 'before', False), ('Unshift', 'after', False)):
        r = N + ', ' if has else ''
        A[T + '%s(%slong, %s)' % (nm, r, V)] = InsC(where, 'int', has)
        A[T + '%s(%s%s, %s)' % (nm, r, S, V)] = InsC(where, 'str', has)
        A[T + '%s(%s%s)' % (nm, r, N)] = InsC(where, 'node', has)
    A[T + 'Detach(%s, bool)' % N] = DetC('Detach')
    A[T + 'Remove(%s)' % N] = DetC('Remove')
    A[T + 'Pop(bool)'] = DetC('Pop')
    A[T + 'Shift(bool)'] = DetC('Shift')
    A[T + 'Find(long) const'] = FindC('int')
    A[T + 'Find(%s) const' % S] = FindC('str')
    A[T + 'Find(%s) const' % N] = FindC('node')
    A[T + 'ResizeHash(unsigned long)'] = ResizeC()
    A[T + 'Empty(bool, bool)'] = EmptyC(True)
    A[T + 'CreateNode()'] = NodeC('none')
    A[T + 'CreateNode(long, %s)' % V] = NodeC('int')
    A[T + 'CreateNode(%s, %s)' % (S, V)] = NodeC('str')
    A[T + 'OrderedHash(unsigned long, unsigned long)'] = CtorC(False)
    A[T + 'OrderedHash(unsigned long, unsigned long, unsigned long)'] = CtorC(True)
    A[T + '~OrderedHash()'] = EmptyC(True, True)
    for g in ('FirstList', 'LastList', 'GetListSize', 'GetHashSize', 'RawHash'):
        A[T + g + '() const'] = GetC(g)
    BI = {'memcmp': b_memcmp, 'memcpy': b_memcpy, 'llvm.memcpy': b_memcpy}
    OPT = dict(off0=True, new_kind=nk(False), fork=True, uf_div=True, fresh=1500)
    cons = [(k, v) for k, v in A.items()] + [G]
    REN = [('17OrderedHashNoCopyI', '11OrderedHashI'), ('OrderedHashNoCopy', 'OrderedHash'), ('17OrderedHashC', '11OrderedHashC')]
    hs = '(unsigned char const*, unsigned long, unsigned long'
    out.append(dict(tu='oh', fn=G[0], con=HashC(), opts=OPT, contracts=[('CubicleSoft::OrderedHashUtil::GetSipHashKey' + hs + ', unsigned long, unsigned long, unsigned long)', SipC('sip', 6)), ('CubicleSoft::OrderedHashUtil::GetDJBX33XHashKey' + hs + ')', SipC('djb', 3))]))
    for k, v in A.items():
        cs = cons
        o = dict(OPT)
        if isinstance(v, InsC) and v.by == 'node' and v.has_ref:
            cs = [(a, b) for a, b in cons if 'ResizeHash' not in a] + [(T + 'ResizeHash(unsigned long)', ResizeC(v))]
        if isinstance(v, ResizeC):
            o['new_kind'] = nk(True)
        if isinstance(v, (ResizeC, EmptyC, FindC)):
            o['hrl'] = 6
        cs = [(a, b) for a, b in cs if a != k]
        if k.endswith('Empty(bool, bool)'):
            out.append(dict(tu='oh', fn=k, con=EmptyC(False), opts=o, contracts=cs, builtins=BI, label='keeping the nodes'))
            out[-1]['con'].postwf = None
        out.append(dict(tu='oh', fn=k, con=v, opts=o, contracts=cs, builtins=BI, label='deleting the nodes' if k.endswith('Empty(bool, bool)') else ''))
    return out


def nk(table):
    def f(x, i, n):
        v = num(n)
        if v is not None and v == x.M.di[NN]['size']:
            return 'node'
        return 'table' if table else 'bytes'
    return f


ASSUME = ['element values are 64-bit integers in the proof (other element types are run by the oracle)', 'nodes given to a hash belong to it or to none, a detached node\'s cached hash key comes from a hash with the same configuration (or is reset), at most 2^56 elements and 2^40 buckets, at least one bucket', 'operator new does not fail',
          'the bytes of a key string do not change while its node is in the hash; memcmp decides and memcpy preserves the identity of such texts', 'no chain is longer than the list (pigeon hole principle, only used to exclude overflow of a ghost counter)',
          'the remainder operation is uninterpreted except for its range', 'copy constructor, assignment, node key setters and Empty without deletion (stale list links) are decided by the oracle only (bounded)']
