from .common import *

ID = 'C11'
HARNESS = 'C11.cpp'
BUDGET = 4
MAXE = 1 << 40


def tus():
    return {'arr': include('templates/static_vector.h', 'templates/static_2d_array.h') + '''
template class CubicleSoft::StaticVector<unsigned long>;
template class CubicleSoft::Static2DArray<unsigned long>;
'''}


def newkind(x, i, n):
    return 'arr'


def mulh(x, st, a, b):
    """products of two unknowns are uninterpreted (code and contract use the same terms); sound facts only"""
    if num(a) is not None or num(b) is not None:
        return None
    return MUL(x)(a, b)


def MUL(x):
    return x.uf('mulw', 64, 64, 64)


def alive(m, o):
    return m.m['alive'].read(o, bv(0))


class Arr(Contract):
    """two containers: args[0] = this, args[1] = other; literal storage objects"""
    cname = None
    short = '?'

    def __init__(self, null0=False, null1=False, same=False, has1=True, fresh0=False):
        self.null0, self.null1, self.same, self.has1, self.fresh0 = null0, null1, same, has1, fresh0

    def init(self, x):
        x.kind('arr', 8, [(0, 'i64'), (0, 'ptr')], True)
        d = x.M.di.get(self.cname)
        if d is None:
            raise Unsupported('class layout of ' + self.cname)
        self.sz = d['size']
        fl = []
        self.F = {}
        for n, (o, s, *r) in d['fields'].items():
            self.F[n] = o
        for n in self.PTRS:
            fl.append((fieldoff(x.M, self.cname, n), 'ptr'))
        for n in self.NUMS:
            fl.append((fieldoff(x.M, self.cname, n), 'i64'))
        x.kind('cont', self.sz, fl, False)

    def mk(self, x, st, tag, null):
        o = x.param_obj(st, tag, 'cont')
        n = self.total(x, st, o)
        st.assume(ULE(n, MAXE))
        self.constrain(x, st, o)
        objs = []
        for k, p in enumerate(self.PTRS):
            if null:
                st.mem = st.mem.st('ptr', o.ptr(self.F[p]), NULL)
                st.assume(n == 0)
                objs.append(None)
            else:
                d = x.param_obj(st, tag + '.' + p, 'arr', self.psize(x, st, o, p))
                st.mem = st.mem.st('ptr', o.ptr(self.F[p]), d.ptr())
                objs.append(d)
        return o, objs

    def constrain(self, x, st, o):
        pass

    def fld(self, m, o, n):
        return m.u64(Ptr(o, self.F[n]))

    def pf(self, m, o, n):
        return m.ptr(Ptr(o, self.F[n]))

    def setup(self, x, st, f):
        self.d0 = self.d1 = []
        if self.fresh0:
            o = x.param_obj(st, 'this', 'cont')
        else:
            o, self.d0 = self.mk(x, st, 'this', self.null0)
        args = [o.ptr()]
        if self.has1:
            if self.same:
                args.append(o.ptr())
                self.d1 = self.d0
            else:
                o1, self.d1 = self.mk(x, st, 'other', self.null1)
                args.append(o1.ptr())
        args += self.more(x, st, f)
        return args

    def more(self, x, st, f):
        return []

    def requires(self, c):
        out = []
        if not self.fresh0:
            out += self.rows(c, c.old, c.args[0].obj)
        if self.has1 and not self.same:
            out += self.rows(c, c.old, c.args[1].obj)
        return out

    def refs(self, c):
        out = []
        for k in range(1 if self.fresh0 else 0, 2 if self.has1 else 1):
            o = c.args[k].obj
            out.append(('count%d' % k, self.cnt(c, c.old, o)))
            for n in self.NUMS:
                out.append((n + str(k), self.fld(c.old, o, n)))
        return out

    def equal(self, c, m0, o0, m1, o1, n):
        """first n elements of the storages are equal"""
        p, q = self.pf(m0, o0, self.DATA), self.pf(m1, o1, self.DATA)
        return FA(64, lambda f: Implies(And(ULT(f, n * 8), (f & 7) == 0), m0.u64(Ptr(p.obj, f)) == m1.u64(Ptr(q.obj, f))), pat=lambda f: [m0.u64(Ptr(p.obj, f))])


class VecBase:
    cname = 'StaticVector<unsigned long>'
    PTRS = ('ptr',)
    NUMS = ('Size',)
    DATA = 'ptr'

    def total(self, x, st, o):
        return st.mem.u64(o.ptr(self.F['Size']))

    def psize(self, x, st, o, p):
        return self.total(x, st, o) * 8

    def cnt(self, c, m, o):
        return self.fld(m, o, 'Size')

    def dims_eq(self, c, m0, o0, m1, o1):
        return self.fld(m0, o0, 'Size') == self.fld(m1, o1, 'Size')

    def shape(self, c, m, o):
        n = self.fld(m, o, 'Size')
        p = self.pf(m, o, 'ptr')
        return And(p.off == 0, Or(And(p.obj == 0, n == 0), And(p.obj != 0, m.alive(p.obj), c.x.oszf(p.obj) == n * 8)))

    def rows(self, c, m, o):
        return []


class ArrBase:
    cname = 'Static2DArray<unsigned long>'
    PTRS = ('baseptr', 'ptr')
    NUMS = ('Width', 'Height')
    DATA = 'baseptr'

    def total(self, x, st, o):
        return MUL(x)(st.mem.u64(o.ptr(self.F['Width'])), st.mem.u64(o.ptr(self.F['Height'])))

    def psize(self, x, st, o, p):
        return (self.total(x, st, o) if p == 'baseptr' else st.mem.u64(o.ptr(self.F['Height']))) * 8

    def constrain(self, x, st, o):
        st.assume(ULE(st.mem.u64(o.ptr(self.F['Height'])), MAXE))
        st.assume(ULE(st.mem.u64(o.ptr(self.F['Width'])), MAXE))

    def cnt(self, c, m, o):
        return MUL(c.x)(self.fld(m, o, 'Width'), self.fld(m, o, 'Height'))

    def dims_eq(self, c, m0, o0, m1, o1):
        return And(*[self.fld(m0, o0, n) == self.fld(m1, o1, n) for n in self.NUMS])

    def shape(self, c, m, o):
        n, h = self.cnt(c, m, o), self.fld(m, o, 'Height')
        p, r = self.pf(m, o, 'baseptr'), self.pf(m, o, 'ptr')
        z = c.x.oszf
        return And(p.off == 0, r.off == 0, Or(And(p.obj == 0, r.obj == 0, n == 0), And(p.obj != 0, r.obj != 0, p.obj != r.obj, m.alive(p.obj), m.alive(r.obj), z(p.obj) == n * 8, z(r.obj) == h * 8)))

    def rows(self, c, m, o):
        """row k starts at element k*Width"""
        w, h = self.fld(m, o, 'Width'), self.fld(m, o, 'Height')
        p, r = self.pf(m, o, 'baseptr'), self.pf(m, o, 'ptr')

        def row(f):
            v = m.ptr(Ptr(r.obj, f))
            return Implies(And(r.obj != 0, ULT(f, h * 8), (f & 7) == 0), And(v.obj == p.obj, v.off == MUL(c.x)(w, z3.LShR(f, 3)) * 8))
        return [('every row pointer is base + row*width', FA(64, row, pat=lambda f: [m.ptr(Ptr(r.obj, f)).obj, m.ptr(Ptr(r.obj, f)).off]))]


def after_ok(self, c, o0, changed=True):
    out = [('storage matches the recorded size', self.shape(c, c.new, o0))]
    return out + self.rows(c, c.new, o0)


class Ctor(Arr):
    short = 'constructor'

    def __init__(self):
        Arr.__init__(self, has1=False, fresh0=True)

    def more(self, x, st, f):
        return [bvar('dim%d' % k) for k in range(len(self.NUMS))]

    def requires(self, c):
        d = c.args[1:]
        out = [('dimensions are addressable', And(*[ULE(v, MAXE) for v in d]))]
        if len(d) == 2:
            out.append(('product is addressable', ULE(MUL(c.x)(*d), MAXE)))
        return out

    def modifies(self, c):
        return [Region(c.args[0].obj)]

    def ensures(self, c):
        o = c.args[0].obj
        out = [('recorded size is the requested one', And(*[self.fld(c.new, o, n) == v for n, v in zip(self.NUMS, c.args[1:])]))]
        out += after_ok(self, c, o)
        out.append(('storage is new', And(*[And(self.pf(c.new, o, p).obj != 0, Not(c.old.alive(self.pf(c.new, o, p).obj))) for p in self.PTRS])))
        return out

    def inv(self, c, L):
        return row_inv(self, c)


def row_inv(self, c):
    """rows already set (by any loop with a counter x): every row below the counter"""
    if self.DATA != 'baseptr':
        return []
    out = []
    x = c.x

    def mk(w):
        # counter: the loop variable
        k = [v for v in w.vals.values() if z3.is_bv(v) and v.size() == 64]
        return k[0] if k else None

    def rows_below(w):
        o = c.args[0].obj
        k = mk(w)
        if k is None:
            return True
        # base/row pointers and the width come from the state at loop entry (locals or fields)
        b, r = self.pf(w.mem, o, 'baseptr').obj, self.pf(w.mem, o, 'ptr').obj
        wd = c.args[1] if len(c.args) == 3 else self.fld(c.old, c.args[1].obj, 'Width')

        def row(f):
            v = w.mem.ptr(Ptr(r, f))
            return Implies(And(ULT(f, k * 8), (f & 7) == 0), And(v.obj == b, v.off == MUL(x)(wd, z3.LShR(f, 3)) * 8))
        return FA(64, row, pat=lambda f: [w.mem.ptr(Ptr(r, f)).obj, w.mem.ptr(Ptr(r, f)).off])

    def rows_all(w):
        m = w.mem
        if len(c.args) == 3:
            return True
        o = c.args[0].obj
        b, r = self.pf(m, o, 'baseptr').obj, self.pf(m, o, 'ptr').obj
        wd, h = self.fld(c.old, c.args[1].obj, 'Width'), self.fld(c.old, c.args[1].obj, 'Height')

        def row(f):
            v = m.ptr(Ptr(r, f))
            return Implies(And(ULT(f, h * 8), (f & 7) == 0), And(v.obj == b, v.off == MUL(x)(wd, z3.LShR(f, 3)) * 8))
        return FA(64, row, pat=lambda f: [m.ptr(Ptr(r, f)).obj, m.ptr(Ptr(r, f)).off])
    return [('rows set so far', rows_below), ('rows complete', rows_all)]


def data_inv(self, c):
    """elements below the counter have been copied"""
    x = c.x

    def copied(w):
        k = [v for v in w.vals.values() if z3.is_bv(v) and v.size() == 64]
        if not k:
            return True
        k = k[0]
        m = w.mem
        p = self.pf(m, c.args[0].obj, self.DATA)
        q = self.pf(c.old, c.args[1].obj, self.DATA)
        return FA(64, lambda f: Implies(And(ULT(f, k * 8), (f & 7) == 0), m.u64(Ptr(p.obj, f)) == c.old.u64(Ptr(q.obj, f))), pat=lambda f: [m.u64(Ptr(p.obj, f))])

    def same(w):
        k = [v for v in w.vals.values() if z3.is_bv(v) and v.size() == 64]
        if not k:
            return True
        k = k[0]
        m = w.mem
        p = self.pf(m, c.args[0].obj, self.DATA)
        q = self.pf(c.old, c.args[1].obj, self.DATA)
        return FA(64, lambda f: Implies(And(ULT(f, k * 8), (f & 7) == 0), m.u64(Ptr(p.obj, f)) == m.u64(Ptr(q.obj, f))), pat=lambda f: [m.u64(Ptr(p.obj, f))])
    return [('elements copied so far', copied), ('elements equal so far', same)]


class CopyCtor(Arr):
    short = 'copy constructor'

    def __init__(self, null1=False):
        Arr.__init__(self, null1=null1, fresh0=True)

    def modifies(self, c):
        return [Region(c.args[0].obj)]

    def ensures(self, c):
        o, s = c.args[0].obj, c.args[1].obj
        out = [('same dimensions', self.dims_eq(c, c.new, o, c.old, s))] + after_ok(self, c, o)
        out.append(('same elements', self.equal(c, c.new, o, c.old, s, self.cnt(c, c.old, s))))
        out.append(('storage is new', And(*[Implies(self.pf(c.new, o, p).obj != 0, Not(c.old.alive(self.pf(c.new, o, p).obj))) for p in self.PTRS])))
        return out

    def inv(self, c, L):
        return row_inv(self, c) + data_inv(self, c)


class Assign(Arr):
    short = 'operator='

    def modifies(self, c):
        out = [Region(c.args[0].obj)]
        if not self.same:
            for d in self.d0:
                if d is not None:
                    out += [Region(d.id), Region(d.id, cls='alive')]
        return out

    def ensures(self, c):
        o, s = c.args[0].obj, c.args[1].obj
        out = [('same dimensions', self.dims_eq(c, c.new, o, c.old, s))] + after_ok(self, c, o)
        out.append(('same elements', self.equal(c, c.new, o, c.old, s, self.cnt(c, c.old, s))))
        out.append(('returns the assigned object', c.ret.eq(c.args[0])))
        for p, d in zip(self.PTRS, self.d0):
            if d is not None:
                out.append(('old storage is kept or released, never lost: ' + p, Or(self.pf(c.new, o, p).obj == d.id, Not(c.new.alive(bv(d.id))))))
        for p, d in zip(self.PTRS, self.d1):
            if d is not None and not self.same:
                out.append(('source storage is not shared: ' + p, And(self.pf(c.new, o, p).obj != d.id, c.new.alive(bv(d.id)))))
        return out

    def inv(self, c, L):
        return row_inv(self, c) + data_inv(self, c)


class Equal(Arr):
    short = 'operator=='

    def __init__(self, neg=False, **k):
        Arr.__init__(self, **k)
        self.neg = neg

    def modifies(self, c):
        return []

    def ensures(self, c):
        o, s = c.args[0].obj, c.args[1].obj
        de = self.dims_eq(c, c.old, o, c.old, s)
        r = Not(c.ret) if self.neg else c.ret
        n = self.cnt(c, c.old, s)
        eqs = self.equal(c, c.old, o, c.old, s, n)
        return [('equal means equal dimensions', Implies(r, de)),
                ('equal means equal elements', Imp(r, eqs)),
                ('equal dimensions and elements compare equal', Imp(And(de, as_fact(eqs)), r))]

    def inv(self, c, L):
        return data_inv(self, c)


class Dtor(Arr):
    short = 'destructor'

    def __init__(self, null0=False):
        Arr.__init__(self, null0=null0, has1=False)

    def modifies(self, c):
        return [Region(d.id, cls='alive') for d in self.d0 if d is not None]

    def ensures(self, c):
        return [('storage is released', And(*[Not(c.new.alive(bv(d.id))) for d in self.d0 if d is not None]))]


class Get(Arr):
    def __init__(self, which):
        Arr.__init__(self, has1=False)
        self.which = which
        self.short = which

    def more(self, x, st, f):
        return [bvar('Pos')] if self.which == '[]' else []

    def requires(self, c):
        if self.which == '[]':
            lim = self.fld(c.old, c.args[0].obj, 'Height' if self.DATA == 'baseptr' else 'Size')
            return [('position within bounds', ULT(c.args[1], lim))] + self.rows(c, c.old, c.args[0].obj)
        return []

    def modifies(self, c):
        return []

    def ensures(self, c):
        o = c.args[0].obj
        if self.which in self.NUMS:
            return [('reports the dimension', c.ret == self.fld(c.old, o, self.which))]
        if self.which == 'raw':
            return [('grants access to the storage', c.ret.eq(self.pf(c.old, o, 'ptr')))]
        k = c.args[1]
        p = self.pf(c.old, o, self.DATA)
        if self.DATA == 'baseptr':
            return [('row k of the storage', And(c.ret.obj == p.obj, c.ret.off == MUL(c.x)(self.fld(c.old, o, 'Width'), k) * 8))]
        return [('element k of the storage', And(c.ret.obj == p.obj, c.ret.off == k * 8))]


OPT = dict(new_kind=newkind, mul_hook=mulh, fork=True)


def mix(B, C):
    return type(B.__name__ + C.__name__, (B, C), {})


def jobs(mods):
    out = []
    for nm, B in (('StaticVector', VecBase), ('Static2DArray', ArrBase)):
        T = 'CubicleSoft::%s<unsigned long>::' % nm
        R = 'CubicleSoft::%s<unsigned long> const&' % nm
        two = nm == 'Static2DArray'

        def job(sig, con, label=''):
            out.append(dict(tu='arr', fn=T + sig, con=con, opts=OPT, label=label))
        job('%s(%s)' % (nm, ', '.join(['unsigned long'] * (2 if two else 1))), mix(B, Ctor)())
        for n1 in (False, True):
            job('%s(%s)' % (nm, R), mix(B, CopyCtor)(null1=n1), 'empty source' if n1 else '')
        for n0 in (False, True):
            for n1 in (False, True):
                job('operator=(%s)' % R, mix(B, Assign)(null0=n0, null1=n1), 'storage null: %d %d' % (n0, n1))
                job('operator==(%s) const' % R, mix(B, Equal)(null0=n0, null1=n1), 'storage null: %d %d' % (n0, n1))
                job('operator!=(%s) const' % R, mix(B, Equal)(neg=True, null0=n0, null1=n1), 'storage null: %d %d' % (n0, n1))
        job('operator=(%s)' % R, mix(B, Assign)(same=True), 'self')
        job('operator==(%s) const' % R, mix(B, Equal)(same=True), 'self')
        for n0 in (False, True):
            job('~%s()' % nm, mix(B, Dtor)(null0=n0), 'storage null' if n0 else '')
        job('operator[](unsigned long)', mix(B, Get)('[]'))
        job('RawData() const', mix(B, Get)('raw'))
        for n in B.NUMS:
            job('Get%s() const' % n, mix(B, Get)(n))
    return out


ASSUME = ['element type instantiated with a 64-bit integer in the proof (the oracle also runs strings and bytes); element copy and comparison are the type\'s own',
          'dimensions and their product are at most 2^40 elements (larger requests make operator new throw)',
          'the product of width and height is treated as an uninterpreted function: the same term in code and contract']
