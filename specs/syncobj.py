"""Layout, initialization and thin member functions of the synchronization objects."""
from .monitor import *

U = 'CubicleSoft::Sync::Util::'
MUTEX, COND = 40, 48      # sizes of pthread_mutex_t and pthread_cond_t on this platform


class Size(Contract):
    """GetUnix*Size: computed by the code, compared with the sum of its parts by the layout contract"""

    def __init__(self, short, need):
        self.short, self.need = short, need

    def setup(self, x, st, f):
        return []

    def ensures(self, c):
        return [('room for every part', And(UGE(c.ret, self.need), ULE(c.ret, 4096), (c.ret & 3) == 0))]


class Layout(Contract):
    """GetUnix*: every part gets its own aligned bytes inside the memory"""

    def __init__(self, short, cls, parts, total):
        self.short, self.cls, self.parts, self.total = short, cls, parts, total

    def init(self, x):
        self.off = {n: fieldoff(x.M, self.cls, n) for n, _, _ in self.parts}
        x.kind('wrapper', x.M.di[self.cls]['size'], [(v, 'ptr') for v in self.off.values()], False)

    def setup(self, x, st, f):
        self.w = x.param_obj(st, 'Result', 'wrapper')
        self.size = bvar('MemSize')
        self.mem = x.param_obj(st, 'Mem', 'bytes', self.size)
        self.pos = bvar('pos')
        st.assume(And(UGE(self.size, self.total), ULE(self.pos, self.size - self.total), (self.pos & 3) == 0))
        return [self.w.ptr(), Ptr(self.mem.id, self.pos)]

    def modifies(self, c):
        return [Region(self.w.id)]

    def ensures(self, c):
        P = [(n, c.new.ptr(self.w.ptr(self.off[n])), s, al) for n, s, al in self.parts]
        out = []
        for k, (n, p, s, al) in enumerate(P):
            out.append(('%s lies inside the memory' % n, And(p.obj == self.mem.id, UGE(p.off, self.pos), ULE(p.off - self.pos, self.total - s))))
            out.append(('%s is aligned' % n, ((p.off - self.pos) & (al - 1)) == 0))
            for n2, p2, s2, _ in P[:k]:
                out.append(('%s and %s do not overlap' % (n2, n), Or(ULE(p.off + s, p2.off), ULE(p2.off + s2, p.off))))
        return out


# ---- initialization
def b_attr(kind, g):
    def h(x, st, a, i):
        gset(x, st, g, bv(0, 32))
        return bv(0, 32)
    return h


def b_setshared(g):
    def h(x, st, a, i):
        gset(x, st, g, a[1])
        return bv(0, 32)
    return h


def b_init(part, g, done):
    def h(x, st, a, i):
        o = getattr(x.con_, part)
        ob(x, st, And(a[0].obj == o.id, a[0].off == 0), 'the %s of this object is initialized' % part, i)
        ob(x, st, gget(st.mem, done) == 0, 'the %s is initialized once' % part, i)
        gset(x, st, done, z3.If(a[1].obj == 0, bv(1, 32), bv(1, 32) + gget(st.mem, g)))
        return bv(0, 32)
    return h


def b_ok(x, st, a, i):
    return bv(0, 32)


IB = {'pthread_mutexattr_init': b_attr('mutex', 's_ma'), 'pthread_condattr_init': b_attr('cond', 's_ca'), 'pthread_mutexattr_setpshared': b_setshared('s_ma'), 'pthread_condattr_setpshared': b_setshared('s_ca'),
      'pthread_mutex_init': b_init('mutex', 's_ma', 's_mi'), 'pthread_cond_init': b_init('cond', 's_ca', 's_ci'), 'pthread_mutexattr_destroy': b_ok, 'pthread_condattr_destroy': b_ok}
IG = (('s_ma', 32), ('s_ca', 32), ('s_mi', 32), ('s_ci', 32))


class Init(Monitor):
    extra = IG

    def __init__(self, short, cls, cells, args, post):
        self.short, self.cls, self.cells, self.argl, self.post = short, cls, cells, args, post

    def init(self, x):
        names = ['MxMutex', 'MxCond'] + [n for n, _ in self.cells]
        o = self.off = {n: fieldoff(x.M, self.cls, n) for n in names}
        x.kind('wrapper', x.M.di[self.cls]['size'], [(v, 'ptr') for v in o.values()], False)
        x.con_ = self

    def setup(self, x, st, f):
        self.ghosts0(x, st)
        w = self.w = x.param_obj(st, 'Wrapper', 'wrapper')
        self.mutex = self.opaque(x, st, 'mutex', w, self.off['MxMutex'])
        self.cond = self.opaque(x, st, 'cond', w, self.off['MxCond'], 48)
        self.co = {n: self.cell(x, st, n, cl, w, self.off[n]) for n, cl in self.cells}
        self.av = {}
        out = [w.ptr()]
        for n, t in self.argl:
            v = z3.Bool(n) if t == 'b' else bvar(n, 32)
            self.av[n] = v
            out.append(v)
        return out

    def modifies(self, c):
        return [Region(o.id) for o in self.co.values()] + self.gmods()

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        want = z3.If(self.av['Shared'], bv(2, 32), bv(1, 32))
        return [('mutex initialized, shared between processes as asked', g('s_mi') == want), ('condition initialized, shared between processes as asked', g('s_ci') == want)] + self.post(c, self.av, {n: (c.new.u8 if dict(self.cells)[n] == 'i8' else c.new.u32)(o.ptr()) for n, o in self.co.items()})


# ---- thin members
class Stub(Contract):
    """callee of a thin member function: any result; records what it was called with"""
    ghost_classes = ('s_call', 's_ret', 's_arg', 's_po', 's_pf')

    def __init__(self, short, arg=None, out=False):
        self.short, self.arg, self.outp = short, arg, out

    def requires(self, c):
        return []

    def modifies(self, c):
        r = [GhostRegion(g) for g in self.ghost_classes]
        if self.outp:
            r.append(Region(c.args[1].obj, c.args[1].off, 4, ['i32']))
        return r

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        a0 = c.args[0]
        out = [('called', And(g('s_call') == gget(c.old, 's_call') + 1, g('s_po') == a0.obj, g('s_pf') == a0.off))]
        if c.ret is not None:
            out.append(('result', (g('s_ret') == 1) == c.ret))
        if self.arg is not None:
            out.append(('argument', g('s_arg') == c.args[self.arg]))
        if self.outp:
            out.append(('previous value', c.new.u32(c.args[1]) == g('s_arg')))
        return out


class Thin(Contract):
    classes = (('s_call', 8), ('s_ret', 8), ('s_arg', 32), ('s_po', 64), ('s_pf', 64))
    ghost_classes = tuple(n for n, _ in classes)

    def __init__(self, short, cls, member, arg=None, prev=None, const=None):
        self.short, self.cls, self.member, self.arg, self.prev, self.const = short, cls, member, arg, prev, const

    def init(self, x):
        from irv.ir import Unsupported
        M = x.M
        self.mo, self.wo = fieldoff(M, self.cls, 'MxMem'), fieldoff(M, self.cls, self.member)
        x.kind('obj', M.di[self.cls]['size'], [(self.mo, 'ptr')], False)

    def setup(self, x, st, f):
        for n, w in self.classes:
            gset(x, st, n, bv(0, w))
        self.o = x.param_obj(st, 'this', 'obj')
        self.have = z3.Bool('created')
        mem = x.param_obj(st, 'mem', 'bytes', bv(256))
        st.mem = st.mem.st('ptr', self.o.ptr(self.mo), Ptr(z3.If(self.have, bv(mem.id), bv(0)), bv(0)))
        out = [self.o.ptr()]
        if self.arg:
            self.a = bvar(self.arg, 32)
            out.append(self.a)
        if self.prev is not None:
            x.kind('cell_i32', 4, [(0, 'i32')], False)
            if self.prev:
                self.p = x.param_obj(st, 'PrevCount', 'cell_i32')
                out.append(self.p.ptr())
            else:
                out.append(Ptr(0, 0))
        return out

    def modifies(self, c):
        return [GhostRegion(g) for g in self.ghost_classes] + ([Region(self.p.id)] if self.prev else [])

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        h = self.have
        out = [('nothing happens before creation', Implies(Not(h), And(Not(c.ret), g('s_call') == 0))), ('the operation is carried out once on this object', Implies(h, And(g('s_call') == 1, g('s_po') == self.o.id, g('s_pf') == self.wo)))]
        out.append(('the result is reported', Implies(h, c.ret == (True if self.const else (g('s_ret') == 1)))))
        if self.arg:
            out.append(('the time limit is passed on', Implies(h, g('s_arg') == self.a)))
        if self.prev:
            out.append(('the previous count is passed on', Implies(h, c.new.u32(self.p.ptr()) == g('s_arg'))))
        return out
