from .monitor import *
from .syncobj import *

ID = 'C18'
HARNESS = 'C18.cpp'
BUDGET = 6
U = 'CubicleSoft::Sync::Util::'


def tus():
    return {'util': include('sync/sync_util.cpp'), 'sem': include('sync/sync_util.cpp', 'sync/sync_semaphore.cpp')}


class Sem(Monitor):
    """shared: Count (at most Max), Max (constant).  s_taken: permits taken by this call (negative: returned)"""
    extra = (('s_c0', 32), ('s_taken', 32))
    cls = 'UnixSemaphoreWrapper'

    def init(self, x):
        o = self.off = {n: fieldoff(x.M, self.cls, n) for n in ('MxMutex', 'MxCount', 'MxMax', 'MxCond')}
        x.kind('wrapper', x.M.di[self.cls]['size'], [(v, 'ptr') for v in o.values()], False)

    def setup(self, x, st, f):
        self.ghosts0(x, st)
        w = self.w = x.param_obj(st, 'UnixSemaphore', 'wrapper')
        o = self.off
        self.mutex = self.opaque(x, st, 'mutex', w, o['MxMutex'])
        self.cond = self.opaque(x, st, 'cond', w, o['MxCond'], 48)
        self.count = self.cell(x, st, 'Count', 'i32', w, o['MxCount'])
        self.max = self.cell(x, st, 'Max', 'i32', w, o['MxMax'])
        self.shared = [(self.count, False), (self.max, True)]
        self.install(x)
        return [w.ptr()] + self.more(x, st)

    def C(self, m):
        return m.u32(self.count.ptr())

    def X(self, m):
        return m.u32(self.max.ptr())

    def invariant(self, m):
        return ULE(self.C(m), self.X(m))

    def requires(self, c):
        return [('count within maximum', self.invariant(c.old))]

    def modifies(self, c):
        return [Region(self.count.id)] + self.gmods()

    def acquired(self, x, st):
        gset(x, st, 's_c0', self.C(st.mem))

    def released(self, x, st, i, wait):
        m = st.mem
        c0, c = gget(m, 's_c0'), self.C(m)
        if wait:
            ob(x, st, c == c0, 'no permit is taken or returned before waiting', i)
        gset(x, st, 's_taken', gget(m, 's_taken') + c0 - c)
        gset(x, st, 's_owed', z3.If(And(UGT(c, c0), gget(m, 's_sig') + gget(m, 's_bro') == 0), B1, gget(m, 's_owed')))

    def minv(self, c, L):
        return [('count as seen', lambda w: self.C(w.mem) == gget(w.mem, 's_c0')), ('none taken', lambda w: gget(w.mem, 's_taken') == 0), ('within maximum', lambda w: self.invariant(w.mem)), ('nothing there', lambda w: self.C(w.mem) == 0), ('no error', lambda w: gget(w.mem, 's_err') == 0), ('maximum', lambda w: self.X(w.mem) == self.X(c.old))]


class Wait(Sem):
    short = 'WaitForUnixSemaphore'

    def more(self, x, st):
        self.waitarg = bvar('Wait', 32)
        return [self.waitarg]

    def ensures(self, c):
        m, g = c.new, lambda n: gget(c.new, n)
        W = self.waitarg
        return [('the internal mutex is released', g('s_held') == 0),
                ('success takes exactly one permit, failure none', g('s_taken') == z3.If(c.ret, bv(1, 32), bv(0, 32))),
                ('a permit was there when it was taken', Implies(c.ret, g('s_c0') != 0)),
                ('no wait means no blocking', Implies(W == 0, g('s_blk') == 0)),
                ('failure only when nothing is available without waiting, on a timeout or an error', Implies(Not(c.ret), Or(g('s_err') == 1, And(W == 0, g('s_c0') == 0)))),
                ('announcements are not lost', g('s_owed') == 0)]


class Release(Sem):
    short = 'ReleaseUnixSemaphore'

    def __init__(self, null):
        self.null = null

    def more(self, x, st):
        if self.null:
            return [Ptr(0, 0)]
        self.prev = x.param_obj(st, 'PrevVal', 'cell_i32')
        return [self.prev.ptr()]

    def modifies(self, c):
        return Sem.modifies(self, c) + ([] if self.null else [Region(self.prev.id)])

    def ensures(self, c):
        m, g = c.new, lambda n: gget(c.new, n)
        full = g('s_c0') == self.X(m)
        out = [('the internal mutex is released', g('s_held') == 0),
               ('exactly one permit is returned unless all are there', Implies(c.ret, g('s_taken') == z3.If(full, bv(0, 32), bv(0xffffffff, 32)))),
               ('failure changes nothing and only follows an error', Implies(Not(c.ret), And(g('s_taken') == 0, g('s_err') == 1))),
               ('a returned permit is announced to a waiting thread', And(g('s_owed') == 0, Implies(c.ret, Or(full, g('s_sig') + g('s_bro') != 0))))]
        if not self.null:
            out.append(('the previous count is reported', Implies(c.ret, m.u32(self.prev.ptr()) == g('s_c0'))))
        return out


def jobs(mods):
    W, R = U + 'WaitForUnixSemaphore(CubicleSoft::Sync::Util::UnixSemaphoreWrapper&, unsigned int)', U + 'ReleaseUnixSemaphore(CubicleSoft::Sync::Util::UnixSemaphoreWrapper&, unsigned int*)'
    S = 'CubicleSoft::Sync::Semaphore::'
    X = '(CubicleSoft::Sync::Util::UnixSemaphoreWrapper&'
    o = dict(fork=True)
    parts = [('MxMutex', 40, 4), ('MxCount', 4, 4), ('MxMax', 4, 4), ('MxCond', 48, 4)]
    wst, rst = (W, Stub('WaitForUnixSemaphore', 1)), (R, Stub('ReleaseUnixSemaphore', out=True))
    return [dict(tu='util', fn=W, con=Wait(), opts=dict(fork=True, lindiv=True, bvint=True), builtins=BUILT), dict(tu='util', fn=R, con=Release(True), opts=dict(fork=True), builtins=BUILT, label='no previous count wanted'),
            dict(tu='util', fn=R, con=Release(False), opts=dict(fork=True), builtins=BUILT),
            dict(tu='util', fn=U + 'GetUnixSemaphoreSize()', con=Size('GetUnixSemaphoreSize', 96), opts=o),
            dict(tu='util', fn=U + 'GetUnixSemaphore' + X + ', char*)', con=Layout('GetUnixSemaphore', 'UnixSemaphoreWrapper', parts, 96), opts=o),
            dict(tu='util', fn=U + 'InitUnixSemaphore' + X + ', bool, unsigned int, unsigned int)', con=Init('InitUnixSemaphore', 'UnixSemaphoreWrapper', [('MxCount', 'i32'), ('MxMax', 'i32')], [('Shared', 'b'), ('Start', 32), ('Max', 32)], post_init), opts=o, builtins=IB),
            dict(tu='sem', fn=S + 'Lock(unsigned int)', con=Thin('Lock', 'Semaphore', 'MxPthreadSemaphore', 'Wait'), opts=o, contracts=[wst]),
            dict(tu='sem', fn=S + 'Unlock(int*)', con=Thin('Unlock', 'Semaphore', 'MxPthreadSemaphore', prev=True, const=True), opts=o, contracts=[rst]),
            dict(tu='sem', fn=S + 'Unlock(int*)', con=Thin('Unlock', 'Semaphore', 'MxPthreadSemaphore', prev=False, const=True), opts=o, contracts=[rst], label='no previous count wanted')]


def post_init(c, a, v):
    st = z3.If(ULT(a['Max'], a['Start']), a['Max'], a['Start'])
    return [('starts with the given count, at most the maximum', And(v['MxCount'] == st, v['MxMax'] == a['Max']))]


ASSUME = ['pthread mutexes and conditions obey their contracts: mutual exclusion, and other threads follow this same monitor (every function that touches the shared cells is under contract here)',
          'a woken or timed out waiter returns (liveness of the scheduler); loops around condition waits may repeat while others are faster',
          'Create and the destructor (named memory life cycle) are covered by the oracle and by property C22',
          'the memory of the object is aligned to 4 bytes, as the code assumes; sizes of pthread types are those of this platform']
