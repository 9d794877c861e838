from .monitor import *
from .syncobj import *

ID = 'C19'
HARNESS = 'C19.cpp'
BUDGET = 8
U = 'CubicleSoft::Sync::Util::'


def tus():
    return {'util': include('sync/sync_util.cpp'), 'ev': include('sync/sync_util.cpp', 'sync/sync_event.cpp')}


class Ev(Monitor):
    """shared: Manual (constant), Signaled, Waiting.
    ghost s_asl: threads counted in Waiting that are asleep; s_s0/s_w0 values at the start of the critical section,
    s_s1 the signal at its end, s_cnt the net change of Waiting by this call"""
    extra = (('s_asl', 32), ('s_s0', 8), ('s_s1', 8), ('s_w0', 32), ('s_cnt', 32))
    cls = 'UnixEventWrapper'

    def init(self, x):
        o = self.off = {n: fieldoff(x.M, self.cls, n) for n in ('MxMutex', 'MxManual', 'MxSignaled', 'MxWaiting', 'MxCond')}
        x.kind('wrapper', x.M.di[self.cls]['size'], [(v, 'ptr') for v in o.values()], False)

    def setup(self, x, st, f):
        self.ghosts0(x, st)
        w = self.w = x.param_obj(st, 'UnixEvent', 'wrapper')
        o = self.off
        self.mutex = self.opaque(x, st, 'mutex', w, o['MxMutex'])
        self.cond = self.opaque(x, st, 'cond', w, o['MxCond'], 48)
        self.manual = self.cell(x, st, 'Manual', 'i8', w, o['MxManual'])
        self.sig = self.cell(x, st, 'Signaled', 'i8', w, o['MxSignaled'])
        self.waiting = self.cell(x, st, 'Waiting', 'i32', w, o['MxWaiting'])
        self.shared = [(self.sig, False), (self.waiting, False), (self.manual, True)]
        self.install(x)
        return [w.ptr()] + self.more(x, st)

    def more(self, x, st):
        return []

    def M(self, m):
        return m.u8(self.manual.ptr())

    def S(self, m):
        return m.u8(self.sig.ptr())

    def W(self, m):
        return m.u32(self.waiting.ptr())

    def invariant(self, m):
        return True

    def alert(self, m):
        """no thread sleeps through a signal: an automatic event that is signaled has an awake waiter if it has sleeping ones, a manual one has no sleeping ones"""
        a, w = gget(m, 's_asl'), self.W(m)
        return And(ULE(a, w), Implies(self.S(m) != 0, Or(a == 0, And(self.M(m) == 0, ULT(a, w)))))

    def acquire(self, x, st, i):
        wt = getattr(self, '_wait', False)
        havoc_region(x, st, [Region(self.sig.id), Region(self.waiting.id)], i)
        gset(x, st, 's_asl', bvar(uid('asleep'), 32))
        m = st.mem
        st.assume(And(self.alert(m), ULT(self.W(m), 1 << 30)))
        if wt:
            st.assume(ULT(gget(m, 's_asl'), self.W(m)))      # this thread is counted and awake
        gset(x, st, 's_s0', self.S(m))
        gset(x, st, 's_w0', self.W(m))
        gset(x, st, 's_secs', gget(m, 's_secs') + 1)
        self._wait = False

    def release(self, x, st, i, wait):
        m = st.mem
        gset(x, st, 's_cnt', gget(m, 's_cnt') + self.W(m) - gget(m, 's_w0'))
        gset(x, st, 's_s1', self.S(m))
        m = st.mem
        if wait:
            self._wait = True
            ob(x, st, gget(m, 's_cnt') == 1, 'a sleeping thread is counted as waiting', i)
            ob(x, st, gget(m, 's_s0') == gget(m, 's_s1'), 'the signal is not changed before waiting', i)
            gset(x, st, 's_asl', gget(m, 's_asl') + 1)
            ob(x, st, self.alert(st.mem), 'nobody goes to sleep on a signaled event without another waiter being awake', i)
        else:
            gset(x, st, 's_owed', z3.If(self.alert(m), gget(m, 's_owed'), B1))

    def woke(self, x, st, all):
        a = gget(st.mem, 's_asl')
        gset(x, st, 's_asl', bv(0, 32) if all else z3.If(a == 0, a, a - 1))

    def modifies(self, c):
        return [Region(self.sig.id), Region(self.waiting.id)] + self.gmods()

    def minv(self, c, L):
        g = lambda w, n: gget(w.mem, n)
        return [('section start', lambda w: And(self.S(w.mem) == g(w, 's_s0'), self.W(w.mem) == g(w, 's_w0'))), ('signal', lambda w: self.S(w.mem) == g(w, 's_s0')), ('waiters', lambda w: self.W(w.mem) == g(w, 's_w0') + 1), ('counted', lambda w: g(w, 's_cnt') == 1), ('uncounted', lambda w: g(w, 's_cnt') == 0), ('counted once', lambda w: g(w, 's_cnt') + self.W(w.mem) - g(w, 's_w0') == 1),
                ('nothing signaled', lambda w: self.S(w.mem) == 0), ('no error', lambda w: g(w, 's_err') == 0), ('alert', lambda w: self.alert(w.mem)), ('me awake', lambda w: ULT(g(w, 's_asl'), self.W(w.mem))), ('few', lambda w: ULE(self.W(w.mem), 1 << 30)),
                ('alert when asleep', lambda w: Implies(self.S(w.mem) != 0, Or(g(w, 's_asl') + 1 == 0, And(self.M(w.mem) == 0, ULT(g(w, 's_asl') + 1, self.W(w.mem))))))]

    def common(self, c):
        g = lambda n: gget(c.new, n)
        return [('the internal mutex is released', g('s_held') == 0), ('the number of waiting threads is kept', g('s_cnt') == 0), ('no thread is left asleep on a signaled event', g('s_owed') == 0)]


class Wait(Ev):
    short = 'WaitForUnixEvent'

    def more(self, x, st):
        self.waitarg = bvar('Wait', 32)
        return [self.waitarg]

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        W, man = self.waitarg, self.M(c.new) != 0
        return self.common(c) + [('success only when the event is signaled, which an automatic event loses', Implies(c.ret, And(g('s_s0') != 0, g('s_s1') == z3.If(man, g('s_s0'), B0)))),
                                 ('failure leaves the signal', Implies(Not(c.ret), g('s_s0') == g('s_s1'))),
                                 ('no wait means no blocking', Implies(W == 0, g('s_blk') == 0)),
                                 ('failure only without a signal when not waiting, on a timeout or an error', Implies(Not(c.ret), Or(g('s_err') == 1, And(W == 0, Or(g('s_s0') == 0, And(Not(man), g('s_w0') != 0))))))]


class Fire(Ev):
    short = 'FireUnixEvent'

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        return self.common(c) + [('the event is signaled', Implies(c.ret, And(g('s_secs') == 1, g('s_s1') != 0))), ('failure changes nothing and only follows an error', Implies(Not(c.ret), And(g('s_secs') == 0, g('s_err') == 1))),
                                 ('every waiter of a manual event, one waiter of an automatic event is woken', Implies(c.ret, Or(g('s_bro') != 0, And(self.M(c.new) == 0, g('s_sig') != 0))))]


class Reset(Ev):
    short = 'ResetUnixEvent'

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        man = self.M(c.new) != 0
        return self.common(c) + [('the event is not signaled any more', Implies(c.ret, And(man, g('s_secs') == 1, g('s_s1') == 0))), ('failure changes nothing, for automatic events or after an error', Implies(Not(c.ret), And(g('s_secs') == 0, Or(Not(man), g('s_err') == 1))))]


def jobs(mods):
    T = '(CubicleSoft::Sync::Util::UnixEventWrapper&'
    o = dict(fork=True, lindiv=True, bvint=True)
    S = 'CubicleSoft::Sync::Event::'
    parts = [('MxMutex', 40, 4), ('MxManual', 1, 1), ('MxSignaled', 1, 1), ('MxWaiting', 4, 4), ('MxCond', 48, 4)]
    W = U + 'WaitForUnixEvent' + T + ', unsigned int)'
    return [dict(tu='util', fn=U + 'WaitForUnixEvent' + T + ', unsigned int)', con=Wait(), opts=o, builtins=BUILT), dict(tu='util', fn=U + 'FireUnixEvent' + T + ')', con=Fire(), opts=o, builtins=BUILT), dict(tu='util', fn=U + 'ResetUnixEvent' + T + ')', con=Reset(), opts=o, builtins=BUILT),
            dict(tu='util', fn=U + 'GetUnixEventSize()', con=Size('GetUnixEventSize', 96), opts=o),
            dict(tu='util', fn=U + 'GetUnixEvent' + T + ', char*)', con=Layout('GetUnixEvent', 'UnixEventWrapper', parts, 96), opts=o),
            dict(tu='util', fn=U + 'InitUnixEvent' + T + ', bool, bool, bool)', con=Init('InitUnixEvent', 'UnixEventWrapper', [('MxManual', 'i8'), ('MxSignaled', 'i8'), ('MxWaiting', 'i32')], [('Shared', 'b'), ('Manual', 'b'), ('Signaled', 'b')], post_init), opts=o, builtins=IB),
            dict(tu='ev', fn=S + 'Wait(unsigned int)', con=Thin('Wait', 'Event', 'MxPthreadEvent', 'Wait'), opts=o, contracts=[(W, Stub('WaitForUnixEvent', 1))]),
            dict(tu='ev', fn=S + 'Fire()', con=Thin('Fire', 'Event', 'MxPthreadEvent'), opts=o, contracts=[(U + 'FireUnixEvent' + T + ')', Stub('FireUnixEvent'))]),
            dict(tu='ev', fn=S + 'Reset()', con=Thin('Reset', 'Event', 'MxPthreadEvent'), opts=o, contracts=[(U + 'ResetUnixEvent' + T + ')', Stub('ResetUnixEvent'))])]


def post_init(c, a, v):
    return [('starts in the given state with nobody waiting', And((v['MxManual'] != 0) == a['Manual'], (v['MxSignaled'] != 0) == a['Signaled'], v['MxWaiting'] == 0))]


ASSUME = ['pthread mutexes and conditions obey their contracts: mutual exclusion, a signal wakes one sleeping thread, a broadcast all, a thread that timed out does not consume a signal (glibc); other threads follow this same monitor',
          'a woken or timed out waiter returns (liveness of the scheduler); fewer than 2^30 threads wait',
          'Create and the destructor (named memory life cycle) are covered by the oracle and by property C22',
          'the memory of the object is aligned to 4 bytes, as the code assumes; sizes of pthread types are those of this platform']
