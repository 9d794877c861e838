from .monitor import *
from .syncobj import *

ID = 'C21'
HARNESS = 'C21.cpp'
BUDGET = 8
S = 'CubicleSoft::Sync::ReadWriteLock::'
Q = '_ZN11CubicleSoft4Sync4Util'
INF = 0xffffffff


def tus():
    return {'rw': include('sync/sync_util.cpp', 'sync/sync_readwritelock.cpp')}


class RW(Monitor):
    """The two semaphores (one permit each, property C18) are the writers' gate W and the lock R of the reader count; the manual
    event (property C19) is signaled while no reader is inside.
    ghost: s_w, s_r   this thread holds the gate / the count lock
           s_ev       the event, as far as this thread may rely on it (while it holds R, or W and saw it signaled)
           s_wr       this thread waited, holding the gate, until no reader was inside
           s_n        change of the number of readers by this call;  s_n0 the count when R was taken
           s_wn       number of waits so far, s_la the limit given to the last one;  s_t, s_t0, s_ct clock readings (microseconds)"""
    extra = (('s_w', 8), ('s_r', 8), ('s_ev', 8), ('s_wr', 8), ('s_n', 32), ('s_n0', 32), ('s_wn', 32), ('s_la', 32), ('s_t', 64), ('s_t0', 64), ('s_ct', 32), ('s_lw', 8), ('s_rd', 8))
    timed = True

    def init(self, x):
        M = x.M
        o = self.off = {n: fieldoff(M, 'ReadWriteLock', n) for n in ('MxNamed', 'MxMem', 'MxPthreadRCountMutex', 'MxRCount', 'MxPthreadRWaitEvent', 'MxPthreadWWaitMutex')}
        x.kind('rwlock', M.di['ReadWriteLock']['size'], [(o['MxNamed'], 'i8'), (o['MxMem'], 'ptr'), (o['MxRCount'], 'ptr')], False)

    def setup(self, x, st, f):
        self.ghosts0(x, st)
        o = self.o = x.param_obj(st, 'this', 'rwlock')
        self.have = z3.Bool('created')
        mem = x.param_obj(st, 'mem', 'bytes', bv(512))
        st.mem = st.mem.st('ptr', o.ptr(self.off['MxMem']), Ptr(z3.If(self.have, bv(mem.id), bv(0)), bv(0)))
        self.rc = self.cell(x, st, 'RCount', 'i32', o, self.off['MxRCount'])
        st.mem = st.mem.st('ptr', o.ptr(self.off['MxRCount']), Ptr(z3.If(self.have, bv(self.rc.id), bv(0)), bv(0)))
        x.monitor = self
        rc = self.rc

        def guard(x, st, p, cls, write, ins):
            if num(p.obj) is not None and num(p.obj) != rc.id:
                return
            x.oblige(st, Implies(p.obj == rc.id, gget(st.mem, 's_r') == 1), 'the number of readers is only touched while holding its lock', 'race', ins, assume=False)
        x.guard = guard
        t0 = bvar('start')
        st.assume(ULT(t0, 1 << 60))
        gset(x, st, 's_t', t0)
        return [o.ptr()] + self.more(x, st)

    def more(self, x, st):
        return []

    def N(self, m):
        return m.u32(self.rc.ptr())

    def modifies(self, c):
        return [Region(self.rc.id)] + self.gmods()

    def sem(self, x, st, p, i):
        """which semaphore: (is gate, is count lock)"""
        w, r = And(p.obj == self.o.id, p.off == self.off['MxPthreadWWaitMutex']), And(p.obj == self.o.id, p.off == self.off['MxPthreadRCountMutex'])
        ob(x, st, Or(w, r), 'a semaphore of this object is used', i)
        return z3.simplify(w), z3.simplify(r)

    def limits(self, x, st, lim, i):
        """the time limits given to the individual waits add up to the caller's"""
        if not self.timed:
            return
        W, m = self.w, st.mem
        e = gget(m, 's_t') - gget(m, 's_t0')
        q = x.lindiv(st, 'udiv', e, 1000)      # whole milliseconds passed since the first clock reading
        z = lambda v: z3.ZeroExt(32, v)
        first = gget(m, 's_wn') == 0
        ob(x, st, Implies(W == INF, lim == INF), 'no limit is invented', i)
        ob(x, st, Implies(W != INF, And(lim != INF, ULE(lim, W))), 'every limit stays within the one given', i)
        ob(x, st, Implies(And(first, W != INF), lim == W), 'the first wait gets the whole limit', i)
        ob(x, st, Implies(And(Not(first), W != INF), And(ULE(z(lim) + q, z(W) + 1), ULE(z(W), z(lim) + q + 1))), 'later waits get what is left of the limit', i)


def b_waitsem(x, st, a, i):
    M = x.monitor
    isw, isr = M.sem(x, st, a[0], i)
    m = st.mem
    M.limits(x, st, a[1], i)
    M.onwait(x, st, isw, a[1], i)
    ob(x, st, Implies(isw, And(gget(m, 's_w') == 0, gget(m, 's_r') == 0)), 'the gate is taken before the count lock and not twice', i)
    ob(x, st, Implies(isr, gget(m, 's_r') == 0), 'the count lock is not taken twice', i)
    bad, good = st.clone(), st
    for s in (bad, good):
        gset(x, s, 's_wn', gget(m, 's_wn') + 1)
        gset(x, s, 's_la', a[1])
    gset(x, good, 's_w', z3.If(isw, B1, gget(m, 's_w')))
    gset(x, good, 's_r', z3.If(isr, B1, gget(m, 's_r')))
    gset(x, bad, 's_err', B1)
    gset(x, bad, 's_lw', B1)
    # the count lock: the number of readers and the event become known, and agree
    n, ev = bvar(uid('readers'), 32), bvar(uid('event'), 8)
    old = M.N(good.mem)
    good.mem = x.havoc_mods(good, good.mem, [Region(M.rc.id)], False, i)
    now = M.N(good.mem)
    good.assume(z3.If(isr, And(now == n, ULT(n, 0xfffffffe), ULE(ev, 1), (ev == 1) == (n == 0), Implies(gget(m, 's_wr') == 1, n == 0)), now == old))
    gset(x, good, 's_ev', z3.If(isr, ev, gget(m, 's_ev')))
    gset(x, good, 's_n0', z3.If(isr, n, gget(m, 's_n0')))
    return ('states', [(good, z3.BoolVal(True)), (bad, z3.BoolVal(False))])


def b_relsem(x, st, a, i):
    M = x.monitor
    isw, isr = M.sem(x, st, a[0], i)
    m = st.mem
    g = lambda n: gget(m, n)
    ob(x, st, And(Implies(isw, g('s_w') == 1), Implies(isr, g('s_r') == 1)), 'only what this thread holds is released', i)
    ob(x, st, a[1].obj == 0, 'no previous value wanted', i)
    N = M.N(m)
    ob(x, st, Implies(isr, (g('s_ev') == 1) == (N == 0)), 'the event is signaled exactly while no reader is inside', i)
    ob(x, st, Implies(And(isw, g('s_r') == 1), Implies(g('s_ev') == 1, N == 0)), 'the gate opens only when the event does not hide readers', i)
    ob(x, st, Implies(And(isr, UGT(N, g('s_n0'))), Or(g('s_w') == 1, g('s_rd') == 1)), 'readers enter only while holding the gate', i)
    gset(x, st, 's_rd', z3.If(And(isw, g('s_r') == 1, UGT(N, g('s_n0'))), B1, g('s_rd')))
    gset(x, st, 's_n', z3.If(isr, g('s_n') + N - g('s_n0'), g('s_n')))
    gset(x, st, 's_w', z3.If(isw, B0, g('s_w')))
    gset(x, st, 's_wr', z3.If(isw, B0, g('s_wr')))
    gset(x, st, 's_r', z3.If(isr, B0, g('s_r')))
    return z3.BoolVal(True)


def evt(x, st, p, i):
    M = x.monitor
    ob(x, st, And(p.obj == M.o.id, p.off == M.off['MxPthreadRWaitEvent']), 'the event of this object is used', i)


def b_reset(x, st, a, i):
    evt(x, st, a[0], i)
    ob(x, st, And(gget(st.mem, 's_w') == 1, gget(st.mem, 's_r') == 1), 'the event is only reset while holding the gate and the count lock', i)
    bad, good = st.clone(), st
    gset(x, good, 's_ev', B0)
    gset(x, bad, 's_err', B1)
    gset(x, bad, 's_lw', B1)
    return ('states', [(good, z3.BoolVal(True)), (bad, z3.BoolVal(False))])


def b_fire(x, st, a, i):
    evt(x, st, a[0], i)
    ob(x, st, gget(st.mem, 's_r') == 1, 'the event is only fired while holding the count lock', i)
    ob(x, st, x.monitor.N(st.mem) == 0, 'the event is only fired when no reader is inside', i)
    gset(x, st, 's_ev', B1)
    return z3.BoolVal(True)


def b_waitev(x, st, a, i):
    evt(x, st, a[0], i)
    m = st.mem
    x.monitor.limits(x, st, a[1], i)
    ob(x, st, gget(m, 's_w') == 1, 'a writer waits for the readers only after closing the gate', i)
    ob(x, st, gget(m, 's_r') == 0, 'the count lock, which readers need to leave, is not held while waiting for them', i)
    bad, good = st.clone(), st
    for s in (bad, good):
        gset(x, s, 's_wn', gget(m, 's_wn') + 1)
        gset(x, s, 's_la', a[1])
    gset(x, good, 's_wr', B1)
    gset(x, bad, 's_err', B1)
    gset(x, bad, 's_lw', B1)
    return ('states', [(good, z3.BoolVal(True)), (bad, z3.BoolVal(False))])


def b_tod(x, st, a, i):
    """the clock does not go backwards during the call"""
    m = st.mem
    sec, us, t = bvar(uid('sec')), bvar(uid('usec')), bvar(uid('now'))
    st.assume(And(ULT(sec, 1 << 40), ULT(us, 1000000), t == sec * 1000000 + us, UGE(t, gget(m, 's_t'))))
    for k, v in ((0, sec), (8, us)):
        x.rec_write('i64', a[0] + k, 'pt')
        st.mem = st.mem.st('i64', a[0] + k, v)
    c = gget(m, 's_ct')
    gset(x, st, 's_t0', z3.If(c == 0, t, gget(m, 's_t0')))
    gset(x, st, 's_t', t)
    gset(x, st, 's_ct', c + 1)
    return bv(0, 32)


B = {Q + '20WaitForUnixSemaphoreERNS1_20UnixSemaphoreWrapperEj': b_waitsem, Q + '20ReleaseUnixSemaphoreERNS1_20UnixSemaphoreWrapperEPj': b_relsem, Q + '14ResetUnixEventERNS1_16UnixEventWrapperE': b_reset, Q + '13FireUnixEventERNS1_16UnixEventWrapperE': b_fire, Q + '16WaitForUnixEventERNS1_16UnixEventWrapperEj': b_waitev, 'gettimeofday': b_tod}


class ReadLock(RW):
    short = 'ReadLock'

    def more(self, x, st):
        self.w = bvar('Wait', 32)
        return [self.w]

    def onwait(self, x, st, isw, lim, i):
        pass

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        W = self.w
        el = g('s_t') - g('s_t0')
        return [('nothing happens before creation', Implies(Not(self.have), And(Not(c.ret), g('s_wn') == 0))),
                ('neither the gate nor the count lock is kept', And(g('s_w') == 0, g('s_r') == 0)),
                ('success lets exactly one reader in, failure none', g('s_n') == z3.If(c.ret, bv(1, 32), bv(0, 32))),
                ('readers pass the gate', Implies(c.ret, g('s_wn') != 0)),
                ('failure only when a wait failed or the time is over', Implies(And(self.have, Not(c.ret)), Or(g('s_lw') == 1, And(W != INF, UGE(el + 1000, z3.ZeroExt(32, W) * 1000)))))]


class WriteLock(ReadLock):
    short = 'WriteLock'

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        W = self.w
        el = g('s_t') - g('s_t0')
        return [('nothing happens before creation', Implies(Not(self.have), And(Not(c.ret), g('s_wn') == 0))),
                ('success keeps the gate closed with no reader inside', Implies(c.ret, And(g('s_w') == 1, g('s_wr') == 1))),
                ('failure opens the gate again', Implies(Not(c.ret), g('s_w') == 0)),
                ('the count lock is not kept, the number of readers not changed', And(g('s_r') == 0, g('s_n') == 0)),
                ('failure only when a wait failed or the time is over', Implies(And(self.have, Not(c.ret)), Or(g('s_lw') == 1, And(W != INF, UGE(el + 1000, z3.ZeroExt(32, W) * 1000)))))]


class ReadUnlock(RW):
    short = 'ReadUnlock'
    timed = False

    def onwait(self, x, st, isw, lim, i):
        ob(x, st, Not(isw), 'a leaving reader does not need the gate, which a waiting writer keeps closed', i)
        ob(x, st, lim == INF, 'a leaving reader waits as long as it takes', i)

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        return [('nothing happens before creation', Implies(Not(self.have), And(Not(c.ret), g('s_wn') == 0))),
                ('the count lock is released', And(g('s_w') == 0, g('s_r') == 0)),
                ('success takes exactly one reader out', g('s_n') == z3.If(c.ret, bv(0xffffffff, 32), bv(0, 32))),
                ('failure only without readers or after an error', Implies(And(self.have, Not(c.ret)), Or(g('s_err') == 1, g('s_n0') == 0)))]


class WriteUnlock(RW):
    short = 'WriteUnlock'
    timed = False

    def more(self, x, st):
        gset(x, st, 's_w', z3.If(self.have, B1, B0))
        gset(x, st, 's_wr', z3.If(self.have, B1, B0))
        return []

    def onwait(self, x, st, isw, lim, i):
        ob(x, st, False, 'a writer leaves without waiting', i)

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        return [('success exactly after creation', c.ret == self.have), ('the gate is open again', And(g('s_w') == 0, g('s_r') == 0, g('s_n') == 0))]


def jobs(mods):
    o = dict(fork=True, lindiv=True, bvint=True)
    return [dict(tu='rw', fn=S + n, con=c, opts=o, builtins=B) for n, c in (('ReadLock(unsigned int)', ReadLock()), ('WriteLock(unsigned int)', WriteLock()), ('ReadUnlock()', ReadUnlock()), ('WriteUnlock()', WriteUnlock()))]


ASSUME = ['the semaphores and the event inside obey properties C18 and C19; returning a permit and firing the event do not fail',
          'global invariant used as rely condition: while a thread holds the gate nobody else resets the event or adds readers (obligations of ReadLock), so a signaled event means that no reader is inside',
          'the clock does not run backwards during a call and gettimeofday does not fail; fewer than 2^32-2 readers; WriteUnlock is called by the thread that has the write lock',
          'Create and the destructor are covered by the oracle and by property C22']
