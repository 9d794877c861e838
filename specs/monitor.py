"""Monitor contracts: pthread mutexes and condition variables protecting shared cells.

Ghost state (scalars): s_held  1 while this thread holds the monitor's mutex
                       s_blk   1 once a call that may block was made
                       s_err   1 once an operating system call reported a failure or a timeout
                       s_owed  1 while a change that others may be waiting for has not been announced
                       s_sig   number of announcements by signal, s_bro by broadcast
                       s_sec, s_ns   the last clock reading
Everything the mutex protects may be changed by others whenever it is not held: it becomes unknown (subject to the
invariant) each time the mutex is acquired, also by a returning wait."""
from .common import *

B1 = bv(1, 8)
B0 = bv(0, 8)
GH = (('s_held', 8), ('s_blk', 8), ('s_err', 8), ('s_owed', 8), ('s_sig', 32), ('s_bro', 32), ('s_sec', 64), ('s_ns', 64), ('s_secs', 32))


class Monitor(Contract):
    """subclasses: cells = [(name, class)], invariant(m), changed_ok..."""
    extra = ()
    terminates = True

    def __init_subclass__(cls, **k):
        super().__init_subclass__(**k)
        cls.classes = GH + tuple(cls.extra)
        cls.ghost_classes = tuple(n for n, _ in cls.classes)

    def ghosts0(self, x, st):
        for n, w in self.classes:
            gset(x, st, n, bv(0, w))

    def cell(self, x, st, name, cls, wf, off):
        kn = 'cell_' + cls
        if kn not in x.kinds:
            x.kind(kn, {'i32': 4, 'i8': 1, 'i64': 8}[cls], [(0, cls)], False)
        o = x.param_obj(st, name, kn)
        st.mem = st.mem.st('ptr', Ptr(wf.id, off), o.ptr())
        return o

    def opaque(self, x, st, name, wf, off, size=40):
        x.kinds.get('opaque') or x.kind('opaque', 1, [(0, 'i8')], True)
        o = x.param_obj(st, name, 'bytes', bv(size))
        st.mem = st.mem.st('ptr', Ptr(wf.id, off), o.ptr())
        return o

    def install(self, x):
        x.monitor = self

        def guard(x, st, p, cls, write, ins):
            for o, ro in self.shared:
                if num(p.obj) is not None and num(p.obj) != o.id:
                    continue
                if ro and not write:
                    continue
                x.oblige(st, Implies(p.obj == o.id, gget(st.mem, 's_held') == 1), 'shared state is only touched while holding its mutex', 'race', ins, assume=False)
        x.guard = guard

    def may_loop(self, L):
        return True      # waiting for others: bounded by the caller's time limit or by their progress

    def gmods(self):
        return [GhostRegion(g) for g in self.ghost_classes]

    def inv(self, c, L):
        out = []
        for g in self.ghost_classes:
            out.append(('ghost %s unchanged' % g, lambda w, g=g: gget(w.mem, g) == gget(w.entry.mem, g)))
            if g in ('s_held', 's_blk'):
                out.append(('ghost %s set' % g, lambda w, g=g: gget(w.mem, g) == 1))
        return out + self.minv(c, L)

    def minv(self, c, L):
        return []

    # -- hooks
    def acquire(self, x, st, i):
        """the mutex was acquired: the protected cells are unknown but satisfy the invariant"""
        regs = [Region(o.id) for o, ro in self.shared if not ro]
        old, new = havoc_region(x, st, regs, i)
        st.assume(self.invariant(st.mem))
        self.acquired(x, st)
        gset(x, st, 's_secs', gget(st.mem, 's_secs') + 1)

    def release(self, x, st, i, wait):
        if not x.dry:
            x.oblige(st, self.invariant(st.mem), 'invariant of the shared state holds when the mutex is released', 'lockinv', i, assume=False)
        self.released(x, st, i, wait)

    def woke(self, x, st, all):
        pass

    def acquired(self, x, st):
        pass

    def released(self, x, st, i, wait):
        pass


def ob(x, st, g, nm, i):
    if not x.dry:
        x.oblige(st, g, nm, 'lock', i)


def mine(x, st, p, i):
    ob(x, st, And(p.obj == x.monitor.mutex.id, p.off == 0), 'the mutex of this object is used', i)


def cmine(x, st, p, i):
    ob(x, st, And(p.obj == x.monitor.cond.id, p.off == 0), 'the condition of this object is used', i)


def b_lock(x, st, a, i, tr=False):
    mine(x, st, a[0], i)
    ob(x, st, gget(st.mem, 's_held') == 0, 'the mutex is not locked twice by the same thread', i)
    r = bvar(uid('lock'), 32)
    bad, good = st.clone(), st
    bad.path(r != 0)
    good.path(r == 0)
    for s in (bad, good):
        if not tr:
            gset(x, s, 's_blk', B1)
    gset(x, bad, 's_err', B1)
    x.monitor.acquire(x, good, i)
    gset(x, good, 's_held', B1)
    return ('states', [(good, bv(0, 32)), (bad, r)])


def b_trylock(x, st, a, i):
    return b_lock(x, st, a, i, True)


def b_unlock(x, st, a, i):
    mine(x, st, a[0], i)
    ob(x, st, gget(st.mem, 's_held') == 1, 'only a held mutex is unlocked', i)
    x.monitor.release(x, st, i, False)
    gset(x, st, 's_held', B0)
    return bv(0, 32)


def wait(x, st, a, i, timed):
    cmine(x, st, a[0], i)
    mine(x, st, a[1], i)
    ob(x, st, gget(st.mem, 's_held') == 1, 'waiting needs the mutex', i)
    gset(x, st, 's_blk', B1)
    if timed:
        ts = a[2]
        s, n = st.mem.u64(ts), st.mem.u64(ts + 8)
        W = zext(x.monitor.waitarg, 64)
        ob(x, st, And(ULT(n, 1000000000), gget(st.mem, 's_sec') != 0), 'the deadline is a valid time derived from the clock', i)
        ob(x, st, (s - gget(st.mem, 's_sec')) * bv(1000000000) + n - gget(st.mem, 's_ns') == W * bv(1000000), 'the deadline is the given number of milliseconds after the clock reading', i)
    x.monitor.release(x, st, i, True)
    x.monitor.acquire(x, st, i)
    r = bvar(uid('wait'), 32)
    gset(x, st, 's_err', z3.If(r != 0, B1, gget(st.mem, 's_err')))
    return r


def zext(v, w):
    return z3.ZeroExt(w - v.size(), v)


def b_wait(x, st, a, i):
    return wait(x, st, a, i, False)


def b_timedwait(x, st, a, i):
    return wait(x, st, a, i, True)


def b_signal(x, st, a, i):
    cmine(x, st, a[0], i)
    x.monitor.woke(x, st, False)
    gset(x, st, 's_owed', B0)
    gset(x, st, 's_sig', gget(st.mem, 's_sig') + 1)
    return bv(0, 32)


def b_broadcast(x, st, a, i):
    cmine(x, st, a[0], i)
    x.monitor.woke(x, st, True)
    gset(x, st, 's_owed', B0)
    gset(x, st, 's_bro', gget(st.mem, 's_bro') + 1)
    return bv(0, 32)


def b_clock(x, st, a, i):
    ob(x, st, a[0] == 0, 'deadlines use the clock of the condition variable', i)
    r = bvar(uid('clock'), 32)
    bad, good = st.clone(), st
    bad.path(r == 0xffffffff)
    good.path(r == 0)
    gset(x, bad, 's_err', B1)
    sec, ns = bvar(uid('sec')), bvar(uid('nsec'))
    good.assume(And(ULT(sec, 1 << 40), sec != 0, ULT(ns, 1000000000)))
    for k, v in ((0, sec), (8, ns)):
        x.rec_write('i64', a[1] + k, 'pt')
        good.mem = good.mem.st('i64', a[1] + k, v)
    gset(x, good, 's_sec', sec)
    gset(x, good, 's_ns', ns)
    return ('states', [(good, bv(0, 32)), (bad, bv(0xffffffff, 32))])


BUILT = {'pthread_mutex_lock': b_lock, 'pthread_mutex_trylock': b_trylock, 'pthread_mutex_unlock': b_unlock, 'pthread_cond_wait': b_wait, 'pthread_cond_timedwait': b_timedwait, 'pthread_cond_signal': b_signal, 'pthread_cond_broadcast': b_broadcast, 'clock_gettime': b_clock}
