from .monitor import *
from .syncobj import *

ID = 'C20'
HARNESS = 'C20.cpp'
BUDGET = 8
S = 'CubicleSoft::Sync::Mutex::'
WAITSEM = '_ZN11CubicleSoft4Sync4Util20WaitForUnixSemaphoreERNS1_20UnixSemaphoreWrapperEj'
RELSEM = '_ZN11CubicleSoft4Sync4Util20ReleaseUnixSemaphoreERNS1_20UnixSemaphoreWrapperEPj'


def tus():
    return {'mx': include('sync/sync_util.cpp', 'sync/sync_mutex.cpp')}


class Mx(Monitor):
    """Critical section protects MxOwnerID and MxCount; the semaphore (one permit, property C18) is the token of ownership.
    ghost: s_d   recursion depth of this thread as it stands in the shared state (0: not the owner)
           s_tok this thread holds the permit;  s_o0/s_c0 owner and count at the start of the critical section
           s_sw  number of waits for the permit, s_wa the time limit given to the last one, s_wr its result"""
    extra = (('s_d', 32), ('s_tok', 8), ('s_o0', 64), ('s_c0', 32), ('s_sw', 32), ('s_wa', 32), ('s_wr', 8))

    def init(self, x):
        M = x.M
        o = self.off = {n: fieldoff(M, 'Mutex', n) for n in ('MxPthreadCritSection', 'MxNamed', 'MxMem', 'MxPthreadMutex', 'MxOwnerID', 'MxCount')}
        x.kind('mutex', M.di['Mutex']['size'], [(o['MxNamed'], 'i8'), (o['MxMem'], 'ptr'), (o['MxOwnerID'], 'i64'), (o['MxCount'], 'i32')], False)

    def setup(self, x, st, f):
        self.ghosts0(x, st)
        o = self.o = x.param_obj(st, 'this', 'mutex')
        self.have = z3.Bool('created')
        mem = x.param_obj(st, 'mem', 'bytes', bv(256))
        st.mem = st.mem.st('ptr', o.ptr(self.off['MxMem']), Ptr(z3.If(self.have, bv(mem.id), bv(0)), bv(0)))
        self.me, self.d0 = bvar('me'), bvar('depth', 32)
        st.assume(And(self.me != 0, ULT(self.d0, 0xfffffffe), Implies(Not(self.have), self.d0 == 0)))
        gset(x, st, 's_d', self.d0)
        gset(x, st, 's_tok', z3.If(self.d0 != 0, B1, B0))
        x.monitor = self
        lo, hi = [self.off['MxOwnerID'], self.off['MxCount']], None

        def guard(x, st, p, cls, write, ins):
            if num(p.obj) is not None and num(p.obj) != o.id:
                return
            for k in lo:
                if num(p.off) is not None and num(p.off) != k:
                    continue
                x.oblige(st, Implies(And(p.obj == o.id, p.off == k), gget(st.mem, 's_held') == 1), 'owner and count are only touched inside the critical section', 'race', ins, assume=False)
        x.guard = guard
        self.lockp = (o.id, self.off['MxPthreadCritSection'])
        self.semp = (o.id, self.off['MxPthreadMutex'])
        return [o.ptr()] + self.more(x, st)

    def O(self, m):
        return m.u64(self.o.ptr(self.off['MxOwnerID']))

    def C(self, m):
        return m.u32(self.o.ptr(self.off['MxCount']))

    def regs(self):
        return [Region(self.o.id, bv(self.off['MxOwnerID']), bv(8), ['i64']), Region(self.o.id, bv(self.off['MxCount']), bv(4), ['i32'])]

    def modifies(self, c):
        return self.regs() + self.gmods()

    def acquire(self, x, st, i):
        havoc_region(x, st, self.regs(), i)
        m = st.mem
        ow, ct, d = self.O(m), self.C(m), gget(m, 's_d')
        st.assume(And((ow == 0) == (ct == 0), (ow == self.me) == (d != 0), Implies(d != 0, ct == d), Implies(And(gget(m, 's_tok') == 1, d == 0), ow == 0)))
        st.assume(Implies(Not(self.have), ow == 0))
        gset(x, st, 's_o0', ow)
        gset(x, st, 's_c0', ct)

    def release(self, x, st, i, wait):
        m = st.mem
        ow, ct, o0, c0 = self.O(m), self.C(m), gget(m, 's_o0'), gget(m, 's_c0')
        ob(x, st, (ow == 0) == (ct == 0), 'an owner is recorded exactly while the recursion count is not zero', i)
        ob(x, st, Implies(ow == self.me, gget(m, 's_tok') == 1), 'the recorded owner is the thread that has the permit', i)
        ob(x, st, Implies(And(ow != self.me, ow != 0), And(ow == o0, ct == c0)), 'ownership is never given to another thread', i)
        ob(x, st, Implies(And(o0 != self.me, o0 != 0), And(ow == o0, ct == c0)), 'ownership of another thread is never taken away', i)
        gset(x, st, 's_d', z3.If(ow == self.me, ct, bv(0, 32)))

    def minv(self, c, L):
        return []


def m_lock(x, st, a, i, tr=False):
    o, k = x.monitor.lockp
    ob(x, st, And(a[0].obj == o, a[0].off == k), 'the critical section of this object is used', i)
    ob(x, st, gget(st.mem, 's_held') == 0, 'the critical section is not entered twice', i)
    x.monitor.acquire(x, st, i)
    gset(x, st, 's_held', B1)
    return bv(0, 32)


def m_unlock(x, st, a, i):
    o, k = x.monitor.lockp
    ob(x, st, And(a[0].obj == o, a[0].off == k), 'the critical section of this object is used', i)
    ob(x, st, gget(st.mem, 's_held') == 1, 'only a held critical section is left', i)
    x.monitor.release(x, st, i, False)
    gset(x, st, 's_held', B0)
    return bv(0, 32)


def b_waitsem(x, st, a, i):
    """property C18: success takes the permit, failure does not"""
    o, k = x.monitor.semp
    m = st.mem
    ob(x, st, And(a[0].obj == o, a[0].off == k), 'the permit of this object is used', i)
    ob(x, st, Or(gget(m, 's_held') == 0, a[1] == 0), 'waiting for the permit happens outside the critical section, which the owner needs to release it', i)
    ob(x, st, gget(m, 's_tok') == 0, 'a thread that has the permit does not wait for it', i)
    r = z3.Bool(uid('taken'))
    gset(x, st, 's_tok', z3.If(r, B1, B0))
    gset(x, st, 's_wr', z3.If(r, B1, B0))
    gset(x, st, 's_wa', a[1])
    gset(x, st, 's_sw', gget(m, 's_sw') + 1)
    return r


def b_relsem(x, st, a, i):
    o, k = x.monitor.semp
    ob(x, st, And(a[0].obj == o, a[0].off == k, a[1].obj == 0), 'the permit of this object is used', i)
    ob(x, st, gget(st.mem, 's_tok') == 1, 'only the thread that has the permit returns it', i)
    ob(x, st, Or(gget(st.mem, 's_held') == 1, gget(st.mem, 's_d') == 0), 'the permit is returned inside the critical section or after giving up ownership', i)
    gset(x, st, 's_tok', B0)
    return z3.BoolVal(True)


def b_self(x, st, a, i):
    return x.monitor.me


B = {'pthread_mutex_lock': m_lock, 'pthread_mutex_unlock': m_unlock, 'pthread_self': b_self, WAITSEM: b_waitsem, RELSEM: b_relsem}


class Lock(Mx):
    short = 'Mutex::Lock'

    def more(self, x, st):
        self.w = bvar('Wait', 32)
        return [self.w]

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        h, d0 = self.have, self.d0
        return [('the critical section is left', g('s_held') == 0),
                ('nothing happens before creation', Implies(Not(h), And(Not(c.ret), g('s_sw') == 0, g('s_d') == 0))),
                ('the owner gets one level more at once', Implies(d0 != 0, And(c.ret, g('s_sw') == 0, g('s_d') == d0 + 1))),
                ('others wait for the permit, once, within the given limit', Implies(And(h, d0 == 0), And(g('s_sw') == 1, g('s_wa') == self.w))),
                ('they own the mutex once exactly on success', Implies(And(h, d0 == 0), And(c.ret == (g('s_wr') == 1), g('s_d') == z3.If(c.ret, bv(1, 32), bv(0, 32)))))]


class Unlock(Mx):
    short = 'Mutex::Unlock'

    def more(self, x, st):
        self.all = z3.Bool('All')
        return [self.all]

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        d0 = self.d0
        return [('the critical section is left', g('s_held') == 0), ('never waits for the permit', g('s_sw') == 0),
                ('fails without effect for everybody but the owner', Implies(d0 == 0, And(Not(c.ret), g('s_d') == 0, g('s_tok') == 0))),
                ('the owner gives up one level or all of them', Implies(d0 != 0, And(c.ret, g('s_d') == z3.If(self.all, bv(0, 32), d0 - 1)))),
                ('the permit is returned exactly with the last level', (g('s_tok') == 1) == (g('s_d') != 0))]


def jobs(mods):
    o = dict(fork=True)
    return [dict(tu='mx', fn=S + 'Lock(unsigned int)', con=Lock(), opts=o, builtins=B), dict(tu='mx', fn=S + 'Unlock(bool)', con=Unlock(), opts=o, builtins=B)]


ASSUME = ['the semaphore inside obeys property C18; entering a valid critical section and returning the permit do not fail',
          'every thread has its own nonzero id; no thread recurses 2^32-2 times; a mutex is not created again while others use it',
          'Create and the destructor are covered by the oracle and by property C22']
