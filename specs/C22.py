from .monitor import *
from .syncobj import *

ID = 'C22'
HARNESS = 'C22.cpp'
BUDGET = 8
U = 'CubicleSoft::Sync::Util::'
HDR, MX, RC = 48, 4, 44      # header of a named object: status byte, mutex at 4, reference count at 44, data from 48
NMAX = 255


def tus():
    return {'util': include('sync/sync_util.cpp'), 'all': include('sync/sync_util.cpp', 'sync/sync_semaphore.cpp', 'sync/sync_mutex.cpp', 'sync/sync_event.cpp', 'sync/sync_readwritelock.cpp', 'sync/sync_sharedmem.cpp')}


class Align(Contract):
    short = 'AlignUnixSize'

    def setup(self, x, st, f):
        self.n = bvar('Size')
        return [self.n]

    def requires(self, c):
        return [('sane', ULE(c.args[0], MAXSZ))]

    def ensures(self, c):
        n = c.args[0]
        return [('the next multiple of 4', And((c.ret & 3) == 0, UGE(c.ret, n), ULT(c.ret - n, 4)))]


GN = (('s_um', 32), ('s_fd', 32), ('s_new', 8), ('s_sz', 64), ('s_map', 8), ('s_init', 8), ('s_held', 8), ('s_rc', 32), ('s_acq', 32), ('s_bad', 8), ('s_vis', 8), ('s_z', 8), ('s_opn', 32))


class Named(Contract):
    """ghost: s_um mode mask; s_fd open descriptor (or -1); s_new it was created by this call; s_sz its size; s_map 1 while mapped;
    s_init this call initialized the mutex; s_held it is held; s_rc reference count when it was taken; s_acq times taken;
    s_bad an operating system call failed; s_vis the status byte says that the mutex is usable"""
    classes = GN
    ghost_classes = tuple(n for n, _ in GN)

    def init(self, x):
        x.kind('shm', 1 << 48, [(0, 'i8'), (RC, 'i32'), (HDR, 'i8', 1 << 47)], False)
        x.kind('cellp', 8, [(0, 'ptr')], False)
        x.kind('cell64', 8, [(0, 'i64')], False)
        x.kind('cell32', 4, [(0, 'i32')], False)
        x.nm = self

    def ghosts0(self, x, st):
        for n, w in self.classes:
            gset(x, st, n, bv(0, w))
        gset(x, st, 's_fd', bv(-1, 32))
        self.um0 = bvar('umask', 32)
        gset(x, st, 's_um', self.um0)
        self.shm = x.new_obj('shm', 'shm', bvar('shmsize'))
        x.obj_facts(st, self.shm)
        st.assume(st.mem.alive(bv(self.shm.id)))
        self.errno = x.param_obj(st, 'errno', 'cell32')

    def gmods(self):
        return [GhostRegion(g) for g in self.ghost_classes] + [Region(self.shm.id), Region(self.errno.id)]

    def inshm(self, p):
        return p.obj == self.shm.id


class InitMem(Named):
    short = 'InitUnixNamedMem'
    terminates = True

    def __init__(self, named):
        self.named = named

    def setup(self, x, st, f):
        self.ghosts0(x, st)
        self.rm, self.sp = x.param_obj(st, 'ResultMem', 'cellp'), x.param_obj(st, 'StartPos', 'cell64')
        self.pl, self.nl, self.size = bvar('prefixlen'), bvar('namelen'), bvar('Size')
        self.P = self.cstr(x, st, 'Prefix', self.pl)
        st.assume(And(UGE(self.pl, 2), ULE(self.size, 1 << 40)))
        P = self.P
        st.assume(st.mem.u8(P.ptr()) == 0x2f)
        nm = Ptr(0, 0)
        if self.named:
            self.Nm = self.cstr(x, st, 'Name', self.nl)
            nm = self.Nm.ptr()
        x.opts['strlen_hook'] = b_strlen
        self.nums = None
        return [self.rm.ptr(), self.sp.ptr(), P.ptr(), nm, self.size]

    def cstr(self, x, st, n, ln):
        st.assume(ULE(ln, 1 << 40))
        o = x.param_obj(st, n, 'bytes', ln + 1, const=True)
        o.cstr = (bv(0), ln)
        st.assume(as_fact(FA(64, lambda f: Implies(ULT(f, ln), st.mem.u8(Ptr(bv(o.id), f)) != 0), pat=lambda f, m=st.mem: [m.u8(Ptr(bv(o.id), f))])))
        return o

    def modifies(self, c):
        return [Region(self.rm.id), Region(self.sp.id)] + self.gmods()

    def may_loop(self, L):
        return not any(z3.is_bv(v) and v.size() == 64 for v in L.head.vals.values())      # interrupted calls and waiting for another process

    def measures(self, x, L):
        return [('~' + str(k), lambda w, k=k: ~w[k]) for k, v in L.head.vals.items() if z3.is_bv(v) and v.size() == 64]

    def total(self, n):
        return (n + 3) & ~bv(3)

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        r = c.ret
        mem, sp = c.new.ptr(self.rm.ptr()), c.new.u64(self.sp.ptr())
        if not self.named:
            return [('private memory of the requested size, to be built', And(r == 0, sp == 0, c.x.oszf(mem.obj) == self.total(self.size), mem.off == 0, mem.obj != 0, c.new.alive(mem.obj))),
                    ('nothing shared is touched', And(g('s_opn') == 0, g('s_map') == 0, g('s_acq') == 0, g('s_um') == self.um0))]
        return [('the mode mask is restored and the descriptor closed', And(g('s_um') == self.um0, g('s_fd') == bv(-1, 32))),
                ('the data follows the header', sp == HDR),
                ('failure exactly after a failed system call, without memory', And((r == bv(-1, 32)) == (g('s_bad') == 1), Or(r == 0, r == 1, r == bv(-1, 32)), Implies(g('s_bad') == 1, And(mem.obj == 0, g('s_map') == 0, g('s_acq') == 0)))),
                ('success maps the whole object', Implies(r >= 0, And(self.inshm(mem), mem.off == 0, g('s_map') == 1, g('s_sz') == self.total(self.size + HDR)))),
                ('one more reference is counted', Implies(r >= 0, And(g('s_acq') == 1, c.new.u32(self.shm.ptr(RC)) == z3.If(g('s_new') == 1, bv(0, 32), g('s_rc')) + 1))),
                ('built by the first reference only', Implies(r >= 0, (r == 0) == Or(g('s_new') == 1, g('s_rc') == 0))),
                ('others are kept out exactly until it is built', Implies(r >= 0, (g('s_held') == 1) == (r == 0))),
                ('the mutex can be used by others', Implies(r >= 0, c.new.u8(self.shm.ptr(0)) != 0)),
                ('memory to be built is zeroed', Imp(r == 0, FA(64, lambda f: Implies(And(UGE(f, HDR), ULT(f, self.total(self.size + HDR))), c.new.u8(Ptr(bv(self.shm.id), f)) == 0), pat=lambda f: [c.new.u8(Ptr(bv(self.shm.id), f))])))]

    def inv(self, c, L):
        out = [('ghost %s unchanged' % g, lambda w, g=g: gget(w.mem, g) == gget(w.entry.mem, g)) for g in self.ghost_classes]
        out += [('result unchanged', lambda w: w.mem.ptr(self.rm.ptr()).obj == w.entry.mem.ptr(self.rm.ptr()).obj), ('start unchanged', lambda w: w.mem.u64(self.sp.ptr()) == w.entry.mem.u64(self.sp.ptr()))]
        x = c.x
        # the name buffer: find it as the local array of NMAX bytes
        bufs = [o for o in x.objs.values() if o.local and num(o.size) == NMAX]
        v64 = [k for k, v in L.head.vals.items() if z3.is_bv(v) and v.size() == 64]
        for o in bufs:
            B = lambda m, k, o=o: m.u8(Ptr(bv(o.id), k if z3.is_expr(k) else bv(k)))
            out += [('last byte', lambda w, B=B: B(w.mem, NMAX - 1) == 0), ('slash first', lambda w, B=B: B(w.mem, 0) == 0x2f)]
            fa = lambda w, f, o=o: FA(64, lambda k: f(k, w.mem.u8(Ptr(bv(o.id), k))), pat=lambda k: [w.mem.u8(Ptr(bv(o.id), k))])
            for k in v64:
                out.append(('inside ' + str(k), lambda w, k=k: ULT(w[k], NMAX - 1)))
                out.append(('positive ' + str(k), lambda w, k=k: w[k] != 0))
                out.append(('slash first if any ' + str(k), lambda w, k=k, B=B: Implies(w[k] != 0, B(w.mem, 0) == 0x2f)))
                out.append(('empty means nothing yet ' + str(k), lambda w, k=k, B=B: Implies(w[k] == 0, B(w.mem, 0) == 0)))
                out.append(('clean up to ' + str(k), lambda w, k=k, fa=fa: fa(w, lambda j, b: Implies(And(UGE(j, 1), ULT(j, w[k])), And(b != 0x2f, b != 0x5c)))))
                out.append(('filled up to ' + str(k), lambda w, k=k, fa=fa: fa(w, lambda j, b: Implies(And(UGE(j, 1), ULT(j, w[k])), b != 0))))
                out.append(('normal up to ' + str(k), lambda w, k=k, fa=fa: fa(w, lambda j, b: Implies(And(UGE(j, 1), ULT(j, w[k])), And(b != 0x2f, b != 0x5c, b != 0)))))
                for z in v64:
                    if z == k:
                        continue
                    nm = '%s when %s' % (k, z)
                    out.append(('not folded: filled to ' + nm, lambda w, k=k, z=z, fa=fa: Imp(w[z] == 0, fa(w, lambda j, b: Implies(ULT(j, w[k]), b != 0)))))
                    out.append(('not folded: empty from ' + nm, lambda w, k=k, z=z, fa=fa: Imp(w[z] == 0, fa(w, lambda j, b: Implies(And(UGE(j, w[k]), ULT(j, NMAX)), b == 0)))))
                    out.append(('folded once: filled from ' + nm, lambda w, k=k, z=z, fa=fa: Imp(w[z] == 1, fa(w, lambda j, b: Implies(And(UGE(j, w[k]), ULT(j, NMAX - 1)), b != 0)))))
                    out.append(('not folded: at least two ' + nm, lambda w, k=k, z=z: Implies(w[z] == 0, UGE(w[k], 2))))
                    for q in v64:
                        if q not in (k, z):
                            out.append(('not folded: %s is %s' % (q, nm), lambda w, k=k, z=z, q=q: Implies(w[z] == 0, w[k] == w[q])))
                    out.append(('folded: positive ' + nm, lambda w, k=k, z=z: Implies(w[z] != 0, w[k] != 0)))
            out.append(('filled', lambda w, fa=fa: fa(w, lambda j, b: Implies(ULT(j, NMAX - 1), b != 0))))
        return out


def b_strlen(x, st, a, i):
    """strlen of the number text"""
    o = num(a[0].obj)
    n = getattr(x, 'numlen', {}).get(o)
    if n is None:
        raise Unsupported('strlen of unknown string')
    if not x.dry:
        x.oblige(st, a[0].off == 0, 'strlen argument is the start of the text', 'access', i)
    return n


def b_sprintf(x, st, a, i):
    """'-%u-%u-': at most 23 characters"""
    f = x.objs[num(a[1].obj)]
    fmt = ''.join(chr(num(z3.simplify(st.mem.u8(Ptr(bv(f.id), bv(k)))))) for k in range(int(num(f.size)) - 1)) if num(f.size) else ''
    lit = [p for p in fmt.split('%u')]
    if any('%' in p for p in lit):
        raise Unsupported('format ' + fmt)
    nu = len(lit) - 1
    lo, hi = sum(map(len, lit)) + nu, sum(map(len, lit)) + 10 * nu
    n = bvar(uid('textlen'))
    st.assume(And(UGE(n, lo), ULE(n, hi)))
    d = a[0]
    if not x.dry:
        x._range_access(st, d, bv(hi + 1), True, i, True)
    x.numlen = dict(getattr(x, 'numlen', {}))
    x.numlen[num(d.obj)] = n
    old = st.mem
    st.mem = x.havoc_mods(st, old, [Region(d.obj, d.off, bv(hi + 1), ['i8'])], False, i)
    m = st.mem
    allowed = sorted(set(ord(ch) for p in lit for ch in p) | set(range(48, 58)))
    st.assume(m.u8(Ptr(d.obj, n)) == 0)
    st.assume(as_fact(FA(64, lambda k: Implies(ULT(k, n), Or(*[m.u8(Ptr(d.obj, k)) == ch for ch in allowed])), pat=lambda k: [m.u8(Ptr(d.obj, k))])))
    return z3.Extract(31, 0, n)


def ob2(x, st, g, nm, i, kind='os'):
    if not x.dry:
        x.oblige(st, g, nm, kind, i)


def b_umask(x, st, a, i):
    o = gget(st.mem, 's_um')
    gset(x, st, 's_um', a[0])
    return o


def b_shmopen(x, st, a, i):
    C, m, p = x.nm, st.mem, a[0]
    g = lambda n: gget(m, n)
    B = lambda k: m.u8(Ptr(p.obj, p.off + k))
    ob2(x, st, And(UGE(x.oszf(p.obj), NMAX), p.off == 0, B(bv(0)) == 0x2f, B(bv(NMAX - 1)) == 0), 'the name starts with a slash and is terminated within the limit', i)
    j = bvar(uid('pos'))
    if not x.dry:
        s2 = st.clone()
        s2.assume(as_fact(FA(64, lambda k: Implies(ULE(k, j), B(k) != 0), pat=lambda k: [B(k)])))
        x.oblige(s2, Implies(And(UGE(j, 1), ULT(j, NMAX)), And(B(j) != 0x2f, B(j) != 0x5c)), 'the name has no further slash', 'os', i, assume=False)
    ex = (a[1] & (0o100 | 0o200))
    ob2(x, st, And((a[1] & 3) == 2, Or(ex == 0, ex == 0o300)), 'opened for reading and writing, created exclusively', i)
    ob2(x, st, And(g('s_fd') == bv(-1, 32), g('s_opn') < 2), 'no descriptor is lost', i)
    ob2(x, st, Implies(ex == 0o300, And((a[2] & 0o666) == 0o666, g('s_um') == 0)), 'created for everybody', i)
    bad, good = st.clone(), st
    r = bvar(uid('fd'), 32)
    good.path(r >= 0)
    for s in (bad, good):
        gset(x, s, 's_opn', g('s_opn') + 1)
    # exclusive creation may fail because it exists: not an error by itself
    gset(x, bad, 's_bad', z3.If(ex == 0o300, g('s_bad'), B1))
    gset(x, good, 's_fd', r)
    gset(x, good, 's_new', z3.If(ex == 0o300, B1, B0))
    return ('states', [(good, r), (bad, bv(-1, 32))])


def b_ftrunc(x, st, a, i):
    g = lambda n: gget(st.mem, n)
    C = x.nm
    ob2(x, st, And(a[0] == g('s_fd'), g('s_fd') >= 0), 'the descriptor is open', i)
    r = bvar(uid('ftruncate'), 32)
    st.assume(Or(r == 0, r == bv(-1, 32)))
    gset(x, st, 's_sz', z3.If(r == 0, a[1], g('s_sz')))
    e = bvar(uid('errno'), 32)
    x.rec_write('i32', C.errno.ptr(), 'pt')
    st.mem = st.mem.st('i32', C.errno.ptr(), e)
    # errors other than an interruption: ignored by the code ("platform errors"), assumed away
    st.assume(Implies(r != 0, e == 4))
    return r


def b_errno(x, st, a, i):
    return x.nm.errno.ptr()


def b_mmap(x, st, a, i):
    C, m = x.nm, st.mem
    g = lambda n: gget(m, n)
    ob2(x, st, And(a[4] == g('s_fd'), g('s_fd') >= 0, a[0].obj == 0, a[5] == 0), 'the open object is mapped from its start', i)
    ob2(x, st, And((a[2] & 3) == 3, (a[3] & 1) == 1), 'mapped shared, readable and writable', i)
    ob2(x, st, And(a[1] == g('s_sz'), UGE(a[1], HDR)), 'the whole object is mapped', i)
    bad, good = st.clone(), st
    gset(x, bad, 's_bad', B1)
    gset(x, good, 's_map', B1)
    good.assume(C.shm.size == a[1])
    good.mem = x.havoc_mods(good, good.mem, [Region(C.shm.id)], False, i)
    gm = good.mem
    nw = g('s_new') == 1
    good.assume(Implies(nw, gm.u8(C.shm.ptr(0)) == 0))
    good.assume(as_fact(Imp(nw, FA(64, lambda f: Implies(ULT(f, a[1]), gm.u8(Ptr(bv(C.shm.id), f)) == 0), pat=lambda f: [gm.u8(Ptr(bv(C.shm.id), f))]))))
    return ('states', [(good, C.shm.ptr()), (bad, Ptr(bv(0), bv(-1)))])


def isheader(C, p):
    return And(p.obj == C.shm.id, p.off == MX)


def b_minit(x, st, a, i):
    C = x.nm
    g = lambda n: gget(st.mem, n)
    ob2(x, st, And(isheader(C, a[0]), g('s_new') == 1, g('s_init') == 0, g('s_map') == 1), 'the mutex of a new object is initialized once', i)
    ob2(x, st, And(a[1].obj != 0, gget(st.mem, 's_z') == 1), 'the mutex is shared between processes', i)
    ob2(x, st, st.mem.u8(C.shm.ptr(0)) == 0, 'others do not use the mutex yet', i)
    gset(x, st, 's_init', B1)
    return bv(0, 32)


def b_attrinit(x, st, a, i):
    gset(x, st, 's_z', B0)
    return bv(0, 32)


def b_pshared(x, st, a, i):
    gset(x, st, 's_z', z3.If(a[1] == 1, B1, B0))
    return bv(0, 32)


def b_hlock(x, st, a, i):
    C, m = x.nm, st.mem
    g = lambda n: gget(m, n)
    ob2(x, st, And(isheader(C, a[0]), g('s_held') == 0), 'the mutex of the object is locked once', i)
    ob2(x, st, Or(g('s_init') == 1, m.u8(C.shm.ptr(0)) != 0), 'the mutex is initialized', i)
    # a fresh object nobody else can use yet keeps its contents; otherwise others may have changed everything but the status
    fresh = z3.simplify(And(g('s_new') == 1, m.u8(C.shm.ptr(0)) == 0))
    old = m
    st.mem = x.havoc_mods(st, old, [Region(C.shm.id, bv(RC), bv(4), ['i32']), Region(C.shm.id, bv(HDR), C.shm.size - HDR, ['i8'])], False, i)
    nm = st.mem
    st.assume(Implies(fresh, nm.u32(C.shm.ptr(RC)) == old.u32(C.shm.ptr(RC))))
    st.assume(as_fact(Imp(fresh, FA(64, lambda f: nm.u8(Ptr(bv(C.shm.id), f)) == old.u8(Ptr(bv(C.shm.id), f)), pat=lambda f: [nm.u8(Ptr(bv(C.shm.id), f))]))))
    rc = nm.u32(C.shm.ptr(RC))
    st.assume(ULT(rc, 0xfffffff0))
    gset(x, st, 's_rc', rc)
    gset(x, st, 's_held', B1)
    gset(x, st, 's_acq', g('s_acq') + 1)
    return bv(0, 32)


def b_hunlock(x, st, a, i):
    C = x.nm
    ob2(x, st, And(isheader(C, a[0]), gget(st.mem, 's_held') == 1), 'the held mutex of the object is unlocked', i)
    gset(x, st, 's_held', B0)
    return bv(0, 32)


def b_usleep(x, st, a, i):
    """others may set the status meanwhile"""
    C = x.nm
    havoc_region(x, st, [Region(C.shm.id, bv(0), bv(1), ['i8'])], i)
    return bv(0, 32)


def b_closefd(x, st, a, i):
    ob2(x, st, And(a[0] == gget(st.mem, 's_fd'), a[0] >= 0), 'an open descriptor is closed', i)
    gset(x, st, 's_fd', bv(-1, 32))
    return bv(0, 32)


def b_munmap(x, st, a, i):
    C, m = x.nm, st.mem
    ob2(x, st, And(a[0].obj == C.shm.id, a[0].off == 0, gget(m, 's_map') == 1, gget(m, 's_held') == 0), 'a mapped object whose mutex is not held is unmapped', i)
    # whole pages are unmapped
    ob2(x, st, ((a[1] + 4095) & ~bv(4095)) == ((C.shm.size + 4095) & ~bv(4095)), 'all of it is unmapped', i)
    gset(x, st, 's_map', B0)
    return bv(0, 32)


NB = {'umask': b_umask, 'shm_open': b_shmopen, 'ftruncate': b_ftrunc, '__errno_location': b_errno, 'mmap': b_mmap, 'pthread_mutexattr_init': b_attrinit, 'pthread_mutexattr_setpshared': b_pshared, 'pthread_mutex_init': b_minit, 'pthread_mutex_lock': b_hlock, 'pthread_mutex_unlock': b_hunlock, 'usleep': b_usleep, 'close': b_closefd, 'sprintf': b_sprintf, 'munmap': b_munmap}


class Ready(Named):
    short = 'UnixNamedMemReady'

    def setup(self, x, st, f):
        self.ghosts0(x, st)
        gset(x, st, 's_map', B1)
        gset(x, st, 's_held', B1)
        return [self.shm.ptr()]

    def modifies(self, c):
        return self.gmods()

    def ensures(self, c):
        return [('others are let in', And(gget(c.new, 's_held') == 0, gget(c.new, 's_acq') == 0, gget(c.new, 's_map') == 1))]


class Unmap(Named):
    short = 'UnmapUnixNamedMem'

    def setup(self, x, st, f):
        self.ghosts0(x, st)
        gset(x, st, 's_map', B1)
        n = bvar('Size')
        st.assume(And(ULE(n, 1 << 40), self.shm.size == ((n + HDR + 3) & ~bv(3)), st.mem.u8(self.shm.ptr(0)) != 0))
        return [self.shm.ptr(), n]

    def modifies(self, c):
        return self.gmods()

    def ensures(self, c):
        g = lambda n: gget(c.new, n)
        rc = g('s_rc')
        return [('one reference less, counted while holding the mutex', And(g('s_acq') == 1, c.new.u32(self.shm.ptr(RC)) == z3.If(rc == 0, rc, rc - 1))), ('the mutex is released and the memory unmapped', And(g('s_held') == 0, g('s_map') == 0))]


def jobs(mods):
    o = dict(fork=True)
    I = U + 'InitUnixNamedMem(char*&, unsigned long&, char const*, char const*, unsigned long)'
    return [dict(tu='util', fn=U + 'AlignUnixSize(unsigned long)', con=Align(), opts=o), dict(tu='util', fn=I, con=InitMem(False), opts=dict(fork=True), builtins=NB, label='private'),
            dict(tu='util', fn=I, con=InitMem(True), opts=dict(fork=False, auto=False), builtins=NB, label='named', heavy=True),
            dict(tu='util', fn=U + 'UnixNamedMemReady(char*)', con=Ready(), opts=o, builtins=NB), dict(tu='util', fn=U + 'UnmapUnixNamedMem(char*, unsigned long)', con=Unmap(), opts=o, builtins=NB)]


ASSUME = ['shm_open, mmap, umask, ftruncate, close, pthread_mutex_* behave as POSIX says (contracts in specs/C22.py); ftruncate fails only when interrupted', 'the process-wide mode mask is not changed by another thread during the call', 'fewer than 2^32-16 references to one object', 'sprintf of %u writes 1 to 10 digits', 'processes sharing the object were built from the same code and do not die while holding its mutex']
