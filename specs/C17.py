from .common import *

ID = 'C17'
HARNESS = 'C17.cpp'
BUDGET = 3
EINTR = 4


def tus():
    return {'rng': include('security/security_csprng.cpp')}


class Base17(Contract):
    classes = (('s_pos', 64), ('s_err', 8), ('s_int', 64))
    ghost_classes = ('s_pos', 's_err', 's_int')

    def init(self, x):
        self.fd = fieldoff(x.M, 'CSPRNG', 'MxURandom')
        x.kind('csprng', x.M.di['CSPRNG']['size'], [(self.fd, 'i32')], False)
        x.kind('errno', 4, [(0, 'i32')], False)
        x.kind('v64', 8, [(0, 'i64')], False)
        self.src = x.uf('source_byte', 64, 8)
        self.word = x.uf('source_word', 64, 64)

    def FD(self, c):
        return c.old.u32(Ptr(c.args[0].obj, fieldoff(c.x.M, 'CSPRNG', 'MxURandom')))

    def setup(self, x, st, f):
        self.o = x.param_obj(st, 'this', 'csprng')
        x.errno = x.param_obj(st, 'errno', 'errno')
        gset(x, st, 's_pos', bv(0))       # without loss of generality: the stream is an arbitrary function of the position
        return [self.o.ptr()] + self.more(x, st)

    def ghostmods(self, c):
        return [GhostRegion(g) for g in self.ghost_classes] + ([Region(c.x.errno.id)] if hasattr(c.x, 'errno') else [])


def b_errno(x, st, a, i):
    return x.errno.ptr()


def b_read(x, st, a, i):
    """POSIX read on the random source: delivers the next r bytes of the stream, or fails"""
    src = x.uf('source_byte', 64, 8)
    fd, buf, n = a
    if not x.dry:
        x._range_access(st, buf, n, True, i, n != 0)
    r, e = bvar(uid('read')), bvar(uid('errno'), 32)
    st.assume(And(r >= -1, Or(r <= 0, ULE(r, n))))
    rr = z3.If(r > 0, r, bv(0))
    havoc_region(x, st, [Region(buf.obj, buf.off, rr, ['i8'])], i)
    m = st.mem
    pos = gget(m, 's_pos')
    st.assume(FA(64, lambda f: Implies(ULT(f - buf.off, rr), m.u8(Ptr(buf.obj, f)) == src(pos + (f - buf.off))), pat=lambda f: [m.u8(Ptr(buf.obj, f))]))
    intr = And(r < 0, e == EINTR)
    bad = Or(And(r < 0, e != EINTR), And(r == 0, n != 0))
    # errno is only meaningful after a failure
    x.rec_write('i32', x.errno.ptr(), 'pt')
    st.mem = st.mem.st('i32', x.errno.ptr(), z3.If(r < 0, e, m.u32(x.errno.ptr())))
    gi = gget(m, 's_int')
    st.assume(Implies(intr, gi != 0))
    gset(x, st, 's_int', z3.If(intr, gi - 1, gi))
    gset(x, st, 's_pos', pos + rr)
    gset(x, st, 's_err', z3.If(bad, bv(1, 8), gget(m, 's_err')))
    return r


class GetBytes(Base17):
    short = 'GetBytes'

    def more(self, x, st):
        n = bvar('Size')
        self.r = x.param_obj(st, 'Result', 'bytes', n)
        return [self.r.ptr(), n]

    def requires(self, c):
        R, n = c.args[1:]
        return [('Size bytes are writable', And(c.x.inb(R.off, n, c.x.oszf(R.obj)), Or(n == 0, c.old.alive(R.obj)), ULE(n, MAXSZ), ULE(R.off, MAXSZ))), ('no failure so far', gget(c.old, 's_err') == 0)]

    def modifies(self, c):
        return [Region(c.args[1].obj, c.args[1].off, c.args[2])] + self.ghostmods(c)

    def filled(self, c, m, n):
        R = c.args[1]
        p0 = gget(c.old, 's_pos')
        src = c.x.uf('source_byte', 64, 8)
        return FA(64, lambda f: Implies(ULT(f - R.off, n), m.u8(Ptr(R.obj, f)) == src(p0 + (f - R.off))), pat=lambda f: [m.u8(Ptr(R.obj, f))])

    def ensures(self, c):
        R, n = c.args[1:]
        p0 = gget(c.old, 's_pos')
        out = [('success means every byte came from the source, in order and each used once', Imp(c.ret, self.filled(c, c.new, n))),
               ('success consumes exactly the requested amount', Implies(c.ret, gget(c.new, 's_pos') == p0 + n)),
               ('success means no error was seen', Implies(c.ret, And(gget(c.new, 's_err') == 0, self.FD(c) >= 0))),
               ('failure only without a source or after a read error', Implies(Not(c.ret), Or(self.FD(c) < 0, gget(c.new, 's_err') == 1)))]
        if c.caller and num(n) == 8:
            out.append(('word', Implies(c.ret, c.new.u64(R) == c.x.uf('source_word', 64, 64)(p0))))
        return out

    def inv(self, c, L):
        R, n = c.args[1:]
        p0 = gget(c.old, 's_pos')

        def got(w):
            return gget(w.mem, 's_pos') - p0
        out = [('prefix filled', lambda w: self.filled(c, w.mem, got(w))), ('no error', lambda w: gget(w.mem, 's_err') == 0), ('at most Size', lambda w: ULE(got(w), n)), ('position unchanged', lambda w: gget(w.mem, 's_pos') == gget(w.entry.mem, 's_pos'))]
        for k, v in L.head.vals.items():
            if isinstance(v, Ptr):
                out.append(('pointer follows the position', lambda w, k=k: And(w[k].obj == R.obj, w[k].off == R.off + got(w))))
            elif z3.is_bv(v) and v.size() == 64:
                out.append(('remaining follows the position', lambda w, k=k: w[k] == n - got(w)))
                out.append(('count follows the position', lambda w, k=k: w[k] == got(w)))
        return out

    def measures(self, x, L):
        return [('interruptions', lambda w: gget(w.mem, 's_int'))]


class GetInteger(Base17):
    short = 'GetInteger'

    def may_loop(self, L):
        return any(w[0] == 's_pos' for w in L.W)      # rejection sampling: ends with probability 1

    def measures(self, x, L):
        return [('~' + str(k), lambda w, k=k: ~w[k]) for k, v in L.head.vals.items() if z3.is_bv(v) and v.size() == 64]

    def more(self, x, st):
        self.r = x.param_obj(st, 'Result', 'v64')
        return [self.r.ptr(), bvar('Min'), bvar('Max')]

    def requires(self, c):
        # ghost: the smallest 2^k-1 that covers the range (exists for every range, and is unique)
        m = self.mask = bvar('ghost_mask')
        a, b = c.args[2:]
        rng = z3.If(ULT(b, a), a - b, b - a)
        return [('no failure so far', gget(c.old, 's_err') == 0), ('mask', And((m & (m + 1)) == 0, UGE(m, rng), Or(m == 0, ULT(z3.LShR(m, 1), rng))))]

    def modifies(self, c):
        return [Region(self.r.id)] + self.ghostmods(c)

    def ensures(self, c):
        a, b = c.args[2:]
        lo, hi = z3.If(ULT(b, a), b, a), z3.If(ULT(b, a), a, b)
        rng = hi - lo
        mask = self.mask
        v = c.new.u64(self.r.ptr())
        p1, p0 = gget(c.new, 's_pos'), gget(c.old, 's_pos')
        return [('the result lies between the bounds, given in either order', Implies(c.ret, And(UGE(v, lo), ULE(v, hi)))),
                ('the result is a whole source word reduced to the bits of the range', Implies(c.ret, v == lo + (self.word(p1 - 8) & mask))),
                ('only words outside the range were discarded', Imp(c.ret, self.rejected(c, p0, p1 - 8, mask, rng))),
                ('failure only without a source or after a read error', Implies(Not(c.ret), Or(self.FD(c) < 0, gget(c.new, 's_err') == 1))),
                ('success means no error was seen', Implies(c.ret, gget(c.new, 's_err') == 0))]

    def rejected(self, c, p0, p, mask, rng):
        return FA(64, lambda q: Implies(And(ULT(q - p0, p - p0), ((q - p0) & 7) == 0), UGT(self.word(q) & mask, rng)), pat=lambda q: [self.word(q)])

    def inv(self, c, L):
        a, b = c.args[2:]
        rng = z3.If(ULT(b, a), a - b, b - a)
        mask = self.mask
        p0 = gget(c.old, 's_pos')
        out = [('no error', lambda w: gget(w.mem, 's_err') == 0),
               ('rejected so far', lambda w: self.rejected(c, p0, gget(w.mem, 's_pos'), mask, rng)),
               ('whole words', lambda w: ((gget(w.mem, 's_pos') - p0) & 7) == 0),
               ('nothing read yet', lambda w: gget(w.mem, 's_pos') == p0)]
        for L0 in c.x.loops:
            for v in L0.head.vals.values():
                if z3.is_bv(v) and v.size() == 64:
                    out.insert(0, ('mask found', lambda w, v=v: v == mask))
        for k, v in L.head.vals.items():
            if z3.is_bv(v) and v.size() == 64:
                out.append(('all ones', lambda w, k=k: (w[k] & (w[k] + 1)) == 0))
                out.append(('smallest', lambda w, k=k: Or(w[k] == 0, ULT(z3.LShR(w[k], 1), rng))))
                out.append(('at most the mask', lambda w, k=k: ULE(w[k], mask)))
        return out


def b_open(x, st, a, i):
    r = bvar(uid('open'), 32)
    st.assume(r >= -1)
    gset(x, st, 's_n', gget(st.mem, 's_n') + 1)
    gset(x, st, 's_po', a[0].obj)
    gset(x, st, 's_pf', a[0].off)
    gset(x, st, 's_fd', r)
    if not x.dry:
        x.oblige(st, (a[1] & 3) == 0, 'the device is opened for reading', 'pre', i)
    return r


def b_close(x, st, a, i):
    gset(x, st, 's_closed', a[0])
    return bvar(uid('close'), 32)


class Ctor(Base17):
    short = 'constructor'
    classes = (('s_po', 64), ('s_pf', 64), ('s_fd', 32), ('s_n', 64), ('s_closed', 32))
    ghost_classes = ('s_po', 's_pf', 's_fd', 's_n', 's_closed')

    def setup(self, x, st, f):
        self.o = x.param_obj(st, 'this', 'csprng')
        gset(x, st, 's_n', bv(0))
        return [self.o.ptr(), z3.Bool('CryptoSafe')]

    def modifies(self, c):
        return [Region(self.o.id)] + [GhostRegion(g) for g in self.ghost_classes]

    def ensures(self, c):
        m = c.new
        p = Ptr(gget(m, 's_po'), gget(m, 's_pf'))

        def isstr(t):
            return And(*[m.u8(p + k) == b for k, b in enumerate(t.encode() + b'\0')])
        n = gget(m, 's_n')
        fd = gget(m, 's_fd')
        return [('the descriptor is the opened device', m.u32(self.o.ptr(self.fd)) == fd),
                ('the strong generator uses /dev/random only', Implies(c.args[1], And(n == 1, isstr('/dev/random')))),
                ('the other generator falls back to /dev/urandom', Implies(Not(c.args[1]), Or(And(n == 1, isstr('/dev/arandom'), fd >= 0), And(n == 2, isstr('/dev/urandom')))))]


class Dtor(Ctor):
    short = 'destructor'

    def setup(self, x, st, f):
        return Ctor.setup(self, x, st, f)[:1]

    def ensures(self, c):
        return [('closes its device', gget(c.new, 's_closed') == c.old.u32(self.o.ptr(self.fd)))]


def jobs(mods):
    M = mods['rng']
    B = {'open': b_open, 'close': b_close, 'read': b_read, '__errno_location': b_errno}
    T = 'CubicleSoft::Security::CSPRNG::'
    gb = GetBytes()
    return [dict(tu='rng', fn=T + 'CSPRNG(bool)', con=Ctor(), opts=dict(fork=True), builtins=B), dict(tu='rng', fn=T + '~CSPRNG()', con=Dtor(), opts={}, builtins=B),
            dict(tu='rng', fn=T + 'GetBytes(unsigned char*, unsigned long)', con=gb, opts={}, builtins=B),
            dict(tu='rng', fn=T + 'GetInteger(unsigned long&, unsigned long, unsigned long)', con=GetInteger(), opts=dict(hrl=10), builtins=B, contracts=[(T + "GetBytes(unsigned char*, unsigned long)", gb)])]


ASSUME = ['read() on the open random device delivers the next bytes of one stream (ghost function source_byte), at most as many as asked for, or fails with an error number; a result of 0 is an end of file',
          'a signal interrupts only finitely many reads in a row',
          'the first read of GetInteger is not counted twice: eight freshly read bytes form one word (ghost function source_word)',
          'termination of the rejection loop in GetInteger is probabilistic and not claimed',
          'the quality of the device\'s randomness is the operating system\'s']
