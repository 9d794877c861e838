from .common import *
from .intfmt import ToStr, Digits
from .mixvar import Text, NZ, b_snprintf, MODES

ID = 'C24'
HARNESS = 'C24.cpp'
HARNESS_SRC = ['sync/sync_tls.cpp', 'sync/sync_util.cpp']
BUDGET = 5
CLS = 'MixedVar'
LIM = 1 << 46


def tus():
    V = 'CubicleSoft::Sync::TLS::MixedVar'
    ms = [('bool', 'Is' + k, '') for k in ('None', 'Bool', 'Int', 'UInt', 'Double', 'Str')] + [('bool', 'GetBool', ''), ('std::int64_t', 'GetInt', ''), ('std::uint64_t', 'GetUInt', ''), ('double', 'GetDouble', ''), ('char *', 'GetStr', ''), ('size_t', 'GetSize', ''), ('CubicleSoft::Sync::TLS *', 'GetTLS', ''),
          ('void', 'SetBool', 'bool'), ('void', 'SetInt', 'std::int64_t'), ('void', 'SetUInt', 'std::uint64_t'), ('void', 'SetDouble', 'double'), ('void', 'SetTLS', 'CubicleSoft::Sync::TLS *'), ('bool', 'RemoveTrailingChar', 'char')]
    # (address taken: makes the compiler emit the inline members)
    return {'tls': include('sync/sync_tls.cpp') + ''.join('%s (%s::*irv_m%d)(%s) = &%s::%s;\n' % (r, V, k, a, V, n) for k, (r, n, a) in enumerate(ms))}


# ---------------------------------------------------------------- the allocator as seen from the variable
class TMalloc(Contract):
    """Sync::TLS::malloc in an initialised thread with memory left: a new block, one header byte in front"""
    allocates = True
    short = 'TLS::malloc'

    def requires(self, c):
        return [('a size is asked for', And(c.args[1] != 0, ULE(c.args[1], 4 * LIM))), ('allocator given', c.args[0].obj != 0)]

    def modifies(self, c):
        return []

    def ensures(self, c):
        return fresh(c, c.ret, c.args[1]) + only(c, c.ret.obj)


def fresh(c, r, n):
    return [('a new block of that size', And(r.obj != 0, r.off == 1, Not(c.old.alive(r.obj)), c.new.alive(r.obj), c.x.kindf(r.obj) == c.x.kinds['bytes'].id, UGE(c.x.oszf(r.obj), n + 1), ULE(c.x.oszf(r.obj), 16 * LIM)))]


def only(c, o):
    A = lambda m, q: m.m['alive'].read(q, bv(0))
    return [('nothing else is created', FA(64, lambda q: Implies(q != o, A(c.new, q) == A(c.old, q)), pat=lambda q: [A(c.new, q)]))]


class TFree(Contract):
    short = 'TLS::free'

    def requires(self, c):
        p = c.args[1]
        return [('null or a block of the allocator', Or(p.obj == 0, And(p.off == 1, c.old.alive(p.obj), c.x.kindf(p.obj) == c.x.kinds['bytes'].id)))]

    def modifies(self, c):
        return [Region(c.args[1].obj, cls='alive')]

    def ensures(self, c):
        p = c.args[1]
        return [('released', Implies(p.obj != 0, Not(c.new.alive(p.obj))))]


class TRealloc(Contract):
    allocates = True
    short = 'TLS::realloc'

    def requires(self, c):
        p, n = c.args[1], c.args[2]
        return [('null or a block of the allocator', Or(p.obj == 0, And(p.off == 1, c.old.alive(p.obj), c.x.kindf(p.obj) == c.x.kinds['bytes'].id))), ('a size is asked for', And(n != 0, ULE(n, 4 * LIM))), ('allocator given', c.args[0].obj != 0)]

    def modifies(self, c):
        return [Region(c.args[1].obj, cls='alive')]

    def ensures(self, c):
        p, n, r = c.args[1], c.args[2], c.ret
        m, o = c.new, c.old
        same = And(r.obj == p.obj, p.obj != 0)
        A = lambda m, q: m.m['alive'].read(q, bv(0))
        out = [('a block of that size', And(r.obj != 0, r.off == 1, m.alive(r.obj), c.x.kindf(r.obj) == c.x.kinds['bytes'].id, UGE(c.x.oszf(r.obj), n + 1), ULE(c.x.oszf(r.obj), 16 * LIM))),
               ('new unless the old one is kept', Implies(Not(same), Not(o.alive(r.obj)))),
               ('the old one is released unless kept', Implies(And(Not(same), p.obj != 0), Not(m.alive(p.obj)))),
               ('contents are kept', FA(64, lambda f: Implies(And(p.obj != 0, UGE(f, 1), ULT(f, c.x.oszf(p.obj)), ULT(f, c.x.oszf(r.obj))), m.u8(Ptr(r.obj, f)) == o.u8(Ptr(p.obj, f))), pat=lambda f: [m.u8(Ptr(r.obj, f))])),
               ('nothing else is created or released', FA(64, lambda q: Implies(And(q != r.obj, q != p.obj), A(m, q) == A(o, q)), pat=lambda q: [A(m, q)]))]
        return out


# ---------------------------------------------------------------- the variable
FLD = ('MxMode', 'MxInt', 'MxDouble', 'MxStr', 'MxStrPos', 'MxTLS')


class TV(Contract):
    allocates = True
    built = True        # the object is constructed before the call
    settls = True

    def init(self, x):
        o = self.lay(x)
        x.kind('var', x.M.di[CLS]['size'], [(o['MxMode'], 'i32'), (o['MxInt'], 'i64'), (o['MxDouble'], 'f64'), (o['MxStr'], 'ptr'), (o['MxStrPos'], 'i64'), (o['MxTLS'], 'ptr')], False)

    def lay(self, x):
        if not hasattr(self, '_o'):
            self._o = {n: fieldoff(x.M, CLS, n) for n in FLD}
        return self._o

    def mkvar(self, x, st, tag, built=True):
        o = self.lay(x)
        v = x.param_obj(st, tag, 'var')
        if not built:
            return v
        t = x.param_obj(st, tag + '.TLS', 'bytes', 8)
        n = bvar(tag + '.cap')
        st.assume(And(ULE(n, 4 * LIM), UGE(n, 2)))
        s = x.param_obj(st, tag + '.Str', 'bytes', n)
        isn = z3.Bool(tag + '.null')
        st.mem = st.mem.st('ptr', v.ptr(o['MxStr']), Ptr(z3.If(isn, bv(0), bv(s.id)), z3.If(isn, bv(0), bv(1))))
        st.mem = st.mem.st('ptr', v.ptr(o['MxTLS']), t.ptr())
        return v

    def setup(self, x, st, f):
        self.o = self.mkvar(x, st, 'this', self.built)
        return [self.o.ptr()] + self.more(x, st)

    def more(self, x, st):
        return []

    def F(self, c, m, n, a=None):
        p = (a or c.args[0]) + self.lay(c.x)[n]
        return m.ptr(p) if n in ('MxStr', 'MxTLS') else m.u32(p) if n == 'MxMode' else m.rd('f64', p) if n == 'MxDouble' else m.u64(p)

    def pos(self, c, m, a=None):
        return self.F(c, m, 'MxStrPos', a)

    def str(self, c, m, a=None):
        return self.F(c, m, 'MxStr', a)

    def B(self, c, m, k, a=None):
        s = self.str(c, m, a)
        return m.u8(Ptr(s.obj, s.off + k))

    def wf(self, c, m, a=None):
        s, p = self.str(c, m, a), self.pos(c, m, a)
        t = self.F(c, m, 'MxTLS', a)
        return [('no text without storage', Implies(s.obj == 0, And(p == 0, s.off == 0))),
                ('storage holds the text and its terminator', Implies(s.obj != 0, And(s.off == 1, m.alive(s.obj), c.x.kindf(s.obj) == c.x.kinds['bytes'].id, ULE(p, 2 * LIM), ULT(p + 1, c.x.oszf(s.obj)), ULE(c.x.oszf(s.obj), 16 * LIM), m.u8(Ptr(s.obj, 1 + p)) == 0))),
                ('allocator known', And(t.obj != 0, t.obj != s.obj))]

    def requires(self, c):
        out = []
        if self.built:
            out += [('variable well formed: ' + n, g) for n, g in self.wf(c, c.old)]
            out.append(('text of moderate size', ULE(self.pos(c, c.old), LIM)))
        return out + self.req(c)

    def req(self, c):
        return []

    def modifies(self, c):
        o, a = self.lay(c.x), c.args[0]
        s = self.str(c, c.old)
        out = [Region(a.obj, a.off, c.x.M.di[CLS]['size'], ['i32', 'i64', 'f64', 'ptr'])]
        if self.built:
            out += [Region(s.obj, cls='alive'), Region(s.obj, 1, c.x.oszf(s.obj) - 1, ['i8'])]
        return out

    def ensures(self, c):
        out = [('variable well formed: ' + n, g) for n, g in self.wf(c, c.new)] + self.ens(c)
        s0, s1 = self.str(c, c.old), self.str(c, c.new)
        A = lambda m, q: m.m['alive'].read(q, bv(0))
        if self.built:
            out.append(('storage is replaced, kept or released, nothing leaks', FA(64, lambda q: Implies(And(q != 0, q != s1.obj, *self.notlocal(c, q)), A(c.new, q) == ite(q == s0.obj, bv(0, 1), A(c.old, q))), pat=lambda q: [A(c.new, q)])))
            out.append(('other storage is new', Or(s1.obj == s0.obj, s1.obj == 0, Not(c.old.alive(s1.obj)))))
        return out

    def notlocal(self, c, q):
        return [] if c.caller else [q != o.id for o in c.x.objs.values() if o.local]

    def ens(self, c):
        return []

    def others(self, c, mode=None):
        """mode, integer and double"""
        i, d = [And(self.F(c, c.new, n) == self.F(c, c.old, n)) for n in ('MxInt', 'MxDouble')]
        return [('mode', self.F(c, c.new, 'MxMode') == (self.F(c, c.old, 'MxMode') if mode is None else mode)), ('number', And(i, d)), ('allocator', self.F(c, c.new, 'MxTLS').eq(self.F(c, c.old, 'MxTLS')))]

    def refs(self, c):
        return [('pos', self.pos(c, c.old))] if self.built else []

    def keep(self, c, n, at=None):
        """characters 0.. n-1 are the old ones (moved behind the first `at`)"""
        s0, s1, o, m = self.str(c, c.old), self.str(c, c.new), c.old, c.new
        k = at if at is not None else bv(0)
        st = 1 + k
        return FA(64, lambda f: Implies(And(UGE(f, st), ULT(f, st + n)), m.u8(Ptr(s1.obj, f)) == o.u8(Ptr(s0.obj, f - k))), pat=lambda f: [m.u8(Ptr(s1.obj, f))])

    def at(self, c, start, src, n):
        s1, o, m = self.str(c, c.new), c.old, c.new
        st = 1 + start
        return FA(64, lambda f: Implies(And(UGE(f, st), ULT(f, st + n)), m.u8(Ptr(s1.obj, f)) == o.u8(Ptr(src.obj, src.off + (f - st)))), pat=lambda f: [m.u8(Ptr(s1.obj, f))])


class PutT(TV, Text):
    def __init__(self, short):
        self.short = short
        self.set = short.startswith('Set')
        self.pre = short.startswith('Pre')
        self.counted = short.endswith('Data')

    def more(self, x, st):
        return self.text_setup(x, st, self.counted)

    def req(self, c):
        s = self.str(c, c.old)
        return self.text_req(c) + [('source is not the variable itself', And(c.args[1].obj != s.obj, c.args[1].obj != c.args[0].obj))]

    def ens(self, c):
        n = self.ln(c)
        p0 = self.pos(c, c.old)
        out = self.others(c, MODES['Str'] if self.set else None)
        if self.set:
            return out + [('size is that of the text', self.pos(c, c.new) == n), ('holds exactly the text', self.at(c, bv(0), c.args[1], n)), ('storage exists', self.str(c, c.new).obj != 0)]
        out += [('size is the sum', self.pos(c, c.new) == p0 + n), ('storage exists', self.str(c, c.new).obj != 0)]
        if self.pre:
            return out + [('the new text comes first', self.at(c, bv(0), c.args[1], n)), ('the old text follows', self.keep(c, p0, n))]
        return out + [('the old text is kept', self.keep(c, p0)), ('the new text follows', self.at(c, p0, c.args[1], n))]


class NumT(TV):
    def __init__(self, short, pre, kind, neg=None):
        self.short, self.pre, self.kind, self.neg = short, pre, kind, neg

    def more(self, x, st):
        if self.kind == 'double':
            return [z3.FP('val', z3.Float64()), bvar('precision')]
        v = bvar('val')
        if self.kind == 'int':
            st.assume((v < 0) == self.neg)
        return [v, bvar('radix')]

    def req(self, c):
        return [] if self.kind == 'double' else [('radix between 2 and 36', And(UGE(c.args[2], 2), ULE(c.args[2], 36)))]

    def ens(self, c):
        x, m, o = c.x, c.new, c.old
        p0, p1 = self.pos(c, o), self.pos(c, m)
        out = self.others(c)
        if self.kind == 'double':
            k = p1 - p0
            return out + [('the size never shrinks', And(UGE(p1, p0), ULT(k, 100))), ('the old text is kept', self.keep(c, p0, k if self.pre else None))]
        v, r = c.args[1], c.args[2]
        neg = self.kind == 'int' and self.neg
        D = Digits(x, c.st, sub(bv(0), v) if neg else v, r)
        g = bv(1 if neg else 0)
        tot = D.len + g
        k = z3.If(ULT(tot, 44), tot, bv(0))
        s1 = self.str(c, m)
        st = 1 + (bv(0) if self.pre else p0)
        return out + [('size grows by the digits', p1 == p0 + k), ('the old text is kept', self.keep(c, p0, k if self.pre else None)), ('minus sign first', Implies(And(neg, k != 0), m.u8(Ptr(s1.obj, st)) == 0x2d)),
                      ('digits of the number', FA(64, lambda f: Implies(And(UGE(f, st + g), ULT(f, st + k)), m.u8(Ptr(s1.obj, f)) == D.ch(f - st - g)), pat=lambda f: [m.u8(Ptr(s1.obj, f))]))]


class CharT(TV):
    def __init__(self, short):
        self.short = short

    def more(self, x, st):
        return [bvar('size')] if self.short == 'SetSize' else [bvar('chr', 8)]

    def req(self, c):
        return [('moderate size', ULE(c.args[1], LIM))] if self.short == 'SetSize' else []

    def ens(self, c):
        m, o, a = c.new, c.old, c.args[1]
        p0, p1 = self.pos(c, o), self.pos(c, m)
        out = self.others(c)
        if self.short == 'SetSize':
            return out + [('size', p1 == a), ('characters below both sizes are unchanged', self.keep(c, z3.If(ULT(p0, a), p0, a))), ('storage exists', self.str(c, m).obj != 0)]
        last = And(p0 != 0, self.B(c, o, p0 - 1) == a)
        if self.short == 'RemoveTrailingChar':
            return out + [('reports whether the last character matched', c.ret == last), ('size', p1 == z3.If(last, p0 - 1, p0)), ('rest unchanged', self.keep(c, p1))]
        do = z3.BoolVal(True) if self.short == 'AppendChar' else Not(last)
        return out + [('size', p1 == z3.If(do, p0 + 1, p0)), ('earlier characters are unchanged', self.keep(c, p0)), ('character added', Implies(do, self.B(c, m, p0) == a))]


class SimpleT(TV):
    def __init__(self, short):
        self.short = short

    def more(self, x, st):
        if self.short == 'SetTLS':
            return [x.param_obj(st, 'TLSPtr', 'bytes', 8).ptr()]
        return {'SetBool': lambda: [z3.Bool('v')], 'SetInt': lambda: [bvar('v')], 'SetUInt': lambda: [bvar('v')], 'SetDouble': lambda: [z3.FP('v', z3.Float64())]}.get(self.short, lambda: [])()

    def modifies(self, c):
        o, a = self.lay(c.x), c.args[0]
        if self.short == 'SetTLS':
            return [Region(a.obj, a.off + o['MxTLS'], 8, ['ptr'])]
        if self.short.startswith('Set'):
            f = 'MxDouble' if self.short == 'SetDouble' else 'MxInt'
            return [Region(a.obj, a.off + o['MxMode'], 4, ['i32']), Region(a.obj, a.off + o[f], 8, ['f64' if f == 'MxDouble' else 'i64'])]
        return []

    def ensures(self, c):
        m = c.new
        s = self.short
        F = lambda n: self.F(c, m, n)
        if s == 'SetTLS':
            return [('allocator', F('MxTLS').eq(c.args[1]))]
        if s.startswith('Is'):
            return [('tells the mode', c.ret == (F('MxMode') == MODES[s[2:]]))]
        if s.startswith('Set'):
            out = [('mode', F('MxMode') == MODES[s[3:]])]
            v = c.args[1]
            if s == 'SetDouble':
                return out + [('value', F('MxDouble') == v)]
            return out + [('value', F('MxInt') == (z3.If(v, bv(1), bv(0)) if s == 'SetBool' else v))]
        i = F('MxInt')
        return {'GetBool': lambda: [('value', c.ret == (i != 0))], 'GetInt': lambda: [('value', c.ret == i)], 'GetUInt': lambda: [('value', c.ret == i)], 'GetDouble': lambda: [('value', c.ret == F('MxDouble'))],
                'GetStr': lambda: [('value', c.ret.eq(F('MxStr')))], 'GetSize': lambda: [('value', c.ret == F('MxStrPos'))], 'GetTLS': lambda: [('value', c.ret.eq(F('MxTLS')))]}[s]()


class LifeT(TV):
    """constructor, copy constructor, assignment, destructor"""

    def __init__(self, short, selfa=False):
        self.short, self.selfa = short, selfa
        self.built = short in ('operator=', 'destructor')

    def more(self, x, st):
        if self.short == 'ctor':
            return [x.param_obj(st, 'TLSPtr', 'bytes', 8).ptr()]
        if self.short == 'destructor':
            return []
        if self.selfa:
            return [self.o.ptr()]
        return [self.mkvar(x, st, 'Temp').ptr()]

    def req(self, c):
        if self.short in ('ctor', 'destructor') or self.selfa:
            return []
        t = c.args[1]
        return [('source well formed: ' + n, g) for n, g in self.wf(c, c.old, t)] + [('text of moderate size', ULE(self.pos(c, c.old, t), LIM))]

    def modifies(self, c):
        if self.short == 'destructor':
            return [Region(self.str(c, c.old).obj, cls='alive')] + TV.modifies(self, c)
        return TV.modifies(self, c)

    def ensures(self, c):
        m, o = c.new, c.old
        F = lambda n, a=None, m=m: self.F(c, m, n, a)
        if self.short == 'ctor':
            return [('starts as nothing', And(F('MxMode') == 0, F('MxInt') == 0, F('MxStr').obj == 0, F('MxStrPos') == 0, F('MxTLS').eq(c.args[1]))), ('double is zero', F('MxDouble') == 0)]
        A = lambda m, q: m.m['alive'].read(q, bv(0))
        if self.short == 'destructor':
            s = self.str(c, o)
            return [('exactly the storage is released', FA(64, lambda q: Implies(q != 0, A(m, q) == ite(q == s.obj, bv(0, 1), A(o, q))), pat=lambda q: [A(m, q)]))]
        t = c.args[1]
        out = TV.ensures(self, c) if self.built else [('variable well formed: ' + n, g) for n, g in self.wf(c, m)]
        if self.selfa:
            return [('returns the variable', c.ret.eq(c.args[0])), ('unchanged', And(*[F(n) == F(n, None, o) for n in ('MxMode', 'MxInt', 'MxDouble', 'MxStrPos')])), ('storage unchanged', F('MxStr').eq(F('MxStr', None, o))), ('still alive', Implies(F('MxStr').obj != 0, m.alive(F('MxStr').obj)))]
        st, s1 = self.str(c, o, t), self.str(c, m)
        n = self.pos(c, o, t)
        out += [('same mode, number and size', And(*[F(k) == F(k, t, o) for k in ('MxMode', 'MxInt', 'MxDouble', 'MxStrPos')])), ('same allocator', F('MxTLS').eq(F('MxTLS', t, o))),
                ('same text', FA(64, lambda f: Implies(And(UGE(f, 1), ULT(f, 1 + n)), m.u8(Ptr(s1.obj, f)) == o.u8(Ptr(st.obj, f))), pat=lambda f: [m.u8(Ptr(s1.obj, f))])),
                ('own storage exactly when the source has some', And((s1.obj == 0) == (st.obj == 0), Or(s1.obj == 0, Not(o.alive(s1.obj)), s1.obj == self.str(c, o).obj) if self.built else Or(s1.obj == 0, Not(o.alive(s1.obj))))),
                ('the source is unchanged', And(*[F(k, t) == F(k, t, o) for k in ('MxMode', 'MxInt', 'MxDouble', 'MxStrPos')])), ('storage of the source stays', Implies(st.obj != 0, m.alive(st.obj)))]
        if self.built:
            out.append(('returns the variable', c.ret.eq(c.args[0])))
        else:
            out.append(('nothing else is created or released', FA(64, lambda q: Implies(And(q != s1.obj, q != 0), A(m, q) == A(o, q)), pat=lambda q: [A(m, q)])))
        return out


def jobs(mods):
    out = []
    P = 'CubicleSoft::Sync::TLS::'
    T = P + 'MixedVar::'
    AL = [(P + 'malloc(unsigned long)', TMalloc()), (P + 'realloc(void*, unsigned long, bool)', TRealloc()), (P + 'free(void*, bool)', TFree())]
    S = '(char*, unsigned long, %s, unsigned long)'
    TX = {k: '(char const*, unsigned long)' if k.endswith('Data') else '(char const*)' for k in ('SetData', 'SetStr', 'AppendData', 'AppendStr', 'PrependData', 'PrependStr')}
    con = {k: (T + k + v, PutT(k)) for k, v in TX.items()}
    OPT = dict(fork=True, fresh=1500)

    def job(sig, c, label='', contracts=(), **k):
        out.append(dict(tu='tls', fn=T + sig, con=c, label=label, contracts=AL + list(contracts), opts=dict(OPT, **k.pop('opts', {})), **k))
    job('MixedVar(CubicleSoft::Sync::TLS*)', LifeT('ctor'))
    job('~MixedVar()', LifeT('destructor'))
    job('MixedVar(CubicleSoft::Sync::TLS::MixedVar const&)', LifeT('copy'), contracts=[])
    for s in (False, True):
        job('operator=(CubicleSoft::Sync::TLS::MixedVar const&)', LifeT('operator=', s), 'self' if s else '')
    for k in TX:
        job(k + TX[k], con[k][1], contracts=[con[k[:-3] + 'Data']] if k.endswith('Str') else [])
    for k in ('AppendChar', 'AppendMissingChar', 'RemoveTrailingChar'):
        job(k + '(char)', CharT(k), contracts=[(T + 'AppendChar(char)', CharT('AppendChar'))] if k == 'AppendMissingChar' else [])
    job('SetSize(unsigned long)', CharT('SetSize'))
    for k in ('None', 'Bool', 'Int', 'UInt', 'Double', 'Str'):
        job('Is%s()' % k, SimpleT('Is' + k))
    for k in ('GetBool', 'GetInt', 'GetUInt', 'GetDouble', 'GetStr', 'GetSize', 'GetTLS'):
        job(k + '()', SimpleT(k))
    for k, t in (('SetBool', 'bool'), ('SetInt', 'long'), ('SetUInt', 'unsigned long'), ('SetDouble', 'double'), ('SetTLS', 'CubicleSoft::Sync::TLS*')):
        job('%s(%s)' % (k, t), SimpleT(k))
    for pre in (False, True):
        pn = 'Prepend' if pre else 'Append'
        callee = con[pn + 'Str']
        job(pn + 'Double(double, unsigned long)', NumT(pn + 'Double', pre, 'double'), contracts=[callee], builtins={'snprintf': b_snprintf})
        for kind, ty, nm in (('uint', 'unsigned long', 'UInt'), ('int', 'long', 'Int')):
            for neg in ((False, True) if kind == 'int' else (False,)):
                cs = [callee, (T + 'IntToString' + S % ty, NZ('IntToString', kind == 'int', False, True, None, False, neg=neg if kind == 'int' else None))]
                job('%s%s(%s, unsigned long)' % (pn, nm, ty), NumT(pn + nm, pre, kind, neg), ('negative' if neg else 'non-negative') if kind == 'int' else '', contracts=cs, opts=dict(uf_div=True, abs_digits=True))
    U = dict(unroll=64, uf_div=True, path_prune=False)
    u, s = S % 'unsigned long', S % 'long'
    out.append(dict(tu='tls', fn=T + 'IntToString' + u, con=NZ('IntToString', False, False, True, None, False), label='no terminator inside', opts=U, heavy=True))
    for neg in (False, True):
        out.append(dict(tu='tls', fn=T + 'IntToString' + s, con=NZ('IntToString', True, False, True, None, False, neg=neg), label='no terminator inside' + (' negative' if neg else ' non-negative'), opts=U, contracts=[(T + 'IntToString' + u, NZ('IntToString', False, False, True, None, False))]))
    return out


ASSUME = ['the thread is initialised and its allocator does not run out of memory (blocks of Sync::TLS::malloc, realloc, free by their contracts: see C23)', 'source text does not lie inside the variable itself, texts of at most 2^46 bytes', 'radix between 2 and 36', 'the text of a double is snprintf\'s', 'ReplaceData and ReplaceStr are run by the oracle only']
