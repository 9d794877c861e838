"""Contracts of StaticMixedVar<char[N]> (shared by the property about it and by its users)."""
from .common import *
from .intfmt import ToStr, Digits

MODES = {'None': 0, 'Bool': 1, 'Int': 2, 'UInt': 3, 'Double': 4, 'Str': 5}


class MV(Contract):
    cls = None      # e.g. 'StaticMixedVar<char[8]>'
    N = None

    def init(self, x):
        d = x.M.di.get(self.cls)
        if d is None:
            raise Unsupported('class layout of ' + self.cls)
        o = self.lay(x)
        x.kind('var', d['size'], [(o['MxMode'], 'i32'), (o['MxInt'], 'i64'), (o['MxDouble'], 'f64'), (o['MxStr'], 'i8', self.N), (o['MxStrPos'], 'i64')], False)

    def lay(self, x):
        if not hasattr(self, '_o'):
            self._o = {n: fieldoff(x.M, self.cls, n) for n in ('MxMode', 'MxInt', 'MxDouble', 'MxStr', 'MxStrPos')}
        return self._o

    def setup(self, x, st, f):
        self.o = x.param_obj(st, 'this', 'var')
        return [self.o.ptr()] + self.more(x, st)

    def more(self, x, st):
        return []

    def O(self, c):
        return self.lay(c.x)

    def pos(self, c, m):
        return m.u64(c.args[0] + self.O(c)['MxStrPos'])

    def mode(self, c, m):
        return m.u32(c.args[0] + self.O(c)['MxMode'])

    def base(self, c):
        return add(c.args[0].off, bv(self.O(c)['MxStr']))

    def B(self, c, m, k):
        """byte k of the string"""
        return m.u8(Ptr(c.args[0].obj, add(self.base(c), k if z3.is_expr(k) else bv(k))))

    def wf(self, c, m):
        p = self.pos(c, m)
        return And(ULT(p, self.N), self.B(c, m, p) == 0)

    def requires(self, c):
        return [('string shorter than the buffer and terminated', self.wf(c, c.old))] + self.req(c)

    def req(self, c):
        return []

    def modifies(self, c):
        o = self.O(c)
        a = c.args[0]
        return [Region(a.obj, self.base(c), self.N, ['i8']), Region(a.obj, a.off + o['MxStrPos'], 8, ['i64']), Region(a.obj, a.off + o['MxMode'], 4, ['i32'])]

    def ensures(self, c):
        return [('string shorter than the buffer and terminated', self.wf(c, c.new))] + self.ens(c)

    def refs(self, c):
        return [('pos', self.pos(c, c.old)), ('N-1', bv(self.N - 1))]

    def keep(self, c, n, m1=None):
        """the first n characters are unchanged"""
        b, o, m = self.base(c), c.old, (m1 or c.new)
        obj = c.args[0].obj
        return FA(64, lambda f: Implies(ULT(f - b, n), m.u8(Ptr(obj, f)) == o.u8(Ptr(obj, f))), pat=lambda f: [m.u8(Ptr(obj, f))])

    def at(self, c, start, src, n, m1=None):
        """characters start..start+n-1 are the n bytes at src (of the old state)"""
        b, o, m = self.base(c), c.old, (m1 or c.new)
        obj = c.args[0].obj
        s = add(b, start)
        return FA(64, lambda f: Implies(ULT(f - s, n), m.u8(Ptr(obj, f)) == o.u8(Ptr(src.obj, src.off + (f - s)))), pat=lambda f: [m.u8(Ptr(obj, f))])


class Text:
    """argument `str`: counted data or a C string"""

    def text_setup(self, x, st, counted):
        n = bvar('len')
        self.len = n
        s = self.s = x.param_obj(st, 'str', 'bytes', n if counted else n + 1, const=True)
        if not counted:
            s.cstr = (bv(0), n)
        return [s.ptr(), n] if counted else [s.ptr()]

    def ln(self, c):
        if self.counted:
            return c.args[2]
        if not c.caller:
            return self.len
        oid = num(c.args[1].obj)
        cs = c.x.objs[oid].cstr if oid in c.x.objs else None
        if cs is None:
            raise Unsupported('length of a string argument')
        return sub(add(cs[0], cs[1]), c.args[1].off)

    def text_req(self, c):
        n, p, m = self.ln(c), c.args[1], c.old
        out = [('readable', And(ULE(n, MAXSZ), ULE(p.off, MAXSZ), c.x.inb(p.off, n, c.x.oszf(p.obj)), c.old.alive(p.obj)))]
        if not self.counted:
            out += [('C string', And(m.u8(p + n) == 0, ULT(n, c.x.oszf(p.obj) - p.off))), ('no terminator inside', FA(64, lambda f: Implies(ULT(f - p.off, n), m.u8(Ptr(p.obj, f)) != 0), pat=lambda f: [m.u8(Ptr(p.obj, f))]))]
        return out


def umin(a, b):
    return z3.If(ULT(a, b), a, b)


class Put(MV, Text):
    """SetStr, SetData, AppendStr, AppendData: as much as fits"""

    def __init__(self, short):
        self.short = short
        self.set = short.startswith('Set')
        self.counted = short.endswith('Data')

    def more(self, x, st):
        return self.text_setup(x, st, self.counted)

    def requires(self, c):
        return ([] if self.set else MV.requires(self, c)) + self.text_req(c)

    def refs(self, c):
        return MV.refs(self, c) + [('len', self.len)]

    def ens(self, c):
        n = self.ln(c)
        p0 = bv(0) if self.set else self.pos(c, c.old)
        k = umin(n, bv(self.N - 1) - p0)
        out = [('size grows by what fits', self.pos(c, c.new) == p0 + k), ('the text follows', self.at(c, p0, c.args[1], k)), ('mode', self.mode(c, c.new) == (MODES['Str'] if self.set else self.mode(c, c.old)))]
        if not self.set:
            out.append(('earlier characters are unchanged', self.keep(c, p0)))
        return out

    def inv(self, c, L):
        p0 = bv(0) if self.set else self.pos(c, c.old)
        out = []
        n = self.ln(c)
        if c.caller:
            return out
        done = lambda w: self.pos(c, w.mem) - p0
        out.append(('text so far', lambda w: self.at(c, p0, c.args[1], done(w), w.mem)))
        out.append(('kept so far', lambda w: self.keep(c, p0, w.mem)))
        out.append(('position within the buffer', lambda w: And(ULE(p0, self.pos(c, w.mem)), ULE(self.pos(c, w.mem), self.N - 1), ULE(done(w), n))))
        out.append(('mode', lambda w: self.mode(c, w.mem) == self.mode(c, w.entry.mem)))
        for k, v in L.head.vals.items():
            if isinstance(v, Ptr):
                out.append(('source follows', lambda w, k=k: And(w[k].obj == c.args[1].obj, w[k].off == c.args[1].off + done(w))))
            elif z3.is_bv(v) and v.size() == 64:
                out.append(('rest follows', lambda w, k=k: w[k] == n - done(w)))
                out.append(('count follows', lambda w, k=k: w[k] == done(w)))
        return out

    def measures(self, x, L):
        c = x.ctx
        return [('room', lambda w: bv(self.N) - self.pos(c, w.mem))]


class Prepend(MV, Text):
    def __init__(self, short):
        self.short = short
        self.counted = short.endswith('Data')

    def more(self, x, st):
        return self.text_setup(x, st, self.counted)

    def req(self, c):
        return self.text_req(c)

    def ens(self, c):
        n = self.ln(c)
        p0 = self.pos(c, c.old)
        fits = ULT(p0 + n, self.N)
        b, o, m, obj = self.base(c), c.old, c.new, c.args[0].obj
        s = b + n
        k = z3.If(fits, n, bv(0))
        return [('size grows if it fits', self.pos(c, m) == p0 + k), ('the new text comes first', self.at(c, bv(0), c.args[1], k)),
                ('the old text follows', FA(64, lambda f: Implies(ULT(f - (b + k), p0), m.u8(Ptr(obj, f)) == o.u8(Ptr(obj, f - k))), pat=lambda f: [m.u8(Ptr(obj, f))])), ('mode', self.mode(c, m) == self.mode(c, o))]


class Num(MV):
    """Append/Prepend of an integer in any radix, or of a double"""

    def __init__(self, short, pre, kind):
        self.short, self.pre, self.kind = short, pre, kind

    def more(self, x, st):
        if self.kind == 'double':
            return [z3.FP('val', z3.Float64()), bvar('precision')]
        v = bvar('val')
        if self.kind == 'int':
            st.assume((v < 0) == self.neg)
        return [v, bvar('radix')]

    def req(self, c):
        if self.kind == 'double':
            return []
        return [('radix between 2 and 36', And(UGE(c.args[2], 2), ULE(c.args[2], 36)))]

    def ens(self, c):
        x, m, o = c.x, c.new, c.old
        p0, p1 = self.pos(c, o), self.pos(c, m)
        b, obj = self.base(c), c.args[0].obj
        if self.kind == 'double':
            return [('mode', self.mode(c, m) == self.mode(c, o)), ('the old text is kept' if not self.pre else 'the size never shrinks', self.keep(c, p0) if not self.pre else UGE(p1, p0))]
        v, r = c.args[1], c.args[2]
        neg = self.kind == 'int' and self.neg
        D = Digits(x, c.st, sub(bv(0), v) if neg else v, r)
        g = bv(1 if neg else 0)
        tot = D.len + g
        ok = ULT(tot, 44)
        if self.pre:
            k = z3.If(And(ok, ULT(p0 + tot, self.N)), tot, bv(0))
            st = b
            old = FA(64, lambda f: Implies(ULT(f - (b + k), p0), m.u8(Ptr(obj, f)) == o.u8(Ptr(obj, f - k))), pat=lambda f: [m.u8(Ptr(obj, f))])
        else:
            k = z3.If(ok, umin(tot, bv(self.N - 1) - p0), bv(0))
            st = b + p0
            old = self.keep(c, p0)
        return [('size grows by what fits', p1 == p0 + k), ('the old text is kept', old), ('mode', self.mode(c, m) == self.mode(c, o)),
                ('minus sign first', Implies(And(neg, k != 0), m.u8(Ptr(obj, st)) == 0x2d)),
                ('digits of the number', FA(64, lambda f: Implies(And(ULT(f - st, k), UGE(f - st, g)), m.u8(Ptr(obj, f)) == D.ch(f - st - g)), pat=lambda f: [m.u8(Ptr(obj, f))]))]


class NZ(ToStr):
    """IntToString: the text contains no terminator (so that it is a C string of exactly its length)"""

    def nz(self, c):
        R, size, n, sep, r = self.parts(c)
        D = c.g['D']
        neg = self.signed and self.neg
        tot = add(D.len, bv(1 if neg else 0))
        return ('no terminator inside the text', FA(64, lambda f: Implies(And(c.ret, ULT(f - R.off, tot)), c.new.u8(Ptr(R.obj, f)) != 0), pat=lambda f: [c.new.u8(Ptr(R.obj, f))])), tot

    def ensures(self, c):
        out = ToStr.ensures(self, c)
        g, tot = self.nz(c)
        if c.caller:
            c.tot = tot
            return out + [g]
        return [g]

    def after(self, c):
        oid = num(c.args[0].obj)
        if oid in c.x.objs:
            c.x.objs[oid].cstr = (c.args[0].off, c.tot)


class CharOp(MV):
    def __init__(self, short):
        self.short = short

    def more(self, x, st):
        return [bvar('size')] if self.short == 'SetSize' else [bvar('chr', 8)]

    def ens(self, c):
        m, o, a = c.new, c.old, c.args[1]
        p0, p1 = self.pos(c, o), self.pos(c, m)
        last = And(p0 != 0, self.B(c, o, p0 - 1) == a) if self.short != 'SetSize' else None
        room = ULT(p0, self.N - 1)
        out = [('mode', self.mode(c, m) == self.mode(c, o))]
        if self.short == 'SetSize':
            ok = ULT(a, self.N)
            return out + [('size', p1 == z3.If(ok, a, p0)), ('characters below the new size are unchanged', self.keep(c, p1))]
        if self.short == 'RemoveTrailingChar':
            return out + [('reports whether the last character matched', c.ret == last), ('size', p1 == z3.If(last, p0 - 1, p0)), ('rest unchanged', self.keep(c, p1))]
        do = room if self.short == 'AppendChar' else And(room, Not(last))
        return out + [('size', p1 == z3.If(do, p0 + 1, p0)), ('earlier characters are unchanged', self.keep(c, p0)), ('character added', Implies(do, self.B(c, m, p0) == a))]


class Simple(MV):
    """constructor, setters, getters"""

    def __init__(self, short):
        self.short = short

    def more(self, x, st):
        return {'SetBool': lambda: [z3.Bool('v')], 'SetInt': lambda: [bvar('v')], 'SetUInt': lambda: [bvar('v')], 'SetDouble': lambda: [z3.FP('v', z3.Float64())]}.get(self.short, lambda: [])()

    def requires(self, c):
        return [] if self.short == 'ctor' else MV.requires(self, c)

    def modifies(self, c):
        o, a = self.O(c), c.args[0]
        if self.short == 'ctor':
            return [Region(a.obj)]
        if self.short.startswith('Set'):
            f = 'MxDouble' if self.short == 'SetDouble' else 'MxInt'
            return [Region(a.obj, a.off + o['MxMode'], 4, ['i32']), Region(a.obj, a.off + o[f], 8, ['f64' if f == 'MxDouble' else 'i64'])]
        return []

    def ens(self, c):
        o, a, m = self.O(c), c.args[0], c.new
        i, d = m.u64(a + o['MxInt']), m.rd('f64', a + o['MxDouble'])
        s = self.short
        if s == 'ctor':
            return [('starts as nothing', And(self.mode(c, m) == 0, i == 0, self.pos(c, m) == 0))]
        if s.startswith('Is'):
            return [('tells the mode', c.ret == (self.mode(c, m) == MODES[s[2:]]))]
        if s.startswith('Set'):
            out = [('mode', self.mode(c, m) == MODES[s[3:]])]
            v = c.args[1]
            if s == 'SetDouble':
                return out + [('value', d == v)]
            return out + [('value', i == (z3.If(v, bv(1), bv(0)) if s == 'SetBool' else v))]
        return {'GetBool': lambda: [('value', c.ret == (i != 0))], 'GetInt': lambda: [('value', c.ret == i)], 'GetUInt': lambda: [('value', c.ret == i)], 'GetDouble': lambda: [('value', c.ret == d)],
                'GetStr': lambda: [('value', c.ret.eq(a + o['MxStr']))], 'GetSize': lambda: [('value', c.ret == self.pos(c, m))], 'GetMaxSize': lambda: [('value', c.ret == self.N)]}[s]()


def b_snprintf(x, st, a, i):
    """snprintf into a sized buffer: some C string shorter than the size (its text is the library's business)"""
    buf, n = a[0], a[1]
    if not x.dry:
        x._range_access(st, buf, n, True, i, n != 0)
    ln = bvar(uid('snp'))
    st.assume(ULT(ln, n))
    havoc_region(x, st, [Region(buf.obj, buf.off, n, ['i8'])], i)
    m = st.mem
    st.assume(m.u8(buf + ln) == 0)
    st.assume(FA(64, lambda f: Implies(ULT(f - buf.off, ln), m.u8(Ptr(buf.obj, f)) != 0), pat=lambda f: [m.u8(Ptr(buf.obj, f))]))
    oid = num(buf.obj)
    if oid in x.objs:
        x.objs[oid].cstr = (buf.off, ln)
    return bvar(uid('snpr'), 32)
