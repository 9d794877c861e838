"""Contracts of the UTF-8 conversion functions (C14, C15, C16).

dec(x): how the input is cut into code points at position x (length LEN, code point CP or NONE when malformed).
The result of a whole conversion is defined by recursion along the positions 0, LEN(0), ...:
P(x): x is such a position; D(x): output size when it is reached; L(x): last position reported so far."""
import os
import sys
from .common import *

NONE = 0xFFFFFFFF
THOROUGH = 'thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
MAXN = 1 << 40


def c32(v):
    return bv(v, 32)


def rng(c, a, b):
    return And(UGE(c, c32(a)), ULE(c, c32(b)))


def comb(c):
    return Or(rng(c, 0x300, 0x36F), rng(c, 0x1DC0, 0x1DFF), rng(c, 0x20D0, 0x20FF), rng(c, 0xFE20, 0xFE2F))


def valid(c):
    return And(ULE(c, c32(0x10FFFF)), Not(rng(c, 0xD800, 0xDFFF)), Not(rng(c, 0xFDD0, 0xFDEF)), ULT(c & 0xFFFF, c32(0xFFFE)))


def units(c, w):
    """number of units of width w in the encoding of a valid code point"""
    if w == 1:
        return z3.If(ULE(c, c32(0x7F)), bv(1), z3.If(ULE(c, c32(0x7FF)), bv(2), z3.If(ULE(c, c32(0xFFFF)), bv(3), bv(4))))
    if w == 2:
        return z3.If(ULE(c, c32(0xFFFF)), bv(1), bv(2))
    return bv(1)


def ex(c, hi, lo):
    return z3.Extract(hi, lo, c)


def unit(c, k, w):
    """unit k of the encoding, or None"""
    if w == 4:
        return [c][k] if k < 1 else None
    if w == 2:
        d = c - 0x10000
        hi = z3.Concat(z3.BitVecVal(0b110110, 6), ex(d, 19, 10))
        lo = z3.Concat(z3.BitVecVal(0b110111, 6), ex(d, 9, 0))
        return [z3.If(ULE(c, c32(0xFFFF)), ex(c, 15, 0), hi), lo][k] if k < 2 else None
    n = units(c, 1)
    t = lambda hi: z3.Concat(z3.BitVecVal(0b10, 2), ex(c, hi, hi - 5))
    b0 = z3.If(n == 1, ex(c, 7, 0), z3.If(n == 2, z3.Concat(z3.BitVecVal(0b110, 3), ex(c, 10, 6)), z3.If(n == 3, z3.Concat(z3.BitVecVal(0b1110, 4), ex(c, 15, 12)), z3.Concat(z3.BitVecVal(0b11110, 5), ex(c, 20, 18)))))
    return [b0, z3.If(n == 2, t(5), z3.If(n == 3, t(11), t(17))), z3.If(n == 3, t(5), t(11)), t(5)][k]


def dec8(B, n, x):
    """(length, code point) at x < n of a byte string"""
    b = [B(x + k) if k else B(x) for k in range(4)]
    lead = lambda v, bits: ex(b[0], 7, 8 - bits) == z3.BitVecVal(v, bits)
    cont = lambda k: And(ULT(x + k, n), ex(b[k], 7, 6) == z3.BitVecVal(0b10, 2))
    c6 = lambda k: ex(b[k], 5, 0)
    z = lambda e: z3.ZeroExt(32 - e.size(), e)
    k2 = And(lead(0b110, 3), cont(1))
    k3 = And(lead(0b1110, 4), cont(1), cont(2))
    k4 = And(lead(0b11110, 5), cont(1), cont(2), cont(3))
    one = lead(0, 1)
    ln = z3.If(one, bv(1), z3.If(k2, bv(2), z3.If(k3, bv(3), z3.If(k4, bv(4), bv(1)))))
    cp = z3.If(one, z(b[0]), z3.If(k2, z(z3.Concat(ex(b[0], 4, 0), c6(1))), z3.If(k3, z(z3.Concat(ex(b[0], 3, 0), c6(1), c6(2))), z3.If(k4, z(z3.Concat(ex(b[0], 2, 0), c6(1), c6(2), c6(3))), c32(NONE)))))
    return ln, cp


def dec16(H, n, x):
    a, b = H(x), H(x + 1)
    z = lambda e: z3.ZeroExt(32 - e.size(), e)
    hi = ex(a, 15, 10) == z3.BitVecVal(0b110110, 6)
    pair = And(hi, ULT(x + 1, n), ex(b, 15, 10) == z3.BitVecVal(0b110111, 6))
    return z3.If(pair, bv(2), bv(1)), z3.If(pair, c32(0x10000) + z(z3.Concat(ex(a, 9, 0), ex(b, 9, 0))), z3.If(hi, c32(NONE), z(a)))


def elt(m, w, obj, base, i):
    p = Ptr(obj, add(base, i * w if w > 1 else i))
    return m.u8(p) if w == 1 else m.u16(p) if w == 2 else m.u32(p)


def kinds(x):
    x.kind('u16s', 2, [(0, 'i16')], True)
    x.kind('u32s', 4, [(0, 'i32')], True)
    x.kind('v64', 8, [(0, 'i64')], False)
    x.kind('v32', 4, [(0, 'i32')], False)


KIND = {1: 'bytes', 2: 'u16s', 4: 'u32s'}


def isnull(p):
    return num(p.obj) == 0


class Opaque:
    """the same functions, for callers, without their definitions (an under-specification: what follows holds for any such functions)"""

    def __init__(self, x):
        V, C = x.uf('valid', 32, 8), x.uf('combining', 32, 8)
        self.valid = lambda c: V(c) == 1
        self.comb = lambda c: C(c) == 1
        self.units = lambda c, w: x.uf('units%d' % w, 32, 64)(c)
        self.unit = lambda c, k, w: x.uf('unit%d_%d' % (w, k), 32, 8 * w)(c) if k < {1: 4, 2: 2, 4: 1}[w] else None


class Plain:
    valid, comb, units, unit = staticmethod(valid), staticmethod(comb), staticmethod(units), staticmethod(unit)


class Append(Contract):
    """AppendUTF8CodePoint (w = 1) / AppendUTFCodePoint"""

    def __init__(self, utf8, w, meas):
        self.utf8, self.w, self.meas = utf8, w, meas
        self.short = 'AppendUTF8CodePoint' if utf8 else 'AppendUTFCodePoint'

    def init(self, x):
        kinds(x)

    def setup(self, x, st, f):
        cap = bvar('Max')
        self.sz = x.param_obj(st, 'DestDataSize', 'v64')
        d = NULL if self.meas else x.param_obj(st, 'DestData', KIND[self.w], cap * self.w).ptr()
        return [bvar('CP', 32), d, self.sz.ptr()] + ([] if self.utf8 else [bv(self.w)]) + [cap]

    def W(self, c):
        w = 1 if self.utf8 else num(c.args[3])
        if w not in (1, 2, 4):
            raise Unsupported('unit width is not constant')
        return w

    def requires(self, c):
        cp, d, s, cap = c.args[0], c.args[1], c.args[2], c.args[-1]
        out = [('size in range', And(ULE(c.old.u64(s), MAXN * 8), ULE(cap, MAXN * 8)))]
        if not isnull(d):
            out.append(('writable up to the capacity', And(c.x.inb(d.off, cap * self.W(c), c.x.oszf(d.obj)), c.old.alive(d.obj), ULE(d.off, MAXSZ), ULE(c.old.u64(s), cap))))
        return out

    def F(self, c):
        return Opaque(c.x) if c.caller and self.opaque else Plain

    opaque = True

    def app(self, c):
        cp, d, s, cap = c.args[0], c.args[1], c.args[2], c.args[-1]
        s0 = c.old.u64(s)
        F = self.F(c)
        return And(F.valid(cp), Not(And(s0 == 0, F.comb(cp))), z3.BoolVal(True) if isnull(d) else ULE(s0 + F.units(cp, self.W(c)), cap))

    def modifies(self, c):
        cp, d, s = c.args[:3]
        out = [Region(s.obj, s.off, 8, ['i64'])]
        w = self.W(c)
        if not isnull(d):
            out.append(Region(d.obj, d.off + c.old.u64(s) * w, z3.If(self.app(c), self.F(c).units(cp, w) * w, bv(0)), ['i%d' % (8 * w)]))
        return out

    def ensures(self, c):
        cp, d, s = c.args[:3]
        w = self.W(c)
        F = self.F(c)
        s0, a, n = c.old.u64(s), self.app(c), F.units(cp, w)
        out = [('appended exactly when valid, allowed here and fitting', c.ret == a), ('size grows by the encoding', c.new.u64(s) == z3.If(a, s0 + n, s0))]
        if not isnull(d):
            out.append(('the encoding is stored', And(*[Implies(And(a, ULT(bv(k), n)), elt(c.new, w, d.obj, d.off, s0 + k) == F.unit(cp, k, w)) for k in range(4) if F.unit(cp, k, w) is not None])))
        return out


class Convert(Contract):
    """ConvertToUTF8(SrcData, n, SrcWidth, Dest, &Size, LastPos) and ConvertFromUTF8(SrcData, n, Dest, &Size, DestWidth)"""
    auto = False

    def __init__(self, to, w, meas, last=False):
        self.to, self.w, self.meas, self.last = to, w, meas, last
        self.sw, self.dw = (w, 1) if to else (1, w)
        self.short = 'ConvertToUTF8' if to else 'ConvertFromUTF8'

    def init(self, x):
        kinds(x)

    def setup(self, x, st, f):
        n = self.n = bvar('SrcDataSize')
        cap = self.cap = bvar('capacity')
        self.s = x.param_obj(st, 'SrcData', KIND[self.sw], n * self.sw, const=True)
        self.sz = x.param_obj(st, 'DestDataSize', 'v64')
        st.mem = st.mem.st('i64', self.sz.ptr(), cap)
        self.d = None if self.meas else x.param_obj(st, 'DestData', KIND[self.dw], cap * self.dw)
        d = NULL if self.meas else self.d.ptr()
        self.lp = x.param_obj(st, 'LastPos', 'v64') if self.last else None
        for nm, a, r in (('LEN', 64, 64), ('CP', 64, 32), ('D', 64, 64), ('L', 64, 64)):
            setattr(self, nm, x.uf(nm, a, r))
        self.P = x.uf('P', 64, 8)
        self.F = Opaque(x)
        if self.to:
            return [self.s.ptr(), n, bv(self.w), d, self.sz.ptr(), self.lp.ptr() if self.last else NULL]
        return [self.s.ptr(), n, d, self.sz.ptr(), bv(self.w)]

    def dec(self, m, x):
        E = lambda i: elt(m, self.sw, self.s.id, bv(0), i)
        if self.sw == 1:
            return dec8(E, self.n, x)
        if self.sw == 2:
            return dec16(E, self.n, x)
        return bv(1), E(x)

    def A(self, x):
        """the code point at x is appended"""
        cp = self.CP(x)
        return And(self.F.valid(cp), Not(And(self.D(x) == 0, self.F.comb(cp))), z3.BoolVal(True) if self.meas else ULE(self.D(x) + self.el(x), self.cap))

    def el(self, x):
        return self.F.units(self.CP(x), self.dw)

    def stop(self, x):
        return z3.BoolVal(False) if self.to else And(self.CP(x) != c32(NONE), Not(self.A(x)))

    def requires(self, c):
        m, P, D, L, n = c.old, self.P, self.D, self.L, self.n
        end = self.end = bvar('END')
        on = lambda x: P(x) == 1

        def df(x):
            ln, cp = self.dec(m, x)
            t = And(ULT(x, n), on(x))
            go = And(t, Not(self.stop(x)))
            A = self.A(x)

            def at(k):
                nx = x + k
                return And(on(nx), D(nx) == z3.If(A, D(x) + self.el(x), D(x)), *([L(nx) == z3.If(A, nx if self.sw == 1 else nx - 1, L(x))] if self.last else []))
            ks = {1: 4, 2: 2, 4: 1}[self.sw]
            return And(Implies(ULT(x, n), And(self.LEN(x) == ln, self.CP(x) == cp)),
                       Implies(go, And(*[Implies(ln == k, at(k)) for k in range(1, ks + 1)])),
                       ULE(self.el(x), bv(4)), UGE(self.el(x), bv(1)),
                       Implies(And(on(x), Or(x == n, And(t, self.stop(x)))), x == end))
        out = [('encodings have at most four units', as_fact(FA(64, lambda p: ULE(self.el(p), bv(4)), pat=lambda p: [self.P(p)]))), ('the mark for malformed input is not a code point', Not(self.F.valid(c32(NONE)))), ('sizes', And(ULE(n, MAXN), ULE(self.cap, MAXN))), ('start', And(on(bv(0)), D(bv(0)) == 0, *([L(bv(0)) == m.u64(self.lp.ptr())] if self.last else []))), ('recursive definitions', FA(64, df, pat=lambda x: [self.LEN(x)])),
               ('the pieces do not overlap', FA([64, 64], lambda p, x: Implies(And(on(p), on(x), ULT(x, n), ULT(x, p)), UGE(p, x + self.LEN(x))), pat=lambda p, x: [[P(p), self.LEN(x)]]))]
        if self.to:
            out.append(('all of the input is looked at', end == n))
        return out

    def modifies(self, c):
        out = [Region(self.sz.id)]
        if self.last:
            out.append(Region(self.lp.id))
        if not self.meas:
            out.append(Region(self.d.id, bv(0), self.cap * self.dw, ['i%d' % (8 * self.dw)]))
        return out

    def done(self, m, e):
        """everything appended before position e is in place: the parts of the statement"""
        dw = self.dw
        ap = lambda p: And(self.P(p) == 1, ULT(p, e), self.A(p))
        out = [('in order', FA(64, lambda p: Implies(ap(p), And(ULE(self.D(p) + self.el(p), self.D(e)), ULE(self.D(p), self.D(e)))), pat=lambda p: [self.P(p)]))]
        if not self.meas and not (self.last and not THOROUGH):
            for k in range(4):
                if self.F.unit(c32(0), k, dw) is not None:
                    out.append(('unit %d' % k, FA(64, lambda p, k=k: Implies(And(ap(p), ULT(bv(k), self.el(p))), elt(m, dw, self.d.id, bv(0), self.D(p) + k) == self.F.unit(self.CP(p), k, dw)), pat=lambda p: [self.P(p)])))
        return out

    def untouched(self, c, m, e):
        dw = self.dw
        E = lambda mm, i: elt(mm, dw, self.d.id, bv(0), i)
        return FA(64, lambda i: Implies(And(UGE(i, self.D(e)), ULT(i, self.cap)), E(m, i) == E(c.old, i)), pat=lambda i: [E(m, i)])

    def ensures(self, c):
        e = self.end
        some = z3.BoolVal(True) if self.meas or self.to else self.cap != 0
        size = c.new.u64(self.sz.ptr())
        out = [('the size is that of the code points appended', Implies(some, size == self.D(e)))]
        if not self.meas:
            out.append(('at most the capacity', ULE(size, self.cap)))
            out += [('each appended code point is stored, in order, in its encoding: ' + nm, Imp(some, g)) for nm, g in self.done(c.new, e)]
            out.append(('nothing past the size is changed', Imp(some, self.untouched(c, c.new, e))))
        if self.last:
            out.append(('last position', c.new.u64(self.lp.ptr()) == self.L(e)))
        return out

    def poss(self, L):
        """candidates for the position: counters and pointers into the input"""
        sh = {1: 0, 2: 1, 4: 2}[self.sw]
        for k, v in L.head.vals.items():
            if not isinstance(k, str):
                continue
            try:
                e = L.entryview[k]
            except Exception:
                continue
            if isinstance(v, Ptr):
                if isinstance(e, Ptr) and num(e.obj) == num(self.s.ptr().obj):
                    yield (lambda w, k=k: z3.LShR(w[k].off, sh))
            elif z3.is_bv(v) and v.size() == 64:
                if num(z3.simplify(e)) == 0:
                    yield (lambda w, k=k: w[k])
                elif num(z3.simplify(e - self.n)) == 0:
                    yield (lambda w, k=k: self.n - w[k])

    def inv(self, c, L):
        out = []
        size = lambda w: w.mem.u64(self.sz.ptr())
        for p in self.poss(L):
            out += [('position in range', lambda w, p=p: ULE(p(w), self.n)), ('position on the path', lambda w, p=p: self.P(p(w)) == 1), ('size bounded', lambda w, p=p: ULE(size(w), p(w) * 4)),
                    ('size so far', lambda w, p=p: size(w) == self.D(p(w))), ('length of the next', lambda w, p=p: Or(p(w) == self.n, And(ULE(self.LEN(p(w)), bv(4)), UGT(self.LEN(p(w)), bv(0)), ULE(p(w) + self.LEN(p(w)), self.n))))]
            out += [('stored so far: ' + nm, lambda w, p=p, j=j: self.done(w.mem, p(w))[j][1]) for j, (nm, _) in enumerate(self.done(c.old, bv(0)))]
            if not self.meas:
                out.append(('rest unchanged', lambda w, p=p: self.untouched(c, w.mem, p(w))))
            if self.last:
                out.append(('last position so far', lambda w, p=p: w.mem.u64(self.lp.ptr()) == self.L(p(w))))
        if not self.meas:
            out.append(('at most the capacity', lambda w: ULE(size(w), self.cap)))
        return out

    def measures(self, x, L):
        return [('rest', lambda w, p=p: self.n - p(w)) for p in self.poss(L)]
