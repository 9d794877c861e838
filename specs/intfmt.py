"""Contract of the integer formatting functions.

Spec functions (over the mathematical definition of the positional representation):
  Q_0 = n, Q_{j+1} = Q_j div R ; number of digits nd = least j>=1 with Q_j = 0 ;
  digit j (from the right) = Q_j mod R ; a separator before every third digit counted from the right.
div/mod are uninterpreted with sound arithmetic facts, identical terms in code and spec.
"""
from .common import *

N = 64


class Digits:
    """symbolic text of n in radix r with optional separator"""

    def __init__(self, x, st, n, r, sep=None, nmax=N, sepcase=None):
        self.sepcase = sepcase
        self.n, self.r, self.sep = n, r, sep
        self.abs = None
        if x.opts.get('abs_digits') and sep is None:
            # callers only need that text and length are functions of the number and the radix
            ch = x.uf('digit_text', 64, 64, 64, 8)
            self.nd = self.len = x.uf('digit_count', 64, 64, 64)(n, r)
            st.assume(And(self.len != 0, ULE(self.len, 64)))
            self.abs = lambda i: ch(n, r, i)
            return
        Q = [n]
        R = []
        for j in range(nmax):
            R.append(x.div(st, 'urem', Q[-1], r))
            Q.append(x.div(st, 'udiv', Q[-1], r))
        self.Q, self.R = Q, R
        nd = bv(nmax)
        for j in reversed(range(1, nmax)):
            nd = z3.If(Q[j] == 0, bv(j), nd)
        self.nd = nd
        if sep is None:
            self.len = nd
        elif num(sep) == 0 or sepcase is False:
            self.len = nd
        elif num(sep) is not None or sepcase is True:
            self.len = None
        else:
            s3 = bv(0)
            for j in range(3, nmax, 3):
                s3 = z3.If(z3.UGT(nd, j), bv(j // 3), s3)
            self.len = z3.If(sep != 0, nd + s3, nd)
        # (nd-1)/3 for nd<=64 as a table
        if self.len is None:
            s3 = bv(0)
            for j in range(3, nmax, 3):
                s3 = z3.If(z3.UGT(nd, j), bv(j // 3), s3)
            self.len = nd + s3

    def ch(self, i):
        """character i (from the left) of the text"""
        if self.abs:
            return self.abs(i)
        p = self.len - 1 - i

        def dig(j):
            d = self.R[0]
            for k in range(1, len(self.R)):
                d = z3.If(j == k, self.R[k], d)
            c = z3.Extract(7, 0, d)
            return z3.If(z3.UGT(d, 9), c + (65 - 10), c + 48)
        if self.sep is None or num(self.sep) == 0 or self.sepcase is False:
            return dig(p)
        issep = (p & 3) == 3
        j = p - z3.LShR(p, 2)
        if num(self.sep) is not None or self.sepcase is True:
            return z3.If(issep, self.sep, dig(j))
        return z3.If(self.sep != 0, z3.If(issep, self.sep, dig(j)), dig(p))


class ToStr(Contract):
    """sig: which arguments exist.  signed: Num is signed."""

    def __init__(self, short, signed, has_sep, has_radix, sepcase=None, check_radix=True, neg=None):
        self.neg = neg
        self.short, self.signed, self.has_sep, self.has_radix, self.sepcase, self.check_radix = short, signed, has_sep, has_radix, sepcase, check_radix

    def setup(self, x, st, f):
        size, n = bvar('Size'), bvar('Num')
        o = x.param_obj(st, 'Result', 'bytes', size)
        a = [o.ptr(), size, n]
        if self.has_sep:
            s = bvar('Separator', 8)
            if self.sepcase is False:
                s = bv(0, 8)
            a.append(s)
            if self.sepcase is True:
                st.assume(s != 0)
        if self.has_radix:
            a.append(bvar('Radix'))
        if self.neg is not None:
            st.assume((n < 0) == self.neg)
        return a

    def parts(self, c):
        R, size, n = c.args[:3]
        k = 3
        sep = None
        if self.has_sep:
            sep = c.args[k]
            k += 1
        r = c.args[k] if self.has_radix else bv(10)
        return R, size, n, sep, r

    def requires(self, c):
        R, size, n, sep, r = self.parts(c)
        out = [('buffer of Size bytes is writable', And(c.x.inb(R.off, size, c.x.oszf(R.obj)), c.old.alive(R.obj), ULE(size, MAXSZ), ULE(R.off, MAXSZ)))]
        if self.has_sep and self.sepcase is not None:
            out.append(('separator case', (sep != 0) == self.sepcase))
        if not self.check_radix and self.has_radix:
            out.append(('radix between 2 and 36', And(UGE(r, 2), ULE(r, 36))))
        return out

    def modifies(self, c):
        R, size = c.args[:2]
        return [Region(R.obj, R.off, size, 'i8')]

    def ensures(self, c):
        R, size, n, sep, r = self.parts(c)
        x = c.x
        if self.signed:
            if self.neg is None:
                neg = n < 0
                mag = z3.If(neg, bv(0) - n, n)
            else:
                neg = z3.BoolVal(self.neg)
                mag = sub(bv(0), n) if self.neg else n
        else:
            neg, mag = z3.BoolVal(False), n
        D = Digits(x, c.st, mag, r, sep, sepcase=self.sepcase)
        c.g['D'] = D
        pre = ite(neg, bv(1), bv(0)) if self.signed else bv(0)
        valid = And(UGE(r, 2), ULE(r, 36)) if (self.check_radix and self.has_radix) else True
        tot = add(D.len, pre)
        out = [('succeeds exactly when the radix is valid and text plus terminator fit', c.ret == And(valid, ULT(tot, size)))]
        base = add(R.off, pre)
        if getattr(c, 'caller', False) or True:
            out.append(('text is the exact positional representation', FA(64, lambda f: Implies(And(c.ret, ULT(f - base, D.len)), c.new.u8(Ptr(R.obj, f)) == D.ch(f - base)), pat=lambda f: [c.new.u8(Ptr(R.obj, f))])))
        if self.signed:
            out.append(('minus sign first', Implies(And(c.ret, neg), c.new.u8(R) == 0x2d)))
        out.append(('terminated', Implies(c.ret, c.new.u8(Ptr(R.obj, R.off + tot)) == 0)))
        return out
