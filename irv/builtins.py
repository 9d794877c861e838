"""Assumed contracts of the C/C++ run-time library (part of the trusted base)."""
import z3
from .ir import Unsupported
from .mem import *

TABLE = {}


def reg(*names):
    def d(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return d


@reg('llvm.memcpy', 'memcpy')
def _memcpy(x, st, a, i):
    n = a[2]
    if n.size() < 64:
        n = z3.ZeroExt(64 - n.size(), n)
    x.copy(st, a[0], a[1], n, i, False)
    return a[0]


@reg('llvm.memmove', 'memmove')
def _memmove(x, st, a, i):
    x.copy(st, a[0], a[1], a[2], i, True)
    return a[0]


@reg('llvm.memset', 'memset')
def _memset(x, st, a, i):
    v = a[1]
    if v.size() != 8:
        v = z3.Extract(7, 0, v)
    x.fill(st, a[0], z3.simplify(v), a[2], i)
    return a[0]


def cstr_of(x, st, p):
    """ghost length of the C string at p (object must carry one)"""
    oid = num(p.obj)
    if oid is not None and oid in x.objs and x.objs[oid].cstr is not None:
        return x.objs[oid].cstr
    return None


@reg('strlen')
def _strlen(x, st, a, i):
    p = a[0]
    c = cstr_of(x, st, p)
    if c is None:
        h = x.opts.get('strlen_hook')
        if h:
            return h(x, st, a, i)
        raise Unsupported('strlen of unknown string')
    off, ln = c
    rel = sub(p.off, off)
    x.oblige(st, z3.ULE(rel, ln), 'strlen argument points into a C string', 'access', i)
    return sub(ln, rel)


@reg('strcpy')
def _strcpy(x, st, a, i):
    c = cstr_of(x, st, a[1])
    if c is None:
        raise Unsupported('strcpy of unknown string')
    off, ln = c
    rel = sub(a[1].off, off)
    x.oblige(st, z3.ULE(rel, ln), 'strcpy source points into a C string', 'access', i)
    x.copy(st, a[0], a[1], add(sub(ln, rel), bv(1)), i, False)
    return a[0]


MAXALLOC = 1 << 46


def kind_for_new(x, i, n):
    h = x.opts.get('new_kind')
    if h:
        k = h(x, i, n)
        if k:
            return k
    return 'bytes'


@reg('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def _new(x, st, a, i):
    st.assume(z3.ULE(a[0], bv(MAXALLOC)))     # larger requests do not return (std::bad_alloc)
    p = x.alloc(st, 'new@%s' % x.where(i), kind_for_new(x, i, a[0]), a[0], i)
    if x.opts.get('new_hook'):
        x.opts['new_hook'](x, st, p)
    return p


@reg('malloc')
def _malloc(x, st, a, i):
    if x.opts.get('malloc_never_fails'):
        st.assume(z3.ULE(a[0], bv(MAXALLOC)))
        return x.alloc(st, 'malloc@%s' % x.where(i), kind_for_new(x, i, a[0]), a[0], i)
    ok = z3.Bool(uid('malloc_ok'))
    st.assume(Implies(ok, z3.ULE(a[0], bv(MAXALLOC))))
    p = x.alloc(st, 'malloc@%s' % x.where(i), kind_for_new(x, i, a[0]), a[0], i)
    return Ptr(z3.If(ok, p.obj, bv(0)), 0)


@reg('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
def _delete(x, st, a, i):
    x.free(st, a[0], i, 'delete')


@reg('free')
def _free(x, st, a, i):
    x.free(st, a[0], i, 'free')


@reg('llvm.umul.with.overflow')
def _umulo(x, st, a, i):
    p, q = a
    if num(q) is not None and num(p) is not None:
        v = num(p) * num(q)
        return [bv(v), z3.BoolVal(v >= 1 << 64)]
    if num(q) is not None:
        lim = ((1 << 64) - 1) // num(q)
        return [z3.simplify(p * q), z3.simplify(z3.UGT(p, bv(lim)))]
    return [p * q, Not(z3.BVMulNoOverflow(p, q, False))]


@reg('llvm.uadd.with.overflow')
def _uaddo(x, st, a, i):
    s = add(a[0], a[1])
    return [s, z3.ULT(s, a[0])]


def minmax(f):
    def g(x, st, a, i):
        return ite(f(a[0], a[1]), a[0], a[1])
    return g


TABLE['llvm.umax'] = minmax(z3.UGE)
TABLE['llvm.umin'] = minmax(z3.ULE)
TABLE['llvm.smax'] = minmax(lambda a, b: a >= b)
TABLE['llvm.smin'] = minmax(lambda a, b: a <= b)


@reg('llvm.fshl')
def _fshl(x, st, a, i):
    w = a[0].size()
    n = z3.URem(a[2], bv(w, w))
    return z3.simplify((a[0] << n) | z3.If(n == bv(0, w), bv(0, w), z3.LShR(a[1], bv(w, w) - n)))


@reg('llvm.trap', 'abort', '_exit', 'exit')
def _trap(x, st, a, i):
    return 'stop'


@reg('llvm.memcmp', 'memcmp')
def _memcmp(x, st, a, i):
    """result 0 iff the ranges are equal; sign unspecified beyond that"""
    n = a[2]
    nz = n != bv(0)
    if not x.dry:
        x._range_access(st, a[0], n, False, i, nz)
        x._range_access(st, a[1], n, False, i, nz)
    r = z3.BitVec(uid('memcmp'), 32)
    m = st.mem
    p, q = a[0], a[1]
    k = z3.BitVec(uid('mcw'), 64)      # witness of a difference
    st.assume(Implies(r != bv(0, 32), And(z3.ULT(k, n), m.u8(p + k) != m.u8(q + k))))
    st.assume(Implies(r == bv(0, 32), FAimp(n, m, p, q)))
    st.assume(Implies(r == bv(0, 32), FAimp(n, m, q, p)))
    return r


def FAimp(n, m, p, q):
    f = FA([64], lambda f: Implies(z3.ULT(f - p.off, n), m.u8(Ptr(p.obj, f)) == m.u8(q + (f - p.off))),
           pat=lambda f: [m.u8(Ptr(p.obj, f))])
    return as_fact(f)


@reg('llvm.fabs', 'fabs')
def _fabs(x, st, a, i):
    w = a[0].size()
    return a[0] & bv((1 << (w - 1)) - 1, w)


@reg('llvm.is.fpclass')
def _fpclass(x, st, a, i):
    v, m = a[0], num(a[1])
    if v.size() != 64 or m is None:
        raise Unsupported('is.fpclass')
    f = z3.fpBVToFP(v, z3.Float64())
    neg = z3.Extract(63, 63, v) == 1
    q = z3.Extract(51, 51, v) == 1
    n, inf, nm, sub_, z = z3.fpIsNaN(f), z3.fpIsInf(f), z3.fpIsNormal(f), z3.fpIsSubnormal(f), z3.fpIsZero(f)
    cl = [And(n, Not(q)), And(n, q), And(inf, neg), And(nm, neg), And(sub_, neg), And(z, neg), And(z, Not(neg)), And(sub_, Not(neg)), And(nm, Not(neg)), And(inf, Not(neg))]
    return Or(*[c for k, c in enumerate(cl) if m >> k & 1])
