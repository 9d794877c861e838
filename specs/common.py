"""helpers shared by the property specifications"""
import z3
from irv.mem import *
from irv.sym import Contract, Region, Span, FamRegion, GhostRegion, CallCtx
from irv.ir import Unsupported

PRELUDE = '''#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <new>
'''
MAXSZ = 1 << 46


def include(*fs):
    return PRELUDE + ''.join('#include "%s"\n' % f for f in fs)


def bvar(n, w=64):
    return z3.BitVec(n, w)


def fieldoff(M, cls, name):
    d = M.di.get(cls)
    if d is None or name not in d['fields']:
        raise Unsupported('field %s::%s not found' % (cls, name))
    return d['fields'][name][0]


def ULE(a, b):
    return z3.ULE(a, b if z3.is_expr(b) else bv(b, a.size()))


def ULT(a, b):
    return z3.ULT(a, b if z3.is_expr(b) else bv(b, a.size()))


def UGE(a, b):
    return z3.UGE(a, b if z3.is_expr(b) else bv(b, a.size()))


def UGT(a, b):
    return z3.UGT(a, b if z3.is_expr(b) else bv(b, a.size()))


# ---------------------------------------------------------------- ghost scalars
def gget(m, name):
    return m.m[name].read(bv(1), bv(0))


def gset(x, st, name, v):
    from irv.mem import Store
    if x.writes is not None:
        x.writes.add((name, None, None))
    d = dict(st.mem.m)
    d[name] = Store(d[name], bv(1), bv(0), v)
    st.mem = Mem(d)


def havoc_region(x, st, regions, i):
    """replace the regions by unknown contents (checks the frame)"""
    old = st.mem
    st.mem = x.havoc_mods(st, old, regions, False, i)
    return old, st.mem
