"""Values and symbolic memory.

Pointers are (object id, byte offset) pairs of 64-bit vectors; NULL is (0,0).
Memory is split by scalar class (i8,i16,i32,i64,ptr,f64,f32 and the ghost class
`alive`) and kept as a chain of updates; reads are expanded over the chain, so
queries contain only uninterpreted base memories.
"""
import z3

BV = z3.BitVecSort
S64 = BV(64)
WIDTH = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'f64': 64, 'f32': 32, 'f80': 80, 'i128': 128, 'alive': 1}
BYTES = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f64': 8, 'f32': 4, 'ptr': 8, 'f80': 16, 'i128': 16, 'alive': 1}
CLASSES = ['i8', 'i16', 'i32', 'i64', 'ptr', 'f64', 'f32', 'alive']


def bv(v, w=64):
    return z3.BitVecVal(v, w)


_num_cache = {}


def num(t):
    """python int if t is a numeral, else None"""
    if isinstance(t, int):
        return t
    if z3.is_bv_value(t):
        return t.as_long()
    return None


def is_true(b):
    return b is True or (b is not False and z3.is_true(b))


def is_false(b):
    return b is False or (b is not True and z3.is_false(b))


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if is_true(x):
            continue
        if is_false(x):
            return z3.BoolVal(False)
        ys.append(x)
    if not ys:
        return z3.BoolVal(True)
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if is_false(x):
            continue
        if is_true(x):
            return z3.BoolVal(True)
        ys.append(x)
    if not ys:
        return z3.BoolVal(False)
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    if is_true(x):
        return z3.BoolVal(False)
    if is_false(x):
        return z3.BoolVal(True)
    return z3.Not(x)


def Implies(a, b):
    if is_false(a) or is_true(b):
        return z3.BoolVal(True)
    if is_true(a):
        return b if not isinstance(b, bool) else z3.BoolVal(b)
    return z3.Implies(a, b)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = bv(obj) if isinstance(obj, int) else obj
        self.off = bv(off) if isinstance(off, int) else off

    def __add__(self, n):
        if isinstance(n, int):
            n = bv(n)
        return Ptr(self.obj, add(self.off, n))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def eq(self, o):
        return And(eq(self.obj, o.obj), eq(self.off, o.off))

    def isnull(self):
        return And(eq(self.obj, bv(0)), eq(self.off, bv(0)))


NULL = Ptr(0, 0)


def add(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return bv(na + nb, a.size())
    if na == 0:
        return b
    if nb == 0:
        return a
    return z3.simplify(a + b)


def sub(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return bv(na - nb, a.size())
    if nb == 0:
        return a
    return z3.simplify(a - b)


_diff_cache = {}


def diff(a, b):
    """known constant difference a-b or None"""
    k = (a.get_id(), b.get_id())
    r = _diff_cache.get(k, 0)
    if r != 0:
        return r[0]
    if a.eq(b):
        d = 0
    else:
        na, nb = num(a), num(b)
        if na is not None and nb is not None:
            d = (na - nb) % (1 << a.size())
        else:
            d = num(z3.simplify(a - b))
    _diff_cache[k] = (d, a, b)
    return d


def eq(a, b):
    d = diff(a, b)
    if d is not None:
        return z3.BoolVal(d == 0)
    return a == b


def ite(c, a, b):
    """value-level if-then-else"""
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, Ptr):
        return Ptr(ite(c, a.obj, b.obj), ite(c, a.off, b.off))
    if isinstance(a, list):
        return [ite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return Not(c)
    return z3.If(c, a, b)


_uid = [0]


def uid(p='t'):
    _uid[0] += 1
    return '%s!%d' % (p, _uid[0])


# ------------------------------------------------------------------ chains
class Node:
    __slots__ = ('cls', 'memo')

    def __init__(self, cls):
        self.cls = cls
        self.memo = {}

    def read(self, obj, off):
        k = (obj.get_id(), off.get_id())
        r = self.memo.get(k)
        if r is None:
            r = (self._read(obj, off), obj, off)
            self.memo[k] = r
        return r[0]


class Base(Node):
    __slots__ = ('name', 'f', 'fo', 'known', 'off0')

    def __init__(self, cls, name, known=None, off0=False):
        Node.__init__(self, cls)
        self.name = uid(name)
        self.known = known
        self.off0 = off0
        if cls == 'ptr':
            self.f = z3.Function(self.name + '.o', S64, S64, S64)
            self.fo = z3.Function(self.name + '.f', S64, S64, S64)
        else:
            self.f = z3.Function(self.name, S64, S64, BV(WIDTH[cls]))
            self.fo = None

    def _read(self, obj, off):
        if self.known:
            no = num(obj)
            if no is not None and no in self.known:
                v = self.known[no](self.cls, off)
                if v is not None:
                    return v
        if self.cls.startswith('s_') and num(obj) == 1 and num(off) == 0:      # ghost scalar
            return z3.BitVec(self.name + '$', WIDTH[self.cls])
        if self.cls == 'ptr':
            return Ptr(self.f(obj, off), bv(0) if self.off0 else self.fo(obj, off))
        return self.f(obj, off)


def same_addr(o1, f1, o2, f2):
    a = eq(o1, o2)
    if is_false(a):
        return a
    b = eq(f1, f2)
    return And(a, b)


class Store(Node):
    __slots__ = ('prev', 'obj', 'off', 'val')

    def __init__(self, prev, obj, off, val):
        Node.__init__(self, prev.cls)
        self.prev, self.obj, self.off, self.val = prev, obj, off, val

    def _read(self, obj, off):
        s = same_addr(obj, off, self.obj, self.off)
        if is_true(s):
            return self.val
        r = self.prev.read(obj, off)
        if is_false(s):
            return r
        return ite(s, self.val, r)


class Copy(Node):
    """memmove of `n` bytes from (so,sf) of `src` to (do,df)"""
    __slots__ = ('prev', 'src', 'do', 'df', 'so', 'sf', 'n')

    def __init__(self, prev, src, do, df, so, sf, n):
        Node.__init__(self, prev.cls)
        self.prev, self.src, self.do, self.df, self.so, self.sf, self.n = prev, src, do, df, so, sf, n

    def _read(self, obj, off):
        e = eq(obj, self.do)
        if is_false(e):
            return self.prev.read(obj, off)
        rel = sub(off, self.df)
        inr = z3.simplify(z3.ULT(rel, self.n))
        c = And(e, inr)
        if is_false(c):
            return self.prev.read(obj, off)
        v = self.src.read(self.so, add(rel, self.sf))
        if is_true(c):
            return v
        return ite(c, v, self.prev.read(obj, off))


class Fill(Node):
    __slots__ = ('prev', 'obj', 'off', 'n', 'val')

    def __init__(self, prev, obj, off, n, val):
        Node.__init__(self, prev.cls)
        self.prev, self.obj, self.off, self.n, self.val = prev, obj, off, n, val

    def _read(self, obj, off):
        e = eq(obj, self.obj)
        if is_false(e):
            return self.prev.read(obj, off)
        c = And(e, z3.simplify(z3.ULT(sub(off, self.off), self.n)))
        if is_false(c):
            return self.prev.read(obj, off)
        if is_true(c):
            return self.val
        return ite(c, self.val, self.prev.read(obj, off))


class IteN(Node):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        Node.__init__(self, a.cls)
        self.c, self.a, self.b = c, a, b

    def _read(self, obj, off):
        return ite(self.c, self.a.read(obj, off), self.b.read(obj, off))


class Havoc(Node):
    """reads inside `pred` come from a fresh base memory"""
    __slots__ = ('prev', 'base', 'pred')

    def __init__(self, prev, base, pred):
        Node.__init__(self, prev.cls)
        self.prev, self.base, self.pred = prev, base, pred

    def _read(self, obj, off):
        c = self.pred(obj, off)
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if is_true(c):
            return self.base.read(obj, off)
        if is_false(c):
            return self.prev.read(obj, off)
        return ite(c, self.base.read(obj, off), self.prev.read(obj, off))


class Lam(Node):
    """ghost memory defined pointwise by a python function"""
    __slots__ = ('fn',)

    def __init__(self, cls, fn):
        Node.__init__(self, cls)
        self.fn = fn

    def _read(self, obj, off):
        return self.fn(obj, off)


class Mem:
    """one memory state: class -> chain node (immutable use)"""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def copy(self):
        return Mem(dict(self.m))

    def rd(self, cls, p):
        return self.m[cls].read(p.obj, p.off)

    def u8(self, p):
        return self.rd('i8', p)

    def u16(self, p):
        return self.rd("i16", p)

    def u32(self, p):
        return self.rd('i32', p)

    def u64(self, p):
        return self.rd('i64', p)

    def ptr(self, p):
        return self.rd('ptr', p)

    def alive(self, obj):
        return self.m['alive'].read(obj, bv(0)) == bv(1, 1)

    def st(self, cls, p, v):
        m = dict(self.m)
        m[cls] = Store(m[cls], p.obj, p.off, v)
        return Mem(m)


def merge_mem(c, a, b):
    m = {}
    for k in a.m:
        x, y = a.m[k], b.m[k]
        m[k] = x if x is y else IteN(c, x, y)
    return Mem(m)


def triggers(t, vs):
    """usable E-matching patterns inside term t: uninterpreted applications over all of vs without ite/boolean structure"""
    if isinstance(t, Ptr):
        t = t.obj
    out = []
    seen = set()
    vids = set(v.get_id() for v in vs)

    def clean(e):
        if e.get_id() in vids:
            return True, True
        if not z3.is_app(e):
            return False, False
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE or z3.is_bool(e):
            return False, False
        has = False
        for c in e.children():
            ok, h = clean(c)
            if not ok:
                return False, False
            has = has or h
        return True, has

    def vars_in(e, acc):
        if e.get_id() in vids:
            acc.add(e.get_id())
        for c in e.children():
            vars_in(c, acc)
        return acc

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            ok, h = clean(e)
            if ok and h and len(vars_in(e, set())) == len(vids):
                out.append(e)
                return
        for c in e.children():
            walk(c)
    walk(t)
    return out


class FA:
    """for-all: skolemised as a goal, z3 ForAll with explicit patterns as a fact"""

    def __init__(self, sorts, body, pat=None, names=None):
        self.sorts = [S64 if s == 64 else (BV(s) if isinstance(s, int) else s) for s in (sorts if isinstance(sorts, (list, tuple)) else [sorts])]
        self.body, self.pat = body, pat
        self.names = names or ['q%d' % i for i in range(len(self.sorts))]

    def skolem(self):
        vs = [z3.Const(uid('sk_' + n), s) for n, s in zip(self.names, self.sorts)]
        return self.body(*vs), vs

    def fact(self):
        vs = [z3.Const(uid(n), s) for n, s in zip(self.names, self.sorts)]
        b = self.body(*vs)
        b = as_fact(b)
        if is_true(b):
            return b
        pats = []
        if self.pat:
            for p in self.pat(*vs):
                if isinstance(p, (list, tuple)):
                    tr = [triggers(q, vs)[:1] or ([q] if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED else []) for q in p]
                    if all(tr):
                        pats.append(z3.MultiPattern(*[t[0] for t in tr]))
                else:
                    pats += triggers(p, vs)
        if self.pat and not pats and len(vs) == 1:
            pats = triggers(b, vs)[:6]
        seen = set()
        pats = [p for p in pats if not (p.get_id() in seen or seen.add(p.get_id()))]
        try:
            return z3.ForAll(vs, b, patterns=pats) if pats else z3.ForAll(vs, b)
        except z3.Z3Exception:
            return z3.ForAll(vs, b)

    def at(self, *ts):
        return self.body(*ts)


def as_fact(g):
    if isinstance(g, FA):
        return g.fact()
    if isinstance(g, bool):
        return z3.BoolVal(g)
    if isinstance(g, (list, tuple)):
        return And(*[as_fact(x) for x in g])
    return g


def split_goal(g):
    """list of (skolemised) goals"""
    out = []
    if isinstance(g, FA):
        b, _ = g.skolem()
        return split_goal(b)
    if isinstance(g, (list, tuple)):
        for x in g:
            out += split_goal(x)
        return out
    if isinstance(g, bool):
        return [z3.BoolVal(g)]
    if isinstance(g, Imp):
        return [Implies(g.a, x) for x in split_goal(g.b)]
    return [g]


class Imp:
    """guarded goal whose conclusion may contain FA"""

    def __init__(self, a, b):
        self.a, self.b = a, b


_old_as_fact = as_fact


def as_fact(g):          # noqa: F811
    if isinstance(g, Imp):
        return Implies(g.a, as_fact(g.b))
    if isinstance(g, (list, tuple)):
        return And(*[as_fact(x) for x in g])
    return _old_as_fact(g)
