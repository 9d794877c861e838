"""Symbolic execution of LLVM IR into proof obligations (verification conditions).

One pass per function: joins are merged, loops are cut at their header with
invariant candidates (Houdini-style, see prove.py) or unrolled up to a bound
with an unwinding obligation; a call to a function under contract uses the
contract, any other defined callee is inlined.
"""
import heapq
import z3
from .ir import Unsupported, materialize
from .mem import *
from . import mem as _m


class Obj:
    def __init__(self, oid, name, kind, size, const=False, local=False, global_=False):
        self.id, self.name, self.kind, self.size, self.const, self.local = oid, name, kind, size, const, local
        self.cstr = None     # (off, len) known C string

    def ptr(self, off=0):
        return Ptr(self.id, off)


class Kind:
    """object layout family"""

    def __init__(self, kid, name, esz, fields, array):
        self.id, self.name, self.esz, self.fields, self.array = kid, name, esz, fields, array
        self.classes = {}
        self.ranges = {}      # class -> (lo, hi): member array inside a struct
        for f in fields:
            o, c = f[0], f[1]
            self.classes.setdefault(c, set()).add(o)
            if len(f) == 3:
                self.ranges[c] = (o, o + f[2])


class Facts:
    __slots__ = ('parent', 'depth', 'item')

    def __init__(self, parent, item):
        self.parent, self.item = parent, item
        self.depth = parent.depth + 1 if parent else 0

    def path(self, upto=None):
        out = []
        n = self
        while n is not None and n is not upto:
            if n.item is not None:
                out.append(n.item)
            n = n.parent
        out.reverse()
        return out


def common(a, b):
    while a is not b:
        if a.depth > b.depth:
            a = a.parent
        elif b.depth > a.depth:
            b = b.parent
        else:
            a, b = a.parent, b.parent
    return a


class State:
    __slots__ = ('facts', 'env', 'mem', 'fork', 'iters', 'dead')

    def __init__(self, facts, env, mem, fork=(), iters=()):
        self.facts, self.env, self.mem, self.fork, self.iters = facts, env, mem, fork, iters
        self.dead = False

    def clone(self):
        return State(self.facts, dict(self.env), self.mem, self.fork, self.iters)

    def assume(self, f, tag=None):
        f = as_fact(f)
        if is_true(f):
            return
        self.facts = Facts(self.facts, ('a', f, tag))

    def path(self, lit):
        if is_true(lit):
            return
        self.facts = Facts(self.facts, ('p', lit, None))


class Obl:
    __slots__ = ('name', 'kind', 'where', 'facts', 'goal', 'fn', 'status', 'time', 'model', 'solver')

    def __init__(self, name, kind, where, facts, goal, fn):
        self.name, self.kind, self.where, self.facts, self.goal, self.fn = name, kind, where, facts, goal, fn
        self.status = None
        self.time = 0
        self.model = None
        self.solver = None


class LoopVar:
    """value that may change in the loop: name, cur (at arbitrary iteration), entry; kind 'int'|'ptr'"""

    def __init__(self, name, ty, get):
        self.name, self.ty, self.get = name, ty, get


class LoopInst:
    def __init__(self, lid, fn, where):
        self.id, self.fn, self.where = lid, fn, where
        self.cands = []      # (desc, fn(view)->formula)
        self.entry = []      # (cid, facts, goal)
        self.latch = []      # (cid, facts, goal, latchno)
        self.variants = []
        self.latchview = []  # list of (facts, headview, view)
        self.active = None


class View:
    """state of the loop variables at a point"""

    def __init__(self, vals, mem, x, entry=None, st=None):
        self.vals, self.mem, self.x, self.entry, self.st = vals, mem, x, entry, st

    def __getitem__(self, k):
        return self.vals[k]


class Cfg:
    def __init__(self, f):
        self.f = f
        self.preds = {b: [] for b in f.blocks}
        for b in f.blocks.values():
            for s in b.succ:
                self.preds[s].append(b.name)
        self.find_loops()
        self.order()

    def find_loops(self):
        f = self.f
        # dominators (simple iterative)
        names = list(f.blocks)
        reach = set()
        stk = [f.entry]
        while stk:
            b = stk.pop()
            if b in reach:
                continue
            reach.add(b)
            stk += f.blocks[b].succ
        self.reach = reach
        dom = {b: set(reach) for b in reach}
        dom[f.entry] = {f.entry}
        ch = True
        while ch:
            ch = False
            for b in names:
                if b not in reach or b == f.entry:
                    continue
                ps = [p for p in self.preds[b] if p in reach]
                d = set.intersection(*[dom[p] for p in ps]) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.loops = {}
        self.back = set()
        for b in reach:
            for s in f.blocks[b].succ:
                if s in dom[b]:
                    self.back.add((b, s))
                    body = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stk += [p for p in self.preds[x] if p in reach]
        self.inner = {}
        for b in reach:
            hs = [h for h in self.loops if b in self.loops[h]]
            hs.sort(key=lambda h: len(self.loops[h]))
            self.inner[b] = hs     # innermost first

    def order(self):
        f = self.f
        seen = set()
        post = []

        def key(b, s):
            # successors leaving more loops first (they end up later in the order)
            return -len([h for h in self.inner[b] if s not in self.loops[h]])

        # iterative dfs
        stack = [(f.entry, None)]
        seen.add(f.entry)
        its = [iter(sorted([s for s in f.blocks[f.entry].succ], key=lambda s: key(f.entry, s)))]
        path = [f.entry]
        while path:
            b = path[-1]
            adv = False
            for s in its[-1]:
                if (b, s) in self.back:
                    continue
                if s not in seen:
                    seen.add(s)
                    path.append(s)
                    its.append(iter(sorted(f.blocks[s].succ, key=lambda t, s=s: key(s, t))))
                    adv = True
                    break
            if not adv:
                post.append(b)
                path.pop()
                its.pop()
        post.reverse()
        self.rpo = {b: i for i, b in enumerate(post)}


def tofp(a):
    return z3.fpBVToFP(a, z3.Float64())


def isnan(a):
    return And(z3.Extract(62, 52, a) == bv(0x7ff, 11), z3.Extract(51, 0, a) != 0)


def fcmp(p, a, b):
    un = Or(isnan(a), isnan(b))
    if p[1:] in ('eq', 'ne'):
        e = Or(a == b, z3.Extract(62, 0, a | b) == 0)
        o = e if p[1:] == 'eq' else Not(e)
        return And(Not(un), o) if p[0] == 'o' else Or(un, o)
    a, b = tofp(a), tofp(b)
    if p in ('true', 'false', 'ord', 'uno'):
        return {'true': z3.BoolVal(True), 'false': z3.BoolVal(False), 'ord': Not(un), 'uno': un}[p]
    o = {'eq': z3.fpEQ(a, b), 'ne': Not(z3.fpEQ(a, b)), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b)}[p[1:]]
    return And(Not(un), o) if p[0] == 'o' else Or(un, o)


class CallCtx:
    """what a contract sees: args, old/new memory, return value"""

    def __init__(self, x, args, old, new=None, ret=None, site=None, st=None):
        self.x, self.args, self.old, self.new, self.ret, self.site, self.st = x, args, old, new, ret, site, st
        self.g = {}

    def a(self, i):
        return self.args[i]


class Exec:
    def __init__(self, M, contracts=None, opts=None):
        self.M = M
        self.contracts = contracts or {}     # mangled name -> Contract
        self.opts = dict(unroll=0, uf_div=False, off0=False, nsw=True, check_frame=True, path_prune=True, max_inline=40, terminate=True)
        self.opts.update(opts or {})
        self.obls = []
        self.loops = []
        self.objs = {}
        self.kinds = {}
        self.next_obj = 16
        self.known = {}
        self.globs = {}
        self.cfgs = {}
        self.dry = 0
        self.writes = None
        self.fnstack = []
        self.kindf = z3.Function('kind', S64, BV(16))
        self.oszf = z3.Function('osz', S64, S64)
        self.basef = z3.Function('baseaddr', S64, S64)
        self.guard = None
        self.used_builtins = set()
        self.inlined = set()
        self.used_contracts = set()
        self.modpred = None      # (ctx) frame of the function being verified
        self.top = None
        self.extra_classes = {}
        self.builtin = {}
        from . import builtins
        self.builtin.update(builtins.TABLE)
        self.ufs = {}
        self.kind('bytes', 1, [(0, 'i8')], True)
        self.refs = []       # reference terms for automatic loop candidates
        self.notes = set()
        self.deadline = None
        self.initmem = None
        self.div_axioms = True
        self.init_facts = []

    # ---------------------------------------------------------------- objects
    def kind(self, name, esz, fields, array):
        k = Kind(len(self.kinds) + 1, name, esz, fields, array)
        self.kinds[name] = k
        return k

    def kind_of_type(self, name, ty, array=False):
        fl = [(o, self.cls(t)) for o, t in self.M.scalars(ty)]
        return self.kind(name, self.M.size(ty), fl, array)

    def kind_di(self, kname, diname, array=False, classes=None):
        """layout from debug info: fields -> class by size and LLVM type"""
        raise NotImplementedError

    def new_obj(self, name, kind='bytes', size=None, const=False, local=False):
        oid = self.next_obj
        self.next_obj += 1
        k = self.kinds[kind]
        if size is None:
            size = bv(k.esz)
        elif isinstance(size, int):
            size = bv(size)
        o = Obj(oid, name, k, size, const, local)
        self.objs[oid] = o
        return o

    def obj_facts(self, st, o, alive=True):
        st.assume(self.kindf(bv(o.id)) == o.kind.id)
        st.assume(self.oszf(bv(o.id)) == o.size)

    def fresh_mem(self, tag='M'):
        m = {}
        for c in CLASSES + list(self.extra_classes):
            m[c] = Base(c, '%s_%s' % (tag, c), self.known, self.opts['off0'] and c == 'ptr')
        return Mem(m)

    def add_class(self, name, width):
        """ghost memory class"""
        WIDTH[name] = width
        BYTES[name] = 1
        self.extra_classes[name] = width

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *[BV(s) if isinstance(s, int) else s for s in sorts])
        return self.ufs[k]

    def param_obj(self, st, name, kind='bytes', size=None, const=False):
        o = self.new_obj(name, kind, size, const)
        self.obj_facts(st, o)
        st.assume(st.mem.alive(bv(o.id)))
        return o

    def glob(self, st, name):
        g = self.globs.get(name)
        if g is not None:
            return g
        M = self.M
        if name in M.funcs or name in M.decls:
            o = self.new_obj(name, 'bytes', 1, const=True)
            o.func = name
        else:
            gl = M.globals.get(name)
            if gl is None or gl.ty is None:
                raise Unsupported('global ' + name)
            sz = M.size(gl.ty)
            t = M.resolve(gl.ty)
            if t.k == 'array' and M.resolve(t.b).k == 'int' and M.resolve(t.b).a == 8:
                o = self.new_obj(name, 'bytes', sz, const=gl.const)
            else:
                kn = 'glob:' + name
                if kn not in self.kinds:
                    self.kind_of_type(kn, gl.ty)
                o = self.new_obj(name, kn, sz, const=gl.const)
            if gl.const and gl.init is not None:
                self.known[o.id] = self.const_reader(gl)
                if gl.init.k == 'cstr':
                    b = gl.init.v
                    z = b.find(b'\0')
                    if z >= 0:
                        o.cstr = (bv(0), bv(z))
        o.glob = True
        self.globs[name] = o
        return o

    def const_reader(self, gl):
        M = self.M
        cells = {}

        def fill(op, ty, base):
            t = M.resolve(ty)
            if op.k == 'cstr':
                for i, c in enumerate(op.v):
                    cells[('i8', base + i)] = bv(c, 8)
            elif op.k == 'zero':
                for o, s in M.scalars(t, base):
                    cells[(self.cls(s), o)] = NULL if s.k == 'ptr' else bv(0, M.size(s) * 8)
            elif op.k == 'agg':
                if t.k == 'array':
                    es = M.size(t.b)
                    for i, x in enumerate(op.v):
                        fill(x, t.b, base + i * es)
                else:
                    offs, _ = M.struct_layout(t)
                    for o, ft, x in zip(offs, t.a, op.v):
                        fill(x, ft, base + o)
            elif op.k == 'int':
                cells[(self.cls(t), base)] = bv(op.v, max(8, t.a))
            elif op.k == 'null':
                cells[('ptr', base)] = NULL

        fill(gl.init, gl.ty, 0)

        def rd(cls, off):
            n = num(off)
            if n is not None:
                return cells.get((cls, n))
            ks = sorted(o for c, o in cells if c == cls)
            if not ks or len(ks) > 300:
                return None
            r = cells[(cls, ks[-1])]
            for o in reversed(ks[:-1]):
                r = ite(off == bv(o), cells[(cls, o)], r)
            return r
        return rd

    # ---------------------------------------------------------------- types / operands
    def cls(self, ty):
        ty = self.M.resolve(ty)
        if ty.k == 'ptr':
            return 'ptr'
        if ty.k == 'fp':
            return 'f%d' % ty.a
        if ty.k == 'int':
            w = self.M.size(ty) * 8
            return 'i%d' % w
        raise Unsupported('access of type %r' % ty)

    def fresh(self, ty, name='v'):
        ty = self.M.resolve(ty)
        if ty.k == 'ptr':
            n = uid(name)
            return Ptr(z3.Const(n + '.o', S64), z3.Const(n + '.f', S64))
        if ty.k == 'int':
            if ty.a == 1:
                return z3.Bool(uid(name))
            return z3.BitVec(uid(name), ty.a)
        if ty.k == 'fp':
            return z3.BitVec(uid(name), ty.a)
        if ty.k == 'struct':
            return [self.fresh(t, name) for t in ty.a]
        raise Unsupported('fresh %r' % ty)

    def val(self, st, op):
        if op.k == 'local':
            return st.env[op.v]
        ty = self.M.resolve(op.ty)
        if op.k == 'int':
            if ty.a == 1:
                return z3.BoolVal(bool(op.v))
            return bv(op.v, ty.a)
        if op.k == 'null':
            return NULL
        if op.k == 'undef':
            return self.fresh(ty, 'undef')
        if op.k == 'zero':
            return self.zero(ty)
        if op.k == 'global':
            return Ptr(self.glob(st, op.v).id)
        if op.k == 'fp':
            return self.fpconst(op.v, ty.a)
        if op.k == 'agg':
            return [self.val(st, x) for x in op.v]
        if op.k == 'cexpr':
            if op.v[0] == 'gep':
                return self.gep(st, op.v[1], op.v[2])
            if op.v[0] == 'inttoptr':
                n = self.val(st, op.v[1])
                if num(n) == 0:
                    return NULL
                return Ptr(bv(0), n)
            if op.v[0] == 'ptrtoint':
                return self.ptrtoint(self.val(st, op.v[1]))
        raise Unsupported('operand %r' % op)

    def fpconst(self, t, w):
        import struct
        if t.startswith('0x'):
            v = int(t[2:], 16)
            if w == 32:
                d = struct.unpack('<d', struct.pack('<Q', v))[0]
                v = struct.unpack('<I', struct.pack('<f', d))[0]
            return bv(v, w)
        d = float(t)
        if w == 64:
            return bv(struct.unpack('<Q', struct.pack('<d', d))[0], 64)
        return bv(struct.unpack('<I', struct.pack('<f', d))[0], 32)

    def zero(self, ty):
        ty = self.M.resolve(ty)
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'int':
            return z3.BoolVal(False) if ty.a == 1 else bv(0, ty.a)
        if ty.k == 'fp':
            return bv(0, ty.a)
        if ty.k == 'struct':
            return [self.zero(t) for t in ty.a]
        raise Unsupported('zero %r' % ty)

    def ptrtoint(self, p):
        if num(p.obj) == 0:
            return p.off
        return self.basef(p.obj) + p.off

    def gep(self, st, bt, ops):
        p = self.val(st, ops[0])
        off = p.off
        ty = bt
        for i, o in enumerate(ops[1:]):
            if i == 0:
                off = add(off, self.scale(self.sx(self.val(st, o)), self.M.size(ty)))
                continue
            t = self.M.resolve(ty)
            if t.k == 'struct':
                offs, _ = self.M.struct_layout(t)
                k = o.v
                off = add(off, bv(offs[k]))
                ty = t.a[k]
            elif t.k == 'array':
                off = add(off, self.scale(self.sx(self.val(st, o)), self.M.size(t.b)))
                ty = t.b
            else:
                raise Unsupported('gep into %r' % t)
        return Ptr(p.obj, off)

    def sx(self, v):
        if v.size() < 64:
            return z3.simplify(z3.SignExt(64 - v.size(), v))
        return v

    def scale(self, v, s):
        if s == 1:
            return v
        n = num(v)
        if n is not None:
            return bv(n * s)
        if s == 0:
            return bv(0)
        return z3.simplify(v * bv(s))

    # ---------------------------------------------------------------- obligations
    def where(self, ins):
        ln = self.M.line(ins.dbg) if ins is not None and ins.dbg else None
        return '%s:%s' % (self.fnname(), ln if ln else '?')

    def fnname(self):
        f = self.fnstack[-1] if self.fnstack else '?'
        d = self.M.dem.get(f, f)
        return d.split('(')[0]

    def oblige(self, st, goal, name, kind, ins=None, assume=True):
        for g in split_goal(goal):
            if not self.dry:
                if z3.is_expr(g):
                    g2 = z3.simplify(g) if not z3.is_quantifier(g) else g
                    if z3.is_true(g2):
                        self.obls.append(Obl(name, kind, self.where(ins), None, g2, self.top))
                        self.obls[-1].status = 'trivial'
                        continue
                self.obls.append(Obl(name, kind, self.where(ins), st.facts, g, self.top))
        if assume:
            st.assume(goal)

    def infeasible(self, st):
        """quick syntactic / solver feasibility test of the path"""
        return False

    # ---------------------------------------------------------------- memory access
    def check_access(self, st, p, n, cls, write, ins):
        """obligation: an n-byte access of class cls at p is valid (n python int or term)"""
        if self.dry:
            return
        if self.guard is not None:
            self.guard(self, st, p, cls, write, ins)
        oid = num(p.obj)
        nt = bv(n) if isinstance(n, int) else n
        if oid is not None and oid in self.objs:
            o = self.objs[oid]
            if write and o.const:
                self.oblige(st, False, 'write to constant %s' % o.name, 'access', ins)
            inb = self.inb(p.off, nt, o.size)
            self.oblige(st, inb, '%s within bounds of %s' % ('write' if write else 'read', o.name), 'access', ins)
            if (not o.local or getattr(o, 'heap', False)) and not getattr(o, 'glob', False):
                self.oblige(st, st.mem.alive(p.obj), '%s of live object %s' % ('write' if write else 'read', o.name), 'access', ins, assume=False)
            self.check_class(o.kind, p.off, cls, ins)
            rg = o.kind.ranges.get(cls)
            if rg and num(p.off) is None:
                self.oblige(st, And(z3.UGE(p.off, bv(rg[0])), self.inb(p.off, nt, bv(rg[1]))), '%s within the member array of %s' % ('write' if write else 'read', o.name), 'access', ins)
            return
        if oid == 0:
            self.oblige(st, False, 'null pointer dereference', 'access', ins)
            return
        alts = []
        for k in self.kinds.values():
            if cls is not None and cls not in k.classes:
                continue
            c = [self.kindf(p.obj) == k.id]
            if cls is not None and not k.array:
                c.append(And(z3.UGE(p.off, bv(k.ranges[cls][0])), z3.ULT(p.off, bv(k.ranges[cls][1]))) if cls in k.ranges else Or(*[eq(p.off, bv(f)) for f in sorted(k.classes[cls])]))
            else:
                c.append(self.inb(p.off, nt, self.oszf(p.obj)))
            alts.append(And(*c))
        self.oblige(st, And(st.mem.alive(p.obj), Or(*alts)), 'valid %s (live object, in bounds, right type)' % ('write' if write else 'read'), 'access', ins)

    def inb(self, off, n, size):
        return And(z3.ULE(n, size), z3.ULE(off, size - n))

    def check_class(self, k, off, cls, ins):
        if cls is None:
            return
        if cls not in k.classes:
            raise Unsupported('%s access to %s object' % (cls, k.name))
        n = num(off)
        rg = k.ranges.get(cls)
        if n is not None and rg and rg[0] <= n < rg[1]:
            return
        if n is not None and k.esz and (n % k.esz) not in k.classes[cls]:
            raise Unsupported('%s access at offset %d of %s object' % (cls, n, k.name))

    def rec_write(self, cls, p, kind):
        if self.writes is not None:
            oid = num(p.obj)
            off = num(p.off)
            self.writes.add((cls, oid, off if kind == 'pt' else None))

    def frame_ok(self, st, cls, p, n, ins):
        if self.modpred is None or self.dry or not self.opts['check_frame']:
            return
        oid = num(p.obj)
        if oid is not None and oid in self.objs and self.objs[oid].local:
            return
        if isinstance(n, int) and n == 1 or cls is not None:
            offs = p.off
            g = Or(self.modpred(cls, p.obj, offs), Not(self.initmem.alive(p.obj)))
            self.oblige(st, g, 'frame: write only to what the contract may modify', 'frame', ins, assume=False)
        else:
            k = z3.BitVec(uid('sk_fr'), 64)
            g = Implies(z3.ULT(k, n), Or(self.modpred('i8', p.obj, p.off + k), Not(self.initmem.alive(p.obj))))
            self.oblige(st, g, 'frame: write only to what the contract may modify', 'frame', ins, assume=False)

    def load(self, st, ty, p, ins):
        c = self.cls(ty)
        self.check_access(st, p, BYTES[c], c, False, ins)
        v = st.mem.rd(c, p)
        t = self.M.resolve(ty)
        if t.k == 'int' and t.a != WIDTH[c]:
            if t.a == 1:
                return z3.Extract(0, 0, v) == bv(1, 1)
            return z3.Extract(t.a - 1, 0, v)
        return v

    def store(self, st, ty, v, p, ins):
        c = self.cls(ty)
        self.check_access(st, p, BYTES[c], c, True, ins)
        self.frame_ok(st, c, p, None, ins)
        t = self.M.resolve(ty)
        if t.k == 'int' and t.a == 1:
            v = z3.If(v, bv(1, 8), bv(0, 8))
        elif t.k == 'int' and t.a != WIDTH[c]:
            v = z3.ZeroExt(WIDTH[c] - t.a, v)
        if c == 'ptr' and self.opts['off0']:
            self.oblige(st, eq(v.off, bv(0)), 'stored pointer is an object start', 'access', ins)
        self.rec_write(c, p, 'pt')
        st.mem = st.mem.st(c, p, v)

    def copy(self, st, d, s, n, ins, move):
        """memcpy/memmove on all classes that the objects can hold"""
        if num(n) == 0:
            return
        if not self.dry:
            nz = n != bv(0)
            for p, w in ((s, False), (d, True)):
                self._range_access(st, p, n, w, ins, nz)
            if not move and num(d.obj) is not None and num(s.obj) is not None and num(d.obj) == num(s.obj):
                g = Or(n == bv(0), z3.UGE(s.off, d.off + n), z3.UGE(d.off, s.off + n))
                self.oblige(st, g, 'memcpy operands do not overlap', 'ub', ins)
            self.frame_ok(st, None, d, n, ins)
        m = dict(st.mem.m)
        for c in self.range_classes(d):
            self.rec_write(c, d, 'rg')
            m[c] = Copy(m[c], st.mem.m[c], d.obj, d.off, s.obj, s.off, n)
        st.mem = Mem(m)

    def range_classes(self, p):
        oid = num(p.obj)
        if oid is not None and oid in self.objs:
            if 'i8' in self.objs[oid].kind.ranges:
                return ['i8']
            return list(self.objs[oid].kind.classes)
        return [c for c in CLASSES if c != 'alive']

    def _range_access(self, st, p, n, write, ins, nz):
        oid = num(p.obj)
        if oid is not None and oid in self.objs:
            o = self.objs[oid]
            if write and o.const:
                self.oblige(st, Implies(nz, False), 'write to constant %s' % o.name, 'access', ins)
            rg = o.kind.ranges.get('i8')
            if rg:
                self.oblige(st, Implies(nz, And(z3.UGE(p.off, bv(rg[0])), self.inb(p.off, n, bv(rg[1])))), '%s of a range within the member array of %s' % ('write' if write else 'read', o.name), 'access', ins)
            self.oblige(st, Implies(nz, self.inb(p.off, n, o.size)), '%s of a range within bounds of %s' % ('write' if write else 'read', o.name), 'access', ins)
            if (not o.local or getattr(o, 'heap', False)) and not getattr(o, 'glob', False):
                self.oblige(st, Implies(nz, st.mem.alive(p.obj)), 'range access to live object %s' % o.name, 'access', ins, assume=False)
        elif oid == 0:
            self.oblige(st, Not(nz), 'null pointer range access', 'access', ins)
        else:
            alts = [self.kindf(p.obj) == k.id for k in self.kinds.values()]
            self.oblige(st, Implies(nz, And(st.mem.alive(p.obj), Or(*alts), self.inb(p.off, n, self.oszf(p.obj)))), 'range %s valid (live object, in bounds)' % ('write' if write else 'read'), 'access', ins)

    def fill(self, st, d, byte, n, ins):
        if num(n) == 0:
            return
        if not self.dry:
            self._range_access(st, d, n, True, ins, n != bv(0))
            self.frame_ok(st, None, d, n, ins)
        m = dict(st.mem.m)
        for c in self.range_classes(d):
            self.rec_write(c, d, 'rg')
            if c == 'ptr':
                if num(byte) == 0:
                    v = NULL
                else:
                    raise Unsupported('memset of pointers')
            else:
                w = WIDTH[c] // 8
                v = z3.simplify(z3.Concat(*[byte] * w)) if w > 1 else byte
            m[c] = Fill(m[c], d.obj, d.off, n, v)
        st.mem = Mem(m)

    def alloc(self, st, name, kind, size, ins, heap=True):
        """fresh live object"""
        o = self.new_obj(name, kind, size, local=True)
        o.heap = heap
        p = Ptr(o.id)
        st.assume(Not(st.mem.alive(p.obj)))
        self.obj_facts(st, o)
        # distinctness from the initial state is implied by alive-ness
        if self.initmem is not None and self.initmem is not st.mem:
            st.assume(Not(self.initmem.alive(p.obj)))
        m = dict(st.mem.m)
        self.rec_write('alive', Ptr(p.obj, 0), 'pt')
        m['alive'] = Store(m['alive'], p.obj, bv(0), bv(1, 1))
        # uninitialised contents
        for c in self.kinds[kind].classes:
            b = Base(c, 'uninit_' + c)
            m[c] = Havoc(m[c], b, lambda obj, off, oid=p.obj: eq(obj, oid))
            if self.writes is not None:
                self.writes.add((c, o.id, None))
        st.mem = Mem(m)
        return p

    def free(self, st, p, ins, what='delete'):
        null = p.isnull()
        if is_true(null):
            return
        g = Implies(Not(null), And(st.mem.alive(p.obj), eq(p.off, bv(0))))
        if not self.dry:
            oid = num(p.obj)
            if oid is not None and oid in self.objs and self.objs[oid].local and not getattr(self.objs[oid], 'heap', False):
                g = z3.BoolVal(False)
            self.oblige(st, g, '%s of a live object' % what, 'access', ins)
            if self.modpred is not None and not (oid is not None and oid in self.objs and self.objs[oid].local):
                self.oblige(st, Or(null, self.modpred('alive', p.obj, bv(0)), Not(self.initmem.alive(p.obj))), 'frame: %s only of what the contract may free' % what, 'frame', ins, assume=False)
        m = dict(st.mem.m)
        self.rec_write('alive', Ptr(p.obj, 0), 'pt')
        n2 = Store(m['alive'], p.obj, bv(0), bv(0, 1))
        m['alive'] = n2 if is_false(null) else IteN(null, m['alive'], n2)
        st.mem = Mem(m)

    # ---------------------------------------------------------------- function execution
    def cfg(self, f):
        c = self.cfgs.get(f.name)
        if c is None:
            materialize(self.M, f)
            c = Cfg(f)
            self.cfgs[f.name] = c
        return c

    def run(self, f, args, st):
        """execute f; returns list of (state, retval)"""
        cfg = self.cfg(f)
        if len(self.fnstack) > self.opts['max_inline'] or f.name in self.fnstack:
            raise Unsupported('recursive inlining of ' + self.M.dem.get(f.name, f.name))
        self.fnstack.append(f.name)
        saved_env, saved_iters = st.env, st.iters
        st.env = {}
        st.iters = ()
        for (n, t), v in zip(f.params, args):
            st.env[n] = v
        pending = {}
        heap = []
        rets = []
        cnt = [0]

        def push(b, s):
            pending.setdefault(b, []).append(s)
            cnt[0] += 1
            heapq.heappush(heap, (cfg.rpo[b], b))

        def edge(b, s, state):
            """take CFG edge b->s"""
            blk = f.blocks[s]
            phis = []
            for i in blk.ins:
                if i.op != 'phi':
                    break
                for v, pb in i.x:
                    if pb == b:
                        phis.append((i.res, self.val(state, v)))
                        break
            for n, v in phis:
                state.env[n] = v
            # leaving loops: drop iteration counters
            if state.iters:
                keep = tuple((h, k, mode) for h, k, mode in state.iters if s in cfg.loops[h])
                if keep != state.iters:
                    gone = [(h, k) for h, k, mode in state.iters if s not in cfg.loops[h] and mode == 'fork']
                    if gone:
                        state.fork = state.fork + tuple((f.name, h, k, b) for h, k in gone)
                    state.iters = keep
            if (b, s) in cfg.back:
                lm = [x for x in state.iters if x[0] == s]
                if lm and lm[0][2] != 'cut':
                    h, k, mode = lm[0]
                    state.iters = tuple(x for x in state.iters if x[0] != s) + ((s, k + 1, mode),)
                    lim = self.unroll_limit(f, s)
                    if k + 1 > lim:
                        self.oblige(state, False, 'unwinding bound %d suffices for loop' % lim, 'unwind', f.blocks[s].ins[-1])
                        return
                    if not self.feasible(state):
                        return
                    push(s, state)
                else:
                    self.loop_latch(f, cfg, s, state)
                return
            push(s, state)

        st0 = st
        push(f.entry, st0)
        while heap:
            _, b = heapq.heappop(heap)
            sts = pending.pop(b, None)
            if not sts:
                continue
            groups = {}
            for s in sts:
                groups.setdefault((s.fork, s.iters), []).append(s)
            for g in groups.values():
                s = self.merge(g) if len(g) > 1 else g[0]
                if s.dead:
                    continue
                if b in cfg.loops and not any(h == b for h, k, m in s.iters):
                    lim = self.unroll_limit(f, b)
                    if lim:
                        s.iters = s.iters + ((b, 0, self.opts.get('unroll_mode', 'fork')),)
                    else:
                        s = self.loop_entry(f, cfg, b, s)
                        if s is None:
                            continue
                        s.iters = s.iters + ((b, 0, 'cut'),)
                self.exec_block(f, cfg, b, s, edge, rets)
        self.fnstack.pop()
        out = []
        for s, v in rets:
            s.env = saved_env
            s.iters = saved_iters
            out.append((s, v))
        # merge returns with equal forks
        groups = {}
        for s, v in out:
            groups.setdefault(s.fork, []).append((s, v))
        res = []
        for g in groups.values():
            if len(g) == 1:
                s, v = g[0]
                s.env = dict(saved_env)
                res.append((s, v))
            else:
                for s, v in g:
                    s.env = dict(saved_env)
                    s.env['%%ret'] = v
                s = self.merge([s for s, v in g], keep='%%ret')
                v = s.env.pop('%%ret')
                res.append((s, v))
        return res

    def unroll_limit(self, f, header):
        u = self.opts['unroll']
        if callable(u):
            return u(self, f, header)
        if isinstance(u, dict):
            return u.get(self.fnname().split('::')[-1], u.get('*', 0))
        return u

    def feasible(self, st):
        if not self.opts['path_prune']:
            return True
        s = z3.Solver()
        s.set('timeout', 1500)
        for it in st.facts.path():
            if it[2] is None:
                if not z3.is_quantifier(it[1]):
                    s.add(it[1])
        return s.check() != z3.unsat

    def merge(self, sts, keep=None):
        base = sts[0].facts
        for s in sts[1:]:
            base = common(base, s.facts)
        conds = []
        suff = []
        for s in sts:
            items = s.facts.path(base)
            conds.append(And(*[it[1] for it in items if it[0] == 'p']))
            suff.append(items)
        n = State(base, {}, None, sts[0].fork, sts[0].iters)
        # simplify complementary conditions
        n.facts = Facts(base, ('p', simp_or(conds), None)) if not is_true(simp_or(conds)) else base
        for c, items in zip(conds, suff):
            for it in items:
                if it[0] == 'a':
                    n.facts = Facts(n.facts, ('a', Implies(c, it[1]), it[2]))
        m = sts[-1].mem
        for s, c in zip(reversed(sts[:-1]), reversed(conds[:-1])):
            m = merge_mem(c, s.mem, m)
        n.mem = m
        names = set(sts[0].env)
        for s in sts[1:]:
            names &= set(s.env)
        for k in names:
            v = sts[-1].env[k]
            for s, c in zip(reversed(sts[:-1]), reversed(conds[:-1])):
                w = s.env[k]
                if w is v:
                    continue
                if w is None or v is None:
                    v = None
                    continue
                v = ite(c, w, v)
            n.env[k] = v
        return n

    def exec_block(self, f, cfg, b, st, edge, rets):
        blk = f.blocks[b]
        start = 0
        while start < len(blk.ins) and blk.ins[start].op == 'phi':
            start += 1
        self._exec_from(f, b, blk, start, st, edge, rets)

    def _exec_from(self, f, b, blk, idx, st, edge, rets):
        n = len(blk.ins)
        while idx < n:
            i = blk.ins[idx]
            op = i.op
            if op == 'br':
                if not i.ops:
                    edge(b, i.x[0], st)
                    return
                c = self.val(st, i.ops[0])
                c = z3.simplify(c)
                if z3.is_true(c):
                    edge(b, i.x[0], st)
                elif z3.is_false(c):
                    edge(b, i.x[1], st)
                else:
                    kn = self.known_lit(st, c)
                    if kn is True:
                        edge(b, i.x[0], st)
                        return
                    if kn is False:
                        edge(b, i.x[1], st)
                        return
                    s2 = st.clone()
                    st.path(c)
                    s2.path(z3.simplify(z3.Not(c)))
                    fk = self.opts.get('fork')
                    if fk and not self.dry and (fk is True or fk(self, f, b)):
                        t1, t2 = self.feasible(st), self.feasible(s2)
                        if t1 and t2:
                            u = uid('fk')
                            st.fork = st.fork + (u + 't',)
                            s2.fork = s2.fork + (u + 'f',)
                        if t1:
                            edge(b, i.x[0], st)
                        if t2:
                            edge(b, i.x[1], s2)
                        return
                    edge(b, i.x[0], st)
                    edge(b, i.x[1], s2)
                return
            if op == 'switch':
                c = self.val(st, i.ops[0])
                d, cases = i.x
                rest = []
                bytgt = {}
                for cv, t in cases:
                    e = z3.simplify(c == bv(cv, c.size()))
                    rest.append(e)
                    bytgt.setdefault(t, []).append(e)
                for t, es in bytgt.items():
                    e = Or(*es)
                    if is_false(e):
                        continue
                    s2 = st.clone()
                    s2.path(e)
                    edge(b, t, s2)
                e = And(*[Not(x) for x in rest])
                if not is_false(e):
                    s2 = st.clone()
                    s2.path(e)
                    edge(b, d, s2)
                return
            if op == 'ret':
                v = self.val(st, i.ops[0]) if i.ops else None
                rets.append((st, v))
                return
            if op == 'unreachable':
                if not self.dry:
                    self.oblige(st, False, 'unreachable code is not reached', 'ub', i)
                return
            if op in ('call', 'invoke'):
                outs = self.call(f, st, i)
                if op == 'invoke':
                    for s2 in outs:
                        edge(b, i.x[1][0], s2)
                    return
                if len(outs) == 1 and outs[0] is st:
                    idx += 1
                    continue
                for s2 in outs:
                    self._exec_from(f, b, blk, idx + 1, s2, edge, rets)
                return
            self.ins(st, i)
            idx += 1

    def known_lit(self, st, c):
        cid = c.get_id()
        nc = None
        n = st.facts
        k = 0
        negs = z3.simplify(z3.Not(c))
        nid = negs.get_id()
        while n is not None and k < 4000:
            it = n.item
            if it is not None and it[0] == 'p':
                i = it[1].get_id()
                if i == cid:
                    return True
                if i == nid:
                    return False
            n = n.parent
            k += 1
        return None

    # ---------------------------------------------------------------- instructions
    def ins(self, st, i):
        op = i.op
        env = st.env
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            env[i.res] = self.binop(st, i, op, a, b)
        elif op == 'icmp':
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            env[i.res] = self.icmp(st, i.x, a, b, i)
        elif op == 'select':
            c, a, b = [self.val(st, o) for o in i.ops]
            env[i.res] = ite(z3.simplify(c), a, b)
        elif op == 'load':
            env[i.res] = self.load(st, i.ty, self.val(st, i.ops[0]), i)
        elif op == 'store':
            self.store(st, i.ty, self.val(st, i.ops[0]), self.val(st, i.ops[1]), i)
        elif op == 'getelementptr':
            env[i.res] = self.gep(st, i.x, i.ops)
        elif op == 'alloca':
            ty = self.M.resolve(i.x)
            nm = i.res[1:]
            if i.ops and num(self.val(st, i.ops[0])) != 1:
                raise Unsupported('variable alloca')
            if ty.k == 'array' and self.M.resolve(ty.b).k == 'int' and self.M.resolve(ty.b).a == 8:
                o = self.new_obj(nm, 'bytes', ty.a, local=True)
            else:
                kn = 'alloca:%r' % i.x
                if kn not in self.kinds:
                    if ty.k == 'array':
                        self.kind(kn, self.M.size(ty.b), [(o, self.cls(t)) for o, t in self.M.scalars(ty.b)], True)
                    else:
                        self.kind_of_type(kn, ty)
                o = self.new_obj(nm, kn, self.M.size(ty), local=True)
            self.obj_facts(st, o)
            if self.initmem is not None:
                st.assume(Not(self.initmem.alive(bv(o.id))))
            m = dict(st.mem.m)
            m['alive'] = Store(m['alive'], bv(o.id), bv(0), bv(1, 1))
            st.mem = Mem(m)
            env[i.res] = Ptr(o.id)
        elif op == 'trunc':
            a = self.val(st, i.ops[0])
            if i.ty.a == 1:
                env[i.res] = z3.simplify(z3.Extract(0, 0, a) == bv(1, 1))
            else:
                env[i.res] = z3.simplify(z3.Extract(i.ty.a - 1, 0, a))
        elif op in ('zext', 'sext'):
            a = self.val(st, i.ops[0])
            if z3.is_bool(a):
                one = 1 if op == 'zext' else -1
                env[i.res] = z3.simplify(z3.If(a, bv(one, i.ty.a), bv(0, i.ty.a)))
            else:
                k = i.ty.a - a.size()
                env[i.res] = z3.simplify(z3.ZeroExt(k, a) if op == 'zext' else z3.SignExt(k, a))
        elif op == 'ptrtoint':
            v = self.ptrtoint(self.val(st, i.ops[0]))
            if i.ty.a < 64:
                v = z3.Extract(i.ty.a - 1, 0, v)
            env[i.res] = v
        elif op == 'inttoptr':
            v = self.val(st, i.ops[0])
            if v.size() < 64:
                v = z3.ZeroExt(64 - v.size(), v)
            env[i.res] = Ptr(bv(0), v)
        elif op in ('bitcast', 'freeze'):
            env[i.res] = self.val(st, i.ops[0])
        elif op == 'extractvalue':
            v = self.val(st, i.ops[0])
            for k in i.x:
                v = v[k]
            env[i.res] = v
        elif op == 'insertvalue':
            v = list(self.val(st, i.ops[0]))
            if len(i.x) != 1:
                raise Unsupported('nested insertvalue')
            v[i.x[0]] = self.val(st, i.ops[1])
            env[i.res] = v
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            w = a.size()
            if self.opts.get('fp') and w == 64 and op in ('fadd', 'fsub'):
                if op == 'fsub' and a.eq(b):      # x - x: +0, or NaN when x is not finite
                    env[i.res] = z3.If(z3.Extract(62, 52, a) == bv(0x7ff, 11), bv(0x7ff8 << 48), bv(0))
                    return
                env[i.res] = z3.fpToIEEEBV((z3.fpAdd if op == 'fadd' else z3.fpSub)(z3.RNE(), tofp(a), tofp(b)))
                return
            env[i.res] = self.uf('%s%d' % (op, w), w, w, w)(a, b)
        elif op == 'fneg':
            a = self.val(st, i.ops[0])
            w = a.size()
            env[i.res] = a ^ bv(1 << (w - 1), w)
        elif op == 'fcmp':
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            w = a.size()
            if self.opts.get('fp') and w == 64:
                env[i.res] = fcmp(i.x, a, b)
                return
            env[i.res] = self.uf('fcmp_%s%d' % (i.x, w), w, w, z3.BoolSort())(a, b)
        elif op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'):
            a = self.val(st, i.ops[0])
            env[i.res] = self.uf('%s_%d_%d' % (op, a.size(), i.ty.a), a.size(), i.ty.a)(a)
        else:
            raise Unsupported('instruction %s %s' % (op, i.x))

    def binop(self, st, i, op, a, b):
        if z3.is_bool(a):
            if op == 'and':
                return z3.simplify(z3.And(a, b))
            if op == 'or':
                return z3.simplify(z3.Or(a, b))
            if op == 'xor':
                return z3.simplify(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        w = a.size()
        if 'nsw' in i.flags and self.opts['nsw'] and op in ('add', 'sub', 'mul') and not self.dry:
            if op == 'add':
                g = And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            elif op == 'sub':
                g = And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            else:
                g = And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            self.oblige(st, g, 'no signed overflow in %s' % op, 'overflow', i)
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            h = self.opts.get('mul_hook')
            if h:
                r = h(self, st, a, b)
                if r is not None:
                    return r
            return z3.simplify(a * b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige(st, b != bv(0, w), 'no division by zero', 'overflow', i)
            if op in ('sdiv', 'srem'):
                self.oblige(st, Or(a != bv(1 << (w - 1), w), b != bv(-1, w)), 'no division overflow', 'overflow', i)
            return self.div(st, op, a, b)
        if op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, z3.ULT(b, bv(w, w)), 'shift amount below width', 'overflow', i)
            if op == 'shl':
                return z3.simplify(a << b)
            return z3.simplify(z3.LShR(a, b) if op == 'lshr' else a >> b)
        if op == 'and':
            return z3.simplify(a & b)
        if op == 'or':
            return z3.simplify(a | b)
        return z3.simplify(a ^ b)

    def div(self, st, op, a, b):
        w = a.size()
        nb, na = num(b), num(a)
        if na is not None and nb is not None and nb != 0 and op in ('udiv', 'urem'):
            return bv(na // nb if op == 'udiv' else na % nb, w)
        if nb is not None and nb and nb & (nb - 1) == 0 and op in ('udiv', 'urem'):
            k = nb.bit_length() - 1
            return z3.simplify(z3.LShR(a, bv(k, w)) if op == 'udiv' else a & bv(nb - 1, w))
        if self.opts.get('lindiv') and nb and nb < (1 << (w - 1)) and w in (32, 64):
            return self.lindiv(st, op, a, nb)
        if self.opts['uf_div'] and op in ('udiv', 'urem') and (w >= 32):
            return self.ufdiv(st, op, a, b)
        if op == 'udiv':
            return z3.UDiv(a, b)
        if op == 'urem':
            return z3.URem(a, b)
        if op == 'sdiv':
            return a / b
        return z3.SRem(a, b)

    def lindiv(self, st, op, a, c):
        """division by a constant: the defining linear equation instead of a divider circuit"""
        w = a.size()
        sg = op[0] == 's'
        q = self.uf('ld%sq%d_%d' % ('s' if sg else '', w, c), w, 64)(a)
        r = self.uf('ld%sr%d_%d' % ('s' if sg else '', w, c), w, 64)(a)
        e = a if w == 64 else (z3.SignExt(32, a) if sg else z3.ZeroExt(32, a))
        top = (1 << (w - 1)) - 1 if sg else (1 << w) - 1
        pos = And(z3.ULT(r, bv(c)), z3.ULE(q, bv(top // c)), Implies(q == bv(top // c), z3.ULE(r, bv(top % c))))
        st.assume(e == q * bv(c) + r)
        if sg:
            nq, nr = bv(0) - q, bv(0) - r
            bot = 1 << (w - 1)
            neg = And(z3.ULT(nr, bv(c)), z3.ULE(nq, bv(bot // c)), Implies(nq == bv(bot // c), z3.ULE(nr, bv(bot % c))))
            st.assume(z3.If(a >= 0, pos, neg))
        else:
            st.assume(pos)
        v = q if op in ('udiv', 'sdiv') else r
        return v if w == 64 else z3.Extract(31, 0, v)

    def ufdiv(self, st, op, a, b):
        """uninterpreted quotient/remainder with instantiated (sound) arithmetic facts"""
        w = a.size()
        q = self.uf('udiv%d' % w, w, w, w)(a, b)
        r = self.uf('urem%d' % w, w, w, w)(a, b)
        nz = b != bv(0, w)
        if op == 'urem':
            st.assume(Implies(nz, And(z3.ULT(r, b), z3.ULE(r, a))))
            st.assume(Implies(z3.ULT(a, b), r == a))
        else:
            st.assume(Implies(nz, And(z3.ULE(q, a), (q == bv(0, w)) == z3.ULT(a, b))))
            st.assume(Implies(And(z3.UGE(b, bv(2, w)), a != bv(0, w)), z3.ULT(q, a)))
            if self.div_axioms:
                # halving bound: b>=2 => q <= a/2
                st.assume(Implies(z3.UGE(b, bv(2, w)), z3.ULE(q, z3.LShR(a, bv(1, w)))))
        h = self.opts.get('div_hook')
        if h:
            h(self, st, op, a, b, q, r)
        return q if op == 'udiv' else r

    def icmp(self, st, pred, a, b, ins):
        if isinstance(a, Ptr):
            if pred in ('eq', 'ne'):
                e = a.eq(b)
                return e if pred == 'eq' else Not(e)
            # relational comparison within one object
            if not (num(a.obj) is not None and num(a.obj) == num(b.obj)):
                self.oblige(st, eq(a.obj, b.obj), 'relational comparison of pointers into one object', 'ub', ins)
            a, b = a.off, b.off
        elif z3.is_bool(a):
            if pred == 'eq':
                return z3.simplify(a == b)
            if pred == 'ne':
                return z3.simplify(z3.Xor(a, b))
            raise Unsupported('i1 icmp')
        if pred == 'eq':
            return z3.simplify(a == b)
        if pred == 'ne':
            return z3.simplify(a != b)
        F = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
             'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred]
        return z3.simplify(F(a, b))

    # ---------------------------------------------------------------- calls
    def call(self, f, st, i):
        callee, _ = i.x
        if callee.startswith('%'):
            p = st.env[callee]
            oid = num(p.obj)
            nm = None
            if oid is not None and oid in self.objs and hasattr(self.objs[oid], 'func'):
                nm = self.objs[oid].func
            if nm is None:
                h = self.builtin.get('*indirect')
                if h:
                    args = [self.val(st, o) if o.k != 'meta' else None for o in i.ops]
                    r = h(self, st, args, i)
                    if i.res is not None:
                        st.env[i.res] = r
                    return [st]
                raise Unsupported('indirect call')
            callee = nm
        if callee.startswith(('@llvm.dbg', '@llvm.lifetime', '@llvm.experimental', '@llvm.assume', '@llvm.invariant', '@llvm.stack')):
            if i.res is not None:
                st.env[i.res] = self.fresh(i.ty)
            return [st]
        args = [self.val(st, o) if o.k != 'meta' else None for o in i.ops]
        con = self.contracts.get(callee)
        if con is not None and not getattr(con, 'inline', False):
            return self.call_contract(st, con, callee, args, i)
        h = self.builtin.get(callee[1:])
        if h is None and callee.startswith('@llvm.'):
            pt = callee[1:].split('.')
            for nn in range(len(pt), 1, -1):
                h = h or self.builtin.get('.'.join(pt[:nn]))
        if h is not None:
            self.used_builtins.add(callee[1:])
            r = h(self, st, args, i)
            if isinstance(r, str) and r == 'stop':
                return []
            if isinstance(r, tuple) and r and r[0] == 'states':
                outs = []
                for s2, v in r[1]:
                    if i.res is not None:
                        s2.env[i.res] = v
                    outs.append(s2)
                return outs
            if i.res is not None:
                if r is None:
                    r = self.fresh(i.ty, 'ret')
                st.env[i.res] = r
            return [st]
        fn = self.M.funcs.get(callee)
        if fn is None:
            raise Unsupported('call to external function ' + callee)
        self.inlined.add(callee)
        outs = []
        for s2, v in self.run(fn, args, st):
            if i.res is not None:
                s2.env[i.res] = v
            outs.append(s2)
        return outs

    def call_contract(self, st, con, callee, args, i):
        self.used_contracts.add(callee)
        fn = self.M.funcs.get(callee)
        c = CallCtx(self, args, st.mem, site=i, st=st)
        c.caller = True
        con.prepare(c)
        for nm, g in con.requires(c):
            self.oblige(st, g, 'precondition of %s: %s' % (con.short, nm), 'pre', i)
        old = st.mem
        ret = self.fresh(i.ty, 'ret_' + con.short) if i.ty.k != 'void' else None
        c.ret = ret
        con.bind_ret(c)
        ret = c.ret
        mod = con.modifies(c)
        st.mem = self.havoc_mods(st, old, mod, con.allocates, i)
        c.new = st.mem
        c.new = con.ghost(c) or c.new
        st.mem = c.new
        if self.writes is not None:
            for g in getattr(con, 'ghost_classes', ()):
                self.writes.add((g, None, None))
        for nm, g in con.ensures(c):
            st.assume(g)
        con.after(c)
        if i.res is not None:
            st.env[i.res] = ret
        return [st]

    def havoc_mods(self, st, old, mod, allocates, i):
        """mod: list of Region"""
        if not mod and not allocates:
            return old
        m = dict(old.m)
        classes = set()
        for r in mod:
            classes |= set(r.classes(self))
        if allocates:
            classes |= set(CLASSES)
        objs = self.objs

        for cl in classes:
            regs = [r for r in mod if cl in r.classes(self)]

            def pred(obj, off, regs=regs, cl=cl):
                c = [r.has(self, cl, obj, off) for r in regs]
                if allocates:
                    oid = num(obj)
                    if oid is None:
                        c.append(Not(old.alive(obj)))
                return Or(*c)
            if regs or allocates:
                b = Base(cl, 'call_' + cl, self.known, self.opts['off0'] and cl == 'ptr')
                m[cl] = Havoc(m[cl], b, pred)
            if self.writes is not None:
                for r in regs:
                    self.writes.add(r.write_entry(cl))
                if allocates:
                    self.writes.add((cl, 'fresh', None))
        # frame inclusion
        if self.modpred is not None and not self.dry:
            for cl in classes:
                regs = [r for r in mod if cl in r.classes(self)]
                for r in regs:
                    g = r.subset_goal(self, cl, self.modpred, self.initmem)
                    if g is not None:
                        self.oblige(st, g, 'frame: callee modifies only what the contract allows', 'frame', i, assume=False)
        return Mem(m)

    # ---------------------------------------------------------------- loops
    def scan_writes(self, f, cfg, h, st):
        """fixpoint of the memory written by the loop body (dry run)"""
        W = set()
        for _ in range(6):
            s = st.clone()
            self.havoc_loop(f, cfg, h, s, W)
            W2 = self.dry_body(f, cfg, h, s)
            if W2 <= W:
                return W
            W |= W2
        raise Unsupported('loop write set does not stabilise')

    def dry_body(self, f, cfg, h, s):
        sv = self.writes
        self.writes = set()
        self.dry += 1
        saved = (len(self.obls), len(self.loops), self.next_obj)
        heap = []
        pending = {}
        body = cfg.loops[h]
        outs = []

        def edge(b, t, state):
            if t not in body or t == h:
                return
            blk = f.blocks[t]
            vals = []
            for i in blk.ins:
                if i.op != 'phi':
                    break
                for v, pb in i.x:
                    if pb == b:
                        vals.append((i.res, self.val(state, v)))
            for n, v in vals:
                state.env[n] = v
            if (b, t) in cfg.back:
                return
            pending.setdefault(t, []).append(state)
            heapq.heappush(heap, (cfg.rpo[t], t))

        self.exec_block(f, cfg, h, s, edge, outs)
        while heap:
            _, b = heapq.heappop(heap)
            sts = pending.pop(b, None)
            if not sts:
                continue
            t = self.merge(sts) if len(sts) > 1 else sts[0]
            if b in cfg.loops:
                W = self.scan_writes(f, cfg, b, t)
                self.writes |= W
                self.havoc_loop(f, cfg, b, t, W)
            self.exec_block(f, cfg, b, t, edge, outs)
        W = self.writes
        self.dry -= 1
        self.writes = sv
        if sv is not None:
            pass
        # objects allocated during the dry run do not survive
        live = {w for w in W if not (isinstance(w[1], int) and w[1] >= saved[2])}
        if any(isinstance(w[1], int) and w[1] >= saved[2] for w in W):
            for w in W:
                if isinstance(w[1], int) and w[1] >= saved[2] and getattr(self.objs[w[1]], 'heap', False):
                    live.add((w[0], 'fresh', None))
        for k in [k for k in self.objs if k >= saved[2]]:
            self.dry_objs = getattr(self, 'dry_objs', set())
            self.dry_objs.add(k)
        return live

    def fam_classes(self, cls, off):
        return [k for k in self.kinds.values() if cls in k.classes and (off is None or k.array or off in k.classes[cls])]

    def write_pred(self, cls, W, entry_mem):
        ents = [w for w in W if w[0] == cls]

        def pred(obj, off):
            oid = num(obj)
            c = []
            for _, o, fo in ents:
                if o == 'fresh':
                    if oid is None:
                        c.append(Not(entry_mem.alive(obj)))
                    elif oid in self.objs and self.objs[oid].local and getattr(self.objs[oid], 'heap', False):
                        c.append(Not(entry_mem.alive(obj)))
                    continue
                offc = True if fo is None else eq(off, bv(fo))
                if o is None:
                    if cls in self.extra_classes:
                        c.append(offc)
                    elif cls == 'alive':
                        c.append(True)
                    elif oid is not None and oid in self.objs:
                        k = self.objs[oid].kind
                        if cls in k.classes and (fo is None or k.array or fo in k.classes[cls]):
                            c.append(offc)
                    else:
                        c.append(And(offc, Or(*[self.kindf(obj) == k.id for k in self.fam_classes(cls, fo)])))
                elif isinstance(o, tuple):      # ('kind', id)
                    if oid is not None and oid in self.objs:
                        c.append(And(offc, self.objs[oid].kind.id == o[1]))
                    else:
                        c.append(And(offc, self.kindf(obj) == o[1]))
                else:
                    c.append(And(eq(obj, bv(o)), offc))
            return Or(*c)
        return pred

    def havoc_loop(self, f, cfg, h, s, W):
        """havoc phis and written memory at the header of loop h; returns list of LoopVar names"""
        names = []
        for i in f.blocks[h].ins:
            if i.op != 'phi':
                break
            old = s.env[i.res]
            # values that are the same object on every path keep their literal object
            s.env[i.res] = self.fresh(i.ty, 'it_' + i.res[1:])
            if isinstance(old, Ptr) and self.same_obj_phi(f, cfg, h, i):
                s.env[i.res] = Ptr(old.obj, s.env[i.res].off)
            elif isinstance(old, Ptr) and self.opts['off0'] and num(old.off) == 0 and self.node_phi(f, cfg, h, i):
                s.env[i.res] = Ptr(s.env[i.res].obj, 0)
            names.append(i.res)
        m = dict(s.mem.m)
        for cls in set(w[0] for w in W):
            b = Base(cls, 'loop_' + cls, self.known, self.opts['off0'] and cls == 'ptr')
            m[cls] = Havoc(m[cls], b, self.write_pred(cls, W, s.mem))
        s.mem = Mem(m)
        return names

    def node_phi(self, f, cfg, h, phi):
        """every latch value of the phi is a load (pointer loads have offset 0 here)"""
        defs = {i.res: i for b in cfg.loops[h] for i in f.blocks[b].ins if i.res}
        seen = set()

        def ok(v):
            if v.k == 'null':
                return True
            if v.k != 'local':
                return False
            if v.v == phi.res or v.v in seen:
                return True
            seen.add(v.v)
            d = defs.get(v.v)
            if d is None:
                return False
            if d.op == 'load':
                return True
            if d.op == 'phi':
                return all(ok(x) for x, pb in d.x)
            if d.op == 'select':
                return ok(d.ops[1]) and ok(d.ops[2])
            return False
        return all(ok(v) for v, pb in phi.x if pb in cfg.loops[h])

    def same_obj_phi(self, f, cfg, h, phi):
        """syntactic: every latch value of the phi is derived from the phi itself by GEPs"""
        body = cfg.loops[h]
        defs = {}
        for b in body:
            for i in f.blocks[b].ins:
                if i.res:
                    defs[i.res] = i
        seen = set()

        def ok(v):
            if v.k != 'local':
                return False
            n = v.v
            if n == phi.res or n in seen:
                return True
            seen.add(n)
            d = defs.get(n)
            if d is None:
                return False
            if d.op == 'getelementptr':
                return ok(d.ops[0])
            if d.op == 'phi':
                return all(ok(x) for x, pb in d.x)
            if d.op == 'select':
                return ok(d.ops[1]) and ok(d.ops[2])
            return False

        return all(ok(v) for v, pb in phi.x if pb in body)

    def loop_entry(self, f, cfg, h, st):
        # liveness marking of dry-run objects is handled by ids being unique
        W = self.scan_writes(f, cfg, h, st)
        ins0 = next((i for i in f.blocks[h].ins if i.dbg), f.blocks[h].ins[-1])
        L = LoopInst(len(self.loops), self.fnstack[-1], self.where(ins0))
        entry_mem = st.mem
        phis = [i for i in f.blocks[h].ins if i.op == 'phi']
        entry_vals = {i.res: st.env[i.res] for i in phis}
        # memory scalars written at literal addresses
        cells = []
        for cls, o, off in sorted(W, key=str):
            if isinstance(o, int) and off is not None and cls not in ('alive',):
                cells.append((cls, o, off))
            elif isinstance(o, int) and off is None and o in self.objs and not self.objs[o].kind.array:
                for fo in sorted(self.objs[o].kind.classes.get(cls, ())):
                    cells.append((cls, o, fo))
        cells = sorted(set(cells))
        if len(cells) > 40:
            cells = cells[:40]
        for cl, o, off in cells:
            entry_vals[(cl, o, off)] = entry_mem.rd(cl, Ptr(o, off))
        ev = View(entry_vals, entry_mem, self)
        ev.entry = ev
        ev.st = st
        if self.dry:
            self.havoc_loop(f, cfg, h, st, W)
            return st
        pre = st.clone()
        self.havoc_loop(f, cfg, h, st, W)
        hv = {i.res: st.env[i.res] for i in phis}
        for cl, o, off in cells:
            hv[(cl, o, off)] = st.mem.rd(cl, Ptr(o, off))
        head = View(hv, st.mem, self, ev, st)
        L.head, L.entryview, L.W, L.phis, L.cells = head, ev, W, phis, cells
        L.key = (f.name, h, st.fork)
        if self.inv_provider:
            cands = self.inv_provider(self, f, h, L)
        else:
            cands = []
        L.cands = cands
        self.loops.append(L)
        for cid, (desc, fn) in enumerate(cands):
            try:
                g = fn(ev)
            except Unsupported:
                g = False
            L.entry.append((cid, pre.facts, g))
        for cid, (desc, fn) in enumerate(cands):
            fct = as_fact(fn(head))
            st.facts = Facts(st.facts, ('a', fct, (L.id, cid)))
        st.env['%%loop:' + h] = L
        return st

    inv_provider = None

    def loop_latch(self, f, cfg, h, st):
        if self.dry:
            return
        L = st.env.get('%%loop:' + h)
        if L is None:
            return
        vals = {i.res: st.env[i.res] for i in L.phis}
        for cl, o, off in L.cells:
            vals[(cl, o, off)] = st.mem.rd(cl, Ptr(o, off))
        v = View(vals, st.mem, self, L.entryview, st)
        for cid, (desc, fn) in enumerate(L.cands):
            L.latch.append((cid, st.facts, fn(v)))
        L.latchview.append((st.facts, v))


def simp_or(conds):
    if len(conds) == 2:
        a, b = conds
        if z3.is_expr(a) and z3.is_expr(b):
            s = z3.simplify(z3.Or(a, b))
            return s
    o = Or(*conds)
    return z3.simplify(o) if not isinstance(o, bool) else z3.BoolVal(o)


# ------------------------------------------------------------------ regions (frames)
class Region:
    """modified memory: bytes [lo,lo+n) of object obj, optionally restricted to classes"""

    def __init__(self, obj, lo=0, n=None, cls=None):
        self.obj = bv(obj) if isinstance(obj, int) else obj
        self.lo = bv(lo) if isinstance(lo, int) else lo
        self.n = bv(n) if isinstance(n, int) else n
        self.cl = [cls] if isinstance(cls, str) else cls

    def classes(self, x):
        if self.cl:
            return self.cl
        oid = num(self.obj)
        if oid is not None and oid in x.objs:
            return list(x.objs[oid].kind.classes)
        return [c for c in CLASSES if c != 'alive']

    def has(self, x, cl, obj, off):
        if cl not in self.classes(x):
            return z3.BoolVal(False)
        e = eq(obj, self.obj)
        if is_false(e) or self.n is None:
            return e
        n1 = num(self.n)
        if n1 is not None and n1 == BYTES[cl]:
            return And(e, eq(off, self.lo))
        return And(e, z3.simplify(z3.ULT(sub(off, self.lo), self.n)))

    def write_entry(self, cl):
        oid = num(self.obj)
        lo, n = num(self.lo), (num(self.n) if self.n is not None else None)
        return (cl, oid, lo if (n is not None and n == BYTES[cl] and lo is not None) else None)

    def subset_goal(self, x, cl, pred, initmem):
        oid = num(self.obj)
        if oid is not None and oid in x.objs and x.objs[oid].local:
            return None
        k = z3.BitVec(uid('sk_fr'), 64)
        off = k
        c = self.has(x, cl, self.obj, off)
        return Implies(c, Or(pred(cl, self.obj, off), Not(initmem.alive(self.obj))))


class Span(Region):
    """modified memory given by its bounds: bytes lo <= offset < end of object obj"""

    def __init__(self, obj, lo, end, cls=None):
        Region.__init__(self, obj, lo, bv(0), cls)
        self.end = z3.simplify(end)

    def has(self, x, cl, obj, off):
        if cl not in self.classes(x):
            return z3.BoolVal(False)
        e = eq(obj, self.obj)
        return e if is_false(e) else And(e, z3.UGE(off, self.lo), z3.ULT(off, self.end))

    def write_entry(self, cl):
        return (cl, num(self.obj), None)


class FamRegion:
    """field `off` of every object of a kind, optionally filtered by guard(obj)"""

    def __init__(self, kind, cls, off=None, guard=None):
        self.kind, self.cl, self.off, self.guard = kind, cls, off, guard

    def classes(self, x):
        return [self.cl]

    def has(self, x, cl, obj, off):
        if cl != self.cl:
            return z3.BoolVal(False)
        oid = num(obj)
        if self.cl == 'alive' or self.off is None:
            oc = True
        else:
            oc = eq(off, bv(self.off))
        if oid is not None and oid in x.objs:
            if x.objs[oid].kind.id != self.kind.id:
                return z3.BoolVal(False)
            kc = True
        else:
            kc = x.kindf(obj) == self.kind.id
        g = self.guard(obj) if self.guard else True
        return And(oc, kc, g)

    def write_entry(self, cl):
        return (cl, ('kind', self.kind.id), None if cl == 'alive' else self.off)

    def subset_goal(self, x, cl, pred, initmem):
        o = z3.BitVec(uid('sk_fo'), 64)
        f = z3.BitVec(uid('sk_ff'), 64)
        return Implies(self.has(x, cl, o, f), Or(pred(cl, o, f), Not(initmem.alive(o))))


class GhostRegion:
    """a whole ghost class"""

    def __init__(self, cls):
        self.cl = cls

    def classes(self, x):
        return [self.cl]

    def has(self, x, cl, obj, off):
        return z3.BoolVal(cl == self.cl)

    def write_entry(self, cl):
        return (cl, None, None)

    def subset_goal(self, *a):
        return None


class Contract:
    """base class: a specification of one function"""
    allocates = False
    short = '?'
    inline = False
    ghost_classes = ()

    def prepare(self, c):
        pass

    def requires(self, c):
        return []

    def modifies(self, c):
        return None

    def ghost(self, c):
        return None

    def bind_ret(self, c):
        pass

    def ensures(self, c):
        return []

    def after(self, c):
        pass

    def inv(self, c, L):
        return []

    def setup(self, x, st, f):
        raise NotImplementedError
