"""Contracts of the doubly linked list (List<T> / ListNoCopy<T>), T = uint64_t.

Ghost state (lives in ghost memory classes):
  gS(list,i)  node object at position i      gP(node) position of a node
  gO(node)    owning list (0: detached)
"""
from .common import *

CL = (('gS', 64), ('gP', 64), ('gO', 64))
MAXN = 1 << 56


class LS:
    """layout and ghost accessors"""

    def __init__(self, x, cname, nname=None):
        nname = nname or ('QueueNode<unsigned long>' if cname.startswith('Queue') else 'ListNode<unsigned long>')
        self.single = cname.startswith('Queue')
        M = x.M
        self.x = x
        self.first = fieldoff(M, cname, 'FirstNode')
        self.last = fieldoff(M, cname, 'LastNode')
        self.cnt = fieldoff(M, cname, 'NumNodes')
        self.lsize = M.di[cname]['size']
        self.prev = None if self.single else fieldoff(M, nname, 'PrevNode')
        self.next = fieldoff(M, nname, 'NextNode')
        self.val = fieldoff(M, nname, 'Value')
        self.nsize = M.di[nname]['size']
        if 'list' not in x.kinds:
            x.kind('list', self.lsize, [(self.first, 'ptr'), (self.last, 'ptr'), (self.cnt, 'i64')], False)
            x.kind('node', self.nsize, ([] if self.single else [(self.prev, 'ptr')]) + [(self.next, 'ptr'), (self.val, 'i64')], False)
            x.kind('cell', 8, [(0, 'i64')], False)
        self.K = x.kinds['node']

    # concrete fields
    def n(self, m, L):
        return m.u64(Ptr(L, self.cnt))

    def fst(self, m, L):
        return m.ptr(Ptr(L, self.first)).obj

    def lst(self, m, L):
        return m.ptr(Ptr(L, self.last)).obj

    def nx(self, m, o):
        return m.ptr(Ptr(o, self.next)).obj

    def pv(self, m, o):
        if self.single:
            return bv(0)
        return m.ptr(Ptr(o, self.prev)).obj

    def v(self, m, o):
        return m.u64(Ptr(o, self.val))

    # ghost
    def S(self, m, L, i):
        return m.m['gS'].read(L, i)

    def P(self, m, o):
        return m.m['gP'].read(o, bv(0))

    def O(self, m, o):
        return m.m['gO'].read(o, bv(0))

    def isnode(self, m, o):
        return And(o != 0, self.x.kindf(o) == self.K.id, m.alive(o))

    def wf(self, m, L, split=True):
        """representation invariant of list object L in memory m"""
        n = self.n(m, L)
        z = bv(0)

        def elem(i):
            o = self.S(m, L, i)
            return [Implies(ULT(i, n), c) for c in (
                o != 0, self.x.kindf(o) == self.K.id, m.alive(o), self.O(m, o) == L, self.P(m, o) == i,
                self.nx(m, o) == ite(ULT(i + 1, n), self.S(m, L, i + 1), z),
                z3.BoolVal(True) if self.single else self.pv(m, o) == ite(i == 0, z, self.S(m, L, i - 1)))]

        def mem_(o):
            return Implies(self.O(m, o) == L, And(ULT(self.P(m, o), n), self.S(m, L, self.P(m, o)) == o))
        return [
            ('element count is in range', ULE(n, MAXN)),
            ('every element is linked to its neighbours', FA(64, elem, pat=lambda i: [self.S(m, L, i)])),
            ('a node owned by the list is at its position', FA(64, mem_, pat=lambda o: [self.O(m, o)])),
            ('first/last pointers match the sequence', And(self.fst(m, L) == ite(n == 0, z, self.S(m, L, z)), self.lst(m, L) == ite(n == 0, z, self.S(m, L, n - 1)))),
        ]

    def wff(self, m, L):
        return [g for _, g in self.wf(m, L)]


def lam(m, cls, fn):
    d = dict(m.m)
    d[cls] = Lam(cls, fn)
    return Mem(d)


class ListC(Contract):
    """base of list contracts"""
    cname = 'List<unsigned long>'
    ghost_classes = ()
    classes = CL

    def init(self, x):
        self.ls = LS(x, self.cname)

    def L_(self, c):
        if not hasattr(c.x, '_ls_' + self.cname):
            setattr(c.x, '_ls_' + self.cname, LS(c.x, self.cname))
        return getattr(c.x, '_ls_' + self.cname)

    def setup(self, x, st, f):
        o = x.param_obj(st, 'this', 'list')
        args = [o.ptr()]
        self.more(x, st, f, args)
        return args

    def more(self, x, st, f, args):
        pass

    def requires(self, c):
        ls = self.L_(c)
        L = c.args[0].obj
        return [('list well formed: ' + n, g) for n, g in ls.wf(c.old, L)] + [('list object', And(c.x.kindf(L) == c.x.kinds['list'].id, c.old.alive(L), L != 0))] + self.req(c, ls, L)

    def req(self, c, ls, L):
        return []

    def ensures(self, c):
        ls = self.L_(c)
        L = c.args[0].obj
        return [('list stays well formed: ' + n, g) for n, g in ls.wf(c.new, L)] + self.ens(c, ls, L)

    def hdr(self, c, ls, L):
        return [Region(L, 0, ls.lsize, ['ptr', 'i64'])]

    def links(self, c, ls, guard):
        return [FamRegion(ls.K, 'ptr', ls.next, guard)] + ([] if ls.single else [FamRegion(ls.K, 'ptr', ls.prev, guard)])

    def after(self, c):
        pass


def ins_ghost(ls, old, new, L, k, node, n, cond=True):
    """ghost effect of inserting node at position k of list L"""
    def gS(o, i):
        b = old.m['gS'].read(o, i)
        e = eq(o, L)
        if is_false(e):
            return b
        return ite(And(e, cond), ite(ULT(i, k), b, ite(i == k, node, old.m['gS'].read(o, i - 1))), b)

    def gP(o, f):
        b = old.m['gP'].read(o, f)
        return ite(cond, ite(o == node, k, ite(And(ls.O(old, o) == L, UGE(b, k)), b + 1, b)), b)

    def gO(o, f):
        return ite(And(cond, o == node), L, old.m['gO'].read(o, f))
    new = lam(new, 'gS', gS)
    new = lam(new, 'gP', gP)
    return lam(new, 'gO', gO)


def del_ghost(ls, old, new, L, k, node, cond=True):
    def gS(o, i):
        b = old.m['gS'].read(o, i)
        e = eq(o, L)
        if is_false(e):
            return b
        return ite(And(e, cond), ite(ULT(i, k), b, old.m['gS'].read(o, i + 1)), b)

    def gP(o, f):
        b = old.m['gP'].read(o, f)
        return ite(And(cond, ls.O(old, o) == L, UGT(b, k)), b - 1, b)

    def gO(o, f):
        return ite(And(cond, o == node), bv(0), old.m['gO'].read(o, f))
    new = lam(new, 'gS', gS)
    new = lam(new, 'gP', gP)
    return lam(new, 'gO', gO)


class Insert(ListC):
    """Insert{Before,After}(Ref, Value|Node), Push/Unshift/+= (fixed end)"""

    def __init__(self, where, by, has_ref, cname, ret='node'):
        self.where_, self.by, self.has_ref, self.cname, self.retk = where, by, has_ref, cname, ret
        self.allocates = by == 'value'
        self.short = 'insert-%s-%s' % (where, by)
        self.ghost_classes = ('gS', 'gP', 'gO')

    def more(self, x, st, f, args):
        if self.has_ref:
            args.append(Ptr(bvar('ref'), 0))
        if self.by == 'value':
            args.append(Ptr(bvar('valobj'), bvar('valoff')))
        else:
            args.append(Ptr(bvar('node'), 0))

    def parts(self, c):
        a = list(c.args)
        L = a[0].obj
        ref = a[1].obj if self.has_ref else bv(0)
        return L, ref, a[-1]

    def req(self, c, ls, L):
        _, ref, last = self.parts(c)
        out = []
        if self.has_ref:
            out.append(('reference node is null or in this list', Or(ref == 0, And(ls.isnode(c.old, ref), ls.O(c.old, ref) == L))))
            out.append(('reference is a node pointer', c.args[1].off == 0))
        if self.by == 'value':
            x = c.x
            loc = [x.kindf(last.obj) == kd.id for kn, kd in x.kinds.items() if kn.startswith('alloca:') and len(kd.fields) == 1]
            out.append(('value readable', And(c.old.alive(last.obj), Or(And(last.off == 0, Or(*loc)), And(x.kindf(last.obj) == x.kinds['cell'].id, last.off == 0), And(x.kindf(last.obj) == ls.K.id, last.off == ls.val)))))
        else:
            nd = last.obj
            out.append(('node pointer', And(last.off == 0, ls.isnode(c.old, nd))))
            out.append(('node detached, or linked to a neighbour', Or(And(ls.O(c.old, nd) == 0, ls.nx(c.old, nd) == 0, ls.pv(c.old, nd) == 0), Or(ls.nx(c.old, nd) != 0, ls.pv(c.old, nd) != 0))))
        out.append(('room for one more', ULT(ls.n(c.old, L), MAXN)))
        return out

    def ok(self, c, ls):
        _, ref, last = self.parts(c)
        if self.by == 'value':
            return z3.BoolVal(True)
        return And(ls.nx(c.old, last.obj) == 0, ls.pv(c.old, last.obj) == 0)

    def modifies(self, c):
        ls = self.L_(c)
        L, ref, last = self.parts(c)
        if self.by == 'value':
            g = lambda o: ls.O(c.old, o) == L
        else:
            g = lambda o: Or(ls.O(c.old, o) == L, o == last.obj)
        return self.hdr(c, ls, L) + self.links(c, ls, g)

    def newnode(self, c, ls):
        L, ref, last = self.parts(c)
        if self.by == 'node':
            return last.obj
        if self.retk == 'node':
            return c.ret.obj
        # += : the node is not returned: it is the new last element
        return ls.lst(c.new, L)

    def pos(self, c, ls):
        L, ref, last = self.parts(c)
        n = ls.n(c.old, L)
        if self.where_ == 'before':
            return ite(ref == 0, n, ls.P(c.old, ref))
        return ite(ref == 0, bv(0), ls.P(c.old, ref) + 1)

    def ghost(self, c):
        ls = self.L_(c)
        L, ref, last = self.parts(c)
        return ins_ghost(ls, c.old, c.new, L, self.pos(c, ls), self.newnode(c, ls), ls.n(c.old, L), self.ok(c, ls))

    def ens(self, c, ls, L):
        _, ref, last = self.parts(c)
        nd = self.newnode(c, ls)
        ok = self.ok(c, ls)
        n = ls.n(c.old, L)
        out = [('count grows by exactly one on success', ls.n(c.new, L) == ite(ok, n + 1, n))]
        if self.by == 'value':
            out.append(('new node is fresh and live', And(nd != 0, Not(c.old.alive(nd)), c.new.alive(nd), c.x.kindf(nd) == ls.K.id)))
            out.append(('new node holds the value', ls.v(c.new, nd) == c.old.u64(last)))
            if self.retk == 'node':
                out.append(('returns the new node', And(c.ret.off == 0)))
            out.append(('nothing else is freed or created', FA(64, lambda o: Implies(o != nd, c.new.m['alive'].read(o, bv(0)) == c.old.m['alive'].read(o, bv(0))), pat=lambda o: [c.new.m['alive'].read(o, bv(0))])))
        elif self.retk == 'node':
            out.append(('returns the node, or null when it was not detached', And(c.ret.off == 0, c.ret.obj == ite(ok, nd, bv(0)))))
        if self.retk == 'this':
            out.append(('returns the list', c.ret.eq(c.args[0])))
        return out


class DetachC(ListC):
    """Detach / Remove(node), Pop / Shift"""

    def __init__(self, which, cname, free=False):
        self.which, self.cname, self.free_ = which, cname, free
        self.short = which
        self.ghost_classes = ('gS', 'gP', 'gO')

    def more(self, x, st, f, args):
        if self.which in ('Detach', 'Remove'):
            args.append(Ptr(bvar('node'), 0))

    def node(self, c, ls):
        L = c.args[0].obj
        n = ls.n(c.old, L)
        if self.which == 'Pop':
            return ite(n == 0, bv(0), ls.S(c.old, L, n - 1))
        if self.which == 'Shift':
            return ite(n == 0, bv(0), ls.S(c.old, L, bv(0)))
        return c.args[1].obj

    def req(self, c, ls, L):
        if self.which in ('Pop', 'Shift'):
            return []
        nd = c.args[1].obj
        return [('node is null or in this list', And(c.args[1].off == 0, Or(nd == 0, And(ls.isnode(c.old, nd), ls.O(c.old, nd) == L))))]

    def modifies(self, c):
        ls = self.L_(c)
        L = c.args[0].obj
        out = self.hdr(c, ls, L) + self.links(c, ls, lambda o: ls.O(c.old, o) == L)
        if self.free_:
            nd = c.args[1].obj
            out.append(FamRegion(ls.K, 'alive', 0, lambda o: o == nd))
        return out

    def ghost(self, c):
        ls = self.L_(c)
        L = c.args[0].obj
        nd = self.node(c, ls)
        return del_ghost(ls, c.old, c.new, L, ls.P(c.old, nd), nd, nd != 0)

    def ens(self, c, ls, L):
        nd = self.node(c, ls)
        n = ls.n(c.old, L)
        out = [('count drops by exactly one', ls.n(c.new, L) == ite(nd != 0, n - 1, n))]
        if self.which in ('Pop', 'Shift'):
            out.append(('returns the end node or null when empty', And(c.ret.off == 0, c.ret.obj == nd)))
        else:
            out.append(('reports whether a node was given', c.ret == (nd != 0)))
        if self.free_:
            out.append(('the node is released and nothing else', FA(64, lambda o: c.new.m['alive'].read(o, bv(0)) == ite(And(o == nd, nd != 0), bv(0, 1), c.old.m['alive'].read(o, bv(0))), pat=lambda o: [c.new.m['alive'].read(o, bv(0))])))
        else:
            out.append(('detached node has no neighbours left and is kept', Implies(nd != 0, And(ls.nx(c.new, nd) == 0, ls.pv(c.new, nd) == 0, c.new.alive(nd)))))
        return out


class EmptyC(ListC):
    short = 'Empty'
    auto = False
    ghost_classes = ('gS', 'gP', 'gO')

    def __init__(self, cname):
        self.cname = cname

    def modifies(self, c):
        ls = self.L_(c)
        L = c.args[0].obj
        g = lambda o: ls.O(c.old, o) == L
        return self.hdr(c, ls, L) + self.links(c, ls, g) + [FamRegion(ls.K, 'alive', 0, g)]

    def ghost(self, c):
        ls = self.L_(c)
        L = c.args[0].obj
        m = c.new
        m = lam(m, 'gO', lambda o, f: ite(c.old.m['gO'].read(o, f) == L, bv(0), c.old.m['gO'].read(o, f)))
        m = lam(m, 'gS', c.old.m['gS'].read)
        return lam(m, 'gP', c.old.m['gP'].read)

    def ens(self, c, ls, L):
        A = lambda m, o: m.m['alive'].read(o, bv(0))
        return [('list is empty', ls.n(c.new, L) == 0),
                ('exactly the former elements are released', FA(64, lambda o: A(c.new, o) == ite(ls.O(c.old, o) == L, bv(0, 1), A(c.old, o)), pat=lambda o: [A(c.new, o)]))]

    def measures(self, x, LI):
        c = x.ctx
        ls, L = self.L_(c), c.args[0].obj
        return [('count', lambda w: ls.n(w.mem, L))]

    def inv(self, c, LI):
        return empty_inv(c, self.L_(c), c.args[0].obj, LI)


def empty_inv(c, ls, L, LI):
    """elements are removed from the front: j = count at entry - count"""
    x = c.x
    A = lambda m, o: m.m['alive'].read(o, bv(0))
    out = [('wf: ' + nm, lambda w, k=k: ls.wf(w.mem, L)[k][1]) for k, (nm, _) in enumerate(ls.wf(c.old, L))]

    out += [
        ('count not above entry', lambda w: ULE(ls.n(w.mem, L), ls.n(w.entry.mem, L))),
        ('owner shrinks', lambda w: FA(64, lambda o: Or(ls.O(w.mem, o) == ls.O(w.entry.mem, o), And(ls.O(w.entry.mem, o) == L, ls.O(w.mem, o) == 0)), pat=lambda o: [ls.O(w.mem, o)])),
        ('alive', lambda w: FA(64, lambda o: A(w.mem, o) == ite(And(ls.O(w.entry.mem, o) == L, ls.O(w.mem, o) != L), bv(0, 1), A(w.entry.mem, o)), pat=lambda o: [A(w.mem, o)])),
    ]
    # other list objects keep their sequences
    for oid, o in list(x.objs.items()):
        if o.kind.name == 'list' and oid != num(L):
            out.append(('other list seq', lambda w, q=bv(oid): FA(64, lambda i: ls.S(w.mem, q, i) == ls.S(w.entry.mem, q, i), pat=lambda i: [ls.S(w.mem, q, i)])))
    return out


def same_seq(ls, m0, m1, T, q=lambda f: f):
    """list T has the same nodes in m1 as in m0"""
    return [('count', ls.n(m1, T) == ls.n(m0, T)), ('nodes', FA(64, lambda i: Implies(ULT(i, ls.n(m0, T)), ls.S(m1, T, i) == ls.S(m0, T, i)), pat=lambda i: [ls.S(m1, T, i)])),
            ('values', FA(64, lambda i: Implies(ULT(i, ls.n(m0, T)), ls.v(m1, ls.S(m0, T, i)) == ls.v(m0, ls.S(m0, T, i))), pat=lambda i: [ls.S(m0, T, i)]))]


class CtorC(ListC):
    """constructors: the object starts unconstructed (no node belongs to it)"""
    ghost_classes = ('gS', 'gP', 'gO')
    auto = False

    def __init__(self, which, cname):
        self.which, self.cname = which, cname
        self.short = 'constructor-' + which
        self.allocates = which != 'plain'

    def more(self, x, st, f, args):
        if self.which == 'value':
            args.append(bvar('Value'))
        if self.which == 'copy':
            args.append(x.param_obj(st, 'TempList', 'list').ptr())

    def requires(self, c):
        ls, L = self.L_(c), c.args[0].obj
        out = [('list object', And(c.x.kindf(L) == c.x.kinds['list'].id, c.old.alive(L), L != 0)), ('no node belongs to the unconstructed list', FA(64, lambda o: ls.O(c.old, o) != L, pat=lambda o: [ls.O(c.old, o)]))]
        if self.which == 'copy':
            T = c.args[1].obj
            out += [('source well formed: ' + n, g) for n, g in ls.wf(c.old, T)] + [('room', ULT(ls.n(c.old, T), MAXN)), ('source is a list', And(T != 0, T != L, c.x.kindf(T) == c.x.kinds['list'].id, c.old.alive(T)))]
        return out

    def modifies(self, c):
        ls, L = self.L_(c), c.args[0].obj
        return self.hdr(c, ls, L)

    def ens(self, c, ls, L):
        if self.which == 'plain':
            return [('a new list is empty', ls.n(c.new, L) == 0)]
        if self.which == 'value':
            return [('a list of one value', And(ls.n(c.new, L) == 1, ls.v(c.new, ls.S(c.new, L, bv(0))) == c.args[1]))]
        T = c.args[1].obj
        return copied(ls, c.old, c.new, L, T)

    def measures(self, x, LI):
        c = x.ctx
        ls, L, T = self.L_(c), c.args[0].obj, c.args[1].obj
        return [('to come', lambda w: ls.n(w.mem, T) - ls.n(w.mem, L))]

    def inv(self, c, LI):
        if self.which != 'copy':
            return []
        return copy_inv(c, self.L_(c), c.args[0].obj, c.args[1].obj, LI)


def copied(ls, old, new, L, T):
    out = [('equally long', ls.n(new, L) == ls.n(old, T)), ('equal values in order', FA(64, lambda i: Implies(ULT(i, ls.n(old, T)), ls.v(new, ls.S(new, L, i)) == ls.v(old, ls.S(old, T, i))), pat=lambda i: [ls.S(new, L, i)]))]
    out += [('source unchanged: ' + n, g) for n, g in same_seq(ls, old, new, T)] + [('source stays well formed: ' + n, g) for n, g in ls.wf(new, T)]
    return out


def copy_inv(c, ls, L, T, LI):
    A0 = lambda o: c.old.m['alive'].read(o, bv(0)) == 1
    out = [('wf: ' + nm, lambda w, k=k: ls.wf(w.mem, L)[k][1]) for k, (nm, _) in enumerate(ls.wf(c.old, L))]
    out += [('source wf: ' + nm, lambda w, k=k: ls.wf(w.mem, T)[k][1]) for k, (nm, _) in enumerate(ls.wf(c.old, T))]
    out += [('source ' + nm, lambda w, k=k: same_seq(ls, w.entry.mem, w.mem, T)[k][1]) for k, (nm, _) in enumerate(same_seq(ls, c.old, c.old, T))]
    out += [('own nodes are new', lambda w: FA(64, lambda o: Implies(ls.O(w.mem, o) == L, Or(Not(A0(o)), ls.O(c.old, o) == L)), pat=lambda o: [ls.O(w.mem, o)]))]
    out += [('no more than the source', lambda w: ULE(ls.n(w.mem, L), ls.n(w.mem, T))),
            ('values so far', lambda w: FA(64, lambda i: Implies(ULT(i, ls.n(w.mem, L)), ls.v(w.mem, ls.S(w.mem, L, i)) == ls.v(w.mem, ls.S(w.mem, T, i))), pat=lambda i: [ls.S(w.mem, L, i)]))]
    for k, v in LI.head.vals.items():
        if isinstance(v, Ptr) and isinstance(k, str):
            out.append(('next of the source %s' % (k,), lambda w, k=k: And(w[k].off == 0, w[k].obj == ite(ULT(ls.n(w.mem, L), ls.n(w.mem, T)), ls.S(w.mem, T, ls.n(w.mem, L)), bv(0)))))
    return out


class AssignC(ListC):
    ghost_classes = ('gS', 'gP', 'gO')
    short = 'operator='
    allocates = True
    auto = False

    def __init__(self, cname, selfa):
        self.cname, self.selfa = cname, selfa

    def more(self, x, st, f, args):
        args.append(args[0] if self.selfa else x.param_obj(st, 'TempList', 'list').ptr())

    def req(self, c, ls, L):
        T = c.args[1].obj
        if self.selfa:
            return []
        return [('source well formed: ' + n, g) for n, g in ls.wf(c.old, T)] + [('room', ULT(ls.n(c.old, T), MAXN)), ('source is a list', And(T != 0, T != L, c.x.kindf(T) == c.x.kinds['list'].id, c.old.alive(T)))]

    def modifies(self, c):
        if self.selfa:
            return []
        ls, L = self.L_(c), c.args[0].obj
        g = lambda o: ls.O(c.old, o) == L
        return self.hdr(c, ls, L) + self.links(c, ls, g) + [FamRegion(ls.K, 'alive', 0, g)]

    def ens(self, c, ls, L):
        T = c.args[1].obj
        out = [('returns the list', c.ret.eq(c.args[0]))]
        return out + (([('unchanged: ' + n, g) for n, g in same_seq(ls, c.old, c.new, L)]) if self.selfa else copied(ls, c.old, c.new, L, T))

    def measures(self, x, LI):
        c = x.ctx
        ls, L, T = self.L_(c), c.args[0].obj, c.args[1].obj
        return [('to come', lambda w: ls.n(w.mem, T) - ls.n(w.mem, L))]

    def inv(self, c, LI):
        if self.selfa:
            return []
        return copy_inv(c, self.L_(c), c.args[0].obj, c.args[1].obj, LI)


class DtorC(EmptyC):
    short = 'destructor'

    def inv(self, c, LI):
        return []


class AppendAllC(ListC):
    short = 'DetachAllAndAppend'
    ghost_classes = ('gS', 'gP', 'gO')

    def __init__(self, cname):
        self.cname = cname

    def more(self, x, st, f, args):
        args.append(x.param_obj(st, 'TempList', 'list').ptr())

    def req(self, c, ls, L):
        T = c.args[1].obj
        return [('source well formed: ' + n, g) for n, g in ls.wf(c.old, T)] + [('room', ULE(ls.n(c.old, T), MAXN - ls.n(c.old, L))), ('source is another list', And(T != 0, T != L, c.x.kindf(T) == c.x.kinds['list'].id, c.old.alive(T)))]

    def modifies(self, c):
        ls, L, T = self.L_(c), c.args[0].obj, c.args[1].obj
        return self.hdr(c, ls, L) + self.hdr(c, ls, T) + self.links(c, ls, lambda o: Or(ls.O(c.old, o) == L, ls.O(c.old, o) == T))

    def ghost(self, c):
        ls, L, T = self.L_(c), c.args[0].obj, c.args[1].obj
        n = ls.n(c.old, L)
        R = lambda k: c.old.m[k].read

        def gS(o, i):
            e = eq(o, L)
            b = R('gS')(o, i)
            return b if is_false(e) else ite(e, ite(ULT(i, n), b, R('gS')(T, i - n)), b)
        m = lam(c.new, 'gS', gS)
        m = lam(m, 'gP', lambda o, f: ite(ls.O(c.old, o) == T, R('gP')(o, f) + n, R('gP')(o, f)))
        return lam(m, 'gO', lambda o, f: ite(R('gO')(o, f) == T, L, R('gO')(o, f)))

    def ens(self, c, ls, L):
        T = c.args[1].obj
        return [('all elements are here', ls.n(c.new, L) == ls.n(c.old, L) + ls.n(c.old, T)), ('the source is empty', And(ls.n(c.new, T) == 0, ls.fst(c.new, T) == 0, ls.lst(c.new, T) == 0)),
                ('source well formed', And(*[g for n, g in ls.wf(c.new, T) if not isinstance(g, FA)]))]


class NodeC(Contract):
    """CreateNode([value])"""
    classes = CL
    allocates = True

    def __init__(self, withv, cname):
        self.withv, self.cname = withv, cname
        self.short = 'CreateNode'

    def init(self, x):
        self.ls = LS(x, self.cname)

    def setup(self, x, st, f):
        return [x.param_obj(st, 'Value', 'cell').ptr()] if self.withv else []

    def modifies(self, c):
        return []

    def ensures(self, c):
        ls, m, r = self.ls, c.new, c.ret
        out = [('a fresh detached node', And(r.off == 0, r.obj != 0, Not(c.old.alive(r.obj)), m.alive(r.obj), c.x.kindf(r.obj) == ls.K.id, ls.nx(m, r.obj) == 0, ls.pv(m, r.obj) == 0))]
        if self.withv:
            out.append(('holding the value', ls.v(m, r.obj) == c.old.u64(c.args[0])))
        return out


class GetC(ListC):
    def __init__(self, which, cname):
        self.which, self.cname, self.short = which, cname, which

    def modifies(self, c):
        return []

    def ens(self, c, ls, L):
        n = ls.n(c.old, L)
        if self.which == 'GetSize':
            return [('the number of elements', c.ret == n)]
        return [('the %s element or null' % self.which.lower(), And(c.ret.off == 0, c.ret.obj == ite(n == 0, bv(0), ls.S(c.old, L, bv(0) if self.which == 'First' else n - 1))))]
