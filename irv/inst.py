"""Quantifier instantiation outside the solver.

Universally quantified facts are instantiated at ground terms that (leniently) match their triggers; the
resulting quantifier-free query goes to z3's bit-vector pipeline, which is much faster on address
arithmetic than its quantifier core.  Instances of universal facts are always sound; a failure to refute
proves nothing and is reported as unknown.
"""
import z3


def apps_of(t, idx, seen, order):
    """index ground UF applications by declaration"""
    stk = [t]
    while stk:
        e = stk.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen[i] = e
        if z3.is_quantifier(e) or z3.is_var(e):
            continue
        n = e.num_args()
        if n and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            idx.setdefault(e.decl().get_id(), []).append(e)
        for k in range(n):
            stk.append(e.arg(k))


def quantified(t, memo):
    i = t.get_id()
    if i in memo:
        return memo[i][0]
    if z3.is_quantifier(t):
        r = True
    else:
        r = any(quantified(c, memo) for c in t.children())
    memo[i] = (r, t)
    return r


def hasvar(t, memo):
    i = t.get_id()
    if i in memo:
        return memo[i][0]
    r = z3.is_var(t) or any(hasvar(c, memo) for c in t.children())
    memo[i] = (r, t)
    return r


class Inst:
    def __init__(self, fs, cap=900):
        self.ground, self.quants = [], []
        self.memo, self.vm = {}, {}
        self.cap = cap
        for f in fs:
            self.add(f, [])
        self.idx, self.seen = {}, {}
        for g in self.ground:
            apps_of(g, self.idx, self.seen, None)
        self.done = set()
        self.base = None

    def add(self, f, guard):
        if not quantified(f, self.memo):
            self.ground.append(z3.Implies(z3.And(*guard), f) if guard else f)
        elif z3.is_quantifier(f):
            if f.is_forall():
                self.quants.append((guard, f))
        elif z3.is_and(f):
            for c in f.children():
                self.add(c, guard)
        elif z3.is_implies(f) and not quantified(f.arg(0), self.memo):
            self.add(f.arg(1), guard + [f.arg(0)])

    def match(self, p, g, b):
        """lenient matching: ground parts of the trigger only fail on different numerals"""
        if z3.is_var(p):
            k = z3.get_var_index(p)
            if k in b:
                return b[k].get_id() == g.get_id()
            b[k] = g
            return True
        if not hasvar(p, self.vm):
            if z3.is_bv_value(p) and z3.is_bv_value(g):
                return p.as_long() == g.as_long()
            return True
        if z3.is_app(g) and g.num_args() == p.num_args() and g.decl().get_id() == p.decl().get_id():
            return all(self.match(p.arg(k), g.arg(k), b) for k in range(p.num_args()))
        # x + const patterns
        if p.decl().kind() == z3.Z3_OP_BADD and p.num_args() == 2:
            for k in (0, 1):
                v, o = p.arg(k), p.arg(1 - k)
                if z3.is_var(v) and not hasvar(o, self.vm):
                    return self.match(v, z3.simplify(g - o), b)
        return False

    def inst_round(self, idx, done, budget):
        out = []
        for qi, (guard, q) in enumerate(self.quants):
            nv = q.num_vars()
            cnt = 0
            for pi in range(q.num_patterns()):
                mp = q.pattern(pi)
                binds = [{}]
                for c in mp.children():
                    cand = idx.get(c.decl().get_id(), ())
                    nb = []
                    for b in binds:
                        for g in cand:
                            b2 = dict(b)
                            if self.match(c, g, b2):
                                nb.append(b2)
                            if len(nb) > 200:
                                break
                    binds = nb
                for b in binds:
                    if len(b) != nv:
                        continue
                    # variable index k (de Bruijn): innermost last
                    args = [b[k] for k in range(nv)]
                    key = (qi,) + tuple(a.get_id() for a in args)
                    if key in done:
                        continue
                    done[key] = args
                    body = z3.substitute_vars(q.body(), *args)
                    if quantified(body, self.memo):
                        continue
                    out.append(z3.Implies(z3.And(*guard), body) if guard else body)
                    cnt += 1
                    if len(out) >= budget or cnt > 150:
                        return out
        return out

    def check(self, goal, rlimit=None, timeout=None, rounds=3):
        s = z3.Solver()
        if rlimit:
            s.set('rlimit', rlimit)
        if timeout:
            s.set('timeout', timeout)
        ng = z3.Not(goal)
        for g in self.ground:
            s.add(g)
        s.add(ng)
        idx = {k: list(v) for k, v in self.idx.items()}
        seen = dict(self.seen)
        apps_of(ng, idx, seen, None)
        done = {}
        left = self.cap
        if self.quants:
            for r in range(rounds):
                new = self.inst_round(idx, done, left)
                if not new:
                    break
                for f in new:
                    s.add(f)
                    apps_of(f, idx, seen, None)
                left -= len(new)
                if left <= 0:
                    break
        r = s.check()
        if r == z3.unsat:
            return 'unsat', s
        if r == z3.sat and not self.quants:
            return 'sat', s
        return 'unknown', s
