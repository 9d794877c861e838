"""Discharging obligations: Houdini invariant selection, SMT back ends (z3, cvc5), parallel by fork."""
import os, pickle, time, sys, traceback, signal, select
import z3
from .mem import *
from .ir import Unsupported, materialize
from .sym import *
from .inst import Inst

NPROC = int(os.environ.get('IRV_JOBS', '8'))
Z3_BIN = None
DEADLINE = None       # absolute time after which nothing more is tried
MAXFAIL = 4           # failed obligations per function after which the rest is skipped


def left():
    return 1e9 if DEADLINE is None else DEADLINE - time.time()


class Budget(Exception):
    pass


def formulas(facts, active):
    out = []
    for kind, f, tag in facts.path():
        if tag is not None and isinstance(tag, tuple) and tag not in active:
            continue
        out.append(f)
    return out


def mk_solver(rlimit=None, timeout=None, seed=0, qi=True):
    s = z3.Solver()
    s.set('auto_config', False)
    s.set('mbqi', False)
    if seed:
        s.set('random_seed', seed)
    if rlimit:
        s.set('rlimit', rlimit)
    if timeout:
        s.set('timeout', timeout)
    return s


def pmap(fn, items, jobs=None):
    """fork-based map; fn(item)-> picklable"""
    jobs = jobs or NPROC
    n = len(items)
    if n == 0:
        return []
    if n == 1 or jobs == 1:
        return [fn(x) for x in items]
    res = [None] * n
    sys.stdout.flush()
    sys.stderr.flush()
    # one fresh child per item: the solver state of an item does not depend on scheduling
    run = {}      # fd -> (pid, index, buffer)
    nxt = 0
    while nxt < n or run:
        while nxt < n and len(run) < jobs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for fd in run:
                        os.close(fd)
                    try:
                        v = fn(items[nxt])
                    except BaseException as e:
                        v = ('exc', repr(e) + traceback.format_exc()[-600:])
                    with os.fdopen(w, 'wb') as fo:
                        pickle.dump(v, fo)
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (pid, nxt, [])
            nxt += 1
        rs, _, _ = select.select(list(run), [], [])
        for r in rs:
            pid, i, buf = run[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del run[r]
            try:
                res[i] = pickle.loads(b''.join(buf))
            except Exception:
                res[i] = ('exc', 'worker died')
    return res


# ------------------------------------------------------------------ automatic candidates
def auto_cands(x, f, h, L):
    out = []
    head, ev = L.head, L.entryview
    scal = []      # (name, width, getter)
    for k, v in head.vals.items():
        nm = k[1:] if isinstance(k, str) else '%s.%s+%d' % (k[0], x.objs[k[1]].name if k[1] in x.objs else k[1], k[2])
        if isinstance(v, Ptr):
            e = ev[k]
            if num(v.obj) is None:
                out.append(('%s.obj unchanged' % nm, lambda w, k=k: eq(w[k].obj, w.entry[k].obj)))
                if num(e.off) is not None or True:
                    pass
            if num(v.off) is None:
                scal.append((nm + '.off', 64, lambda w, k=k: w[k].off))
            if num(v.off) is None:
                out.append(('%s.off==0' % nm, lambda w, k=k: eq(w[k].off, bv(0))))
            oid = num(v.obj)
            if oid in x.objs and num(v.off) is None:
                sz, es = x.objs[oid].size, x.objs[oid].kind.esz
                out.append(('%s within object' % nm, lambda w, k=k, sz=sz: z3.ULE(w[k].off, sz)))
                out.append(('%s inside object' % nm, lambda w, k=k, sz=sz: z3.ULT(w[k].off, sz)))
                if es and es > 1 and es & (es - 1) == 0:
                    out.append(('%s aligned' % nm, lambda w, k=k, es=es: (w[k].off & bv(es - 1)) == 0))
        elif z3.is_bv(v):
            scal.append((nm, v.size(), lambda w, k=k: w[k]))
        elif z3.is_bool(v):
            out.append(('%s unchanged' % nm, lambda w, k=k: w[k] == w.entry[k]))
            out.append(('%s' % nm, lambda w, k=k: w[k]))
            out.append(('!%s' % nm, lambda w, k=k: Not(w[k])))
    refs = list(x.refs)
    for nm, wd, g in scal:
        e = lambda w, g=g: g(w.entry)
        out.append(('%s==entry' % nm, lambda w, g=g, e=e: eq(g(w), e(w))))
        out.append(('%s>=entry' % nm, lambda w, g=g, e=e: z3.UGE(g(w), e(w))))
        out.append(('%s<=entry' % nm, lambda w, g=g, e=e: z3.ULE(g(w), e(w))))
        if wd == 32:
            out.append(('%s s>= 0' % nm, lambda w, g=g: g(w) >= 0))
        out.append(('%s!=0' % nm, lambda w, g=g: g(w) != 0))
        for rn, rt in refs:
            if rt.size() == wd:
                out.append(('%s<=%s' % (nm, rn), lambda w, g=g, rt=rt: z3.ULE(g(w), rt)))
                out.append(('%s>=%s' % (nm, rn), lambda w, g=g, rt=rt: z3.UGE(g(w), rt)))
                out.append(('%s<%s' % (nm, rn), lambda w, g=g, rt=rt: z3.ULT(g(w), rt)))
    for a in range(len(scal)):
        for b in range(len(scal)):
            if a == b or scal[a][1] != scal[b][1]:
                continue
            n1, wd, g1 = scal[a]
            n2, _, g2 = scal[b]
            if a < b:
                out.append(('d%s==d%s' % (n1, n2), lambda w, g1=g1, g2=g2: g1(w) - g1(w.entry) == g2(w) - g2(w.entry)))
                out.append(('d%s==-d%s' % (n1, n2), lambda w, g1=g1, g2=g2: g1(w) - g1(w.entry) == g2(w.entry) - g2(w)))
                out.append(('%s==%s' % (n1, n2), lambda w, g1=g1, g2=g2: g1(w) == g2(w)))
            out.append(('%s<=%s' % (n1, n2), lambda w, g1=g1, g2=g2: z3.ULE(g1(w), g2(w))))
            for sc in (2, 4, 8):
                out.append(('d%s==%d*d%s' % (n1, sc, n2), lambda w, g1=g1, g2=g2, sc=sc: g1(w) - g1(w.entry) == (g2(w) - g2(w.entry)) * sc))
    L.scal = scal
    return out


# ------------------------------------------------------------------ checks
class Cfg2:
    houdini_rlimit = 4000000
    timeout = 30000
    retries = 4
    first = 6000


def check_goal(facts, active, goal, timeout, seed=0, rlimit=None):
    s = mk_solver(timeout=timeout, seed=seed, rlimit=rlimit)
    for f in formulas(facts, active):
        s.add(f)
    s.add(z3.Not(goal) if z3.is_expr(goal) else z3.BoolVal(not goal))
    r = s.check()
    return r, s


def has_quant(fs):
    seen = set()
    stk = list(fs)
    while stk:
        t = stk.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        stk += t.children()
    return False


def cvc5_check(s, timeout_ms, opts=('--full-saturate-quant',)):
    """second back end: cvc5 on the same query in SMT-LIB form"""
    import subprocess
    try:
        txt = '(set-logic ALL)\n' + s.to_smt2()
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout_ms, '-q'] + list(opts), input=txt, capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        return r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'


class Report:
    def __init__(self, fn):
        self.fn = fn
        self.obls = []
        self.failed = []
        self.error = None
        self.invs = []
        self.time = 0
        self.solver_time = 0
        self.notes = []
        self.vacuous = False
        self.backends = {}
        self.nloops = 0
        self.cands = 0


def houdini(x, rep, log=None):
    """greatest inductive subset of the candidate invariants"""
    active = set()
    for L in x.loops:
        for cid in range(len(L.cands)):
            active.add((L.id, cid))
    if not active:
        return active
    # group checks by facts node
    groups = {}
    for L in x.loops:
        for cid, facts, g in L.entry:
            groups.setdefault(id(facts), (facts, []))[1].append(((L.id, cid), g))
        for cid, facts, g in L.latch:
            groups.setdefault(id(facts), (facts, []))[1].append(((L.id, cid), g))
    glist = list(groups.values())
    # prepare goals (skolemised once)
    prepared = []
    for facts, lst in glist:
        pl = []
        for key, g in lst:
            gs = split_goal(g)
            pl.append((key, And(*gs)))
        prepared.append((facts, pl))
    rounds = 0
    dirty = set(range(len(prepared)))
    used = {}
    while True:
        rounds += 1

        def work(gi):
            if left() < 0:
                return ('budget',)
            facts, pl = prepared[gi]
            todo = [(k, g) for k, g in pl if k in active]
            drop = []
            s = mk_solver(rlimit=Cfg2.houdini_rlimit * x.opts.get('hrl', 1))
            for f in formulas(facts, active):
                s.add(f)
            if x.opts.get('inst') and todo:
                I = Inst(formulas(facts, active))
                rl = Cfg2.houdini_rlimit * x.opts.get('hrl', 1)
                t2 = []
                for k, g in todo:
                    tq = time.time()
                    if x.opts.get('intfirst'):
                        ok = I.check(g, rlimit=rl // 8)
                        if ok[0] != 'unsat' and cvc5_check(ok[1], 60000, ('--solve-bv-as-int=sum', '--rlimit=400000')) == 'unsat':
                            ok = ('unsat',)
                    else:
                        ok = I.check(g, rlimit=rl)
                    if os.environ.get('IRV_TIME') and time.time() - tq > float(os.environ['IRV_TIME']):
                        print('  houdini group %d %s %s %.1fs' % (gi, x.loops[k[0]].cands[k[1]][0], ok[0], time.time() - tq), flush=True)
                    if ok[0] != 'unsat':
                        t2.append((k, g))
                todo = t2
            # disjunctive filtering with models
            while todo:
                s.push()
                s.add(z3.Not(And(*[g for _, g in todo])))
                r = s.check()
                if r == z3.unsat:
                    s.pop()
                    break
                if r == z3.sat:
                    m = s.model()
                    bad = [(k, g) for k, g in todo if z3.is_false(m.eval(g, model_completion=True))]
                    s.pop()
                    if not bad:
                        break_all = True
                        r = z3.unknown
                    else:
                        drop += [k for k, _ in bad]
                        bk = set(k for k, _ in bad)
                        todo = [(k, g) for k, g in todo if k not in bk]
                        continue
                else:
                    # try the candidate model first
                    bad = []
                    s.pop()
                # individual
                I = Inst(formulas(facts, active))
                for k, g in list(todo):
                    if I.check(g, rlimit=Cfg2.houdini_rlimit * x.opts.get('hrl', 1))[0] == 'unsat':
                        continue
                    s.push()
                    s.add(z3.Not(g))
                    r = s.check()
                    s.pop()
                    if r != z3.unsat:
                        # fresh solver, more resources
                        s2 = mk_solver(rlimit=Cfg2.houdini_rlimit * 3 * x.opts.get('hrl', 1), seed=7)
                        for f in formulas(facts, active):
                            s2.add(f)
                        s2.add(z3.Not(g))
                        if r == z3.sat or s2.check() != z3.unsat:
                            drop.append(k)
                            if os.environ.get('IRV_HDUMP') and os.environ['IRV_HDUMP'] in x.loops[k[0]].cands[k[1]][0]:
                                rr, ss = I.check(g, rlimit=2000000)
                                open('/tmp/hdump_%d_%d.smt2' % (gi, k[1]), 'w').write('; %s\n' % rr + ss.to_smt2())
                break
            return drop

        gl = sorted(dirty)
        res = pmap(work, gl)
        dropped = set()
        for r in res:
            if isinstance(r, tuple) and r and r[0] == 'budget':
                raise Budget()
            if isinstance(r, tuple) and r and r[0] == 'exc':
                raise RuntimeError(r[1])
            dropped |= set(r)
        if os.environ.get('IRV_HLOG'):
            for gi, r in zip(gl, res):
                for k in r:
                    print('   houdini round %d group %d drops #%d %s [%s]' % (rounds, gi, k[1], x.loops[k[0]].cands[k[1]][0], x.loops[k[0]].where))
        if not dropped:
            break
        active -= dropped
        # groups whose facts mention dropped invariants must be re-checked
        dirty = set()
        for gi, (facts, pl) in enumerate(prepared):
            tags = set(t for _, _, t in facts.path() if isinstance(t, tuple))
            if tags & dropped:
                dirty.add(gi)
        if not dirty:
            break
        if rounds > 60:
            raise Unsupported('Houdini does not converge')
    rep.cands = sum(len(L.cands) for L in x.loops)
    rep.invs = [(x.loops[l].where, x.loops[l].cands[c][0]) for l, c in sorted(active)]
    rep.rounds = rounds
    return active


def discharge(x, active, rep, timeout=None, want_model=True):
    timeout = timeout or Cfg2.timeout
    todo = [o for o in x.obls if o.status is None]
    # identical (facts, goal) pairs
    # fast batch: group by facts node
    groups = {}
    for i, o in enumerate(todo):
        groups.setdefault(id(o.facts), []).append(i)
    items = list(groups.values())
    # split big groups
    its = []
    for g in items:
        for k in range(0, len(g), 12):
            its.append(g[k:k + 12])

    def work(g):
        t0 = time.time()
        out = []
        if left() < 0:
            return [(i, 'budget', '', 0, None) for i in g]
        s = mk_solver(timeout=min(timeout, x.opts.get('first', 1500)))
        for f in formulas(todo[g[0]].facts, active):
            s.add(f)
        nf = 0
        I = None
        for i in g:
            t1 = time.time()
            if left() < 0 or nf >= MAXFAIL:
                out.append((i, 'budget' if left() < 0 else 'skipped', '', 0, None))
                continue
            if os.environ.get('IRV_DUMP') and os.environ['IRV_DUMP'] in todo[i].name:
                gs = Inst(formulas(todo[i].facts, active)).check(todo[i].goal, timeout=10)[1]
                open('/tmp/dump_%d.smt2' % i, 'w').write('(set-logic ALL)\n' + gs.to_smt2())
            if x.opts.get('fresh'):
                ft = x.opts['fresh'] if x.opts['fresh'] is not True else Cfg2.first
                r2, s2 = check_goal(todo[i].facts, active, todo[i].goal, min(timeout, ft), 0)
                if r2 == z3.unsat:
                    out.append((i, 'unsat', 'z3', time.time() - t1, None))
                    continue
            if x.opts.get('intfirst'):
                if I is None:
                    I = Inst(formulas(todo[i].facts, active))
                if cvc5_check(I.check(todo[i].goal, timeout=300)[1], x.opts['intfirst'], ('--solve-bv-as-int=sum',)) == 'unsat':
                    out.append((i, 'unsat', 'cvc5 (integers)', time.time() - t1, None))
                    continue
            if x.opts.get('inst'):
                if I is None:
                    I = Inst(formulas(todo[i].facts, active))
                if I.check(todo[i].goal, timeout=min(timeout, Cfg2.first))[0] == 'unsat':
                    out.append((i, 'unsat', 'z3 (ground instances)', time.time() - t1, None))
                    continue
            s.push()
            s.add(z3.Not(todo[i].goal))
            r = s.check()
            st, sv, mdl = str(r), 'z3', None
            if r != z3.unsat:
                if want_model:
                    try:
                        mdl = model_text(x, s.model())
                    except z3.Z3Exception:
                        mdl = s.reason_unknown()
                s.pop()
                if r == z3.unknown:
                    if I is None:
                        I = Inst(formulas(todo[i].facts, active))
                    if x.opts.get('bvint'):
                        if cvc5_check(I.check(todo[i].goal, timeout=1000)[1], 20000, ('--solve-bv-as-int=sum',)) == 'unsat':
                            out.append((i, 'unsat', 'cvc5 (integers)', time.time() - t1, None))
                            continue
                    if I.check(todo[i].goal, timeout=min(timeout, Cfg2.first))[0] == 'unsat':
                        out.append((i, 'unsat', 'z3 (ground instances)', time.time() - t1, None))
                        continue
                    for seed in range(0, 1 + Cfg2.retries):
                        if left() < 0:
                            break
                        r2, s2 = check_goal(todo[i].facts, active, todo[i].goal, min(timeout, Cfg2.first * (1 if seed < 3 else 4)), seed * 17)
                        if r2 != z3.unknown:
                            st, sv = str(r2), 'z3 (seed %d)' % (seed * 17)
                            if r2 == z3.sat:
                                mdl = model_text(x, s2.model())
                            break
                    if left() < 0 and st == 'unknown':
                        st = 'budget'
                    if st == 'unknown':
                        r3 = cvc5_check(s2, timeout)
                        if r3 == 'unsat':
                            st, sv = 'unsat', 'cvc5'
                if st != 'unsat':
                    nf += 1
            else:
                s.pop()
            out.append((i, st, sv, time.time() - t1, mdl))
            if os.environ.get('IRV_TIME') and st != 'unsat':
                print('  %.1fs %s %s' % (time.time() - t1, st, todo[i].name), flush=True)
        return out

    res = pmap(work, its)
    for r in res:
        if isinstance(r, tuple) and r and r[0] == 'exc':
            raise RuntimeError(r[1])
        for i, st, sv, tm, mdl in r:
            o = todo[i]
            o.status = 'proved' if st == 'unsat' else ('refuted' if st == 'sat' else st)
            o.solver, o.time, o.model = sv, tm, mdl
            if os.environ.get('IRV_TIME') and tm > float(os.environ['IRV_TIME']):
                print('  %.1fs %s %s [%s] %s @ %s' % (tm, o.status, sv, o.kind, o.name if hasattr(o, 'name') else '', getattr(o, 'where', '')), flush=True)
            rep.solver_time += tm
            rep.backends[sv] = rep.backends.get(sv, 0) + 1


def model_text(x, m):
    d = {}
    for nm, t in getattr(x, 'watch', []):
        try:
            d[nm] = str(m.eval(t, model_completion=True))
        except Exception:
            pass
    return d


def check_termination(x, active, rep, extra=None, skip=None):
    """for every loop: some measure strictly decreases (unsigned) on every back edge"""
    for L in x.loops:
        if not L.latchview:
            continue
        if skip and skip(L):
            rep.notes.append('termination of the loop at %s not claimed' % L.where)
            continue
        ms = []
        if extra:
            ms += extra(x, L)
        nex = len(ms)
        for k, v in (L.head.vals.items() if getattr(L, 'scal', None) is not None else ()):
            if isinstance(v, Ptr) and num(v.obj) in x.objs and num(v.off) is None:
                ms.append(('size-%s' % str(k), lambda w, k=k, sz=x.objs[num(v.obj)].size: sz - w[k].off))
        for nm, wd, g in getattr(L, 'scal', []):
            ms.append((nm, g))
            for rn, rt in x.refs:
                if rt.size() == wd:
                    ms.append(('%s-%s' % (rn, nm), lambda w, g=g, rt=rt: rt - g(w)))
            ms.append(('entry-' + nm, lambda w, g=g: g(w.entry) - g(w)))
            ms.append(('-' + nm, lambda w, g=g: -g(w)))
            for n2, w2, g2 in L.scal:
                if n2 != nm and w2 == wd:
                    ms.append(('%s-%s' % (n2, nm), lambda w, g=g, g2=g2: g2(w) - g(w)))

        def work(mi, L=L):
            nm, g = ms[mi]
            rl = Cfg2.houdini_rlimit * x.opts.get('hrl', 1) * (8 if mi < nex else 1)
            for facts, v in L.latchview:
                try:
                    goal = z3.ULT(g(v), g(L.head))
                except Exception:
                    return False
                s = mk_solver(rlimit=rl)
                for f in formulas(facts, active):
                    s.add(f)
                s.add(z3.Not(goal))
                if x.opts.get('inst') and Inst(formulas(facts, active)).check(goal, rlimit=rl)[0] == 'unsat':
                    continue
                if s.check() != z3.unsat and Inst(formulas(facts, active)).check(goal, rlimit=rl)[0] != 'unsat':
                    return False
            return True
        ok = None
        for k in range(0, len(ms), NPROC * 2):
            if left() < 0:
                raise Budget()
            rs = pmap(work, list(range(k, min(len(ms), k + NPROC * 2))))
            for j, r in enumerate(rs):
                if r is True:
                    ok = ms[k + j][0]
                    break
            if ok:
                break
        o = Obl('loop terminates (a measure decreases on every iteration)', 'termination', L.where, None, None, x.top)
        o.status = 'proved' if ok else 'unknown'
        o.solver = 'z3'
        o.model = None if ok else 'no decreasing measure found'
        if ok:
            rep.notes.append('variant at %s: %s' % (L.where, ok))
        x.obls.append(o)


def core_debug(fs, n):
    s = z3.Solver()
    s.set('core.minimize', True)
    ps = {}
    for k, g in enumerate(fs):
        p = z3.Bool('core!%d' % k)
        ps[str(p)] = g
        s.assert_and_track(g, p)
    s.set('timeout', 60000)
    print('CORE of cover', n, s.check())
    for p in s.unsat_core():
        print('   ', p, str(ps[str(p)])[:600])


def verify(M, fname, con, contracts, opts=None, builtins=None, terminate=True, timeout=None, verbose=False):
    """verify one function of the module against its contract"""
    t0 = time.time()
    rep = Report(fname)
    f = M.funcs.get(fname)
    x = Exec(M, {k: v for k, v in contracts.items() if k != fname or getattr(v, 'recursive', False)}, opts)
    if builtins:
        x.builtin.update(builtins)
    x.top = fname
    rep.x = x
    try:
        if f is None:
            raise Unsupported('function not found: ' + fname)
        materialize(M, f)
        for h in getattr(con, 'classes', ()):
            x.add_class(*h)
        if hasattr(con, 'init'):
            con.init(x)
        st = State(Facts(None, None), {}, None)
        st.mem = x.fresh_mem('M0')
        x.initmem = st.mem
        args = con.setup(x, st, f)
        x.initmem = st.mem
        init = st.mem
        c = CallCtx(x, args, st.mem, st=st)
        c.caller = False
        x.ctx = c
        con.prepare(c)
        for nm, g in con.requires(c):
            st.assume(g)
        mod = con.modifies(c)
        if mod is not None:
            x.modpred = lambda cl, obj, off: Or(*[r.has(x, cl, obj, off) for r in mod if cl in r.classes(x)])
        for n, (pn, t) in enumerate(f.params):
            v = args[n]
            if z3.is_bv(v) and v.size() in (32, 64):
                x.refs.append((pn[1:], v))
        x.refs += con.refs(c) if hasattr(con, 'refs') else []
        x.watch = []
        for n, (pn, t) in enumerate(f.params):
            v = args[n]
            if isinstance(v, Ptr):
                x.watch.append((pn + '.off', v.off))
                x.watch.append((pn + '.obj', v.obj))
            elif z3.is_expr(v):
                x.watch.append((pn, v))
        x.watch += con.watch(c) if hasattr(con, 'watch') else []

        def prov(x, f, h, L):
            cs = auto_cands(x, f, h, L) if getattr(con, 'auto', True) else []
            cs += con.inv(c, L)
            return cs
        x.inv_provider = prov
        entry_facts = st.facts
        rets = x.run(f, args, st)
        covers = []
        for s, v in rets:
            c2 = CallCtx(x, args, init, s.mem, v, st=s)
            c2.g = dict(c.g)
            c2.caller = False
            c2.verify = True
            con.bind_ret(c2) if getattr(con, 'bind_in_verify', False) else None
            x.fnstack.append(fname)
            c2.new = con.ghost(c2) or s.mem
            covers.append(s.facts)
            for nm, g in con.ensures(c2):
                x.oblige(s, g, nm, 'post', None, assume=getattr(con, 'assume_posts', False))
            x.fnstack.pop()
        active = houdini(x, rep)
        discharge(x, active, rep, timeout)
        if terminate and getattr(con, 'terminates', True):
            check_termination(x, active, rep, getattr(con, 'measures', None), getattr(con, 'may_loop', None))
        # vacuity: preconditions satisfiable and some return reachable
        ok = False
        for fci, fc in enumerate([entry_facts] + covers[:6]):
            s = mk_solver(rlimit=8000000)
            for g in formulas(fc, active):
                s.add(g)
            r = s.check()
            if r == z3.unsat and os.environ.get('IRV_VAC'):
                core_debug(list(formulas(fc, active)), fci)
            if fci == 0:
                if r == z3.unsat:
                    rep.vacuous = True
                    break
            elif r != z3.unsat:
                ok = True
                break
        if not ok and not getattr(con, 'noreturn', False):
            rep.vacuous = True
        rep.active = active
        rep.nloops = len(x.loops)
    except Budget:
        rep.error = 'time budget exhausted'
    except Unsupported as e:
        rep.error = 'unsupported: %s' % e
    except z3.Z3Exception as e:
        rep.error = 'engine: %s %s' % (e, traceback.format_exc()[-2900:])
    except (KeyError, RuntimeError, AttributeError, TypeError, AssertionError, ValueError, IndexError, RecursionError) as e:
        rep.error = 'engine: %r %s' % (e, traceback.format_exc()[-2900:])
    rep.obls = x.obls
    hard = [o for o in x.obls if o.status in ('refuted', 'unknown')]
    if rep.error == 'time budget exhausted':
        rep.failed = hard
        if hard:
            rep.error = None
    elif rep.error:
        rep.failed = []
    else:
        rep.failed = hard
        if not hard and any(o.status not in ('proved', 'trivial') for o in x.obls):
            rep.error = 'time budget exhausted'
    rep.time = time.time() - t0
    return rep


def show(rep, M=None, verbose=False):
    n = len(rep.obls)
    d = sum(1 for o in rep.obls if o.status in ('proved', 'trivial'))
    nm = M.dem.get(rep.fn, rep.fn) if M else rep.fn
    print('%-70s %4d/%4d obl  loops %d cands %d kept %d  %.1fs (solver %.1fs)%s%s' % (nm[:70], d, n, rep.nloops, rep.cands, len(rep.invs), rep.time, rep.solver_time, '  VACUOUS' if rep.vacuous else '', '  ERROR ' + rep.error if rep.error else ''))
    seen = {}
    for o in rep.failed:
        k = (o.where, o.name, o.kind)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= (3 if verbose else 1):
            print('    FAILED [%s] %s @ %s (%s) %s' % (o.kind, o.name, o.where, o.status, o.model if verbose else ''))
    if verbose:
        for w, i in rep.invs:
            print('    inv', w, i)
        for nt in rep.notes:
            print('    note', nt)
