#!/usr/bin/env python3-vt
"""check.py <property id> [--verbose] [--only SUBSTR] [--no-harness] [--no-proof]

1. extracts the functions under contract from /repo's current tree (clang -> LLVM IR, mechanically),
2. generates and discharges every proof obligation (irv),
3. runs the contract's executable oracle against the real code (replay / bounded stand-in),
4. writes evidence/<id>.json and reports.
"""
import sys, os, time, json, tempfile, shutil, subprocess, importlib, threading, re, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import z3
from irv import build, prove
from irv.prove import verify, show, pmap

REPO = build.REPO
EVID = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


class HarnessRun(threading.Thread):
    def __init__(self, spec, work, tier, seed):
        threading.Thread.__init__(self)
        self.spec, self.work, self.tier, self.seed = spec, work, tier, seed
        self.res = None
        self.cmd = None

    def build(self):
        src = os.path.join(HERE, 'harness', self.spec.HARNESS)
        exe = os.path.join(self.work, 'harness')
        extra = list(getattr(self.spec, 'HARNESS_SRC', []))
        flags = list(getattr(self.spec, 'HARNESS_FLAGS', []))
        san = getattr(self.spec, 'HARNESS_SAN', 'address,undefined')
        cmd = ['g++', '-std=c++11', '-g', '-O1', '-w', '-fno-omit-frame-pointer', '-DVERIF_HARNESS', '-I' + REPO, '-I' + os.path.join(HERE, 'harness')]
        if san:
            cmd += ['-fsanitize=' + san, '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute']
        cmd += flags + [src] + [os.path.join(REPO, e) for e in extra] + ['-o', exe, '-pthread', '-ldl', '-lrt']
        r = subprocess.run(cmd, capture_output=True, text=True)
        self.cmd = ' '.join(cmd)
        if r.returncode:
            return None, r.stderr[-3000:]
        return exe, None

    def run(self):
        try:
            t0 = time.time()
            exe, err = self.build()
            if exe is None:
                self.res = {'status': 'nobuild', 'out': err, 'time': time.time() - t0}
                return
            self.exe = exe
            self.res = self.execute([])
        except Exception as e:
            self.res = {'status': 'error', 'out': repr(e), 'time': 0}

    def execute(self, extra, env=None):
        t0 = time.time()
        scratch = tempfile.mkdtemp(prefix='h', dir=self.work)
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:allocator_may_return_null=1' % getattr(self.spec, 'LEAKS', 1), UBSAN_OPTIONS='print_stacktrace=0')
        if env:
            e.update(env)
        budget = {'quick': getattr(self.spec, 'BUDGET', 8), 'thorough': 10 * getattr(self.spec, 'BUDGET', 8)}[self.tier]
        cmd = [self.exe, str(self.seed), str(budget)] + extra
        pre = getattr(self.spec, 'HARNESS_PREFIX', [])
        p = subprocess.Popen(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=scratch, env=e, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=budget * 6 + 120)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = 'timeout'
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        out = out.decode('utf-8', 'replace')
        shutil.rmtree(scratch, ignore_errors=True)
        st = 'ok' if rc == 0 else ('timeout' if rc == 'timeout' else 'fail')
        m = re.search(r'CASES (\d+) NONTRIVIAL (\d+)', out)
        return {'status': st, 'rc': rc, 'out': out[-6000:], 'time': time.time() - t0, 'cases': int(m.group(1)) if m else 0, 'nontrivial': int(m.group(2)) if m else 0, 'cmd': ' '.join(cmd[1:])}


def rep_summary(rep, M, job):
    """picklable summary"""
    return {
        'fn': job['fn'], 'label': job.get('label', ''), 'error': rep.error, 'vacuous': rep.vacuous,
        'n': len(rep.obls), 'd': sum(1 for o in rep.obls if o.status in ('proved', 'trivial')),
        'kinds': count(o.kind for o in rep.obls),
        'failed': [(o.kind, o.name, o.where, o.status, o.model, str(o.solver)) for o in rep.failed][:40],
        'time': rep.time, 'solver': rep.solver_time, 'backends': rep.backends, 'loops': rep.nloops, 'cands': rep.cands, 'invs': rep.invs, 'notes': rep.notes,
        'builtins': sorted(rep.x.used_builtins), 'contracts': sorted(M.dem.get(c, c) for c in rep.x.used_contracts), 'inlined': sorted(M.dem.get(c, c) for c in rep.x.inlined),
        'bounded': bool(job.get('bounded')),
    }


def count(it):
    d = {}
    for k in it:
        d[k] = d.get(k, 0) + 1
    return d


def find_fn(M, dem):
    c = [k for k, v in M.dem.items() if v == dem]
    if c:
        return c[0]
    return None


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    args = sys.argv[1:]
    verbose = '--verbose' in args
    only = args[args.index('--only') + 1] if '--only' in args else None
    sys.stderr = sys.stdout
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    spec = importlib.import_module('specs.' + pid)
    work = tempfile.mkdtemp(prefix='irv_%s_' % pid, dir=os.environ.get('VERIF_TMP', '/tmp'))
    try:
        rc = run(spec, pid, tier, seed, work, verbose, only, '--no-harness' in args, '--no-proof' in args, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run(spec, pid, tier, seed, work, verbose, only, noh, nop, t0):
    hr = None
    if not noh and getattr(spec, 'HARNESS', None):
        hr = HarnessRun(spec, work, tier, seed)
        hr.start()
        hr.join()
        if hr.res['status'] in ('fail', 'timeout') and not verbose:
            nop = True      # a concrete failing execution is in hand
    prove.DEADLINE = t0 + (480 if tier == 'quick' else 3000)
    # ---- extraction
    mods, unext = {}, []
    tus = {} if nop else spec.tus()
    def ex(n):
        try:
            return build.extract(tus[n], n, work)
        except (build.ExtractError, build.ir.Unsupported) as e:
            return 'ERR ' + str(e)
    for n in tus:
        mods[n] = ex(n)
        if isinstance(mods[n], str):
            unext.append((n, mods[n]))
    jobs = [] if nop else [j for j in spec.jobs(mods if True else None) if not only or only in j['fn'] + ' ' + j.get('label', '')]
    results = []
    light = [j for j in jobs if not j.get('heavy')]
    heavy = [j for j in jobs if j.get('heavy')]

    def runjob(j):
        M = mods[j['tu']]
        if isinstance(M, str):
            return {'fn': j['fn'], 'label': j.get('label', ''), 'error': 'extraction failed: ' + M[:1500], 'n': 0, 'd': 0, 'failed': [], 'vacuous': False, 'unbound': True}
        fn = find_fn(M, j['fn'])
        if fn is None:
            return {'fn': j['fn'], 'label': j.get('label', ''), 'error': 'no such function in the extracted code', 'n': 0, 'd': 0, 'failed': [], 'vacuous': False, 'unbound': True}
        if j.get('same_as'):
            f2 = find_fn(M, j['same_as'][0])
            ca, cb = j['same_as'][2]
            lay = lambda c: dict(M.di.get(c, {c: c}), ident=None)
            if f2 and lay(ca) == lay(cb) and build.identical(M, fn, f2, j['same_as'][1]):
                return {'fn': j['fn'], 'label': j.get('label', ''), 'error': None, 'vacuous': False, 'n': 1, 'd': 1, 'kinds': {'identical': 1}, 'failed': [], 'time': 0.0, 'solver': 0.0, 'backends': {'IR identity': 1}, 'loops': 0, 'cands': 0, 'invs': [], 'notes': ['same IR as %s after renaming the class' % j['same_as'][0]], 'builtins': [], 'contracts': [], 'inlined': [], 'bounded': False}
        cons = {}
        for dem, c in j.get('contracts', []):
            k = find_fn(M, dem)
            if k is None:
                k = '@' + dem if ('@' + dem) in M.decls else None
            if k is None and not j.get('optional_contracts', True):
                return {'fn': j['fn'], 'label': j.get('label', ''), 'error': 'callee under contract not found: ' + dem, 'n': 0, 'd': 0, 'failed': [], 'vacuous': False, 'unbound': True}
            if k:
                cons[k] = c
        try:
            rep = verify(M, fn, j['con'], cons, j.get('opts'), j.get('builtins'), timeout=j.get('timeout'))
            if verbose:
                show(rep, M, True)
            return rep_summary(rep, M, j)
        except Exception as e:
            import traceback
            return {'fn': j['fn'], 'label': j.get('label', ''), 'error': 'engine: %r %s' % (e, traceback.format_exc()[-1500:]), 'n': 0, 'd': 0, 'failed': [], 'vacuous': False}

    def runlight(i):
        prove.NPROC = 1
        return runjob(light[i])

    if light:
        rs = pmap(runlight, list(range(len(light))))
        for j, r in zip(light, rs):
            if isinstance(r, tuple):
                r = {'fn': j['fn'], 'label': j.get('label', ''), 'error': 'worker: ' + str(r[1]), 'n': 0, 'd': 0, 'failed': [], 'vacuous': False}
            results.append(r)
    for j in heavy:
        results.append(runjob(j))
    # ---- harness
    h = None
    if hr:
        hr.join()
        h = hr.res
    # ---- replay of verifier counterexamples
    models = []
    for r in results:
        for k, nm, wh, stt, mdl, sv in r['failed']:
            if isinstance(mdl, dict):
                models.append(';'.join('%s=%s' % (a.lstrip('%'), b) for a, b in mdl.items()))
    if h and h['status'] == 'ok' and models and getattr(spec, 'REPLAY', False):
        for mtxt in models[:12]:
            h2 = hr.execute(['replay'], {'IRV_MODEL': mtxt})
            if h2['status'] == 'fail':
                h = h2
                h['from_model'] = mtxt
                break
    # ---- verdict
    errors = [r for r in results if r.get('error')]
    fails = [r for r in results if r['failed'] or r['vacuous']]
    viol = None
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, '%s.replay.txt' % pid)
    lines = []
    kf = known_findings(pid)
    for key, text in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if h and h['status'] in ('fail', 'timeout'):
        viol = 'input'
    elif fails:
        viol = 'nofail'
    for r in results:
        tag = 'ok' if (r['d'] == r['n'] and not r.get('error') and not r['vacuous']) else ('ERROR ' + r['error'][:1000] if r.get('error') else ('VACUOUS' if r['vacuous'] else 'FAILED'))
        if verbose or tag != 'ok':
            print('%s %s: %d/%d obligations, %.1fs %s' % (r['fn'], r.get('label', ''), r['d'], r['n'], r.get('time', 0), tag))
        for k, nm, wh, stt, mdl, sv in r['failed'][:10]:
            lines.append('failed obligation [%s] %s at %s: %s (%s) model=%s' % (k, nm, wh, stt, sv, mdl))
            print('  ' + lines[-1][:600])
    if h:
        print('harness: %s cases=%s nontrivial=%s %.1fs' % (h['status'], h.get('cases'), h.get('nontrivial'), h['time']))
        if h['status'] != 'ok':
            print(h['out'][-3000:])
    tot = sum(r['n'] for r in results)
    dis = sum(r['d'] for r in results)
    bounded = [r['fn'] + ' ' + r.get('label', '') for r in results if r.get('bounded') or r.get('error')]
    back = {}
    for r in results:
        for k, v in r.get('backends', {}).items():
            back[k] = back.get(k, 0) + v
    libs = sorted(set(b for r in results for b in r.get('builtins', [])))
    trusted = ['clang++/opt 18 front end (C++ -> LLVM IR, sroa/simplifycfg/loop-simplify)', 'irv verification-condition generator (this repository)', 'z3 %s' % z3.get_version_string(), 'cvc5 (fallback)'] + ['assumed contract: ' + b for b in libs] + list(getattr(spec, 'TRUSTED', []))
    level = 'proof'
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': tot, 'discharged': dis,
            'checker_cmd': 'python3-vt check.py %s' % pid,
            'trusted_base': trusted,
            'functions_under_contract': [{'function': r['fn'], 'case': r.get('label', ''), 'obligations': r['n'], 'discharged': r['d'], 'by_kind': r.get('kinds', {}), 'loops_cut_with_invariants': r.get('loops', 0), 'invariant_candidates': r.get('cands', 0), 'invariants_kept': len(r.get('invs', [])), 'wall_s': round(r.get('time', 0), 2), 'solver_s': round(r.get('solver', 0), 2), 'callee_contracts_used': r.get('contracts', []), 'inlined': r.get('inlined', []), 'error': r.get('error')} for r in results],
            'back_ends': back, 'solver_s': round(sum(r.get('solver', 0) for r in results), 2),
            'bounded_stand_ins': bounded,
            'oracle_replay': {k: v for k, v in (h or {}).items() if k in ('status', 'cases', 'nontrivial', 'time', 'cmd')},
        },
        'assumptions': list(getattr(spec, 'ASSUME', [])) + ['trusted: ' + t for t in trusted],
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d function cases, %d not within reach; %.1fs' % (pid, dis, tot, len(results), len(errors), time.time() - t0))
    if viol:
        with open(replay, 'w') as f:
            f.write('property %s\n' % pid)
            for l in lines:
                f.write(l + '\n')
            if h and h['status'] != 'ok':
                f.write('oracle: concrete failing execution of the real code\nharness: harness/%s args: %s\n%s\nbuilt with: %s\n' % (spec.HARNESS, h.get('cmd'), ('model replayed: ' + h['from_model']) if h.get('from_model') else '', hr.cmd))
                f.write(h['out'] + '\n')
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if viol == 'input' else ' no-failing-input-found'))
        return 1
    if tot == 0 and not only and not errors and not nop:
        print('no obligations generated')
        return 2
    return 0


if __name__ == '__main__':
    main()
