#!/usr/bin/env python3
"""Development aid (not used by any check): confirm a planted bug and store it under seeded/.

usage: seed.py FILE.py     FILE.py defines SEEDS: list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo (C++ text), src=[...], flags=[...])
Works on /repo: apply, build+tests, demo (must fail), undo, demo (must pass).
"""
import sys, os, subprocess, json, runpy, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -g %(san)s %(flags)s -I"$PWD" "$D/demo.cpp" %(src)s -o "$T/demo" -pthread -ldl -lrt || exit 3
cd "$T" && timeout -k 5 %(to)d ./demo
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)

def main():
    ns = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        assert sh('git -C /repo status --porcelain -uno').stdout == '', 'dirty /repo'
        try:
            for f, a, b in s['edits']:
                p = '/repo/' + f
                t = open(p, encoding='latin-1', newline='').read()
                if '\r\n' in t and '\r\n' not in a:
                    a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
                n = t.count(a)
                assert n == 1, (s['id'], f, n, a)
                open(p, 'w', encoding='latin-1', newline='').write(t.replace(a, b))
            diff = subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'wb').write(diff)
            if 'demo_sh' in s:
                open(d + '/demo.sh', 'w').write(s['demo_sh'])
            else:
                san = s.get('san', '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=nonnull-attribute')
                open(d + '/demo.sh', 'w').write(DEMO % dict(san=san, flags=' '.join(s.get('flags', [])), src=' '.join('"$PWD/%s"' % x for x in s.get('src', [])), to=s.get('timeout', 60)))
            open(d + '/demo.cpp', 'w').write(s['demo'].lstrip())
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            os.chmod(d + '/demo.sh', 0o755)
            t = sh("bash /opt/vp/test.sh /tmp/seedt.json 2>&1 | grep -E '^[0-9]+ passed' | tail -1").stdout.strip()
            r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        finally:
            sh('git -C /repo checkout -- .')
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        ok = '262 passed, 0 failed' in t and r1.returncode not in (0, 3) and r0.returncode == 0
        print('%-8s %s tests: %s; demo with patch rc=%s, without rc=%s' % (s['id'], 'OK ' if ok else 'BAD', t, r1.returncode, r0.returncode))
        if not ok:
            print((r1.stdout + r1.stderr)[-600:], '---', (r0.stdout + r0.stderr)[-800:])
    sh('bash /opt/vp/build.sh')

main()
