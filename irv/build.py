"""Mechanical extraction: /repo sources -> LLVM IR, on every run."""
import os, subprocess, tempfile, shutil, hashlib
from . import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = ['clang++', '-std=c++11', '-m64', '-O1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-mno-constructor-aliases', '-fno-exceptions', '-fno-rtti',
       '-fno-discard-value-names', '-fno-builtin-memcmp', '-g', '-fno-delete-null-pointer-checks', '-U_FORTIFY_SOURCE', '-w', '-S', '-emit-llvm']
PASSES = 'function(sroa,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,loop-simplify)'


class ExtractError(Exception):
    pass


def extract(tu_text, name, work):
    """compile a driver TU (text that #includes /repo sources) and return (Module, command lines)"""
    src = os.path.join(work, name + '.cpp')
    with open(src, 'w') as f:
        f.write(tu_text)
    a, b = os.path.join(work, name + '.a.ll'), os.path.join(work, name + '.b.ll')
    c1 = CXX + ['-I' + REPO, src, '-o', a]
    r = subprocess.run(c1, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('clang++ failed on driver TU: ' + r.stderr[-2000:])
    c2 = ['opt', '-S', '-passes=' + PASSES, a, '-o', b]
    r = subprocess.run(c2, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('opt failed: ' + r.stderr[-2000:])
    txt = open(b).read()
    M = ir.parse_module(txt)
    M.text = txt
    M.cmd = [' '.join(c1), ' '.join(c2)]
    M.di = ir.di_layouts(M)
    M.dem = demangle([f for f in M.funcs])
    return M


def demangle(names):
    if not names:
        return {}
    r = subprocess.run(['c++filt'], input='\n'.join(n[1:] for n in names) + '\n', capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


def _bodies(M):
    if not hasattr(M, '_bodies'):
        import re
        M._bodies = {}
        for m in re.finditer(r'^define [^\n]*?(@[\w.$]+|@"[^"]*")\([^\n]*\{\n(.*?)^\}', M.text, re.S | re.M):
            head = m.group(0).split('\n', 1)[0]
            M._bodies[m.group(1)] = head + '\n' + m.group(2)
    return M._bodies


def _canon(t, ren):
    import re
    out = []
    for l in t.split('\n'):
        if 'llvm.dbg.' in l or 'llvm.lifetime' in l:
            continue
        l = re.sub(r', !\w[\w.]* !\d+', '', l)
        l = re.sub(r' !dbg !\d+', '', l)
        l = re.sub(r' #\d+', '', l)
        l = re.sub(r'; preds.*', '', l)
        l = re.sub(r' comdat(\(\$\w+\))?| align \d+(?= \{)| (linkonce_odr|weak_odr)', '', l)
        for a, b in ren:
            l = l.replace(a, b)
        out.append(l.rstrip())
    return '\n'.join(out)


def identical(M, fa, fb, ren, seen=None):
    """are the bodies of fa and fb (and of everything defined that they call) the same IR after renaming the class of fa?  ren: textual replacements"""
    import re
    seen = {} if seen is None else seen
    if fa in seen:
        return seen[fa] == fb
    seen[fa] = fb
    B = _bodies(M)
    if fa not in B or fb not in B:
        return fa == fb
    ta, tb = _canon(B[fa], ren), _canon(B[fb], ren)
    if ta != tb:
        return False
    ca, cb = re.findall(r'call [^\n]*?(@[\w.$]+)\(', _canon(B[fa], ())), re.findall(r'call [^\n]*?(@[\w.$]+)\(', _canon(B[fb], ()))
    if len(ca) != len(cb):
        return False
    return all(identical(M, a, b, ren, seen) for a, b in zip(ca, cb))
