from .common import *
from .mixvar import *

ID = 'C12'
HARNESS = 'C12.cpp'
BUDGET = 4
SIZES = (1, 8, 8192)


def tus():
    return {'mv': include('templates/static_mixed_var.h') + ''.join('template class CubicleSoft::StaticMixedVar<char[%d]>;\n' % n for n in SIZES)}


def jobs(mods):
    out = []
    U = dict(unroll=64, uf_div=True, path_prune=False)
    S = '(char*, unsigned long, %s, unsigned long)'
    for n in SIZES:
        C = 'StaticMixedVar<char[%d]>' % n
        T = 'CubicleSoft::StaticMixedVar<char [%d]>::' % n

        def mk(c, **k):
            c.cls, c.N = C, n
            for a, b in k.items():
                setattr(c, a, b)
            return c

        def job(sig, con, label='', **k):
            out.append(dict(tu='mv', fn=T + sig, con=con, label=label, opts=k.pop('opts', dict(fork=True)), **k))
        job('StaticMixedVar()', mk(Simple('ctor')))
        for k in ('None', 'Bool', 'Int', 'UInt', 'Double', 'Str'):
            job('Is%s()' % k, mk(Simple('Is' + k)))
        for k in ('GetBool', 'GetInt', 'GetUInt', 'GetDouble', 'GetStr', 'GetSize', 'GetMaxSize'):
            job(k + '()', mk(Simple(k)))
        for k, t in (('SetBool', 'bool'), ('SetInt', 'long'), ('SetUInt', 'unsigned long'), ('SetDouble', 'double')):
            job('%s(%s)' % (k, t), mk(Simple(k)))
        for k in ('SetStr', 'SetData', 'AppendStr', 'AppendData'):
            job(k + ('(char const*, unsigned long)' if k.endswith('Data') else '(char const*)'), mk(Put(k)))
        for k in ('PrependStr', 'PrependData'):
            job(k + ('(char const*, unsigned long)' if k.endswith('Data') else '(char const*)'), mk(Prepend(k)))
        for k in ('AppendChar', 'AppendMissingChar', 'RemoveTrailingChar'):
            job(k + '(char)', mk(CharOp(k)))
        job('SetSize(unsigned long)', mk(CharOp('SetSize')))
        for pre in (False, True):
            pn = 'Prepend' if pre else 'Append'
            callee = (T + pn + 'Str(char const*)', mk(Prepend('PrependStr') if pre else Put('AppendStr')))
            job(pn + 'Double(double, unsigned long)', mk(Num(pn + 'Double', pre, 'double')), contracts=[callee], builtins={'snprintf': b_snprintf})
            for kind, ty, nm in (('uint', 'unsigned long', 'UInt'), ('int', 'long', 'Int')):
                for neg in ((False, True) if kind == 'int' else (False,)):
                    cs = [callee, (T + 'IntToString' + S % ty, NZ('IntToString', kind == 'int', False, True, None, False, neg=neg if kind == 'int' else None))]
                    job('%s%s(%s, unsigned long)' % (pn, nm, ty), mk(Num(pn + nm, pre, kind), neg=neg), ('negative' if neg else 'non-negative') if kind == 'int' else '', contracts=cs, opts=dict(uf_div=True, fork=True, abs_digits=True))
        u, s = S % 'unsigned long', S % 'long'
        if n == SIZES[1]:
            job('IntToString' + u, NZ('IntToString', False, False, True, None, False), 'no terminator inside', opts=U, heavy=True)
            for neg in (False, True):
                job('IntToString' + s, NZ('IntToString', True, False, True, None, False, neg=neg), 'no terminator inside' + (' negative' if neg else ' non-negative'), opts=U, contracts=[(T + 'IntToString' + u, NZ('IntToString', False, False, True, None, False))])
    return out


ASSUME = ['instantiated for capacities 1, 8 and 8192 in the proof (the oracle also runs 2, 3, 5, 44 and 100)', 'source text does not lie inside the variable itself', 'radix between 2 and 36', 'the text of a double is snprintf\'s']
