from .common import *
from .intfmt import ToStr

ID = 'C01'
HARNESS = 'C01.cpp'
HARNESS_SRC = ['convert/convert_int.cpp', 'json/json_serializer.cpp', 'sync/sync_tls.cpp', 'sync/sync_util.cpp']
REPLAY = True
BUDGET = 6


def tus():
    return {
        'conv': include('convert/convert_int.cpp'),
        'json': include('json/json_serializer.cpp'),
        'smv': include('templates/static_mixed_var.h') + 'template class CubicleSoft::StaticMixedVar<char[64]>;\n',
        'tls': include('sync/sync_tls.cpp'),
    }


UN = dict(first=6000, unroll=64, uf_div=True, path_prune=False)


def jobs(mods):
    C = 'CubicleSoft::Convert::Int::ToString(char*, unsigned long, %s, char, unsigned long)'
    J = 'CubicleSoft::JSON::Serializer::IntToString(char*, unsigned long, %s)'
    S = 'CubicleSoft::StaticMixedVar<char [64]>::IntToString(char*, unsigned long, %s, unsigned long)'
    T = 'CubicleSoft::Sync::TLS::MixedVar::IntToString(char*, unsigned long, %s, unsigned long)'
    u, s = 'unsigned long', 'long'
    out = []
    for case in (False, True):
        out.append(dict(tu='conv', fn=C % u, con=ToStr('ToString', False, True, True, case), opts=UN, label='separator' if case else 'no separator', heavy=True))
    for case in (False, True):
        for neg in (False, True):
            out.append(dict(tu='conv', fn=C % s, con=ToStr('ToString', True, True, True, case, neg=neg), opts=UN, label=('separator' if case else 'no separator') + (' negative' if neg else ' non-negative'), contracts=[(C % u, ToStr('ToString', False, True, True, case))]))
    for tu, F, rad in (('json', J, False), ('smv', S, True), ('tls', T, True)):
        out.append(dict(tu=tu, fn=F % u, con=ToStr('IntToString', False, False, rad, None, False), opts=UN, heavy=True))
        for neg in (False, True):
            out.append(dict(tu=tu, fn=F % s, con=ToStr('IntToString', True, False, rad, None, False, neg=neg), label='negative' if neg else 'non-negative', opts=UN, contracts=[(F % u, ToStr('IntToString', False, False, rad, None, False))]))
    return out


ASSUME = ['buffers are at most 2^46 bytes', 'radix is between 2 and 36 for the internal IntToString copies, which do not validate it']
