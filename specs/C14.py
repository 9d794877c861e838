from .utf8spec import *

ID = 'C14'
HARNESS = 'C14.cpp'
HARNESS_SRC = ['utf8/utf8_util.cpp']
BUDGET = 8
U = 'CubicleSoft::UTF8::Util::'
A8 = U + 'AppendUTF8CodePoint(unsigned int, unsigned char*, unsigned long&, unsigned long)'
TO = U + 'ConvertToUTF8(void const*, unsigned long, unsigned long, unsigned char*, unsigned long&, unsigned long*)'


def tus():
    return {'utf8': include('utf8/utf8_util.cpp')}


def jobs(mods):
    out = []
    for meas in (0, 1):
        out.append(dict(tu='utf8', fn=A8, con=Append(True, 1, meas), label='AppendUTF8CodePoint' + (' (measuring)' if meas else '')))
        for w in (1, 2, 4):
            for last in (0, 1):
                out.append(dict(tu='utf8', fn=TO, con=Convert(True, w, meas, last), contracts=[(A8, Append(True, 1, meas))], label='ConvertToUTF8 width %d%s%s' % (w, ' (measuring)' if meas else '', ' with LastPos' if last else ''), opts=dict(fork=True, hrl=6, inst=True)))
    return out


ASSUME = ['at most 2^40 units of input']
