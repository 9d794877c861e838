from .utf8spec import *

ID = 'C15'
HARNESS = 'C15.cpp'
HARNESS_SRC = ['utf8/utf8_util.cpp']
BUDGET = 8
U = 'CubicleSoft::UTF8::Util::'
A8 = U + 'AppendUTF8CodePoint(unsigned int, unsigned char*, unsigned long&, unsigned long)'
AW = U + 'AppendUTFCodePoint(unsigned int, void*, unsigned long&, unsigned long, unsigned long)'
FROM = U + 'ConvertFromUTF8(unsigned char const*, unsigned long, void*, unsigned long&, unsigned long)'


def tus():
    return {'utf8': include('utf8/utf8_util.cpp')}


class Append8(Append):
    opaque = False


def jobs(mods):
    out = []
    for meas in (0, 1):
        t = ' (measuring)' if meas else ''
        out.append(dict(tu='utf8', fn=A8, con=Append8(True, 1, meas), label='AppendUTF8CodePoint' + t))
        for w in (1, 2, 4):
            out.append(dict(tu='utf8', fn=AW, con=Append(False, w, meas), contracts=[(A8, Append8(True, 1, meas))], label='AppendUTFCodePoint width %d%s' % (w, t)))
            out.append(dict(tu='utf8', fn=FROM, con=Convert(False, w, meas), contracts=[(AW, Append(False, w, meas))], label='ConvertFromUTF8 width %d%s' % (w, t), opts=dict(fork=True, hrl=6, inst=True)))
    return out


ASSUME = ['at most 2^40 bytes of input', 'unit widths 1, 2 and 4']
