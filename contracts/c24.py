import os
import re
import z3
from vcgen import build
from vcgen.flat import *
from .c20 import same


class Limit(Flat):
    """the value asked for is the setting of that name, for all contents of the settings"""

    def post(self, ex, args, path):
        ev = path.called()
        if path.kind == 'throw' or len(ev) != 2:
            return [('post: a limit is returned', False)]
        a, b = ev[0][2][0], ev[1][2][0]
        eq = fpbits(a) == fpbits(b) if z3.is_fp(a) else a == b
        return [('post: the limit is the setting of that name', eq), ('post: nothing else is written', not path.stores())]


def fpbits(x):
    return z3.fpToIEEEBV(x)


N = re.findall(r'^(?:LIM\((\w+),|OCC\((\w+),)', open(os.path.join(build.HERE, 'harness', 'limits.cpp')).read(), re.M)
ENT = []
for l, o in N:
    for n in ([l] if l else [o + '_f', o + '_d']):
        ENT += ['vc_lim_' + n, 'vc_lim_assign_' + n]
ENT += ['vc_lim_min', 'vc_lim_max']
PROOFS = [('limits.cpp', type(e, (Limit,), dict(entry=e))) for e in ENT]
DRIVERS = ['limits']
LEVEL = 'proof'
from .c15 import TECHNIQUE
NOTE = 'all settings values; the settings record itself is a stand-in (BrainTwister/Record.h is not available offline), with one public member per declared name'
TRUST = ['the settings record is a stand-in for BrainTwister/Record.h: one public member per declared setting']
