import os
import re
import z3
from vcgen import build
from vcgen.flat import *

IDS = re.findall(r'X\((\w+)\)', open(os.path.join(build.HERE, 'harness', 'tracker_ids.h')).read())


def at(st):
    return (st[1], st[2])


class Add(Flat):
    """one call adds exactly one to the count of its operation and changes no other count"""
    pure = ()

    def hook(self, ex, st, name, args, rty):
        if 'chrono' in name and 'now' in name:
            ex.trusted.add('the clock returns some time and changes nothing')
            return ex.fresh(rty, 'now')

    def post(self, ex, args, path):
        if path.kind == 'throw':
            return [('post: nothing is thrown', False)]
        ad = path.called('vc_addr')
        if len(ad) != 2:
            return [('post: the cells of the operation', False)]
        cnt, tim = [(e[2][0].reg, e[2][0].off) for e in ad]
        ev = [e for e in path.st.events if e[0] == 'store' or e[1] == 'vc_point']
        sc = [e for e in ev if e[0] == 'store' and at(e) == cnt]
        other = [e for e in ev if e[0] == 'store' and at(e) not in (cnt, tim)]
        before = path.st.init.get(cnt)
        out = [('post: counted once', len(sc) == 1 and before is not None),
               ('post: count and time are different cells', cnt != tim),
               ('post: the count of no other operation is touched', not other)]
        if len(sc) == 1 and before is not None:
            out.append(('post: exactly one is added', sc[0][3] == before + 1))
        return out


class Ids(Flat):
    entry = 'vc_trk_ids'

    def post(self, ex, args, path):
        v = [z3.simplify(e[2][0]) for e in path.called('vc_int')]
        if path.kind == 'throw' or not all(z3.is_bv_value(x) for x in v) or len(v) != 3 + len(IDS):
            return [('post: numbers of the operations', False)]
        v = [x.as_long() for x in v]
        n, ids = v[0], v[3:]
        return [('post: every operation has its own number', len(set(ids)) == len(ids)),
                ('post: the numbers are the places of the register', set(ids) == set(range(n)) and v[1] == n and v[2] == n)]


PROOFS = [('tracker.cpp', type('vc_trk_%s_%s' % (k, i), (Add,), dict(entry='vc_trk_%s_%s' % (k, i)))) for k in ('add', 'scope') for i in IDS]
PROOFS += [('tracker.cpp', Ids)]
FLAGS = ['-DBLASBOOSTER_USE_TRACKER', '-DVC_TRACKER_CPP="%s/src/Utilities/tracker.cpp"' % build.REPO]
DRIVERS = [('tracker', FLAGS)]
LEVEL = 'proof'
from .c15 import TECHNIQUE
NOTE = ('contracts on TrackerRegister::add and the Tracker scope of every operation, and on the numbering of the operations, are discharged for all '
        'register contents. That each library operation holds exactly one scope of its own name, and the name table (one entry per operation, so an '
        'exhaustive run covers it), are executed: bounded, not proved. Operations of Eigen and Blaze are not covered (the headers do not compile here)')
