import z3
from vcgen.flat import *
from .c15 import TECHNIQUE, tobool

# the settings, in the order of the parameters after the two thresholds: per
# type the limits for the single and for the double precision threshold
TYPES = ('zero', 'sparse float', 'dense float', 'sparse double', 'sparse double + sparse float', 'sparse double + dense float', 'dense double')


class Choice(Flat):
    """OF, OD: the occupation above the single and the double precision threshold"""

    def pre(self, ex, args):
        self.args = args
        self.x = {}
        self.OF, self.OD = z3.FP('occupation_single', F64), z3.FP('occupation_double', F64)
        lim = args[2:]
        self.ok = [z3.And(z3.fpLEQ(self.OD, lim[2 * i + 1]), z3.fpLEQ(self.OF, lim[2 * i])) for i in range(7)]
        num = [z3.Not(z3.fpIsNaN(a)) for a in args]
        return num + [z3.fpGEQ(a, z3.FPVal(0, F64)) for a in args[:2]] + [z3.Implies(z3.fpEQ(args[0], args[1]), z3.fpEQ(self.OF, self.OD)),
                                                                         z3.Not(z3.fpIsNaN(self.OF)), z3.Not(z3.fpIsNaN(self.OD))]

    def hook(self, ex, st, name, args, rty):
        if name != 'vc_occ':
            return None
        x, acc = args[0], tobool(args[1])
        for t, occ in ((self.args[0], self.OF), (self.args[1], self.OD)):
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*st.pc)
            s.add(acc != z3.fpGT(z3.fpAbs(x), t))
            if s.check() == z3.unsat:
                return occ
        return z3.FP('occupation_under_some_other_test.%d' % ex.steps, F64)


class Which(Choice):
    """the first permitted type, an error if there is none"""
    entry = 'vc_choose'
    end_calls = ('__cxa_allocate_exception',)

    def post(self, ex, args, path):
        act = path.called('vc_act')
        if path.kind == 'throw':
            return [('post: an error only if no type is permitted', z3.Not(z3.Or(self.ok))), ('post: nothing is stored before the error', not act)]
        if len(act) != 1:
            return [('post: the matrix is stored once', False)]
        k = z3.simplify(act[0][2][0])
        k = k.as_long() if z3.is_bv_value(k) else -1
        first = z3.And([z3.Not(c) for c in self.ok[:k]] + [self.ok[k]]) if 0 <= k < 7 else False
        return [('post: the first permitted type is taken', first)]


class Permits(Choice):
    def post(self, ex, args, path):
        b = path.called('vc_bool')
        if path.kind == 'throw' or len(b) != 1:
            return [('post: there is an answer', False)]
        return [('post: %s is permitted exactly when both occupations respect its limits' % TYPES[self.k], tobool(b[0][2][0]) == self.ok[self.k])]


PROOFS = [('choice.cpp', Which)] + [('choice.cpp', type('vc_permits_%d' % k, (Permits,), dict(entry='vc_permits_%d' % k, k=k))) for k in range(7)]
FLAGS = ['-DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION']
DRIVERS = ['choice']
LEVEL = 'proof'
NOTE = ('all limits, thresholds and occupations (numbers); the occupation itself is C14 and stands here for an arbitrary number per significance test. '
        'What the chosen type then holds is a bounded check of the real conversions. An error is raised in the configuration with core failures as exceptions')
TRUST = ['the settings record is a stand-in for BrainTwister/Record.h: one public member per declared setting']
