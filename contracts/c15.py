import z3
from vcgen.flat import *


class Range(Flat):
    """c(x) <=> |x| in the range; the constructor rejects exactly a negative
    bound and an empty range.  Bounds are numbers (not NaN), x is anything."""
    lo, hi = 'x', None      # exclusive / inclusive
    narrow = False

    def pre(self, ex, args):
        return [z3.Not(z3.fpIsNaN(b)) for b in self.bounds(args)]

    def bounds(self, args):
        return args[:-1]

    def post(self, ex, args, path):
        b = self.bounds(args)
        w = lambda v: z3.fpFPToFP(RNE, v, F64) if v.sort() == F32 else v
        neg = z3.Or([z3.fpLT(x, z3.FPVal(0, x.sort())) for x in b])
        empty = z3.BoolVal(False)
        if self.hi:
            empty = z3.fpGT(b[0], b[1]) if self.lo + self.hi == 'ii' else z3.fpGEQ(b[0], b[1])
        bad = z3.Or(neg, empty)
        if path.kind == 'throw':
            return [('post: only bounds that are negative or empty are rejected', bad)]
        ev = path.called('vc_bool')
        if len(ev) != 1:
            return [('post: the test is made once', False)]
        a = z3.fpAbs(w(args[-1]))
        lo = w(b[0]) if b else z3.FPVal(0, F64)
        inr = z3.fpGT(a, lo) if self.lo == 'x' else z3.fpGEQ(a, lo)
        if self.hi:
            inr = z3.And(inr, z3.fpLT(a, w(b[1])) if self.hi == 'x' else z3.fpLEQ(a, w(b[1])))
        return [('post: negative bounds and empty ranges are rejected', z3.Not(bad)),
                ('post: accepted exactly when the absolute value is in the range', tobool(ev[0][2][0]) == inr)]


def tobool(x):
    return x if z3.is_bool(x) else x != 0


class Copy(Range):
    entry, lo, hi = 'vc_rt_copy', 'i', 'i'

    def pre(self, ex, args):
        return [z3.Not(z3.fpIsNaN(b)) for b in args[:4]] + [z3.fpLEQ(z3.FPVal(0, F64), args[2]), z3.fpLEQ(args[2], args[3])]

    def bounds(self, args):
        return args[:2]


PROOFS = [('range.cpp', type('vc_rt_%s_%s' % (k + b, v), (Range,), dict(entry='vc_rt_%s_%s' % (k + b, v), lo=lo, hi=hi)))
          for k, lo, hi in (('en', 'x', None), ('ei', 'x', 'i'), ('ii', 'i', 'i'), ('ee', 'x', 'x')) for b in ('', 'f') for v in 'df']
PROOFS += [('range.cpp', type('vc_rt_default', (Range,), dict(entry='vc_rt_default'))), ('range.cpp', Copy)]
DRIVERS = ['range']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: every path of the real functions (LLVM IR) in exact IEEE arithmetic, obligations discharged by z3 (bit vectors and floating point)'
NOTE = 'all bit patterns of the tested value and all non-NaN bounds; the LLVM front end and the verification-condition generator are trusted; what is thrown is only checked by the concrete runs'
