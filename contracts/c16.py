import time
import z3
from vcgen.flat import *
from .c15 import tobool

ONE = ('en',)
KINDS = ('en', 'ei', 'ii', 'ee')


def lex(k1, k2, i1, i2, a, b, c, d):
    """the specified order of test (kind number i1, bounds a b) and (i2, c d)"""
    if k1 != k2:
        return z3.ULT(i1, i2)
    low = z3.fpLT(a, c)
    if k1 in ONE:
        return low
    return z3.Or(low, z3.And(z3.Not(z3.fpLT(c, a)), z3.fpLT(b, d)))


def valid(k, a, b):
    zero = z3.FPVal(0, F64)
    out = [z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsNaN(b)), z3.fpGEQ(a, zero)]
    if k == 'ii':
        out.append(z3.fpLEQ(a, b))
    elif k not in ONE:
        out.append(z3.fpLT(a, b))
    return out


class Less(Flat):
    names = ('a', 'b', 'c', 'd')

    def pre(self, ex, args):
        a, b, c, d = args
        return valid(self.k1, a, b) + valid(self.k2, c, d)

    def post(self, ex, args, path):
        if path.kind == 'throw':
            return [('post: valid bounds are accepted', False)]
        ev, ids = path.called('vc_bool'), path.called('vc_counts')
        if len(ev) != 1 or len(ids) != 1:
            return [('post: one comparison', False)]
        i1, i2 = ids[0][2][:2]
        out = [('post: kinds are told apart', (i1 == i2) if self.k1 == self.k2 else (i1 != i2)),
               ('post: kind first, then the bounds', tobool(ev[0][2][0]) == lex(self.k1, self.k2, i1, i2, *args))]
        return out


class Ids(Flat):
    entry = 'vc_kind_ids'

    def post(self, ex, args, path):
        if path.kind == 'throw' or len(path.called('vc_counts')) != 1:
            return [('post: kinds have numbers', False)]
        v = [z3.simplify(x) for x in path.called('vc_counts')[0][2]]
        return [('post: the kind number depends on the kind only', all(z3.is_bv_value(x) for x in v)),
                ('post: the four kinds have different numbers', len({str(x) for x in v}) == 4)]


PROOFS = [('range.cpp', type('vc_less_%s_%s' % (x, y), (Less,), dict(entry='vc_less_%s_%s' % (x, y), k1=x, k2=y))) for x in KINDS for y in KINDS]
PROOFS += [('range.cpp', type('vc_less_ptr', (Less,), dict(entry='vc_less_ptr', k1='ei', k2='ei'))), ('range.cpp', Ids)]
DRIVERS = ['range']
from .c15 import TECHNIQUE, LEVEL
NOTE = 'all pairs of valid tests over the four kinds; the order laws are lemmas over the proved postconditions'


def extra_proofs(tier):
    """order laws of the specified relation over all kinds"""
    out = []
    n = [z3.BitVec('id%d' % k, 64) for k in range(4)]
    dist = [z3.Distinct(*n)]
    def law(name, ks, f):
        s = z3.Solver()
        s.set('timeout', 60000)
        v = [(z3.FP('a%d' % i, F64), z3.FP('b%d' % i, F64)) for i in range(len(ks))]
        for k, (a, b) in zip(ks, v):
            s.add(*valid(KINDS[k], a, b))
        L = lambda i, j: lex(KINDS[ks[i]], KINDS[ks[j]], n[ks[i]], n[ks[j]], v[i][0], v[i][1], v[j][0], v[j][1])
        s.add(*dist)
        s.add(z3.Not(f(L, v)))
        t = time.time()
        r = s.check()
        out.append(('lemma: %s %s' % (name, ' '.join(KINDS[k] for k in ks)), r == z3.unsat, time.time() - t, 'z3', ''))
    for i in range(4):
        law('irreflexive', (i, i), lambda L, v: z3.Not(z3.And(v[0][0] == v[1][0], v[0][1] == v[1][1], L(0, 1))))
        for j in range(4):
            law('asymmetric', (i, j), lambda L, v: z3.Not(z3.And(L(0, 1), L(1, 0))))
            if i != j:
                law('kinds differ: ordered', (i, j), lambda L, v: z3.Or(L(0, 1), L(1, 0)))
            else:
                same = lambda v: z3.fpEQ(v[0][0], v[1][0]) if KINDS[i] in ONE else z3.And(z3.fpEQ(v[0][0], v[1][0]), z3.fpEQ(v[0][1], v[1][1]))
                law('unordered only if equal', (i, j), lambda L, v: z3.Or(L(0, 1), L(1, 0), same(v)))
            for k in range(4):
                law('transitive', (i, j, k), lambda L, v: z3.Implies(z3.And(L(0, 1), L(1, 2)), L(0, 2)))
    return [dict(name='order laws', obs=out, functions=[], trusted=[])]
