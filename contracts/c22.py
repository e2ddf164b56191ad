import z3
from vcgen.flat import *
from .c15 import TECHNIQUE, tobool


def num(x):
    x = z3.simplify(x)
    return x.as_long() if z3.is_bv_value(x) else None


class Select(Flat):
    """the action runs once, for the first accepted type, and its result is the result"""

    def pre(self, ex, args):
        self.P = [[z3.Bool('accepts_%d_%d' % (d, i)) for i in range(8)] for d in range(2)]
        self.Q = lambda d, i: self.P[d][i]
        return []

    def hook(self, ex, st, name, args, rty):
        if name == 'vc_pred':
            d, i = num(args[0]), num(args[1])
            return z3.If(self.P[d][i], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if self.bit(ex, rty) else self.P[d][i]

    def bit(self, ex, rty):
        return False

    def first(self, d, i):
        return z3.And([z3.Not(self.Q(d, k)) for k in range(i)] + [self.Q(d, i)])

    def post(self, ex, args, path):
        n, two = self.n, self.two
        act = path.called('vc_act2' if two else 'vc_act')
        none = [z3.And([z3.Not(self.Q(d, k)) for k in range(n)]) for d in range(2 if two else 1)]
        if path.kind == 'throw':
            return [('post: an error only if nothing is accepted', z3.Or(none)), ('post: no action before the error', not act)]
        out = [('post: an error if nothing is accepted', z3.Not(z3.Or(none))), ('post: the action runs once', len(act) == 1)]
        if len(act) == 1:
            ix = [num(x) for x in act[0][2]]
            for d, i in enumerate(ix):
                out.append(('post: for the first accepted type', self.first(d, i) if i is not None and i < n else False))
            if self.res:
                v = path.called('vc_int')
                out.append(('post: the result is the result of the action', v[0][2][0] == act[0][3] if len(v) == 1 else False))
        return out


class ByIndex(Select):
    """the matrix type of that number is selected, for every number"""

    def pre(self, ex, args):
        self.Q = lambda d, i: args[d] == i
        return []


class Index(Flat):
    entry = 'vc_disp_index'

    def post(self, ex, args, path):
        v = [num(e[2][0]) for e in path.called('vc_int')]
        want = [7, 0, 8] + [k for i in range(8) for k in (i, i)]
        return [('post: positions and lengths of the lists', v == want)]


class Types(Flat):
    entry = 'vc_disp_types'

    def post(self, ex, args, path):
        v = [num(e[2][0]) for e in path.called('vc_int')]
        return [('post: every matrix type has the number of its place', v == list(range(7)) * 2)]


def cl(e, b=Select, **k):
    return ('dispatch.cpp', type(e, (b,), dict(entry=e, **k)))


PROOFS = [cl('vc_disp%s_%d' % (v, n), n=n, two=False, res=not v) for n in range(1, 9) for v in ('', 'v')]
PROOFS += [cl('vc_disp%s2_%d' % (v, n), n=n, two=True, res=not v) for n in range(1, 8) for v in ('', 'v')]
PROOFS += [cl('vc_disp_matrix', ByIndex, n=7, two=False, res=True), cl('vc_disp2_matrix', ByIndex, n=7, two=True, res=True),
           ('dispatch.cpp', Index), ('dispatch.cpp', Types)]
FLAGS = ['-DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION']
DRIVERS = [('dispatch', FLAGS)]
LEVEL = 'proof'
NOTE = ('all outcomes of the predicates over lists of up to eight types (one-dimensional) and seven types (two-dimensional, the length of the library list), '
        'and every type number over the real list of matrix types. The lists are finite instances of one template recursion. Table dispatch (exec_dyn) '
        'is executed exhaustively over all 7 and 49 entries: bounded, not proved. An error is raised in the configuration with core failures as exceptions')
