from .sparse import *
from .c06 import r32


class Select(Contract):
    """line j of the result holds its accepted elements in order; nothing else"""
    es, to, src, line = 8, 8, 'c', 'c'      # src: storage order of the source

    def acc(self, x):
        return accept(x)

    def params(self, ex, st):
        r, c = ivar('r', True), ivar('c', True)
        self.r, self.c = r, c
        return [r, c, self.array(ex, st, 'A', r * c, es=self.es)]

    def setup(self, ex, st, fn):
        v = self.params(ex, st)
        r, c = self.r, self.c
        m, d = (c, r) if self.line == 'c' else (r, c)
        count = ghost_rec(ex.facts, 'count', lambda: ZERO, lambda t, n: n + ite(self.acc(self.elem('A', t)), ONE, ZERO, 'I'), sort='I')
        self.scalars = [Scal('counted so far', {'p': r * c}, lambda t: count(t['p']) if 'p' in t else None, sort='I', cls=('sym', 'cond'))]
        L = self.L = self.selection(ex, m, d, count)
        self.scalars += L.scalars(ex)
        self.f = (lambda x: x) if self.to >= self.es else r32
        self.folds = L.folds(self.f)
        self.hooks = {'vc_sparse' if self.to == 8 else 'vc_sparsef': self.out, 'vc_accept': lambda ex, st, x: accept(x)}
        return v

    def selection(self, ex, m, d, count):
        return Selection(ex, m, d, lambda i, j: self.elem('A', i + j * d), self.acc, count)

    def out(self, ex, st, v, k, o, nnz, noff, rows, cols, size):
        r, c, L = self.r, self.c, self.L
        ex.require(st, eq(rows, r), 'post: number of rows')
        ex.require(st, eq(cols, c), 'post: number of columns')
        ex.require(st, eq(size, r * c), 'post: number of elements')
        L.check(ex, st, v, k, o, nnz, noff, self.f, self.to)


class Turned(Select):
    """source and target differ in their storage order"""

    def selection(self, ex, m, d, count):
        ld = self.r if self.src == 'c' else self.c
        return Selection(ex, m, d, lambda i, j: self.elem('A', j + i * ld), self.acc, None, count(self.r * self.c))


class OfView(Select):
    def params(self, ex, st):
        R, C, r, c, br, bc = self.v = [ivar(x, True) for x in ('R', 'C', 'r', 'c', 'br', 'bc')]
        st.pc += [le(br + r, R), le(bc + c, C)]
        self.r, self.c = r, c
        return [R, C, self.array(ex, st, 'A', R * C, es=self.es), r, c, br, bc]

    def selection(self, ex, m, d, count):
        R, C, r, c, br, bc = self.v
        base = br + bc * R
        self.stripes = [Stripe('A', r, c, R, base, es=self.es, lemmas=lambda p, b: [prodfact(C - bc - b - 1, R), prodfact(bc + b, R)])]
        return Selection(ex, m, d, lambda i, j: self.elem('A', base + i + j * R), self.acc)


class Default(Select):
    def acc(self, x):
        return rlt(0, self.fabs(x))


class InRange(Select):
    def params(self, ex, st):
        v = super().params(ex, st)
        self.lo, self.hi = rvar('lo'), rvar('hi')
        st.pc += [rle(0, self.lo), rlt(self.lo, self.hi)]
        return v + [self.lo, self.hi]

    def acc(self, x):
        return conj(rlt(self.lo, self.fabs(x)), rle(self.fabs(x), self.hi))


PROOFS = []
for n, b, kw in (('cc', Select, {}), ('df', Select, dict(to=4)), ('fd', Select, dict(es=4)), ('ff', Select, dict(es=4, to=4)), ('rr', Select, dict(src='r', line='r')),
                 ('cr', Turned, dict(line='r')), ('rc', Turned, dict(src='r')), ('view', OfView, {}), ('viewf', OfView, dict(to=4)),
                 ('default', Default, {}), ('range', InRange, {})):
    PROOFS.append(('sparse.cpp', type('vc_sel_' + n, (b,), dict(kw, entry='vc_sel_' + n))))
DRIVERS = ['sparse']
NOTE = ('all shapes, all elements, every significance test (and the two default ones); views: the elements of the block; '
        'that counting row by row and column by column gives the same number is a lemma, proved by induction')


def extra_proofs(tier):
    return [dict(name='lemmas', obs=double_counting() + selection_lemmas(), functions=[], trusted=[])]
