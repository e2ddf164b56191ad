from .sparse import *
from .c06 import r32


class Trans(DenseMap):
    arrays = (('A', 8),)

    def params(self, ex, st):
        v = super().params(ex, st)
        self.I, self.J = self.n, self.m
        return v

    def f(self, i, j):
        return self.elem('A', i + j * self.n if self.row else j + i * self.m)


class TransCol(Trans):
    entry = 'vc_trans_col'


class TransRow(Trans):
    entry, row = 'vc_trans_row', True


class TransF(Trans):
    entry, es, arrays = 'vc_trans_f', 4, (('A', 4),)


class TransSparse(Contract):
    es, to, result, row = 8, 8, 'cr', False

    def setup(self, ex, st, fn):
        rows, cols, n = [ivar(x, True) for x in 'rcn']
        # places of a line and lines
        r, c = self.r, self.c = (cols, rows) if self.row else (rows, cols)
        A = self.A = SparseIn(ex, st, self, c, r, n, self.es)
        T = self.T = Turn(ex, A)
        self.f = (lambda x: x) if self.to >= self.es else r32
        self.scalars, self.folds = T.scalars(), T.folds(self.f)
        self.hooks = {'vc_sparse' if self.to == 8 else 'vc_sparsef': self.out}
        return [rows, cols] + A.ptrs + [n]

    def out(self, ex, st, v, k, o, nnz, noff, rows, cols, size):
        r, c = self.r, self.c
        if self.result == 'cr':
            r, c = c, r
        ex.require(st, eq(rows, r), 'post: number of rows')
        ex.require(st, eq(cols, c), 'post: number of columns')
        ex.require(st, eq(size, r * c), 'post: number of elements')
        self.T.check(ex, st, v, k, o, nnz, noff, self.f, self.to)


class SameSparse(TransSparse):
    """same lines, every element converted"""

    def out(self, ex, st, v, k, o, nnz, noff, rows, cols, size):
        r, c, A = self.r, self.c, self.A
        ex.require(st, eq(rows, r), 'post: number of rows')
        ex.require(st, eq(cols, c), 'post: number of columns')
        ex.require(st, eq(size, r * c), 'post: number of elements')
        ex.require(st, eq(noff, c + 1), 'post: one offset per line and one more')
        ex.require(st, eq(nnz, A.n), 'post: as many stored elements')
        q, j = ivar('q', True), ivar('line', True)
        s = st.copy()
        s.pc.append(le(j, c))
        ex.require(s, eq(self.read(ex, s, o, j, 8), A.O(j)), 'post: the lines start where they did')
        st.pc.append(lt(q, A.n))
        ex.require(st, req(self.read(ex, st, v, q, self.to), self.f(A.V(q))), 'post: an element keeps its value')
        ex.require(st, eq(self.read(ex, st, k, q, 8), A.K(q)), 'post: an element keeps its place')


PROOFS = [('dense.cpp', c) for c in (TransCol, TransRow, TransF)]
for n, b, kw in (('trs', TransSparse, {}), ('trsf', TransSparse, dict(es=4, to=4)), ('conv_scr', TransSparse, dict(result='rc')), ('conv_src', TransSparse, dict(row=True)), ('conv_ss', SameSparse, dict(to=4))):
    PROOFS.append(('sparse.cpp', type('vc_' + n, (b,), dict(kw, entry='vc_' + n))))
DRIVERS = ['dense', 'sparse']


def extra_proofs(tier):
    return [dict(name='lemmas', obs=turn_lemmas(), functions=[], trusted=[])]
NOTE = ('dense: all shapes, all elements; sparse: all well-formed operands, every stored element is found at its place in the turned matrix, and nothing else is; '
        'that the places are different and fill the result are lemmas proved by induction')
