from .dense import *


class All(DenseMap):
    def params(self, ex, st):
        self.I, self.J = ivar('m', True), ivar('n', True)
        self.x = rvar('x')
        return [self.I, self.J, self.x]

    def f(self, i, j):
        return self.x


class Cont(DenseMap):
    def params(self, ex, st):
        self.I, self.J = ivar('m', True), ivar('n', True)
        return [self.I, self.J]

    def f(self, i, j):
        return P(mk('i2r', 'R', self.pos(i, j))) + 1


class Hilbert(Cont):
    def f(self, i, j):
        return app('r:div', 'R', P(1), P(mk('i2r', 'R', i)) + P(mk('i2r', 'R', j)) + 1)


class Diag(All):
    """the scaled unit matrix; a matrix that is not square is rejected"""

    def setup(self, ex, st, fn):
        v = super().setup(ex, st, fn)
        return v

    def on_throw(self, ex, st, a):
        ex.require(st, ne(self.I, self.J), 'post: only a matrix that is not square is rejected')

    def out(self, ex, st, p, rows, cols, size):
        ex.require(st, eq(self.I, self.J), 'post: a matrix that is not square is rejected')
        st.pc.append(eq(self.I, self.J))
        keep, self.J = self.J, self.I
        super().out(ex, st, p, rows, cols, size)
        self.J = keep

    def mkfolds(self, ex):
        m = self.I
        return [Fold('zero', m, m, lambda i, j, c: ZERO),
                Diagonal('diagonal', m, m, lambda i, j, c: ite(conj(eq(i, j), eq(c, 1)), self.x, ZERO, 'R'))]

    def f(self, i, j):
        return ite(eq(i, j), self.x, ZERO, 'R')


class Diagonal(Fold):
    """the loop writes the diagonal only: cell (i,j) is done when i < t"""

    def __init__(self, *a):
        super().__init__(*a)
        self.ext = {'i': lambda tm: self.I}


class No(DenseMap):
    entry, arrays, rw = 'vc_fill_no', (('A', 8),), ('A',)

    def f(self, i, j):
        return self.at('A', i, j)


def into(base):
    """the matrix already holds other values"""
    class Into(base):
        def params(self, ex, st):
            v = super().params(ex, st)
            return v + [self.array(ex, st, 'A', v[0] * v[1], es=8, rw=True)]

        def initial(self, i, j):
            return self.at('A', i, j)

        if base is Diag:
            def mkfolds(self, ex):
                m = self.I
                fs = super().mkfolds(ex)
                return [Fold('zero', m, m, lambda i, j, c: ZERO if c.const() != 0 else self.at('A', i, j))] + fs[1:]
    return Into


T = lambda b, e, **kw: type(e, (b,), dict(kw, entry=e))
PROOFS = [('dense.cpp', c) for c in (
    T(All, 'vc_fill_all'), T(All, 'vc_fill_allf', es=4), T(All, 'vc_fill_all_row', row=True),
    T(Cont, 'vc_fill_cont'), T(Cont, 'vc_fill_cont_row', row=True), T(Hilbert, 'vc_fill_hilbert'), T(Hilbert, 'vc_fill_hilbert_row', row=True),
    T(into(All), 'vc_fill_all_into'), T(into(Cont), 'vc_fill_cont_into'), T(into(Hilbert), 'vc_fill_hilbert_into'),
    T(into(Diag), 'vc_fill_diag_into'), T(Diag, 'vc_fill_diag'), T(Diag, 'vc_fill_diag_row', row=True), No)]
DRIVERS = ['dense']
