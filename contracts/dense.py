"""contracts for operations whose result is an element-wise function of the input"""
from vcgen.contract import *


class DenseMap(Contract):
    """result r x c with element (i,j) == f(i,j)"""
    es = 8                   # element size of the result
    row = False              # result is row-major
    hook = None
    arrays = ()              # (name, element size)
    what = 'element (i,j)'
    rw = ()

    def params(self, ex, st):
        """values of the entry parameters"""
        m, n = self.m, self.n = ivar('m', True), ivar('n', True)
        self.I, self.J = m, n
        return [m, n] + [self.array(ex, st, nm, m * n, es=es, rw=nm in self.rw) for nm, es in self.arrays]

    def shape(self):
        return self.I, self.J

    def f(self, i, j):
        raise NotImplementedError

    def pos(self, i, j):
        return j + i * self.J if self.row else i + j * self.I

    def at(self, nm, i, j, row=None):
        """input element (i,j)"""
        row = self.row if row is None else row
        return self.elem(nm, j + i * self.J if row else i + j * self.I)

    def initial(self, i, j):
        return None

    def mkfolds(self, ex):
        I, J = self.shape()
        if self.row:
            val = lambda b, a, c: self.val(a, b, c)
            I, J = J, I
        else:
            val = lambda a, b, c: self.val(a, b, c)
        return [Fold('result', I, J, val)]

    def val(self, i, j, c):
        if c.const() == 0:
            x = self.initial(i, j)
            if x is not None:
                return x
        return self.f(i, j)

    def setup(self, ex, st, fn):
        v = self.params(ex, st)
        self.folds = self.mkfolds(ex)
        self.hooks = {self.hook or ('vc_dense' if self.es == 8 else 'vc_densef'): self.out}
        return v

    def out(self, ex, st, p, rows, cols, size):
        I, J = self.shape()
        ex.require(st, eq(rows, I), 'post: number of rows')
        ex.require(st, eq(cols, J), 'post: number of columns')
        ex.require(st, eq(size, I * J), 'post: number of elements')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, I), lt(j, J)]
        if self.row:
            self.inside(st, j, i, J, I)
        else:
            self.inside(st, i, j, I, J)
        rd = self.read(ex, st, p, self.pos(i, j), self.es)
        ex.require(st, req(rd, self.f(i, j)), 'post: ' + self.what)


def r32(x):
    return app('r:r32', 'R', x)


def make(base, name, **kw):
    return type(name, (base,), kw)
