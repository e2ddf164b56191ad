from vcgen.contract import *


class Product(Contract):
    """C(i,j) = sum over l of A(i,l) B(l,j); layout functions make it usable
    for both orders"""
    ea = eb = ec = 8
    order = 'ccc'           # of A, B and C
    again = False
    hook = 'vc_dense'

    def begin(self, ex):
        super().begin(ex)
        m, k, n = self.m, self.k, self.n = ivar('m', True), ivar('k', True), ivar('n', True)
        oa, ob, oc = self.order
        A = (lambda i, l: self.elem('A', l + i * k)) if oa == 'r' else (lambda i, l: self.elem('A', i + l * m))
        B = (lambda l, j: self.elem('B', j + l * n)) if ob == 'r' else (lambda l, j: self.elem('B', l + j * k))
        # a is the index within a line of the result, b the line
        S = ghost_sum(ex.facts, 'S', lambda i, j: ZERO, lambda i, j, l: A(i, l) * B(l, j), 2)
        self.S = S
        if oc == 'r':
            self.folds = [Fold('product', n, m, lambda a, b, c: S(b, a, c), K=k)]
        else:
            self.folds = [Fold('product', m, n, lambda a, b, c: S(a, b, c), K=k)]
        self.hooks = {self.hook: self.out}

    def setup(self, ex, st, fn):
        r = [self.m, self.k, self.n, self.array(ex, st, 'A', self.m * self.k, es=self.ea), self.array(ex, st, 'B', self.k * self.n, es=self.eb)]
        if self.again:
            r += [ivar('r', True), ivar('c', True)]
        return r

    def out(self, ex, st, p, rows, cols, size):
        ex.require(st, eq(rows, self.m), 'C has the rows of A')
        ex.require(st, eq(cols, self.n), 'C has the columns of B')
        ex.require(st, eq(size, self.m * self.n), 'C has that many elements')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, self.m), lt(j, self.n)]
        rd = self.read(ex, st, p, j + i * self.n if self.order[2] == 'r' else i + j * self.m, self.ec)
        ex.require(st, req(rd, self.S(i, j, self.k)), 'C(i,j) = sum_k A(i,k) B(k,j)')


class Dense(Product):
    entry = 'vc_dense_product'


class DenseAgain(Product):
    entry, again = 'vc_dense_product_again', True


class DenseFloat(Product):
    entry, ea, eb, ec, hook = 'vc_dense_product_float', 4, 4, 4, 'vc_densef'


class DenseMixed(Product):
    entry, ea = 'vc_dense_product_mixed', 4


class DenseMixed2(Product):
    entry, eb = 'vc_dense_product_mixed2', 4


class Cursor(Product):
    entry = 'vc_cursor_product'


class CursorAgain(Product):
    entry, again = 'vc_cursor_product_again', True


class CursorRow(Product):
    entry, order = 'vc_cursor_product_rowmajor', 'rrr'


MIXED = [type('Mixed_' + o, (Product,), dict(entry='vc_dense_product_' + o, order=o)) for o in ('rrc', 'rcc', 'crc', 'rrr', 'ccr')]
MIXED.append(type('MixedOp', (Product,), dict(entry='vc_dense_product_op', order='rrc')))
PROOFS = [('product.cpp', c) for c in (Dense, DenseAgain, DenseFloat, DenseMixed, DenseMixed2, Cursor, CursorAgain, CursorRow, *MIXED)]
DRIVERS = ['product']
