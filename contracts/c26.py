from .dense import *


class Shape(Contract):
    """reported shape and number of cells; n: how many (rows, columns) pairs"""
    n, row, ext = 1, False, False

    def setup(self, ex, st, fn):
        v = []
        for k in range(self.n):
            v += [ivar('r%d' % k, True), ivar('c%d' % k, True)]
        self.r, self.c = v[-2:] if v else (ZERO, ZERO)
        if self.ext:
            v.append(self.array(ex, st, 'A', self.r * self.c))
        self.seen = 0
        self.hooks = {'vc_counts': self.out}
        return v

    def out(self, ex, st, a, b, c, d):
        r, k = self.r, self.c
        if not st.user.get('seen'):
            st.user['seen'] = 1
            ex.require(st, eq(a, r), 'post: rows')
            ex.require(st, eq(b, k), 'post: columns')
            ex.require(st, eq(c, r * k), 'post: number of elements')
            ex.require(st, eq(d, r * k), 'post: number of cells')
        else:
            mj, mn = (k, r) if self.row else (r, k)
            ex.require(st, eq(a, mj), 'post: major length')
            ex.require(st, eq(b, mn), 'post: minor length')


class Same(DenseMap):
    entry, arrays, rw = 'vc_resize_same', (('A', 8),), ('A',)

    def f(self, i, j):
        return self.at('A', i, j)


class ResizeFill(DenseMap):
    entry = 'vc_resize_fill'

    def params(self, ex, st):
        self.I, self.J = ivar('r', True), ivar('c', True)
        self.x = rvar('x')
        return [ivar('m', True), ivar('n', True), self.I, self.J, self.x]

    def f(self, i, j):
        return self.x


T = lambda b, e, **kw: type(e, (b,), dict(kw, entry=e))
PROOFS = [('dense.cpp', c) for c in (
    T(Shape, 'vc_shape_new'), T(Shape, 'vc_shape_new_row', row=True), T(Shape, 'vc_shape_newf'), T(Shape, 'vc_shape_ext', ext=True), T(Shape, 'vc_shape_empty', n=0),
    T(Shape, 'vc_shape_resize', n=2), T(Shape, 'vc_shape_resize2', n=3), T(Shape, 'vc_shape_resize_row', n=2, row=True), Same, ResizeFill)]
DRIVERS = ['dense']
