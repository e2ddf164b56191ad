from .dense import *
from .c02 import View, Write


class Conv(DenseMap):
    """B(i,j) is A(i,j) in the precision of B; ra: A row-major, row: B row-major"""
    ra = False
    ea = 8

    def params(self, ex, st):
        m, n = self.m, self.n = ivar('m', True), ivar('n', True)
        self.I, self.J = m, n
        v = [m, n, self.array(ex, st, 'A', m * n, es=self.ea)]
        if self.dest:
            v.append(self.array(ex, st, 'B', m * n, es=self.es, rw=True))
        return v

    dest = False

    def f(self, i, j):
        x = self.at('A', i, j, self.ra)
        return r32(x) if self.es < self.ea else x

    def initial(self, i, j):
        return self.at('B', i, j) if self.dest else None

    def mkfolds(self, ex):
        out = super().mkfolds(ex)
        if self.ra != self.row and self.es != self.ea:      # reordered first, rounded afterwards
            out.append(Fold('reordered', self.J, self.I, lambda b, a, c: self.at('A', a, b, self.ra)) if self.row else
                       Fold('reordered', self.I, self.J, lambda a, b, c: self.at('A', a, b, self.ra)))
        return out


def conv(e, **kw):
    return type(e, (Conv,), dict(kw, entry=e))


class AssignValue(DenseMap):
    entry, arrays, rw = 'vc_assign_value', (('A', 8),), ('A',)

    def params(self, ex, st):
        self.x = rvar('x')
        return super().params(ex, st) + [self.x]

    def f(self, i, j):
        return self.x

    def initial(self, i, j):
        return self.at('A', i, j)


class FromView(View):
    """the matrix B is the block in the precision of B; given: B exists before"""
    to, given = 8, False

    def f(self, i, j):
        x = self.elem('A', self.base + i + j * self.ld)
        return r32(x) if self.to < self.es else x

    def setup(self, ex, st, fn):
        v = self.params(ex, st)
        r, c = self.r, self.c
        if self.given:
            v.append(self.array(ex, st, 'B', r * c, rw=True))
        self.stripes = self.striped()
        self.folds = [Fold('result', r, c, lambda i, j, k: self.elem('B', i + j * r) if self.given and k.const() == 0 else self.f(i, j))]
        self.hooks = {'vc_dense' if self.to == 8 else 'vc_densef': self.out}
        return v

    def out(self, ex, st, p, rows, cols, size):
        st.user['seen'] = 1
        r, c = self.r, self.c
        ex.require(st, conj(eq(rows, r), eq(cols, c), eq(size, r * c)), 'post: shape')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, r), lt(j, c)]
        self.inside(st, i, j, r, c)
        ex.require(st, req(self.read(ex, st, p, i + j * r, self.to), self.f(i, j)), 'post: element (i,j) is element (i,j) of the block')

    end = Write.end


class ToView(Write):
    """the block holds the elements of B, the other elements are kept"""

    def params(self, ex, st):
        return super().params(ex, st) + [self.array(ex, st, 'B', self.r * self.c)]

    def lemmas(self, p, b):
        n = ivar('j0', True) - self.bc - b
        return super().lemmas(p, b) + [imp(eq(n, 0), eq(n * self.r, 0))]

    def arith(self, t):
        n = ivar('j0', True) - self.bc - t
        return super().arith(t) + [imp(eq(n, 0), eq(n * self.r, 0))]

    def val(self, i, j, k):
        return self.elem('B', i - self.br + (j - self.bc) * self.r) if k == ONE else self.elem('A', i + j * self.R)

    def setup(self, ex, st, fn):
        return super().setup(ex, st, fn)[:-1]

    def want(self, i, j):
        return self.val(i, j, ONE)


PROOFS = [('dense.cpp', c) for c in (
    conv('vc_conv_copy'), conv('vc_conv_df', es=4), conv('vc_conv_fd', ea=4), conv('vc_conv_cr', row=True), conv('vc_conv_rc', ra=True),
    conv('vc_conv_crf', row=True, es=4), conv('vc_copy', dest=True), conv('vc_copy_cr', dest=True, row=True), conv('vc_copy_df', dest=True, es=4), AssignValue,
    type('vc_conv_view', (FromView,), dict(entry='vc_conv_view')), type('vc_conv_viewf', (FromView,), dict(entry='vc_conv_viewf', to=4)),
    type('vc_copy_from_view', (FromView,), dict(entry='vc_copy_from_view', given=True)), type('vc_copy_to_view', (ToView,), dict(entry='vc_copy_to_view')))]
DRIVERS = ['dense']
