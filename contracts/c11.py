"""the zero matrix is the neutral and the absorbing element; a composite matrix
is the sum of its parts"""
from .dense import *
from .c12 import Sparse as SparseCopy


class Op(DenseMap):
    arrays = (('A', 8),)
    sign = 1

    def f(self, i, j):
        return self.at('A', i, j) * self.sign

    def initial(self, i, j):
        return self.at('A', i, j)


class FromZero(DenseMap):
    entry = 'vc_z_dense'
    what = 'every element is 0'

    def f(self, i, j):
        return ZERO


ALL = [('algebra.cpp', FromZero)]
for e, kw in dict(vc_dz_add={}, vc_dz_sub={}, vc_zd_add={}, vc_zd_sub=dict(sign=-1), vc_fz_add=dict(es=4, arrays=(('A', 4),)), vc_zf_sub=dict(es=4, arrays=(('A', 4),), sign=-1),
                  vc_dz_add_to=dict(rw=('A',)), vc_dz_sub_to=dict(rw=('A',))).items():
    ALL.append(('algebra.cpp', make(Op, e, entry=e, **kw)))


class Shape(Contract):
    """zero matrices shown one after the other"""
    def setup(self, ex, st, fn):
        self.want, v = self.args(ex, st)
        self.hooks = {'vc_counts': self.counts}
        return v

    def counts(self, ex, st, a, b, s, _):
        k = st.user['n'] = st.user.get('n', 0) + 1
        r, c = self.want[k - 1]
        ex.require(st, conj(eq(a, r), eq(b, c), eq(s, r * c)), 'post: shape of zero matrix %d' % k)

    def end(self, ex, st, rv):
        super().end(ex, st, rv)
        ex.require(st, TRUE if st.user.get('n', 0) == len(self.want) else FALSE, 'post: every result was looked at')


def shape(e):
    def deco(f):
        ALL.append(('algebra.cpp', type(e, (Shape,), dict(entry=e, args=f))))
        return f
    return deco


@shape('vc_zz')
def _(s, ex, st):
    r, c, d = [ivar(x, True) for x in 'rcd']
    return [(r, c)] * 4 + [(r, d)], [r, c, d]


@shape('vc_dz_mul')
def _(s, ex, st):
    r, c, d = [ivar(x, True) for x in 'rcd']
    return [(r, d)], [r, c, d, s.array(ex, st, 'A', r * c)]


@shape('vc_zd_mul')
def _(s, ex, st):
    r, c, d = [ivar(x, True) for x in 'rcd']
    return [(d, c)], [r, c, d, s.array(ex, st, 'A', r * c)]


@shape('vc_z_from')
def _(s, ex, st):
    r, c = [ivar(x, True) for x in 'rc']
    return [(r, c)], [r, c, s.array(ex, st, 'A', r * c)]


class SparseMul(Shape):
    def args(self, ex, st):
        r, c, n, d = [ivar(x, True) for x in 'rcnd']
        v = [r, c, self.array(ex, st, 'V', n), self.array(ex, st, 'K', n, sort='I', nonneg=True), self.array(ex, st, 'O', c + 1, sort='I', nonneg=True), n, d]
        return [(r, d) if self.left else (d, c)], v


for e, l in (('vc_sz_mul', True), ('vc_zs_mul', False)):
    ALL.append(('algebra.cpp', type(e, (SparseMul,), dict(entry=e, left=l))))


class SparseZero(SparseCopy):
    """the sparse operand again, its values times sign"""
    order = 'A'
    sign = 1
    es = 8

    def setup(self, ex, st, fn):
        r, c, n = [ivar(y, True) for y in 'rcn']
        a, k, o = 'V', 'K', 'O'
        v = [r, c, self.array(ex, st, a, n, es=self.es), self.array(ex, st, k, n, sort='I', nonneg=True), self.array(ex, st, o, c + 1, sort='I', nonneg=True), n]
        self.m = {'A': (r, c, n, a, k, o)}
        st.pc.append(ge(n, 1))       # 0 asks for room for all elements
        val = lambda i, j, t: self.elem(a, i) * (1 if t.const() == 0 else self.sign)
        self.folds = [Fold('values', n, 1, val)]
        for nm, so, ln in ((a, 'R', n), (k, 'I', n), (o, 'I', c + 1)):
            self.folds.append(Fold('copy of ' + nm, ln, 1, lambda i, j, t, nm=nm, so=so: self.elem(nm, i, so) if t.const() != 0 else app('r:old.' + nm, so, i), sort=so))
        self.hooks = {'vc_sparse': self.out, 'vc_sparsef': self.out}
        return v

    def out(self, ex, st, v, k, o, nnz, noff, rows, cols, size):
        t = st.user['shown'] = st.user.get('shown', 0) + 1
        r, c, n, V, K, O = self.m['A']
        ex.require(st, conj(eq(rows, r), eq(cols, c), eq(size, r * c)), 'post: shape')
        ex.require(st, conj(eq(nnz, n), eq(noff, c + 1)), 'post: number of stored elements')
        q = ivar('q', True)
        st.pc.append(lt(q, n))
        ex.require(st, req(Contract.read(self, ex, st, v, q, self.es), self.elem(V, q) * self.sign), 'post: values')
        ex.require(st, eq(Contract.read(self, ex, st, k, q), self.elem(K, q, 'I')), 'post: rows')
        st.pc.pop()
        st.pc.append(lt(q, c + 1))
        ex.require(st, eq(Contract.read(self, ex, st, o, q), self.elem(O, q, 'I')), 'post: column starts')


for e, kw in dict(vc_sz_add={}, vc_sz_sub={}, vc_zs_add={}, vc_zs_sub=dict(sign=-1), vc_zsf_sub=dict(sign=-1, es=4)).items():
    ALL.append(('algebra.cpp', type(e, (SparseZero,), dict(kw, entry=e))))

PROOFS = ALL
DRIVERS = ['algebra', 'dynalg']
