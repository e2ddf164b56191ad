from vcgen.contract import *
from vcgen.exec import Ptr


class Gemm(Contract):
    """one gemm call computing C = A B, nothing else"""

    def setup(self, ex, st, fn):
        self.es = es = 8 if '_d_' in self.entry else 4
        m, k, n = self.m, self.k, self.n = [ivar(x, True) for x in 'mkn']
        r = [m, k, n, self.array(ex, st, 'A', m * k, es=es), self.array(ex, st, 'B', k * n, es=es)]
        if 'again' in self.entry:
            r += [ivar('r', True), ivar('c', True)]
        g, o = ('vc_dgemm', 'vc_dense') if es == 8 else ('vc_sgemm', 'vc_densef')
        self.hooks = {g: self.gemm, o: self.out}
        return r

    def gemm(self, ex, st, ta, tb, m, n, k, al, a, la, b, lb, be, c, lc):
        q = lambda x, y, w: ex.require(st, eq(P(x), P(y)), 'post: ' + w)
        q(ta, ord('N'), 'A is not transposed')
        q(tb, ord('N'), 'B is not transposed')
        q(m, self.m, 'rows of the product')
        q(n, self.n, 'columns of the product')
        q(k, self.k, 'inner length')
        q(la, self.m, 'leading dimension of A')
        q(lb, self.k, 'leading dimension of B')
        q(lc, self.m, 'leading dimension of C')
        ex.require(st, req(al, P(1)), 'post: the product is scaled by one')
        ex.require(st, req(be, P(0)), 'post: the old result is scaled by zero')
        for p, nm in ((a, 'A'), (b, 'B')):
            ok = isinstance(p, Ptr) and p.reg is not None and p.reg.name == nm
            ex.require(st, TRUE if ok else FALSE, 'post: the elements of %s are passed' % nm)
            if ok:
                ex.require(st, eq(p.off, 0), 'post: from the first element of %s on' % nm)
        if st.user.get('gemm'):
            ex.require(st, FALSE, 'post: only one call')
        if isinstance(c, Ptr) and c.reg is None and ex.prove(st, eq(self.m * self.n, 0))[0]:
            st.user['gemm'] = (None,)
            return
        ok = isinstance(c, Ptr) and c.reg is not None and c.reg.name not in ('A', 'B') and c.reg not in st.freed
        ex.require(st, TRUE if ok else FALSE, 'post: the result has memory of its own')
        if ok:
            ex.require(st, conj(eq(c.off, 0), le(self.m * self.n * self.es, c.reg.size)), 'post: enough memory for the result')
        st.user['gemm'] = (c.reg,) if ok else (None,)

    def out(self, ex, st, p, rows, cols, size):
        ex.require(st, eq(rows, self.m), 'post: number of rows')
        ex.require(st, eq(cols, self.n), 'post: number of columns')
        ex.require(st, eq(size, self.m * self.n), 'post: number of elements')
        g = st.user.get('gemm')
        ok = g and isinstance(p, Ptr) and p.reg is g[0]
        ex.require(st, TRUE if ok else FALSE, 'post: the result is what the one call wrote')
        if ok:
            ex.require(st, eq(p.off, 0), 'post: the result starts where the call wrote')


PROOFS = [('gemm.cpp', type(e, (Gemm,), dict(entry=e))) for e in ('vc_%s_%s_%s' % (l, t, k) for l in ('open', 'mkl') for t in 'ds' for k in ('fresh', 'again', 'expr'))]
DRIVERS = ['gemm']
TRUST = ['the BLAS library computes C = alpha op(A) op(B) + beta C', 'sizes fit in 32 bits, and the low half of a size comes first in memory (little endian)']
NOTE = ('all shapes (that fit the 32-bit BLAS interface), OpenBLAS and IntelMKL, double and float; BLAS itself is trusted. The sizes are handed to BLAS as int')
