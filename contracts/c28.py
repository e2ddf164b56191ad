from vcgen.contract import *
from contracts.c19 import Header


class Product(Contract):
    """block (i,j) is the sum, in order, of the products of block (i,l) and block (l,j)"""
    entry = 'vc_blocked_product'
    PLUS = '_ZN11BlasBoosterplERKSt10shared_ptrINS_10MatrixBaseEES4_'
    again = False

    def setup(self, ex, st, fn):
        r, k, c = self.dims = tuple(ivar(x, True) for x in 'rkc')
        R, K, C = self.whole = tuple(ivar(x, True) for x in 'RKC')
        a, b = self.array(ex, st, 'a', r * k, es=8, sort='I', nonneg=True), self.array(ex, st, 'b', k * c, es=8, sort='I', nonneg=True)
        A, B = (lambda t: self.elem('a', t, 'I')), (lambda t: self.elem('b', t, 'I'))
        self.A, self.B = A, B
        mul, add = (lambda x, y: app('mul', 'I', x, y)), (lambda x, y: app('add', 'I', x, y))
        term = lambda i, j, l: mul(A(i + l * r), B(l + j * k))
        # E(i,j,l): the sum of the first l + 1 products
        E = self.E = ghost_rec(ex.facts, 'sum', lambda i, j: term(i, j, ZERO), lambda i, j, l, m: add(m, term(i, j, l + 1)), sort='I')
        part = lambda i, j, l, was: was if l.const() == 0 else E(i, j, l - 1) if l.const() is not None else ite(eq(l, 0), was, E(i, j, l - 1), 'I')
        args = [r, k, c, R, K, C, a, b]
        copies = [('a', r, k, A), ('b', k, c, B)]
        if self.again:
            dr, dc = ivar('dr', True), ivar('dc', True)
            args += [dr, dc, self.array(ex, st, 'd', dr * dc, es=8, sort='I', nonneg=True)]
            copies.append(('d', dr, dc, lambda t: self.elem('d', t, 'I')))
        self.folds = []
        for o in (2, 1, 0):
            self.folds += [Fold('blocks of %s, after %d words' % (n, o), y, z, (lambda i, j, k, y=y, v=v: v(i + j * y) if k.const() != 0 else ZERO), sort='I', off=o) for n, y, z, v in copies]
            for n, w in [('', lambda i, j: ZERO)] + [(' over the old blocks', lambda i, j: self.elem('d', i + j * r, 'I'))] * self.again:
                self.folds.append(Fold('product%s, after %d words' % (n, o), r, c, lambda i, j, l, w=w: part(i, j, l, w(i, j)), K=k, sort='I', off=o,
                                       extents={'k1': lambda tm: k - 1}, kstep={'k1': lambda t: (1 + t, ONE)}))
        self.hooks = {'vc_mul': lambda ex, st, x, y: mul(x, y), self.PLUS: lambda ex, st, x, y: add(self.read(ex, st, x, ZERO, 8), self.read(ex, st, y, ZERO, 8)), 'vc_blocks_are': self.out}
        return args

    def invariants(self, ex, st, ctx):
        out = super().invariants(ex, st, ctx)
        for reg in ctx.arrs:
            if reg.kind != 'ext':
                try:
                    out.append(Header(reg, st.mem[reg].read(ZERO)))
                except Exception:
                    pass
        return out

    def out(self, ex, st, p, r, c, R, C):
        n = st.user['seen'] = st.user.get('seen', 0) + 1
        i, j = ivar('i', True), ivar('j', True)
        (nr, nk, nc), (wr, wk, wc) = self.dims, self.whole
        if n == 1:
            ex.require(st, conj(eq(r, nr), eq(c, nc)), 'post: a block per row of blocks of A and column of blocks of B')
            ex.require(st, conj(eq(R, wr), eq(C, wc)), 'post: the rows of A and the columns of B')
            st.pc += [lt(i, nr), lt(j, nc), ge(nk, 1)]
            ex.require(st, eq(self.read(ex, st, p, i + j * nr, 8), self.E(i, j, nk - 1)), 'post: block (i,j) is the sum of the products of row i and column j')
            return
        x, y, v = [(nr, nk, self.A), (nk, nc, self.B)][n - 2]
        ex.require(st, conj(eq(r, x), eq(c, y), *[eq(s, t) for s, t in zip((R, C), self.whole[n - 2:n])]), 'post: the factors keep their shape')
        st.pc += [lt(i, x), lt(j, y)]
        ex.require(st, eq(self.read(ex, st, p, i + j * x, 8), v(i + j * x)), 'post: the factors keep their blocks')

    def end(self, ex, st, rv):
        ex.require(st, TRUE if st.user.get('seen') == (1 if self.again else 3) else FALSE, 'post: the product is made')


PROOFS = [('blockmul.cpp', type(e, (Product,), dict(entry=e, again=e != 'vc_blocked_product'))) for e in ('vc_blocked_product', 'vc_blocked_into', 'vc_blocked_functor')]
DRIVERS = ['blockmul']
TRUST = ['the product of two blocks (MatrixMultExp<DynamicMatrix, DynamicMatrix>::execute<TheBestPolicy>) and the sum of two blocks (operator+) by contract: one new block, the operands stay; C07-C11 and C22',
         'std::shared_ptr<MatrixBase> is a number here']
NOTE = ('all block counts and all block contents, into new and into used matrices; the blocks are abstract, products and sums of two blocks are taken by contract; '
        'whole products with the real block types run in bounded cases, compared to the product of the unsplit matrices')
