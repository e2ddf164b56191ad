from .sparse import *


class Product(Contract):
    """element (i,j) is the sum over the stored elements in order"""
    # row: a row-major sparse operand; the product works with a column-major copy
    # rowd, rowres: a row-major dense operand or result
    es, again, row, rowd, rowres = 8, False, False, False, False

    def setup(self, ex, st, fn):
        v = self.params(ex, st)
        I, J, r = self.I, self.J, self.r
        self.hooks = {'vc_dense' if self.es == 8 else 'vc_densef': self.out}
        return v

    def out(self, ex, st, p, rows, cols, size):
        I, J = self.I, self.J
        ex.require(st, eq(rows, I), 'post: number of rows')
        ex.require(st, eq(cols, J), 'post: number of columns')
        ex.require(st, eq(size, I * J), 'post: number of elements')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, I), lt(j, J)]
        if self.rowres:
            self.inside(st, j, i, J, I)
        else:
            self.inside(st, i, j, I, J)
        rd = self.read(ex, st, p, j + i * J if self.rowres else i + j * I, self.es)
        ex.require(st, req(rd, self.want(i, j)), 'post: element (i,j) is the sum of the products')


def line_of(ex, S):
    """the line of stored element q"""
    line = lambda q: app('line of', 'I', q)

    def fact(q):
        out = [ge(line(q), 0)]
        for at in list(q.atoms()):
            if at.op == 'app' and at.a[0] == S.offsets:
                a = at.a[2] if len(at.a) > 2 else at.a[1]
                out.append(imp(conj(ge(a, 0), lt(a, S.m), le(S.O(a), q), lt(q, S.O(a + 1))), eq(line(q), a)))
        return out
    ex.facts.add('line of', fact)
    return line


class SparseDense(Product):
    def params(self, ex, st):
        r, c, n, d = [ivar(x, True) for x in 'rcnd']
        if self.row:
            R = SparseIn(ex, st, self, r, c, n, self.es)
            T = Turn(ex, R)
            S, ptrs = Turned(ex, T), R.ptrs
            self.scalars, before = T.scalars(), T.folds(lambda x: x)
        else:
            S = SparseIn(ex, st, self, c, r, n, self.es)
            ptrs, before = S.ptrs, []
        b = self.array(ex, st, 'B', c * d, es=self.es)
        self.I, self.J, self.r = r, d, c
        line = line_of(ex, S)
        B = lambda i, j: self.elem('B', j + i * d if self.rowd else i + j * c)
        E = self.E = ghost_rec(ex.facts, 'E', lambda i, j: ZERO,
                               lambda i, j, q, prev: ite(eq(S.K(q), i), prev + S.V(q) * B(line(q), j), prev, 'R'))
        self.want = lambda i, j: E(i, j, n)
        if self.rowd:
            before += [Fold('column-major copy', c, d, lambda i, j, q: B(i, j))]
        if self.rowres:
            before += [Fold('row-major result', d, r, lambda j, i, q: E(i, j, n))]
        self.folds = before + [Fold('result', r, d, lambda i, j, q: E(i, j, q), K=n,
                           extents={'l': lambda tm: c, 'k': lambda tm: S.len(tm['l']) if 'l' in tm else None},
                           kstep={'l': lambda t: (S.O(t), S.len(t))})]
        v = [r, c] + ptrs + [n, d, b]
        return v + [ivar('r2', True), ivar('c2', True)] if self.again else v


class DenseSparse(Product):
    def params(self, ex, st):
        m, r, c, n = [ivar(x, True) for x in 'mrcn']
        a = self.array(ex, st, 'A', m * r, es=self.es)
        if self.row:
            R = SparseIn(ex, st, self, r, c, n, self.es)
            T = Turn(ex, R)
            S, ptrs = Turned(ex, T), R.ptrs
            self.scalars, before = T.scalars(), T.folds(lambda x: x)
        else:
            S = SparseIn(ex, st, self, c, r, n, self.es)
            ptrs, before = S.ptrs, []
        self.I, self.J, self.r = m, c, r
        A = lambda i, j: self.elem('A', j + i * r if self.rowd else i + j * m)
        E = self.E = ghost_rec(ex.facts, 'E', lambda i, j: ZERO,
                               lambda i, j, k, prev: prev + A(i, S.K(S.O(j) + k)) * S.V(S.O(j) + k))
        self.want = lambda i, j: E(i, j, S.len(j))
        if self.rowd:
            before += [Fold('column-major copy', m, r, lambda i, j, q: A(i, j))]
        if self.rowres:
            before += [Fold('row-major result', c, m, lambda j, i, q: E(i, j, S.len(j)))]
        self.folds = before + [Fold('result', m, c, lambda i, j, k: E(i, j, k), K=lambda i, j: S.len(j),
                           extents={'k': lambda tm: S.len(tm['j']) if 'j' in tm else None})]
        v = [m, a, r, c] + ptrs + [n]
        return v + [ivar('r2', True), ivar('c2', True)] if self.again else v


class SparseSparse(Contract):
    """column j of the result: the places where the sum of the products is not
    zero, in order, with that sum"""
    es, again = 8, False

    def setup(self, ex, st, fn):
        r, c, n, d, p = [ivar(x, True) for x in ('r', 'c', 'n', 'd', 'p')]
        self.r, self.d = r, d
        A = self.A = SparseIn(ex, st, self, c, r, n, self.es)
        B = self.B = SparseIn(ex, st, self, d, c, p, self.es, 'WLQ')
        # one stored element q of B: its products with line K(q) of A
        Y = ghost_rec(ex.facts, 'Y', lambda i, q: ZERO,
                      lambda i, q, l, prev: ite(eq(A.K(A.O(B.K(q)) + l), i), prev + A.V(A.O(B.K(q)) + l) * B.V(q), prev, 'R'))
        X = ghost_rec(ex.facts, 'X', lambda i, j: ZERO, lambda i, j, k, prev: prev + Y(i, B.O(j) + k, A.len(B.K(B.O(j) + k))))
        E = lambda i, j: X(i, j, B.len(j))
        L = self.L = Selection(ex, d, r, E, lambda x: neg(req(x, 0)))
        ext = {'j': d, 'k': lambda t: B.len(t['j']) if 'j' in t else None,
               'l': lambda t: A.len(B.K(B.O(t['j']) + t['k'])) if 'k' in t else None}

        def scr(i, t):
            if 'k' not in t:
                return None
            x = X(i, t['j'], t['k'])
            return x + Y(i, B.O(t['j']) + t['k'], t['l']) if 'l' in t else x
        self.scalars = L.scalars(ex)
        self.folds = L.folds(lambda x: x) + [Whole('column', ext, r, scr)]
        self.hooks = {'vc_sparse' if self.es == 8 else 'vc_sparsef': self.out}
        v = [r, c] + A.ptrs + [n, d] + B.ptrs + [p]
        return v + [ivar('r2', True), ivar('c2', True)] if self.again else v

    def out(self, ex, st, v, k, o, nnz, noff, rows, cols, size):
        r, d = self.r, self.d
        ex.require(st, eq(rows, r), 'post: number of rows')
        ex.require(st, eq(cols, d), 'post: number of columns')
        ex.require(st, eq(size, r * d), 'post: number of elements')
        self.L.check(ex, st, v, k, o, nnz, noff, lambda x: x, self.es)


PROOFS = []
for n, b, kw in (('sd_r', SparseDense, dict(row=True)), ('ds_r', DenseSparse, dict(row=True)),
                 ('sd_rd', SparseDense, dict(rowd=True)), ('ds_rd', DenseSparse, dict(rowd=True)),
                 ('sd_rres', SparseDense, dict(rowres=True)), ('ds_rres', DenseSparse, dict(rowres=True)), ('sd', SparseDense, {}), ('sdf', SparseDense, dict(es=4)), ('sd_again', SparseDense, dict(again=True)),
                 ('ds', DenseSparse, {}), ('dsf', DenseSparse, dict(es=4)), ('ds_again', DenseSparse, dict(again=True)),
                 ('ss', SparseSparse, {}), ('ssf', SparseSparse, dict(es=4)), ('ss_again', SparseSparse, dict(again=True, slow=True))):
    PROOFS.append(('sparse.cpp', type('vc_mul_' + n, (b,), dict(kw, entry='vc_mul_' + n))))
DRIVERS = ['sparse']
NOTE = ('all shapes, all elements, all well-formed sparse operands; a row-major operand is turned by the proved conversion first; the products of two sparse matrices '
        'with a row-major operand or result, and those with more than one row-major matrix, are run in bounded cases only (conversion and column-major product, which they '
        'are made of, are proved)')


def extra_proofs(tier):
    return [dict(name='lemmas', obs=selection_lemmas(), functions=[], trusted=[])]
