from .sparse import *
from .c06 import r32

MINUS, PLUS = -1, 1


class DenseSparse(Contract):
    """element (i,j) is A(i,j) with every stored value of B for it added or
    taken away (fd, fs: signs of the dense and of the sparse operand)"""
    esd, ess, fd, fs, first = 8, 8, 1, 1, True
    assign, row = False, False

    def setup(self, ex, st, fn):
        rows, cols, n = [ivar(x, True) for x in 'rcn']
        # places of a line and lines
        r, c = self.r, self.c = (cols, rows) if self.row else (rows, cols)
        a = self.array(ex, st, 'A', r * c, es=self.esd, rw=self.assign)
        S = self.S = SparseIn(ex, st, self, c, r, n, self.ess)
        self.to = max(self.esd, self.ess)
        D = self.D = S.element(ex, 'D', None, lambda i, j: self.fd * self.elem('A', i + j * r), lambda prev, x: prev + self.fs * x)
        self.folds = [Fold('result', r, c, lambda i, j, k: D(i, j, k), K=lambda i, j: S.len(j), extents={'k': lambda tm: S.len(tm['j']) if 'j' in tm else None})]
        self.hooks = {'vc_dense' if self.to == 8 else 'vc_densef': self.out}
        return [a, rows, cols] + S.ptrs + [n]

    def out(self, ex, st, p, rows, cols, size):
        r, c = self.r, self.c
        if self.row:
            rows, cols = cols, rows
        ex.require(st, eq(rows, r), 'post: number of rows')
        ex.require(st, eq(cols, c), 'post: number of columns')
        ex.require(st, eq(size, r * c), 'post: number of elements')
        if not self.assign:
            ex.require(st, TRUE if isinstance(p, Ptr) and (p.reg is None or p.reg.kind != 'ext') else FALSE, 'post: the result has its own memory')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, r), lt(j, c)]
        self.inside(st, i, j, r, c)
        rd = self.read(ex, st, p, i + j * r, self.to)
        ex.require(st, req(rd, self.D(i, j, self.S.len(j))), 'post: element (i,j)')


class SparseSparse(Contract):
    """every line of the result is the merge of the lines of the operands"""
    es1, es2, sign, row = 8, 8, 1, False
    split, maps = True, False

    def setup(self, ex, st, fn):
        rows, cols, n, p = [ivar(x, True) for x in ('r', 'c', 'n', 'p')]
        r, c = self.r, self.c = (cols, rows) if self.row else (rows, cols)
        A = SparseIn(ex, st, self, c, r, n, self.es1)
        B = SparseIn(ex, st, self, c, r, p, self.es2, 'WLQ')
        M = self.M = Merge(ex, A, B, self.sign)
        self.to = max(self.es1, self.es2)
        self.scalars, self.folds = M.scalars(), M.folds()
        self.hooks = {'vc_sparse' if self.to == 8 else 'vc_sparsef': self.out}
        return [rows, cols] + A.ptrs + [n] + B.ptrs + [p]

    def out(self, ex, st, v, k, o, nnz, noff, rows, cols, size):
        r, c = self.r, self.c
        if self.row:
            rows, cols = cols, rows
        ex.require(st, eq(rows, r), 'post: number of rows')
        ex.require(st, eq(cols, c), 'post: number of columns')
        ex.require(st, eq(size, r * c), 'post: number of elements')
        self.M.check(ex, st, v, k, o, nnz, noff, self.to)


PROOFS = []
for n, kw in (('add_ss', {}), ('sub_ss', dict(sign=-1)), ('add_ssf', dict(es1=4, es2=4)), ('sub_ssfd', dict(es1=4, sign=-1)), ('add_ss_r', dict(row=True)), ('sub_ss_r', dict(row=True, sign=-1))):
    PROOFS.append(('sparse.cpp', type('vc_' + n, (SparseSparse,), dict(kw, entry='vc_' + n))))
for n, kw in (('add_ds', {}), ('sub_ds', dict(fs=-1)), ('add_sd', {}), ('sub_sd', dict(fd=-1)), ('sub_sdf', dict(fd=-1, esd=4, ess=4)), ('sub_sfd', dict(fd=-1, ess=4)),
              ('addto_ds', dict(assign=True)), ('add_ds_r', dict(row=True)), ('sub_ds_r', dict(row=True, fs=-1)), ('add_sd_r', dict(row=True)), ('sub_sd_r', dict(row=True, fd=-1)),
              ('addto_ds_r', dict(row=True, assign=True)), ('subto_ds', dict(assign=True, fs=-1)), ('subto_dsf', dict(assign=True, fs=-1, esd=4, ess=4))):
    PROOFS.append(('sparse.cpp', type('vc_' + n, (DenseSparse,), dict(kw, entry='vc_' + n))))
DRIVERS = ['sparse']
LEVEL = 'proof'
NOTE = ('all shapes, all elements, all well-formed sparse operands with growing places in every line (which every operation of the library produces); '
        'that a merged line expands to the element-wise sum or difference, and that its places grow, are lemmas proved by induction')


def extra_proofs(tier):
    return [dict(name='lemmas', obs=merge_lemmas(), functions=[], trusted=[])]
