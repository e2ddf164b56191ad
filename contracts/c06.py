from .sparse import *


class Expand(Contract):
    """the value of element (i,j) is the last stored value for it in its line,
    zero if there is none"""
    es, to, line, row = 8, 8, 'c', False      # line: lines of the sparse matrix are columns / rows

    def setup(self, ex, st, fn):
        r, c, n = [ivar(x, True) for x in 'rcn']
        self.r, self.c = r, c
        m, d = (c, r) if self.line == 'c' else (r, c)
        S = self.S = SparseIn(ex, st, self, m, d, n, self.es)
        f = (lambda x: x) if self.to >= self.es else r32
        D = self.D = S.element(ex, 'D', f)
        if (self.line == 'c') != self.row:      # lines are contiguous in the result
            self.folds = [Fold('result', d, m, lambda i, j, k: D(i, j, k), K=lambda i, j: S.len(j), extents={'k': lambda tm: S.len(tm['j']) if 'j' in tm else None})]
        else:
            self.folds = [Fold('result', m, d, lambda j, i, k: D(i, j, k), K=lambda j, i: S.len(j), extents={'k': lambda tm: S.len(tm['i']) if 'i' in tm else None})]
        self.hooks = {'vc_dense' if self.to == 8 else 'vc_densef': self.out}
        return [r, c] + S.ptrs + [n]

    def out(self, ex, st, p, rows, cols, size):
        r, c = self.r, self.c
        ex.require(st, eq(rows, r), 'post: number of rows')
        ex.require(st, eq(cols, c), 'post: number of columns')
        ex.require(st, eq(size, r * c), 'post: number of elements')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, r), lt(j, c)]
        if self.row:
            self.inside(st, j, i, c, r)
        else:
            self.inside(st, i, j, r, c)
        rd = self.read(ex, st, p, j + i * c if self.row else i + j * r, self.to)
        key, line = (i, j) if self.line == 'c' else (j, i)
        ex.require(st, req(rd, self.D(key, line, self.S.len(line))), 'post: element (i,j) is its stored value, or zero')


PROOFS = []
for n, kw in (('cc', {}), ('cr', dict(row=True)), ('rr', dict(line='r', row=True)), ('rc', dict(line='r')),
              ('fd', dict(es=4)), ('ff', dict(es=4, to=4)), ('df', dict(to=4))):
    PROOFS.append(('sparse.cpp', type('vc_exp_' + n, (Expand,), dict(kw, entry='vc_exp_' + n))))
DRIVERS = ['sparse']
