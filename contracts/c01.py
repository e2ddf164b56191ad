from .dense import *


class At(Contract):
    """the address of element (i,j); row/col/ld describe the layout"""
    es, row, view, f32 = 8, False, 0, False

    def setup(self, ex, st, fn):
        R, C = ivar('R', True), ivar('C', True)
        v = [R, C, self.array(ex, st, 'A', R * C, es=self.es)]
        r, c, pr, pc = R, C, P(0), P(0)
        for k in range(self.view):
            r2, c2, b, d = [ivar('%s%d' % (n, k), True) for n in ('r', 'c', 'br', 'bc')]
            v += [r2, c2, b, d]
            st.pc += [le(b + r2, r), le(d + c2, c)]
            pr, pc, r, c = pr + b, pc + d, r2, c2
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, r), lt(j, c)]
        v += [i, j]
        self.pr, self.pc, self.i, self.j, self.R, self.C = pr + i, pc + j, i, j, R, C
        self.hooks = {'vc_addr': self.out}
        return v

    def out(self, ex, st, p):
        if not isinstance(p, Ptr) or p.reg is None or p.reg.name != 'A':
            ex.require(st, FALSE, 'post: the element is in the storage of the matrix')
            return
        lin = lambda i, j: j + i * self.C if self.row else i + j * self.R
        ex.require(st, eq(p.off, lin(self.pr, self.pc) * self.es), 'post: element (i,j) is at its cell')
        st.pc.append(prodfact(self.R - self.pr - 1, self.C) if self.row else prodfact(self.C - self.pc - 1, self.R))
        ex.require(st, conj(le(0, p.off), le(p.off + self.es, self.R * self.C * self.es)), 'post: inside the storage')
        # no two places share a cell
        a, b, c, d = [ivar(x, True) for x in ('p', 'q', 'p2', 'q2')]
        st.pc += [lt(a, self.R), lt(c, self.R), lt(b, self.C), lt(d, self.C), eq(lin(a, b), lin(c, d))]
        # (u - v) * ld == w with |w| < ld forces u == v
        ld, u, v = (self.C, a, c) if self.row else (self.R, b, d)
        ex.require(st, neg(ge(u - v, 1)), 'lemma: not a later line', extra=[imp(ge(u - v, 1), ge((u - v) * ld, ld))])
        ex.require(st, neg(ge(v - u, 1)), 'lemma: not an earlier line', extra=[imp(ge(v - u, 1), ge((v - u) * ld, ld))])
        st.pc += [eq(u, v), eq(u * ld, v * ld)]
        ex.require(st, conj(eq(a, c), eq(b, d)), 'post: different places have different cells')


def at(e, **kw):
    return type(e, (At,), dict(kw, entry=e))


class Set(DenseMap):
    entry, rw, row, view = 'vc_set', ('A',), False, False

    def setup(self, ex, st, fn):
        m, n = self.m, self.n = self.I, self.J = ivar('m', True), ivar('n', True)
        self.pi, self.pj = ivar('pi', True), ivar('pj', True)
        v, i, j = [], self.pi, self.pj
        if self.view:
            v = r, c, br, bc = [ivar(x, True) for x in ('r', 'c', 'br', 'bc')]
            st.pc += [le(br + r, m), le(bc + c, n), lt(i, r), lt(j, c)]
            self.pi, self.pj = br + i, bc + j
        st.pc += [lt(self.pi, m), lt(self.pj, n)]
        st.pc.append(prodfact(m - 1 - self.pi, n) if self.row else prodfact(n - 1 - self.pj, m))
        self.x = rvar('x')
        self.folds = []
        self.hooks = {'vc_dense': self.out}
        return [m, n, self.array(ex, st, 'A', m * n, rw=True), *v, i, j, self.x]

    def out(self, ex, st, p, rows, cols, size):
        i, j = ivar('i', True), ivar('j', True)
        m, n, pi, pj = self.m, self.n, self.pi, self.pj
        st.pc += [lt(i, m), lt(j, n)]
        ld, x, px = (n, i, pi) if self.row else (m, j, pj)
        pos = j + i * n if self.row else i + j * m
        rd = self.read(ex, st, p, pos, 8)
        for u, v in ((x, px), (px, x)):
            st.pc.append(imp(ge(u - v, 1), ge((u - v) * ld, ld)))     # (u-v)*ld >= ld: product of non-negatives
        st.pc.append(imp(eq(x, px), eq(x * ld, px * ld)))
        ex.require(st, req(rd, ite(conj(eq(i, pi), eq(j, pj)), self.x, self.elem('A', pos), 'R')), 'post: only the addressed element is written')


class Ld(Contract):
    entry, nested = 'vc_ld', False

    def setup(self, ex, st, fn):
        R, C, r, c, b, d = [ivar(x, True) for x in ('R', 'C', 'r', 'c', 'br', 'bc')]
        st.pc += [le(b + r, R), le(d + c, C)]
        self.RC = R, C
        self.hooks = {'vc_counts': self.out}
        v = [R, C, self.array(ex, st, 'A', R * C), r, c, b, d]
        if self.nested:
            r2, c2, b2, d2 = [ivar(x, True) for x in ('r2', 'c2', 'br2', 'bc2')]
            st.pc += [le(b2 + r2, r), le(d2 + c2, c)]
            v += [r2, c2, b2, d2]
        return v

    def out(self, ex, st, a, b, c, d):
        R, C = self.RC
        ex.require(st, conj(eq(a, R), eq(b, C), eq(c, R), eq(d, C)), 'post: leading dimensions are those of the matrix looked into')


PROOFS = [('dense.cpp', c) for c in (
    at('vc_at_col'), at('vc_at_col_const'), at('vc_at_colf', es=4), at('vc_at_row', row=True), at('vc_at_row_const', row=True),
    at('vc_at_view', view=1), at('vc_at_view_const', view=1), at('vc_at_viewf', view=1, es=4), at('vc_at_view_of_view', view=2), Set, Ld)]
PROOFS += [('view.cpp', c) for c in (
    at('vc_row_at', row=True, view=1), at('vc_row_at_const', row=True, view=1), at('vc_row_atf', row=True, view=1, es=4), at('vc_row_at_nested', row=True, view=2),
    type('vc_row_ld', (Ld,), dict(entry='vc_row_ld')), type('vc_nested_ld', (Ld,), dict(entry='vc_nested_ld', nested=True)),
    type('vc_view_set', (Set,), dict(entry='vc_view_set', view=True)), type('vc_row_set', (Set,), dict(entry='vc_row_set', row=True)),
    type('vc_row_view_set', (Set,), dict(entry='vc_row_view_set', row=True, view=True)))]
DRIVERS = ['dense', 'view']
