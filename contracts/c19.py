from vcgen.contract import *
from vcgen.contract import split_ld
from vcgen.llir import Ty
from contracts.sparse import Lemmas


def of(p, r, c, ld):
    """the block made of r x c elements at p, ld apart"""
    return app('block', 'I', p, r, c, ld)


class Header:
    """the word before an array keeps its value in a loop that does not write it"""
    hard = False

    def __init__(self, reg, was):
        self.reg, self.was, self.name = reg, was, 'first word of ' + reg.name.split('/')[0]

    def goal(self, ex, view):
        return eq(view.read(self.reg, ZERO), self.was)

    def assume(self, ex, hs, view):
        hs.pc.append(self.goal(ex, view))


class Blocks(Contract):
    """partition: nr row sizes and nc column sizes with the offsets F and G"""

    def partition(self, ex, st, nr, nc, r, c):
        self.rs, self.cs = (lambda t: self.elem('rs', t, 'I')), (lambda t: self.elem('cs', t, 'I'))
        self.F = ghost_rec(ex.facts, 'rowoffset', lambda: ZERO, lambda t, m: m + self.rs(t), sort='I')
        self.G = ghost_rec(ex.facts, 'columnoffset', lambda: ZERO, lambda t, m: m + self.cs(t), sort='I')
        st.pc += [eq(self.F(nr), r), eq(self.G(nc), c)]
        self.scalars = [Scal('row offset', {'i': nr, 'j': nc}, lambda t: self.F(t['i']) if 'i' in t else None, sort='I'),
                        Scal('column offset', {'i': nr, 'j': nc}, lambda t: self.G(t['j']) if 'j' in t else None, sort='I')]

        # proved in extra_proofs: a part lies inside the whole, parts do not overlap
        ex.facts.add('rowoffset', lambda t: [imp(ge(t, 0), ge(self.F(t), 0)), imp(conj(ge(t, 0), lt(t, nr)), le(self.F(t) + self.rs(t), r))])
        ex.facts.add('columnoffset', lambda t: [imp(ge(t, 0), ge(self.G(t), 0)), imp(conj(ge(t, 0), lt(t, nc)), le(self.G(t) + self.cs(t), c))])

    def invariants(self, ex, st, ctx):
        out = super().invariants(ex, st, ctx)
        for reg in ctx.arrs:
            if reg.kind != 'ext':
                was = self.first(ex, st, reg)
                if was is not None:
                    out.append(Header(reg, was))
        return out

    def first(self, ex, st, reg):
        c = st.mem.get(reg)
        try:
            return c.read(ZERO)
        except Exception:
            return None

    def inside(self, ex, st, q, lines, line, ld, n):
        """line x lines elements from q lie in an array of n lines of ld elements"""
        s = split_ld(q, ld)
        if s is None:
            ex.require(st, FALSE, 'pre: the part lies in the matrix')
            return
        ex.require(st, conj(ge(s[0], 0), ge(s[1], 0), le(s[0] + line, ld), le(s[1] + lines, n)), 'pre: the part lies in the matrix')


class Split(Blocks):
    entry, es, row = 'vc_split', 8, False

    def setup(self, ex, st, fn):
        r, c, nr, nc = (ivar(x, True) for x in ('r', 'c', 'nr', 'nc'))
        self.r, self.c, self.nr, self.nc = r, c, nr, nc
        a = self.array(ex, st, 'A', r * c, es=self.es)
        rs, cs = (self.array(ex, st, x, n, es=8, sort='I', nonneg=True) for x, n in (('rs', nr), ('cs', nc)))
        self.partition(ex, st, nr, nc, r, c)
        # the array may begin with a header of some words
        self.folds = [Fold('blocks', nr, nc, lambda i, j, k: self.part(i, j) if k.const() != 0 else ZERO, sort='I', off=o) for o in (2,)]
        self.hooks = {'vc_block_of': self.made, 'vc_block_of_f': self.made, 'vc_blocks_are': self.out}
        t = self.array(ex, st, 'T', ONE)
        return [r, c, a, rs, nr, cs, nc, t]

    def made(self, ex, st, p, r, c, ld):
        ex.require(st, FALSE if not isinstance(p, Ptr) or p.reg is None or p.reg.name != 'A' else TRUE, 'pre of conversion: the block is a part of the matrix')
        q = p.off.div_const(self.es)
        ex.require(st, FALSE if q is None else TRUE, 'pre of conversion: the block begins at an element')
        if q is not None:
            if self.row:
                self.inside(ex, st, q, r, c, ld, self.r)
            else:
                self.inside(ex, st, q, c, r, ld, self.c)
        return of(q or ZERO, r, c, ld)

    def part(self, i, j):
        if self.row:
            return of(self.F(i) * self.c + self.G(j), self.rs(i), self.cs(j), self.c)
        return of(self.F(i) + self.G(j) * self.r, self.rs(i), self.cs(j), self.r)

    def out(self, ex, st, p, r, c, R, C):
        st.user['seen'] = 1
        ex.require(st, conj(eq(r, self.nr), eq(c, self.nc)), 'post: one block per row size and column size')
        ex.require(st, conj(eq(R, self.r), eq(C, self.c)), 'post: the dimensions of the matrix are kept')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, self.nr), lt(j, self.nc)]
        ex.require(st, eq(self.read(ex, st, p, i + j * self.nr, 8), self.part(i, j)), 'post: block (i,j) is the part at the offsets of its row and column')

    def end(self, ex, st, rv):
        ex.require(st, TRUE if st.user.get('seen') else FALSE, 'post: the blocks are made')



class Join(Blocks):
    """block (i,j), number 1 + i + j*nr, has the sizes of its row and column; what is put where is
    noted in a log, by the number of the block"""
    entry = 'vc_join'
    NR, NC = ('_ZN11BlasBooster%sERKSt10shared_ptrINS_10MatrixBaseEE' % n for n in ('9getNbRows', '12getNbColumns'))

    def setup(self, ex, st, fn):
        nr, nc, R, C = (ivar(x, True) for x in ('nr', 'nc', 'R', 'C'))
        self.nr, self.nc, self.R, self.C = nr, nc, R, C
        for x, n in (('rs', nr), ('cs', nc)):
            self.array(ex, st, x, n, es=8, sort='I', nonneg=True)
        self.log = self.array(ex, st, 'log', nr * nc, es=8, sort='I', rw=True)
        self.partition(ex, st, nr, nc, R, C)
        # the height of a row is known once a block of it has been seen
        some = ge(nc, 1)
        last = lambda i: ite(conj(ge(i, 1), some), self.rs(i - 1), ZERO, 'I')
        height = lambda t: None if 'i' not in t else ite(ge(t['j'], 1), self.rs(t['i']), last(t['i']), 'I') if 'j' in t else last(t['i'])
        self.scalars += [Scal('height of the row', {'i': nr, 'j': nc}, height, sort='I'),
                         Scal('row offset, if there are columns', {'i': nr, 'j': nc}, lambda t: ite(some, self.F(t['i']), ZERO, 'I') if 'i' in t else None, sort='I')]
        where = lambda reg: lambda i, j, k: self.placed(reg, i, j) if k.const() != 0 else self.elem('log', i + j * nr, 'I')
        self.folds = [Fold('blocks put into ' + g, nr, nc, where(g), sort='I') for g in ('heap', 'heap.1', 'heap.2', 'heap.3')]
        self.folds += [Fold('blocks', nr * nc, 1, lambda i, j, k: 1 + i if k.const() != 0 else ZERO, sort='I', off=o) for o in (2, 1, 0)]
        self.hooks = {'vc_block_rows': lambda ex, st, b: self.rows(ex, st, b), 'vc_block_columns': lambda ex, st, b: self.columns(ex, st, b),
                      self.NR: lambda ex, st, p: self.rows(ex, st, self.read(ex, st, p, ZERO, 8)),
                      self.NC: lambda ex, st, p: self.columns(ex, st, self.read(ex, st, p, ZERO, 8)),
                      'vc_block_data': self.data, 'vc_place': self.place, 'vc_dense': self.out}
        self.source = ex.newreg(st, 'source', 'ext', None)
        return [nr, nc, R, C]

    def placed(self, reg, i, j):
        return app('placed', 'I', ivar('in ' + reg), self.F(i) + self.G(j) * self.R, self.rs(i), self.cs(j), self.rs(i), self.cs(j), self.R)

    def which(self, ex, st, b):
        """(i,j) of the block b, which a loop over the blocks has reached"""
        ts = [l.t for l in st.nest]
        for i in ts:
            for j in ts:
                if i is not j and ex.prove(st, conj(eq(b, 1 + i + j * self.nr), lt(i, self.nr), lt(j, self.nc)))[0]:
                    return i, j

    def rows(self, ex, st, b):
        w = self.which(ex, st, b)
        return self.rs(w[0]) if w else app('rows', 'I', b)

    def columns(self, ex, st, b):
        w = self.which(ex, st, b)
        return self.cs(w[1]) if w else app('columns', 'I', b)

    def data(self, ex, st, b):
        return Ptr(self.source, app('at', 'I', b) * 8)

    def place(self, ex, st, src, r, c, dst, dr, dc, ld):
        ok = isinstance(src, Ptr) and src.reg is self.source and isinstance(dst, Ptr) and dst.reg is not None and dst.reg.kind != 'ext'
        a = [x.a[1] for x in src.off.atoms() if x.op == 'app' and x.a[0] == 'at'] if ok else []
        q = dst.off.div_const(8) if ok else None
        if len(a) != 1 or src.off != app('at', 'I', a[0]) * 8 or q is None:
            ex.require(st, FALSE, 'pre of copy: a block is copied into the result')
            return
        b = a[0]
        self.inside(ex, st, q, dc, dr, ld, self.C)
        ex.require(st, conj(ge(b, 1), le(b, self.nr * self.nc)), 'pre of copy: a block is copied into the result')
        ex.store(st, Ty('int', 64), app('placed', 'I', ivar('in ' + dst.reg.name.split('/')[0]), q, r, c, dr, dc, ld), Ptr(self.log.reg, (b - 1) * 8))

    def out(self, ex, st, p, rows, cols, size):
        st.user['seen'] = 1
        ex.require(st, conj(eq(rows, self.R), eq(cols, self.C), eq(size, self.R * self.C)), 'post: shape')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, self.nr), lt(j, self.nc)]
        reg = p.reg.name.split('/')[0] if isinstance(p, Ptr) and p.reg is not None else '?'
        ex.require(st, eq(self.read(ex, st, self.log, i + j * self.nr), self.placed(reg, i, j)), 'post: block (i,j) is copied to the offsets of its row and column, with its shape')

    def end(self, ex, st, rv):
        ex.require(st, TRUE if st.user.get('seen') else FALSE, 'post: the blocks are joined')



def extra_proofs(tier):
    """what the offsets of a partition mean; induction steps by z3"""
    import z3
    F, s = z3.Function('offset', z3.IntSort(), z3.IntSort()), z3.Function('size', z3.IntSort(), z3.IntSort())
    i, k, n, x = z3.Ints('i k n x')
    lemma = Lemmas('partition')
    rec = lambda k: F(k + 1) == F(k) + s(k)
    at = lambda k: z3.And(0 <= F(i), F(i) + s(i) <= F(k))
    lemma('offsets are not negative: base', [F(0) == 0], F(0) >= 0)
    lemma('offsets are not negative: step', [rec(k), s(k) >= 0, F(k) >= 0], F(k + 1) >= 0)
    lemma('a part ends where or before a later one begins: base', [F(i) >= 0, rec(i)], at(i + 1))
    lemma('a part ends where or before a later one begins: step', [at(k), rec(k), s(k) >= 0], at(k + 1))
    inn = lambda k, x: z3.And(F(k) <= x, x < F(k) + s(k))
    below = lambda k: z3.Implies(z3.And(0 <= x, x < F(k)), z3.Exists([i], z3.And(0 <= i, i < k, inn(i, x))))
    lemma('every place is in some part: base', [F(0) == 0], below(z3.IntVal(0)))
    lemma('every place is in some part: step', [0 <= k, rec(k), below(k)], below(k + 1))
    lemma('no place is in two parts', [z3.Implies(i < k, F(i) + s(i) <= F(k)), i < k, inn(i, x)], z3.Not(inn(k, x)))
    return [dict(name='partitions', obs=lemma.obs, functions=[], trusted=[])]


PROOFS = [('blocked.cpp', type(e, (Split,), dict(entry=e, es=es, row=row))) for e, es, row in (('vc_split', 8, False), ('vc_split_f', 4, False), ('vc_split_row', 8, True))] + [('blocked.cpp', Join)]
DRIVERS = ['block']
TRUST = ['conversion of a part to a block and back (MatrixConverter, Matrix(DynamicMatrix), getNbRows and getNbColumns of a DynamicMatrix) keeps shape and elements up to the rounding of the chosen type: contracts here; C04, C05, C10 and C17 prove the pieces for each type, the driver runs the composition',
         'copy of a matrix into a part writes the elements of the part and no others: contract here, proved in C03',
         'std::shared_ptr<MatrixBase> is a stand-in holding one number; it is copied and moved only']
NOTE = ('all matrices and all partitions whose sizes add up to the dimensions; splitting for double, float and row-major matrices, joining for double. '
        'That the parts tile the matrix is a lemma on the partition; with it each element is in exactly one block and comes back to its place')
