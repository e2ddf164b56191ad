from vcgen.contract import *
from vcgen.terms import Poly
from contracts.c19 import Header


class Info(Contract):
    """block k, in storage order, is number k + 1; element (i,j) of the result tells about block (i,j)"""
    entry, hook, es, what, sort = 'vc_types', 'vc_ints_are', 4, 'type', 'I'
    NS = '_ZN11BlasBooster%sERKSt10shared_ptrINS_10MatrixBaseEE'

    def setup(self, ex, st, fn):
        r, c, R, C = (ivar(x, True) for x in ('r', 'c', 'R', 'C'))
        self.r, self.c = r, c
        self.folds = [Fold('blocks, after %d words' % o, r * c, 1, lambda i, j, k: 1 + i if k.const() != 0 else ZERO, sort='I', off=o) for o in (2, 1, 0)]
        self.results(ex, r, c)
        of = lambda n: lambda ex, st, p: self.info(n, self.read(ex, st, p, ZERO, 8))
        self.hooks = {'vc_type_of': lambda ex, st, b: self.info('type', b), self.NS % '9getNbRows': of('rows'), self.NS % '12getNbColumns': of('columns'), self.NS % '7getNorm': of('norm'), self.hook: self.out}
        return [r, c, R, C]

    def info(self, n, b):
        x = app(n, 'R' if n == 'norm' else 'I', b)
        if n in ('rows', 'columns'):
            next(iter(x.atoms())).nonneg = True
        return x

    def results(self, ex, r, c):
        self.folds.append(Fold('result', r * c, 1, lambda i, j, k: self.info(self.what, 1 + i) if k.const() != 0 else ZERO, sort=self.sort))

    def invariants(self, ex, st, ctx):
        out = super().invariants(ex, st, ctx)
        for reg in ctx.arrs:
            if reg.kind != 'ext':
                try:
                    out.append(Header(reg, st.mem[reg].read(ZERO)))
                except Exception:
                    pass
        return out

    def out(self, ex, st, p, r, c):
        st.user['seen'] = 1
        ex.require(st, conj(eq(r, self.r), eq(c, self.c)), 'post: an element per block')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, self.r), lt(j, self.c)]
        self.told(ex, st, p, i + j * self.r)

    def told(self, ex, st, p, at):
        e = req if self.sort == 'R' else eq
        ex.require(st, e(self.read(ex, st, p, at, self.es), self.info(self.what, 1 + at)), 'post: element (i,j) is the %s of block (i,j)' % self.what)

    def end(self, ex, st, rv):
        super().end(ex, st, rv)
        ex.require(st, TRUE if st.user.get('seen') else FALSE, 'post: the result is given')


class PairFold(Fold):
    """cells of two words"""

    def unlin(self, ex, idx):
        idx = idx - self.off
        f = Poly({m: k % 2 for m, k in idx.c.items() if k % 2})
        j = (idx - f).div_const(2)
        return None if j is None else (f, j)


class Pairs(Info):
    entry, hook, es = 'vc_dimensions', 'vc_pairs_are', 8

    def results(self, ex, r, c):
        self.folds += [PairFold('result, after %d words' % o, 2, r * c, lambda i, j, k: ite(eq(i, 0), self.info('rows', 1 + j), self.info('columns', 1 + j), 'I') if k.const() != 0 else ZERO, sort='I', off=o) for o in (2, 0)]

    def told(self, ex, st, p, at):
        for f, n in enumerate(('rows', 'columns')):
            ex.require(st, eq(self.read(ex, st, p, 2 * at + f, 8), self.info(n, 1 + at)), 'post: element (i,j) holds the number of %s of block (i,j)' % n)


PROOFS = [('blockinfo.cpp', type('Types', (Info,), {})), ('blockinfo.cpp', Pairs), ('blockinfo.cpp', type('Norms', (Info,), dict(entry='vc_norms', hook='vc_reals_are', es=8, what='norm', sort='R')))]


class Counting(Info):
    """the number of blocks of each type"""
    entry, hook, N = 'vc_type_count', 'vc_counts_are', 7

    def results(self, ex, r, c):
        is_ = lambda k, t: ite(eq(self.info('type', 1 + t), k), ONE, ZERO, 'I')
        self.count = ghost_rec(ex.facts, 'count', lambda k: ZERO, lambda k, t, m: m + is_(k, t), sort='I')
        ex.facts.add('type', lambda b: [ge(self.info('type', b), 0), lt(self.info('type', b), self.N)])
        self.folds.append(Fold('count', self.N, 1, lambda i, j, k: self.count(i, k), K=r * c, sort='I'))

    def out(self, ex, st, p, n):
        st.user['seen'] = 1
        ex.require(st, eq(n, self.N), 'post: a number per type')
        k = ivar('k', True)
        st.pc.append(lt(k, self.N))
        ex.require(st, eq(self.read(ex, st, p, k, 8), self.count(k, self.r * self.c)), 'post: number k is the number of blocks of type k')


PROOFS.append(('blockinfo.cpp', Counting))
DRIVERS = ['blockmul']
TRUST = ['the number of the type of a block (virtual getTypeIndex) and getNbRows, getNbColumns and getNorm of a DynamicMatrix by contract: a function of the block; C13, C22, C26',
         'std::shared_ptr<MatrixBase> is a number here']
NOTE = ('all block counts and all blocks; a block is abstract and what it tells about itself is taken by contract; concrete runs with the real block types are bounded')
