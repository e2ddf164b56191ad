from vcgen.contract import *
from .c01 import At


class View(Contract):
    """a view of r x c elements at (br,bc) of an R x C matrix; spot(v): the
    distance of its v-th element in storage order from the first one of the matrix"""
    row, nested, es, back, reverse = False, False, 8, False, False
    full = False        # the view has elements

    def params(self, ex, st):
        R, C, r, c, br, bc = v = [ivar(x, True) for x in ('R', 'C', 'r', 'c', 'br', 'bc')]
        st.pc += [le(br + r, R), le(bc + c, C)]
        more = []
        if self.nested:
            r2, c2, b2, d2 = more = [ivar(x, True) for x in ('r2', 'c2', 'br2', 'bc2')]
            st.pc += [le(b2 + r2, r), le(d2 + c2, c)]
            r, c, br, bc = r2, c2, br + b2, bc + d2
        self.R, self.C, self.r, self.c, self.br, self.bc = R, C, r, c, br, bc
        if self.full:
            st.pc += [ge(r, 1), ge(c, 1)]
        self.N = r * c
        # lines of cs elements
        self.cs, self.nb, self.ld, self.base = (c, r, C, br * C + bc) if self.row else (r, c, R, br + bc * R)
        return v[:2] + [self.array(ex, st, 'A', R * C, es=self.es, rw=getattr(self, 'writes', False))] + v[2:] + more

    def spot(self, v):
        return app('spot', 'I', v)

    def lemmas(self, p, b):
        """by definition of spot, for the place itself and its neighbours; the
        lines before and after the one of the place are inside the matrix"""
        cs, nb, ld = self.cs, self.nb, self.ld
        def at(p, b):
            return imp(conj(ge(p, 0), lt(p, cs), ge(b, 0), lt(b, nb)), eq(self.spot(p + b * cs), self.base + p + b * ld))
        off, M = (self.br, self.R) if self.row else (self.bc, self.C)
        return [prodfact(nb - b - 1, ld), at(p, b), at(p - 1, b), at(cs - 1, b - 1), prodfact(M - off - b - 1, ld), prodfact(off + b, ld), prodfact(M - off - b, ld), prodfact(off + b - 1, ld)]

    def arith(self, t):
        off, M = (self.br, self.R) if self.row else (self.bc, self.C)
        return [prodfact(off + t, self.ld), prodfact(M - off - t - 1, self.ld)]

    def setup(self, ex, st, fn):
        v = self.params(ex, st)
        self.stripes = self.striped()
        self.visits = self.counter(ex, st, 'visits')
        self.hooks = {'vc_addr': self.visit}
        return v

    def striped(self):
        return [Stripe('A', self.cs, self.nb, self.ld, self.base, es=self.es, back=self.back, reverse=self.reverse, lemmas=self.lemmas)]

    def visit(self, ex, st, p):
        v = self.count(ex, st, self.visits)
        n = self.N - 1 - v if self.back or self.reverse else v
        ex.require(st, eq(p.off, self.es * self.spot(n)) if isinstance(p, Ptr) and p.reg is not None and p.reg.name == 'A' else FALSE, 'post: the next element of the block is visited')

    def end(self, ex, st, rv):
        super().end(ex, st, rv)
        ex.require(st, eq(self.count(ex, st, self.visits), self.N), 'post: every element of the block is visited')


class Mixed(View):
    """n steps forward, one forward and back, one back and forward, k back"""

    def params(self, ex, st):
        v = super().params(ex, st)
        self.n, self.k = ivar('n', True), ivar('b', True)
        st.pc += [le(self.n, self.N), le(self.k, self.n)]
        return v + [self.n, self.k]

    def setup(self, ex, st, fn):
        v = super().setup(ex, st, fn)
        self.hooks = {'vc_addr': self.visit, 'vc_bool': self.same}
        return v

    def striped(self):
        a = dict(es=8, lemmas=self.lemmas)
        return [Stripe('A', self.cs, self.nb, self.ld, self.base, **a), Stripe('A', self.cs, self.nb, self.ld, self.base, back=self.n, **a)]

    def same(self, ex, st, x):
        ex.require(st, x if not isinstance(x, Poly) else neg(eq(x, 0)), 'post: a step and its undoing give the same place')
        st.user['undone'] = st.user.get('undone', 0) + 1

    def visit(self, ex, st, p):
        k = st.user.get('seen', 0)
        st.user['seen'] = k + 1
        n = self.n if k == 0 and ex.prove(st, lt(self.n, self.N))[0] else self.n - self.k
        st.pc.append(lt(n, self.N)) if ex.prove(st, lt(n, self.N))[0] else ex.require(st, FALSE, 'post: only places of the block are looked at')
        ex.require(st, eq(p.off, 8 * self.spot(n)) if isinstance(p, Ptr) and p.reg is not None and p.reg.name == 'A' else FALSE, 'post: the place after so many steps')

    def end(self, ex, st, rv):
        Contract.end(self, ex, st, rv)
        seen, undone = st.user.get('seen', 0), st.user.get('undone', 0)
        n = ite(lt(self.n, self.N), ONE, ZERO, 'I')
        ex.require(st, eq(P(seen), n + ite(lt(self.n - self.k, self.N), ONE, ZERO, 'I')), 'post: as many places as expected')
        ex.require(st, eq(P(undone), n + ite(lt(0, self.n), ONE, ZERO, 'I')), 'post: as many undone steps as expected')


class Write(View):
    """writing through the traversal: the block has the value, the rest is kept"""
    writes = True

    def lemmas(self, p, b):
        j = ivar('j0', True)
        return super().lemmas(p, b) + [prodfact(j - self.bc - b - 1, self.R), prodfact(self.bc + b - j - 1, self.R)]

    def arith(self, t):
        j = ivar('j0', True)
        return super().arith(t) + [prodfact(j - self.bc - t - 1, self.R), prodfact(self.bc + t - j - 1, self.R)]

    def want(self, i, j):
        return self.x

    def val(self, i, j, k):
        return self.x if k == ONE else self.elem('A', i + j * self.R)

    def setup(self, ex, st, fn):
        v = self.params(ex, st)
        self.x = rvar('x')
        self.stripes = self.striped()
        self.folds = [Block('matrix', self.R, self.C, (self.r, self.c, self.br, self.bc), self.val)]
        self.hooks = {'vc_dense': self.out}
        return v + [self.x]

    def out(self, ex, st, p, rows, cols, size):
        st.user['seen'] = 1
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, self.R), lt(j, self.C)]
        self.inside(st, i, j, self.R, self.C)
        rd = self.read(ex, st, p, i + j * self.R)
        inside = conj(ge(i, self.br), lt(i, self.br + self.r), ge(j, self.bc), lt(j, self.bc + self.c))
        ex.require(st, req(rd, ite(inside, self.want(i, j), self.elem('A', i + j * self.R), 'R')), 'post: the block has the value, other elements are kept')

    def end(self, ex, st, rv):
        Contract.end(self, ex, st, rv)
        ex.require(st, TRUE if st.user.get('seen') else FALSE, 'post: the matrix is given')


class Read(View):
    """the elements of the block are read in order"""

    def setup(self, ex, st, fn):
        v = self.params(ex, st)
        self.stripes = self.striped()
        at = lambda i, j: self.elem('A', self.base + i + j * self.ld)

        def fact(i, j):
            me = app('sum', 'R', i, j)
            return [imp(ge(i, 1), req(me, app('sum', 'R', i - 1, j) + at(i - 1, j))), imp(conj(eq(i, 0), ge(j, 1)), req(me, app('sum', 'R', self.cs, j - 1))),
                    imp(conj(eq(i, 0), eq(j, 0)), req(me, ZERO))]
        ex.facts.add('sum', fact)
        G = lambda i, j: app('sum', 'R', i, j)
        self.scalars = [Scal('sum so far', {'i': self.cs, 'j': self.nb}, lambda t: G(t.get('i', ZERO), t['j']) if 'j' in t else None)]
        self.want = ite(eq(self.cs, 0), ZERO, G(ZERO, self.nb), 'R')
        self.hooks = {'vc_real': self.out}
        return v

    def out(self, ex, st, x):
        st.user['seen'] = 1
        ex.require(st, req(x, self.want), 'post: the elements of the block are read in order')

    end = Write.end


class RowConv(View):
    """a row-major view as a matrix of its own"""
    row = True

    def setup(self, ex, st, fn):
        v = self.params(ex, st)
        self.stripes = self.striped()
        self.folds = [Fold('result', self.cs, self.nb, lambda i, j, k: self.elem('A', self.base + i + j * self.ld))]
        self.hooks = {'vc_dense': self.out}
        return v

    def out(self, ex, st, p, rows, cols, size):
        st.user['seen'] = 1
        r, c = self.r, self.c
        ex.require(st, conj(eq(rows, r), eq(cols, c), eq(size, r * c)), 'post: shape')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, r), lt(j, c)]
        self.inside(st, j, i, c, r)
        rd = self.read(ex, st, p, j + i * c)
        ex.require(st, req(rd, self.elem('A', self.base + j + i * self.ld)), 'post: element (i,j) is element (i,j) of the block')

    end = Write.end


class Counts(View):
    def setup(self, ex, st, fn):
        v = self.params(ex, st)
        self.hooks = {'vc_counts': self.out}
        return v

    def out(self, ex, st, *v):
        st.user['seen'] = 1
        for x, y, nm in zip(v, (self.r, self.c, self.N, self.N), ('rows', 'columns', 'elements', 'elements of the storage')):
            ex.require(st, eq(x, y), 'post: number of ' + nm)

    end = Write.end


PROOFS = []
for n, kw in (('row_at', {}), ('row_at_const', {}), ('row_at_nested', dict(view=2))):
    PROOFS.append(('view.cpp', type('vc_' + n, (At,), dict(dict(row=True, view=1), **kw, entry='vc_' + n))))
for n, b, kw in (('walk', View, {}), ('walk_const', View, {}), ('walk_nested', View, dict(nested=True)), ('walk_row', View, dict(row=True)),
                 ('walk_back', View, dict(back=True)), ('walk_back_const', View, dict(back=True)), ('walk_reverse', View, dict(reverse=True, full=True)),
                 ('walk_mixed', Mixed, {}), ('walk_write', Write, {}), ('walk_assign', Write, {}), ('walk_read', Read, {}), ('walk_readf', Read, dict(es=4)),
                 ('row_conv', RowConv, {}), ('view_counts', Counts, {})):
    PROOFS.append(('view.cpp', type('vc_' + n, (b,), dict(kw, entry='vc_' + n))))
DRIVERS = ['view']
NOTE = ('all shapes, all blocks inside the matrix, all element values: every element of the block is visited exactly once, in storage order, forwards, backwards and '
        'mixed, through iterators of views and views of views; standard algorithms run over the iterators are inlined, not assumed')
