from vcgen.contract import *
from .c13 import Flat1, SparseNorm, ViewNorm, ZeroNorm


def accept(x):
    return bapp('accept', x)


class Count(Contract):
    """the number of elements an arbitrary test accepts"""
    es, times = 8, 1

    def ghost(self, ex):
        return ghost_rec(ex.facts, 'count', lambda: ZERO, lambda t, m: m + ite(accept(self.at(t)), ONE, ZERO, 'I'), sort='I')

    def at(self, t):
        return self.elem('A', t)

    def begin(self, ex):
        super().begin(ex)
        self.S = self.ghost(ex)

    def setup(self, ex, st, fn):
        v = self.params(ex, st)
        self.scalars = self.scal()
        self.hooks = {'vc_int': self.out, 'vc_accept': lambda ex, st, x: accept(x)}
        return v

    def params(self, ex, st):
        r, c = ivar('r', True), ivar('c', True)
        self.N = r * c
        return [r, c, self.array(ex, st, 'A', r * c, es=self.es)]

    def scal(self):
        return [Scal('accepted so far', {'p': self.N}, lambda t: self.S(t['p']) if 'p' in t else None, sort='I', cls=('sym', 'cond'))]

    def out(self, ex, st, x):
        st.user['seen'] = st.user.get('seen', 0) + 1
        ex.require(st, eq(x, self.S(self.N)), 'post: the number of accepted elements')

    def end(self, ex, st, rv):
        super().end(ex, st, rv)
        ex.require(st, TRUE if st.user.get('seen', 0) == self.times else FALSE, 'post: the number is given')


class SparseCount(Count):
    def params(self, ex, st):
        r, c, n = [ivar(x, True) for x in 'rcn']
        self.N = n
        return [r, c, self.array(ex, st, 'A', n, es=self.es), self.array(ex, st, 'K', n, sort='I', nonneg=True), self.array(ex, st, 'O', c + 1, sort='I', nonneg=True), n]


class ViewCount(Count):
    def params(self, ex, st):
        R, C, r, c, br, bc = [ivar(x, True) for x in ('R', 'C', 'r', 'c', 'br', 'bc')]
        st.pc += [le(br + r, R), le(bc + c, C)]
        base = br + bc * R
        A = self.array(ex, st, 'A', R * C, es=self.es)
        self.N, self.rc = r * c, (r, c)
        self.stripes = [Stripe('A', r, c, R, base, es=self.es, lemmas=lambda p, b: [prodfact(C - bc - b - 1, R), prodfact(bc + b, R)])]

        def fact(i, j):
            me = app('vcount', 'I', i, j)
            return [imp(ge(i, 1), eq(me, app('vcount', 'I', i - 1, j) + ite(accept(self.elem('A', base + i - 1 + j * R)), ONE, ZERO, 'I'))),
                    imp(conj(eq(i, 0), ge(j, 1)), eq(me, app('vcount', 'I', r, j - 1))),
                    imp(conj(eq(i, 0), eq(j, 0)), eq(me, ZERO))]
        ex.facts.add('vcount', fact)
        self.G = lambda i, j: app('vcount', 'I', i, j)
        self.S = lambda n: ite(eq(r, 0), ZERO, self.G(ZERO, c), 'I')
        return [R, C, A, r, c, br, bc]

    def scal(self):
        r, c = self.rc
        return [Scal('accepted so far', {'i': r, 'j': c}, lambda t: self.G(t.get('i', ZERO), t['j']) if 'j' in t else None, sort='I', cls=('sym', 'cond'))]


PROOFS = []
for n, b, kw in (('d', Count, {}), ('f', Count, dict(es=4)), ('r', Count, {}), ('v', ViewCount, {}), ('s', SparseCount, {}), ('sf', SparseCount, dict(es=4))):
    PROOFS.append(('norm.cpp', type('vc_cnt_' + n, (b,), dict(kw, entry='vc_cnt_' + n))))
DRIVERS = ['norm']

NOTE = 'proved: the counting loop, for every test; the cached counts and the occupation quotient are covered by the bounded driver only'
