from vcgen.contract import *
from vcgen.terms import mk


class Deviation(Contract):
    """largest absolute difference, or root of the mean of the squared differences, of two r x c matrices;
    la, lb: where element (i,j) is"""
    kind, ea, eb, oa, ob, rows = 'max', 8, 8, 'c', 'c', False

    def place(self, o, i, j):
        return i + j * self.r if o == 'c' else j + i * self.c

    def setup(self, ex, st, fn):
        r, c = self.r, self.c = ivar('r', True), ivar('c', True)
        return self.compare(ex, st, [r, c, self.array(ex, st, 'A', r * c, es=self.ea), self.array(ex, st, 'B', r * c, es=self.eb)])

    def pair(self, i, j):
        return self.elem('A', self.place(self.oa, i, j)), self.elem('B', self.place(self.ob, i, j))

    def inside(self, j):
        return []

    def diff(self, i, j):
        x, y = self.pair(i, j)
        return x - y

    def step(self, m, d):
        return m + d * d if self.kind == 'rms' else ite(rlt(m, self.fabs(d)), self.fabs(d), m, 'R')

    def compare(self, ex, st, args):
        r, c = self.r, self.c
        name = 'dev' + self.kind
        # one after the other (same order), or G(i,j): after i elements of column j (row j)
        self.S = ghost_rec(ex.facts, name, lambda: ZERO, lambda t, m: self.step(m, self.flat(t)))

        def fact(i, j):
            me = app(name + '2', 'R', i, j)
            return [imp(ge(i, 1), req(me, self.step(app(name + '2', 'R', i - 1, j), self.diff(*((j, i - 1) if self.rows else (i - 1, j)))))),
                    imp(conj(eq(i, 0), ge(j, 1)), req(me, app(name + '2', 'R', c if self.rows else r, j - 1))),
                    imp(conj(eq(i, 0), eq(j, 0)), req(me, ZERO))] + self.inside(j)
        ex.facts.add(name + '2', fact)
        self.G = lambda i, j: app(name + '2', 'R', i, j)
        self.scalars = [Scal('deviation so far, element by element', {'p': r * c}, lambda t: self.S(t['p']) if 'p' in t and self.flat(ZERO) is not None else None),
                        Scal('deviation so far', {'i': c if self.rows else r, 'j': r if self.rows else c}, lambda t: self.G(t.get('i', ZERO), t['j']) if 'j' in t else None)]
        self.hooks = {'vc_real': self.out}
        return args

    def flat(self, t):
        return self.elem('A', t) - self.elem('B', t)

    def out(self, ex, st, x):
        st.user['seen'] = 1
        all = self.S(self.r * self.c) if self.oa == self.ob else self.G(ZERO, self.c)
        want = all if self.kind == 'max' else self.sqrt(self.mean(all))
        ex.require(st, req(x, want), 'post: the deviation of all elements')

    def mean(self, s):
        return app('r:div', 'R', s, P(mk('i2r', 'R', self.r * self.c)))

    def end(self, ex, st, rv):
        super().end(ex, st, rv)
        ex.require(st, TRUE if st.user.get('seen') else FALSE, 'post: the deviation is given')


class View(Deviation):
    """one of the matrices is a block of another one"""
    pa, swap = 'c', False

    def setup(self, ex, st, fn):
        R, C, r, c, br, bc = [ivar(x, True) for x in ('R', 'C', 'r', 'c', 'br', 'bc')]
        self.r, self.c, self.R, self.C, self.br, self.bc = r, c, R, C, br, bc
        st.pc += [le(br + r, R), le(bc + c, C), ge(r, 1), ge(c, 1)]
        args = [R, C, self.array(ex, st, 'A', R * C), r, c, br, bc, self.array(ex, st, 'B', r * c)]
        self.base, self.ld = (br + bc * R, R) if self.oa == 'c' else (bc + br * C, C)
        if self.oa == 'c':
            self.stripes = [Stripe('A', r, c, R, self.base, es=8, lemmas=lambda p, b: [prodfact(C - bc - b - 1, R), prodfact(bc + b, R)])]
        else:
            self.stripes = [Stripe('A', c, r, C, self.base, es=8, lemmas=lambda p, b: [prodfact(R - br - b - 1, C), prodfact(br + b, C)])]
        return self.compare(ex, st, args)

    def pair(self, i, j):
        a = self.elem('A', self.base + (i + j * self.ld if self.oa == 'c' else j + i * self.ld))
        b = self.elem('B', self.place(self.ob, i, j))
        return (b, a) if self.swap else (a, b)

    def inside(self, j):
        return [prodfact(self.C - self.bc - j - 1, self.R), prodfact(self.bc + j, self.R)] if self.oa == 'c' else [prodfact(self.R - self.br - j - 1, self.C), prodfact(self.br + j, self.C)]

    def flat(self, t):
        return None

    def out(self, ex, st, x):
        st.user['seen'] = 1
        all = self.G(ZERO, self.r if self.rows else self.c)
        ex.require(st, req(x, all if self.kind == 'max' else self.sqrt(self.mean(all))), 'post: the deviation of all elements')


PROOFS = []
for k in ('max', 'rms'):
    for n, ea, eb, oa, ob in (('dd', 8, 8, 'c', 'c'), ('df', 8, 4, 'c', 'c'), ('fd', 4, 8, 'c', 'c'), ('ff', 4, 4, 'c', 'c'), ('rr', 8, 8, 'r', 'r'),
                              ('cr', 8, 8, 'c', 'r'), ('rc', 8, 8, 'r', 'c'), ('fr', 4, 8, 'c', 'r')):
        PROOFS.append(('deviation.cpp', type('vc_%s_%s' % (k, n), (Deviation,), dict(entry='vc_%s_%s' % (k, n), kind=k, ea=ea, eb=eb, oa=oa, ob=ob))))
    for n, oa, ob, swap in (('vd', 'c', 'c', False), ('dv', 'c', 'c', True), ('vr', 'c', 'r', False), ('wr', 'r', 'r', False)):
        PROOFS.append(('deviation.cpp', type('vc_%s_%s' % (k, n), (View,), dict(entry='vc_%s_%s' % (k, n), kind=k, oa=oa, ob=ob, swap=swap, rows=n == 'wr'))))
DRIVERS = ['deviation']
NOTE = ('all shapes and contents, both orders and mixtures of orders, blocks of larger matrices, double and float; arithmetic on values is treated as real arithmetic; '
        'std::pow(x, 2) is x * x and std::sqrt is an uninterpreted function')
