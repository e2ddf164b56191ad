from vcgen.contract import *


def norm_ghost(ex, kind, name, at):
    """the running norm over the elements at(0), at(1), ..: sum, sum of squares
    or maximum"""
    c = ex.contract
    absv = lambda x: c.fabs(x)
    if kind == '1':
        return ghost_sum(ex.facts, name, lambda: ZERO, lambda t: absv(at(t)), 1)
    if kind == '2':
        return ghost_sum(ex.facts, name, lambda: ZERO, lambda t: at(t) * at(t), 1)
    return ghost_rec(ex.facts, name, lambda: ZERO, lambda t, m: ite(rlt(m, absv(at(t))), absv(at(t)), m, 'R'))


class Flat1(Contract):
    """norm over n elements one behind the other"""
    es, kind, times = 8, '1', 1

    def params(self, ex, st):
        r, c = ivar('r', True), ivar('c', True)
        self.N = r * c
        return [r, c, self.array(ex, st, 'A', r * c, es=self.es)]

    def at(self, t):
        return self.elem('A', t)

    def begin(self, ex):
        super().begin(ex)
        self.S = norm_ghost(ex, self.kind, 'norm' + self.kind, self.at)

    def setup(self, ex, st, fn):
        v = self.params(ex, st)
        self.scalars = [Scal('norm so far', {'p': self.N}, lambda t: self.S(t['p']) if 'p' in t else None)]
        self.hooks = {'vc_real': self.out}
        return v

    def out(self, ex, st, x):
        st.user['seen'] = st.user.get('seen', 0) + 1
        want = self.S(self.N)
        if self.kind == '2' and self.N != ZERO:
            want = self.sqrt(want)
        ex.require(st, req(x, want), 'post: the norm of all elements')

    def end(self, ex, st, rv):
        super().end(ex, st, rv)
        ex.require(st, TRUE if st.user.get('seen', 0) == self.times else FALSE, 'post: the norm is given')


class SparseNorm(Flat1):
    def params(self, ex, st):
        r, c, n = [ivar(x, True) for x in 'rcn']
        self.N = n
        return [r, c, self.array(ex, st, 'A', n, es=self.es), self.array(ex, st, 'K', n, sort='I', nonneg=True), self.array(ex, st, 'O', c + 1, sort='I', nonneg=True), n]


class ViewNorm(Flat1):
    """norm over the block of a view; G(i,j): after i elements of column j"""

    def params(self, ex, st):
        R, C, r, c, br, bc = [ivar(x, True) for x in ('R', 'C', 'r', 'c', 'br', 'bc')]
        st.pc += [le(br + r, R), le(bc + c, C)]
        base = br + bc * R
        A = self.array(ex, st, 'A', R * C, es=self.es)
        self.N = r * c
        self.rc = r, c
        self.stripes = [Stripe('A', r, c, R, base, es=self.es, lemmas=lambda p, b: [prodfact(C - bc - b - 1, R), prodfact(bc + b, R)])]
        G = self.ghost(ex, lambda i, j: self.elem('A', base + i + j * R), r)
        self.S = lambda n: ite(eq(r, 0), ZERO, G(ZERO, c), 'R')
        self.G = G
        return [R, C, A, r, c, br, bc]

    def ghost(self, ex, at, r):
        name = 'G' + self.kind
        step = {'1': lambda m, x: m + self.fabs(x), '2': lambda m, x: m + x * x, 'm': lambda m, x: ite(rlt(m, self.fabs(x)), self.fabs(x), m, 'R')}[self.kind]

        def fact(i, j):
            me = app(name, 'R', i, j)
            return [imp(ge(i, 1), req(me, step(app(name, 'R', i - 1, j), at(i - 1, j)))),
                    imp(conj(eq(i, 0), ge(j, 1)), req(me, app(name, 'R', r, j - 1))),
                    imp(conj(eq(i, 0), eq(j, 0)), req(me, ZERO))]
        ex.facts.add(name, fact)
        return lambda i, j: app(name, 'R', i, j)

    def setup(self, ex, st, fn):
        v = super().setup(ex, st, fn)
        r, c = self.rc
        self.scalars = [Scal('norm so far', {'i': r, 'j': c}, lambda t: self.G(t.get('i', ZERO), t['j']) if 'j' in t else None)]
        return v


class ZeroNorm(Flat1):
    def params(self, ex, st):
        self.N = ZERO
        return [ivar('r', True), ivar('c', True)]


class Compared(Flat1):
    """comparisons of the norm with a number; the sequence of observations"""
    wants = ()

    def params(self, ex, st):
        self.x = rvar('x')
        return super().params(ex, st) + [self.x]

    def setup(self, ex, st, fn):
        v = super().setup(ex, st, fn)
        self.hooks = {'vc_bool': self.outb, 'vc_real': self.outr}
        return v

    def step(self, st):
        k = st.user.get('seen', 0)
        st.user['seen'] = k + 1
        return self.wants[k] if k < len(self.wants) else None

    def outb(self, ex, st, b):
        w = self.step(st)
        f = b if isinstance(b, T) else ne(b, 0)
        want = {'>': rlt(self.x, self.S(self.N)), '<': rlt(self.S(self.N), self.x), None: FALSE}[w]
        ex.require(st, iff(f, want), 'post: the strict comparison %s of the norm' % w)

    def outr(self, ex, st, x):
        ex.require(st, req(x, self.S(self.N)) if self.step(st) == '=' else FALSE, 'post: the norm of all elements')

    def end(self, ex, st, rv):
        Contract.end(self, ex, st, rv)
        ex.require(st, TRUE if st.user.get('seen', 0) == len(self.wants) else FALSE, 'post: every answer is given')


class ComparedZero(Compared):
    def params(self, ex, st):
        self.N = ZERO
        self.x = rvar('x')
        return [ivar('r', True), ivar('c', True), self.x]


ALL = []
for k in '12m':
    for e, b, kw in (('d', Flat1, {}), ('f', Flat1, dict(es=4)), ('r', Flat1, {}), ('s', SparseNorm, {}), ('sf', SparseNorm, dict(es=4)), ('v', ViewNorm, {}), ('vf', ViewNorm, dict(es=4)), ('z', ZeroNorm, {})):
        n = 'vc_n%s_%s' % (k, e)
        ALL.append(('norm.cpp', type(n, (b,), dict(kw, entry=n, kind=k))))
for k in '12m':
    n = 'vc_p' + k
    ALL.append(('norm.cpp', type(n, (Flat1,), dict(entry=n, kind=k, times=2))))
for n, b, w in (('vc_p_large', Compared, '>><'), ('vc_p_small', Compared, '<<>'), ('vc_p_zero', ComparedZero, '=><')):
    ALL.append(('norm.cpp', type(n, (b,), dict(entry=n, wants=w))))
ALL.append(('norm.cpp', type('vc_p_copy', (Flat1,), dict(entry='vc_p_copy', times=2))))
PROOFS = ALL
DRIVERS = ['norm']
