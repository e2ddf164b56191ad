"""well-formed sparse matrices as inputs, and the value of an element"""
from .dense import *


class SparseIn:
    """arrays V (values), K (keys), O (offsets) of m lines of d places with n
    stored elements: O(0) = 0, O increases up to O(m) = n, keys lie below d"""

    def __init__(self, ex, st, c, m, d, n, es=8, names='VKO'):
        v, k, o = names
        self.m, self.d, self.n, self.es, self.names = m, d, n, es, names
        self.offsets = o
        self.ptrs = [c.array(ex, st, v, n, es=es), c.array(ex, st, k, n, sort='I', nonneg=True), c.array(ex, st, o, m + 1, sort='I', nonneg=True)]

        def offset(x):
            me = self.O(x)
            return [imp(conj(ge(x, 0), lt(x, m)), conj(le(me, self.O(x + 1)), le(self.O(x + 1), n))),
                    imp(conj(ge(x, 1), le(x, m)), le(self.O(x - 1), me)),
                    imp(conj(ge(x, 0), le(x, m)), le(me, n)),
                    imp(eq(x, 0), eq(me, 0)), imp(eq(x, m), eq(me, n))]
        ex.facts.add(o, offset)
        ex.facts.add(k, lambda x: imp(conj(ge(x, 0), lt(x, n)), conj(ge(self.K(x), 0), lt(self.K(x), d))))

    def V(self, x):
        return Base(self.names[0], 'R').read(P(x))

    def K(self, x):
        return Base(self.names[1], 'I', True).read(P(x))

    def O(self, x):
        return Base(self.names[2], 'I', True).read(P(x))

    def len(self, j):
        return self.O(j + 1) - self.O(j)

    def element(self, ex, name, f, init=lambda i, j: ZERO, step=None):
        """name(i,j,k): the value at place i of line j after the first k stored
        elements of the line; a stored element x at the place gives f(x)"""
        step = step or (lambda prev, x: f(x))
        return ghost_rec(ex.facts, name, init, lambda i, j, k, prev: ite(eq(self.K(self.O(j) + k), i), step(prev, self.V(self.O(j) + k)), prev, 'R'))


def accept(x):
    return bapp('accept', x)


class Selection:
    """the accepted ones of the elements at(i,j) of m lines of d places, in
    order: N(i,j) of them come before (i,j); the p-th one is at(place(p), line(p))"""

    def __init__(self, ex, m, d, at, acc, flat=None, total=None):
        self.m, self.d, self.at, self.acc = m, d, at, acc
        N = self.N = lambda i, j: app('N', 'I', i, j)
        self.total = T = total if total is not None else N(ZERO, m) if flat is None else flat(m * d)
        self.place, self.line = [lambda p, n=n: app(n, 'I', p) for n in ('place', 'line')]
        one = lambda i, j: ite(acc(at(i, j)), ONE, ZERO, 'I')

        def fact(i, j):
            me = N(i, j)
            inside = conj(ge(i, 0), lt(i, d), ge(j, 0), lt(j, m))
            out = [imp(conj(ge(i, 0), ge(j, 0)), le(me, i + j * d)), imp(inside, le(me + one(i, j), T)),
                   imp(conj(ge(j, 0), le(j, m), eq(i, 0)), le(me, T)), imp(conj(eq(i, 0), eq(j, m)), eq(me, T)), ge(me, 0),
                   imp(conj(inside, acc(at(i, j))), conj(eq(self.place(me), i), eq(self.line(me), j)))]
            if flat is not None:
                out.append(eq(me, flat(i + j * d)))
            else:
                out += [imp(ge(i, 1), eq(me, N(i - 1, j) + one(i - 1, j))),
                        imp(conj(eq(i, 0), ge(j, 1)), eq(me, N(d, j - 1))), imp(eq(d, 0), eq(me, 0)),
                        imp(conj(eq(i, 0), eq(j, 0)), eq(me, 0))]
            return out
        ex.facts.add('N', fact)

    def here(self, t):
        """elements selected before the place the loops have come to"""
        if 'j' not in t:
            return None
        return self.N(t.get('i', ZERO), t['j'])

    def scalars(self, ex):
        e = {'i': self.d, 'j': self.m}
        return [Scal('selected so far', e, self.here, sort='I', cls=('sym', 'cond')),
                PtrScal('next selected', e, self.here), PtrScal('next selected (4)', e, self.here, es=4)]

    def folds(self, f):
        e = {'i': self.d, 'j': self.m}
        def lines(k):
            return lambda t: t['j'] + k if 'j' in t else None
        return [Prefix('values', e, [self.here], lambda p: f(self.at(self.place(p), self.line(p)))),
                Prefix('keys', e, [self.here], lambda p: self.place(p), sort='I'),
                Prefix('offsets', e, [lines(1), lines(0)], lambda p: self.N(ZERO, p), sort='I')]

    def check(self, ex, st, v, k, o, nnz, noff, f, to):
        """the postcondition of a sparse result"""
        ex.require(st, eq(noff, self.m + 1), 'post: one offset per line and one more')
        ex.require(st, eq(nnz, self.total), 'post: as many stored elements as selected ones')
        q = ivar('line', True)
        s = st.copy()
        s.pc.append(le(q, self.m))
        ex.require(s, eq(ex.contract.read(ex, s, o, q, 8), self.N(ZERO, q)), 'post: a line starts after the selected elements of the lines before')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, self.d), lt(j, self.m), self.acc(self.at(i, j))]
        ex.contract.inside(st, i, j, self.d, self.m)
        p = self.N(i, j)
        ex.require(st, req(ex.contract.read(ex, st, v, p, to), f(self.at(i, j))), 'post: a selected element is stored with its value')
        ex.require(st, eq(ex.contract.read(ex, st, k, p, 8), i), 'post: a selected element is stored at its place')


class Lemmas:
    """induction steps decided by z3"""

    def __init__(self, what):
        self.what, self.obs = what, []

    def __call__(self, name, hyps, goal):
        import z3, time
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyps)
        s.add(z3.Not(goal))
        t0 = time.time()
        q = s.check()
        self.obs.append(('lemma: %s, %s' % (self.what, name), q == z3.unsat, time.time() - t0, 'z3', ''))


def selection_lemmas():
    """what Selection states about N beyond its definition"""
    import z3
    N = z3.Function('N', z3.IntSort(), z3.IntSort(), z3.IntSort())
    a = z3.Function('a', z3.IntSort(), z3.IntSort(), z3.IntSort())
    i, j, d, m, x, y = z3.Ints('i j d m x y')
    step = lambda i, j: [N(i + 1, j) == N(i, j) + a(i, j), a(i, j) >= 0, a(i, j) <= 1]
    line = lambda j: N(0, j + 1) == N(d, j)
    le = Lemmas('number of selected elements')
    le('not negative, base', [N(0, 0) == 0], N(0, 0) >= 0)
    le('not negative, step', step(i, j) + [N(i, j) >= 0], N(i + 1, j) >= 0)
    le('not negative, next line', [line(j), N(d, j) >= 0], N(0, j + 1) >= 0)
    le('grows within a line, step', step(i, j) + [N(i, j) >= N(x, j)], N(i + 1, j) >= N(x, j))
    le('grows over the lines, step', [line(j), N(0, j) >= N(0, y), N(d, j) >= N(0, j)], N(0, j + 1) >= N(0, y))
    # x <= d, j < m: the two before with i = d and j = m
    le('the total is the most', step(x, j) + [N(d, j) >= N(x + 1, j), line(j), N(0, m) >= N(0, j + 1)], N(x, j) + a(x, j) <= N(0, m))
    le('not more than the places, base', [N(0, 0) == 0], N(0, 0) <= 0)
    le('not more than the places, step', step(i, j) + [N(i, j) <= i + j * d], N(i + 1, j) <= i + 1 + j * d)
    le('not more than the places, next line', [line(j), N(d, j) <= d + j * d], N(0, j + 1) <= (j + 1) * d)
    le('lines without places, step', [line(j), N(0, j) == 0, d == 0], N(0, j + 1) == 0)
    # accepted places of different position have different numbers: the inverse is a function
    le('different within a line', step(x, j) + [a(x, j) == 1, x < y, N(y, j) >= N(x + 1, j)], N(x, j) < N(y, j))
    le('different over the lines', step(x, i) + [a(x, i) == 1, line(i), N(d, i) >= N(x + 1, i), N(0, j) >= N(0, i + 1), N(y, j) >= N(0, j)], N(x, i) < N(y, j))
    return le.obs


def double_counting():
    """lemma: counting the accepted places of an r x c grid line by line of one
    direction or of the other gives the same number; induction steps by z3"""
    import z3
    a = z3.Function('a', z3.IntSort(), z3.IntSort(), z3.IntSort())
    C = z3.Function('C', z3.IntSort(), z3.IntSort(), z3.IntSort())
    R = z3.Function('R', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    F = z3.Function('count', z3.IntSort(), z3.IntSort())
    r, c, i, j, t = z3.Ints('r c i j t')
    # definitions, instantiated where they are needed
    Ci = lambda i, j: C(i + 1, j) == C(i, j) + a(i, j)
    Cj = lambda j: C(0, j + 1) == C(r, j)
    Ri = lambda w, i, j: R(w, i + 1, j) == R(w, i, j) + a(j, i)
    Rj = lambda w, j: R(w, 0, j + 1) == R(w, w, j)
    B = lambda w, i, j: R(w + 1, i, j) - R(w + 1, 0, j) == R(w, i, j) - R(w, 0, j)
    A = lambda w, j: R(w + 1, 0, j) == R(w, 0, j) + C(j, w) - C(0, w)
    zero = lambda w: R(w, 0, 0) == 0
    lemma = Lemmas('double counting')
    lemma('part of a line, base', [], B(c, z3.IntVal(0), j))
    lemma('part of a line, step', [B(c, i, j), Ri(c + 1, i, j), Ri(c, i, j)], B(c, i + 1, j))
    lemma('one line more, base', [zero(c), zero(c + 1)], A(c, z3.IntVal(0)))
    lemma('one line more, step', [A(c, j), B(c, c, j), Ri(c + 1, c, j), Rj(c + 1, j), Rj(c, j), Ci(j, c)], A(c, j + 1))
    lemma('empty lines, base', [zero(0)], R(0, 0, 0) == 0)
    lemma('empty lines, step', [R(0, 0, j) == 0, Rj(z3.IntVal(0), j)], R(0, 0, j + 1) == 0)
    lemma('all, base', [R(0, 0, r) == 0, C(0, 0) == 0], R(0, 0, r) == C(0, 0))
    lemma('all, step', [R(c, 0, r) == C(0, c), A(c, r), Cj(c)], R(c + 1, 0, r) == C(0, c + 1))
    lemma('flat, base', [F(0) == 0, C(0, 0) == 0], F(0) == C(0, 0))
    lemma('flat, within a line', [F(i + j * r) == C(i, j), Ci(i, j), F(i + 1 + j * r) == F(i + j * r) + a(i, j)], F(i + 1 + j * r) == C(i + 1, j))
    lemma('flat, next line', [F(r + j * r) == C(r, j), Cj(j)], F(r + j * r) == C(0, j + 1))
    return lemma.obs


# ------------------------------------------------------------ turning
class Turn:
    """a sparse matrix with its lines in the other direction: count(i,q) of
    the first q stored elements are at place i, before(i) of all at the places
    before; element q goes to before(K(q)) + count(K(q), q), and from(p) is the
    element that goes to p (n if there is none)"""

    def __init__(self, ex, A):
        self.A = A
        m, d, n = A.m, A.d, A.n
        N = self.N = ghost_rec(ex.facts, 'count', lambda i: ZERO, lambda i, q, prev: prev + ite(eq(A.K(q), i), ONE, ZERO, 'I'), sort='I')
        T = self.T = ghost_rec(ex.facts, 'before', lambda: ZERO, lambda i, prev: prev + N(i, n), sort='I')
        src, line = self.src, self.line = [lambda p, n=n: app(n, 'I', p) for n in ('from', 'line')]
        self.pos = lambda q: T(A.K(q)) + N(A.K(q), q)

        def count(i, q):
            has = conj(ge(q, 0), lt(q, n), ge(i, 0), lt(i, d), eq(A.K(q), i))
            p = T(i) + N(i, q)
            return [imp(ge(q, 0), ge(N(i, q), 0)), imp(has, conj(lt(N(i, q), N(i, n)), lt(p, n), eq(src(p), q), ge(line(q), 0)))]
        ex.facts.add('count', count)
        ex.facts.add('before', lambda i: [imp(conj(ge(i, 0), le(i, d)), conj(ge(T(i), 0), le(T(i), n))), imp(eq(i, d), eq(T(i), n))])
        ex.facts.add('from', lambda p: [conj(ge(src(p), 0), le(src(p), n)), imp(lt(src(p), n), eq(p, self.pos(src(p))))])

        def at(q):
            out = [ge(line(q), 0)]
            for x in list(q.atoms()):
                if x.op == 'app' and x.a[0] == A.names[2]:
                    j = x.a[2] if len(x.a) > 2 else x.a[1]
                    out.append(imp(conj(ge(j, 0), lt(j, m), le(A.O(j), q), lt(q, A.O(j + 1))), eq(line(q), j)))
            return out
        ex.facts.add('line', at)

    def here(self, t):
        return self.A.O(t['j']) + t.get('k', ZERO) if 'j' in t else None

    def scalars(self):
        return [Scal('elements before', {'s': self.A.d}, lambda t: self.T(t['s']) if 's' in t else None, sort='I')]

    def folds(self, f):
        A, N, T, src, here = self.A, self.N, self.T, self.src, self.here
        e = {'j': A.m, 'k': lambda t: A.len(t['j']) if 'j' in t else None}
        shifted = lambda p, q: ite(ge(p, 1), N(p - 1, q), ZERO, 'I')
        done = lambda p, t: lt(src(p), here(t)) if 'j' in t else FALSE
        return [Whole('counts', e, A.d + 1, lambda p, t: shifted(p, here(t)) if 'j' in t else None, sort='I'),
                Whole('sums', {'s': A.d}, A.d + 1, lambda p, t: ite(le(p, t['s']), T(p), shifted(p, A.n), 'I') if 's' in t else None, sort='I'),
                Whole('places taken', e, A.d, lambda p, t: N(p, here(t)) if 'j' in t else None, sort='I'),
                Whole('turned values', e, A.n, lambda p, t: f(A.V(src(p))) if 'j' in t else None, when=done),
                Whole('turned keys', e, A.n, lambda p, t: self.line(src(p)) if 'j' in t else None, sort='I', when=done)]

    def check(self, ex, st, v, k, o, nnz, noff, f, to):
        A, rd = self.A, ex.contract.read
        ex.require(st, eq(noff, A.d + 1), 'post: one offset per line and one more')
        ex.require(st, eq(nnz, A.n), 'post: as many stored elements')
        i = ivar('line', True)
        s = st.copy()
        s.pc.append(le(i, A.d))
        ex.require(s, eq(rd(ex, s, o, i, 8), self.T(i)), 'post: a line starts after the elements of the lines before')
        j, n = ivar('j', True), ivar('k', True)
        st.pc += [lt(j, A.m), lt(n, A.len(j))]
        q = A.O(j) + n
        p = self.pos(q)
        ex.require(st, req(rd(ex, st, v, p, to), f(A.V(q))), 'post: an element is stored with its value')
        ex.require(st, eq(rd(ex, st, k, p, 8), j), 'post: an element is stored at its place')


def turn_lemmas():
    import z3
    I = z3.IntSort()
    N, T, K = z3.Function('count', I, I, I), z3.Function('before', I, I), z3.Function('K', I, I)
    S = z3.Function('sum', I, I, I)              # of count(., q) over the places before i
    line = z3.Function('line', I, I)
    i, j, q, x, d, n = z3.Ints('i j q x d n')
    step = lambda i, q: N(i, q + 1) == N(i, q) + z3.If(K(q) == i, 1, 0)
    nxt = lambda i: T(i + 1) == T(i) + N(i, n)
    sm = lambda i, q: S(i + 1, q) == S(i, q) + N(i, q)
    pos = lambda q: T(K(q)) + N(K(q), q)
    le = Lemmas('turning')
    le('counts are not negative, base', [N(i, 0) == 0], N(i, 0) >= 0)
    le('counts are not negative, step', [step(i, q), N(i, q) >= 0], N(i, q + 1) >= 0)
    le('counts grow, step', [step(i, q), N(i, q) >= N(i, x)], N(i, q + 1) >= N(i, x))
    le('a counted element is not the last', [step(i, q), K(q) == i, N(i, n) >= N(i, q + 1)], N(i, q) < N(i, n))
    le('one more element, base', [S(0, q) == 0, S(0, q + 1) == 0, K(q) >= 0], S(0, q + 1) == S(0, q) + z3.If(K(q) < 0, 1, 0))
    le('one more element, step', [sm(i, q), sm(i, q + 1), step(i, q), S(i, q + 1) == S(i, q) + z3.If(K(q) < i, 1, 0)], S(i + 1, q + 1) == S(i + 1, q) + z3.If(K(q) < i + 1, 1, 0))
    le('nothing counted, base', [S(0, 0) == 0], S(0, 0) == 0)
    le('nothing counted, step', [sm(i, z3.IntVal(0)), N(i, 0) == 0, S(i, 0) == 0], S(i + 1, 0) == 0)
    le('every element is counted once, step', [S(d, q) == q, S(d, q + 1) == S(d, q) + z3.If(K(q) < d, 1, 0), K(q) < d], S(d, q + 1) == q + 1)
    le('before(i) is the sum, base', [T(0) == 0, S(0, n) == 0], T(0) == S(0, n))
    le('before(i) is the sum, step', [nxt(i), sm(i, n), T(i) == S(i, n)], T(i + 1) == S(i + 1, n))
    # hence before(d) = n
    le('before grows, step', [nxt(i), N(i, n) >= 0, T(i) >= T(j)], T(i + 1) >= T(j))
    le('an element goes to a place of the result', [T(d) == n, T(d) >= T(i + 1), nxt(i), N(i, q) < N(i, n)], T(i) + N(i, q) < n)
    le('different elements of one place go to different places', [K(q) == K(x), step(K(q), q), N(K(q), x) >= N(K(q), q + 1)], pos(q) < pos(x))
    le('elements of different places go to different places', [K(q) < K(x), nxt(K(q)), T(K(x)) >= T(K(q) + 1), N(K(q), q) < N(K(q), n), N(K(x), x) >= 0], pos(q) < pos(x))
    le('a line keeps the order', [K(q) == K(x), q < x, step(K(q), q), N(K(q), x) >= N(K(q), q + 1)], pos(q) < pos(x))
    return le.obs


# ------------------------------------------------------------ merging
class Merge:
    """line by line merge of two sparse matrices with increasing keys: after c
    steps of line j the first al(j,c) elements of A and be(j,c) of B are used;
    step c takes the one with the smaller key, or both; L(j) steps are needed,
    S(j) in the lines before"""

    def __init__(self, ex, A, B, sign):
        self.A, self.B, self.sign = A, B, sign
        m, d = self.m, self.d = A.m, A.d
        self.al, self.be = [lambda j, c, n=n: app(n, 'I', j, c) for n in ('al', 'be')]
        self.L, self.S = [lambda j, n=n: app(n, 'I', j) for n in ('steps', 'before')]
        self.place, self.line = [lambda p, n=n: app(n, 'I', p) for n in ('place', 'line')]
        al, be, L, S = self.al, self.be, self.L, self.S

        def fact(j, c):
            a, b = al(j, c), be(j, c)
            ta, tb = self.takes(j, c - 1)
            inside = conj(ge(j, 0), lt(j, m), ge(c, 0))
            more = disj(lt(a, A.len(j)), lt(b, B.len(j)))
            out = [imp(eq(c, 0), conj(eq(a, 0), eq(b, 0))),
                   imp(inside, conj(ge(a, 0), le(a, A.len(j)), ge(b, 0), le(b, B.len(j)), iff(lt(c, L(j)), more),
                                    imp(lt(a, A.len(j)), le(c, A.K(A.O(j) + a))), imp(lt(b, B.len(j)), le(c, B.K(B.O(j) + b))),
                                    imp(lt(c, L(j)), conj(eq(self.place(S(j) + c), c), eq(self.line(S(j) + c), j)))))]
            if c.const() is None or c.const() > 0:
                out.append(imp(ge(c, 1), conj(eq(a, al(j, c - 1) + ite(ta, ONE, ZERO, 'I')), eq(b, be(j, c - 1) + ite(tb, ONE, ZERO, 'I')))))
            return out
        ex.facts.add('al', fact)
        ex.facts.add('be', fact)
        ex.facts.add('steps', lambda j: imp(conj(ge(j, 0), lt(j, m)), conj(ge(L(j), 0), le(L(j), d))))
        ex.facts.add('before', lambda j: [imp(eq(j, 0), eq(S(j), 0)), imp(conj(ge(j, 0), le(j, m)), conj(ge(S(j), 0), le(S(j), j * d), le(S(j), S(m)))),
                                          imp(conj(ge(j, 0), lt(j, m)), le(S(j) + L(j), S(m))), imp(ge(j, 1), eq(S(j), S(j - 1) + L(j - 1)))])

    def takes(self, j, c):
        A, B = self.A, self.B
        a, b = self.al(j, c), self.be(j, c)
        ma, mb = lt(a, A.len(j)), lt(b, B.len(j))
        ka, kb = A.K(A.O(j) + a), B.K(B.O(j) + b)
        return conj(ma, disj(neg(mb), le(ka, kb))), conj(mb, disj(neg(ma), le(kb, ka)))

    def key(self, j, c):
        ta, _ = self.takes(j, c)
        return ite(ta, self.A.K(self.A.O(j) + self.al(j, c)), self.B.K(self.B.O(j) + self.be(j, c)), 'I')

    def value(self, j, c):
        ta, tb = self.takes(j, c)
        x, y = self.A.V(self.A.O(j) + self.al(j, c)), self.sign * self.B.V(self.B.O(j) + self.be(j, c))
        return ite(ta, ite(tb, x + y, x, 'R'), y, 'R')

    def scalars(self):
        return [MergeState(self)]

    def folds(self):
        e = {'j': self.m}
        lines = lambda k: lambda t: t['j'] + k if 'j' in t else None
        return [Prefix('offsets', e, [lines(1), lines(0)], lambda p: self.S(p), sort='I')]

    def check(self, ex, st, v, k, o, nnz, noff, to):
        rd = ex.contract.read
        ex.require(st, eq(noff, self.m + 1), 'post: one offset per line and one more')
        ex.require(st, eq(nnz, self.S(self.m)), 'post: as many stored elements as steps')
        q = ivar('line', True)
        s = st.copy()
        s.pc.append(le(q, self.m))
        ex.require(s, eq(rd(ex, s, o, q, 8), self.S(q)), 'post: a line starts after the steps of the lines before')
        j, c = ivar('j', True), ivar('step', True)
        st.pc += [lt(j, self.m), lt(c, self.L(j)), bapp('offset', self.al(j, c))]
        p = self.S(j) + c
        ex.require(st, req(rd(ex, st, v, p, to), self.value(j, c)), 'post: value of a merged element')
        ex.require(st, eq(rd(ex, st, k, p, 8), self.key(j, c)), 'post: place of a merged element')


class MergeInv:
    hard = False

    def __init__(self, name, form, slots):
        self.name, self.form, self.slots = name, form, slots

    def goal(self, ex, view):
        return self.form(view, *[view.slots.get(k) for k in self.slots])

    def assume(self, ex, hs, view):
        hs.pc.append(self.goal(ex, view))


class MergeState:
    """relates the loop variables of a merge to its steps"""

    def __init__(self, mg):
        self.mg = mg

    def candidates(self, ex, st, ctx):
        from vcgen.loops import sort_of
        mg = self.mg
        nest = list(ctx.outer) + [ctx]
        lines = [n for n, l in enumerate(nest) if l.bound is not None and l.bound == mg.m]
        out = []
        cnt = [k for k, v in ctx.vals.items() if isinstance(v, Poly) and sort_of(ctx.types[k]) == 'I']
        ptr = [k for k, v in ctx.vals.items() if isinstance(v, Ptr) and v.reg is not None]
        regs = [r for r in ctx.arrs if r.name not in ctx.plan.map]
        for k in cnt:
            for name, val, sort in (('values', mg.value, 'R'), ('keys', mg.key, 'I')):
                for r in regs:
                    if r.sort == sort:
                        nm = 'merged %s up to %s of %s' % (name, keyname(k), r.name.split('#')[0].split('/')[0])
                        out.append(PrefixInv(nm, r, MergePrefix(mg, val, sort), lambda t: t['p'], [((ctx, k), 'p')]))
            for n in lines:
                if n == len(nest) - 1:
                    out.append(MergeInv('%s counts the steps of the lines before' % keyname(k), lambda view, x, n=n: eq(x, mg.S(view.ts()[n])), [k]))
                    for q in ptr:
                        out.append(MergeInv('%s is after the steps of the lines before' % keyname(q), lambda view, y, n=n: eq(y.off, y.reg.es * mg.S(view.ts()[n])), [q]))
                    continue
                j = lambda view, n=n: view.ts()[n]

                def lemma(view, x, j=j):
                    return conj(le(mg.S(j(view)), x), le(x, mg.S(j(view)) + mg.L(j(view))), prodfact(mg.m - j(view) - 1, mg.d))
                out.append(MergeInv('%s counts steps' % keyname(k), lemma, [k]))
                if ctx.plan.cls.get(k) == ('lin', ONE):
                    out[-1].variant = lambda view, k=k, j=j: mg.S(j(view)) + mg.L(j(view)) - view.slots[k]
                for op, f, who in ((mg.A, mg.al, 'first'), (mg.B, mg.be, 'second')):
                    out.append(MergeInv('the %s line is used up at %s' % (who, keyname(k)), lambda view, x, op=op, f=f, j=j: eq(f(j(view), x - mg.S(j(view))), op.len(j(view))), [k]))
                    for q in ptr:
                        nm = ctx.vals[q].reg.name
                        if nm in op.names[:2]:
                            es = op.es if nm == op.names[0] else 8
                            out.append(MergeInv('%s follows the %s line at %s' % (keyname(q), who, keyname(k)),
                                                lambda view, x, y, op=op, f=f, j=j, es=es: eq(y.off, es * (op.O(j(view)) + f(j(view), x - mg.S(j(view))))), [k, q]))
                for q in ptr:
                    if ctx.vals[q].reg.kind != 'ext':
                        out.append(MergeInv('%s is in step with %s' % (keyname(q), keyname(k)), lambda view, x, y: eq(y.off, y.reg.es * x), [k, q]))
        return out


class MergePrefix:
    def __init__(self, mg, f, sort):
        self.mg, self.f, self.sort = mg, f, sort

    def cond(self, p):
        return TRUE

    def val(self, p):
        return self.f(self.mg.line(p), self.mg.place(p))


def merge_lemmas():
    """what Merge states about its ghosts beyond their definitions, and that a
    merged line expands to the sum or difference of the two lines"""
    import z3
    I, R = z3.IntSort(), z3.RealSort()
    al, be, K, Q = [z3.Function(n, I, I) for n in ('al', 'be', 'K', 'Q')]        # one line: c -> used, element -> key
    V, W = [z3.Function(n, I, R) for n in 'VW']
    a, b, d, c, x, y, i, j, m, L = z3.Ints('lenA lenB d c x y i j m L')
    more = lambda c: z3.Or(al(c) < a, be(c) < b)
    ta = lambda c: z3.And(al(c) < a, z3.Or(be(c) >= b, K(al(c)) <= Q(be(c))))
    tb = lambda c: z3.And(be(c) < b, z3.Or(al(c) >= a, Q(be(c)) <= K(al(c))))
    step = lambda c: [al(c + 1) == al(c) + z3.If(ta(c), 1, 0), be(c + 1) == be(c) + z3.If(tb(c), 1, 0)]
    start = [al(0) == 0, be(0) == 0, a >= 0, b >= 0]
    # keys grow within a line, all below d (instantiated where needed)
    grow = lambda n, f, k: [z3.Implies(z3.And(k >= 0, k + 1 < n), f(k) < f(k + 1)), z3.Implies(z3.And(k >= 0, k < n), z3.And(f(k) >= 0, f(k) < d))]
    keys = lambda c: grow(a, K, al(c)) + grow(b, Q, be(c)) + grow(a, K, al(c) + 1) + grow(b, Q, be(c) + 1)
    ok = lambda c: z3.And(al(c) >= 0, al(c) <= a, be(c) >= 0, be(c) <= b)
    ahead = lambda c: z3.And(z3.Implies(al(c) < a, c <= K(al(c))), z3.Implies(be(c) < b, c <= Q(be(c))))
    le = Lemmas('merging')
    le('used elements are elements, base', start, ok(0))
    le('used elements are elements, step', step(c) + [ok(c)], ok(c + 1))
    le('used up stays used up', step(c) + [ok(c), more(c + 1)], more(c))
    le('the next key is not before the step, base', start + keys(0), ahead(0))
    le('the next key is not before the step, step', step(c) + keys(c) + [ok(c), ahead(c), c >= 0], ahead(c + 1))
    le('used up after d steps', start + keys(d) + [ok(d), ahead(d), d >= 0], z3.Not(more(d)))
    # hence the first step L at which both are used up exists, L <= d, and c < L is the same as more(c)
    key = lambda c: z3.If(ta(c), K(al(c)), Q(be(c)))
    le('the keys of a merged line grow', step(c) + keys(c) + [ok(c), more(c), more(c + 1)], key(c) < key(c + 1))
    le('the keys of a merged line are places', keys(c) + [ok(c), more(c)], z3.And(key(c) >= 0, key(c) < d))
    # lines
    S, Ls = z3.Function('S', I, I), z3.Function('L', I, I)
    nxt = lambda j: [S(j + 1) == S(j) + Ls(j), Ls(j) >= 0, Ls(j) <= d]
    le('steps before a line, base', [S(0) == 0], z3.And(S(0) >= 0, S(0) <= 0 * d))
    le('steps before a line, step', nxt(j) + [S(j) >= 0, S(j) <= j * d], z3.And(S(j + 1) >= 0, S(j + 1) <= (j + 1) * d))
    le('steps before a line grow, step', nxt(j) + [S(j) >= S(i)], S(j + 1) >= S(i))
    le('the total is the most', nxt(j) + [S(m) >= S(j + 1)], z3.And(S(j) <= S(m), S(j) + Ls(j) <= S(m)))
    le('steps of different lines have different numbers', nxt(j) + [S(i) >= S(j + 1), 0 <= x, x < Ls(j), y >= 0], S(j) + x != S(i) + y)
    # expansion: what is stored for place i among the first n elements, or steps
    for sign, nm in ((1, 'sum'), (-1, 'difference')):
        ea, eb, ec = [z3.Function(n, I, R) for n in ('ea', 'eb', 'ec')]
        ex = lambda e, f, v, n: e(n + 1) == e(n) + z3.If(f(n) == i, v(n), 0)
        val = lambda c: z3.If(ta(c), V(al(c)), 0) + z3.If(tb(c), sign * W(be(c)), 0)
        st = lambda c: [ec(c + 1) == ec(c) + z3.If(key(c) == i, val(c), 0), ex(ea, K, V, al(c)), ex(eb, Q, W, be(c))]
        same = lambda c: ec(c) == ea(al(c)) + sign * eb(be(c))
        le('a merged line expands to the %s, base' % nm, start + [ea(0) == 0, eb(0) == 0, ec(0) == 0], same(0))
        le('a merged line expands to the %s, step' % nm, step(c) + st(c) + [ok(c), more(c), same(c)], same(c + 1))
        le('a merged line expands to the %s' % nm, [same(L), ok(L), z3.Not(more(L))], ec(L) == ea(a) + sign * eb(b))
    return le.obs


class Turned:
    """the sparse matrix that turning A gives, as an operand"""

    def __init__(self, ex, T):
        A = T.A
        self.T, self.m, self.d, self.n, self.es, self.offsets = T, A.d, A.m, A.n, A.es, 'before'
        # the places taken fill the result: lemma of Turn
        ex.facts.add('from', lambda p: imp(conj(ge(p, 0), lt(p, A.n)), lt(T.src(p), A.n)))
        ex.facts.add('before', lambda i: imp(conj(ge(i, 0), lt(i, A.d)), le(T.T(i), T.T(i + 1))))
        # every stored element is in a line
        ex.facts.add('line', lambda q: imp(conj(ge(q, 0), lt(q, A.n)), lt(T.line(q), A.m)))

    def V(self, x):
        return self.T.A.V(self.T.src(x))

    def K(self, x):
        return self.T.line(self.T.src(x))

    def O(self, x):
        return self.T.T(x)

    def len(self, j):
        return self.O(j + 1) - self.O(j)
