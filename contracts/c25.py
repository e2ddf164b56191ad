import subprocess
import time
from fractions import Fraction
import z3
from vcgen.flat import Flat, RNE, F32, F64
from vcgen.contract import *
from vcgen.contract import keyname
from vcgen.loops import sort_of
from .c15 import tobool

ACC = {'d': 1e-12, 'f': 1e-4}


class Number(Flat):
    """equal(a,b) and equal(b,a) are both |a-b| <= accuracy"""

    def post(self, ex, args, path):
        ev = path.called('vc_bool')
        if path.kind == 'throw' or len(ev) != 2:
            return [('post: two numbers can be compared', False)]
        a, b = args
        k = self.entry[-2:]
        if k[0] in 'ku':
            want = [a == b] * 2
        else:
            S = F64 if 'd' in k else F32
            w = lambda v, s: v if v.sort() == s else z3.fpFPToFP(RNE, v, s)
            acc = z3.FPVal(max(ACC[x] for x in k), F64)
            dif = lambda x, y: z3.fpLEQ(w(z3.fpAbs(z3.fpSub(RNE, w(x, S), w(y, S))), F64), acc)
            want = [dif(a, b), dif(b, a)]
        r = [tobool(e[2][0]) for e in ev]
        return [('post: equal exactly when the distance is within the accuracy', r[0] == want[0]),
                ('post: the same with the two exchanged', r[1] == want[1])]


class Found:
    """the first t elements are close or one of them is known not to be"""
    hard = False

    def __init__(self, c, n, pair):
        self.c, self.n, self.pair, self.name = c, n, pair, 'first unequal elements of %s and %s' % pair[:2]

    def goal(self, ex, view):
        c, t = self.c, view.ts()[-1]
        w = c.first(ex, self.n, self.pair)(t)
        return conj(ge(w, 0), imp(conj(eq(w, 0), lt(c.i0, t), lt(c.i0, self.pair[4])), c.close(self.pair, c.i0)),
                    imp(gt(w, 0), conj(le(w, t), neg(c.close(self.pair, w - 1)))))

    def assume(self, ex, hs, view):
        hs.pc.append(self.goal(ex, view))


class Flag(Found):
    """a local flag says whether the elements so far are close"""

    def __init__(self, c, n, pair, key, way, shape):
        Found.__init__(self, c, n, pair)
        self.key, self.way, self.shape = key, way, shape
        self.name = '%s says %sequal so far%s' % (keyname(key), '' if way else 'un', '' if shape is TRUE else ' in shape and elements')

    def goal(self, ex, view):
        x = view.slots.get(self.key)
        x = ne(x, 0) if isinstance(x, Poly) else x
        w = conj(self.shape, eq(self.c.first(ex, self.n, self.pair)(view.ts()[-1]), 0))
        x = x if self.way else neg(x)
        return conj(imp(x, w), imp(w, x))


class Stores(Contract):
    """equal exactly when the lengths agree and all elements are close"""
    shape = sparse = False

    def setup(self, ex, st, fn):
        k = self.entry[-2:]
        es = {'d': 8, 'f': 4, 'k': 8, 'r': 8}
        so = 'I' if k == 'kk' else 'R'
        acc = max(ACC.get(x.replace('r', 'd'), 0) for x in k)
        arr = lambda nm, n, t: self.array(ex, st, nm, n, es=es[t], sort='I' if t == 'k' else 'R', nonneg=t == 'k')
        if self.shape:
            r, c, s, d = [ivar(x, True) for x in 'rcsd']
            self.same = conj(eq(r, s), eq(c, d))
            st.pc.append(imp(self.same, eq(r * c, s * d)))
            self.pairs = [('A', 'B', so, acc, r * c, eq(r * c, s * d))]
            v = [arr('A', r * c, k[0]), r, c, arr('B', s * d, k[1]), s, d]
        elif self.sparse:
            n, p, m, q = [ivar(x, True) for x in 'npmq']
            self.same = conj(eq(n, m), eq(p, q))
            self.pairs = [('A', 'B', 'R', acc, n, eq(n, m)), ('K', 'L', 'I', 0, n, eq(n, m)), ('O', 'Q', 'I', 0, p, eq(p, q))]
            v = [arr('A', n, k[0]), arr('K', n, 'k'), arr('O', p, 'k'), n, p, arr('B', m, k[1]), arr('L', m, 'k'), arr('Q', q, 'k'), m, q]
        else:
            n, m = ivar('n', True), ivar('m', True)
            self.same = eq(n, m)
            self.pairs = [('A', 'B', so, acc, n, eq(n, m))]
            v = [arr('A', n, k[0]), n, arr('B', m, k[1]), m]
        self.i0 = ivar('i0', True)
        self.wit = []
        self.hooks = {'vc_bool': self.out}
        return v

    def close(self, pair, i):
        a, b, sort, acc = pair[:4]
        a, b = self.elem(a, i, sort), self.elem(b, i, sort)
        if sort == 'I':
            return eq(a, b)
        e = P(Fraction(acc))
        return conj(rle(a - b, e), rle(b - a, e))

    def invariants(self, ex, st, ctx):
        self.wit.append(ctx.t)
        c = self

        class Sofar:
            hard = False

            def __init__(self, pair):
                self.pair, self.name = pair, 'elements so far of %s and %s are close' % pair[:2]

            def goal(self, ex, view):
                return imp(conj(lt(c.i0, view.ts()[-1]), lt(c.i0, self.pair[4])), c.close(self.pair, c.i0))

            def assume(self, ex, hs, view):
                hs.pc.append(self.goal(ex, view))

        if ctx.outer:
            return []
        out = [Sofar(p) for p in self.pairs]
        flags = [k for k, v in ctx.vals.items() if sort_of(ctx.types[k]) == 'B' or ctx.types[k].k == 'int' and ctx.types[k].a == 8]
        if flags:
            for n, p in enumerate(self.pairs):
                if not {p[0], p[1]} <= ctx.plan.reads:
                    continue
                out += [Found(self, n, p)] + [Flag(self, n, p, k, way, shape) for k in flags for way in (True, False) for shape in (TRUE, p[5])]
                self.wit += [self.first(ex, n, p)(ctx.t) - 1]
        return out

    def first(self, ex, n, pair):
        """1 + the number of the first of t elements that is not close, 0: none"""
        return ghost_rec(ex.facts, 'first%d' % n, lambda: ZERO, lambda t, w: ite(gt(w, 0), w, ite(self.close(pair, t), ZERO, t + 1, 'I'), 'I'), sort='I')

    def out(self, ex, st, r):
        n = st.user['calls'] = st.user.get('calls', 0) + 1
        r = ne(r, 0) if isinstance(r, Poly) else r
        for cond, s in ex.branch(st, r):
            if cond == (n == 1):
                ex.require(s, self.same, 'post: only equal shapes are equal')
                for p in self.pairs:
                    ex.require(s, imp(lt(self.i0, p[4]), self.close(p, self.i0)), 'post: only close elements of %s and %s are equal' % p[:2])
            else:
                w = [conj(ge(t, 0), lt(t, p[4]), neg(self.close(p, t))) for t in set(self.wit) for p in self.pairs]
                ex.require(s, disj(neg(self.same), *w), 'post: unequal only if the shapes or some elements differ')


PROOFS = [('equal.cpp', type('vc_eq_' + k, (Number,), dict(entry='vc_eq_' + k))) for k in ('dd', 'df', 'fd', 'ff', 'kk', 'uu')]
PROOFS += [('equal.cpp', type('vc_st_' + k, (Stores,), dict(entry='vc_st_' + k))) for k in ('dd', 'df', 'fd', 'ff', 'kk')]
PROOFS += [('equal.cpp', type('vc_mt_' + k, (Stores,), dict(entry='vc_mt_' + k, shape=True))) for k in ('dd', 'df', 'ff', 'rr')]
PROOFS += [('equal.cpp', type('vc_sp_' + k, (Stores,), dict(entry='vc_sp_' + k, sparse=True))) for k in ('dd', 'df', 'ff')]
DRIVERS = ['equal']
FLT = {'d': 'Float64', 'f': 'Float32'}


def background(tier):
    """the order of the two does not matter: |a-b| == |b-a| in IEEE arithmetic"""
    global RUN
    q = '(set-logic QF_FP)(declare-const a %s)(declare-const b %s)(assert (not (= (fp.abs (fp.sub RNE a b)) (fp.abs (fp.sub RNE b a)))))(check-sat)'
    RUN = []
    for k in 'df':
        p = subprocess.Popen(['cvc5', '--lang=smt2', '--tlimit=600000', '-'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        p.stdin.write(q % (FLT[k], FLT[k]))
        p.stdin.close()
        RUN.append((k, p, time.time()))


def extra_proofs(tier):
    obs = []
    for k, p, t in RUN:
        out = p.stdout.read().strip()
        p.wait()
        obs.append(('lemma: |a-b| and |b-a| are the same %s number' % ('double' if k == 'd' else 'float'), out == 'unsat', time.time() - t, 'cvc5', out[:200]))
    return [dict(name='symmetry', obs=obs, functions=[], trusted=[])]


LEVEL = 'proof'
TECHNIQUE = ('contract-based deductive verification: the comparison of two numbers in exact IEEE arithmetic (z3), symmetry as a lemma over it (cvc5), '
             'storages and matrices by loop invariants over the LLVM IR of the real templates (z3)')
NOTE = ('numbers: all bit patterns of double and float and all unsigned keys; storages and matrices: all lengths, element differences treated as exact; '
        'complex and signed integer numbers are not under contract')
