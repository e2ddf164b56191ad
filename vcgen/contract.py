"""Contract library: base class, input arrays, ghost functions and the array
invariants that the contracts instantiate."""
import itertools
from fractions import Fraction
from .terms import *
from .llir import ity
from .exec import Region, Ptr, NULL, Base, Cells, Unsupported, State, Infeasible, LazyArr, Undef


class Contract:
    name = ''
    entry = None
    timeout = 10000
    hooks_assume = False
    maps = True             # arrays written one element per round are described automatically
    hasty = False           # a step that depends on the path is not tried again
    split = False           # a state for every reason why a condition fails
    hooks = {}

    def begin(self, ex):
        self.ex = ex
        self.folds = []
        self.scalars = []
        self.posts = 0
        ex.facts.add('r:r32', lambda x: imp(req(x, 0), req(app('r:r32', 'R', x), 0)))

    def setup(self, ex, st, fn):
        raise NotImplementedError

    def end(self, ex, st, rv):
        """default: nothing is leaked and every path reached its postcondition"""
        for r in st.heap:
            if r not in st.freed and r not in st.user.get('handed', ()):
                ex.require(st, FALSE, 'block %s is freed' % r.name.split('/')[0])

    # --- arithmetic
    def farith(self, op, x, y):
        if op == 'fadd':
            return x + y
        if op == 'fsub':
            return x - y
        if op == 'fmul':
            return x * y
        c = y.const()
        if c is not None and c != 0:
            return x * Fraction(1, 1) * P(Fraction(1) / Fraction(c))
        return app('r:div', 'R', x, y)

    def fptrunc(self, x):
        if x.const() == 0:
            return x
        return app('r:r32', 'R', x)

    def fabs(self, x):
        c = x.const()
        if c is not None:
            return P(abs(c))
        return ite(rle(0, x), x, -x, 'R')

    def ftoi(self, ex, st, x, signed):
        raise Unsupported('conversion of a floating-point number to an integer')

    def sqrt(self, x):
        return app('r:sqrt', 'R', x)

    def trunc32(self, ex, st, x):
        ex.note('values narrowed to 32 bits are in range')
        return x

    def elem_of(self, ex, r):
        return (8, 'R')

    def load_global(self, ex, st, ty, p):
        raise Unsupported('load from global ' + p.reg.name)

    # --- loop invariants
    stripes = ()
    arith = None            # facts of arithmetic about the counter of a loop

    def invariants(self, ex, st, ctx):
        out = []
        ctx.striped = []
        for sp in self.stripes:
            for inv in sp.candidates(ex, st, ctx):
                out.append(inv)
                if inv.name not in ctx.plan.dropped:
                    ctx.striped.append(inv)
        for f in self.folds:
            out += f.candidates(ex, st, ctx)
        for s in self.scalars:
            out += s.candidates(ex, st, ctx)
        if self.arith is not None:
            out.append(ArithInv(self.arith))
        return out + first_flags(ctx)

    # --- inputs
    def size(self, st, *names):
        return [ivar(n, True) for n in names]

    def array(self, ex, st, name, n, es=8, sort='R', nonneg=False, rw=False):
        r = Region(name, 'ext', P(n) * es)
        r.es, r.sort, r.rw, r.nonneg = es, sort, rw, nonneg
        st.mem[r] = Base(name, sort, nonneg)
        ex.regs[name] = r
        return Ptr(r, 0)

    def read(self, ex, st, p, idx, es=8):
        """element idx of the array p points to; the memory must be there and live"""
        if not isinstance(p, Ptr) or p.reg is None:
            ex.require(st, FALSE, 'the result has memory')
            raise Infeasible()
        if p.reg in st.freed:
            ex.require(st, FALSE, 'the result is alive')
            raise Infeasible()
        off = p.off + P(idx) * es
        if p.reg.size is not None:
            ex.require(st, conj(le(0, off), le(off + es, p.reg.size)), 'post: the element is inside the result memory')
        c = st.mem[p.reg]
        if isinstance(c, LazyArr):
            c = Base('undef.' + p.reg.name, 'R')
        if isinstance(c, Cells):
            c = ex.to_array(st, p.reg, ex.elem_ty('R', es), es)
        return c.read(off.div_const(es))

    def counter(self, ex, st, name):
        """a variable of the specification"""
        r = ex.newreg(st, 'ghost.' + name, 'stack', P(8))
        st.mem[r] = Cells()
        ex.store(st, ity(64), ZERO, Ptr(r, 0))
        return r

    def count(self, ex, st, r):
        """its value, increased afterwards"""
        v = ex.load(st, ity(64), Ptr(r, 0))
        ex.store(st, ity(64), v + 1, Ptr(r, 0))
        return v

    def inside(self, st, i, j, I, J, ld=None):
        """i + j*ld stays inside ld*J when i < I <= ld and j < J: the factor
        J-j-1 >= 0 times ld >= 0 is not negative"""
        ld = I if ld is None else ld
        st.pc.append(prodfact(J - j - 1, ld))
        st.pc.append(prodfact(j, ld))

    def elem(self, name, idx, sort='R', nonneg=False):
        return Base(name, sort, nonneg).read(P(idx))


def prodfact(a, b):
    """always true: a product of non-negative integers is not negative"""
    return imp(conj(ge(a, 0), ge(b, 0)), ge(a * b, 0))


# ------------------------------------------------------------ ghost functions
def ghost_sum(facts, name, init, term, arity):
    """name(a.., c): partial sum of the first c terms"""
    def fact(*args):
        a, c = args[:-1], args[-1]
        k = c.const()
        me = app(name, 'R', *args)
        if k == 0:
            return req(me, init(*a))
        out = [imp(eq(c, 0), req(me, init(*a)))] if k is None else []
        prev = app(name, 'R', *a, c - 1)
        out.append(imp(ge(c, 1), req(me, prev + term(*a, c - 1))))
        return out
    facts.add(name, fact)
    return lambda *args: app(name, 'R', *args)


def ghost_rec(facts, name, init, step, sort='R'):
    """name(a.., c) with name(..,0)=init(..), name(..,c+1)=step(.., c, name(..,c))"""
    def fact(*args):
        a, c = args[:-1], args[-1]
        k = c.const()
        eqf = req if sort == 'R' else eq
        me = app(name, sort, *args)
        if k == 0:
            return eqf(me, init(*a))
        out = [imp(eq(c, 0), eqf(me, init(*a)))] if k is None else []
        prev = app(name, sort, *a, c - 1)
        out.append(imp(ge(c, 1), eqf(me, step(*a, c - 1, prev))))
        return out
    facts.add(name, fact)
    return lambda *args: app(name, sort, *args)


# ------------------------------------------------------------ layouts
def split_ld(idx, ld):
    """(i, j) with idx == i + j*ld by polynomial division of each monomial"""
    if len(ld.c) != 1:
        return None
    (dm, dk), = ld.c.items()
    if dm == ():
        q, r = {}, {}
        for m, k in idx.c.items():
            q[m] = k // dk
            if k % dk:
                r[m] = k % dk
        return Poly(r), Poly({m: k for m, k in q.items() if k})
    q, r = {}, {}
    for m, k in idx.c.items():
        mm = list(m)
        ok = k % dk == 0
        for a in dm:
            if a in mm:
                mm.remove(a)
            else:
                ok = False
                break
        if ok:
            q[tuple(mm)] = k // dk
        else:
            r[m] = k
    return Poly(r), Poly(q)


def level_values(view, levels):
    """[(role, current value)]: a level is the number of a loop of the nest
    or a variable of a strided traversal"""
    ts = view.ts()
    out = []
    for n, r in levels:
        if isinstance(n, int):
            out.append((r, ts[n]))
        else:
            ctx, k = n
            x = view.slots.get(k) if ctx is view.ctx else ctx.vals.get(k)
            if not isinstance(x, Poly):
                raise Unsupported('no value for a level')
            out.append((r, x))
    return out


def assignments(ctx, roles_of, conflict):
    """ways to assign roles to the loops of a nest: [[(level, role)]]"""
    levels = list(ctx.outer) + [ctx]
    res = [[]]
    for n, l in enumerate(levels):
        new = []
        for a in res:
            have = [r for _, r in a]
            for r in roles_of(l, a):
                if not conflict(r, have):
                    new.append(a + [(n, r)])
            if not conflict('j', have) and not conflict('i', have):
                for s in getattr(l, 'striped', ()):
                    new.append(a + [((l, s.kb), 'j'), ((l, s.kp), 'i')])
        res = new
    return res


class FirstInv:
    hard = False

    def __init__(self, key, way):
        self.key, self.way = key, way
        self.name = '%s says %sfirst round' % (keyname(key), '' if way else 'not ')

    def goal(self, ex, view):
        x = view.slots.get(self.key)
        x = ne(x, 0) if isinstance(x, Poly) else x
        if x is None or isinstance(x, Undef):
            raise Unsupported('flag has no value')
        return iff(x if self.way else neg(x), eq(view.ts()[-1], 0))

    def assume(self, ex, hs, view):
        hs.pc.append(self.goal(ex, view))


def first_flags(ctx):
    """local flags that tell the first round of a loop from the others"""
    from .loops import sort_of
    out = []
    for k, v in ctx.vals.items():
        ty = ctx.types[k]
        if ctx.plan.cls.get(k, ('?',))[0] == 'sym' and (sort_of(ty) == 'B' or ty.k == 'int' and ty.a == 8):
            out += [FirstInv(k, True), FirstInv(k, False)]
    return out


class Stripe:
    """the traversal of nb lines of cs elements, ld elements apart, from base;
    back: backwards from element number back (True: the end); reverse: from the
    last element to the place before the first one"""

    def __init__(self, region, cs, nb, ld, base, es=8, back=False, reverse=False, lemmas=None, name=''):
        self.region, self.cs, self.nb, self.ld, self.base, self.es = region, P(cs), P(nb), P(ld), P(base), es
        self.back, self.reverse, self.name = self.cs * self.nb if back is True else back, reverse, name
        self.lemmas = lemmas or (lambda p, b: [])

    def candidates(self, ex, st, ctx):
        from .loops import sort_of
        ints = [k for k, v in ctx.vals.items() if isinstance(v, Poly) and sort_of(ctx.types[k]) == 'I' and ctx.plan.cls.get(k, ('?',))[0] in ('sym', 'cond')]
        ptrs = [k for k, v in ctx.vals.items() if isinstance(v, Ptr) and v.reg is not None and v.reg.name == self.region and ctx.plan.cls.get(k, ('?',))[0] in ('sym', 'cond', 'lin')]
        if not ptrs:
            # the pointer may be held as its distance from the first element
            ptrs = [k for k, v in ctx.vals.items() if isinstance(v, Poly) and sort_of(ctx.types[k]) == 'I' and ctx.plan.cls.get(k, ('?',))[0] in ('sym', 'cond', 'lin')]
        return [StripeInv(self, kp, kb, kq) for kq in ptrs for kp in ints for kb in ints if kp != kb and kp != kq and kb != kq]


def keyname(k):
    return k if isinstance(k, str) else '%s+%d' % (k[0].split('#')[0], k[1])


class StripeInv:
    hard = False

    def __init__(self, sp, kp, kb, kq):
        self.sp, self.kp, self.kb, self.kq = sp, kp, kb, kq
        self.name = ('backward ' if sp.back is not False else 'reverse ' if sp.reverse else '') + sp.name + 'strided traversal of %s by %s, %s and %s' % (sp.region, keyname(kp), keyname(kb), keyname(kq))

    def goal(self, ex, view):
        s = self.sp
        p, b, q = [view.slots.get(k) for k in (self.kp, self.kb, self.kq)]
        off = s.base * s.es
        if isinstance(q, Poly):
            q = Ptr(ex.regs[s.region], off + q)
        if not (isinstance(p, Poly) and isinstance(b, Poly) and isinstance(q, Ptr)) or q.reg is None or q.reg.name != s.region:
            raise Unsupported('no strided traversal')
        t = view.t
        some = conj(ge(s.cs, 1), ge(s.nb, 1))
        if s.reverse:
            inside = conj(ge(p, 0), lt(p, s.cs), ge(b, -1), lt(b, s.nb), eq(s.cs * s.nb - 1 - t, p + b * s.cs),
                          imp(ge(b, 0), eq(q.off, off + (p + b * s.ld) * s.es)), imp(eq(b, -1), conj(eq(p, s.cs - 1), eq(q.off, off - s.es))))
            return imp(some, inside)
        count = eq(s.back - t, p + b * s.cs) if s.back is not False else eq(t, p + b * s.cs)
        inside = conj(ge(p, 0), ge(b, 0), le(b, s.nb), count,
                      imp(lt(b, s.nb), conj(lt(p, s.cs), eq(q.off, off + (p + b * s.ld) * s.es))),
                      imp(eq(b, s.nb), conj(eq(p, 0), eq(q.off, off + (s.cs + (s.nb - 1) * s.ld) * s.es))))
        none = conj(eq(t, 0), eq(q.off, off), eq(p, 0), eq(b, 0))
        return conj(imp(some, inside), imp(neg(some), none))

    def assume(self, ex, hs, view):
        s = self.sp
        hs.pc.append(self.goal(ex, view))
        b = view.slots.get(self.kb)
        hs.pc += s.lemmas(view.slots.get(self.kp), b)
        hs.pc += [prodfact(x, s.cs) for x in (b, b - 1, s.nb - b, s.nb - b - 1)]

    def variant(self, view):
        s = self.sp
        return (s.back if s.back is not False else s.cs * s.nb) - view.t


class ArithInv:
    """nothing to prove: the facts hold for every number"""
    name, hard = 'arithmetic', False

    def __init__(self, fn):
        self.fn = fn

    def goal(self, ex, view):
        return TRUE

    def assume(self, ex, hs, view):
        hs.pc += self.fn(view.t)


class ArrInv:
    hard = False

    def __init__(self, name, reg, fold, levels, weak=False):
        self.name, self.reg, self.fold, self.levels, self.weak = name, reg, fold, levels, weak

    def goal(self, ex, view):
        f = self.fold
        i, j = ivar('i0', True), ZERO if f.J.const() == 1 else ivar('j0', True)
        rd = view.read(self.reg, f.lin(i, j))
        return imp(f.guard(i, j), f.claim(i, j, level_values(view, self.levels), rd, self.weak))

    def assume(self, ex, hs, view):
        f = self.fold
        c = hs.mem[self.reg]
        lv = level_values(view, self.levels)

        def fact(idx):
            ij = f.unlin(ex, idx)
            if ij is None:
                return None
            i, j = ij
            return imp(f.guard(i, j), f.claim(i, j, lv, app(c.name, f.sort, idx), self.weak))
        ex.facts.add(c.name, fact)


def levelname(a):
    return ''.join(r if isinstance(n, int) else r + '(' + keyname(n[1]) + ')' for n, r in a)


class Fold:
    """cell (i,j) of a 2-d array, stored at lin(i,j)=off+i+j*ld, holds
    val(i,j,c) after c of its K contributions; loops play roles i, j, k"""
    sort = 'R'

    def __init__(self, name, I, J, val, K=None, ld=None, off=0, extents=None, sort='R', roles=None, kstep=None, transposed=False):
        self.name, self.I, self.J, self.val = name, P(I), P(J), val
        self.K = K if callable(K) else (lambda i, j, K=K: P(1 if K is None else K))
        self.hasK = K is not None
        self.ld = P(ld) if ld is not None else self.I
        self.off = P(off)
        self.sort = sort
        self.ext = {'i': lambda tm: self.I, 'j': lambda tm: self.J, 'p': lambda tm: self.I * self.J}
        if K is not None and not callable(K):
            self.ext['k'] = lambda tm: P(K)
        self.ext.update(extents or {})
        self.kstep = kstep or {}

    def lin(self, i, j):
        return self.off + i + j * self.ld

    def unlin(self, ex, idx):
        if self.J.const() == 1:
            return idx - self.off, ZERO
        r = split_ld(idx - self.off, self.ld)
        if r is None:
            return None
        i, j = r
        if j == ZERO and len(self.ld.c) == 1 and idx.const() is None and () not in self.ld.c:
            # flat index: quotient and remainder
            d, m = app('fdiv.' + self.name, 'I', idx), app('fmod.' + self.name, 'I', idx)
            for z in (d, m):
                next(iter(z.atoms())).nonneg = True
            nm = 'fdiv.' + self.name
            if nm not in ex.facts.by_name:
                def f(x):
                    d, m = app('fdiv.' + self.name, 'I', x), app('fmod.' + self.name, 'I', x)
                    return imp(conj(ge(x, self.off), lt(x, self.off + self.J * self.ld), gt(self.ld, 0)),
                               conj(eq(x, self.off + m + d * self.ld), lt(m, self.ld), lt(d, self.J)))
                ex.facts.add(nm, f)
        return i, j

    def guard(self, i, j):
        return conj(ge(i, 0), lt(i, self.I), ge(j, 0), lt(j, self.J))

    def cases(self, i, j, levels, full, weak, started):
        """[(cond, count)] - first true condition applies; count None: no claim"""
        if not levels:
            return [(TRUE, None if weak and not started else ZERO)]
        (r, t), rest = levels[0], levels[1:]
        if r in ('i', 'j', 'p'):
            x = i if r == 'i' else j if r == 'j' else i + j * self.I
            sub = self.cases(i, j, rest, full, weak, started)
            return [(lt(x, t), full)] + [(conj(eq(x, t), c), v) for c, v in sub] + [(TRUE, None if weak and not started else ZERO)]
        if r == '-':
            return self.cases(i, j, rest, full, weak, started)
        base, nfull = (t, ONE) if r in ('k', 'ks') else self.kstep[r](t)
        return [(c, None if v is None else base + v) for c, v in self.cases(i, j, rest, nfull, weak, True)]

    def claim(self, i, j, levels, rd, weak=False):
        """what is known about the content rd of cell (i,j)"""
        e = req if self.sort == 'R' else eq
        out = None
        for c, v in reversed(self.cases(i, j, levels, self.K(i, j), weak, False)):
            if not weak:
                x = self.val(i, j, v)
                out = x if out is None or c is TRUE else ite(c, x, out, self.sort)
            else:
                x = TRUE if v is None else e(rd, self.val(i, j, v))
                out = x if out is None or c is TRUE else conj(imp(c, x), disj(c, out))
        return out if weak else e(rd, out)

    def roles_of(self, ex, st, l, tm):
        out = []
        if l.bound is None:
            return out
        for r, e in self.ext.items():
            x = e(tm)
            if x is None:
                continue
            if x == l.bound:
                out.append(r)
            else:
                ok, _, _ = ex.prove(st, eq(x, l.bound), timeout=1500)
                if ok:
                    out.append(r)
        return out

    def outer_values(self, ctx, a):
        ts = [l.t for l in ctx.outer] + [ctx.t]
        return [(r, ts[n] if isinstance(n, int) else n[0].vals[n[1]]) for n, r in a]

    def match_region(self, ctx, r):
        return r.sort == self.sort

    def accumulators(self, ctx, assigns):
        """the element being computed may be held in a local variable until it
        is complete"""
        from .loops import sort_of
        if not self.hasK:
            return []
        n = len(ctx.outer)
        last = {'k', *self.kstep}
        assigns = [a for a in assigns if a and a[-1][0] == n and a[-1][1] in last
                   and [r for _, r in a].count('i') == 1 == [r for _, r in a].count('j') and len(a) == 3]
        keys = [k for k, v in ctx.vals.items() if isinstance(v, Poly) and ctx.plan.cls.get(k, ('?',))[0] == 'sym' and sort_of(ctx.types[k]) == self.sort]
        return [ScalInv('%s[%s] in %s' % (self.name, levelname(a), keyname(k)), k, self.accumulator(), a) for k in keys for a in assigns]

    def accumulator(self):
        def val(v):
            i, j = v.pop('i'), v.pop('j')
            (r, t), = v.items()
            return self.val(i, j, t if r == 'k' else self.kstep[r](t)[0])
        return Scal(self.name, {}, val, self.sort)

    def candidates(self, ex, st, ctx):
        regs = [r for r in ctx.arrs if r.name not in ctx.plan.map and self.match_region(ctx, r)]
        if not regs and not self.hasK:
            return []
        assigns = assignments(ctx, lambda l, a: self.roles_of(ex, st, l, {r: v for r, v in self.outer_values(ctx, a)}),
                              lambda r, have: r in have or 'p' in have and r in ('i', 'j') or r == 'p' and ('i' in have or 'j' in have))
        out = self.accumulators(ctx, assigns)
        for r in regs:
            for a in assigns:
                nm = '%s[%s] of %s' % (self.name, levelname(a), r.name.split('#')[0].split('/')[0])
                out.append(ArrInv(nm, r, self, a))
                if nm in ctx.plan.dropped:
                    out.append(ArrInv(nm + ' so far', r, self, a, True))
        return out


class Block(Fold):
    """an I x J array of which the r x c block at (a,b) is visited line by
    line: a visited element holds val(i,j,1), any other one val(i,j,0)"""

    def __init__(self, name, I, J, block, val, **kw):
        super().__init__(name, I, J, val, **kw)
        self.block = block
        r, c = block[:2]
        self.ext = {'i': lambda tm: P(r), 'j': lambda tm: P(c)}

    def cases(self, i, j, levels, full, weak, started):
        r, c, a, b = self.block
        done = FALSE
        for x, v in reversed([l for l in levels if l[0] in ('i', 'j')]):
            x = i - a if x == 'i' else j - b
            done = disj(lt(x, v), conj(eq(x, v), done))
        return [(conj(ge(i, a), lt(i, a + r), ge(j, b), lt(j, b + c), done), ONE), (TRUE, ZERO)]


# ------------------------------------------------------------ scalars in loops
class ScalInv:
    hard = False

    def __init__(self, name, key, scal, levels):
        self.name, self.key, self.scal, self.levels = name, key, scal, levels

    def want(self, view):
        return self.scal.val(dict(level_values(view, self.levels)))

    def goal(self, ex, view):
        x = view.slots.get(self.key)
        w = self.want(view)
        if not isinstance(x, Poly) or w is None:
            raise Unsupported('scalar has no value')
        return (req if self.scal.sort == 'R' else eq)(x, w)

    def assume(self, ex, hs, view):
        hs.pc.append(self.goal(ex, view))


class Scal:
    """a local variable or cell that holds val({role: counter}) in a loop nest"""

    def __init__(self, name, ext, val, sort='R', cls=('sym',)):
        self.name, self.ext, self.val, self.sort, self.cls = name, ext, val, sort, cls

    def roles(self, ex, st):
        def roles_of(l, a):
            if l.bound is None:
                return []
            lv = [x.t for x in list(l.outer) + [l]]
            tm = {r: lv[n] if isinstance(n, int) else n[0].vals[n[1]] for n, r in a}
            out = []
            for r, e in self.ext.items():
                e = e(tm) if callable(e) else P(e)
                if e is not None and (e == l.bound or ex.prove(st, eq(e, l.bound), timeout=1500)[0]):
                    out.append(r)
            return out
        return roles_of

    def candidates(self, ex, st, ctx):
        assigns = assignments(ctx, self.roles(ex, st), lambda r, have: r in have)
        out = []
        for k, v in ctx.vals.items():
            c = ctx.plan.cls.get(k)
            if c is None or c[0] not in self.cls or not isinstance(v, Poly):
                continue
            from .loops import sort_of
            if sort_of(ctx.types[k]) != self.sort:
                continue
            for a in assigns:
                out.append(ScalInv('%s[%s] in %s' % (self.name, levelname(a), keyname(k)), k, self, a))
        return out


class PtrInv(ScalInv):
    def goal(self, ex, view):
        x = view.slots.get(self.key)
        w = self.want(view)
        if not isinstance(x, Ptr) or x.reg is None or w is None:
            raise Unsupported('pointer has no value')
        return eq(x.off, w * self.scal.es)


class PtrScal(Scal):
    """a pointer into an array the code under test made: its distance from the
    beginning is val({role: counter}) elements"""

    def __init__(self, name, ext, val, es=8, cls=('sym', 'cond')):
        super().__init__(name, ext, val, cls=cls)
        self.es = es

    def candidates(self, ex, st, ctx):
        assigns = None
        out = []
        for k, v in ctx.vals.items():
            c = ctx.plan.cls.get(k)
            if c is None or c[0] not in self.cls or not isinstance(v, Ptr) or v.reg is None or v.reg.kind == 'ext':
                continue
            if assigns is None:
                assigns = assignments(ctx, self.roles(ex, st), lambda r, have: r in have)
            for a in assigns:
                out.append(PtrInv('%s[%s] in %s' % (self.name, levelname(a), keyname(k)), k, self, a))
        return out


class PrefixInv:
    hard = False

    def __init__(self, name, reg, pre, cur, levels):
        self.name, self.reg, self.pre, self.cur, self.levels = name, reg, pre, cur, levels

    def form(self, view, p, rd):
        n = self.cur(dict(level_values(view, self.levels)))
        if n is None:
            raise Unsupported('no length')
        f = self.pre
        return imp(conj(ge(p, 0), lt(p, n), f.cond(p)), (req if f.sort == 'R' else eq)(rd, f.val(p)))

    def goal(self, ex, view):
        p = ivar('p0', True)
        return self.form(view, p, view.read(self.reg, p))

    def assume(self, ex, hs, view):
        c = hs.mem[self.reg]
        self.form(view, ZERO, ZERO)
        ex.facts.add(c.name, lambda idx: self.form(view, idx, app(c.name, self.pre.sort, idx)))


class Prefix:
    """the first cur({role: counter}) elements of an array are val(p); curs
    are alternatives, strongest first"""

    def __init__(self, name, ext, curs, val, sort='R'):
        self.name, self.ext, self.curs, self.val, self.sort = name, ext, curs, val, sort

    def cond(self, p):
        return TRUE

    def candidates(self, ex, st, ctx):
        regs = [r for r in ctx.arrs if r.name not in ctx.plan.map and r.sort == self.sort and r.kind != 'ext']
        if not regs:
            return []
        out = []
        for a in assignments(ctx, Scal.roles(self, ex, st), lambda r, have: r in have):
            for r in regs:
                for n, cur in enumerate(self.curs):
                    nm = '%s[%s]%s of %s' % (self.name, levelname(a), "'" * n, r.name.split('#')[0].split('/')[0])
                    out.append(PrefixInv(nm, r, self, cur, a))
                    if nm not in ctx.plan.dropped:
                        break
        return out


class Whole(Prefix):
    """every element p of an array of n (with when(p, {role: counter})) is
    val(p, {role: counter}) (None: no claim)"""

    def __init__(self, name, ext, n, val, sort='R', when=None):
        self.name, self.ext, self.n, self.whole, self.sort, self.when = name, ext, P(n), val, sort, when
        self.curs = [self.set]

    def set(self, tm):
        self.now = tm
        return self.n if self.whole(ZERO, tm) is not None else None

    def val(self, p):
        return self.whole(p, self.now)

    def cond(self, p):
        return self.when(p, self.now) if self.when else TRUE
