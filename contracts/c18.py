from vcgen.contract import *
from vcgen.exec import Write, Undef
from vcgen.loops import sort_of
from vcgen.llir import Ty
from contracts.sparse import Lemmas

END = P(-1)


def fresh(ex, st, what):
    base = what + '@' + '.'.join(l.key_id for l in st.nest)
    n = st.user.get(('made', base), 0)
    st.user[('made', base)] = n + 1
    name = '%s.%d/%s' % (base, n, ex.ctxid(st.dec))
    for l in st.nest:
        l.own(name)
    return name


class Empty(Base):
    """a set without members"""

    def __init__(self):
        super().__init__('empty set', 'I', True)

    def read(self, idx):
        return ZERO


def parts(c):
    """the content a chain of writes is based on and the places written"""
    ix = []
    while isinstance(c, Write):
        ix.append(c.idx)
        c = c.prev
    return c, ix


def is_set(r):
    return r.name.startswith('set')


class Inv:
    hard = False

    def __init__(self, name, goal, assume=None, variant=None):
        self.name, self.goal_, self.assume_ = name, goal, assume
        if variant:
            self.variant = variant

    def goal(self, ex, view):
        return self.goal_(view)

    def assume(self, ex, hs, view):
        if self.assume_:
            self.assume_(ex, hs, view)
        else:
            hs.pc.append(self.goal_(view))


def number(view, k):
    x = view.slots.get(k)
    if not isinstance(x, Poly):
        raise Unsupported('no number')
    return x


def apart(s, a, va, b, vb):
    return imp(conj(eq(va, 1), eq(vb, 1), lt(a, b)), disj(ge(b - a, s.lo), conj(eq(a, 0), eq(b, s.last))))


class Sizes(Contract):
    """the sizes are the differences of consecutive borders, the borders go
    from 0 to the length of the dimension and are far enough apart"""
    maps = False
    hooks_assume = True
    hasty = True
    es = 8
    exact = None

    def setup(self, ex, st, fn):
        self.n, self.lo, self.hi = self.size(st, 'n', 'lo', 'hi')
        if self.exact is not None:
            self.n = P(self.exact)
        else:
            st.pc.append(ge(self.n, 2))
        self.keep = len(st.pc)
        self.last = self.n + 1
        self.hooks = {'vc_set_new': self.new, 'vc_set_from': self.lower, 'vc_set_below': self.below, 'vc_set_size': self.enum,
                      'vc_set_there': self.there, 'vc_sort': self.sort, 'vc_sizes_are': self.sizes}
        return [self.n, self.lo, self.hi, self.array(ex, st, 'd', self.n, es=self.es)]

    # --- sets
    def new(self, ex, st):
        r = ex.newreg(st, 'set', 'stack', None)
        r.es, r.sort, r.nonneg, r.rw = 8, 'I', True, True
        st.mem[r] = Empty()
        return Ptr(r, 0)

    def each(self, ex, st, c, fn):
        """fn(y) for every y of which membership is mentioned"""
        b, ix = parts(c)
        if not isinstance(b, Empty):
            ex.facts.add(b.name, fn)
        st.pc += [fn(y) for y in ix]

    def lower(self, ex, st, p, x):
        c = st.mem[p.reg]
        r = ivar(fresh(ex, st, 'from'))
        st.pc += [disj(eq(r, END), conj(ge(r, x), eq(c.read(r), 1)))]
        self.each(ex, st, c, lambda y: imp(conj(eq(c.read(y), 1), ge(y, x)), conj(ne(r, END), le(r, y))))
        if 'borders' in st.user and st.user['borders'][2] is p.reg:
            # which member it is
            B, n = st.user['borders'][:2]
            k = app(st.user['borders'][3], 'I', r)
            lemma = [imp(ne(r, END), conj(ge(k, 0), lt(k, n), eq(B(k), r), disj(eq(k, 0), lt(B(k - 1), x)))), imp(eq(r, END), lt(B(n - 1), x))]
            ex.require(st, conj(*lemma), 'the number found is the first border from there on', rounds=3)
            st.pc += lemma
        return r

    def below(self, ex, st, p, x):
        # there must be one
        c = st.mem[p.reg]
        r = ivar(fresh(ex, st, 'below'), True)
        w = ivar('y0', True)
        some = disj(*[conj(eq(c.read(y), 1), lt(y, x)) for y in (ZERO, self.last)])
        ex.require(st, some, 'the iterator is not moved before the first member')
        st.pc += [conj(lt(r, x), eq(c.read(r), 1))]
        self.each(ex, st, c, lambda y: imp(conj(eq(c.read(y), 1), lt(y, x)), ge(r, y)))
        return r

    def enum(self, ex, st, p, n):
        if st.nest:
            return n
        # what matters from here on
        c = st.mem[p.reg]
        y, z = ivar('y1'), ivar('z1')
        ex.require(st, conj(eq(c.read(ZERO), 1), eq(c.read(self.last), 1)), 'both ends are borders')
        ex.require(st, imp(eq(c.read(y), 1), conj(ge(y, 0), le(y, self.last))), 'no border outside of the dimension')
        ex.require(st, apart(self, y, c.read(y), z, c.read(z)), 'distance of borders')

        def summary():
            h = st.mem[p.reg].name
            m = lambda q: app(h, 'I', P(q))
            st.pc.append(conj(eq(m(ZERO), 1), eq(m(self.last), 1)))
            ex.facts.add(h, lambda q: conj(disj(eq(m(q), 0), eq(m(q), 1)), imp(eq(m(q), 1), conj(ge(q, 0), le(q, self.last)))))
            ex.facts.add_pair(h, lambda a, b: [apart(self, a[0], m(a[0]), b[0], m(b[0])), apart(self, b[0], m(b[0]), a[0], m(a[0]))])
        ex.merge(st, self.keep, [r for r in st.mem if is_set(r)], summary)
        c = st.mem[p.reg]
        n = ivar(fresh(ex, st, 'number of members'), True)
        nm = fresh(ex, st, 'member')
        rk = 'rank of ' + nm
        B = lambda k: app(nm, 'I', P(k))
        ex.facts.add(nm, lambda k: imp(conj(ge(k, 0), lt(k, n)), conj(eq(c.read(B(k)), 1), ge(B(k), 0))))
        ex.facts.add_pair(nm, lambda a, b: conj(imp(conj(ge(a[0], 0), lt(a[0], b[0]), lt(b[0], n)), lt(B(a[0]), B(b[0]))),
                                                imp(conj(ge(b[0], 0), lt(b[0], a[0]), lt(a[0], n)), lt(B(b[0]), B(a[0])))))

        def ranked(y):
            k = app(rk, 'I', y)
            return imp(eq(c.read(y), 1), conj(ge(k, 0), lt(k, n), eq(B(k), y)))
        self.each(ex, st, c, ranked)
        st.pc += [ranked(ZERO), ranked(self.last), bapp('number', B(ZERO)), bapp('number', B(n - 1))]
        st.user['borders'] = (B, n, p.reg, rk)
        return n

    def there(self, ex, st, x):
        ex.require(st, ne(x, END), 'an iterator that is dereferenced is not the end')

    def sort(self, ex, st, p, n):
        if p.reg is None:
            ex.require(st, eq(n, 0), 'sort: there is something to sort')
            return
        if n == ONE:
            return
        c = st.mem[p.reg]
        x = ivar('x0', True)
        ex.require(st, eq(p.off, 0), 'the whole array is sorted')
        v = c.read(x)
        ex.require(st, imp(lt(x, n), lt(v, n)), 'sort: the numbers are places of the array that decides their order')
        nm = fresh(ex, st, 'sorted')
        st.mem[p.reg] = Base(nm, 'I', True)
        for l in st.nest:
            l.touch_arr(p.reg, ZERO)
        ex.facts.add(nm, lambda k: imp(conj(ge(k, 0), lt(k, n)), lt(app(nm, 'I', k), n)))

    # --- loops
    def invariants(self, ex, st, ctx):
        y, z = ivar('y1'), ivar('z1')
        sets = [r for r in st.mem if is_set(r)]
        mod = [r for r in sets if r in ctx.arrs]
        ints = [k for k, v in ctx.vals.items() if isinstance(v, Poly) and sort_of(ctx.types[k]) == 'I']
        sym = [k for k in ints if ctx.plan.cls.get(k, ('?',))[0] in ('sym', 'cond')]
        out = []
        nm = lambda r: r.name.split('#')[0].split('/')[0] + ('+' if '#' in r.name else '')

        def every(what, r, form):
            """form(y, member(y), view) for every y"""
            def assume(ex, hs, view):
                h = hs.mem[r].name
                form(ZERO, ZERO, view)
                ex.facts.add(h, lambda q: form(q, app(h, 'I', q), view))
            out.append(Inv('%s in %s' % (what, nm(r)), lambda view: form(y, view.read(r, y), view), assume))

        done = 'borders' in st.user
        for r in [] if done else mod:
            every('marks', r, lambda q, v, view: disj(eq(v, 0), eq(v, 1)))
            every('range', r, lambda q, v, view: imp(eq(v, 1), conj(ge(q, 0), le(q, self.last))))
            every('places', r, lambda q, v, view: imp(eq(v, 1), conj(ge(q, 0), lt(q, self.n))))
            for k in ints:
                every('below ' + keyname(k), r, lambda q, v, view, k=k: imp(eq(v, 1), lt(q, number(view, k))))
                every('up to ' + keyname(k), r, lambda q, v, view, k=k: imp(eq(v, 1), le(q, number(view, k))))
            for what, x in (('first', ZERO), ('last', self.last)):
                out.append(Inv('%s in %s' % (what, nm(r)), lambda view, r=r, x=x: eq(view.read(r, x), 1)))

            def assume(ex, hs, view, r=r):
                h = hs.mem[r].name
                ex.facts.add_pair(h, lambda a, b: [apart(self, a[0], app(h, 'I', a[0]), b[0], app(h, 'I', b[0])), apart(self, b[0], app(h, 'I', b[0]), a[0], app(h, 'I', a[0]))])
            out.append(Inv('distances in %s' % nm(r), lambda view, r=r: apart(self, y, view.read(r, y), z, view.read(r, z)), assume))
        for k in [] if done else sym:
            s = ctx.start.get(k)
            if isinstance(s, Poly):
                out.append(Inv('%s counts' % keyname(k), lambda view, k=k, s=s: eq(number(view, k), s + view.t)))
            out.append(Inv('%s is no less than 0' % keyname(k), lambda view, k=k: ge(number(view, k), 0), None, lambda view, k=k: number(view, k)))
            out.append(Inv('%s is no place behind the end' % keyname(k), lambda view, k=k: le(number(view, k), self.n), None, lambda view, k=k: self.n - number(view, k)))
            for r in sets:
                if r not in mod:
                    out.append(Inv('%s is in %s' % (keyname(k), nm(r)), lambda view, k=k, r=r: disj(eq(number(view, k), END), eq(st.mem[r].read(number(view, k)), 1)), None,
                                   lambda view, k=k: ite(eq(number(view, k), END), ZERO, self.n - number(view, k), 'I')))
        for k in [] if done else sym:
            if ctx.start.get(k) != ZERO:
                continue
            for a in sym:
                if a == k or ctx.start.get(a) == ZERO:
                    continue
                for r in sets:
                    if r in mod:
                        continue
                    out.append(Inv('%s chosen in %s by %s' % (keyname(a), nm(r), keyname(k)), lambda view, k=k, a=a, r=r: imp(gt(number(view, k), 0), eq(st.mem[r].read(number(view, a)), 1))))

                    def far(q, v, view, k=k, a=a):
                        x = number(view, a)
                        return imp(conj(gt(number(view, k), 0), eq(v, 1), ne(q, x)), disj(ge(q - x, self.lo), ge(x - q, self.lo)))

                    def goal(view, far=far, k=k, a=a, r=r):
                        x = number(view, a)
                        return conj(imp(gt(number(view, k), 0), conj(ge(x, 1), le(x, self.n))), far(y, st.mem[r].read(y), view))

                    def assume(ex, hs, view, far=far, k=k, a=a, r=r):
                        x = number(view, a)
                        hs.pc.append(imp(gt(number(view, k), 0), conj(ge(x, 1), le(x, self.n))))
                        c = st.mem[r]
                        self.each(ex, hs, c, lambda q: far(q, c.read(q), view))
                    out.append(Inv('%s far from %s by %s' % (keyname(a), nm(r), keyname(k)), goal, assume))
        arrs = [r for r in ctx.arrs if not is_set(r) and r.kind != 'ext' and r.sort == 'I']

        def prefix(what, r, val):
            def form(q, v, view):
                return imp(conj(ge(q, 0), lt(q, view.t)), eq(v, val(q)))

            def assume(ex, hs, view):
                h = hs.mem[r].name
                ex.facts.add(h, lambda q: form(q, app(h, 'I', q), view))
            out.append(Inv('%s in %s' % (what, nm(r)), lambda view: form(y, view.read(r, y), view), assume))
        for r in [] if done else arrs:
            prefix('places', r, lambda q: q)
        if 'borders' in st.user:
            B, n = st.user['borders'][:2]
            for r in arrs:
                prefix('sizes', r, lambda q: B(q + 1) - B(q))
            for k in sym:
                out.append(Inv('%s is a border' % keyname(k), lambda view, k=k: conj(lt(view.t, n), eq(number(view, k), B(view.t)))))
                out.append(Inv('%s is the next border' % keyname(k), lambda view, k=k: conj(lt(view.t, n), eq(number(view, k), ite(lt(view.t + 1, n), B(view.t + 1), END, 'I'))), None, lambda view: n - view.t))
        return out

    # --- result
    def sizes(self, ex, st, p, m):
        if 'borders' not in st.user:
            ex.require(st, FALSE, 'post: the sizes are found between borders')
            return
        B, n = st.user['borders'][:2]
        ex.require(st, conj(eq(m, n - 1), ge(m, 1)), 'post: number of blocks')
        ex.require(st, conj(eq(B(ZERO), 0), eq(B(n - 1), self.last)), 'post: the borders reach from 0 to the length of the dimension')
        k = ivar('q', True)
        st.pc.append(lt(k, m))
        v = self.read(ex, st, p, k)
        ex.require(st, eq(v, B(k + 1) - B(k)), 'post: a size is the distance of two consecutive borders')
        ex.require(st, gt(v, 0), 'post: a block is not empty')
        ex.require(st, disj(ge(v, self.lo), eq(v, self.last)), 'post: no block is shorter than the minimum unless it is the only one')


class Search(Sizes):
    name = 'search for block borders'
    entry = 'vc_border_search'


class SearchF(Sizes):
    name = 'search for block borders, float'
    entry = 'vc_border_search_f'
    es = 4
    slow = True


class SearchTwo(Sizes):
    name = 'search for block borders, dimension 2'
    entry = 'vc_border_search'
    exact = 1


class SearchOne(Sizes):
    name = 'search for block borders, dimension 1'
    entry = 'vc_border_search'
    exact = 0


class Detect(Contract):
    """the search is asked for every dimension with the lengths of the
    generator unless the matrix is small, which stays one block"""
    hooks_assume = True
    name = 'blocks of a matrix'
    entry = 'vc_block_sizes'

    def setup(self, ex, st, fn):
        r, c, lo, hi = self.size(st, 'r', 'c', 'lo', 'hi')
        st.pc += [ge(r, 1), ge(c, 1), ge(r * c, 1), ge(8 * r * c, 1), ge(r * c, r), ge(r * c, c)]
        self.dims, self.lens = [r, c], (lo, hi)
        self.small = conj(le(r, hi), le(c, hi))
        return [r, c, lo, hi, self.array(ex, st, 'a', r * c)]

    def begin(self, ex):
        super().begin(ex)
        self.hooks = {'vc_lengths': self.lengths, 'vc_search': self.search, 'vc_sizes_of': self.sizes, 'frexp': self.frexp}

    def frexp(self, ex, st, x, p):
        v = ivar(fresh(ex, st, 'exponent'))
        ex.store(st, Ty('int', 32), v, p)
        return app('mantissa', 'R', x)

    def ftoi(self, ex, st, x, signed):
        ex.note('detection values, sums of distances of exponents, fit in 64 bits')
        return app('whole part', 'I', x)

    def lengths(self, ex, st, lo, hi):
        ex.require(st, conj(eq(lo, self.lens[0]), eq(hi, self.lens[1])), 'post: the search uses the lengths of the generator')
        ex.require(st, neg(self.small), 'post: a small matrix stays one block')

    def search(self, ex, st, d, n):
        pass

    def sizes(self, ex, st, p, n, which):
        ex.require(st, eq(n, 1), 'post: one answer per dimension')
        ex.require(st, eq(self.read(ex, st, p, ZERO), self.dims[which.const()]), 'post: the sizes belong to the dimension, in order')


class DetectMult(Detect):
    name = 'blocks of a product'
    entry = 'vc_block_sizes_mult'

    def setup(self, ex, st, fn):
        r, q, c, lo, hi = self.size(st, 'r', 'q', 'c', 'lo', 'hi')
        st.pc += [ge(r, 1), ge(q, 1), ge(c, 1), ge(8 * r * q, 1), ge(8 * q * c, 1), ge(r * q, r), ge(r * q, q), ge(q * c, q), ge(q * c, c)]
        self.dims, self.lens, self.small = [r, q, c], (lo, hi), FALSE
        return [r, q, c, lo, hi, self.array(ex, st, 'a', r * q), self.array(ex, st, 'b', q * c)]


PROOFS = [('blocksize.cpp', Search), ('blocksize.cpp', SearchF), ('blocksize.cpp', SearchTwo), ('blocksize.cpp', SearchOne),
          ('blockdetect.cpp', Detect), ('blockdetect.cpp', DetectMult)]
DRIVERS = ['block']
TRUST = ['std::set<size_t> by its assumed contract: lower_bound, upper_bound and ++ give the next member, -- the previous one, insert and erase change one member, a sequence of size() members in ascending order is what an iteration visits',
         'std::sort by its assumed contract: a permutation, so that the numbers stay places of the array',
         'frexp by its assumed contract: it writes one exponent']
NOTE = ('all detection arrays, all lengths: the search visits places of the array only, never moves an iterator out of the set, ends, and its borders reach from 0 to the length of the dimension at distances no smaller '
        'than the minimum; the sizes are the distances of consecutive borders, they are positive and sum up to the dimension; a matrix that is small stays one block and the search is asked for each dimension otherwise. '
        'std::set, std::sort and frexp are taken by assumed contracts; the version for float arrays is proved in the thorough tier')


def extra_proofs(tier):
    """the distances of consecutive borders add up; induction step by z3"""
    import z3
    B, S = z3.Function('border', z3.IntSort(), z3.IntSort()), z3.Function('sum', z3.IntSort(), z3.IntSort())
    k = z3.Int('k')
    lemma = Lemmas('sum of the sizes')
    at = lambda k: S(k) == B(k) - B(0)
    lemma('base', [S(0) == 0], at(z3.IntVal(0)))
    lemma('step', [at(k), S(k + 1) == S(k) + B(k + 1) - B(k)], at(k + 1))
    return [dict(name='sum of the sizes', obs=lemma.obs, functions=[], trusted=[])]
