from vcgen.contract import *


class Life(Contract):
    """an entry shows storages one after the other; want: what each holds, as
    (size, content) with content a function of the place"""
    truths = True
    rc = False

    def setup(self, ex, st, fn):
        self.v = []
        self.folds = []
        self.st0 = st
        self.ex0 = ex
        self.want = []
        self.hooks = {'vc_dense': self.out, 'vc_bool': self.truth, 'vc_addr': self.addr, 'vc_counts': self.counts}
        self.args(ex, st)
        return self.v

    # --- parameters
    def n(self, name, pos=False):
        x = ivar(name, True)
        self.v.append(x)
        return x

    def arr(self, name, n, es=8, rw=False, **kw):
        self.v.append(self.array(self.ex0, self.st0, name, n, es=es, rw=rw, **kw))
        self.folds.append(Fold('copy of ' + name, n, 1, lambda i, j, c, nm=name: self.elem(nm, i) if c.const() != 0 else app('r:old.' + nm, 'R', i), extents=None))
        return n, (lambda q: self.elem(name, q))

    def arg(self, name):
        x = rvar(name)
        self.v.append(x)
        return x

    def own(self, nm='n', a='A', **kw):
        if self.rc:
            r, c = self.n('r' + a), self.n('c' + a)
            n = r * c
            w = self.arr(a, n, **kw)
            return n, w[1], r, c
        n = self.n(nm)
        return self.arr(a, n, **kw)

    def changed(self, w, p, x):
        self.st0.pc.append(lt(p, w[0]))
        return (w[0], lambda q: ite(eq(q, p), x, w[1](q), 'R')) + tuple(w[2:])

    def args(self, ex, st):
        raise NotImplementedError

    # --- what is seen
    def out(self, ex, st, p, rows, cols, size):
        k = st.user['shown'] = st.user.get('shown', 0) + 1
        if k > len(self.want):
            ex.require(st, FALSE, 'post: nothing else is shown')
            return
        w = self.want[k - 1]
        n, f = w[:2]
        r, c = w[2:] if len(w) > 2 else (n, ONE)
        ex.require(st, conj(eq(rows, r), eq(cols, c)), 'post: shape of storage %d' % k)
        ex.require(st, eq(size, n), 'post: size of storage %d' % k)
        q = ivar('q', True)
        if ex.prove(st, eq(n, 0))[0]:
            return
        st.pc.append(lt(q, n))
        rd = self.read(ex, st, p, q)
        ex.require(st, req(rd, f(q)), 'post: content of storage %d' % k)

    def truth(self, ex, st, b):
        b = ne(b, 0) if isinstance(b, Poly) else b
        if b is FALSE:
            ex.require(st, FALSE, 'post: memory is shared or handed over as declared')
        else:
            ex.require(st, b if self.truths else neg(b), 'post: memory is shared or handed over as declared')

    def addr(self, ex, st, p):
        ex.require(st, FALSE if not isinstance(p, Ptr) or p.reg is None or p.reg.name != 'A' else eq(p.off, 0), 'post: external memory is used')

    def counts(self, ex, st, a, b, c, d):
        ex.require(st, eq(a, self.size), 'post: size')

    def end(self, ex, st, rv):
        super().end(ex, st, rv)
        ex.require(st, TRUE if st.user.get('shown', 0) == len(self.want) else FALSE, 'post: every storage was looked at')


ALL = []


def entry(e, **kw):
    def deco(f):
        ALL.append(('storage.cpp', type(e, (Life,), dict(kw, entry=e, args=f))))
        return f
    return deco


@entry('vc_st_new')
def _(s, ex, st):
    s.size = s.n('n')


@entry('vc_st_default')
def _(s, ex, st):
    s.size = ZERO


@entry('vc_st_ext')
def _(s, ex, st):
    s.want = [s.own()]


def copy(s, ex, st):
    a = s.own()
    p = s.n('p')
    s.want = [a, s.changed(a, p, s.arg('x'))]


entry('vc_st_copy')(copy)
entry('vc_st_copy_ext')(copy)


@entry('vc_st_conv')
def _(s, ex, st):
    n = s.n('n')
    s.want = [s.arr('A', n, es=4)]


@entry('vc_st_assign')
def _(s, ex, st):
    a = s.own()
    s.own('m', 'B')
    p = s.n('p')
    s.want = [a, s.changed(a, p, s.arg('x'))]


@entry('vc_st_assign_to_ext')
def _(s, ex, st):
    s.want = [s.own()]
    n, _ = s.own('m', 'B')
    st.pc.append(ge(n, 1))


@entry('vc_st_assign_self')
def _(s, ex, st):
    s.want = [s.own()]


entry('vc_st_move_self')(_)


@entry('vc_st_assign_empty')
def _(s, ex, st):
    s.own('m', 'B')
    s.want = [(ZERO, None)]


@entry('vc_st_to_empty')
def _(s, ex, st):
    s.want = [s.own('m', 'B')] * 2


@entry('vc_st_move')
def move(s, ex, st):
    s.want = [s.own()]


entry('vc_st_move_ext')(move)


def moveto(s, ex, st):
    s.want = [s.own()]
    s.own('m', 'B')


entry('vc_st_move_assign')(moveto)
entry('vc_st_move_assign_ext')(moveto)


@entry('vc_st_move_reuse')
def _(s, ex, st):
    a = s.own()
    b = s.own('m', 'B')
    s.want = [b, a, b]


def swap(s, ex, st):
    a = s.own()
    s.want = [s.own('m', 'B'), a]


entry('vc_st_swap')(swap)
entry('vc_st_swap_ext')(swap)


@entry('vc_st_resize')
def _(s, ex, st):
    s.own()
    m = s.size = s.n('m')
    s.folds.append(Fold('sevens', m, 1, lambda i, j, c: P(7) if c.const() != 0 else app('r:old7', 'R', i)))
    s.want = [(m, lambda q: P(7))]


@entry('vc_st_resize_same')
def _(s, ex, st):
    s.want = [s.own()]


@entry('vc_st_list')
def _(s, ex, st):
    x, y, z = s.arg('x'), s.arg('y'), s.arg('z')
    s.want = [(P(3), lambda q: ite(eq(q, 0), x, ite(eq(q, 1), y, z, 'R'), 'R'))]


# fixed size
def four(s, nm='A', **kw):
    return s.arr(nm, P(4), **kw) + (P(4), ONE)


@entry('vc_fh_copy')
def fcopy(s, ex, st):
    a = four(s)
    p = s.n('p')
    s.want = [a, s.changed(a, p, s.arg('x'))]


entry('vc_fs_copy')(fcopy)


@entry('vc_fh_assign')
def _(s, ex, st):
    a = four(s)
    four(s, 'B')
    p = s.n('p')
    s.want = [a, s.changed(a, p, s.arg('x'))]


@entry('vc_fh_ext')
def fone(s, ex, st):
    s.want = [four(s)]


entry('vc_fh_move')(fone)


def ftwo(s, ex, st):
    s.want = [four(s)]
    four(s, 'B')


for e in ('vc_fh_assign_ext', 'vc_fh_move_assign', 'vc_fh_move_assign_ext'):
    entry(e)(ftwo)


@entry('vc_fh_swap')
def _(s, ex, st):
    a = four(s)
    s.want = [four(s, 'B'), a]


@entry('vc_fs_assign')
def _(s, ex, st):
    s.want = [four(s)] * 2
    four(s, 'B')


@entry('vc_fh_list')
def _(s, ex, st):
    x = [s.arg(c) for c in 'xyzu']
    s.want = [(P(4), lambda q: ite(eq(q, 0), x[0], ite(eq(q, 1), x[1], ite(eq(q, 2), x[2], x[3], 'R'), 'R'), 'R'))]


# matrices
entry('vc_m_copy', rc=True)(copy)


@entry('vc_m_assign', rc=True)
def massign(s, ex, st):
    s.want = [s.own()] * 2
    s.own('m', 'B')


entry('vc_m_move', rc=True)(move)
entry('vc_m_move_row', rc=True)(move)
entry('vc_m_move_self', rc=True)(move)
entry('vc_m_move_assign', rc=True)(moveto)
for e in ('vc_m_swap', 'vc_m_swap_ext', 'vc_m_std_swap'):
    entry(e, rc=True)(swap)


@entry('vc_m_resize', rc=True)
def _(s, ex, st):
    s.own()
    r, c = s.n('r2'), s.n('c2')
    s.folds.append(Fold('sevens', r * c, 1, lambda i, j, k: P(7) if k.const() != 0 else app('r:old7', 'R', i)))
    s.want = [(r * c, lambda q: P(7), r, c)]


def archive(s, ex, st):
    n, f = s.own()[:2]
    s.want = [(n, f)] * 2
    if s.entry == 'vc_fh_archive':
        return
    m, _ = s.own('m', 'B')
    if 'ext' in s.entry:
        st.pc.append(ge(m, 1))
        s.want.pop()
    s.arr('Z', n, rw=True)
    s.folds[-1].val = lambda i, j, c: f(i) if c.const() != 0 else s.elem('Z', i)


entry('vc_st_archive')(archive)
entry('vc_st_archive_ext')(archive)


@entry('vc_fh_archive')
def _(s, ex, st):
    a = four(s)
    s.want = [a, a]
    four(s, 'B')
    four(s, 'Z', rw=True)


@entry('vc_st_resize_ext_raw')
def _(s, ex, st):
    a = s.own()
    m = s.n('m')
    s.on_throw = lambda ex, st, x: ex.require(st, ne(a[0], m), 'post: only another size is refused')
    s.want = [(m, a[1])]


class View(Contract):
    """a view handed over still shows its block"""
    def setup(self, ex, st, fn):
        R, C = ivar('R', True), ivar('C', True)
        A = self.array(ex, st, 'A', R * C)
        r, c, br, bc, i, j = [ivar(x, True) for x in ('r', 'c', 'br', 'bc', 'i', 'j')]
        st.pc += [le(br + r, R), le(bc + c, C), lt(i, r), lt(j, c)]
        self.want = [(r, c, R, C), (ZERO, ZERO, ZERO, ZERO)]
        self.at = (br + i + (bc + j) * R) * 8
        self.hooks = {'vc_counts': self.counts, 'vc_addr': self.addr}
        return [R, C, A, r, c, br, bc, i, j]

    def counts(self, ex, st, *x):
        k = st.user['n'] = st.user.get('n', 0) + 1
        ex.require(st, conj(*[eq(p, q) for p, q in zip(x, self.want[k - 1])]), 'post: shape and leading dimensions of view %d' % k)

    def addr(self, ex, st, p):
        if not isinstance(p, Ptr) or p.reg is None or p.reg.name != 'A':
            ex.require(st, FALSE, 'post: the view looks at the same matrix')
        else:
            ex.require(st, eq(p.off, self.at), 'post: the view looks at the same block')


for e in ('vc_v_move', 'vc_v_assign', 'vc_v_swap'):
    ALL.append(('storage.cpp', type(e, (View,), dict(entry=e))))


class Sparse(Contract):
    """sparse matrices shown one after the other; swapped: B before A"""
    order = 'AA'
    two = False

    def setup(self, ex, st, fn):
        self.folds, v, self.m = [], [], {}
        for x, (a, k, o, d) in dict(A=('V', 'K', 'O', ''), B=('W', 'L', 'Q', '2')).items():
            r, c, n = [ivar(y + d, True) for y in 'rcn']
            v += [r, c, n, self.array(ex, st, a, n), self.array(ex, st, k, n, sort='I', nonneg=True), self.array(ex, st, o, c + 1, sort='I', nonneg=True)]
            self.m[x] = (r, c, n, a, k, o)
            st.pc.append(ge(n, 1))       # 0 asks for room for all elements
            for nm, so, ln in ((a, 'R', n), (k, 'I', n), (o, 'I', c + 1)):
                self.folds.append(Fold('copy of ' + nm, ln, 1, lambda i, j, t, nm=nm, so=so: self.elem(nm, i, so) if t.const() != 0 else app('r:old.' + nm, so, i), sort=so))
        if len(fn.params) > len(v):
            p = ivar('p', True)
            st.pc.append(lt(p, self.m['A'][2]))
            v += [p, rvar('x')]
        self.hooks = {'vc_sparse': self.out}
        return v

    def out(self, ex, st, v, k, o, nnz, noff, rows, cols, size):
        t = st.user['shown'] = st.user.get('shown', 0) + 1
        if t > len(self.order):
            ex.require(st, FALSE, 'post: nothing else is shown')
            return
        r, c, n, V, K, O = self.m[self.order[t - 1]]
        ex.require(st, conj(eq(rows, r), eq(cols, c), eq(size, r * c)), 'post: shape of matrix %d' % t)
        ex.require(st, conj(eq(nnz, n), eq(noff, c + 1)), 'post: number of stored elements of matrix %d' % t)
        q = ivar('q', True)
        st.pc.append(lt(q, n))
        ex.require(st, req(self.read(ex, st, v, q), self.elem(V, q)), 'post: values of matrix %d' % t)
        ex.require(st, eq(self.read(ex, st, k, q), self.elem(K, q, 'I')), 'post: rows of matrix %d' % t)
        st.pc.pop()
        st.pc.append(lt(q, c + 1))
        ex.require(st, eq(self.read(ex, st, o, q), self.elem(O, q, 'I')), 'post: column starts of matrix %d' % t)

    def end(self, ex, st, rv):
        super().end(ex, st, rv)
        ex.require(st, TRUE if st.user.get('shown', 0) == len(self.order) else FALSE, 'post: every matrix was looked at')


for e, o in dict(vc_s_copy='AA', vc_s_assign='AA', vc_s_move='A', vc_s_move_assign='A', vc_s_swap='BA').items():
    ALL.append(('storage.cpp', type(e, (Sparse,), dict(entry=e, order=o))))

PROOFS = ALL
DRIVERS = ['storage']
