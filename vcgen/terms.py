"""Terms of the verification conditions.

Integers and reals are polynomials over interned atoms, formulas are interned
trees over comparisons of polynomials with zero.  Everything is immutable."""
from fractions import Fraction

_tab = {}
_cnt = [0]


class T:
    """interned node: an atom (sort 'I' or 'R') or a formula (sort 'B')"""
    __slots__ = ('op', 'a', 'sort', 'id', 'h', 'nonneg')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, sort, *a):
    k = (op, sort, a)
    r = _tab.get(k)
    if r is None:
        r = T()
        r.op, r.a, r.sort = op, a, sort
        _cnt[0] += 1
        r.id = _cnt[0]
        r.h = hash(_cnt[0] * 2654435761 % (1 << 61))
        r.nonneg = False
        _tab[k] = r
    return r


class Poly:
    __slots__ = ('c', '_h')

    def __init__(self, c):
        self.c = c
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.c.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.c == o.c

    def __add__(self, o):
        o = P(o)
        if not o.c:
            return self
        c = dict(self.c)
        for m, k in o.c.items():
            v = c.get(m, 0) + k
            if v == 0:
                c.pop(m, None)
            else:
                c[m] = v
        return Poly(c)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -k for m, k in self.c.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        c = {}
        for m1, k1 in self.c.items():
            for m2, k2 in o.c.items():
                m = m1 + m2 if not m1 or not m2 else tuple(sorted(m1 + m2))
                v = c.get(m, 0) + k1 * k2
                if v == 0:
                    c.pop(m, None)
                else:
                    c[m] = v
        return Poly(c)
    __rmul__ = __mul__

    def const(self):
        """value if constant, else None"""
        if not self.c:
            return 0
        if len(self.c) == 1 and () in self.c:
            return self.c[()]
        return None

    def atoms(self):
        s = set()
        for m in self.c:
            s.update(m)
        return s

    def __repr__(self):
        if not self.c:
            return '0'
        out = []
        for m, k in sorted(self.c.items(), key=lambda x: [a.id for a in x[0]]):
            s = '*'.join(show(a) for a in m)
            if not s:
                out.append(str(k))
            elif k == 1:
                out.append(s)
            else:
                out.append('%s*%s' % (k, s))
        return ' + '.join(out)

    def div_const(self, k):
        """exact quotient by a constant or None"""
        if any(v % k for v in self.c.values()):
            return None
        return Poly({m: v // k for m, v in self.c.items()})

    def div_poly(self, d):
        """exact quotient by a polynomial with a single monomial, or None"""
        if len(d.c) != 1:
            return self._div_general(d)
        (dm, dk), = d.c.items()
        out = {}
        for m, k in self.c.items():
            mm = list(m)
            for a in dm:
                if a in mm:
                    mm.remove(a)
                else:
                    return None
            if k % dk:
                return None
            out[tuple(mm)] = k // dk
        return Poly(out)

    def _div_general(self, d):
        # long division on the largest monomial (enough for (a-b)*k forms)
        if not d.c:
            return None
        lead = max(d.c, key=lambda m: (len(m), [a.id for a in m]))
        q = Poly({})
        r = self
        for _ in range(8):
            if not r.c:
                return q
            cand = None
            for m, k in r.c.items():
                mm = list(m)
                ok = True
                for a in lead:
                    if a in mm:
                        mm.remove(a)
                    else:
                        ok = False
                        break
                if ok and k % d.c[lead] == 0:
                    cand = (tuple(mm), k // d.c[lead])
                    break
            if cand is None:
                return None
            t = Poly({cand[0]: cand[1]})
            q = q + t
            r = r - t * d
        return None

    def split(self, atom_):
        """(Q, R) with self == atom*Q + R, R free of the atom in first power sense"""
        q, r = {}, {}
        for m, k in self.c.items():
            if atom_ in m:
                mm = list(m)
                mm.remove(atom_)
                q[tuple(mm)] = k
            else:
                r[m] = k
        return Poly(q), Poly(r)


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, T):
        return Poly({(x,): 1})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        if x == 0:
            return ZERO
        if isinstance(x, Fraction) and x.denominator == 1:
            x = int(x)
        return Poly({(): x})
    raise TypeError(repr(x))


def ivar(name, nonneg=False):
    t = mk('var', 'I', name)
    if nonneg:
        t.nonneg = True
    return P(t)


def rvar(name):
    return P(mk('var', 'R', name))


_fresh = {}


def fresh_name(base):
    n = _fresh.get(base, 0)
    _fresh[base] = n + 1
    return '%s!%d' % (base, n)


def app(fname, sort, *args):
    """uninterpreted application; args are Polys"""
    return P(mk('app', sort, fname, *[P(x) for x in args]))


TRUE = mk('true', 'B')
FALSE = mk('false', 'B')


def le0(p):
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    # normalise by gcd? keep simple
    return mk('le0', 'B', p)


def lt0i(p):
    return le0(p + 1)


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    # canonical sign
    m = min(p.c, key=lambda m: (len(m), [a.id for a in m]))
    if p.c[m] < 0:
        p = -p
    return mk('eq0', 'B', p)


def le(a, b):
    return le0(P(a) - P(b))


def lt(a, b):
    return le0(P(a) - P(b) + 1)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return eq0(P(a) - P(b))


def ne(a, b):
    return neg(eq(a, b))


# real comparisons
def req(a, b):
    d = P(a) - P(b)
    c = d.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    m = min(d.c, key=lambda m: (len(m), [x.id for x in m]))
    if d.c[m] < 0:
        d = -d
    return mk('req0', 'B', d)


def rle(a, b):
    d = P(a) - P(b)
    c = d.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    return mk('rle0', 'B', d)


def rlt(a, b):
    return neg(rle(b, a))


def neg(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == 'not':
        return f.a[0]
    if f.op == 'le0':
        return le0(-f.a[0] + 1)
    return mk('not', 'B', f)


def conj(*fs):
    out = []
    for f in fs:
        if isinstance(f, (list, tuple)):
            f = conj(*f)
        if f is TRUE:
            continue
        if f is FALSE:
            return FALSE
        if f.op == 'and':
            out.extend(f.a)
        else:
            out.append(f)
    out2 = []
    seen = set()
    for f in out:
        if f not in seen:
            seen.add(f)
            out2.append(f)
    if not out2:
        return TRUE
    if len(out2) == 1:
        return out2[0]
    return mk('and', 'B', *out2)


def disj(*fs):
    return neg_and([neg(f) for f in fs])


def neg_and(fs):
    g = conj(*fs)
    if g is TRUE:
        return FALSE
    if g is FALSE:
        return TRUE
    if g.op == 'and':
        return mk('or', 'B', *[neg(x) for x in g.a])
    return neg(g)


def imp(a, b):
    if a is TRUE:
        return b
    if a is FALSE or b is TRUE:
        return TRUE
    return disj(neg(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    return conj(imp(a, b), imp(b, a))


def ite(f, a, b, sort='I'):
    """conditional value (Poly)"""
    a, b = P(a), P(b)
    if f is TRUE:
        return a
    if f is FALSE:
        return b
    if a == b:
        return a
    t = mk('ite', sort, f, a, b)
    if sort == 'I' and nonneg(a) and nonneg(b):
        t.nonneg = True
    return P(t)


def bite(f, a, b):
    if f is TRUE:
        return a
    if f is FALSE:
        return b
    return conj(imp(f, a), imp(neg(f), b))


def bvar(name):
    return mk('bvar', 'B', name)


def bapp(fname, *args):
    return mk('bapp', 'B', fname, *[P(x) for x in args])


def nonneg(p):
    """syntactically known to be >= 0"""
    for m, k in p.c.items():
        if k < 0:
            return False
        if not all(a.nonneg for a in m):
            return False
    return True


def show(t):
    if t.op == 'var' or t.op == 'bvar':
        return t.a[0]
    if t.op in ('app', 'bapp'):
        return '%s(%s)' % (t.a[0], ', '.join(map(repr, t.a[1:])))
    if t.op in ('true', 'false'):
        return t.op
    if t.op == 'le0':
        return '(%r <= 0)' % (t.a[0],)
    if t.op in ('eq0', 'req0'):
        return '(%r == 0)' % (t.a[0],)
    if t.op == 'rle0':
        return '(%r <=. 0)' % (t.a[0],)
    if t.op == 'not':
        return '!%r' % (t.a[0],)
    if t.op in ('and', 'or'):
        return '(' + (' & ' if t.op == 'and' else ' | ').join(map(repr, t.a)) + ')'
    return '%s(%s)' % (t.op, ', '.join(map(repr, t.a)))


# ------------------------------------------------------------ substitution
def subst(x, m, memo=None):
    """replace int atoms by polys, in a Poly or formula"""
    if not m:
        return x
    if memo is None:
        memo = {}
    return _sub(x, m, memo)


def _sub(x, m, memo):
    if isinstance(x, Poly):
        r = memo.get(x)
        if r is not None:
            return r
        hit = False
        new = {}
        for a in x.atoms():
            v = _suba(a, m, memo)
            new[a] = v
            if v is not a:
                hit = True
        if not hit:
            memo[x] = x
            return x
        out = ZERO
        for mo, k in x.c.items():
            t = P(k)
            for a in mo:
                t = t * P(new[a])
            out = out + t
        memo[x] = out
        return out
    if isinstance(x, T):
        r = memo.get(x)
        if r is not None:
            return r
        r = _subf(x, m, memo)
        memo[x] = r
        return r
    return x


def _suba(a, m, memo):
    r = memo.get(a)
    if r is not None:
        return r
    if a in m:
        r = m[a]
        if isinstance(r, Poly):
            r2 = _sub(r, m, memo) if a not in r.atoms() else r
            memo[a] = r2
            return r2
        return r
    if a.op == 'var':
        memo[a] = a
        return a
    args = tuple(_sub(y, m, memo) if isinstance(y, (Poly, T)) else y for y in a.a)
    if all(p is q for p, q in zip(args, a.a)):
        r = a
    elif a.op == 'ite':
        r = ite(args[0], args[1], args[2], a.sort)
    else:
        r = mk(a.op, a.sort, *args)
        r.nonneg = r.nonneg or a.nonneg
    memo[a] = r
    return r


def _subf(f, m, memo):
    if f.op in ('true', 'false', 'bvar'):
        return f
    args = [_sub(y, m, memo) if isinstance(y, (Poly, T)) else y for y in f.a]
    if all(p is q for p, q in zip(args, f.a)):
        return f
    if f.op == 'le0':
        return le0(args[0])
    if f.op == 'eq0':
        return eq0(args[0])
    if f.op == 'req0':
        return req(args[0], ZERO)
    if f.op == 'rle0':
        return rle(args[0], ZERO)
    if f.op == 'not':
        return neg(args[0])
    if f.op == 'and':
        return conj(*args)
    if f.op == 'or':
        return disj(*args)
    return mk(f.op, 'B', *args)


def walk_apps(x, out, seen):
    """collect every app node (int, real or bool) inside x"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Poly):
            for a in y.atoms():
                if a not in seen:
                    st.append(a)
        elif isinstance(y, T):
            if y in seen:
                continue
            seen.add(y)
            if y.op in ('app', 'bapp'):
                out.append(y)
            for z in y.a:
                if isinstance(z, (Poly, T)):
                    st.append(z)


def atoms_of(x):
    """all int/real atoms inside (deep)"""
    seen = set()
    st = [x]
    out = set()
    while st:
        y = st.pop()
        if isinstance(y, Poly):
            st.extend(y.atoms())
        elif isinstance(y, T):
            if y in seen:
                continue
            seen.add(y)
            if y.sort in 'IR':
                out.add(y)
            for z in y.a:
                if isinstance(z, (Poly, T)):
                    st.append(z)
    return out
