"""Discharging of verification conditions: fact instantiation, lemmas for
products, translation to z3 (and to SMT-LIB for a second back end)."""
import time, itertools, subprocess, tempfile, os
import z3
from .terms import *

STATS = dict(queries=0, time=0.0, unsat=0, sat=0, unknown=0, cvc5=0, cvc5_agree=0)


class Facts:
    """registry of quantified facts, instantiated on the applications that
    occur in a verification condition"""

    def __init__(self):
        self.by_name = {}
        self.pair = []      # functions over lists of apps of one name

    def add(self, fname, fn):
        self.by_name.setdefault(fname, []).append(fn)

    def add_pair(self, fname, fn):
        self.pair.append((fname, fn))


class Conv:
    def __init__(self, alias=None):
        self.cache = {}
        self.monos = {}
        self.side = []
        self.funcs = {}
        self.int_atoms = set()
        self.cmp_polys = []

    def fn(self, name, sorts, out):
        k = (name, sorts, out)
        f = self.funcs.get(k)
        if f is None:
            m = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}
            f = z3.Function(name + '/' + ''.join(sorts), *([m[s] for s in sorts] + [m[out]]))
            self.funcs[k] = f
        return f

    def psort(self, p):
        for m in p.c:
            for a in m:
                return a.sort
        return 'I'

    def atom(self, t):
        r = self.cache.get(t)
        if r is not None:
            return r
        if t.op == 'var':
            r = z3.Int(t.a[0]) if t.sort == 'I' else z3.Real(t.a[0])
        elif t.op == 'app':
            # sort of an argument position is fixed by the name: real args are wrapped by 'r:' prefix names
            args = []
            sorts = []
            for x in t.a[1:]:
                s = self.psort(x)
                if t.a[0].startswith('r:'):
                    s = 'R'
                args.append(self.poly(x, s))
                sorts.append(s)
            if not args:
                r = z3.Int(t.a[0]) if t.sort == 'I' else z3.Real(t.a[0])
            else:
                r = self.fn(t.a[0], tuple(sorts), t.sort)(*args)
        elif t.op == 'ite':
            r = z3.If(self.form(t.a[0]), self.poly(t.a[1], t.sort), self.poly(t.a[2], t.sort))
        elif t.op == 'i2r':
            r = z3.ToReal(self.poly(t.a[0], 'I'))
        elif t.op == 'udiv':
            q = z3.Int('udiv#%d' % t.id)
            p = self.poly(t.a[0], 'I')
            c = t.a[1]
            self.side.append(z3.Implies(p >= 0, z3.And(c * q <= p, p < c * q + c)))
            r = q
        elif t.op == 'trunc32':
            q = z3.Int('trunc#%d' % t.id)
            p = self.poly(t.a[0], 'I')
            self.side.append(z3.And(q >= -2**31, q < 2**31, z3.Implies(z3.And(p >= -2**31, p < 2**31), q == p)))
            r = q
        else:
            raise Exception('atom ' + t.op)
        self.cache[t] = r
        if t.sort == 'I':
            self.int_atoms.add(t)
            if t.nonneg:
                self.side.append(r >= 0)
        return r

    def mono(self, m, sort):
        if len(m) == 1:
            return self.atom(m[0])
        k = (m, sort)
        r = self.monos.get(k)
        if r is None and sort == 'R':
            l = sorted(m, key=lambda a: (a.a[0] if isinstance(a.a[0], str) else a.op, a.id))
            f = self.fn('rmul', ('R', 'R'), 'R')
            r = self.atom(l[-1])
            for a in l[-2::-1]:
                r = f(self.atom(a), r)
            self.monos[k] = r
            if len(l) == 2 and l[0].a[0] != l[1].a[0]:
                # the order is by name, which need not be that of an equal product
                self.side.append(r == f(self.atom(l[1]), self.atom(l[0])))
        if r is None:
            nm = 'mono[' + '.'.join(str(a.id) for a in m) + ']'
            r = z3.Int(nm) if sort == 'I' else z3.Real(nm)
            self.monos[k] = r
            for a in m:
                self.atom(a)
        return r

    def poly(self, p, sort):
        k = (p, sort)
        r = self.cache.get(k)
        if r is not None:
            return r
        parts = []
        const = 0
        for m, c in p.c.items():
            if not m:
                const = c
                continue
            x = self.mono(m, sort)
            if c == 1:
                parts.append(x)
            elif c == -1:
                parts.append(-x)
            else:
                parts.append(self.num(c, sort) * x)
        if const != 0 or not parts:
            parts.append(self.num(const, sort))
        r = parts[0]
        for x in parts[1:]:
            r = r + x
        self.cache[k] = r
        return r

    def num(self, c, sort):
        if sort == 'I':
            return z3.IntVal(int(c))
        if isinstance(c, int):
            return z3.RealVal(c)
        return z3.Q(c.numerator, c.denominator)

    def form(self, f):
        r = self.cache.get(f)
        if r is not None:
            return r
        if f is TRUE:
            r = z3.BoolVal(True)
        elif f is FALSE:
            r = z3.BoolVal(False)
        elif f.op == 'le0':
            self.cmp_polys.append(f.a[0])
            r = self.poly(f.a[0], 'I') <= 0
        elif f.op == 'eq0':
            self.cmp_polys.append(f.a[0])
            r = self.poly(f.a[0], 'I') == 0
        elif f.op == 'req0':
            r = self.poly(f.a[0], 'R') == 0
        elif f.op == 'rle0':
            r = self.poly(f.a[0], 'R') <= 0
        elif f.op == 'not':
            r = z3.Not(self.form(f.a[0]))
        elif f.op == 'and':
            r = z3.And([self.form(x) for x in f.a])
        elif f.op == 'or':
            r = z3.Or([self.form(x) for x in f.a])
        elif f.op == 'bvar':
            r = z3.Bool(f.a[0])
        elif f.op == 'bapp':
            args = []
            sorts = []
            for x in f.a[1:]:
                s = self.psort(x)
                args.append(self.poly(x, s))
                sorts.append(s)
            r = self.fn(f.a[0], tuple(sorts), 'B')(*args)
        else:
            raise Exception('form ' + f.op)
        self.cache[f] = r
        return r

    # ---- lemmas on products of integers
    def lemmas(self):
        out = []
        done_m = set()
        done_p = set()
        done_q = set()
        for _ in range(3):
            n0 = len(out)
            ms = [m for (m, s) in list(self.monos) if s == 'I']
            for m in ms:
                if m in done_m:
                    continue
                done_m.add(m)
                for a in set(m):
                    rest = list(m)
                    rest.remove(a)
                    rest = tuple(rest)
                    x = self.mono(rest, 'I')
                    f = self.atom(a)
                    z = self.mono(m, 'I')
                    out += [z3.Implies(f == 0, z == 0), z3.Implies(x == 0, z == 0),
                            z3.Implies(z3.And(f >= 0, x >= 0), z >= 0),
                            z3.Implies(z3.And(f >= 0, x >= 1), z >= f),
                            z3.Implies(z3.And(f >= 1, x >= 0), z >= x),
                            z3.Implies(z3.And(f >= 1, x >= 1), z >= 1),
                            z3.Implies(f == 1, z == x), z3.Implies(x == 1, z == f)]
            # pairs sharing a factor
            by = {}
            for m in ms:
                for a in set(m):
                    rest = list(m)
                    rest.remove(a)
                    by.setdefault(a, []).append((tuple(rest), m))
            for a, l in by.items():
                f = self.atom(a)
                if len(l) > 14:
                    l = l[:14]
                for (r1, m1), (r2, m2) in itertools.combinations(l, 2):
                    k = (a, r1, r2)
                    if k in done_p:
                        continue
                    done_p.add(k)
                    x, y = self.mono(r1, 'I'), self.mono(r2, 'I')
                    fx, fy = self.mono(m1, 'I'), self.mono(m2, 'I')
                    out += [z3.Implies(x == y, fx == fy),
                            z3.Implies(z3.And(f >= 0, x + 1 <= y), fx + f <= fy),
                            z3.Implies(z3.And(f >= 0, y + 1 <= x), fy + f <= fx),
                            z3.Implies(z3.And(f >= 0, x + 2 <= y), fx + 2 * f <= fy),
                            z3.Implies(z3.And(f >= 0, y + 2 <= x), fy + 2 * f <= fx),
                            z3.Implies(y == x + 1, fy == fx + f),
                            z3.Implies(x == y + 1, fx == fy + f)]
            # comparison polynomials grouped by a factor: f*Q + R
            facs = set()
            for m in ms:
                facs.update(m)
            for p in list(dict.fromkeys(self.cmp_polys)):
                for a in facs:
                    if not any(a in m and len(m) > 1 for m in p.c):
                        continue
                    q, r = p.split(a)
                    if q.const() is not None:
                        continue
                    if len(q.c) <= 1 and () not in q.c:
                        continue
                    # f*q with the pure-f term left out too (q may or may not include the constant)
                    for qq in {q, q - P(q.c.get((), 0))}:
                        k = (a, qq)
                        if k in done_q or len(qq.c) < 1:
                            continue
                        done_q.add(k)
                        f = self.atom(a)
                        Q = self.poly(qq, 'I')
                        FQ = self.poly(P(a) * qq, 'I')
                        out += [z3.Implies(z3.And(f >= 0, Q <= 0), FQ <= 0),
                                z3.Implies(z3.And(f >= 0, Q >= 0), FQ >= 0),
                                z3.Implies(z3.And(f >= 0, Q <= -1), FQ <= -f),
                                z3.Implies(z3.And(f >= 0, Q >= 1), FQ >= f),
                                z3.Implies(Q == 0, FQ == 0)]
            if len(out) == n0 or len(out) > 6000:
                break
        return out


class Result:
    def __init__(self, ok, status, model=None, secs=0, backend='z3', core=None):
        self.ok, self.status, self.model, self.secs, self.backend = ok, status, model, secs, backend


def instantiate(formulas, facts, rounds=2, limit=4000):
    """ground instances of the registered facts for the applications that occur"""
    out = []
    seen = set()
    done = set()
    frontier = []
    for f in formulas:
        walk_apps(f, frontier, seen)
    allapps = {}
    emitted = set()
    for rnd in range(rounds):
        nxt = []
        # pair facts
        for a in frontier:
            allapps.setdefault(a.a[0], []).append(a)
        new = []
        for a in frontier:
            for fn in facts.by_name.get(a.a[0], ()):
                k = (id(fn), a)
                if k in done:
                    continue
                done.add(k)
                r = fn(*a.a[1:])
                if r is None:
                    continue
                new.extend(r if isinstance(r, (list, tuple)) else [r])
        for name, fn in facts.pair:
            l = allapps.get(name, [])
            for a, b in itertools.combinations(l, 2):
                k = (id(fn), a, b)
                if k in done:
                    continue
                done.add(k)
                r = fn(a.a[1:], b.a[1:])
                if r is None:
                    continue
                new.extend(r if isinstance(r, (list, tuple)) else [r])
        for f in new:
            if f is TRUE or f in emitted:
                continue
            emitted.add(f)
            out.append(f)
            walk_apps(f, nxt, seen)
        frontier = nxt
        if not frontier or len(out) > limit:
            break
    return out


def gather(hyps, goal, facts, alias=None, rounds=2):
    """hypotheses with all fact instances, and the goal"""
    memo = {}
    if alias:
        hyps = [subst(h, alias, memo) for h in hyps]
        goal = subst(goal, alias, memo)
    hyps = [h for h in dict.fromkeys(hyps) if h is not TRUE]
    inst = instantiate(hyps + [goal], facts, rounds)
    if alias:
        # instances may mention aliased counters again
        inst = [subst(f, alias, memo) for f in inst]
        extra = instantiate(inst, facts, 1)
        inst += [subst(f, alias, memo) for f in extra]
    return list(dict.fromkeys(h for h in hyps + inst if h is not TRUE)), goal


def prove(hyps, goal, facts, alias=None, timeout=8000, rounds=2, cross=False, memo=None, dump=None):
    t0 = time.time()
    if goal is TRUE:
        return Result(True, 'trivial')
    forms, goal = gather(hyps, goal, facts, alias, rounds)
    if goal is TRUE:
        return Result(True, 'trivial')
    key = (frozenset(forms), goal)
    if memo is not None and key in memo and dump is None:
        ok, status, dt, tmo = memo[key]
        if ok or status != 'unknown' or tmo >= timeout:
            STATS['cached'] = STATS.get('cached', 0) + 1
            return Result(ok, status, None, dt)
    if goal is FALSE and FALSE in forms:
        return Result(True, 'trivial')
    r = _solve(forms, goal, timeout, cross, dump, t0)
    if memo is not None:
        memo[key] = (r.ok, r.status, r.secs, timeout)
    return r


def _solve(forms, goal, timeout, cross, dump, t0):
    cv = Conv()
    asr = [cv.form(f) for f in forms]
    asr.append(z3.Not(cv.form(goal)))
    lem = cv.lemmas()
    asr = asr + lem + cv.side
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    for a in asr:
        s.add(a)
    r = s.check()
    STATS['queries'] += 1
    dt = time.time() - t0
    STATS['time'] += dt
    STATS[str(r)] += 1
    if cross and r == z3.unsat:
        cvc5_check(s)
    if dump:
        with open(dump, 'w') as f:
            f.write('; goal: %r\n' % (goal,))
            for x in forms:
                f.write('; hyp: %r\n' % (x,))
            f.write(s.to_smt2())
    return Result(r == z3.unsat, str(r), s.model() if r == z3.sat else None, dt)


def cvc5_check(s):
    STATS['cvc5'] += 1
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + s.to_smt2())
        nm = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=20000', nm], capture_output=True, text=True)
        if r.stdout.strip().startswith('unsat'):
            STATS['cvc5_agree'] += 1
        elif r.stdout.strip().startswith('sat'):
            raise Exception('solver disagreement')
    finally:
        os.unlink(nm)


def satisfiable(hyps, facts, alias=None, timeout=500):
    """False only when hyps are certainly contradictory"""
    r = prove(hyps, FALSE, facts, alias, timeout, rounds=1)
    return not r.ok
