"""Bit-precise verification of loop-free code: every path of the entry is
executed symbolically over machine integers and IEEE floating point (z3 bit
vectors and FP terms), and the contract's postcondition is proved on each.
No bound is involved: the functions handled here have no loop and no
recursion, and an entry that does is refused."""
import re
import time
import z3
from .llir import Module
from .exec import CFG

RNE = z3.RNE()
F64, F32 = z3.Float64(), z3.Float32()


class Refused(Exception):
    pass


class Ptr:
    def __init__(self, reg, off=0):
        self.reg, self.off = reg, off

    def __repr__(self):
        return '%s+%s' % (self.reg, self.off)


class Fn:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Vec:
    def __init__(self, v):
        self.v = v


class St:
    def __init__(self):
        self.mem, self.pc, self.events, self.regs, self.init = {}, [], [], {}, {}
        self.out = None         # a contract may note a result here
        self.lost = set()       # regions an external function may have written

    def copy(self):
        s = St()
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.pc, s.events, s.regs, s.init = list(self.pc), list(self.events), dict(self.regs), dict(self.init)
        s.lost = set(self.lost)
        s.out = self.out
        return s


class Path:
    """one finished path: kind 'ret' or 'throw', val, st"""

    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st

    def called(self, name=None):
        return [e for e in self.st.events if e[0] == 'call' and (name is None or e[1] == name)]

    def stores(self):
        return [e for e in self.st.events if e[0] == 'store']


class Flat:
    """contract of a loop-free entry"""
    entry = None
    names = None            # parameter names
    pure = ()               # externals without effect (predicates): result is a function of the arguments
    end_calls = ('__cxa_allocate_exception',)

    def pre(self, ex, args):
        return []

    def post(self, ex, args, path):
        """[(obligation name, z3 goal)]"""
        raise NotImplementedError

    def hook(self, ex, st, name, args, rty):
        """value of a call to an external function, or None for the default"""
        return None


class NoOrder(Exception):
    pass


class Order:
    """floating-point comparisons as comparisons of reals: floats embed into the
    reals (infinities as +-2^2000) such that <, =, abs and negation agree, so
    what is unsatisfiable over the reals is so over the floats"""

    def __init__(self):
        self.memo = {}

    def num(self, e):
        """(real, is it a NaN)"""
        k = e.get_id()
        if k not in self.memo:
            self.memo[k] = (self.num_(e), e)
        return self.memo[k][0]

    def num_(self, e):
        d = e.decl().kind()
        if z3.is_const(e) and d == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            return z3.Real('o.' + n), z3.Bool('nan.' + n)
        if isinstance(e, z3.FPNumRef):
            if e.isNaN():
                return z3.RealVal(0), z3.BoolVal(True)
            if e.isInf():
                return z3.RealVal(-2 ** 2000 if e.isNegative() else 2 ** 2000), z3.BoolVal(False)
            return z3.simplify(z3.fpToReal(e)), z3.BoolVal(False)
        if d == z3.Z3_OP_FPA_ABS:
            r, n = self.num(e.arg(0))
            return z3.If(r < 0, -r, r), n
        if d == z3.Z3_OP_FPA_NEG:
            r, n = self.num(e.arg(0))
            return -r, n
        if d == z3.Z3_OP_ITE:
            c = self.form(e.arg(0))
            (r, n), (q, m) = self.num(e.arg(1)), self.num(e.arg(2))
            return z3.If(c, r, q), z3.If(c, n, m)
        raise NoOrder()

    def form(self, e):
        k = e.get_id()
        if k not in self.memo:
            self.memo[k] = (self.form_(e), e)
        return self.memo[k][0]

    def form_(self, e):
        if not z3.is_bool(e):
            raise NoOrder()
        d = e.decl().kind()
        cmp = {z3.Z3_OP_FPA_LT: lambda a, b: a < b, z3.Z3_OP_FPA_LE: lambda a, b: a <= b, z3.Z3_OP_FPA_GT: lambda a, b: a > b,
               z3.Z3_OP_FPA_GE: lambda a, b: a >= b, z3.Z3_OP_FPA_EQ: lambda a, b: a == b}.get(d)
        if cmp:
            (a, n), (b, m) = self.num(e.arg(0)), self.num(e.arg(1))
            return z3.And(z3.Not(n), z3.Not(m), cmp(a, b))
        if d == z3.Z3_OP_FPA_IS_NAN:
            return self.num(e.arg(0))[1]
        if d in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) or z3.is_const(e):
            return e
        f = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not, z3.Z3_OP_IMPLIES: z3.Implies, z3.Z3_OP_XOR: z3.Xor,
             z3.Z3_OP_ITE: z3.If, z3.Z3_OP_EQ: lambda a, b: a == b}.get(d)
        if f is None:
            raise NoOrder()
        return f(*[self.form(e.arg(i)) for i in range(e.num_args())])


def by_order(fs):
    """sat, unsat or None: contains more than comparisons"""
    o = Order()
    try:
        g = [o.form(z3.simplify(f)) for f in fs]
    except NoOrder:
        return None
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(*g)
    return s.check()


class FlatExec:
    def __init__(self, mod, contract):
        self.mod, self.c = mod, contract
        self.n = 0
        self.obs, self.paths, self.throws = [], 0, 0
        self.trusted = set()
        self.secs = 0
        self.live = False
        self.syntactic = 0
        self.queries = 0
        self.cross = False
        self.steps = 0

    # ---- values
    def fresh(self, ty, name):
        self.n += 1
        return self.const(ty, '%s.%d' % (name, self.n))

    def const(self, ty, name):
        t = self.mod.resolve(ty)
        if t.k == 'int':
            return z3.Bool(name) if t.a == 1 else z3.BitVec(name, t.a)
        if t.k == 'double':
            return z3.FP(name, F64)
        if t.k == 'float':
            return z3.FP(name, F32)
        if t.k == 'ptr':
            return Ptr('*' + name)
        if t.k == 'vec':
            return Vec([self.const(t.b, '%s.%d' % (name, i)) for i in range(t.a)])
        if t.k in ('struct', 'pstruct'):
            return [self.const(x, '%s.%d' % (name, i)) for i, x in enumerate(t.a)]
        if t.k == 'arr':
            return [self.const(t.b, '%s.%d' % (name, i)) for i in range(t.a)]
        raise Refused('value of type %r' % ty)

    def zero(self, ty):
        t = self.mod.resolve(ty)
        if t.k == 'int':
            return z3.BoolVal(False) if t.a == 1 else z3.BitVecVal(0, t.a)
        if t.k in ('double', 'float'):
            return z3.fpPlusZero(F64 if t.k == 'double' else F32)
        if t.k == 'ptr':
            return Ptr('null')
        if t.k == 'vec':
            return Vec([self.zero(t.b)] * t.a)
        if t.k in ('struct', 'pstruct'):
            return [self.zero(x) for x in t.a]
        if t.k == 'arr':
            return [self.zero(t.b) for _ in range(t.a)]
        raise Refused('zero of %r' % ty)

    def val(self, env, ty, v):
        k = v[0]
        if k == 'loc':
            return env[v[1]]
        if k == 'int':
            t = self.mod.resolve(ty)
            return z3.BoolVal(bool(v[1])) if t.a == 1 else z3.BitVecVal(v[1], t.a)
        if k == 'bool':
            return z3.BoolVal(v[1])
        if k == 'fp':
            t = self.mod.resolve(ty)
            return z3.FPVal(v[1], F64 if t.k == 'double' else F32)
        if k == 'null':
            return Ptr('null')
        if k == 'glob':
            return self.glob(v[1])
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef':
            return self.fresh(ty, 'undef')
        if k == 'cgep':
            base = self.val(env, v[2][0][0], v[2][0][1])
            return self.gep(env, v[1], base, v[2][1:])
        if k == 'agg':
            t = self.mod.resolve(ty)
            el = [self.val(env, a, b) for a, b in v[1]]
            return Vec(el) if t.k == 'vec' else el
        if k == 'meta':
            return None
        raise Refused('operand %r' % (v,))

    def glob(self, name):
        name = self.mod.aliases.get(name, name)
        nm = name[1:].strip('"')
        if nm in self.mod.funcs or nm in self.mod.decls:
            return Fn(nm)
        return Ptr(name)

    def gep(self, env, ty, base, idx):
        if not isinstance(base, Ptr):
            raise Refused('address arithmetic on %r' % (base,))
        off = base.off
        for n, (t, v) in enumerate(idx):
            x = self.val(env, t, v)
            if not z3.is_bv_value(z3.simplify(x)):
                k = None
            else:
                k = z3.simplify(x).as_signed_long()
            if n == 0:
                if k is None:
                    raise Refused('address with a variable index')
                off += k * self.mod.size(ty)
            else:
                if k is None:
                    raise Refused('address with a variable index')
                o, ty = self.mod.field(ty, k)
                off += o
        return Ptr(base.reg, off)

    # ---- memory: regions of typed cells at constant offsets
    def sizeof(self, ty):
        return self.mod.size(ty)

    def store(self, st, p, ty, v):
        if not isinstance(p, Ptr) or p.reg == 'null':
            raise Refused('store through %r' % (p,))
        t = self.mod.resolve(ty)
        if t.k in ('struct', 'arr') and isinstance(v, list):
            for i, x in enumerate(v):
                o, et = self.mod.field(t, i)
                self.store(st, Ptr(p.reg, p.off + o), et, x)
            return
        if t.k == 'vec':
            for i, x in enumerate(v.v):
                self.store(st, Ptr(p.reg, p.off + i * self.sizeof(t.b)), t.b, x)
            return
        n = self.sizeof(ty)
        m = st.mem.setdefault(p.reg, {})
        for o in list(m):
            if o < p.off + n and p.off < o + m[o][0]:
                if o != p.off or m[o][0] != n:
                    del m[o]
        m[p.off] = (n, v)
        if st.regs.get(p.reg) != 'local':
            st.events.append(('store', p.reg, p.off, v))

    def load(self, st, p, ty):
        if not isinstance(p, Ptr) or p.reg == 'null':
            raise Refused('load through %r' % (p,))
        t = self.mod.resolve(ty)
        if t.k in ('struct', 'arr'):
            out = []
            for i in range(len(t.a) if t.k == 'struct' else t.a):
                o, et = self.mod.field(t, i)
                out.append(self.load(st, Ptr(p.reg, p.off + o), et))
            return out
        if t.k == 'vec':
            return Vec([self.load(st, Ptr(p.reg, p.off + i * self.sizeof(t.b)), t.b) for i in range(t.a)])
        n = self.sizeof(ty)
        m = st.mem.setdefault(p.reg, {})
        c = m.get(p.off)
        if c and c[0] == n:
            return self.view(c[1], t)
        # neighbours that together make up the value
        parts, o = [], p.off
        while o < p.off + n and o in m and o + m[o][0] <= p.off + n:
            parts.append(m[o][1])
            o += m[o][0]
        if parts and o == p.off + n:
            bits = [self.bits(x) for x in parts]
            return self.unbits(z3.Concat(*reversed(bits)) if len(bits) > 1 else bits[0], t)
        for o in m:
            if o < p.off and o + m[o][0] >= p.off + n:
                b = self.bits(m[o][1])
                lo = 8 * (p.off - o)
                return self.unbits(z3.Extract(lo + 8 * n - 1, lo, b), t)
        if any(o < p.off + n and p.off < o + m[o][0] for o in m):
            raise Refused('load across stored values')
        if p.reg.startswith('@'):
            v = self.global_value(p, t)
            if v is not None:
                m[p.off] = (n, v)
                return v
        v = self.fresh(ty, 'mem(%s+%d)' % (p.reg, p.off))
        m[p.off] = (n, v)
        if p.reg not in st.lost:
            st.init[(p.reg, p.off)] = v
        return v

    def bits(self, x):
        if isinstance(x, (Ptr, Fn, list, Vec)):
            raise Refused('pointer used as bits')
        if z3.is_fp(x):
            return z3.fpToIEEEBV(x)
        if z3.is_bool(x):
            return z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        return x

    def unbits(self, b, t):
        if t.k == 'double':
            return z3.fpBVToFP(b, F64)
        if t.k == 'float':
            return z3.fpBVToFP(b, F32)
        if t.k == 'int':
            return b if t.a == b.size() else z3.Extract(t.a - 1, 0, b)
        raise Refused('bits as %r' % t)

    def view(self, x, t):
        """stored value x read as type t of the same size"""
        if t.k == 'ptr':
            if isinstance(x, (Ptr, Fn)):
                return x
            raise Refused('bits used as pointer')
        if isinstance(x, (Ptr, Fn)):
            raise Refused('pointer read as %r' % t)
        if z3.is_fp(x) and t.k in ('double', 'float'):
            return x
        if t.k == 'int' and t.a == 1:
            return x if z3.is_bool(x) else z3.Extract(0, 0, x) == 1
        if t.k == 'int' and z3.is_bv(x):
            return x if x.size() == t.a else z3.Extract(t.a - 1, 0, x)
        return self.unbits(self.bits(x), t)

    def global_value(self, p, t):
        txt = self.mod.globals.get(p.reg)
        if txt is None:
            return None
        from .llir import P as Cur, tokenize, LINK
        if not re.search(r'\bconstant\b', txt.split('{')[0].split('[')[0].split('c"')[0]):
            return None
        cur = Cur(tokenize(re.sub(r', (align|comdat|section).*$', '', txt)), self.mod)
        while cur.peek() in LINK or cur.peek() in ('constant', 'comdat'):
            cur.next()
        ty = cur.type()
        v = self.val({}, ty, cur.value(ty))
        flat = {}

        def put(off, ty, v):
            r = self.mod.resolve(ty)
            if isinstance(v, list):
                for i, x in enumerate(v):
                    o, et = self.mod.field(r, i)
                    put(off + o, et, x)
            else:
                flat[off] = (r, v)
        put(0, ty, v)
        if p.off in flat:
            return self.view(flat[p.off][1], t) if self.sizeof(flat[p.off][0]) == self.sizeof(t) else None
        return None

    # ---- control
    def sat(self, st, extra=()):
        t = time.time()
        self.queries += 1
        r = by_order(list(st.pc) + list(extra))
        if r is not None and r != z3.unknown:
            self.secs += time.time() - t
            return r == z3.sat
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*(st.pc + list(extra)))
        r = s.check()
        self.secs += time.time() - t
        return r != z3.unsat

    def branch(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(True, st)]
        if z3.is_false(c):
            return [(False, st)]
        out = []
        for b, f in ((True, c), (False, z3.Not(c))):
            if self.sat(st, [f]):
                s = st.copy()
                s.pc.append(f)
                out.append((b, s))
        return out

    def verify(self, entry):
        fn = self.mod.funcs.get(entry)
        if fn is None:
            raise Refused('entry %s not found' % entry)
        st = St()
        args = []
        for k, (t, nm) in enumerate(fn.params):
            args.append(self.const(t, (self.c.names[k] if self.c.names else 'p%d' % k)))
        st.pc = list(self.c.pre(self, args))
        if not self.sat(st):
            self.ob('precondition can be met', False, 0, 'vacuous')
            return self.obs
        npaths = 0
        for p in self.function(st, fn, args, 0):
            npaths += 1
            self.live = self.live or p.kind == 'ret'
            if p.kind == 'throw':
                self.throws += 1
            for name, goal in self.c.post(self, args, p):
                self.prove(p.st, goal, '%s (path %d)' % (name, npaths))
        self.paths = npaths
        return self.obs

    def prove(self, st, goal, name):
        t = time.time()
        if isinstance(goal, bool):
            if goal:
                return self.ob(name, True, 0, 'syntactic')
            goal = z3.BoolVal(False)
        fs = list(st.pc) + [z3.Not(goal)]
        r = by_order(fs)
        if r != z3.unsat:
            s = z3.Solver()
            s.set('timeout', 60000)
            s.add(*fs)
            r = s.check()
        dt = time.time() - t
        self.secs += dt
        self.queries += 1
        if r == z3.unsat:
            return self.ob(name, True, dt, 'z3')
        self.ob(name, False, dt, 'z3 ' + str(r), 'input: ' + str(s.model())[:600] if r == z3.sat else '')

    def ob(self, name, ok, secs, status, detail=''):
        from .exec import Obligation
        self.obs.append(Obligation(name, ok, secs, status, detail))

    def function(self, st, fn, args, depth):
        if depth > 60:
            raise Refused('recursion')
        cfg = fn.__dict__.get('_flatcfg')
        if cfg is None:
            cfg = fn._flatcfg = CFG(fn)
        if cfg.loops:
            raise Refused('%s has a loop' % fn.name)
        env = {nm: a for (t, nm), a in zip(fn.params, args)}
        work = [(st, env, fn.entry, None, 0)]
        while work:
            st, env, blk, prev, ix = work.pop()
            ins = fn.blocks[blk]
            if ix == 0:
                new = {}
                for i in ins:
                    if i.op != 'phi':
                        break
                    t, inc = i.a
                    v = [x for x, b in inc if b == prev]
                    new[i.res] = self.val(env, t, v[0])
                env.update(new)
            done = False
            while not done:
                i = ins[ix]
                ix += 1
                self.steps += 1
                if self.steps > 2000000:
                    raise Refused('too many paths')
                op = i.op
                if op == 'phi':
                    continue
                if op == 'br':
                    if i.a[0] == 'u':
                        work.append((st, env, i.a[1], blk, 0))
                    else:
                        for b, s in self.branch(st, self.val(env, None, i.a[1]) if i.a[1][0] != 'int' else z3.BoolVal(bool(i.a[1][1]))):
                            work.append((s, dict(env), i.a[2] if b else i.a[3], blk, 0))
                    done = True
                elif op == 'switch':
                    t, v, d, cs = i.a
                    x = self.val(env, t, v)
                    rest = st
                    alive = True
                    for cv, lab in cs:
                        k = self.val(env, t, cv)
                        nxt = None
                        for b, s in self.branch(rest, x == k):
                            if b:
                                work.append((s, dict(env), lab, blk, 0))
                            else:
                                nxt = s
                        if nxt is None:
                            alive = False
                            break
                        rest = nxt
                    if alive:
                        work.append((rest, dict(env), d, blk, 0))
                    done = True
                elif op == 'ret':
                    yield Path('ret', None if i.a is None else self.val(env, *i.a), st)
                    done = True
                elif op == 'unreachable':
                    self.prove(st, z3.BoolVal(False), 'no undefined behaviour')
                    done = True
                elif op in ('call', 'invoke', '_call', 'tail'):
                    a = i.a[0] if op == 'invoke' else (i.a[1] if i.a and i.a[0] == '_call' else i.a)
                    for p in self.call(st, env, a, depth):
                        if p.kind == 'throw':
                            yield p
                            continue
                        e = dict(env)
                        if i.res:
                            e[i.res] = p.val
                        if op == 'invoke':
                            work.append((p.st, e, i.a[1], blk, 0))
                        else:
                            work.append((p.st, e, blk, prev, ix))
                    done = True
                elif op == 'unsupported':
                    raise Refused(i.line.strip()[:160])
                else:
                    v = self.instr(st, env, i)
                    if i.res:
                        env[i.res] = v

    def call(self, st, env, a, depth):
        rt, callee, argv = a
        if callee[0] == '%':
            f = env[callee]
            if not isinstance(f, Fn):
                raise Refused('call through %r' % (f,))
            name = f.name
        else:
            name = self.mod.aliases.get(callee, callee)[1:].strip('"')
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.invariant')):
            return [Path('ret', None, st)]
        args = [self.val(env, t, v) for t, v in argv]
        if name in self.c.end_calls:
            return [Path('throw', name, st)]
        v = self.c.hook(self, st, name, args, rt)
        if v is not None:
            return [Path('ret', None if isinstance(v, tuple) else v, st)]
        if name.startswith('llvm.'):
            return [Path('ret', self.intrinsic(st, name, args, rt), st)]
        if name in self.mod.funcs:
            return self.function(st, self.mod.funcs[name], args, depth + 1)
        # an external function: recorded, its result is arbitrary
        r = None
        if self.mod.resolve(rt).k != 'void':
            self.n += 1
            r = self.const(rt, '%s#%d' % (name, self.n))
        self.trusted.add('external function ' + name)
        if not name.startswith('vc_') and name not in self.c.pure:
            self.havoc(st, args)
        st.events.append(('call', name, args, r))
        return [Path('ret', r, st)]

    def havoc(self, st, args):
        """an external function writes what it can reach"""
        hit = {a.reg for a in args if isinstance(a, Ptr)} | {r for r in st.mem if st.regs.get(r) != 'local' and not self.const_global(r)}
        work = list(hit)
        while work:
            r = work.pop()
            for n, v in st.mem.get(r, {}).values():
                if isinstance(v, Ptr) and v.reg not in hit:
                    hit.add(v.reg)
                    work.append(v.reg)
        for r in hit:
            if not self.const_global(r):
                st.mem[r] = {}
                st.lost.add(r)

    def const_global(self, r):
        txt = self.mod.globals.get(r) if r.startswith('@') else None
        return bool(txt and re.search(r'\bconstant\b', txt.split('{')[0].split('[')[0].split('c"')[0]))

    def intrinsic(self, st, name, a, rt):
        n = name.split('.')[1]
        if n == 'fabs':
            return z3.fpAbs(a[0])
        if n in ('maxnum', 'minnum'):
            return (z3.fpMax if n == 'maxnum' else z3.fpMin)(a[0], a[1])
        if n in ('umax', 'umin', 'smax', 'smin'):
            c = {'umax': z3.UGT, 'umin': z3.ULT, 'smax': lambda x, y: x > y, 'smin': lambda x, y: x < y}[n](a[0], a[1])
            return z3.If(c, a[0], a[1])
        if n == 'abs':
            return z3.If(a[0] < 0, -a[0], a[0])
        if n == 'copysign':
            return z3.If(z3.fpIsNegative(a[1]), z3.fpNeg(z3.fpAbs(a[0])), z3.fpAbs(a[0]))
        if n == 'sqrt':
            return z3.fpSqrt(RNE, a[0])
        if n == 'fmuladd':
            return z3.fpAdd(RNE, z3.fpMul(RNE, a[0], a[1]), a[2])
        if n == 'memcpy' or n == 'memmove':
            d, s, k = a[0], a[1], z3.simplify(a[2])
            if not z3.is_bv_value(k):
                raise Refused('copy of variable length')
            k = k.as_long()
            m = st.mem.setdefault(s.reg, {})
            self.fill_global(st, s, k)
            cells = {o: c for o, c in m.items() if s.off <= o and o + c[0] <= s.off + k}
            cov = 0
            for o in sorted(cells):
                cov += cells[o][0]
            o = s.off
            out = []
            for o2 in sorted(cells):
                if o2 != o and st.regs.get(s.reg) != 'local':
                    raise Refused('copy of unknown memory')
                out.append((o2 - s.off, cells[o2]))
                o = o2 + cells[o2][0]
            md = st.mem.setdefault(d.reg, {})
            for o2 in list(md):
                if o2 < d.off + k and d.off < o2 + md[o2][0]:
                    del md[o2]
            for o2, c in out:
                md[d.off + o2] = c
            if st.regs.get(d.reg) != 'local':
                st.events.append(('store', d.reg, d.off, None))
            return None
        if n == 'memset':
            d, v, k = a[0], z3.simplify(a[1]), z3.simplify(a[2])
            if not (z3.is_bv_value(k) and z3.is_bv_value(v)):
                raise Refused('fill of variable length')
            for o in range(k.as_long()):
                self.store(st, Ptr(d.reg, d.off + o), self.mod_i8(), v)
            return None
        raise Refused('intrinsic ' + name)

    def mod_i8(self):
        from .llir import ity
        return ity(8)

    def fill_global(self, st, p, n):
        pass

    def instr(self, st, env, i):
        op, a = i.op, i.a
        V = lambda t, v: self.val(env, t, v)
        if op == 'alloca':
            self.n += 1
            r = 'local%d' % self.n
            st.regs[r] = 'local'
            return Ptr(r)
        if op == 'load':
            return self.load(st, V(None, a[1]), a[0])
        if op == 'store':
            return self.store(st, V(None, a[2]), a[0], V(a[0], a[1]))
        if op == 'getelementptr':
            return self.gep(env, a[0], V(*a[1]), a[2])
        if op == 'select':
            c, x, y = V(*a[0]), V(*a[1]), V(*a[2])
            if isinstance(x, (Ptr, Fn)):
                c = z3.simplify(c)
                if z3.is_true(c):
                    return x
                if z3.is_false(c):
                    return y
                if isinstance(y, Ptr) and isinstance(x, Ptr) and (x.reg, x.off) == (y.reg, y.off):
                    return x
                raise Refused('pointer chosen by a condition')
            return z3.If(c, x, y)
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem', 'and', 'or', 'xor'):
            x, y = V(a[0], a[1]), V(a[0], a[2])
            if z3.is_bool(x):
                return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor}[op](x, y)
            return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'shl': lambda: x << y, 'udiv': lambda: z3.UDiv(x, y),
                    'sdiv': lambda: x / y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'urem': lambda: z3.URem(x, y), 'srem': lambda: z3.SRem(x, y),
                    'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]()
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = V(a[0], a[1]), V(a[0], a[2])
            return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, x, y)
        if op == 'fneg':
            return z3.fpNeg(V(*a))
        if op == 'fcmp':
            x, y = V(a[1], a[2]), V(a[1], a[3])
            c = a[0]
            if c in ('true', 'false'):
                return z3.BoolVal(c == 'true')
            nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            if c == 'ord':
                return z3.Not(nan)
            if c == 'uno':
                return nan
            b = {'eq': z3.fpEQ, 'ne': lambda p, q: z3.And(z3.Not(z3.fpEQ(p, q)), z3.Not(nan)), 'lt': z3.fpLT, 'gt': z3.fpGT, 'le': z3.fpLEQ, 'ge': z3.fpGEQ}[c[1:]](x, y)
            return z3.Or(nan, b) if c[0] == 'u' else b
        if op == 'icmp':
            x, y = V(a[1], a[2]), V(a[1], a[3])
            c = a[0]
            if isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)):
                same = self.same_ptr(st, x, y)
                if c == 'eq':
                    return same
                if c == 'ne':
                    return z3.Not(same)
                raise Refused('order of pointers')
            if z3.is_bool(x):
                x, y = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), z3.If(y, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y),
                    'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[c]()
        if op in ('zext', 'sext', 'trunc'):
            x = V(a[0], a[1])
            w = self.mod.resolve(a[2]).a
            if z3.is_bool(x):
                x = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            if op == 'trunc':
                return z3.Extract(0, 0, x) == 1 if w == 1 else z3.Extract(w - 1, 0, x)
            return (z3.ZeroExt if op == 'zext' else z3.SignExt)(w - x.size(), x)
        if op in ('fpext', 'fptrunc'):
            return z3.fpFPToFP(RNE, V(a[0], a[1]), F64 if self.mod.resolve(a[2]).k == 'double' else F32)
        if op in ('sitofp', 'uitofp'):
            s = F64 if self.mod.resolve(a[2]).k == 'double' else F32
            x = V(a[0], a[1])
            if z3.is_bool(x):
                x = z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            return (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(RNE, x, s)
        if op == 'fptosi':
            return z3.fpToSBV(z3.RTZ(), V(a[0], a[1]), z3.BitVecSort(self.mod.resolve(a[2]).a))
        if op == 'fptoui':
            return z3.fpToUBV(z3.RTZ(), V(a[0], a[1]), z3.BitVecSort(self.mod.resolve(a[2]).a))
        if op == 'freeze':
            return V(*a)
        if op == 'extractvalue':
            v = V(*a[0])
            for k in a[1]:
                v = v[k]
            return v
        if op == 'insertvalue':
            def ins(v, ks, x):
                if not ks:
                    return x
                v = list(v)
                v[ks[0]] = ins(v[ks[0]], ks[1:], x)
                return v
            return ins(V(*a[0]), a[2], V(*a[1]))
        if op == 'extractelement':
            return V(*a[0]).v[z3.simplify(V(*a[1])).as_long()]
        if op == 'insertelement':
            v = list(V(*a[0]).v)
            v[z3.simplify(V(*a[2])).as_long()] = V(*a[1])
            return Vec(v)
        if op == 'bitcast':
            x = V(a[0], a[1])
            t = self.mod.resolve(a[2])
            if t.k == 'ptr':
                return x
            if isinstance(x, Vec) and t.k in ('int', 'double'):
                b = [self.bits(y) for y in x.v]
                return self.unbits(z3.Concat(*reversed(b)), t)
            if t.k == 'vec':
                b = self.bits(x)
                w = b.size() // t.a
                return Vec([self.unbits(z3.Extract(w * (k + 1) - 1, w * k, b), self.mod.resolve(t.b)) for k in range(t.a)])
            return self.unbits(self.bits(x), t)
        raise Refused(i.line.strip()[:160])

    def same_ptr(self, st, x, y):
        if isinstance(x, Fn) or isinstance(y, Fn):
            return z3.BoolVal(isinstance(x, Fn) and isinstance(y, Fn) and x.name == y.name)
        if x.reg == y.reg:
            return z3.BoolVal(x.off == y.off)
        known = lambda p: st.regs.get(p.reg) == 'local' or p.reg.startswith('@') or p.reg == 'null'
        if known(x) and known(y):
            return z3.BoolVal(False)
        if 'local' in (st.regs.get(x.reg), st.regs.get(y.reg)):
            return z3.BoolVal(False)
        self.n += 1
        return z3.Bool('same(%s,%s)' % tuple(sorted((str(x), str(y)))))
