"""Symbolic execution of LLVM IR producing verification conditions.

Loops are cut at their header with invariants (automatic counter invariants,
array invariants instantiated from the contract, everything inductive).
See DESIGN.md for the exact semantics and the assumptions."""
import hashlib, os, sys, time
from .terms import *
from . import terms
from .llir import Module
from .solve import Facts, prove, STATS


class Unsupported(Exception):
    pass


class ForkEx(Exception):
    def __init__(self, cond):
        self.cond = cond


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ memory
class Region:
    def __init__(self, name, kind, size):
        self.name, self.kind, self.size = name, kind, size
        self.es = None
        self.sort = None
        self.rw = True
        self.nonnull = True
        self.nonneg = False

    def __repr__(self):
        return '<%s>' % self.name


class Ptr:
    __slots__ = ('reg', 'off')

    def __init__(self, reg, off):
        self.reg, self.off = reg, P(off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.reg is o.reg and self.off == o.off

    def __hash__(self):
        return hash((id(self.reg), self.off))

    def __repr__(self):
        return '&%s+%r' % (self.reg.name if self.reg else 'null', self.off)


NULL = Ptr(None, 0)


class FnP:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnP) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '@' + self.name


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Cells:
    """objects accessed at constant offsets"""
    __slots__ = ('d', 'zero')

    def __init__(self, d=None, zero=()):
        self.d = d or {}
        self.zero = zero


# array versions: read(idx) -> Poly
class Base:
    def __init__(self, name, sort, nonneg=False):
        self.name, self.sort, self.nonneg = name, sort, nonneg

    def read(self, idx):
        p = app(self.name, self.sort, idx)
        if self.nonneg:
            next(iter(p.atoms())).nonneg = True
        return p

    def sub(self, m, memo):
        return self


class Write:
    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val, self.sort = prev, idx, val, prev.sort

    def read(self, idx):
        d = (idx - self.idx).const()
        if d == 0:
            return self.val
        if d is not None:
            return self.prev.read(idx)
        return ite(eq(idx, self.idx), self.val, self.prev.read(idx), self.sort)

    def sub(self, m, memo):
        return Write(self.prev.sub(m, memo), subst(self.idx, m, memo), subst(self.val, m, memo))


class MapR:
    """for 0<=t<n: cell lo+step*t holds val(t)"""

    def __init__(self, prev, lo, step, n, tv, val):
        self.prev, self.lo, self.step, self.n, self.tv, self.val = prev, lo, step, n, tv, val
        self.sort = prev.sort

    def read(self, idx):
        q = (idx - self.lo)
        if self.step != ONE:
            q = q.div_poly(self.step)
            if q is None:
                raise Unsupported('read of strided map')
        v = subst(self.val, {self.tv: q}) if self.tv is not None else self.val
        return ite(conj(le(0, q), lt(q, self.n)), v, self.prev.read(idx), self.sort)

    def sub(self, m, memo):
        if self.tv is not None and self.tv in m:        # bound variable
            inner = {k: v for k, v in m.items() if k is not self.tv and k != self.tv}
            val = subst(self.val, inner)
        else:
            val = subst(self.val, m, memo)
        return MapR(self.prev.sub(m, memo), subst(self.lo, m, memo), subst(self.step, m, memo),
                    subst(self.n, m, memo), self.tv, val)


class CopyR:
    def __init__(self, prev, lo, n, src, slo):
        self.prev, self.lo, self.n, self.src, self.slo, self.sort = prev, lo, n, src, slo, prev.sort

    def read(self, idx):
        return ite(conj(le(self.lo, idx), lt(idx, self.lo + self.n)),
                   self.src.read(idx - self.lo + self.slo), self.prev.read(idx), self.sort)

    def sub(self, m, memo):
        return CopyR(self.prev.sub(m, memo), subst(self.lo, m, memo), subst(self.n, m, memo),
                     self.src.sub(m, memo), subst(self.slo, m, memo))


# ------------------------------------------------------------------ state
class State:
    def __init__(self):
        self.env = {}
        self.mem = {}
        self.pc = []
        self.alias = {}
        self.freed = frozenset()
        self.dec = ''
        self.nest = ()       # active loops (LoopCtx)
        self.heap = ()
        self.user = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.alias = dict(self.alias)
        s.freed = self.freed
        s.dec = self.dec
        s.nest = self.nest
        s.heap = self.heap
        s.user = dict(self.user)
        return s


class Plan:
    """what is known about one loop (per path context), refined between passes"""

    def __init__(self, key):
        self.key = key
        self.cls = {}        # slot -> ('lin', d) | ('cond', u, sig) | ('sym',)
        self.cells = {}      # (region name, off) -> (size, type)
        self.arrays = set()  # region names
        self.bound = None
        self.dropped = set()
        self.retries = 0
        self.tries = {}
        self.reset = None
        self.known = {}
        self.reads = set()   # region names


class LoopCtx:
    def __init__(self, plan, header, t):
        self.plan, self.header, self.t = plan, header, t
        self.cs = {}
        self.syms = {}
        self.entry = None
        self.cands = []
        self.bound = None
        self.arr = {}
        self.writes = {}


class Obligation:
    __slots__ = ('name', 'ok', 'secs', 'status', 'detail')

    def __init__(self, name, ok, secs, status, detail=''):
        self.name, self.ok, self.secs, self.status, self.detail = name, ok, secs, status, detail


class Cand:
    """candidate invariant. form(view) -> formula; view gives read access.
    For arrays: region + assume(idx)->formula using value reader."""

    def __init__(self, name, required=False):
        self.name = name
        self.required = required


class CFG:
    def __init__(self, fn):
        self.fn = fn
        fn.blocks
        self.succ = {}
        self.pred = {}
        for l in fn.order:
            self.pred.setdefault(l, [])
        for l in fn.order:
            t = fn.blocks[l][-1]
            s = []
            if t.op == 'br':
                s = [t.a[1]] if t.a[0] == 'u' else [t.a[2], t.a[3]]
            elif t.op == 'switch':
                s = [t.a[2]] + [x[1] for x in t.a[3]]
            elif t.op == 'invoke':
                s = [t.a[1], t.a[2]]
            self.succ[l] = s
            for x in s:
                self.pred.setdefault(x, []).append(l)
        self._dom()
        self._loops()

    def _dom(self):
        order = []
        seen = set()

        def dfs(b):
            st = [(b, iter(self.succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.succ[y])))
                        break
                else:
                    order.append(x)
                    st.pop()
        e = self.fn.entry
        dfs(e)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {e: e}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == e:
                    continue
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom, self.num = idom, num

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def _loops(self):
        self.loops = {}
        for b in self.num:
            for s in self.succ[b]:
                if s in self.num and self.dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.pred[x] if p in self.num)


def sort_of(ty):
    if ty.k in ('double', 'float'):
        return 'R'
    if ty.k == 'int':
        return 'B' if ty.a == 1 else 'I'
    if ty.k == 'ptr':
        return 'P'
    return 'S'


class Exec:
    def __init__(self, mod, contract, log=None):
        self.mod = mod
        self.contract = contract
        self.plans = {}
        self.cfgs = {}
        self.log = log
        self.memo = {}
        self.feas = {}
        self.timeout = getattr(contract, 'timeout', 10000)
        self.cross = False
        self.live = 0
        self.verbose = os.environ.get('VC_V')

    # ------------------------------------------------------------ driver
    def verify(self, fname, maxpass=60):
        t0 = time.time()
        self.final = False
        self.allow_drop = False
        for p in range(maxpass):
            self.changed = []
            self.one_pass(fname)
            was = self.allow_drop
            self.allow_drop = all(c.startswith('drop ') for c in self.changed)
            if self.allow_drop:
                for k in self.seen:
                    self.plans[k].stable = True
            if self.allow_drop and not was:
                self.changed.append('drop allowed')
            if self.verbose:
                print('pass', p, '%.1fs' % (time.time() - t0), 'changed', len(self.changed), self.changed[:6], file=sys.stderr)
            if not self.changed:
                break
        self.final = True
        self.changed = []
        self.one_pass(fname)
        if self.changed:
            self.ob('loop analysis converges', False, 0, 'undecided', repr(self.changed[:3]))
        return self.obs

    def one_pass(self, fname):
        terms._fresh.clear()
        self.waiting = None
        self.seen = set()
        self.obs = []
        self.syntactic = 0
        self.facts = Facts()
        self.regs = {}
        self.ctxids = {}
        self.trusted = set()
        self.paths = 0
        self.throws = 0
        self.endless = set()
        self.merged = set()
        self.hooked = {}
        self.deep = {}
        fn = self.mod.funcs[fname]
        st = State()
        self.contract.begin(self)
        vals = self.contract.setup(self, st, fn)
        for (ty, nm), v in zip(fn.params, vals):
            st.env[nm] = v
        try:
            outs = self.run_function(st, fn)
        except Unsupported as e:
            if self.verbose:
                import traceback
                traceback.print_exc()
            self.ob('supported construct', False, 0, 'unsupported', str(e))
            self.unsupported = str(e)
            return
        self.live = 0
        for n in sorted(self.endless):
            self.trusted.add('loop %s ends (no variant found)' % n)
        for s, rv in outs:
            self.paths += 1
            if self.final and self.live < 2:
                # vacuity guard: some path that ends has no contradiction
                if (not self.contract.hooks or self.hooked) and not prove(list(s.pc), FALSE, self.facts, s.alias, 2000, 1, memo=self.memo).ok:
                    self.live += 1
            self.contract.end(self, s, rv)
        if not all(self.deep.values()):
            self.live = 0

    def run_function(self, st, fn):
        cfg = self.cfgs.get(fn.name)
        if cfg is None:
            cfg = self.cfgs[fn.name] = CFG(fn)
        outs = self.region(st, fn, cfg, fn.entry, None, None)
        res = []
        for k, s, a, b in outs:
            if k == 'ret':
                res.append((s, a))
            elif k == 'throw':
                self.throws += 1
                h = getattr(self.contract, 'on_throw', None)
                if h:
                    h(self, s, a)
            else:
                raise Unsupported('outcome ' + k)
        return res

    # ------------------------------------------------------------ queries
    def hyps(self, st):
        return st.pc

    def key(self, st, goal):
        return None

    def prove(self, st, goal, extra=(), timeout=None, rounds=2):
        if goal is TRUE:
            return True, 'trivial', 0
        t0 = time.time()
        r = prove(list(st.pc) + list(extra), goal, self.facts, st.alias, timeout or self.timeout, rounds, cross=self.cross and self.final, memo=self.memo)
        return r.ok, r.status, time.time() - t0

    def ob(self, name, ok, secs, status, detail=''):
        self.obs.append(Obligation(name, ok, secs, status, detail))

    def require(self, st, goal, name, extra=(), rounds=2):
        """a proof obligation; only proved in the final pass"""
        if not self.final:
            return
        if goal is TRUE and not name.startswith(('C(', 'post')):
            self.syntactic += 1
            return
        ok, status, secs = self.prove(st, goal, extra, rounds=rounds)
        if not ok and rounds < 3:
            ok, status, s2 = self.prove(st, goal, extra, rounds=3)
            secs += s2
        if not ok and self.verbose:
            print('FAILED', name, status, '\n   goal', goal, '\n   pc', st.pc[-12:], file=sys.stderr)
            if os.environ.get('VC_DUMP'):
                prove(list(st.pc) + list(extra), goal, self.facts, st.alias, 3000, rounds, dump='/tmp/vc_%d.smt2' % len(self.obs))
        self.ob(name, ok, secs, status, '' if ok else repr(goal)[:400])

    def known(self, st, f):
        """syntactic truth value of f in st, or None"""
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        pcs = st.pc
        n = neg(f)
        for p in pcs:
            if p is f:
                return True
            if p is n:
                return False
        return None

    def feasible(self, st, f):
        r = prove(list(st.pc), neg(f), self.facts, st.alias, 1500, 1, memo=self.memo)
        return not r.ok

    def branch(self, st, cond):
        """list of (bool, state)"""
        k = self.known(st, cond)
        if k is not None:
            return [(k, st)]
        yes = self.feasible(st, cond)
        no = self.feasible(st, neg(cond))
        out = []
        both = yes and no
        if yes:
            s = st.copy() if both else st
            s.pc.append(cond)
            equate(s, cond)
            if both:
                s.dec += 'T'
            out.append((True, s))
        if no:
            s = st
            s.pc.append(neg(cond))
            equate(s, neg(cond))
            if both:
                s.dec += 'F'
            out.append((False, s))
        return out

    def branches(self, st, cond):
        """the same, with one state for every reason why cond fails or holds"""
        if cond.op in ('and', 'or') and self.known(st, cond) is None:
            stop = cond.op == 'or'
            out, rest = [], [st]
            for f in cond.a:
                nxt = []
                for s in rest:
                    for t, s2 in self.branches(s, f):
                        (out if t is stop else nxt).append((t, s2) if t is stop else s2)
                rest = nxt
            return out + [(not stop, s) for s in rest]
        return self.branch(st, cond)

    def decide(self, st, cond):
        k = self.known(st, cond)
        if k is None:
            raise ForkEx(cond)
        return k

    # ------------------------------------------------------------ execution
    def region(self, st, fn, cfg, blk, prev, loop):
        """run from blk until the loop is left / re-entered"""
        outs = []
        work = [(st, blk, prev, 0)]
        n = 0
        while work:
            n += 1
            if n > 20000:
                raise Unsupported('too many steps')
            st, blk, prev, ix = work.pop()
            if ix == 0:
                if loop is not None and prev is not loop[1]:
                    if blk == loop[0]:
                        outs.append(('latch', st, blk, prev))
                        continue
                    if blk not in cfg.loops[loop[0]]:
                        outs.append(('exit', st, blk, prev))
                        continue
                if blk in cfg.loops and not (loop is not None and blk == loop[0]):
                    for s, b, pb in self.handle_loop(st, fn, cfg, blk, prev):
                        work.append((s, b, pb, 0))
                    continue
                if not (loop is not None and blk == loop[0]):
                    self.phis(st, fn.blocks[blk], prev)
            try:
                r = self.block(st, fn, blk, prev, ix)
            except ForkEx as e:
                ix2 = self.cur
                for _, s in self.branch(st, e.cond):
                    work.append((s, blk, prev, ix2 if ix2 else -1))
                continue
            except Infeasible:
                continue
            for k in r:
                if k[0] == 'br':
                    work.append((k[1], k[2], blk, 0))
                elif k[0] == 'cont':
                    work.append((k[1], blk, prev, k[2]))
                else:
                    outs.append((k[0], k[1], k[2], None))
        return outs

    def phis(self, st, ins, prev):
        new = {}
        for i in ins:
            if i.op != 'phi':
                break
            ty, inc = i.a
            for v, b in inc:
                if b == prev:
                    new[i.res] = self.val(st, ty, v)
                    break
            else:
                raise Unsupported('phi without edge')
        st.env.update(new)

    def block(self, st, fn, blk, prev, ix):
        ins = fn.blocks[blk]
        if ix == -1:
            ix = 0
        for n in range(ix, len(ins)):
            i = ins[n]
            self.cur = n
            self.here = fn, blk, n
            if i.op == 'phi':
                continue
            if i.op == 'br':
                if i.a[0] == 'u':
                    return [('br', st, i.a[1])]
                c = self.val(st, None, i.a[1])
                if isinstance(c, Undef):
                    raise Unsupported('branch on undef')
                out = []
                for t, s in (self.branches(st, c) if self.contract.split else self.branch(st, c)):
                    out.append(('br', s, i.a[2] if t else i.a[3]))
                return out
            if i.op == 'switch':
                ty, v, d, cs = i.a
                x = self.val(st, ty, v)
                out = []
                cur = st
                for cv, lbl in cs:
                    r = self.branch(cur, eq(x, self.val(cur, ty, cv)))
                    cur = None
                    for t, s in r:
                        if t:
                            out.append(('br', s, lbl))
                        else:
                            cur = s
                    if cur is None:
                        break
                if cur is not None:
                    out.append(('br', cur, d))
                return out
            if i.op == 'ret':
                return [('ret', st, None if i.a is None else self.val(st, i.a[0], i.a[1]))]
            if i.op == 'unreachable':
                return []
            if i.op == 'resume':
                return [('throw', st, None)]
            if i.op in ('invoke', 'call', 'tail'):
                ca = i.a[0] if i.op == 'invoke' else i.a[1] if i.op == 'tail' else i.a
                nm = self.defined(st, ca)
                if nm:
                    return self.inline(st, i, nm, ca, n, i.a[1] if i.op == 'invoke' else None)
            if i.op == 'invoke':
                call, ok, unw = i.a
                r = self.call(st, i.res, call)
                if r is not None:
                    return [(r, st, None)]
                return [('br', st, ok)]
            if i.op in ('call', 'tail'):
                a = i.a
                if i.op == 'tail':
                    a = a[1]
                r = self.call(st, i.res, a)
                if r is not None:
                    return [(r, st, None)]
                continue
            self.instr(st, i)
        raise Unsupported('no terminator')

    def defined(self, st, ca):
        """name of a callee with a body (and without a contract)"""
        nm = self.callee(st, ca[1])
        if nm is None:
            return None
        if nm in self.mod.funcs and nm not in self.contract.hooks and not self.is_trusted(nm):
            return nm
        return None

    def callee(self, st, c):
        if c[0] == '@':
            return c[1:].strip('"')
        f = st.env[c]
        return f.name if isinstance(f, FnP) else None

    def is_trusted(self, nm):
        return '_Rb_tree' in nm and '_M_erase' in nm

    def inline(self, st, i, nm, ca, n, ok):
        fn = self.mod.funcs[nm]
        vals = [self.val(st, t, x) for t, x in ca[2]]
        if st.user.get('depth', 0) > 30:
            raise Unsupported('recursion')
        env = st.env
        st.env = {p: v for (t, p), v in zip(fn.params, vals)}
        st.user['depth'] = st.user.get('depth', 0) + 1
        out = []
        for s, rv in self.run_function(st, fn):
            s.env = dict(env)
            s.user['depth'] -= 1
            if i.res is not None:
                s.env[i.res] = rv
            out.append(('br', s, ok) if ok else ('cont', s, n + 1))
        return out

    # ------------------------------------------------------------ values
    def val(self, st, ty, v):
        k = v[0]
        if k == 'loc':
            return st.env[v[1]]
        if k == 'int':
            if ty is not None and ty.k == 'int' and ty.a == 1:
                return TRUE if v[1] else FALSE
            return P(v[1])
        if k == 'bool':
            return TRUE if v[1] else FALSE
        if k == 'fp':
            return P(fpval(v[1]))
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.glob(st, v[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(v[1])
        if k == 'cgep':
            return self.gep(st, v[1], v[2])
        if k == 'agg':
            return [self.val(st, t, x) for t, x in v[1]]
        raise Unsupported('operand %r' % (v,))

    def zero(self, ty):
        s = sort_of(ty)
        if s in 'IR':
            return ZERO
        if s == 'B':
            return FALSE
        if s == 'P':
            return NULL
        raise Unsupported('zero aggregate')

    def glob(self, st, name):
        name = name.lstrip('@').strip('"')
        if name in self.mod.funcs or name in self.mod.decls:
            return FnP(name)
        r = self.regs.get('@' + name)
        if r is None:
            r = Region('@' + name, 'global', None)
            self.regs['@' + name] = r
        return Ptr(r, 0)

    def gep(self, st, base, ops):
        (bt, bv), idx = ops[0], ops[1:]
        p = self.val(st, bt, bv)
        return self.gep_from(st, base, p, idx)

    def gep_from(self, st, base, p, idx):
        if isinstance(p, FnP):
            return p
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        off = p.off
        ty = base
        for n, (it, iv) in enumerate(idx):
            x = self.val(st, it, iv)
            if isinstance(x, Undef):
                raise Unsupported('undef index')
            if n == 0:
                off = off + x * self.mod.size(ty)
            else:
                t = self.mod.resolve(ty)
                if t.k == 'arr':
                    ty = t.b
                    off = off + x * self.mod.size(ty)
                else:
                    c = x.const()
                    fo, ty = self.mod.field(t, c)
                    off = off + fo
        return Ptr(p.reg, off)

    def fresh_of(self, ty, name):
        s = sort_of(ty)
        if s == 'I':
            return ivar(name)
        if s == 'R':
            return rvar(name)
        if s == 'B':
            return bvar(name)
        raise Unsupported('fresh ' + repr(ty))

    # ------------------------------------------------------------ instructions
    def num(self, st, ty, v):
        x = self.val(st, ty, v)
        if isinstance(x, Undef):
            raise Unsupported('arithmetic on undefined value')
        return x

    def instr(self, st, i):
        op = i.op
        a = i.a
        env = st.env
        if op == 'alloca':
            ty = a[0]
            r = self.newreg(st, 'stk.%s' % i.res, 'stack', P(self.mod.size(ty)))
            st.mem[r] = Cells()
            env[i.res] = Ptr(r, 0)
        elif op == 'load':
            env[i.res] = self.load(st, a[0], self.val(st, None, a[1]))
        elif op == 'store':
            self.store(st, a[0], self.val(st, a[0], a[1]), self.val(st, None, a[2]))
        elif op == 'getelementptr':
            env[i.res] = self.gep_from(st, a[0], self.val(st, *a[1]), a[2])
        elif op in ('add', 'sub', 'mul'):
            ty, x, y = a[:3]
            x, y = self.num(st, ty, x), self.num(st, ty, y)
            if ty.a == 1:
                if op == 'add':
                    env[i.res] = neg(iff(x, y))
                else:
                    raise Unsupported('i1 arithmetic')
            else:
                env[i.res] = x + y if op == 'add' else x - y if op == 'sub' else x * y
                if op == 'mul' and ty.a == 64:
                    pass
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            ty, x, y = a[:3]
            x, y = self.num(st, ty, x), self.num(st, ty, y)
            env[i.res] = self.contract.farith(op, x, y)
        elif op == 'fneg':
            env[i.res] = -self.num(st, a[0], a[1])
        elif op == 'icmp':
            env[i.res] = self.icmp(st, *a)
        elif op == 'fcmp':
            cc, ty, x, y = a
            x, y = self.num(st, ty, x), self.num(st, ty, y)
            if cc in ('oeq', 'ueq'):
                r = req(x, y)
            elif cc in ('one', 'une'):
                r = neg(req(x, y))
            elif cc in ('olt', 'ult'):
                r = rlt(x, y)
            elif cc in ('ole', 'ule'):
                r = rle(x, y)
            elif cc in ('ogt', 'ugt'):
                r = rlt(y, x)
            elif cc in ('oge', 'uge'):
                r = rle(y, x)
            elif cc in ('uno', 'false'):
                r = FALSE
            elif cc in ('ord', 'true'):
                r = TRUE
            else:
                raise Unsupported('fcmp ' + cc)
            env[i.res] = r
        elif op == 'select':
            (_, c), (t1, x), (t2, y) = a
            c = self.val(st, None, c)
            if isinstance(c, Undef):
                raise Unsupported('select on undef')
            x, y = self.val(st, t1, x), self.val(st, t2, y)
            s = sort_of(t1)
            k = self.known(st, c)
            if k is not None:
                r = x if k else y
            elif isinstance(x, Undef) or isinstance(y, Undef):
                r = x if self.decide(st, c) else y
            elif s in 'IR':
                r = ite(c, x, y, s)
            elif s == 'B':
                r = bite(c, x, y)
            elif x == y:
                r = x
            else:
                r = x if self.decide(st, c) else y
            env[i.res] = r
        elif op in ('and', 'or', 'xor'):
            ty, x, y = a[:3]
            x, y = self.num(st, ty, x), self.num(st, ty, y)
            if ty.a == 1:
                env[i.res] = conj(x, y) if op == 'and' else disj(x, y) if op == 'or' else neg(iff(x, y))
            else:
                env[i.res] = self.bitop(st, op, x, y, ty.a)
        elif op in ('shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            ty, x, y = a[:3]
            env[i.res] = self.divop(st, op, self.num(st, ty, x), self.num(st, ty, y), ty.a, a[3] if len(a) > 3 else ())
        elif op in ('zext', 'sext'):
            ty, x, t2 = a
            x = self.num(st, ty, x)
            if ty.a == 1:
                env[i.res] = ite(x, P(1 if op == 'zext' else -1), ZERO)
            elif op == 'sext' or nonneg(x) or ty.a == 8:
                env[i.res] = x
            else:
                env[i.res] = self.uval(x, ty.a)
        elif op == 'trunc':
            ty, x, t2 = a
            x = self.num(st, ty, x)
            if t2.a == 1:
                env[i.res] = self.tobool(x)
            elif x.const() is not None:
                c = x.const() % (1 << t2.a)
                if t2.a >= 32 and c >= 1 << (t2.a - 1):
                    c -= 1 << t2.a
                env[i.res] = P(c)
            elif t2.a == 8:
                env[i.res] = x
            elif t2.a == 32:
                env[i.res] = self.contract.trunc32(self, st, x)
            else:
                raise Unsupported('trunc')
        elif op in ('bitcast', 'freeze'):
            env[i.res] = self.val(st, a[0], a[1])
        elif op == 'fpext':
            env[i.res] = self.num(st, a[0], a[1])
        elif op == 'fptrunc':
            env[i.res] = self.contract.fptrunc(self.num(st, a[0], a[1]))
        elif op in ('uitofp', 'sitofp'):
            x = self.num(st, a[0], a[1])
            if isinstance(x, T):
                env[i.res] = ite(x, ONE, ZERO, 'R')
            elif x.const() is not None:
                env[i.res] = x
            else:
                env[i.res] = P(mk('i2r', 'R', x))
        elif op in ('fptoui', 'fptosi'):
            env[i.res] = self.contract.ftoi(self, st, self.val(st, a[0], a[1]), op == 'fptosi')
        elif op == 'ptrtoint':
            p = self.val(st, a[0], a[1])
            if p.reg is None:
                env[i.res] = p.off
            else:
                b = ivar('addr.' + p.reg.name, True)
                env[i.res] = b + p.off
        elif op == 'extractvalue':
            (t, v), ix = a
            x = self.val(st, t, v)
            for k in ix:
                x = x[k]
            env[i.res] = x
        elif op == 'insertvalue':
            (t, v), (t2, v2), ix = a
            x = self.val(st, t, v)
            if isinstance(x, Undef):
                rt = self.mod.resolve(t)
                x = [UNDEF] * len(rt.a)
            x = list(x)
            if len(ix) != 1:
                raise Unsupported('insertvalue')
            x[ix[0]] = self.val(st, t2, v2)
            env[i.res] = x
        elif op == 'landingpad':
            raise Unsupported('landing pad reached')
        else:
            raise Unsupported('instruction ' + i.line[:120])

    def tobool(self, x):
        c = x.const()
        if c is not None:
            return TRUE if c % 2 else FALSE
        at = x.atoms()
        if len(at) == 1 and len(x.c) == 1:
            t = next(iter(at))
            if t.op == 'ite' and x == P(t):
                return bite(t.a[0], self.tobool(t.a[1]), self.tobool(t.a[2]))
        return neg(eq(x, 0))

    def bitop(self, st, op, x, y, w):
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            m = (1 << w) - 1
            v = {'and': (cx & m) & (cy & m), 'or': (cx & m) | (cy & m), 'xor': (cx & m) ^ (cy & m)}[op]
            if v >= 1 << (w - 1) and w >= 32:
                v -= 1 << w
            return P(v)
        if op == 'xor' and cy == -1:
            return -x - 1
        if op == 'and' and cy is not None and cy == 1:
            return ite(self.tobool_lowbit(x), ONE, ZERO)
        if op == 'and' and cy is not None and cy < 0:
            k = -cy
            if k & (k - 1) == 0 and x.div_const(k) is not None:
                return x
        if op == 'and' and cy is not None and cy > 0 and w == 64 and (cy & (cy + 1)) == 0 and cy >= 2 ** 60:
            return x     # clearing the bits lost by a left shift of an in-range value
        if w == 8:
            fx, fy = self.tobool(x), self.tobool(y)
            return ite(conj(fx, fy) if op == 'and' else disj(fx, fy) if op == 'or' else neg(iff(fx, fy)), ONE, ZERO)
        raise Unsupported('bit operation %s %r %r' % (op, x, y))

    def tobool_lowbit(self, x):
        b = self.tobool(x)
        if b.op == 'not' and b.a[0].op == 'eq0':
            raise Unsupported('parity')
        return b

    def divop(self, st, op, x, y, w, flags):
        cy = y.const()
        if op == 'shl':
            if cy is None:
                raise Unsupported('shift')
            return x * (1 << cy)
        if op in ('lshr', 'ashr'):
            if cy is None:
                raise Unsupported('shift')
            y, cy = P(1 << cy), 1 << cy
            op = 'udiv' if op == 'lshr' else 'sdiv_floor'
        if cy is not None and cy > 0:
            q = x.div_const(cy)
            if op in ('udiv', 'sdiv', 'sdiv_floor'):
                if q is not None:
                    return q
                if x.const() is not None:
                    return P(x.const() // cy)
                if nonneg(x) or op == 'udiv':
                    t = mk('udiv', 'I', x, cy)
                    t.nonneg = True
                    return P(t)
            if op in ('urem', 'srem'):
                if q is not None:
                    return ZERO
                if nonneg(x):
                    t = mk('udiv', 'I', x, cy)
                    t.nonneg = True
                    return x - P(t) * cy
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            q = x.div_poly(y) if y.c else None
            self.require(st, ne(y, 0), 'divisor is not zero')
            if q is not None and op in ('udiv', 'sdiv'):
                return q
            t = app('udiv2', 'I', x, y)
            next(iter(t.atoms())).nonneg = True
            self.ensure_div()
            return t if op in ('udiv', 'sdiv') else x - t * y
        raise Unsupported('division %s %r %r' % (op, x, y))

    def guess_es(self, fn, phi):
        """element size suggested by the uses of a pointer phi"""
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.op == 'load' and i.a[1] == ('loc', phi):
                    return self.mod.size(i.a[0])
                if i.op == 'store' and i.a[2] == ('loc', phi):
                    return self.mod.size(i.a[0])
                if i.op == 'getelementptr' and i.a[1][1] == ('loc', phi):
                    return self.mod.size(i.a[0])
        return 8

    def ensure_div(self):
        if 'udiv2' not in self.facts.by_name:
            def f(x, y):
                q = app('udiv2', 'I', x, y)
                return imp(conj(ge(x, 0), gt(y, 0)), conj(ge(q, 0), le(q * y, x), lt(x, q * y + y)))
            self.facts.add('udiv2', f)

    def uval(self, x, w):
        if nonneg(x):
            return x
        c = x.const()
        if c is not None:
            return P(c % (1 << w))
        return ite(le(0, x), x, x + (1 << w))

    def icmp(self, st, cc, ty, x, y):
        if ty.k == 'ptr':
            x, y = self.val(st, ty, x), self.val(st, ty, y)
            return self.pcmp(st, cc, x, y)
        x, y = self.num(st, ty, x), self.num(st, ty, y)
        if isinstance(x, T):
            r = iff(x, y)
            if cc == 'eq':
                return r
            if cc == 'ne':
                return neg(r)
            raise Unsupported('icmp i1')
        if cc in ('eq', 'ne'):
            r = self.inteq(x, y)
            return r if cc == 'eq' else neg(r)
        if cc[0] == 'u':
            x, y = self.uval(x, ty.a), self.uval(y, ty.a)
        if cc[1:] == 'lt':
            return lt(x, y)
        if cc[1:] == 'le':
            return le(x, y)
        if cc[1:] == 'gt':
            return lt(y, x)
        return le(y, x)

    def inteq(self, x, y):
        for p, q in ((x, y), (y, x)):
            c = q.const()
            if c is not None and len(p.c) == 1:
                (m, k), = p.c.items()
                if len(m) == 1 and k == 1 and m[0].op == 'ite':
                    f, a, b = m[0].a
                    return bite(f, self.inteq(a, q), self.inteq(b, q))
        return eq(x, y)

    def pcmp(self, st, cc, x, y):
        if isinstance(x, FnP) or isinstance(y, FnP):
            r = TRUE if x == y else FALSE
        elif isinstance(x, Undef) or isinstance(y, Undef):
            raise Unsupported('comparison of undefined pointer')
        elif x.reg is y.reg:
            if cc in ('eq', 'ne'):
                r = eq(x.off, y.off)
            elif cc == 'ult':
                return lt(x.off, y.off)
            elif cc == 'ule':
                return le(x.off, y.off)
            elif cc == 'ugt':
                return lt(y.off, x.off)
            else:
                return le(y.off, x.off)
        else:
            if cc not in ('eq', 'ne'):
                raise Unsupported('order of unrelated pointers')
            if x.reg is not None and y.reg is not None:
                self.note('unrelated objects have different addresses')
            r = FALSE
        return r if cc == 'eq' else neg(r)

    def note(self, s):
        self.trusted.add(s)

    # ------------------------------------------------------------ memory
    def newreg(self, st, name, kind, size):
        # names are deterministic in the path
        base = name + ('#' + '.'.join(l.key_id for l in st.nest) if st.nest else '')
        n = st.user.get(('cnt', base), 0)
        st.user[('cnt', base)] = n + 1
        nm = '%s.%d' % (base, n) if n else base
        key = (nm, st.dec)
        nm2 = nm + ('/' + self.ctxid(st.dec) if st.dec else '')
        r = self.regs.get(nm2)
        if r is None:
            r = Region(nm2, kind, size)
            self.regs[nm2] = r
        r.size = size
        return r

    def ctxid(self, s):
        i = self.ctxids.get(s)
        if i is None:
            i = hashlib.md5(s.encode()).hexdigest()[:6]
            self.ctxids[s] = i
        return i

    def check_access(self, st, p, size, what):
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        r = p.reg
        if r is None:
            # the offset is mentioned for the facts about what it is made of
            self.require(st, FALSE, '%s through null pointer' % what, extra=[bapp('offset', p.off)])
            raise Infeasible()
        if r in st.freed:
            self.require(st, FALSE, '%s after free of %s' % (what, r.name.split('/')[0]))
            raise Infeasible()
        if r.kind == 'global':
            return
        if r.size is not None:
            self.require(st, conj(le(0, p.off), le(p.off + size, r.size)), '%s in bounds of %s' % (what, r.name.split('#')[0].split('/')[0]))

    def to_array(self, st, r, ty, sz):
        """make the region an array of elements of type ty"""
        c = st.mem.get(r)
        s = sort_of(ty)
        if isinstance(c, Cells):
            if s not in 'IR':
                raise Unsupported('array of ' + s)
            v = Base('undef.' + r.name, s)
            for off, (z, val, t) in c.d.items():
                if z != sz or off % sz:
                    raise Unsupported('mixed object used as array')
                v = Write(v, P(off // sz), val)
            for lo, n in c.zero:
                v = MapR(v, P(lo // sz), ONE, P(n // sz), None, ZERO)
            r.es, r.sort = sz, s
            st.mem[r] = v
        elif c is None:
            raise Unsupported('no content for ' + r.name)
        return st.mem[r]

    def index(self, st, p, sz):
        q = p.off.div_const(sz)
        if q is None:
            if not self.final:
                return ivar(fresh_name('idx'))      # the analysis does not know the step yet
            raise Unsupported('unaligned access %r' % (p,))
        return q

    def load(self, st, ty, p):
        sz = self.mod.size(ty)
        self.check_access(st, p, sz, 'read')
        r = p.reg
        if r.kind == 'global':
            return self.contract.load_global(self, st, ty, p)
        c = st.mem[r]
        s = sort_of(ty)
        if isinstance(c, Cells):
            o = p.off.const()
            if o is not None:
                e = c.d.get(o)
                if e is not None and e[0] == sz:
                    v = e[1]
                    return self.cast(v, s)
                if e is not None and e[0] == 8 and sz == 4 and s == 'I' and isinstance(e[1], Poly):
                    return self.contract.trunc32(self, st, e[1])    # the low half
                for lo, n in c.zero:
                    if lo <= o and o + sz <= lo + n:
                        return self.zero(ty)
                for o2, (z, v, t) in c.d.items():
                    if o2 < o + sz and o < o2 + z:
                        raise Unsupported('partial read')
                return UNDEF
            c = self.to_array(st, r, ty, sz)
        if r.es is None:
            r.es, r.sort = sz, s
        if isinstance(c, LazyArr):
            c = st.mem[r] = Base('undef.' + r.name, r.sort)
        for l in st.nest:
            l.plan.reads.add(r.name)
        if r.es != sz or r.sort != s:
            raise Unsupported('element type of %s' % r.name)
        v = c.read(self.index(st, p, sz))
        return v

    def cast(self, v, s):
        if isinstance(v, Undef):
            return v
        if s == 'B' and isinstance(v, Poly):
            return self.tobool(v)
        if s == 'P' and not isinstance(v, (Ptr, FnP)):
            if isinstance(v, Poly) and v == ZERO:
                return NULL
            raise Unsupported('integer as pointer')
        if s in 'IR' and not isinstance(v, Poly):
            raise Unsupported('pointer read as number')
        return v

    def store(self, st, ty, v, p):
        sz = self.mod.size(ty)
        self.check_access(st, p, sz, 'write')
        r = p.reg
        if r.kind == 'global':
            raise Unsupported('write to global')
        if not r.rw:
            self.require(st, FALSE, 'input %s is not modified' % r.name)
        c = st.mem[r]
        s = sort_of(ty)
        if isinstance(c, Cells):
            o = p.off.const()
            if o is not None:
                d = dict(c.d)
                for o2 in [o2 for o2, e in d.items() if o2 < o + sz and o < o2 + e[0] and (o2, e[0]) != (o, sz)]:
                    if d[o2][0] >= sz and not isinstance(d[o2][1], Undef):
                        pass
                    del d[o2]
                zero = []
                for lo, n in c.zero:
                    if lo < o + sz and o < lo + n:
                        if lo < o:
                            zero.append((lo, o - lo))
                        if o + sz < lo + n:
                            zero.append((o + sz, lo + n - o - sz))
                    else:
                        zero.append((lo, n))
                if s == 'S':
                    raise Unsupported('aggregate store')
                d[o] = (sz, v, ty)
                st.mem[r] = Cells(d, tuple(zero))
                for l in st.nest:
                    l.touch_cell(r, o, sz, ty)
                return
            c = self.to_array(st, r, ty, sz)
        if isinstance(v, Undef):
            v = self.fresh_of(ty, fresh_name('undef.%s' % r.name))
        if r.es is None:
            r.es, r.sort = sz, s
        if isinstance(c, LazyArr):
            c = Base('undef.' + r.name, r.sort)
        if r.es != sz or r.sort != s:
            raise Unsupported('element type of %s' % r.name)
        if s not in 'IR':
            raise Unsupported('array of ' + s)
        ix = self.index(st, p, sz)
        st.mem[r] = Write(c, ix, v)
        for l in st.nest:
            l.touch_arr(r, ix)

    # ------------------------------------------------------------ calls
    def call(self, st, res, a):
        retty, callee, args = a
        name = self.callee(st, callee)
        if name is None:
            raise Unsupported('indirect call')
        if name.startswith('llvm.'):
            v = self.intrinsic(st, name, args)
        else:
            h = self.contract.hooks.get(name)
            if h is not None:
                vals = [self.val(st, t, x) for t, x in args]
                self.hooked[name] = self.hooked.get(name, 0) + 1
                n = len(st.pc)
                v = h(self, st, *vals)
                if v is None and len(st.pc) > n and not self.contract.hooks_assume:
                    # what a postcondition supposes about its own bound
                    # variables holds for that postcondition only
                    if self.final and not self.deep.get(name):
                        self.deep[name] = not prove(list(st.pc), FALSE, self.facts, st.alias, 2000, 1, memo=self.memo).ok
                    del st.pc[n:]
            elif name in self.mod.funcs and not self.is_trusted(name):
                raise Unsupported('call of %s (not inlined)' % name[:80])
            else:
                v = self.external(st, name, [self.val(st, t, x) for t, x in args], retty)
                if v in ('throw', 'stop'):
                    return v
        if res is not None:
            st.env[res] = v
        return None

    def external(self, st, name, vals, retty):
        if name in ('malloc', '_Znwm', '_Znam'):
            return self.malloc(st, vals[0])
        if name in ('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'):
            self.free(st, vals[0], name)
            return None
        if name == '__cxa_throw':
            return 'throw'
        if name in ('_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt19__throw_logic_errorPKc', '_ZSt9terminatev', '_ZSt25__throw_bad_function_callv', '__cxa_throw_bad_array_new_length'):
            return 'throw'
        if name in ('__cxa_allocate_exception',):
            self.note('building and throwing an exception object completes')
            return 'throw'
        if name == '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base':
            raise Unsupported(name)
        if '_Rb_tree' in name and '_M_erase' in name:
            self.note('std::map destructor')
            return None
        if name.startswith('_ZNSt13runtime_errorC') or name.startswith('_ZNSt11logic_errorC') or name.startswith('_ZNSt16invalid_argumentC') or 'runtime_errorD' in name:
            return None
        if name in ('sqrt', 'fabs'):
            return self.intrinsic(st, 'llvm.' + name + '.f64', None, vals)
        if name == '__gxx_personality_v0':
            return None
        raise Unsupported('external ' + name)

    def malloc(self, st, n):
        r = self.newreg(st, 'heap', 'heap', n)
        c = n.const()
        if c is not None and c > 0:
            st.mem[r] = Cells()
        else:
            st.mem[r] = None
        st.mem[r] = LazyArr() if c is None or c <= 1 else Cells()
        st.heap = st.heap + (r,)
        if r.es is not None:
            st.mem[r] = Base('undef.' + r.name, r.sort)
        self.note('malloc returns fresh memory or throws')
        return Ptr(r, 0)

    def free(self, st, p, name):
        if isinstance(p, Undef):
            self.require(st, FALSE, 'free of undefined pointer')
            return
        if p.reg is None:
            return
        r = p.reg
        if r.kind != 'heap':
            self.require(st, FALSE, 'free of memory that is not owned (%s)' % r.name)
            return
        if r in st.freed:
            self.require(st, FALSE, 'double free of %s' % r.name)
            return
        self.require(st, eq(p.off, 0), 'free of an interior pointer')
        self.require(st, TRUE, 'free of a live block, once')
        if self.final:
            self.ob('free of a live block, once', True, 0, 'trivial')
        st.freed = st.freed | {r}

    def intrinsic(self, st, name, args, vals=None):
        b = name.split('.')
        k = b[1]
        if k in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'prefetch', 'donothing'):
            return None
        if vals is None:
            vals = [self.val(st, t, x) for t, x in args]
        if k in ('umax', 'smax', 'umin', 'smin'):
            x, y = vals
            if k[0] == 'u':
                x, y = self.uval(x, 64), self.uval(y, 64)
            if k in ('umax', 'smax'):
                if y.const() is not None and nonneg(x) and y.const() <= 0:
                    return x
                h = self.known(st, le(y, x))
                return ite(le(y, x), x, y) if h is None else x if h else y
            h = self.known(st, le(x, y))
            return ite(le(x, y), x, y) if h is None else x if h else y
        if k == 'fabs':
            x = vals[0]
            return self.contract.fabs(x)
        if k in ('fmuladd', 'fma'):
            c = self.contract
            return c.farith('fadd', c.farith('fmul', vals[0], vals[1]), vals[2])
        if k == 'sqrt':
            return self.contract.sqrt(vals[0])
        if k == 'abs':
            return ite(le(0, vals[0]), vals[0], -vals[0])
        if k == 'memset':
            self.memset(st, vals[0], vals[1], vals[2])
            return None
        if k in ('memcpy', 'memmove'):
            self.memcpy(st, vals[0], vals[1], vals[2])
            return None
        if k in ('umul', 'uadd', 'usub') and b[2] == 'with':
            x, y = vals
            self.note('no 64 bit overflow in sizes')
            return [x * y if k == 'umul' else x + y if k == 'uadd' else x - y, FALSE]
        if k in ('expect',):
            return vals[0]
        if k == 'is' and b[2] == 'constant':
            return FALSE    # no effect: both answers are allowed
        if k == 'abs' and isinstance(vals[0], Poly):
            return ite(ge(vals[0], 0), vals[0], -vals[0], 'I')
        if k == 'usub' and b[2] == 'sat':
            x, y = vals
            return ite(le(y, x), x - y, ZERO)
        if k in ('maxnum', 'minnum'):
            x, y = vals
            return ite(rle(y, x), x, y, 'R') if k == 'maxnum' else ite(rle(x, y), x, y, 'R')
        raise Unsupported('intrinsic ' + name)

    def memset(self, st, p, v, n):
        if n.const() == 0:
            return
        self.mem_range(st, p, n, 'write')
        r = p.reg
        c = st.mem[r]
        if v.const() != 0:
            raise Unsupported('memset with a value')
        if isinstance(c, Cells):
            o, k = p.off.const(), n.const()
            if o is not None and k is not None:
                d = {x: e for x, e in c.d.items() if not (x < o + k and o < x + e[0])}
                st.mem[r] = Cells(d, c.zero + ((o, k),))
                if st.nest:
                    for l in st.nest:
                        for x in range(o, o + k, 8):
                            pass
                    raise Unsupported('memset of an object in a loop')
                return
            raise Unsupported('memset of an object with symbolic size')
        if isinstance(c, LazyArr):
            # element type unknown yet: assume 8 byte elements of the recorded kind
            if r.es is None:
                r.es, r.sort = self.contract.elem_of(self, r)
            c = Base('undef.' + r.name, r.sort)
        lo, k = p.off.div_const(r.es), n.div_const(r.es)
        if lo is None or k is None:
            raise Unsupported('memset size')
        st.mem[r] = MapR(c, lo, ONE, k, None, ZERO)
        for l in st.nest:
            l.touch_arr(r, None)

    def mem_range(self, st, p, n, what):
        """require [p, p+n) to be valid unless n == 0"""
        if not isinstance(p, Ptr):
            raise Unsupported('memory operation on %r' % (p,))
        r = p.reg
        if r is None:
            self.require(st, eq(n, 0), '%s of a block through null pointer' % what)
            if n.const() is None:
                st.pc.append(eq(n, 0))
            raise SkipMem()
        if r in st.freed:
            self.require(st, eq(n, 0), '%s after free' % what)
        if r.kind != 'global' and r.size is not None:
            self.require(st, disj(eq(n, 0), conj(le(0, p.off), le(p.off + n, r.size))), 'block %s in bounds of %s' % (what, r.name.split('#')[0].split('/')[0]))
        if what == 'write' and not r.rw:
            self.require(st, eq(n, 0), 'input %s is not modified' % r.name)

    def memcpy(self, st, d, s, n):
        if n.const() == 0:
            return
        try:
            self.mem_range(st, s, n, 'read')
            self.mem_range(st, d, n, 'write')
        except SkipMem:
            return
        if s.reg.kind == 'global':
            raise Unsupported('memcpy from global')
        cs, cd = st.mem[s.reg], st.mem[d.reg]
        if isinstance(cs, Cells) and isinstance(cd, Cells):
            so, do, k = s.off.const(), d.off.const(), n.const()
            if None in (so, do, k):
                raise Unsupported('memcpy of objects')
            dd = {x: e for x, e in cd.d.items() if not (x < do + k and do < x + e[0])}
            for x, e in cs.d.items():
                if so <= x and x + e[0] <= so + k:
                    dd[x - so + do] = e
                    for l in st.nest:
                        l.touch_cell(d.reg, x - so + do, e[0], e[2])
            zero = tuple((lo - so + do, kk) for lo, kk in cs.zero if so <= lo and lo + kk <= so + k)
            st.mem[d.reg] = Cells(dd, cd.zero + zero)
            return
        if isinstance(cs, Cells):
            es = d.reg.es or self.contract.elem_of(self, d.reg)[0]
            ty = self.elem_ty(d.reg.sort or 'R', es)
            cs = self.to_array(st, s.reg, ty, es)
        if isinstance(cs, LazyArr):
            cs = Base('undef.' + s.reg.name, s.reg.sort or 'R')
        if s.reg.es is None:
            s.reg.es, s.reg.sort = d.reg.es or 8, d.reg.sort or 'R'
        if isinstance(cd, Cells):
            cd = self.to_array(st, d.reg, self.elem_ty(s.reg.sort, s.reg.es), s.reg.es)
        if isinstance(cd, LazyArr):
            d.reg.es, d.reg.sort = s.reg.es, s.reg.sort
            cd = Base('undef.' + d.reg.name, d.reg.sort)
        es = s.reg.es
        if d.reg.es != es:
            raise Unsupported('memcpy between element sizes')
        so, do, k = s.off.div_const(es), d.off.div_const(es), n.div_const(es)
        if None in (so, do, k):
            raise Unsupported('memcpy alignment')
        st.mem[d.reg] = CopyR(cd, do, k, cs, so)
        for l in st.nest:
            l.touch_arr(d.reg, None)

    def elem_ty(self, sort, es):
        from .llir import Ty, ity
        if sort == 'R':
            return Ty('double' if es == 8 else 'float')
        return ity(es * 8)

    # ------------------------------------------------------------ loops
    from .loops import handle_loop, enter_loop

    def names_after(self):
        """values that may be used after the current instruction"""
        fn, blk, ix = self.here
        out, seen, work = set(), {blk: False}, [(blk, ix)]

        def walk(x):
            if isinstance(x, str):
                if x in fn.blocks:
                    if not seen.get(x):
                        seen[x] = True
                        work.append((x, 0))
                elif x.startswith('%'):
                    out.add(x)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(y)
        while work:
            b, n = work.pop()
            for i in fn.blocks[b][n:]:
                walk(i.a)
        return out

    def merge(self, st, keep, content, summary):
        """a point all paths go through: what is known is reduced to the first
        keep facts and the summary (which holds here); regions in content get
        a content of which only the summary is known. A path that arrives in
        a state that another one had is not followed further"""
        if st.nest:
            raise Unsupported('merge inside a loop')
        use = self.names_after()
        st.env = {k: v for k, v in st.env.items() if k in use}
        st.pc = st.pc[:keep]
        st.alias = {}
        st.user = {k: v for k, v in st.user.items() if not (isinstance(k, tuple) and ('#' in k[1] or not k[1].endswith('@') and '@' in k[1]))}
        for r in content:
            st.mem[r] = None
        sig = repr((self.here[1:], sorted(st.env.items()), sorted(((r.name, self.sig(c)) for r, c in st.mem.items())), st.pc, sorted(r.name for r in st.freed),
                    [r.name for r in st.heap], sorted(((repr(k), repr(v)) for k, v in st.user.items()))))
        n = self.ctxid(sig)
        for r in content:
            st.mem[r] = Base('%s at %s' % (r.name, n), r.sort, r.nonneg)
        if sig in self.merged:
            raise Infeasible()
        self.merged.add(sig)
        summary()

    def sig(self, c):
        if c is None or isinstance(c, LazyArr):
            return repr(type(c))
        if isinstance(c, Cells):
            return repr((sorted(c.d.items()), c.zero))
        if isinstance(c, Base):
            return (type(c).__name__, c.name)
        if isinstance(c, Write):
            return ('write', repr(c.idx), repr(c.val), self.sig(c.prev))
        if isinstance(c, MapR):
            return ('map', repr(c.lo), repr(c.step), repr(c.n), repr(c.tv), repr(c.val), self.sig(c.prev))
        if isinstance(c, CopyR):
            return ('copy', repr(c.lo), repr(c.n), repr(c.slo), self.sig(c.prev), self.sig(c.src))
        raise Unsupported('content of a merged state')

    def drop(self, plan, name):
        """give a candidate up - only once the shape of all loops is settled"""
        if self.allow_drop:
            # a dropped array claim has a weaker replacement that later loops may need
            if self.waiting not in (None, plan.root):
                return
            if ' of ' in name and not name.endswith('so far'):
                self.waiting = plan.root
            plan.dropped.add(name)
            self.changed.append('drop ' + name)

    def changed_in(self, ctx):
        return False


def equate(st, cond):
    """two input variables found equal: use one name in all later queries"""
    if cond.op != 'eq0' or len(cond.a[0].c) != 2:
        return
    (m1, k1), (m2, k2) = cond.a[0].c.items()
    if len(m1) != 1 or len(m2) != 1 or k1 != -k2 or abs(k1) != 1:
        return
    a, b = m1[0], m2[0]
    if any(x.op != 'var' or '@' in x.a[0] or '#' in x.a[0] or x in st.alias for x in (a, b)):
        return
    if b.nonneg and not a.nonneg:
        a, b = b, a
    if a.a[0] < b.a[0]:
        a, b = b, a
    if a.nonneg and not b.nonneg:
        return
    st.alias = {x: subst(y, {a: P(b)}) for x, y in st.alias.items()}
    st.alias[a] = P(b)


class SkipMem(Exception):
    pass


class LazyArr:
    """freshly allocated memory whose element type is not known yet"""
    sort = None

    def read(self, idx):
        raise Unsupported('read of fresh memory')

    def sub(self, m, memo):
        return self


def fpval(x):
    from fractions import Fraction
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    import math
    if math.isinf(x) or math.isnan(x):
        raise Unsupported('non-finite constant')
    return Fraction(x)
