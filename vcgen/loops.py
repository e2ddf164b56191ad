"""Loop handling: counters, bounds, array invariants (mixed into Exec)."""
from .terms import *


class View:
    """a point of a loop (entry, header or latch) as seen by an invariant"""

    def __init__(self, ctx, st, t, cs, slots, content):
        self.ctx, self.st, self.t, self.cs, self.slots, self.content = ctx, st, t, cs, slots, content

    def ts(self):
        """counters of the whole nest, outermost first"""
        return [l.t for l in self.ctx.outer] + [self.t]

    def read(self, reg, idx):
        return self.content[reg].read(idx)


class Ctx:
    def __init__(self, plan, hdr, key_id, t, outer):
        self.plan, self.hdr, self.key_id, self.t, self.outer = plan, hdr, key_id, t, outer
        self.owned = set()
        self.mod_cells = {}
        self.mod_arrs = {}
        self.entry_regs = set()
        self.start = {}
        self.cs = {}
        self.bound = plan.bound
        self.syms = {}
        self.mid = None
        self.rt = None

    def own(self, name):
        self.owned.add(name)
        for l in self.outer:
            l.owned.add(name)

    def touch_cell(self, r, o, sz, ty):
        if r in self.entry_regs:
            self.mod_cells[(r.name, o)] = (sz, ty, r)

    def touch_arr(self, r, ix):
        if r in self.entry_regs:
            self.mod_arrs[r.name] = r

    def local(self, x):
        """does x mention anything that changes inside the loop?"""
        seen = set()
        stack = [x]
        while stack:
            y = stack.pop()
            if isinstance(y, Poly):
                stack.extend(y.atoms())
            elif isinstance(y, T):
                if y in seen:
                    continue
                seen.add(y)
                if y.op in ('var', 'app', 'bapp', 'bvar'):
                    n = y.a[0]
                    if n in self.owned or '#' in n and self.key_id in n:
                        return True
                stack.extend(z for z in y.a if isinstance(z, (Poly, T)))
        return False


def sort_of(ty):
    if ty.k in ('double', 'float'):
        return 'R'
    if ty.k == 'int':
        return 'B' if ty.a == 1 else 'I'
    if ty.k == 'ptr':
        return 'P'
    return 'S'


def add(v, d):
    from .exec import Ptr
    if isinstance(v, Ptr):
        return Ptr(v.reg, v.off + d)
    return v + d


def diff(a, b):
    """a - b or None"""
    from .exec import Ptr, FnP, Undef
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.off - b.off if a.reg is b.reg else None
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a - b
    return None


def handle_loop(self, st, fn, cfg, hdr, prev):
    from .exec import Plan, Unsupported, Ptr
    # values at entry
    start = {}
    types = {}
    for i in fn.blocks[hdr]:
        if i.op != 'phi':
            break
        ty, inc = i.a
        for v, b in inc:
            if b == prev:
                start[i.res] = self.val(st, ty, v)
                types[i.res] = ty
                break
    nk = '.'.join(l.key_id for l in st.nest)
    kid = self.ctxid('%s|%s|%s|%s' % (fn.name, hdr, nk, st.dec))
    key = kid
    plan = self.plans.get(key)
    if plan is None:
        plan = self.plans[key] = Plan(key)
        plan.hdr = hdr
        plan.stable = False
        plan.root = st.nest[0].plan.root if st.nest else key
        plan.arrays = {}
        plan.map = {}
        plan.nomap = set()
        plan.q = None
        plan.bkind = None
        plan.bad = set()
        self.changed.append('new loop')
        self.allow_drop = False
    elif self.allow_drop and not plan.stable:
        # on a path that was not there when the shapes of the others were found
        self.changed.append('loop seen again')
        self.allow_drop = False
    self.seen.add(key)
    # a step that may be zero is split off
    if plan.q is not None and plan.q.const() is None and plan.q not in plan.bad:
        z = eq(plan.q, 0)
        if self.known(st, z) is None:
            r = self.branch(st, z)
            if len(r) == 2:
                out = []
                for _, s in r:
                    out += enter_loop(self, s, fn, cfg, hdr, prev, dict(start), types)
                return out
            st = r[0][1]
    return enter_loop(self, st, fn, cfg, hdr, prev, start, types, plan, kid)


def enter_loop(self, st, fn, cfg, hdr, prev, start, types, plan=None, kid=None):
    if plan is None:
        return handle_loop(self, st, fn, cfg, hdr, prev)
    from .exec import Ptr, Unsupported, LazyArr, Cells, Base, MapR, Write, UNDEF, Undef, Infeasible
    t = ivar('t@' + kid, True)
    ctx = Ctx(plan, hdr, kid, t, st.nest)
    ctx.own('t@' + kid)
    ctx.entry_regs = set(st.mem)
    ctx.fn, ctx.cfg = fn, cfg
    regs = {r.name: r for r in st.mem}
    # drop cells/arrays that do not exist on this path
    cells = {k: v for k, v in plan.cells.items() if k[0] in regs}
    for (rn, o), (sz, ty) in cells.items():
        c = st.mem[regs[rn]]
        if not isinstance(c, Cells):
            continue
        e = c.d.get(o)
        if e is not None and e[0] == sz:
            v = e[1]
        elif any(lo <= o and o + sz <= lo + n for lo, n in c.zero):
            v = self.zero(ty)
        else:
            v = UNDEF
        start[(rn, o)] = v
        types[(rn, o)] = ty
    for rn, (es, s) in plan.arrays.items():
        r = regs.get(rn)
        if r is None:
            continue
        c = st.mem[r]
        if isinstance(c, LazyArr):
            r.es, r.sort = es, s
            st.mem[r] = Base('undef.' + rn, s)
        elif isinstance(c, Cells):
            self.to_array(st, r, self.elem_ty(s, es), es)
    entry = st
    hs = st.copy()
    hs.nest = st.nest + (ctx,)
    ctx.start, ctx.types = start, types
    vals = {}
    for k, v0 in start.items():
        c = plan.cls.get(k)
        if isinstance(v0, Undef):
            c = ('sym', 0)
        if c is None or c[0] == 'sym':
            nm = '%s@%s' % (k if isinstance(k, str) else '%s+%d' % k, kid)
            ctx.own(nm)
            ty = types[k]
            if sort_of(ty) == 'P':
                if isinstance(v0, Ptr):
                    es = v0.reg.es if v0.reg is not None and v0.reg.es else self.guess_es(fn, k) if isinstance(k, str) else 8
                    vals[k] = Ptr(v0.reg, ivar(nm) * es)
                    ctx.own(nm)
                elif isinstance(v0, Undef):
                    vals[k] = v0
                else:
                    raise Unsupported('pointer loop variable')
            else:
                vals[k] = self.fresh_of(ty, nm)
                if plan.cls.get(k) and len(plan.cls[k]) > 2 and plan.cls[k][2]:
                    next(iter(vals[k].atoms())).nonneg = True
        elif c[0] == 'lin':
            vals[k] = add(v0, c[1] * (P(mk('i2r', 'R', t)) if sort_of(types[k]) == 'R' else t))
        elif c[0] == 'cond':
            g = c[2]
            nm = 'c%s@%s' % (g, kid)
            if g not in ctx.cs:
                ctx.own(nm)
                ctx.cs[g] = ivar(nm, True)
                hs.pc.append(le(ctx.cs[g], t))
            vals[k] = add(v0, c[1] * ctx.cs[g])
        elif c[0] == 'const':
            vals[k] = v0
    ctx.vals = vals
    for k, v in vals.items():
        if isinstance(k, str):
            hs.env[k] = v
        else:
            r = regs[k[0]]
            c = hs.mem[r]
            d = dict(c.d)
            ty = types[k]
            d[k[1]] = (self.mod.size(ty), v, ty)
            zero = tuple(z for z in c.zero)
            hs.mem[r] = Cells(d, zero)
    arrs = {}
    for rn, (es, s) in plan.arrays.items():
        r = regs.get(rn)
        if r is None:
            continue
        if rn in plan.map:
            lo, step, val = plan.map[rn]
            tv = next(iter(t.atoms()))
            hs.mem[r] = MapR(st.mem[r], lo, step, t, tv, val)
        else:
            nm = 'h.%s@%s' % (rn, kid)
            ctx.own(nm)
            hs.mem[r] = Base(nm, s, r.nonneg)
        arrs[r] = True
    ctx.arrs = list(arrs)
    # bounds
    bounded = False
    if plan.bound is not None:
        ctx.bound = plan.bound
        inv = le(t, plan.bound)
        if 'bound' not in plan.dropped:
            ok, status, secs = self.prove(st, le(0, plan.bound))
            if ok:
                hs.pc.append(inv)
                bounded = True
                if self.final:
                    self.ob('loop %s: bound holds initially' % label(ctx), True, secs, status)
            else:
                if self.verbose and self.verbose > "1":
                    print('   drop(entry)', label(ctx), 'bound', plan.bound)
                self.drop(plan, 'bound')
    # contract invariants
    ctx.bounded = bounded
    h_view = View(ctx, hs, t, dict(ctx.cs), vals, hs.mem)
    e_view = View(ctx, st, ZERO, {g: ZERO for g in ctx.cs}, start, st.mem)
    cands = []
    for inv in self.contract.invariants(self, st, ctx):
        if inv.name in plan.dropped:
            continue
        try:
            g = inv.goal(self, e_view)
        except Unsupported:
            self.drop(plan, inv.name)
            continue
        ok, status, secs = (True, 'trivial', 0) if g is TRUE else self.prove(st, g)
        if not ok:
            if self.verbose and self.verbose > "1":
                print('   drop(entry)', label(ctx), inv.name, status, repr(g)[:3000])
            self.drop(plan, inv.name)
            continue
        if self.final:
            self.ob('loop %s: %s holds initially' % (label(ctx), inv.name), ok, secs, status)
        cands.append(inv)
    for inv in cands:
        inv.assume(self, hs, h_view)
    if 'bound' not in plan.dropped and not bounded:
        pass
    # run the body
    mark = 'mark' + kid
    n0 = len(hs.pc)
    hmem = dict(hs.mem)
    outs = self.region(hs, fn, cfg, hdr, mark, (hdr, mark))
    latches = [(s, pb) for k, s, b, pb in outs if k == 'latch']
    exits = [(x, b, pb) for k, s, b, pb in outs if k == 'exit' for x in ways_out(self, ctx, s, n0)]
    for k, s, b, pb in outs:
        if k in ('ret', 'throw'):
            if k == 'throw':
                self.throws += 1
            else:
                raise Unsupported('return inside a loop')
    # modified memory
    for (rn, o), (sz, ty, r) in ctx.mod_cells.items():
        if (rn, o) not in plan.cells:
            plan.cells[(rn, o)] = (sz, ty)
            self.changed.append('cell')
    for rn, r in ctx.mod_arrs.items():
        if rn not in plan.arrays:
            plan.arrays[rn] = (r.es, r.sort)
            self.changed.append('array')
    stable = not self.changed_in(ctx)
    # latch values
    lat = []
    for s, pb in latches:
        nv = {}
        for i in fn.blocks[hdr]:
            if i.op != 'phi':
                break
            ty, inc = i.a
            for v, b in inc:
                if b == pb:
                    nv[i.res] = self.val(s, ty, v)
        for (rn, o), (sz, ty) in cells.items():
            c = s.mem.get(regs[rn])
            if isinstance(c, Cells):
                e = c.d.get(o)
                nv[(rn, o)] = e[1] if e else UNDEF
        lat.append((s, nv))
    classify(self, ctx, plan, lat, start, vals)
    # loop variables keep their form
    incs = []
    for s, nv in lat:
        inc = {}
        for k in start:
            c = plan.cls.get(k)
            if c is not None and c[0] == 'cond' and k in nv:
                d = diff(nv[k], vals[k])
                if d is not None:
                    if d == ZERO:
                        e = 0
                    elif d == c[1]:
                        e = 1
                    else:
                        e = None
                    if c[2] in inc and inc[c[2]] != e:
                        e = None
                    inc[c[2]] = e
        incs.append(inc)
    measures = []
    for (s, nv), inc in zip(lat, incs):
        cs2 = {g: ctx.cs[g] + (inc.get(g) or 0) for g in ctx.cs}
        v = View(ctx, s, t + 1, cs2, nv, s.mem)
        if bounded:
            ok, status, secs = self.prove(s, le(t + 1, plan.bound))
            if not ok:
                if self.verbose and self.verbose > "1":
                    print('   drop(latch)', label(ctx), 'bound', plan.bound)
                self.drop(plan, 'bound')
            elif self.final:
                self.ob('loop %s: bound is preserved' % label(ctx), True, secs, status)
                self.ob('loop %s: terminates (bound - counter decreases)' % label(ctx), True, 0, 'trivial')
        elif self.final:
            vr = [i.variant for i in cands if i.name not in plan.dropped and getattr(i, 'variant', None)]
            if vr:
                measures.append((s, v, vr))
            else:
                self.endless.add('%d of %s' % (cfg.num[hdr], self.contract.entry or fn.name))
        # before the shape of all loops is settled nothing is given up
        for inv in cands if self.allow_drop or self.final else ():
            if inv.name in plan.dropped:
                continue
            try:
                g = inv.goal(self, v)
                ok, status, secs = (True, 'trivial', 0) if g is TRUE else self.prove(s, g)
                if not ok and inv.hard:
                    ok, status, secs = self.prove(s, g, rounds=3)
            except Unsupported as e:
                ok, status, secs = False, str(e), 0
            if not ok:
                if self.verbose and self.verbose > "1":
                    print('   drop(latch)', label(ctx), inv.name, status, repr(g)[:3000])
                import os
                if os.environ.get('VC_DUMP'):
                    from .solve import prove
                    prove(list(s.pc), g, self.facts, s.alias, 3000, 2, dump='/tmp/latch_%s.smt2' % inv.name.replace('/', '_').replace(' ', '_'))
                self.drop(plan, inv.name)
            elif self.final:
                self.ob('loop %s: %s is preserved' % (label(ctx), inv.name), ok, secs, status)
        # automatic maps
        tv = next(iter(t.atoms()))
        for r in ctx.arrs:
            rn = r.name
            c = s.mem[r]
            if rn in plan.map:
                lo, step, val = plan.map[rn]
                good = len(lat) == 1 and isinstance(c, Write) and c.prev is hmem[r] and \
                    c.idx == lo + step * t and c.val == val
                if not good:
                    del plan.map[rn]
                    plan.nomap.add(rn)
                    self.changed.append('map lost')
                elif self.final:
                    self.ob('loop %s: map invariant of %s is preserved' % (label(ctx), rn.split('#')[0].split('/')[0]), True, 0, 'syntactic')
            elif self.contract.maps and rn not in plan.nomap and len(lat) == 1 and isinstance(c, Write) and c.prev is hmem[r]:
                q, rest = c.idx.split(tv)
                hn = 'h.%s@%s' % (rn, ctx.key_id)
                if q == ONE and not ctx.local(rest):
                    # replace reads of the own cell by the value at entry
                    ent = st.mem[r].read(c.idx)
                    own = app(hn, c.sort, c.idx)
                    a0 = next(iter(own.atoms()))
                    val = subst(c.val, {a0: ent})
                    names = set()
                    for ap in atoms_of(val):
                        if ap.op == 'app' and ap.a[0] == hn:
                            names.add(ap)
                    other = [n for n in atoms_of(val) if n.op in ('var', 'app') and n is not tv and n.a[0] in ctx.owned]
                    if not names and not other:
                        plan.map[rn] = (rest, ONE, val)
                        self.changed.append('map')
                    else:
                        plan.nomap_try = True
    # one measure that decreases in every round
    last = None
    for f in measures[0][2] if measures else ():
        last = []
        for s, v, _ in measures:
            try:
                before, after = f(h_view), f(v)
            except Unsupported:
                break
            last.append(self.prove(s, conj(ge(after, 0), lt(after, before))))
            if not last[-1][0]:
                break
        else:
            break
    for ok, status, secs in last or ():
        self.ob('loop %s: terminates (variant decreases)' % label(ctx), ok, secs, status)
    if measures and not last:
        self.ob('loop %s: terminates (variant decreases)' % label(ctx), False, 0, 'no value')
    # exits
    res = []
    for s, b, pb in exits:
        if not latches:
            # the body is never completed: the loop is left in its first round
            alias = {next(iter(t.atoms())): ZERO}
        else:
            alias = find_bound(self, ctx, plan, s, pb, hdr, bounded, n0)
            if not alias and ctx.mid is None and pb != hdr and plan.bkind is None:
                ctx.mid = mid_bound(ctx, s, n0)
        if alias is False:
            continue
        s.nest = st.nest
        if alias:
            exit_state(self, entry, s, alias)
        s.dec = s.dec if len(exits) > 1 else st.dec
        res.append((s, b, pb))
    if plan.bkind is None and ctx.mid is not None:
        plan.bound, plan.q, plan.bkind = *ctx.mid, 'mid'
        self.changed.append('bound found')
    return res


def mid_bound(ctx, s, n0):
    """(n, q) with counter >= n on an exit from within the body"""
    tv = next(iter(ctx.t.atoms()))
    for f in s.pc[n0:]:
        if f.op != 'le0' or not any(tv in m for m in f.a[0].c):
            continue
        q, r = f.a[0].split(tv)
        if tv in q.atoms() or any(tv in m for m in r.c) or ctx.local(r) or q.const() is None or q.const() >= 0:
            continue
        n = r.div_const(-q.const())
        if n is not None:
            return n, q


def ways_out(self, ctx, s, n0):
    """one state for every reason why the loop is left"""
    from .exec import equate
    tv = next(iter(ctx.t.atoms()))
    for n in range(n0, len(s.pc)):
        ways = cases(s.pc[n])
        if not 1 < len(ways) <= 4 or not any(g.op in ('eq0', 'le0') and tv in g.a[0].atoms() for w in ways for g in w):
            continue
        out = []
        for w in ways:
            x = s.copy()
            del x.pc[n]
            if self.feasible(x, conj(*w)):
                for g in w:
                    x.pc.append(g)
                    equate(x, g)
                out.append(x)
        return out
    return [s]


def cases(f, yes=True):
    """disjunctive normal form"""
    if f.op == 'not':
        return cases(f.a[0], not yes)
    if f.op not in ('and', 'or'):
        return [[f if yes else neg(f)]]
    parts = [cases(g, yes) for g in f.a]
    if (f.op == 'or') == yes:
        return [w for p in parts for w in p]
    out = [[]]
    for p in parts:
        out = [w + v for w in out for v in p]
        if len(out) > 64:
            return [[f if yes else neg(f)]]
    return out


def label(ctx):
    return 'L%d' % (ctx.cfg.num[ctx.hdr],)


def find_bound(self, ctx, plan, s, pb, hdr, bounded, n0):
    """solve the exit condition for the counter"""
    if pb != hdr and len(s.pc) == n0:
        return None
    t = ctx.t
    tv = next(iter(t.atoms()))
    new = s.pc[n0:]
    if pb != hdr:
        # leaving from another block of a single-path loop body (bottom test): handled by the invariants
        pass
    for f in new:
        if f.op in ('eq0', 'le0'):
            p = f.a[0]
            if tv not in p.atoms() or not any(tv in m for m in p.c):
                continue
            q, r = p.split(tv)
            if tv in q.atoms() or any(tv in m for m in r.c) or ctx.local(r) or ctx.local(q):
                continue
            n = None
            if f.op == 'eq0':
                n = (-r).div_poly(q) if q.c else None
                kind = 'eq'
            else:
                qc = q.const()
                if qc is not None and qc < 0:
                    n = r.div_const(-qc)
                    kind = 'ge'
                elif qc is not None:
                    continue
            if n is None:
                continue
            if pb == hdr:
                if plan.bound != n and plan.bkind is None:
                    plan.bound, plan.q, plan.bkind = n, q, kind
                    self.changed.append('bound found')
                elif plan.bound != n and 'bound' in plan.dropped and self.allow_drop and kind == plan.bkind and plan.retries < 2:
                    # the dropped bound was read off a coarser state of the memory
                    plan.retries += 1
                    plan.dropped.discard('bound')
                    plan.bound, plan.q = n, q
                    self.changed.append('bound found')
                if plan.bound == n:
                    if kind == 'eq' and (q.const() is not None or self.known(s, eq(q, 0)) is False):
                        s.pc.append(eq(t, n))
                        return {tv: n}
                    if kind == 'ge' and bounded:
                        s.pc.append(eq(t, n))
                        return {tv: n}
            elif kind == 'ge' and plan.bkind == 'mid':
                if plan.bound == n and bounded:
                    s.pc.append(eq(t, n))
                    return {tv: n}
            elif kind == 'eq' and q.const() is not None:
                # bottom tested loop: t = n on this exit
                if plan.bkind is None:
                    plan.bound, plan.q, plan.bkind = n, q, 'bottom'
                    self.changed.append('bound found')
                s.pc.append(eq(t, n))
                return {tv: n}
    return None


def exit_state(self, entry, s, alias):
    memo = {}
    for k, v in list(s.env.items()):
        if entry.env.get(k) is v:
            continue
        s.env[k] = subval(v, alias, memo)
    for r, c in list(s.mem.items()):
        if entry.mem.get(r) is c:
            continue
        s.mem[r] = subcontent(c, alias, memo)
    s.alias.update(alias)
    n = len(entry.pc)
    s.pc = s.pc[:n] + [f for f in (subst(f, alias, memo) for f in s.pc[n:]) if f is not TRUE]


def subval(v, alias, memo):
    from .exec import Ptr
    if isinstance(v, (Poly, T)):
        return subst(v, alias, memo)
    if isinstance(v, Ptr):
        return Ptr(v.reg, subst(v.off, alias, memo))
    if isinstance(v, list):
        return [subval(x, alias, memo) for x in v]
    return v


def subcontent(c, alias, memo):
    from .exec import Cells
    if isinstance(c, Cells):
        return Cells({o: (z, subval(v, alias, memo), ty) for o, (z, v, ty) in c.d.items()}, c.zero)
    return c.sub(alias, memo)


def classify(self, ctx, plan, lat, start, vals):
    from .exec import Ptr, Undef
    if not lat:
        for k in start:
            if plan.cls.get(k) is None:
                plan.cls[k] = ('const',)
                self.changed.append('const')
        return
    t = ctx.t
    for k in start:
        c = plan.cls.get(k)
        news = [nv.get(k) for _, nv in lat]
        if c is not None and c[0] == 'lin':
            good = True
            for (s, nv) in lat:
                d = diff(nv[k], vals[k])
                if d is None:
                    good = False
                elif d != c[1]:
                    ok, _, _ = self.prove(s, eq(d, c[1]))
                    good = good and ok
            if good:
                continue
            n = plan.tries.get(k, 0) + 1
            plan.tries[k] = n
            plan.cls[k] = ('sym', n)
            self.changed.append('step of %s' % (k,))
            if n <= 3:
                plan.cls.pop(k)
            continue
        if c is not None and c[0] == 'const':
            if not all(x == vals[k] for x in news):
                n = plan.tries.get(k, 0) + 1
                plan.tries[k] = n
                plan.cls[k] = ('sym', 9)
                if n <= 3:
                    plan.cls.pop(k)
                self.changed.append('const lost')
            continue
        if c is not None and c[0] == 'cond':
            good = True
            for (s, nv) in lat:
                d = diff(nv[k], vals[k])
                if d is None or d not in (ZERO, c[1]):
                    good = False
            if good:
                sig = ''.join('0' if diff(nv[k], vals[k]) == ZERO else '1' for _, nv in lat)
                if sig != c[2]:
                    good = False
            if not good:
                n = plan.tries.get(k, 0) + 1
                plan.tries[k] = n
                plan.cls[k] = ('sym', n)
                if n <= 3:
                    plan.cls.pop(k)
                self.changed.append('cond of %s' % (k,))
            continue
        if c is not None and c[0] == 'sym':
            continue
        # first classification
        ds = [diff(x, vals[k]) if x is not None else None for x in news]
        if isinstance(start[k], Undef) or any(isinstance(x, Undef) for x in news):
            plan.cls[k] = ('sym', 9)
            self.changed.append('sym')
            continue
        if any(d is None for d in ds):
            if all(x == vals[k] for x in news):
                plan.cls[k] = ('const',)
            else:
                plan.cls[k] = ('sym', 9)
            self.changed.append('cls')
            continue
        if isinstance(vals[k], T):
            plan.cls[k] = ('sym', 9)
            continue
        isreal = sort_of(ctx.types[k]) == 'R'
        if all(d == ZERO for d in ds):
            plan.cls[k] = ('const',)
        elif isreal and all(d == ds[0] for d in ds) and ds[0].const() is not None:
            plan.cls[k] = ('lin', ds[0])
        elif isreal:
            plan.cls[k] = ('sym', 9)
        elif all(d == ds[0] for d in ds) and not ctx.local(ds[0]):
            plan.cls[k] = ('lin', ds[0])
        else:
            u = [d for d in ds if d != ZERO]
            if all(d == u[0] for d in u) and not ctx.local(u[0]):
                sig = ''.join('0' if d == ZERO else '1' for d in ds)
                plan.cls[k] = ('cond', u[0], sig)
            else:
                n = plan.tries.get(k, 0) + 1
                plan.tries[k] = n
                if n >= 4 or self.contract.hasty:
                    plan.cls[k] = ('sym', 9)
        self.changed.append('class of %s' % (k,))


check_latch = header_state = None
