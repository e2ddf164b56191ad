"""Reader for the subset of textual LLVM 18 IR that clang emits for this project.

Only what the verifier needs: type layout, globals, functions -> basic blocks
-> instructions (as small Python objects with already parsed operands)."""
import re, struct

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_.][a-zA-Z0-9_.]*)
 | (?P<p>[(){}\[\]<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('cannot tokenize: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append(m.group())
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k == 'arr':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'named':
            return self.a
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.a))
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')
F64 = Ty('double')
F32 = Ty('float')


def ity(n):
    return Ty('int', n)


PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'elementtype',
                     'preallocated', 'inalloca', 'byref', 'nofpclass', 'memory', 'range', 'allocsize', 'captures'}
SIMPLE_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext',
                'zeroext', 'inreg', 'returned', 'nest', 'immarg', 'swiftself', 'writable', 'dead_on_unwind',
                'allocptr', 'allocalign', 'initializes', 'nofree', 'inrange', 'noext', 'swifterror'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
        'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
        'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'fastcc', 'ccc', 'coldcc',
        'tailcc', 'noundef', 'zeroext', 'signext', 'noalias', 'nonnull'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.next() != x:
            raise IRError('expected %s at %s' % (x, ' '.join(self.t[max(0, self.i - 8):self.i + 5])))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def skip_attrs(self):
        while True:
            v = self.peek()
            if v in SIMPLE_ATTRS:
                self.i += 1
                if self.peek() == '(':
                    self.skip_paren()
            elif v in PARAM_ATTRS_PAREN:
                self.i += 1
                if self.peek() == '(':
                    self.skip_paren()
                elif v == 'align':
                    self.i += 1
            elif v is not None and v.startswith('"'):
                self.i += 1
                if self.eat('='):
                    self.i += 1
            else:
                return

    def type(self):
        v = self.next()
        if v == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.skip_paren()
        elif v == 'void':
            t = VOID
        elif v == 'double':
            t = F64
        elif v == 'float':
            t = F32
        elif re.fullmatch(r'i[0-9]+', v):
            t = ity(int(v[1:]))
        elif v == '{':
            el = []
            while not self.eat('}'):
                el.append(self.type())
                self.eat(',')
            t = Ty('struct', el)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                el = []
                while not self.eat('}'):
                    el.append(self.type())
                    self.eat(',')
                self.expect('>')
                t = Ty('pstruct', el)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = Ty('vec', n, e)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('arr', n, e)
        elif v[0] == '%':
            t = Ty('named', v)
        elif v in ('metadata', 'token', 'opaque', 'half', 'x86_fp80', 'fp128', 'label'):
            t = Ty(v)
        else:
            raise IRError('type? ' + v)
        if self.peek() == '(':     # function type
            self.skip_paren()
            t = Ty('fn', t)
        return t

    def value(self, ty):
        """operand of known type -> tuple describing the value"""
        v = self.next()
        if v[0] == '%':
            return ('loc', v)
        if v[0] == '@':
            return ('glob', v)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef', ty)
        if v == 'true':
            return ('bool', True)
        if v == 'false':
            return ('bool', False)
        if v == 'zeroinitializer':
            return ('zero', ty)
        if v == 'none':
            return ('undef', ty)
        if v == 'getelementptr':
            fl = set()
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                if self.next() == 'inrange' and self.peek() == '(':
                    self.skip_paren()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = self.typed_list(')')
            return ('cgep', bt, ops)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
            self.expect('(')
            t1 = self.type()
            x = self.value(t1)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', v, t1, x, t2)
        if v in ('add', 'sub', 'mul', 'xor', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            ops = self.typed_list(')')
            return ('cbin', v, ops)
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek() == '{':
                self.next()
                el = self.typed_list('}')
                self.expect('>')
            else:
                el = self.typed_list(close)
            return ('agg', el)
        if v[0] == 'c' and v[1:2] == '"':
            return ('cstr', v[2:-1])
        if ty.k in ('double', 'float'):
            if v.startswith('0x'):
                b = int(v[2:], 16)
                return ('fp', struct.unpack('>d', struct.pack('>Q', b))[0])
            return ('fp', float(v))
        if ty.k == 'int':
            return ('int', int(v))
        if v[0] == '!':
            return ('meta', v)
        raise IRError('value? %s : %r' % (v, ty))

    def typed(self):
        t = self.type()
        self.skip_attrs()
        if t.k == 'metadata':
            # swallow to , or )
            d = 0
            while True:
                v = self.peek()
                if v is None or (d == 0 and v in (',', ')')):
                    break
                if v in '({':
                    d += 1
                if v in ')}':
                    d -= 1
                self.next()
            return (t, ('meta',))
        return (t, self.value(t))

    def typed_list(self, close):
        out = []
        while not self.eat(close):
            while self.peek() == 'inrange':
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
            out.append(self.typed())
            self.eat(',')
        return out


class Ins:
    __slots__ = ('op', 'res', 'a', 'line')

    def __init__(self, op, res, a, line):
        self.op, self.res, self.a, self.line = op, res, a, line

    def __repr__(self):
        return self.line.strip()


class Func:
    def __init__(self, name, ret, params, body_lines, mod):
        self.name, self.ret, self.params, self.mod = name, ret, params, mod
        self.lines = body_lines
        self._blocks = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        order = []
        cur = None
        pend = ''
        for ln in self.lines:
            s = ln.rstrip()
            if not s or s.lstrip().startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                if pend:
                    blocks[cur].append(self.parse_ins(pend)); pend = ''
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = '%entry0'
                blocks[cur] = []
                order.append(cur)
            st = s.strip()
            # continuation lines: invoke's "to label", landingpad clauses, switch tables
            if pend and (st.startswith('to label') or st.startswith('catch ') or st.startswith('cleanup')
                         or st.startswith('filter ') or st.startswith(']') or pend.rstrip().endswith('[')
                         or ('switch ' in pend and ']' not in pend)):
                pend += ' ' + st
                continue
            if pend:
                blocks[cur].append(self.parse_ins(pend))
            pend = st
        if pend:
            blocks[cur].append(self.parse_ins(pend))
        self._blocks = blocks
        self.order = order
        self.entry = order[0]

    def parse_ins(self, s):
        # strip metadata attachments and comments
        line = s
        s = re.sub(r',\s*![a-zA-Z_.][-a-zA-Z$._0-9]*\s+!(\{[^}]*\}|[0-9]+|DILocation\([^)]*\))', '', s)
        s = re.sub(r'\s;.*$', '', s) if '"' not in s else s
        p = P(tokenize(s), self.mod)
        res = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            res = p.next()
            p.next()
        op = p.next()
        try:
            return Ins(op, res, self.args(op, p), line)
        except (IRError, IndexError) as e:
            return Ins('unsupported', res, str(e), line)

    def args(self, op, p):
        def flags(*fs):
            while p.peek() in fs or p.peek() in FMF:
                p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
            return ('_call', self.call_args(p))
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FMF:
                fl.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return (t, a, b, fl)
        if op == 'fneg':
            flags()
            t = p.type()
            return (t, p.value(t))
        if op in ('icmp', 'fcmp'):
            flags('samesign')
            c = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return (c, t, a, b)
        if op in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint',
                  'inttoptr', 'bitcast', 'addrspacecast'):
            flags('nneg', 'nuw', 'nsw')
            t = p.type()
            a = p.value(t)
            p.expect('to')
            return (t, a, p.type())
        if op == 'freeze':
            return p.typed()
        if op == 'select':
            flags()
            c = p.typed()
            p.expect(',')
            a = p.typed()
            p.expect(',')
            b = p.typed()
            return (c, a, b)
        if op == 'phi':
            flags()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()
                p.expect(']')
                inc.append((v, b))
                if not p.eat(','):
                    break
            return (t, inc)
        if op == 'load':
            flags('volatile', 'atomic')
            t = p.type()
            p.expect(',')
            return (t, p.typed()[1])
        if op == 'store':
            flags('volatile', 'atomic')
            t, v = p.typed()
            p.expect(',')
            return (t, v, p.typed()[1])
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            base = p.typed()
            idx = []
            while p.eat(','):
                idx.append(p.typed())
            return (bt, base, idx)
        if op == 'alloca':
            flags('inalloca')
            t = p.type()
            n = None
            while p.eat(','):
                if p.peek() == 'align':
                    p.next(); p.next()
                else:
                    n = p.typed()
            return (t, n)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return ('u', p.next())
            t, c = p.typed()
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            return ('c', c, a, p.next())
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while not p.eat(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cs.append((cv, p.next()))
            return (t, v, d, cs)
        if op == 'ret':
            if p.peek() == 'void':
                return None
            return p.typed()
        if op in ('unreachable',):
            return None
        if op == 'call':
            return self.call_args(p)
        if op == 'invoke':
            c = self.call_args(p)
            while p.peek() != 'to':
                p.next()
            p.expect('to')
            p.expect('label')
            a = p.next()
            p.expect('unwind')
            p.expect('label')
            return (c, a, p.next())
        if op == 'extractvalue':
            a = p.typed()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return (a, idx)
        if op == 'insertvalue':
            a = p.typed()
            p.expect(',')
            b = p.typed()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return (a, b, idx)
        if op in ('landingpad', 'resume', 'fence', 'cmpxchg', 'atomicrmw', 'va_arg', 'extractelement',
                  'insertelement', 'shufflevector'):
            if op == 'extractelement':
                a = p.typed(); p.expect(','); return (a, p.typed())
            if op == 'insertelement':
                a = p.typed(); p.expect(','); b = p.typed(); p.expect(','); return (a, b, p.typed())
            if op == 'atomicrmw':
                flags('volatile')
                o = p.next()
                a = p.typed(); p.expect(','); b = p.typed()
                return (o, a, b)
            return None
        raise IRError('op ' + op)

    def call_args(self, p):
        while p.peek() in FMF or p.peek() in LINK or p.peek() in SIMPLE_ATTRS or p.peek() in PARAM_ATTRS_PAREN:
            if p.peek() in PARAM_ATTRS_PAREN:
                p.skip_attrs()
            else:
                p.next()
        rt = p.type()
        callee = p.next()
        if callee[0] not in '%@':
            raise IRError('callee ' + callee)
        p.expect('(')
        args = p.typed_list(')')
        return (rt, callee, args)


class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                body = []
                hdr = ln
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                name, ret, params = self.header(hdr)
                self.funcs[name] = Func(name, ret, params, body, self)
            elif ln.startswith('declare '):
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
                if m:
                    self.decls[m.group(1)[1:].strip('"')] = ln
            elif ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                self.types[nm] = rest
            elif ln.startswith('@') and ' = ' in ln:
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)', ln)
                if m:
                    if ' alias ' in ln:
                        mm = re.search(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', ln)
                        if mm:
                            self.aliases[m.group(1)] = mm.group(1)
                    else:
                        self.globals[m.group(1)] = m.group(2)
            i += 1
        self._lay = {}

    def header(self, s):
        m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', s)
        name = m.group(1)[1:].strip('"')
        pre = s[len('define '):m.start()]
        p = P(tokenize(pre), self)
        while p.peek() in LINK or p.peek() in SIMPLE_ATTRS or p.peek() in PARAM_ATTRS_PAREN:
            if p.peek() in PARAM_ATTRS_PAREN:
                p.skip_attrs()
            else:
                p.next()
        ret = p.type()
        rest = s[m.end() - 1:]
        # parameters: find the matching paren
        d = 0
        q = False
        for j, c in enumerate(rest):
            if c == '"':
                q = not q
            if q:
                continue
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    break
        p = P(tokenize(rest[1:j]), self)
        params = []
        while p.peek() is not None:
            if p.peek() == '...':
                p.next()
                continue
            t = p.type()
            p.skip_attrs()
            nm = None
            if p.peek() is not None and p.peek()[0] == '%':
                nm = p.next()
            params.append((t, nm if nm else '%' + str(len(params))))
            p.eat(',')
        return name, ret, params

    def resolve(self, t):
        while t.k == 'named':
            if t.a in self._lay:
                t = self._lay[t.a]
                continue
            p = P(tokenize(self.types[t.a]), self)
            r = p.type()
            self._lay[t.a] = r
            t = r
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            b = max(1, (t.a + 7) // 8)
            r = 1
            while r < b:
                r *= 2
            return min(r, 16)
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'arr':
            return self.align(t.b)
        if t.k == 'vec':
            return min(16, self.size(t))
        if t.k == 'struct':
            return max([1] + [self.align(x) for x in t.a])
        if t.k == 'pstruct':
            return 1
        if t.k == 'x86_fp80':
            return 16
        raise IRError('align ' + repr(t))

    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            b = (t.a + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'arr':
            return t.a * self.size(t.b)
        if t.k == 'vec':
            return t.a * self.size(t.b)
        if t.k == 'struct':
            offs, sz = self.struct(t)
            return sz
        if t.k == 'pstruct':
            return sum(self.size(x) for x in t.a)
        if t.k == 'x86_fp80':
            return 16
        if t.k == 'opaque':
            return 0
        raise IRError('size ' + repr(t))

    def struct(self, t):
        o = 0
        offs = []
        for x in t.a:
            if t.k == 'struct':
                a = self.align(x)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(x)
        if t.k == 'struct':
            a = self.align(t)
            o = (o + a - 1) // a * a
        return offs, o

    def field(self, t, i):
        """byte offset and type of element i of aggregate t"""
        t = self.resolve(t)
        if t.k in ('struct', 'pstruct'):
            offs, _ = self.struct(t)
            return offs[i], t.a[i]
        if t.k in ('arr', 'vec'):
            return i * self.size(t.b), t.b
        raise IRError('field of ' + repr(t))
