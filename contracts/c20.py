import os
import re
import z3
from vcgen import build
from vcgen.flat import *


def same(x, y):
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x.reg == y.reg and x.off == y.off
    x, y = (v.v if isinstance(v, Vec) else v for v in (x, y))
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if z3.is_ast(x) and z3.is_ast(y):
        return x.sort() == y.sort() and z3.is_true(z3.simplify(x == y if not z3.is_fp(x) else z3.fpToIEEEBV(x) == z3.fpToIEEEBV(y))) or x.eq(y)
    return x is None and y is None


class Wrapper(Flat):
    """exactly one call, of the routine of that name, with the arguments in order; its value is returned"""
    routine, hidden = None, False

    def post(self, ex, args, path):
        if path.kind == 'throw':
            return [('post: the wrapper does not throw', False)]
        ev = path.called()
        out = [('post: exactly one call', len(ev) == 1), ('post: no other memory is written', not path.stores())]
        if len(ev) != 1:
            return out
        _, name, got, ret = ev[0]
        out.append(('post: the routine of that name is called', name == self.routine))
        if self.hidden:
            out.append(('post: the arguments are passed unchanged and in order', len(got) == len(args) + 1 and all(same(a, b) for a, b in zip(got[1:], args))))
            out.append(('post: the result of the routine is returned', same(path.val, path.st.out)))
        else:
            out.append(('post: the arguments are passed unchanged and in order', len(got) == len(args) and all(same(a, b) for a, b in zip(got, args))))
            out.append(('post: the result of the routine is returned', same(path.val, ret)))
        return out

    def hook(self, ex, st, name, args, rty):
        # MKL complex products: the result is stored through the first argument
        if self.hidden and name == self.routine and args and isinstance(args[0], Ptr) and st.regs.get(args[0].reg) == 'local':
            so = F32 if name[0] == 'c' else F64
            v = [z3.FP('re', so), z3.FP('im', so)]
            n = 4 if name[0] == 'c' else 8
            st.mem[args[0].reg] = {args[0].off: (n, v[0]), args[0].off + n: (n, v[1])}
            st.events.append(('call', name, args, None))
            st.out = v
            return ()
        return None


class Threads(Flat):
    def post(self, ex, args, path):
        ev = [(e[1], e[2]) for e in path.called()]
        if self.entry == 'vc_open_threads':
            ok = len(ev) == 1 and ev[0][0] == 'openblas_set_num_threads' and same(ev[0][1][0], args[0])
        else:
            ok = ev and ev[-1][0] == 'MKL_Set_Num_Threads' and same(ev[-1][1][0], args[0])
        return [('post: the number of threads is passed on', bool(ok)), ('post: no other memory is written', not path.stores())]


PROOFS = []
for l in open(os.path.join(build.HERE, 'harness', 'blas_list.h')):
    m = re.match(r'(BLAS|CDOT|SPBLAS)\((\w+),', l)
    if not m:
        continue
    k, n = m.groups()
    if k != 'SPBLAS':
        e = 'vc_open_' + n
        PROOFS.append(('openblas.cpp', type(e, (Wrapper,), dict(entry=e, routine=n + '_'))))
    e = 'vc_mkl_' + n
    PROOFS.append(('mkl.cpp', type(e, (Wrapper,), dict(entry=e, routine='mkl_' + n if k == 'SPBLAS' else n + '_', hidden=k == 'CDOT'))))
PROOFS += [('openblas.cpp', type('vc_open_threads', (Threads,), dict(entry='vc_open_threads'))), ('mkl.cpp', type('vc_mkl_threads', (Threads,), dict(entry='vc_mkl_threads')))]
FLAGS = ['-I%s/src' % build.REPO]
DRIVERS = ['blas']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: every path of each wrapper (LLVM IR of the real sources) against a call contract'
NOTE = 'the BLAS routines themselves are external; which argument order and result a routine has is taken from the reference BLAS'
