from .dense import *


class Op(DenseMap):
    what = 'C(i,j) = A(i,j) op B(i,j)'
    sign = 1

    def f(self, i, j):
        return self.at('A', i, j) + self.at('B', i, j) * self.sign

    def initial(self, i, j):
        return self.at('A', i, j)


D, F = 8, 4
table = [
    # entry, A, B, result, sign, row, in place
    ('vc_add', D, D, D, 1, 0, 0), ('vc_sub', D, D, D, -1, 0, 0), ('vc_addf', F, F, F, 1, 0, 0), ('vc_subf', F, F, F, -1, 0, 0),
    ('vc_addfd', F, D, D, 1, 0, 0), ('vc_subfd', F, D, D, -1, 0, 0), ('vc_adddf', D, F, D, 1, 0, 0), ('vc_subdf', D, F, D, -1, 0, 0),
    ('vc_addr_', D, D, D, 1, 1, 0), ('vc_subr', D, D, D, -1, 1, 0),
    ('vc_addto', D, D, D, 1, 0, 1), ('vc_subto', D, D, D, -1, 0, 1), ('vc_addtof', F, F, F, 1, 0, 1), ('vc_subtof', F, F, F, -1, 0, 1),
    ('vc_addtodf', D, F, D, 1, 0, 1), ('vc_subtodf', D, F, D, -1, 0, 1), ('vc_addtor', D, D, D, 1, 1, 1), ('vc_subtor', D, D, D, -1, 1, 1),
]
PROOFS = []
for e, a, b, c, s, row, inpl in table:
    cls = make(Op, e, entry=e, arrays=(('A', a), ('B', b)), es=c, sign=s, row=bool(row), rw=('A',) if inpl else ())
    globals()[e] = cls
    PROOFS.append(('dense.cpp', cls))


class AddSelf(Op):
    entry = 'vc_addself'
    arrays, rw = (('A', 8),), ('A',)

    def f(self, i, j):
        return self.at('A', i, j) * 2


class SubSelf(Op):
    entry = 'vc_subself'
    arrays = (('A', 8),)

    def f(self, i, j):
        return ZERO


class SubSelfTo(SubSelf):
    entry, rw = 'vc_subselfto', ('A',)

    def initial(self, i, j):
        return self.at('A', i, j)


class Again(Op):
    """the target already has some other shape and content"""
    arrays = (('A', 8), ('B', 8))

    def params(self, ex, st):
        v = super().params(ex, st)
        return v + [ivar('r', True), ivar('c', True)]


T = lambda b, e, **kw: type(e, (b,), dict(kw, entry=e))
PROOFS += [('dense.cpp', c) for c in (T(Again, 'vc_add_again'), T(Again, 'vc_sub_again', sign=-1), T(Again, 'vc_sub_assign', sign=-1),
                                      T(Op, 'vc_sub_inplace', arrays=(('A', 8), ('B', 8)), sign=-1, rw=('A',)))]
PROOFS += [('dense.cpp', SubSelfTo), ('dense.cpp', AddSelf), ('dense.cpp', SubSelf)]
DRIVERS = ['dense']
