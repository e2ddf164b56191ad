from vcgen.contract import *


class IfThere(Fold):
    """what is known if the column is in the file"""

    def claim(self, i, j, levels, rd, weak=False):
        return imp(self.there(i, j), super().claim(i, j, levels, rd, weak))


class Read(Contract):
    """the file holds a column-major matrix; the block asked for is read"""
    entry, es, row, new = 'vc_file_read', 8, False, False
    SETTINGS = ('nr', 'nc', 'rld', 'cld', 'ro', 'co')

    def setup(self, ex, st, fn):
        nr, nc, rld, cld, ro, co = self.s = [ivar(x, True) for x in self.SETTINGS]
        if self.row:
            st.pc.append(le(nr, 2 ** 60 - 1))      # a column is less than the largest std::vector
        words, more = ivar('words', True), ivar('more', True)
        st.pc.append(lt(more, self.es))
        self.size = words * self.es + more
        self.file = self.array(ex, st, 'F', words, es=self.es)
        self.words = words
        self.bad = ivar('bad', True)
        st.pc.append(le(self.bad, 1))
        self.hooks = {'vc_setting': lambda ex, st, i: self.s[i.const()] if i.const() < 6 else ZERO, 'vc_no_file': lambda ex, st: eq(self.bad, 1),
                      'vc_file_size': lambda ex, st: self.size, 'vc_file': lambda ex, st: self.file, 'vc_dense': self.out, 'vc_densef': self.out}
        at = lambda i, j: self.elem('F', ro + i + (co + j) * rld)
        self.at = at
        self.scalars = [Scal('position', {'j': nc, 'i': nr}, lambda t: (ro + (co + t['j']) * rld) * self.es if 'j' in t else None, sort='I')]
        end = lambda j: (ro + (co + j) * rld + nr) * self.es
        self.there = lambda j: disj(eq(nr, 0), le(end(j), self.size))
        ex.facts.add('F', lambda q: [])
        self.scalars.append(Scal('a column is missing', {'j': nc, 'i': nr}, lambda t: ite(conj(ge(t['j'], 1), neg(self.there(t['j'] - 1))), ONE, ZERO, 'I') if 'j' in t else None, sort='I'))
        f = IfThere('elements', nr, nc, lambda i, j, k: at(i, j) if k.const() != 0 else ZERO)
        f.there = lambda i, j: self.there(j)
        # row-major: the first index is the column
        g = IfThere('elements by row', nc, nr, lambda j, i, k: at(i, j) if k.const() != 0 else ZERO)
        g.there = lambda j, i: self.there(j)
        self.folds = [g if self.row else f]
        if self.row:
            self.scalars = [Scal(x.name, {'i': nc, 'j': nr}, lambda t, x=x: x.val({'j': t['i']}) if 'i' in t else None, sort='I') for x in self.scalars]
        is_ = ex.newreg(st, 'is', 'ext', None)
        if self.new:
            return [Ptr(is_, ZERO)]
        r, c = ivar('r', True), ivar('c', True)
        # memory of the user is not replaced by memory of another size
        self.own = r * c
        return [r, c, self.array(ex, st, 'A', r * c, es=self.es, rw=True), Ptr(is_, ZERO)]

    def on_throw(self, ex, st, a):
        nr, nc, rld, cld, ro, co = self.s
        fits = conj(le(nr + ro, rld), le(nc + co, cld), *([] if self.new else [eq(self.own, nr * nc)]))
        ex.require(st, neg(conj(fits, eq(self.bad, 0), disj(eq(nc, 0), self.there(nc - 1)))), 'post: an error only if the block is not in the file')

    def out(self, ex, st, p, r, c, size):
        nr, nc, rld, cld, ro, co = self.s
        st.user['seen'] = 1
        ex.require(st, conj(eq(r, nr), eq(c, nc), eq(size, nr * nc)), 'post: shape')
        ex.require(st, conj(le(nr + ro, rld), le(nc + co, cld)), 'post: the block lies in the matrix of the file')
        ex.require(st, eq(self.bad, 0), 'post: the file is there')
        i, j = ivar('i', True), ivar('j', True)
        st.pc += [lt(i, nr), lt(j, nc)]
        q = i + j * nr if not self.row else j + i * nc
        ex.require(st, req(self.read(ex, st, p, q, self.es), self.at(i, j)), 'post: element (i,j) is the element at its place in the file')


PROOFS = []
for f, es in (('', 8), ('f', 4)):
    for n, kw in (('read', {}), ('row', dict(row=True)), ('new', dict(new=True))):
        e = 'vc_file_' + n + f
        PROOFS.append(('fileio%s.cpp' % f, type(e, (Read,), dict(kw, entry=e, es=es))))
DRIVERS = ['fileio']
TRUST = ['std::ifstream by a stand-in: an array with a position; reading beyond its end leaves the stream in an error state, as does a file that cannot be opened',
         'read_xml and the settings record by a stand-in: the members of the record are arbitrary numbers']
NOTE = ('all settings, all file lengths and contents, column- and row-major matrices, new matrices and matrices on memory of the user, double and float; file, property tree and settings record are stand-ins, '
        'the real file stream runs in bounded cases')
