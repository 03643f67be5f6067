"""Contracts of malstroem.algorithms.label and its native twin (C07)."""
from .grid import *
from vf.core import State

LP = 'malstroem.algorithms.label.'
LC = 'malstroem.algorithms.speedups._label.'
l, i, j = z3.Ints('l i j')
R = z3.RealSort()
lo_INF = -INF


class Folds(object):
    """ghost: row-major numbering of the cells, and per label l the count, sum, least and greatest value and first
    extreme cell over the cells numbered below i"""

    def __init__(self, fl, lab, data):
        self.fl, self.lab, self.data = fl, lab, data
        self.size = fl.size
        self.CNT = freshf('count', I, I, I)
        if data is not None:
            self.SUM, self.MIN, self.MAX = freshf('sum', I, I, R), freshf('least', I, I, R), freshf('greatest', I, I, R)
            self.AMIN, self.AMAX = freshf('argmin', I, I, I), freshf('argmax', I, I, I)

    def of(self, f, i):
        return f(self.fl.row(i), self.fl.col(i))

    def has(self, l, i):
        return self.of(self.lab, i) == l

    def steps(self, l, i):
        """what adding cell i does"""
        n = i + 1
        h = self.has(l, i)
        out = [(self.CNT, self.CNT(l, n) == self.CNT(l, i) + z3.If(h, 1, 0))]
        if self.data is not None:
            v = self.of(self.data, i)
            out += [(self.SUM, self.SUM(l, n) == z3.If(h, R8(self.SUM(l, i) + v), self.SUM(l, i))),
                    (self.MIN, self.MIN(l, n) == z3.If(z3.And(h, v < self.MIN(l, i)), v, self.MIN(l, i))),
                    (self.MAX, self.MAX(l, n) == z3.If(z3.And(h, v > self.MAX(l, i)), v, self.MAX(l, i))),
                    (self.AMIN, self.AMIN(l, n) == z3.If(z3.And(h, v < self.MIN(l, i)), i, self.AMIN(l, i))),
                    (self.AMAX, self.AMAX(l, n) == z3.If(z3.And(h, v > self.MAX(l, i)), i, self.AMAX(l, i)))]
        return out

    def starts(self):
        z = z3.IntVal(0)
        out = [(self.CNT, self.CNT(l, z) == 0)]
        if self.data is not None:
            out += [(self.SUM, self.SUM(l, z) == 0), (self.MIN, self.MIN(l, z) == INF), (self.MAX, self.MAX(l, z) == lo_INF),
                    (self.AMIN, self.AMIN(l, z) == -1), (self.AMAX, self.AMAX(l, z) == -1)]
        return out

    def axioms(self):
        out = [forall([l], t, f(l, z3.IntVal(0))) for f, t in self.starts()]
        for f, t in self.steps(l, i):
            out.append(z3.ForAll([l, i], z3.Implies(z3.And(AT(i), i >= 0, i < self.size), t), patterns=[z3.MultiPattern(AT(i), f(l, i))]))
        out.append(AT_AX)
        H, W = self.fl.shape
        x = self.fl.idx
        out += [z3.ForAll([r, c], z3.Implies(z3.And(HERE(r, c), r >= 0, r < H, c >= 0, c < W), z3.And(x(r, c + 1) == x(r, c) + 1, x(r, c) >= 0, x(r, c) < self.size)), patterns=[HERE(r, c)]),
                z3.ForAll([r], z3.Implies(z3.And(AT(r), r >= 0, r < H), x(r, W) == x(r + 1, 0)), patterns=[x(r, W)]),
                x(0, 0) == 0, x(H, 0) == self.size, HERE_AX[1]]
        out.append(forall([l, i], self.CNT(l, i) >= 0, self.CNT(l, i)))
        return out


def folds(ex, st, lab, data=None):
    """the ghost of a label raster and a data raster (both heap contents)"""
    key = ('folds', id(lab.fn), id(data.fn) if data is not None else None)
    tab = ex.__dict__.setdefault('ghosts', {})
    if key not in tab:
        g = tab[key] = Folds(ex.lib.flat(lab.shape), lab.fn, data.fn if data is not None else None)
        g.keep = lab.fn, data
    g = tab[key]
    if key not in st.ghost:
        st.ghost[key] = True
        ex.lib.flat_facts(st, g.fl, lab.shape)
        for t in g.axioms():
            st.assume(t)
    return g


def none(v):
    """condition that an optional argument is missing (or zero)"""
    return falsy(v)


class Stats(Contract):
    """Per label count, sum, least and greatest value of exactly its own cells."""
    quals = (LP + 'label_stats', LC + 'label_stats')
    params = ('data', 'labelled', 'nlabels')
    variant = 'f4,i4'
    fields = ('count', 'sum', 'min', 'max')

    def setup(self, ex, st, fn):
        d = dims(st, lo=1)
        kd, kl = self.variant.split(',')
        n = z3.Int('nlabels')
        return {'data': arr(ex, st, 'data', kd, d), 'labelled': arr(ex, st, 'labelled', kl, d), 'nlabels': Opt(z3.Bool('nlabels_none'), N(n, 'int'))}

    def accepts(self, ex, st, a):
        return is_arr(st, a.data, 2) and is_arr(st, a.labelled, 2) and st.heap[a.labelled.id].dt.k in INTK

    def ghost(self, ex, st, a):
        return folds(ex, st, st.heap[a.labelled.id], st.heap[a.data.id])

    def given(self, a):
        n, v = some(a.nlabels)
        return z3.BoolVal(False) if v is None else z3.And(z3.Not(n), iterm(v) != 0), (z3.IntVal(0) if v is None else iterm(v))

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.data)
        h, w = shape_of(st, a.labelled)
        giv, n = self.given(a)
        L = fn_of(st, a.labelled)
        return [('same shape', z3.And(H == h, W == w, H >= 1, W >= 1)), ('number of labels is natural', z3.Implies(giv, z3.And(n >= 0, n < 2 ** 31 - 2))),
                ('labels are natural and below the number of labels', forall([r, c], z3.Implies(inside(r, c, H, W), z3.And(L(r, c) >= 0, L(r, c) < 2 ** 31 - 2, z3.Implies(giv, L(r, c) <= n))), L(r, c)))]

    def result(self, ex, st, a, g):
        n = fresh('records', I)
        F = {f: freshf('stat_' + f, I, I if f in ('count', 'row', 'col') else R) for f in self.fields}
        return ex.alloc(st, ArrC(DT('rec', tuple((f, 'i8' if f in ('count', 'row', 'col') else 'f8') for f in self.fields)), (N(n, 'int'),), F))

    def fold(self, g, i):
        return {'count': g.CNT, 'sum': g.SUM, 'min': g.MIN, 'max': g.MAX}

    def values(self, g, l, i):
        return {'count': g.CNT(l, i), 'sum': g.SUM(l, i), 'min': g.MIN(l, i), 'max': g.MAX(l, i)}

    def length(self, old, st, a, n):
        giv, m = self.given(a)
        H, W = shape_of(old, a.data)
        L = fn_of(old, a.labelled)
        return [('one record for each label given', z3.Implies(giv, n == m + 1)),
                ('a record for every label in use', forall([r, c], z3.Implies(inside(r, c, H, W), L(r, c) < n), L(r, c))),
                ('no record beyond the greatest label', z3.Or(giv, z3.Exists([r, c], z3.And(inside(r, c, H, W), L(r, c) == n - 1))))]

    def post(self, ex, old, st, a, g, res):
        if not is_arr(st, res, 1) or not isinstance(st.heap[res.id].fn, dict) or set(self.fields) - set(st.heap[res.id].fn):
            return [('result is a record array', z3.BoolVal(False))]
        F = st.heap[res.id].fn
        n = iterm(st.heap[res.id].shape[0])
        V = self.values(g, l, g.size)
        out = self.length(old, st, a, n)
        for f in self.fields:
            v = F[f](l)
            out.append(('%s is that of the cells of the label' % f, forall([l], z3.Implies(z3.And(l >= 0, l < n), (z3.ToReal(v) if v.sort() != V[f].sort() else v) == V[f]), v)))
        return out

    def same(self, x, y):
        s = z3.Solver()
        s.add(y >= 1, x != y)
        return s.check() == z3.unsat

    def where(self, cc, g):
        """number of cells before the current one, and the mark of the position"""
        d = len(cc.outer)
        if d:
            R0 = cc.up().k
            return g.fl.idx(R0, cc.k), [('mark', z3.And(HERE(R0, cc.k), AT(g.fl.idx(R0, cc.k)), AT(R0)))]
        if cc.n is not None and self.same(iterm(cc.n), g.size):
            return cc.k, [('mark', AT(cc.k))]
        return g.fl.idx(cc.k, 0), [('mark', z3.And(HERE(cc.k, 0), AT(cc.k)))]

    def loops(self, ex, entry, a, g):
        H, W = shape_of(entry, a.data)

        def inv(cc):
            i, out = self.where(cc, g)
            V = self.values(g, l, i)
            for h in sorted(cc.mod_heap):
                ar = cc.st.heap.get(h)
                if isinstance(ar, ArrC) and isinstance(ar.fn, dict) and len(ar.shape) == 1:
                    n = iterm(ar.shape[0])
                    for f in self.fields:
                        if f in ar.fn:
                            out.append(('%s so far' % f, forall([l], z3.Implies(z3.And(l >= 0, l < n), ar.fn[f](l) == V[f]), ar.fn[f](l))))
            return out
        return {1: LoopSpec(inv, lambda cc: [('k <= rows', cc.k <= H)]), 2: LoopSpec(inv, lambda cc: [('k <= columns', cc.k <= W)])}


class MinIndex(Stats):
    """Per label the first cell in row order with the least value."""
    quals = (LP + 'label_min_index', LC + 'label_min_index')
    variant = 'f8,i4'
    fields = ('value', 'row', 'col')

    def values(self, g, l, i):
        x = g.AMIN(l, i)
        return {'value': g.MIN(l, i), 'row': z3.If(x < 0, -1, g.fl.row(x)), 'col': z3.If(x < 0, -1, g.fl.col(x))}


class MaxIndex(MinIndex):
    """Per label the first cell in row order with the greatest value."""
    quals = (LP + 'label_max_index',)

    def values(self, g, l, i):
        x = g.AMAX(l, i)
        return {'value': g.MAX(l, i), 'row': z3.If(x < 0, -1, g.fl.row(x)), 'col': z3.If(x < 0, -1, g.fl.col(x))}


class Extreme(Contract):
    """What the recorded extreme means: no cell of the label is lower, and those before the recorded one are higher."""

    def prove(self, ex):
        ex.topname = 'meaning of least value and its cell'

        class F(object):
            pass
        fl = F()
        fl.size, fl.row, fl.col, fl.idx = z3.Int('size'), z3.Function('rowof', I, I), z3.Function('colof', I, I), z3.Function('idx', I, I, I)
        fl.shape = z3.Int('H'), z3.Int('W')
        g = Folds(fl, z3.Function('lab', I, I, I), z3.Function('data', I, I, R))
        L = z3.Int('L')
        for nm, V, A, lt, unused in (('least', g.MIN, g.AMIN, lambda x, y: x < y, INF), ('greatest', g.MAX, g.AMAX, lambda x, y: x > y, lo_INF)):
            st = State()
            st.assume(forall([r, c], z3.And(g.data(r, c) <= INF, g.data(r, c) >= lo_INF), g.data(r, c)))
            steps = z3.And([z3.substitute(t, (l, L), (i, i - 1)) for _, t in g.steps(l, i)])
            starts = z3.And([z3.substitute(t, (l, L)) for _, t in g.starts()])
            upto = lambda i: z3.And(
                z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i, g.has(L, j)), z3.And(z3.Not(lt(g.of(g.data, j), V(L, i))), z3.Implies(j < A(L, i), lt(V(L, i), g.of(g.data, j))))), patterns=[fl.row(j)]),
                z3.Or(z3.And(A(L, i) == -1, V(L, i) == unused), z3.And(A(L, i) >= 0, A(L, i) < i, g.has(L, A(L, i)), V(L, i) == g.of(g.data, A(L, i)))))
            x = st.copy()
            x.assume(starts)
            ex.obl(x, 'the %s value is attained first at the recorded cell: no cells' % nm, upto(z3.IntVal(0)), 'lemma')
            x = st.copy()
            for t in (i >= 1, i <= g.size, steps, upto(i - 1)):
                x.assume(t)
            ex.obl(x, 'the %s value is attained first at the recorded cell: one more cell' % nm, upto(i), 'lemma')


class Data(Contract):
    """Per label the values of exactly its own cells in row order, none for the background."""
    quals = (LP + 'label_data', LC + 'label_data')
    params = ('data', 'labelled', 'nlabels', 'background')
    variant = 'f4,i4'

    def setup(self, ex, st, fn):
        d = Stats.setup(self, ex, st, fn)
        d['background'] = integer(st, 'background', -2 ** 31, 2 ** 31 - 1)
        return d

    def accepts(self, ex, st, a):
        return Stats.accepts(self, ex, st, a) and is_num(a.background)

    def given(self, a):
        n, v = some(a.nlabels)
        return z3.BoolVal(False) if v is None else z3.Not(n), (z3.IntVal(0) if v is None else iterm(v))

    length = Stats.length

    def ghost(self, ex, st, a):
        return folds(ex, st, st.heap[a.labelled.id])

    def pre(self, ex, st, a, g):
        return Stats.pre(self, ex, st, a, g)

    def result(self, ex, st, a, g):
        n, ln, at = fresh('lists', I), freshf('list_len', I, I), freshf('list_at', I, I, R)
        return ex.alloc(st, FamC(n, lambda i: ln(i), lambda i, k: N(at(i, k), st.heap[a.data.id].dt.k)))

    def family(self, ex, st, v):
        """(number of lists, length, element) of a list of lists"""
        c = st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(c, FamC):
            return c.n, c.ln, c.at
        if isinstance(c, TreeC) and isinstance(c.v, SeqV):
            return c.v.n, (lambda x: c.v.at(x).n), (lambda x, k: c.v.at(x).at(k))
        if isinstance(c, SeqC):
            def one(x):
                e = c.at(x)
                if isinstance(e, PRef):
                    e = ex.lib.deref(ex, st, e, raw=True)
                return e
            return c.n, (lambda x: one(x).n), (lambda x, k: one(x).at(k))
        return None

    def lists(self, ex, st, a, g, v, i):
        """the lists hold the values of the first i cells"""
        fam = self.family(ex, st, v)
        if fam is None:
            return [('result is a list of lists', z3.BoolVal(False))]
        n, ln, at = fam
        bg = iterm(a.background)
        data = fn_of(st, a.data)
        k = g.has
        lab = g.of(g.lab, j)
        e = at(lab, g.CNT(lab, j))
        out = [('as many values as cells', forall([l], z3.Implies(z3.And(l >= 0, l < n), ln(l) == z3.If(l == bg, 0, g.CNT(l, i))), ln(l), g.CNT(l, i)))]
        nn, e = some(e)
        if e is not None:
            out.append(('values in row order', forall([j], z3.Implies(z3.And(j >= 0, j < i, lab != bg), z3.And(z3.Not(nn), rterm(e) == g.of(data, j))), g.fl.row(j))))
        out.append(('counts grow', forall([j], z3.Implies(z3.And(j >= 0, j < i), g.CNT(lab, j) < g.CNT(lab, i)), g.fl.row(j))))
        return out

    def post(self, ex, old, st, a, g, res):
        fam = self.family(ex, st, res)
        if fam is None:
            return [('result is a list of lists', z3.BoolVal(False))]
        return self.length(old, st, a, fam[0]) + self.lists(ex, st, a, g, res, g.size)

    where, same = Stats.where, Stats.same

    def loops(self, ex, entry, a, g):
        H, W = shape_of(entry, a.data)

        def inv(cc):
            i, out = self.where(cc, g)
            for h in sorted(cc.mod_heap):
                if isinstance(cc.st.heap.get(h), (FamC, TreeC)):
                    out += self.lists(ex, cc.st, a, g, Ref(h), i)
            return out
        return {1: LoopSpec(inv, lambda cc: [('k <= rows', cc.k <= H)]), 2: LoopSpec(inv, lambda cc: [('k <= columns', cc.k <= W)])}


class SetValues(Contract):
    """Every cell gets the value listed for its label."""
    quals = (LP + 'set_label_to_value',)
    params = ('labelled', 'bluespot_values')
    variant = 'array'

    def setup(self, ex, st, fn):
        n = z3.Int('nvalues')
        st.assume(n >= 0)
        f = z3.Function('values', I, R)
        vals = arr(ex, st, 'values', 'f8', (N(n, 'int'),)) if self.variant == 'array' else ex.alloc(st, SeqC(n, lambda k: N(f(k), 'f8')))
        return {'labelled': arr(ex, st, 'labelled', 'i4', dims(st, lo=1)), 'bluespot_values': vals}

    def values(self, st, a):
        """(number, value by label, kind)"""
        c = st.heap.get(a.bluespot_values.id) if isinstance(a.bluespot_values, Ref) else None
        if isinstance(c, ArrC) and len(c.shape) == 1 and not isinstance(c.fn, dict):
            return iterm(c.shape[0]), c.fn, c.dt.k
        if isinstance(c, SeqC) and is_num(c.at(z3.IntVal(0))) and kind(c.at(z3.IntVal(0))) in FLTK:
            return iterm(c.n), (lambda k: rterm(c.at(k))), 'f8'
        return None

    def accepts(self, ex, st, a):
        return is_arr(st, a.labelled, 2) and self.values(st, a) is not None

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.labelled)
        L = fn_of(st, a.labelled)
        return [('a value for every label', forall([r, c], z3.Implies(inside(r, c, H, W), z3.And(L(r, c) >= 0, L(r, c) < self.values(st, a)[0])), L(r, c)))]

    def result(self, ex, st, a, g):
        return arr(ex, st, str(fresh('setvalues', I)), self.values(st, a)[2], st.heap[a.labelled.id].shape)

    def post(self, ex, old, st, a, g, res):
        if not is_arr(st, res, 2):
            return [('result is an array', z3.BoolVal(False))]
        H, W = shape_of(old, a.labelled)
        h, w = shape_of(st, res)
        L, V, F = fn_of(old, a.labelled), self.values(old, a)[1], fn_of(st, res)
        return [('same shape', z3.And(h == H, w == W)), ('every cell has the value of its label', forall([r, c], z3.Implies(inside(r, c, H, W), F(r, c) == V(L(r, c))), F(r, c)))]


class Keep(Contract):
    """A cell is kept exactly when its label is to be kept and is not the background."""
    quals = (LP + 'keep_labels',)
    params = ('labelled', 'keep_label', 'background')

    def setup(self, ex, st, fn):
        n = z3.Int('nkeep')
        st.assume(n >= 1)
        K = z3.Function('keep', I, z3.BoolSort())
        return {'labelled': arr(ex, st, 'labelled', 'i4', dims(st, lo=1)), 'keep_label': ex.alloc(st, SeqC(n, lambda i: N(K(i), 'bool'))), 'background': integer(st, 'background')}

    def accepts(self, ex, st, a):
        c = st.heap.get(a.keep_label.id) if isinstance(a.keep_label, Ref) else None
        return is_arr(st, a.labelled, 2) and isinstance(c, SeqC) and isinstance(c.at(z3.IntVal(0)), (N, bool)) and is_num(a.background)

    def ghost(self, ex, st, a):
        c = st.heap[a.keep_label.id]
        return (lambda i: term(c.at(i))), iterm(c.n)

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.labelled)
        L = fn_of(st, a.labelled)
        b = iterm(a.background)
        return [('an entry for every label', forall([r, c], z3.Implies(inside(r, c, H, W), z3.And(L(r, c) >= 0, L(r, c) < g[1])), L(r, c))), ('background has an entry', z3.And(b >= 0, b < g[1]))]

    def modifies(self, ex, st, a, g):
        return [a.keep_label]

    def result(self, ex, st, a, g):
        return arr(ex, st, str(fresh('kept', I)), 'bool', st.heap[a.labelled.id].shape)

    def post(self, ex, old, st, a, g, res):
        if not is_arr(st, res, 2) or st.heap[res.id].dt.k != 'bool':
            return [('result is an array of truth values', z3.BoolVal(False))]
        H, W = shape_of(old, a.labelled)
        h, w = shape_of(st, res)
        L, F = fn_of(old, a.labelled), fn_of(st, res)
        return [('same shape', z3.And(h == H, w == W)),
                ('kept exactly when listed and not background', forall([r, c], z3.Implies(inside(r, c, H, W), F(r, c) == z3.And(g[0](L(r, c)), L(r, c) != iterm(a.background))), F(r, c)))]


class Count(Contract):
    """Number of cells of every label."""
    quals = (LP + 'label_count',)
    params = ('labelled',)

    def setup(self, ex, st, fn):
        return {'labelled': arr(ex, st, 'labelled', 'i4', dims(st, lo=1))}

    def accepts(self, ex, st, a):
        return is_arr(st, a.labelled, 2)

    def ghost(self, ex, st, a):
        return folds(ex, st, st.heap[a.labelled.id])

    def pre(self, ex, st, a, g):
        H, W = shape_of(st, a.labelled)
        L = fn_of(st, a.labelled)
        return [('labels are natural', forall([r, c], z3.Implies(inside(r, c, H, W), L(r, c) >= 0), L(r, c)))]

    def result(self, ex, st, a, g):
        n = fresh('nlabels', I)
        return arr(ex, st, str(fresh('counts', I)), 'i8', (N(n, 'int'),))

    def lemmas(self, ex, old, st, a, g, res):
        H, W = shape_of(old, a.labelled)
        L = g.lab
        out = []
        for x, n, K in st.ghost.get('bincounts', ()):
            out.append(('same number of cells', n == g.size))
            out.append(('same cells', forall([i], z3.Implies(z3.And(AT(i), i >= 0, i < g.size), x(i) == g.of(L, i)), AT(i))))
            p = i - 1
            out.append(Induct('counts agree', [l, i], z3.And(i >= 0, i <= g.size), i, K(l, i) == g.CNT(l, i), [K(l, i), g.CNT(l, i)],
                              using=[AT(p), g.CNT(l, 0) == 0, K(l, 0) == 0, z3.Implies(z3.And(p >= 0, p < g.size), z3.And(g.steps(l, p)[0][1], K(l, i) == K(l, p) + z3.If(x(p) == l, 1, 0)))]))
        if is_arr(st, res, 1):
            out.append(Induct('a label with a cell has a count', [i, j], z3.And(j >= 0, j < i, i <= g.size), i, g.CNT(g.of(L, j), i) >= 1, [[g.CNT(g.of(L, j), i)]],
                              using=[AT(i - 1), g.CNT(g.of(L, j), i - 1) >= 0, z3.substitute(g.steps(l, i - 1)[0][1], (l, g.of(L, j)))]))
            n = shape_of(st, res)[0]
            x = g.fl.idx(r, c)
            out.append(('labels are counted', forall([r, c], z3.Implies(inside(r, c, H, W), z3.And(x >= 0, x < g.size, g.fl.row(x) == r, g.fl.col(x) == c, g.of(L, x) < n)), x)))
            out.append(('labels are counted at their cell', forall([r, c], z3.Implies(inside(r, c, H, W), z3.And(g.fl.row(x) == r, g.fl.col(x) == c, g.of(L, x) < n)), L(r, c))))
        return out

    def post(self, ex, old, st, a, g, res):
        if not is_arr(st, res, 1):
            return [('result is a list of counts', z3.BoolVal(False))]
        H, W = shape_of(old, a.labelled)
        L = fn_of(old, a.labelled)
        n = shape_of(st, res)[0]
        F = fn_of(st, res)
        return [('a count for every label in use', forall([r, c], z3.Implies(inside(r, c, H, W), L(r, c) < n), L(r, c))),
                ('count of label 0', n >= 1),
                ('labels in use have cells', forall([r, c], z3.Implies(inside(r, c, H, W), F(L(r, c)) >= 1), L(r, c))),
                ('no count beyond the greatest label', z3.Exists([r, c], z3.And(inside(r, c, H, W), L(r, c) == n - 1))),
                ('number of cells of the label', forall([l], z3.Implies(z3.And(l >= 0, l < n), F(l) == g.CNT(l, g.size)), F(l)))]


CONTRACTS = [Stats(), MinIndex(), MaxIndex(), Extreme(), Data(), SetValues(), Keep(), Count()]
